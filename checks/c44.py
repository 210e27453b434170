"""A batch against its elements: whatever else shares the batch, in whatever order,
an element's results and gradients are the ones it gets alone."""
import torch

from lib import gen, ops
from lib.harness import monitor

TECHNIQUE = "runtime monitoring: metamorphic oracle over executions: the batched call is compared with the call on each element alone and with the permuted batch, values and gradients"
RULE = ("batched operators, mesh and cloud methods, losses, renderers, cameras, samplers x options x batches of ragged elements (also empty ones) x permutations and subsets; "
        "distinct = distinct (operator, options, element sizes)")
ASSUMPTIONS = ["stochastic operators (surface sampling, random ray sampling) are excluded: their draws depend on the batch by design",
               "the plane that clips near faces is one number per batch by design (half the smallest znear): batches rendered with the default share one znear",
               "texture maps of different sizes in one batch are resized to a common size by design: maps of one batch share one size here"]

ENTRIES = {}


def entry(f):
    ENTRIES[f.__name__.rstrip("_")] = f
    return f


class Batch:
    """items: one dict of tensors per element; fn(list of dicts) -> list of dicts of results."""
    def __init__(self, items, fn, diff=(), sig=(), atol=1e-5, rtol=1e-5, gtol=1e-4, mean=(), edges=None):
        self.edges = edges  # the key of the geometry whose outlines make pixels jump
        self.items, self.fn, self.diff, self.sig = items, fn, tuple(diff), sig
        self.atol, self.rtol, self.gtol, self.mean = atol, rtol, gtol, mean


def pad(xs, fill=0.0):
    m = max([len(x) for x in xs] + [1])
    return torch.stack([torch.cat([x, torch.full((m - len(x), *x.shape[1:]), fill, dtype=x.dtype)]) for x in xs])


def lens(xs):
    return torch.tensor([len(x) for x in xs])


def first(xs):
    return torch.tensor([0] + [len(x) for x in xs]).cumsum(0)[:-1]


def col(items, k):
    return [x[k] for x in items]


def size(c, lo=1, hi=8):
    return c.pick(lo, c.i(lo, hi), c.i(lo, hi), c.i(lo, hi) * 3)


# ------------------------------------------------------------------ neighbours
@entry
def knn(c, n):
    from pytorch3d.ops import knn_gather, knn_points
    d, k, norm = c.pick(3, 3, 2, 5), c.i(1, 5), c.pick(1, 2)
    fill = c.pick(0.0, 1e4)
    items = [dict(a=c.randn(size(c, 0), d), b=c.randn(size(c), d)) for _ in range(n)]

    def fn(xs):
        a, b = col(xs, "a"), col(xs, "b")
        o = knn_points(pad(a, fill), pad(b, -fill), lens(a), lens(b), K=k, norm=norm, return_nn=True)
        g = knn_gather(pad(b, -fill), o.idx, lens(b))
        return [dict(d=o.dists[i, :len(x)], i=o.idx[i, :len(x)], nn=g[i, :len(x)]) for i, x in enumerate(a)]
    return Batch(items, fn, ("a", "b"), (d, k, norm))


@entry
def ball_query(c, n):
    from pytorch3d.ops import ball_query as f
    d, k, r, skip = c.i(1, 4), c.i(1, 6), c.u(0.3, 2), c.p(0.4)
    items = [dict(a=c.randn(size(c, 0), d), b=c.randn(size(c), d)) for _ in range(n)]

    def fn(xs):
        a, b = col(xs, "a"), col(xs, "b")
        o = f(pad(a), pad(b), lens(a), lens(b), K=k, radius=r, return_nn=False, skip_points_outside_cube=skip)
        return [dict(d=o.dists[i, :len(x)], i=o.idx[i, :len(x)]) for i, x in enumerate(a)]
    return Batch(items, fn, ("a", "b"), (d, k, skip))


@entry
def farthest_points(c, n):
    from pytorch3d.ops import sample_farthest_points as f
    d = c.pick(3, 2)
    items = [dict(a=c.randn(size(c), d), k=torch.tensor(c.i(1, 7))) for _ in range(n)]

    def fn(xs):
        a = col(xs, "a")
        k = [int(x["k"]) for x in xs]
        p, i = f(pad(a), lens(a), K=k)
        return [dict(p=p[j, :k[j]], i=i[j, :k[j]]) for j in range(len(xs))]
    return Batch(items, fn, ("a",), (d,))


@entry
def chamfer(c, n):
    from pytorch3d.loss import chamfer_distance as f
    kw = dict(norm=c.pick(1, 2), point_reduction=c.pick("mean", "sum", "max", None), single_directional=c.p(0.3), abs_cosine=c.p(0.5))
    nrm = kw["point_reduction"] != "max" and c.p(0.5)
    cls = c.p(0.4)
    un = torch.nn.functional.normalize
    items = []
    for _ in range(n):
        p, q = size(c), size(c)
        items.append(dict(x=c.randn(p, 3), y=c.randn(q, 3), xn=un(c.randn(p, 3), dim=-1), yn=un(c.randn(q, 3), dim=-1)))

    def fn(xs):
        from pytorch3d.structures import Pointclouds
        x, y, xn, yn = (col(xs, k) for k in ("x", "y", "xn", "yn"))
        if cls:
            o = f(Pointclouds(x, normals=xn if nrm else None), Pointclouds(y, normals=yn if nrm else None), batch_reduction=None, **kw)
        else:
            o = f(pad(x), pad(y), lens(x), lens(y), pad(xn) if nrm else None, pad(yn) if nrm else None, batch_reduction=None, **kw)
        out = []
        for i in range(len(xs)):
            r = {}
            for name, v in zip(("d", "n"), o):
                if v is None:
                    continue
                if kw["point_reduction"] is not None:
                    r[name] = v[i]
                elif isinstance(v, tuple):
                    r[name + "x"], r[name + "y"] = v[0][i, :len(x[i])], v[1][i, :len(y[i])]
                else:
                    r[name + "x"] = v[i, :len(x[i])]
            out.append(r)
        return out
    return Batch(items, fn, ("x", "y"), (*map(str, kw.values()), nrm, cls))


@entry
def chamfer_reduced(c, n):
    from pytorch3d.loss import chamfer_distance as f
    how = c.pick("mean", "sum")
    kw = dict(norm=c.pick(1, 2), point_reduction=c.pick("mean", "sum", "max"), batch_reduction=how)
    items = [dict(x=c.randn(size(c), 3), y=c.randn(size(c), 3)) for _ in range(n)]

    def fn(xs):
        x, y = col(xs, "x"), col(xs, "y")
        return [dict(d=f(pad(x), pad(y), lens(x), lens(y), **kw)[0])] * len(xs)
    return Batch(items, fn, ("x", "y"), tuple(kw.values()), mean=(how,))


# ------------------------------------------------------------------ meshes
def mesh_items(c, n, empty=0.15, nofaces=0.1, **kw):
    out = []
    for _ in range(n):
        v, f = gen.mesh(c, empty=empty, nofaces=nofaces, **kw)
        out.append(dict(v=v, f=f))
    if empty and all(len(x["f"]) == 0 for x in out):
        v, f = gen.tetra()
        out[0] = dict(v=v, f=f)
    return out


def meshes(xs, tex=None):
    from pytorch3d.structures import Meshes
    return Meshes(col(xs, "v"), col(xs, "f"), textures=tex)


def split(x, ns):
    return list(x.split(list(ns)))


@entry
def mesh_methods(c, n):
    """Everything derived, from packed, padded and list forms."""
    items = mesh_items(c, n)
    for x in items:
        x["off"] = c.randn(*x["v"].shape)
        x["s"] = c.rand(1, lo=0.5, hi=2)
    moved = c.p(0.4)

    def fn(xs):
        if all(len(x["f"]) == 0 for x in xs):  # a batch without any face counts as empty
            return [None] * len(xs)
        m = meshes(xs)
        if moved:
            m.verts_normals_packed(), m.edges_packed()
            m = m.offset_verts(torch.cat(col(xs, "off"))).scale_verts(torch.cat(col(xs, "s")))
        nv, nf = m.num_verts_per_mesh().tolist(), m.num_faces_per_mesh().tolist()
        ne = m.num_edges_per_mesh().tolist()
        vf, ff, ef = m.mesh_to_verts_packed_first_idx(), m.mesh_to_faces_packed_first_idx(), torch.tensor([0] + ne).cumsum(0)
        e = [x - vf[i] for i, x in enumerate(split(m.edges_packed(), ne))]
        fe = [x - ef[i] for i, x in enumerate(split(m.faces_packed_to_edges_packed(), nf))]
        vn, fn_, ar = split(m.verts_normals_packed(), nv), split(m.faces_normals_packed(), nf), split(m.faces_areas_packed(), nf)
        bb = m.get_bounding_boxes() if all(nv) else None
        out = []
        for i in range(len(xs)):
            # the normals of needle-like faces and of vertices where they cancel are all noise
            good = (ar[i].detach() > 1e-2)
            r = dict(e=e[i], fe=fe[i], fn=fn_[i][good], ar=ar[i], vp=m.verts_padded()[i, :nv[i]], fp=m.faces_padded()[i, :nf[i]],
                     f=m.faces_list()[i].view(-1, 3), valid=torch.as_tensor(m.valid[i]), vn=vn[i] if bool(good.all()) else vn[i].detach() * 0)
            out.append(r)
        return out
    return Batch(items, fn, ("v",) + (("off", "s") if moved else ()), (moved,), gtol=1e-3, atol=1e-4)


@entry
def mesh_operators(c, n):
    from pytorch3d import ops as o
    which = c.pick("laplacian", "norm", "cot", "taubin", "subdivide", "vert_align", "graph_conv", "largest")
    items = mesh_items(c, n, empty=0, nofaces=0, kinds=("cube", "tetra", "ico") if which in ("cot", "taubin") else ("soup", "cube", "tetra", "ico", "tri", "unused"))
    k = c.i(1, 3)
    conv = o.GraphConv(3, 2, directed=c.p(0.5))
    kw = dict(interp_mode=c.pick("bilinear", "nearest"), padding_mode=c.pick("zeros", "border"), align_corners=c.p(0.5))
    h, w = c.i(2, 5), c.i(2, 5)
    for x in items:
        x["img"] = c.randn(2, h, w)
        x["ft"] = c.randn(len(x["v"]), 2)

    def fn(xs):
        m = meshes(xs)
        nv = m.num_verts_per_mesh().tolist()
        vs = torch.tensor([0] + nv).cumsum(0)
        if which in ("laplacian", "norm", "cot"):
            if which == "cot":
                L, a = o.cot_laplacian(m.verts_packed(), m.faces_packed())
            else:
                L = (o.laplacian if which == "laplacian" else o.norm_laplacian)(m.verts_packed(), m.edges_packed())
            L = L.to_dense()
            out = []
            for i in range(len(xs)):
                s, e = int(vs[i]), int(vs[i + 1])
                r = dict(L=L[s:e, s:e], rest=torch.cat([L[s:e, :s], L[s:e, e:]], 1).abs().sum())
                if which == "cot":
                    r["a"] = a[s:e]
                out.append(r)
            return out
        if which == "taubin":
            return [dict(v=x) for x in o.taubin_smoothing(m, num_iter=k).verts_list()]
        if which == "subdivide":
            s, ft = o.SubdivideMeshes()(m, torch.cat(col(xs, "ft")))
            nn = s.num_verts_per_mesh().tolist()
            return [dict(v=v, f=f, ft=t) for v, f, t in zip(s.verts_list(), s.faces_list(), ft.split(nn))]
        if which == "vert_align":
            y = o.vert_align(torch.stack(col(xs, "img")), m, **kw)
            return [dict(y=y[i, :nv[i]]) for i in range(len(xs))]
        if which == "graph_conv":
            return [dict(y=y) for y in split(conv(m.verts_packed(), m.edges_packed()), nv)]
        bb = m.get_bounding_boxes()
        return [dict(bb=bb[i]) for i in range(len(xs))]
    diff = () if which in ("laplacian", "norm", "cot", "largest") else ("v",) if which != "vert_align" else ("img",)
    return Batch(items, fn, diff, (which, k, *kw.values()), gtol=1e-3)


@entry
def mesh_losses(c, n):
    from pytorch3d import loss
    which = c.pick("edge", "normal", "laplacian")
    items = mesh_items(c, n, empty=0, nofaces=0, kinds=("cube", "tetra", "ico"))
    meth, tl = c.pick("uniform", "cot", "cotcurv"), c.pick(0.0, 0.6)

    def fn(xs):
        m = meshes(xs)
        v = {"edge": lambda: loss.mesh_edge_loss(m, tl), "normal": lambda: loss.mesh_normal_consistency(m),
             "laplacian": lambda: loss.mesh_laplacian_smoothing(m, meth)}[which]()
        return [dict(v=v)] * len(xs)
    return Batch(items, fn, ("v",), (which, meth, tl), mean=("mean",), atol=1e-4, rtol=1e-4, gtol=1e-3)


@entry
def point_mesh(c, n):
    from pytorch3d import loss
    from pytorch3d.structures import Pointclouds
    f = c.pick(loss.point_mesh_face_distance, loss.point_mesh_edge_distance)
    items = mesh_items(c, n, empty=0, nofaces=0)
    for x in items:
        x["p"] = c.randn(size(c), 3) * 1.5

    def fn(xs):
        return [dict(v=f(meshes(xs), Pointclouds(col(xs, "p"))))] * len(xs)
    return Batch(items, fn, ("v", "p"), (f.__name__,), mean=("mean",), gtol=1e-3)


@entry
def point_hull(c, n):
    from pytorch3d.loss import point_mesh_distance as m
    name = c.pick("point_face_distance", "face_point_distance", "point_edge_distance", "edge_point_distance")
    k = 3 if "face" in name else 2
    items = [dict(p=c.randn(size(c), 3), h=c.randn(size(c), k, 3)) for _ in range(n)]

    def fn(xs):
        p, h = col(xs, "p"), col(xs, "h")
        q = p if name.startswith("point") else h
        o = getattr(m, name)(torch.cat(p), first(p), torch.cat(h), first(h), max(map(len, q)))
        return [dict(d=x) for x in split(o, map(len, q))]
    return Batch(items, fn, ("p", "h"), (name,), gtol=1e-3)


# ------------------------------------------------------------------ rasterization
@entry
def rasterize_meshes(c, n):
    from pytorch3d.renderer.mesh import rasterize_meshes as f
    items = mesh_items(c, n)
    for x in items:
        if len(x["v"]):
            v = x["v"] - x["v"].mean(0)
            v[:, 2] += c.pick(3.0, 6.0, 1.0)
            x["v"] = v
    kw = dict(image_size=c.pick(c.i(2, 12), (c.i(1, 9), c.i(1, 20))), blur_radius=c.pick(0.0, 1e-3, 0.05), faces_per_pixel=c.i(1, 5),
              perspective_correct=c.p(0.5), clip_barycentric_coords=c.p(0.5), cull_backfaces=c.p(0.3), bin_size=c.pick(None, 0),
              z_clip_value=c.pick(None, None, 0.5), cull_to_frustum=c.p(0.3))

    def fn(xs):
        if all(len(x["f"]) == 0 for x in xs):
            return [None] * len(xs)
        p, z, b, d = f(meshes(xs), **kw)
        s = first(col(xs, "f"))
        out = []
        for i in range(len(xs)):
            q = torch.where(p[i] >= 0, p[i] - s[i], p[i])
            # values of needle-like faces grow without bound: compare them where they are moderate
            r = dict(p=q, d=d[i])
            ok = (b[i].detach().abs() < 10).all(-1)
            r["z"], r["b"], r["ok"] = z[i] * ok, b[i] * ok[..., None], ok
            out.append(r)
        return out
    return Batch(items, fn, ("v",), tuple(map(str, kw.values())), gtol=1e-3)


@entry
def rasterize_points(c, n):
    from pytorch3d.renderer.points import rasterize_points as f
    from pytorch3d.structures import Pointclouds
    items = []
    for _ in range(n):
        p = c.randn(size(c, 0 if n > 1 else 1), 3)
        p[:, 2] = c.rand(len(p), lo=-0.3, hi=4)
        items.append(dict(p=p, r=c.rand(len(p), lo=0.02, hi=0.8)))
    if all(len(x["p"]) == 0 for x in items):
        items[0] = dict(p=torch.tensor([[0., 0, 1]]), r=torch.tensor([0.5]))
    kw = dict(image_size=c.pick(c.i(2, 12), (c.i(1, 9), c.i(1, 20))), points_per_pixel=c.i(1, 5), bin_size=c.pick(None, 0))
    per = c.p(0.6)

    def fn(xs):
        p = col(xs, "p")
        if sum(map(len, p)) == 0:
            return [None] * len(xs)
        i, z, d = f(Pointclouds(p), radius=pad(col(xs, "r")) if per else 0.4, **kw)
        s = first(p)
        return [dict(i=torch.where(i[j] >= 0, i[j] - s[j], i[j]), z=z[j], d=d[j]) for j in range(len(xs))]
    return Batch(items, fn, ("p",), (*map(str, kw.values()), per))


CAMERAS = ("FoVPerspectiveCameras", "FoVOrthographicCameras", "PerspectiveCameras", "OrthographicCameras", "FishEyeCameras")
from pytorch3d.renderer.fisheyecameras import FishEyeCameras  # noqa: E402


def camera_params(c, kind, hw=None):
    from pytorch3d.renderer import look_at_view_transform
    R, T = look_at_view_transform(c.u(4, 6), c.u(-60, 60), c.u(-180, 180))
    p = dict(R=R[0], T=T[0])
    if kind == "FoVPerspectiveCameras":
        p.update(fov=torch.tensor(c.u(30, 80)), aspect_ratio=torch.tensor(c.u(0.7, 1.4)), znear=torch.tensor(c.u(0.5, 2)), zfar=torch.tensor(c.u(20, 60)))
    elif kind == "FoVOrthographicCameras":
        p.update(max_x=torch.tensor(c.u(1, 3)), min_x=torch.tensor(-c.u(1, 3)), max_y=torch.tensor(c.u(1, 3)), min_y=torch.tensor(-c.u(1, 3)),
                 scale_xyz=c.rand(3, lo=0.7, hi=1.4))
    elif kind == "FishEyeCameras":
        p.update(focal_length=torch.tensor([c.u(0.8, 2)]), principal_point=c.randn(2) * 0.1, radial_params=c.randn(6) * 0.02,
                 tangential_params=c.randn(2) * 0.02, thin_prism_params=c.randn(4) * 0.02)
    else:
        p.update(focal_length=c.rand(2, lo=0.8, hi=2), principal_point=c.randn(2) * 0.2)
        if hw:
            p.update(focal_length=p["focal_length"] * 10, principal_point=p["principal_point"] * 5 + torch.tensor([hw[1] / 2, hw[0] / 2]))
            p["image_size"] = torch.tensor(hw)
    return p


def make_cameras(kind, xs, keys, ndc=True):
    from pytorch3d import renderer as r
    kw = {k: torch.stack(col(xs, k)) for k in keys}
    if "FoV" not in kind and "Fish" not in kind:
        kw["in_ndc"] = ndc
    return FishEyeCameras(**kw) if "Fish" in kind else getattr(r, kind)(**kw)


@entry
def cameras(c, n):
    kind = c.pick(*CAMERAS)
    screen = "FoV" not in kind and "Fish" not in kind and c.p(0.5)
    items = []
    p = c.i(1, 5)
    for _ in range(n):
        x = camera_params(c, kind, (c.i(8, 30), c.i(8, 30)) if screen else None)
        keys = list(x)
        x["x"] = c.randn(p, 3) * 0.7
        x["size"] = torch.tensor([c.i(5, 20), c.i(5, 20)])
        items.append(x)

    def fn(xs):
        cam = make_cameras(kind, xs, keys, not screen)
        x = torch.stack(col(xs, "x"))
        if "Fish" in kind:  # takes the same points for every camera of a batch
            return [dict(y=y) for y in cam.transform_points(items[0]["x"] + torch.tensor([0, 0, 3.])).view(len(xs), -1, 3)]
        else:
            o = dict(y=cam.transform_points(x), ndc=cam.transform_points_ndc(x),
                     scr=cam.transform_points_screen(x, image_size=torch.stack(col(xs, "size"))) if not screen else cam.transform_points_screen(x),
                     c=cam.get_camera_center(), v=cam.get_world_to_view_transform().transform_points(x))
            d = torch.cat([o["ndc"][..., :2].detach(), o["v"][..., 2:].detach()], -1)
            o["u"] = cam.unproject_points(d, world_coordinates=True, from_ndc=True)
            o["k"] = cam.get_full_projection_transform().get_matrix()
            if not screen:
                o["k2"] = cam.get_ndc_camera_transform().get_matrix().expand(len(xs), 4, 4)
        i = c0[0]
        if i and "Fish" not in kind:  # indexed cameras
            o["ix"] = torch.stack([cam[j].transform_points(x[j:j + 1])[0] for j in range(len(xs))])
            o["clone"] = cam.clone()[list(range(len(xs)))[::-1]].transform_points(x.flip(0)).flip(0)
        return [{k: v[j] for k, v in o.items()} for j in range(len(xs))]
    c0 = [c.p(0.5)]
    return Batch(items, fn, (*(["x"] if "Fish" not in kind else []), *[k for k in keys if items[0][k].is_floating_point() and not ("Fish" in kind and k in "RT")]), (kind, screen, c0[0]), atol=1e-4, rtol=1e-4, gtol=2e-3)


def texture(c, items, kind):
    hw, r = (c.i(2, 5), c.i(2, 5)), c.i(1, 3)
    for x in items:
        if kind == "vertex":
            x["t"] = c.rand(len(x["v"]), 3)
        elif kind == "uv":
            x["t"] = c.rand(*hw, 3)
            x["uv"] = c.rand(len(x["v"]), 2)
        else:
            x["t"] = c.rand(len(x["f"]), r, r, 3)


def textured(xs, kind, **kw):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    if kind == "vertex":
        t = TexturesVertex(col(xs, "t"))
    elif kind == "uv":
        t = TexturesUV(torch.stack(col(xs, "t")), col(xs, "f"), col(xs, "uv"), **kw)
    else:
        t = TexturesAtlas(col(xs, "t"))
    return meshes(xs, t)


@entry
def render_meshes(c, n):
    from pytorch3d import renderer as r
    kind, tex = c.pick(*CAMERAS[:4]), c.pick("vertex", "uv", "atlas")
    shader = c.pick("SoftPhongShader", "HardPhongShader", "HardFlatShader", "SoftSilhouetteShader", "SplatterPhongShader") if tex != "vertex" else c.pick(
        "SoftPhongShader", "HardPhongShader", "SoftGouraudShader", "HardGouraudShader", "HardFlatShader", "SoftSilhouetteShader", "HardDepthShader", "SoftDepthShader")
    if tex == "atlas" and "Phong" not in shader and "Flat" not in shader:
        tex = "uv"
    items = []
    soft = "Soft" in shader
    for _ in range(n):
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico"))
        x = dict(v=v - v.mean(0), f=f, **camera_params(c, kind))
        items.append(x)
    keys = [k for k in items[0] if k not in ("v", "f")]
    texture(c, items, tex)
    light = c.pick("PointLights", "DirectionalLights", "AmbientLights")
    for x in items:
        x["loc"], x["amb"], x["spec"], x["sh"] = c.randn(3) * 3, c.rand(3), c.rand(3), torch.tensor(float(c.i(1, 20)))
    rs = dict(image_size=(c.i(3, 10), c.i(3, 10)), blur_radius=c.pick(0.0, 0.01) if soft else 0.0, faces_per_pixel=c.i(1, 4) if soft else c.pick(1, 2))
    if shader == "SplatterPhongShader":
        rs["faces_per_pixel"] = c.i(1, 3)
    bg = (c.u(), c.u(), c.u())
    if c.p(0.5):  # by default one plane derived from the nearest znear of a batch clips all of it
        rs["z_clip_value"] = c.pick(0.05, 0.5)
    elif "znear" in keys:
        for x in items:
            x["znear"] = items[0]["znear"]

    def fn(xs):
        cam = make_cameras(kind, xs, keys)
        m = textured(xs, tex)
        st = lambda k: torch.stack(col(xs, k))
        li = r.AmbientLights(ambient_color=st("amb")) if light[0] == "A" else getattr(r, light)(
            ambient_color=st("amb"), specular_color=st("spec"), **{"location" if light[0] == "P" else "direction": st("loc")})
        mat = r.Materials(ambient_color=st("amb"), specular_color=st("spec"), shininess=st("sh"))
        kw = dict(blend_params=r.BlendParams(background_color=bg, sigma=1e-3, gamma=1e-2))
        if shader == "SoftSilhouetteShader":
            pass
        elif "Depth" in shader:
            kw["cameras"] = cam
        else:
            kw.update(cameras=cam, lights=li, materials=mat)
        S = getattr(r, shader, None) or getattr(__import__("pytorch3d.renderer.mesh.shader", fromlist=["x"]), shader)
        o = r.MeshRenderer(r.MeshRasterizer(cam, r.RasterizationSettings(**rs)), S(**kw))(m)
        return [dict(img=o[i]) for i in range(len(xs))]
    d = ("t",) if shader in ("HardPhongShader", "HardFlatShader", "SoftPhongShader", "HardGouraudShader", "SoftGouraudShader") else ()
    return Batch(items, fn, d, (kind, tex, shader, light, *map(str, rs.values())), atol=2e-4, rtol=1e-3, gtol=2e-3, edges="v")


@entry
def textures(c, n):
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    kind = c.pick("vertex", "uv", "atlas")
    kw = dict(padding_mode=c.pick("border", "zeros", "reflection"), align_corners=c.p(0.5), sampling_mode=c.pick("bilinear", "nearest"))
    items = mesh_items(c, n, empty=0, nofaces=0)
    texture(c, items, kind)
    h, w, k = c.i(1, 4), c.i(1, 4), c.i(1, 3)
    for x in items:
        x["p"] = torch.where(c.rand(h, w, k) < 0.3, torch.tensor(-1), c.randint(0, len(x["f"]), (h, w, k)))
        x["b"] = torch.nn.functional.normalize(c.rand(h, w, k, 3, lo=0.05), p=1, dim=-1)

    def fn(xs):
        m = textured(xs, kind, **(kw if kind == "uv" else {}))
        s = first(col(xs, "f"))
        p = torch.stack([torch.where(x["p"] >= 0, x["p"] + s[i], x["p"]) for i, x in enumerate(xs)])
        b = torch.stack(col(xs, "b"))
        o = m.sample_textures(Fragments(pix_to_face=p, bary_coords=b, zbuf=b[..., 0], dists=b[..., 0]))
        return [dict(o=o[i]) for i in range(len(xs))]
    return Batch(items, fn, ("t",), (kind, *kw.values()))


@entry
def compositing(c, n):
    from pytorch3d.renderer import compositing as m
    name = c.pick("alpha_composite", "norm_weighted_sum", "weighted_sum")
    k, h, w, ch = c.i(1, 4), c.i(1, 4), c.i(1, 4), c.i(1, 4)
    items = []
    for _ in range(n):
        p = c.i(1, 6)
        items.append(dict(f=c.randn(p, ch), i=c.randint(-1, p, (k, h, w)), a=c.rand(k, h, w, lo=0.05, hi=0.95)))

    def fn(xs):
        s = first(col(xs, "f"))
        i = torch.stack([torch.where(x["i"] >= 0, x["i"] + s[j], x["i"]) for j, x in enumerate(xs)])
        o = getattr(m, name)(i, torch.stack(col(xs, "a")), torch.cat(col(xs, "f")).T)
        return [dict(o=o[j]) for j in range(len(xs))]
    return Batch(items, fn, ("f", "a"), (name, k, h, w, ch))


@entry
def render_points(c, n):
    from pytorch3d import renderer as r
    from pytorch3d.structures import Pointclouds
    kind = c.pick(*CAMERAS[:4])
    comp = c.pick("AlphaCompositor", "NormWeightedCompositor")
    bg = c.pick(None, (0.2, 0.4, 0.6))
    items = [dict(p=c.randn(size(c), 3), **camera_params(c, kind)) for _ in range(n)]
    keys = [k for k in items[0] if k != "p"]
    for x in items:
        x["ft"] = c.rand(len(x["p"]), 3)
    rs = dict(image_size=(c.i(2, 10), c.i(2, 10)), radius=c.u(0.1, 0.6), points_per_pixel=c.i(1, 4))

    def fn(xs):
        cam = make_cameras(kind, xs, keys)
        ren = r.PointsRenderer(r.PointsRasterizer(cam, r.PointsRasterizationSettings(**rs)), getattr(r, comp)(background_color=bg))
        o = ren(Pointclouds(col(xs, "p"), features=col(xs, "ft")))
        return [dict(o=o[j]) for j in range(len(xs))]
    return Batch(items, fn, ("ft",), (kind, comp, bg is None, *map(str, rs.values())), atol=1e-4, rtol=1e-3, gtol=1e-3)


@entry
def sphere_renderer(c, n):
    from pytorch3d.renderer.points.pulsar import Renderer
    w, h, k, ch = c.i(2, 20), c.i(2, 20), c.i(1, 9), c.i(1, 4)
    r = Renderer(w, h, k, n_channels=ch)
    items = []
    for _ in range(n):
        p = c.randn(k, 3) * 3
        p[:, 2] = c.rand(k, lo=8, hi=30)
        cam = torch.cat([c.randn(3) * 0.2, c.randn(3) * 0.1, torch.tensor([3.0, 2.0])])
        items.append(dict(p=p, col=c.rand(k, ch), r=c.rand(k, lo=0.1, hi=2), cam=cam))
    g = c.pick(1.0, 0.1, 1e-3)

    def fn(xs):
        st = lambda q: torch.stack(col(xs, q))
        o = r(st("p"), st("col"), st("r"), st("cam"), g, 45.0)
        return [dict(o=o[j]) for j in range(len(xs))]
    return Batch(items, fn, ("p", "col", "r"), (w, h, k, ch, g), gtol=1e-3)


# ------------------------------------------------------------------ volumes and rays
@entry
def volumes(c, n):
    from pytorch3d.ops import add_pointclouds_to_volumes
    from pytorch3d.structures import Pointclouds, Volumes
    ch = c.i(1, 3)
    mode, res = c.pick("trilinear", "nearest"), c.p(0.6)
    ac = c.p(0.5)
    items = []
    for _ in range(n):
        g = [c.i(2, 5) for _ in range(3)]
        p = size(c)
        items.append(dict(d=c.rand(1, *g), f=c.randn(ch, *g), p=c.rand(p, 3, lo=-1.1, hi=1.1), pf=c.randn(p, ch),
                          vs=c.rand(3, lo=0.3, hi=1), t=c.randn(3) * 0.2))

    def fn(xs):
        v = Volumes(densities=col(xs, "d"), features=col(xs, "f"), voxel_size=torch.stack(col(xs, "vs")),
                    volume_translation=torch.stack(col(xs, "t")), align_corners=ac)
        o = add_pointclouds_to_volumes(Pointclouds(col(xs, "p"), features=col(xs, "pf")), v, mode=mode, rescale_features=res)
        g = v.get_coord_grid(world_coordinates=True)
        gs = v.get_grid_sizes().tolist()
        return [dict(d=a, f=b, g=g[j, :s[0], :s[1], :s[2]]) for j, (a, b, s) in enumerate(zip(o.densities_list(), o.features_list(), gs))]
    return Batch(items, fn, ("pf",), (ch, mode, res, ac), atol=1e-4, gtol=1e-3)


@entry
def implicit(c, n):
    from pytorch3d import renderer as r
    from pytorch3d.renderer import RayBundle, VolumeSampler
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
    from pytorch3d.structures import Volumes
    g = [c.i(2, 4) for _ in range(3)]
    ch, k, p = c.i(1, 3), c.i(1, 4), c.i(2, 6)
    pm, st = c.pick("zeros", "border"), c.i(1, 2)
    items = [dict(d=c.rand(1, *g), f=c.randn(ch, *g), o=c.randn(k, 3) * 0.3, dir=c.randn(k, 3), l=c.rand(k, p).sort(-1)[0], vs=c.rand(1, lo=0.3, hi=1))
             for _ in range(n)]

    def fn(xs):
        s = lambda q: torch.stack(col(xs, q))
        v = Volumes(densities=s("d"), features=s("f"), voxel_size=s("vs"))
        rb = RayBundle(s("o"), s("dir"), s("l"), s("o")[..., :2])
        den, ft = VolumeSampler(v, padding_mode=pm)(rb)
        a = r.EmissionAbsorptionRaymarcher(surface_thickness=st)(den, ft)
        b = r.AbsorptionOnlyRaymarcher()(den)
        mid = 0.5 * (rb.lengths[..., 1:] + rb.lengths[..., :-1])
        z = sample_pdf(mid, den[..., 1:-1, 0].detach() + 0.1, 5, det=True) if p > 2 else mid
        e = r.HarmonicEmbedding(3)(rb.directions)
        pts = r.ray_bundle_to_ray_points(rb)
        return [dict(den=den[j], ft=ft[j], a=a[j], b=b[j], z=z[j], e=e[j], pts=pts[j]) for j in range(len(xs))]
    return Batch(items, fn, ("d", "f", "o", "dir"), (tuple(g), ch, k, p, pm, st), gtol=1e-3, atol=1e-4)


@entry
def ray_grids(c, n):
    from pytorch3d import renderer as r
    kind = c.pick(*CAMERAS[:4])
    items = [camera_params(c, kind) for _ in range(n)]
    keys = list(items[0])
    w, h, p = c.i(1, 5), c.i(1, 5), c.i(1, 4)
    s = r.NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=p, min_depth=1., max_depth=4., unit_directions=c.p(0.5))

    def fn(xs):
        b = s(make_cameras(kind, xs, keys))
        return [dict(o=b.origins[j], d=b.directions[j], l=b.lengths[j], xy=b.xys[j]) for j in range(len(xs))]
    return Batch(items, fn, ("R", "T"), (kind, w, h, p), atol=1e-4, rtol=1e-4, gtol=2e-3)


# ------------------------------------------------------------------ solvers, in float64 and well conditioned
D = torch.float64


@entry
def alignment(c, n):
    from pytorch3d.ops import corresponding_points_alignment as f
    from pytorch3d.structures import Pointclouds
    from pytorch3d.transforms import random_rotations
    es, ar, w, cls = c.p(0.5), c.p(0.3), c.p(0.5), c.p(0.4)
    items = []
    m = c.i(4, 9)
    for _ in range(n):
        p = c.i(4, 12) if cls else m
        x = c.randn(p, 3, dtype=D)
        items.append(dict(x=x, y=(x @ random_rotations(1, dtype=D)[0]) * c.u(0.5, 2) + c.randn(3, dtype=D) + 0.05 * c.randn(p, 3, dtype=D), w=c.rand(p, lo=0.2, hi=1, dtype=D)))

    def fn(xs):
        if cls:
            o = f(Pointclouds(col(xs, "x")), Pointclouds(col(xs, "y")), estimate_scale=es, allow_reflection=ar)
        else:
            s = lambda k: torch.stack(col(xs, k))
            o = f(s("x"), s("y"), s("w") if w else None, estimate_scale=es, allow_reflection=ar)
        return [dict(R=o.R[j], T=o.T[j], s=o.s[j]) for j in range(len(xs))]
    return Batch(items, fn, (), (es, ar, w, cls), atol=1e-8, rtol=1e-8)


@entry
def icp(c, n):
    from pytorch3d.ops import iterative_closest_point as f
    from pytorch3d.structures import Pointclouds
    it, es = c.i(1, 5), c.p(0.4)
    items = []
    for _ in range(n):
        x = c.randn(c.i(5, 12), 3)
        items.append(dict(x=x, y=(x + 0.03 * c.randn(*x.shape))[c.perm(len(x))]))

    def fn(xs):
        # a threshold that is never met: convergence is decided by the batch as a whole
        s = f(Pointclouds(col(xs, "x")), Pointclouds(col(xs, "y")), max_iterations=it, relative_rmse_thr=-1.0, estimate_scale=es)
        return [dict(R=s.RTs.R[j], T=s.RTs.T[j], s=s.RTs.s[j], rmse=s.rmse[j], xt=s.Xt.points_list()[j]) for j in range(len(xs))]
    return Batch(items, fn, (), (it, es), atol=1e-3, rtol=1e-3)


@entry
def pnp(c, n):
    from pytorch3d.ops import efficient_pnp as f
    p = c.i(8, 14)
    w = c.p(0.5)
    items = []
    from pytorch3d.transforms import random_rotations
    for _ in range(n):
        x = c.randn(p, 3, dtype=D)
        cam = x @ random_rotations(1, dtype=D)[0] + torch.tensor([0, 0, 6.], dtype=D)
        items.append(dict(x=x, y=cam[..., :2] / cam[..., 2:], w=c.rand(p, lo=0.5, dtype=D)))

    def fn(xs):
        s = lambda k: torch.stack(col(xs, k))
        o = f(s("x"), s("y"), s("w") if w else None)
        return [dict(R=o.R[j], T=o.T[j]) for j in range(len(xs))]
    return Batch(items, fn, (), (p, w), atol=1e-4, rtol=1e-4)


@entry
def cloud_normals(c, n):
    from pytorch3d.ops import estimate_pointcloud_local_coord_frames as f, estimate_pointcloud_normals as g
    from pytorch3d.structures import Pointclouds
    k, cls = c.i(4, 6), c.p(0.5)
    m = c.i(8, 16)
    items = []
    for _ in range(n):
        p = c.i(8, 20) if cls else m
        items.append(dict(p=c.randn(p, 3) * torch.tensor([3, 1.5, 0.4])))

    def fn(xs):
        p = Pointclouds(col(xs, "p")) if cls else torch.stack(col(xs, "p"))
        cu, fr = f(p, k)
        no = g(p, k)
        out = []
        for j, x in enumerate(xs):
            cj, fj, nj = (y[j, :len(x["p"])] for y in (cu, fr, no))
            # directions of nearly equal curvature are arbitrary, and where the disambiguation of a sign is a tie, it is rounding that decides
            sure = ((cj[:, 1:] - cj[:, :-1]).amin(1) > 2e-3 * cj[:, 2])[:, None]
            out.append(dict(c=cj, f=fj.abs() * sure[..., None], n=nj.abs() * sure))
        return out
    return Batch(items, fn, (), (k, cls), atol=1e-3, rtol=1e-3)


@entry
def overlap(c, n):
    from pytorch3d.ops import box3d_overlap as f
    q = ops.boxes(c, c.i(1, 3))
    items = [dict(b=b) for b in ops.boxes(c, n)]
    swap = c.p(0.5)

    def fn(xs):
        b = torch.stack(col(xs, "b"))
        v, i = f(q, b) if swap else f(b, q)
        return [dict(v=v[:, j] if swap else v[j], i=i[:, j] if swap else i[j]) for j in range(len(xs))]
    return Batch(items, fn, (), (swap,))


@entry
def surfaces(c, n):
    from pytorch3d.ops import cubify, marching_cubes as mc
    which = c.pick("cubify", "mc")
    g = [c.i(2, 5) for _ in range(3)]
    al, loc, iso = c.pick("topleft", "corner", "center"), c.p(0.5), c.pick(0.1, None)
    items = [dict(x=c.rand(*g) * c.pick(1.0, 1.0, 0.3)) for _ in range(n)]
    if iso is None:  # the level is then the middle of the range of each volume
        for x in items:
            x["x"] = c.rand(*g)
    m = __import__("pytorch3d.ops.marching_cubes", fromlist=["x"])

    def fn(xs):
        x = torch.stack(col(xs, "x"))
        if which == "cubify":
            y = cubify(x, 0.5, align=al)
            return [dict(v=v, f=f) for v, f in zip(y.verts_list(), y.faces_list())]
        v, f = m.marching_cubes(x, iso if iso is None else 0.5, loc)
        return [dict(v=a if len(a) else torch.zeros(0, 3), f=b if len(b) else torch.zeros(0, 3, dtype=torch.int64)) for a, b in zip(v, f)]
    return Batch(items, fn, (), (which, tuple(g), al, loc, iso))


@entry
def rotations(c, n):
    from pytorch3d import transforms as T
    w = [torch.nn.functional.normalize(c.randn(3, dtype=D), dim=-1) * c.pick(0.0, 1e-6, 0.5, 1.5, 3.0, 3.14) for _ in range(n)]
    items = [dict(w=x, q=torch.nn.functional.normalize(c.randn(4, dtype=D), dim=-1), t=c.randn(3, dtype=D), p=c.randn(2, 3, dtype=D), s=c.rand(3, lo=0.5, hi=2, dtype=D)) for x in w]
    conv = c.pick("XYZ", "ZYX", "XZX", "YXY")
    which = c.pick("maps", "quaternions", "matrices", "transforms", "look_at")

    def fn(xs):
        s = lambda k: torch.stack(col(xs, k))
        R = T.axis_angle_to_matrix(s("w"))
        if which == "maps":
            E = T.so3_exp_map(s("w"))
            o = dict(E=E, s6=T.se3_exp_map(torch.cat([s("t"), s("w") * 0.9], 1)), rel=T.so3_relative_angle(E, R))
            o["L"] = T.so3_log_map(T.so3_exp_map(s("w") * 0.9))
        elif which == "quaternions":
            q = s("q")
            o = dict(m=T.quaternion_to_matrix(q), a=T.quaternion_to_axis_angle(q), std=T.standardize_quaternion(q), inv=T.quaternion_invert(q),
                     mul=T.quaternion_multiply(q, T.axis_angle_to_quaternion(s("w"))), ap=T.quaternion_apply(q, s("t")))
        elif which == "matrices":
            R = R @ T.quaternion_to_matrix(s("q"))
            o = dict(q=T.matrix_to_quaternion(R), d6=T.matrix_to_rotation_6d(R), r=T.rotation_6d_to_matrix(torch.cat([s("w") + s("t"), s("p")[:, 0]], 1)),
                     e=T.euler_angles_to_matrix(s("w"), conv), ee=T.matrix_to_euler_angles(R, conv), a=T.matrix_to_axis_angle(R))
        elif which == "transforms":
            t = T.Scale(s("s"), dtype=D).rotate(R).translate(s("t")) if True else None
            o = dict(p=t.transform_points(s("p")), n=t.transform_normals(s("p")), m=t.get_matrix(), i=t.inverse().get_matrix(), l=t.stack(T.Translate(s("t"))).get_matrix()[:len(xs)],
                     sub=torch.cat([t[j].get_matrix() for j in range(len(xs))]))
        else:
            from pytorch3d.renderer import look_at_rotation, look_at_view_transform
            A, B = look_at_view_transform(eye=s("t").float() * 3 + 1, at=s("p")[:, 0].float())
            C = look_at_rotation(s("t").float() * 3 + 1, at=s("p")[:, 1].float())
            o = dict(A=A, B=B, C=C)
        return [{k: v[j] for k, v in o.items()} for j in range(len(xs))]
    return Batch(items, fn, (), (which, conv), atol=1e-7 if which != "look_at" else 1e-4, rtol=1e-7 if which != "look_at" else 1e-4)


@entry
def packing(c, n):
    from pytorch3d import ops as o
    from pytorch3d.structures import packed_to_list, padded_to_list, list_to_padded
    d = c.pick((), (2,), (2, 3))
    items = [dict(x=c.randn(size(c), *d)) for _ in range(n)]
    extra = c.i(0, 2)

    def fn(xs):
        x = col(xs, "x")
        m = max(map(len, x)) + extra
        p = o.packed_to_padded(torch.cat(x), first(x), m)
        q = o.padded_to_packed(p, first(x), sum(map(len, x)))
        return [dict(p=p[j, :len(x[j])], tail=p[j, len(x[j]):].abs().sum(), q=y, l=z) for j, (y, z) in enumerate(
            zip(packed_to_list(q, [len(y) for y in x]), padded_to_list(p, [len(y) for y in x])))]
    return Batch(items, fn, ("x",), (d, extra))


@entry
def weighted_means(c, n):
    from pytorch3d.ops import wmean
    from pytorch3d.ops.utils import masked_gather
    p, d = c.i(1, 6), c.i(1, 3)
    items = [dict(x=c.randn(p, d), w=c.rand(p, lo=0.1), i=c.randint(-1, p, (c.seed % 4 + 1,))) for _ in range(n)]

    def fn(xs):
        s = lambda k: torch.stack(col(xs, k))
        a, b = wmean(s("x"), s("w")), masked_gather(s("x"), s("i"))
        return [dict(a=a[j], b=b[j]) for j in range(len(xs))]
    return Batch(items, fn, ("x", "w"), (p, d))


# ------------------------------------------------------------------ judging
def run_batch(b, order, up, grads):
    items = []
    leaves = []
    for j in order:
        x = dict(b.items[j])
        for k in b.diff:
            x[k] = x[k].detach().clone().requires_grad_(grads)
        items.append(x)
        leaves.append(x)
    torch.manual_seed(0)
    out = b.fn(items)
    if grads:
        total = 0
        seen = set()
        for pos, j in enumerate(order):
            if out[pos] is None or (b.mean and pos):
                continue
            for k, v in sorted(out[pos].items()):
                if v.requires_grad:
                    total = total + (v * up(j, k, v)).sum()
        if isinstance(total, torch.Tensor):
            total.backward()
    return out, leaves


@monitor(quick=4500, thorough=150000, need=("elements compared", "gradients compared", "ragged", "permuted", *ENTRIES))
def batches(c):
    name = c.pick(*ENTRIES)
    n = c.i(2, 4)
    b = ENTRIES[name](c, n)
    grads = bool(b.diff) and c.p(0.6)
    memo = {}
    shared = c.randn(1)

    def up(j, k, v):
        if b.mean:
            return torch.ones_like(v)
        key = (j, k)
        if key not in memo or memo[key].shape != v.shape:
            memo[key] = c.randn(*v.shape, dtype=v.dtype)
        return memo[key]

    order = c.pick(list(range(n)), c.perm(n))
    if c.p(0.3):  # a subset, or an element twice
        order = [c.i(0, n - 1) for _ in range(c.i(1, n + 1))]
    c.count("permuted", order != sorted(order))
    alone = [run_batch(b, [j], up, grads) for j in range(n)]
    whole, leaves = run_batch(b, order, up, grads)
    info = {f"{j}.{k}": v for j in set(order) for k, v in b.items[j].items()}
    if b.mean:
        div = len(order) if b.mean[0] == "mean" else 1
        want = sum(alone[j][0][0][next(iter(alone[j][0][0]))].detach() for j in order) / div
        key = next(iter(whole[0]))
        c.close(whole[0][key], want, f"{name}: the reduction over a batch is not the {b.mean[0]} over its elements", atol=b.atol, rtol=b.rtol, sig=b.sig, order=order, **info)
        c.count("elements compared", len(order))
    for pos, j in enumerate(order):
        one, _ = alone[j]
        if not b.mean and one[0] is not None and whole[pos] is not None:
            ok = judge_one(c, b, name, one[0], whole[pos], order, pos, info)
        if grads and not getattr(b, "unstable", False):
            scale = 1.0 / (len(order) if b.mean and b.mean[0] == "mean" else 1)
            for k in b.diff:
                g, w = leaves[pos][k].grad, alone[j][1][0][k].grad
                if w is None and g is None or not b.mean and (alone[j][0][0] is None or whole[pos] is None):
                    continue
                g = torch.zeros_like(b.items[j][k]) if g is None else g
                w = torch.zeros_like(g) if w is None else w
                if not bool(w.isfinite().all()) or w.numel() and float(w.abs().max()) > 1e4:
                    c.count("steep")
                    continue
                m = float(w.abs().max()) if w.numel() else 0.0
                c.close(g, w * scale, f"{name}: gradient of {k} of an element depends on the rest of its batch", atol=b.gtol * max(m, 1e-2), rtol=b.gtol,
                        sig=b.sig, order=order, element=pos, **info)
                c.count("gradients compared")
    sizes = [tuple(tuple(v.shape) for v in b.items[j].values()) for j in order]
    c.count("ragged", len(set(sizes)) > 1)
    c.count(name)
    c.sig(name, *b.sig, tuple(sizes))


def jumps(c, b, j):
    """The pixels of an element which a rounding error of the geometry changes: its batch
    may round the projection of a vertex differently, so nothing is said about them."""
    g = torch.Generator().manual_seed(j)
    base = run_batch(b, [j], None, False)[0][0]["img"]
    mask = torch.zeros_like(base, dtype=torch.bool)
    keep = b.items[j]
    for _ in range(12):
        v = keep[b.edges]
        b.items[j] = dict(keep, **{b.edges: v + torch.randn(v.shape, generator=g) * 1e-6 * v.abs().max()})
        mask |= (run_batch(b, [j], None, False)[0][0]["img"] - base).abs() > b.atol / 2
    b.items[j] = keep
    return mask.any(-1, keepdim=True).expand_as(mask) if mask.dim() > 2 else mask


def judge_one(c, b, name, one, got, order, pos, info):
    c.check(set(one) == set(got), f"{name}: other results in a batch")
    if b.edges:
        off = ((got["img"] - one["img"]).abs() > b.atol + b.rtol * one["img"].abs()).detach()
        if bool(off.any()):
            mask = jumps(c, b, order[pos])
            if bool((off & mask).any()):
                c.count("pixels on an outline", int((off & mask).sum()))
                one, got = dict(img=one["img"].masked_fill(mask, 0)), dict(img=got["img"].masked_fill(mask, 0))
                b.unstable = True
    for k in one:
        if one[k].dtype.is_floating_point:
            c.close(got[k], one[k], f"{name}: '{k}' of an element depends on the rest of its batch", atol=b.atol, rtol=b.rtol, nan_ok=True, sig=b.sig, order=order, element=pos, **info)
        else:
            c.equal(got[k], one[k], f"{name}: '{k}' of an element depends on the rest of its batch", sig=b.sig, order=order, element=pos, **info)
    c.count("elements compared")
