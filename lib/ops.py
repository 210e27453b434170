"""A catalogue of public calls: each entry draws one argument list.

An entry takes (case, odd) and returns Call(fn, tensors, diff): `fn(**tensors)`
makes the call and returns a tensor, or a tuple of tensors (or None). `odd`
allows empty batches, clouds, meshes and other unusual but accepted sizes.
`diff` names the tensors that the result is differentiable with respect to.
Options are drawn once, so that the call can be repeated.
"""
import torch

from . import gen

OPS = {}


class Call:
    def __init__(self, fn, tensors, diff=(), sig=(), batch=None):
        self.fn, self.t, self.diff, self.sig = fn, tensors, tuple(diff), sig
        self.guard = None  # values that say whether the call is well conditioned


def op(f):
    OPS[f.__name__] = f
    return f


def sz(c, odd, lo, hi):
    return c.pick(0, 1, c.i(lo, hi)) if odd and c.p(0.4) else c.i(lo, hi)


def lengths(c, odd, n, p, lo=1):
    lo = 0 if odd else min(lo, p)
    return torch.tensor([c.pick(p, c.i(lo, p)) for _ in range(n)], dtype=torch.int64)


def hostile_values(c, t):
    """A few non-finite or huge entries."""
    if t.numel() and t.dtype in (torch.float32, torch.float64) and c.p(0.5):
        t = t.clone()
        for _ in range(c.i(1, 3)):
            t.view(-1)[c.i(0, t.numel() - 1)] = c.pick(float("nan"), float("inf"), -float("inf"), 1e30, -1e30, 1e-42)
    return t


# ------------------------------------------------------------------ neighbours
@op
def knn(c, odd):
    from pytorch3d.ops import knn_gather, knn_points
    n, p1, p2 = max(1, sz(c, odd, 1, 3)), sz(c, odd, 1, 9), sz(c, odd, 1, 9)
    if odd:
        p2 = max(p2, 1)
    d = c.i(1, 6)
    k = c.i(1, p2 + 2) if odd else c.i(1, max(p2, 1))
    norm = c.pick(1, 2)
    ret = c.p(0.5) and p2 > 0
    t = dict(p1=c.randn(n, p1, d), p2=c.randn(n, p2, d))
    if c.p(0.6):
        t["l1"] = lengths(c, odd, n, p1)
    if c.p(0.6):
        t["l2"] = lengths(c, odd, n, p2)

    def fn(p1, p2, l1=None, l2=None):
        o = knn_points(p1, p2, l1, l2, norm=norm, K=k, return_nn=ret)
        extra = (knn_gather(p2, o.idx, l2),) if ret else ()
        return (o.dists, o.idx) + ((o.knn,) if ret else ()) + extra
    return Call(fn, t, ("p1", "p2"), (n, p1, p2, d, k, norm, ret, "l1" in t, "l2" in t))


@op
def ball_query(c, odd):
    from pytorch3d.ops import ball_query as f
    n, p1, p2, d = sz(c, odd, 1, 3), sz(c, odd, 1, 8), max(1, sz(c, odd, 1, 12)), c.i(1, 4)
    k, r = c.i(1, p2 + 2), c.u(0.3, 3)
    skip = c.p(0.4)
    t = dict(p1=c.randn(n, p1, d), p2=c.randn(n, p2, d))
    if c.p(0.6):
        t["l1"] = lengths(c, odd, n, p1)
    if c.p(0.6):
        t["l2"] = lengths(c, odd, n, p2)

    def fn(p1, p2, l1=None, l2=None):
        o = f(p1, p2, l1, l2, K=k, radius=r, return_nn=False, skip_points_outside_cube=skip)
        return o.dists, o.idx
    return Call(fn, t, ("p1", "p2"), (n, p1, p2, d, k, skip))


@op
def farthest_points(c, odd):
    from pytorch3d.ops import sample_farthest_points as f
    n, p, d = max(1, sz(c, odd, 1, 3)), max(1, sz(c, odd, 1, 12)), c.i(1, 5)
    rs = c.p(0.5)
    form = c.pick("int", "list", "tensor")
    lo = 0 if odd else 1
    k = c.i(lo, p + 2) if form == "int" else [c.i(lo, p + 2) for _ in range(n)]
    t = dict(points=c.randn(n, p, d))
    if c.p(0.6):
        t["lengths"] = lengths(c, odd, n, p)

    def fn(points, lengths=None):
        kk = torch.tensor(k) if form == "tensor" else k
        return f(points, lengths, K=kk, random_start_point=rs)
    return Call(fn, t, ("points",), (n, p, d, form, rs))


# ------------------------------------------------------------------ packing
@op
def packed_to_padded(c, odd):
    from pytorch3d.ops import packed_to_padded as f
    sizes = [sz(c, odd, 1, 6) for _ in range(c.i(1, 5))]
    extra = c.i(0, 2)
    m = max(sizes) + extra
    feat = c.pick((), (c.i(1, 4),), (c.i(1, 3), c.i(1, 3)))
    if sum(sizes) == 0:
        feat = ()
    m = max(m, 1)
    first = torch.tensor([0] + sizes[:-1]).cumsum(0)
    return Call(lambda x, first: f(x, first, m), dict(x=c.randn(sum(sizes), *feat), first=first), ("x",),
                (tuple(sizes), m, len(feat)))


@op
def padded_to_packed(c, odd):
    from pytorch3d.ops import padded_to_packed as f
    sizes = [sz(c, odd, 1, 6) for _ in range(c.i(1, 5))]
    m = max(max(sizes) + c.i(0, 2), 1)
    feat = c.pick((), (c.i(1, 4),), (c.i(1, 3), c.i(1, 3)))
    if sum(sizes) == 0:
        feat = ()
    first = torch.tensor([0] + sizes[:-1]).cumsum(0)
    return Call(lambda x, first: f(x, first, sum(sizes)), dict(x=c.randn(len(sizes), m, *feat), first=first), ("x",),
                (tuple(sizes), m, len(feat)))


# ------------------------------------------------------------------ meshes
@op
def face_areas_normals(c, odd):
    from pytorch3d.ops import mesh_face_areas_normals as f
    v, fc = gen.mesh(c, empty=0.1 if odd else 0, nofaces=0.1 if odd else 0)
    if odd and len(fc) and c.p(0.3):  # degenerate faces
        fc = fc.clone()
        fc[0] = fc[0, 0]
    return Call(lambda verts, faces: f(verts, faces), dict(verts=v, faces=fc), ("verts",), (len(v), len(fc)))


@op
def graph_conv(c, odd):
    from pytorch3d.ops import GraphConv
    v = max(1, sz(c, odd, 2, 9))
    e = sz(c, odd, 1, 12)
    di, do = c.i(1, 4), c.i(1, 4)
    directed = c.p(0.5)
    mod = GraphConv(di, do, init=c.pick("normal", "zero"), directed=directed)
    t = dict(x=c.randn(v, di), edges=c.randint(0, v, (e, 2)), w0=c.randn(do, di), w1=c.randn(do, di),
             b0=c.randn(do), b1=c.randn(do))

    def fn(x, edges, w0, w1, b0, b1):
        return torch.func.functional_call(
            mod, {"w0.weight": w0, "w0.bias": b0, "w1.weight": w1, "w1.bias": b1}, (x, edges))
    return Call(fn, t, ("x", "w0", "w1", "b0", "b1"), (v, e, di, do, directed))


@op
def gather_scatter(c, odd):
    from pytorch3d.ops.graph_conv import gather_scatter as f
    v, e, d = max(1, sz(c, odd, 2, 9)), sz(c, odd, 1, 12), c.i(1, 4)
    directed = c.p(0.5)
    return Call(lambda x, edges: f(x, edges, directed), dict(x=c.randn(v, d), edges=c.randint(0, v, (e, 2))), ("x",),
                (v, e, d, directed))


@op
def interpolate_attributes(c, odd):
    from pytorch3d.ops import interpolate_face_attributes as f
    n, h, w, k = sz(c, odd, 1, 2), sz(c, odd, 1, 4), c.i(1, 4), c.i(1, 3)
    nf, d = c.i(1, 6), c.i(1, 4)
    p = c.randint(-1, nf, (n, h, w, k))
    return Call(lambda p2f, bary, attrs: f(p2f, bary, attrs),
                dict(p2f=p, bary=c.rand(n, h, w, k, 3), attrs=c.randn(nf, 3, d)), ("bary", "attrs"), (n, h, w, k, nf, d))


def _fragments(c, odd):
    n, h, w, k = max(1, sz(c, odd, 1, 2)), c.i(1, 4), c.i(1, 4), sz(c, False, 1, 4)
    nf = c.i(1, 6)
    p2f = c.randint(-1, nf, (n, h, w, k))
    return n, h, w, k, p2f


@op
def sigmoid_alpha(c, odd):
    from pytorch3d.renderer.blending import BlendParams, sigmoid_alpha_blend
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    n, h, w, k, p2f = _fragments(c, odd)
    bp = BlendParams(sigma=c.pick(1e-4, 1e-2, 1.0))

    def fn(colors, p2f, dists):
        z = torch.ones_like(dists)
        fr = Fragments(pix_to_face=p2f, zbuf=z, bary_coords=z[..., None].expand(*z.shape, 3), dists=dists)
        return sigmoid_alpha_blend(colors, fr, bp)
    return Call(fn, dict(colors=c.rand(n, h, w, k, 3), p2f=p2f, dists=c.randn(n, h, w, k) * bp.sigma * 2), ("dists",),
                (n, h, w, k, bp.sigma))


@op
def softmax_blend(c, odd):
    from pytorch3d.renderer.blending import BlendParams, softmax_rgb_blend
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    n, h, w, k, p2f = _fragments(c, odd)
    bp = BlendParams(sigma=c.pick(1e-2, 1.0), gamma=c.pick(0.1, 1.0), background_color=(c.u(), c.u(), c.u()))
    far = c.pick(100.0, 10.0)

    def fn(colors, p2f, dists, zbuf):
        fr = Fragments(pix_to_face=p2f, zbuf=zbuf, bary_coords=zbuf[..., None].expand(*zbuf.shape, 3), dists=dists)
        return softmax_rgb_blend(colors, fr, bp, znear=1.0, zfar=far)
    return Call(fn, dict(colors=c.rand(n, h, w, k, 3), p2f=p2f, dists=c.randn(n, h, w, k) * bp.sigma,
                         zbuf=c.rand(n, h, w, k, lo=1.5, hi=8)), ("colors", "dists", "zbuf"), (n, h, w, k))


@op
def compositing(c, odd):
    from pytorch3d.renderer import compositing as m
    name = c.pick("alpha_composite", "norm_weighted_sum", "weighted_sum")
    b, k, h, w = max(1, sz(c, odd, 1, 3)), sz(c, odd, 1, 4), c.i(1, 4), c.i(1, 4)
    p, ch = c.i(1, 7), sz(c, odd, 1, 4)
    idx = c.randint(-1, p, (b, k, h, w))
    al = c.rand(b, k, h, w, lo=0.05, hi=0.95)
    if odd and c.p(0.3):
        al = (al > 0.5).float()
    return Call(lambda idx, alphas, feats: getattr(m, name)(idx, alphas, feats),
                dict(idx=idx, alphas=al, feats=c.randn(ch, p)), ("alphas", "feats"), (name, b, k, h, w, p, ch))


@op
def splat_volume(c, odd):
    from pytorch3d.ops import add_points_features_to_volume_densities_features as f
    n, p, ch = max(1, sz(c, odd, 1, 3)), sz(c, odd, 1, 9), c.i(1, 4)
    g = [c.i(1, 5) for _ in range(3)]
    mode, ac = c.pick("trilinear", "nearest"), c.p(0.5)
    rescale = c.p(0.5)
    pw = c.pick(1.0, c.u(0.1, 2))
    sizes = torch.tensor([[c.i(1, x) for x in g] if c.p(0.4) else g for _ in range(n)])
    pts = c.rand(n, p, 3, lo=-1.3, hi=1.3)
    if odd:
        pts = hostile_values(c, pts)
    t = dict(points=pts, feats=c.randn(n, p, ch), sizes=sizes)
    if c.p(0.4):
        t["mask"] = (c.rand(n, p) < 0.7).float()
    den, vf = c.rand(n, 1, *g), c.randn(n, ch, *g)

    def fn(points, feats, sizes, mask=None):
        a, b = f(points, feats, den.clone(), vf.clone(), mode=mode, min_weight=1e-4, mask=mask, grid_sizes=sizes,
                 **extra)
        return a, b
    import inspect
    extra = {k: v for k, v in dict(rescale_features=rescale, align_corners=ac, point_weight=pw).items()
             if k in inspect.signature(f).parameters}
    return Call(fn, t, ("feats",) if mode == "nearest" else ("points", "feats"), (n, p, ch, tuple(g), mode, ac, rescale, "mask" in t))


def _clouds_and_meshes(c, odd):
    n = c.i(1, 3)
    ms = gen.meshes(c, n, nofaces=0.0)
    pts = [c.randn(max(1, sz(c, odd, 1, 7)), 3) * 1.5 for _ in range(n)]
    return n, ms, pts


@op
def point_mesh(c, odd):
    from pytorch3d.loss import point_mesh_edge_distance, point_mesh_face_distance
    from pytorch3d.structures import Meshes, Pointclouds
    f = c.pick(point_mesh_face_distance, point_mesh_edge_distance)
    n, ms, pts = _clouds_and_meshes(c, odd)
    ns, ps = [len(v) for v, _ in ms], [len(p) for p in pts]
    faces = [x for _, x in ms]
    if odd and c.p(0.3):
        faces[0] = faces[0].clone()
        faces[0][0] = faces[0][0, 0]

    def fn(verts, points):
        return f(Meshes(list(verts.split(ns)), faces), Pointclouds(list(points.split(ps))))
    return Call(fn, dict(verts=torch.cat([v for v, _ in ms]), points=torch.cat(pts)), ("verts", "points"),
                (f.__name__, n, tuple(ns), tuple(ps)))


@op
def point_hull(c, odd):
    from pytorch3d.loss import point_mesh_distance as m
    name = c.pick("point_face_distance", "face_point_distance", "point_edge_distance", "edge_point_distance")
    h = 3 if "face" in name else 2
    n = c.i(1, 3)
    pn = [max(1, sz(c, odd, 1, 6)) for _ in range(n)]
    hn = [max(1, sz(c, odd, 1, 6)) for _ in range(n)]
    if odd and c.p(0.4):
        (pn if c.p(0.5) else hn)[c.i(0, n - 1)] = 0
    first = lambda s: torch.tensor([0] + s[:-1]).cumsum(0)
    mx = max(pn) if name.startswith("point") else max(hn)
    hull = c.randn(sum(hn), h, 3)
    if odd and c.p(0.3) and len(hull):
        hull[0] = hull[0, 0]
    return Call(lambda points, hull, pf, hf: getattr(m, name)(points, pf, hull, hf, mx),
                dict(points=c.randn(sum(pn), 3), hull=hull, pf=first(pn), hf=first(hn)),
                ("points", "hull"), (name, tuple(pn), tuple(hn)))


@op
def point_hull_array(c, odd):
    from pytorch3d import _C
    h = c.pick(2, 3)
    stem = {2: "point_edge_array_dist", 3: "point_face_array_dist"}[h]
    p, b = sz(c, odd, 1, 5), sz(c, odd, 1, 5)
    extra = (5e-3,) if h == 3 else ()

    def fn(points, hull, g):
        return (getattr(_C, stem + "_forward")(points, hull, *extra),
                *getattr(_C, stem + "_backward")(points, hull, g, *extra))
    return Call(fn, dict(points=c.randn(p, 3), hull=c.randn(b, h, 3), g=c.randn(p, b)), (), (h, p, b))


def _camera_mesh(c, odd):
    n = c.i(1, 3)
    out = []
    for _ in range(n):
        v, f = gen.mesh(c, empty=0.15 if odd and n > 1 else 0, nofaces=0.15 if odd and n > 1 else 0)
        v = v.clone()
        if len(v):
            v = v - v.mean(0)
            v[:, 2] += c.pick(3.0, 6.0, 0.5 if odd else 4.0)
        out.append((v, f))
    return out


@op
def rasterize_meshes(c, odd):
    from pytorch3d.renderer.mesh import rasterize_meshes as f
    from pytorch3d.structures import Meshes
    ms = _camera_mesh(c, odd)
    if all(len(x) == 0 for _, x in ms):
        ms[0] = (torch.tensor([[0., 0, 2], [1, 0, 2], [0, 1, 2]]), torch.tensor([[0, 1, 2]]))
    ns = [len(v) for v, _ in ms]
    size = c.pick(c.i(1, 9), (c.i(1, 9), c.i(1, 9)), (1, c.i(1, 20)), (c.i(1, 20), 1))
    kw = dict(image_size=size, blur_radius=c.pick(0.0, 1e-4, 0.05), faces_per_pixel=c.i(1, 6),
              perspective_correct=c.p(0.5), clip_barycentric_coords=c.p(0.5), cull_backfaces=c.p(0.3))
    if odd:
        kw.update(bin_size=c.pick(None, 0), max_faces_per_bin=c.pick(None, 100),
                  z_clip_value=c.pick(None, None, 0.5, 1.0), cull_to_frustum=c.p(0.3))
        if c.p(0.1):
            ms[0] = (hostile_values(c, ms[0][0]), ms[0][1])
    faces = [x for _, x in ms]

    def fn(verts):
        return f(Meshes(list(verts.split(ns)), faces), **kw)
    call = Call(fn, dict(verts=torch.cat([v for v, _ in ms])), ("verts",),
                (tuple(ns), tuple(len(x) for x in faces), *[str(v) for v in kw.values()]))
    call.guard = lambda verts: f(Meshes(list(verts.split(ns)), faces), **{**kw, "clip_barycentric_coords": False})
    return call


@op
def rasterize_points(c, odd):
    from pytorch3d.renderer.points import rasterize_points as f
    from pytorch3d.structures import Pointclouds
    n = c.i(1, 3)
    pn = [sz(c, odd, 1, 10) for _ in range(n)]
    if sum(pn) == 0:
        pn[0] = 1
    size = c.pick(c.i(1, 9), (c.i(1, 9), c.i(1, 9)), (1, c.i(1, 20)), (c.i(1, 20), 1))
    kw = dict(image_size=size, points_per_pixel=c.i(1, 6))
    if odd:
        kw.update(bin_size=c.pick(None, 0), max_points_per_bin=c.pick(None, 100))
    per = c.p(0.5)
    pts = c.randn(sum(pn), 3)
    pts[:, 2] = c.rand(sum(pn), lo=-0.2 if odd else 0.5, hi=4)
    if odd and c.p(0.15):
        pts = hostile_values(c, pts)
    t = dict(points=pts)
    if per:
        t["radius"] = c.rand(n, max(pn), lo=0.02, hi=0.9)
    r = c.pick(0.0, c.u(0.01, 2))

    def fn(points, radius=None):
        return f(Pointclouds(list(points.split(pn))), radius=r if radius is None else radius, **kw)
    return Call(fn, t, ("points",), (tuple(pn), str(size), kw["points_per_pixel"], per))


@op
def coarse_rasterizers(c, odd):
    from pytorch3d import _C
    n = c.i(1, 3)
    sizes = [sz(c, odd, 1, 8) for _ in range(n)]
    first = torch.tensor([0] + sizes[:-1]).cumsum(0)
    num = torch.tensor(sizes)
    hw = (c.i(1, 20), c.i(1, 20))
    b, m = c.i(1, 9), 16
    which = c.pick("mesh", "points")
    blur = c.pick(0.0, 0.1)
    if which == "mesh":
        x = c.randn(sum(sizes), 3, 3)
        return Call(lambda x: _C._rasterize_meshes_coarse(x, first, num, hw, blur, b, m), dict(x=x), (), (which, tuple(sizes), hw, b))
    x, r = c.randn(sum(sizes), 3), c.rand(sum(sizes))
    return Call(lambda x, r: _C._rasterize_points_coarse(x, first, num, hw, r, b, m), dict(x=x, r=r), (), (which, tuple(sizes), hw, b))


@op
def sample_pdf(c, odd):
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf as f
    lead = c.pick((c.i(1, 9),), (c.i(1, 3), c.i(1, 4)), (2,))
    nb, ns, det = c.i(1, 9), c.i(1, 9), c.p(0.5)
    w = c.rand(*lead, nb, lo=0.1, hi=1)
    if odd and c.p(0.3):
        w = w * (c.rand(*lead, nb) < 0.5)
    bins = c.rand(*lead, nb + 1).sort(-1)[0]
    return Call(lambda bins, w: f(bins, w, ns, det=det), dict(bins=bins, w=w), (), (lead, nb, ns, det))


@op
def marching_cubes(c, odd):
    from pytorch3d.ops.marching_cubes import marching_cubes as f
    n = c.i(1, 2)
    dims = [max(1, sz(c, odd, 2, 6)) for _ in range(3)]
    x = c.randn(n, *dims)
    if odd and c.p(0.4):
        x = x.round()  # values on the level
    if odd and c.p(0.1):
        x = hostile_values(c, x)
    iso = c.pick(0.0, None, c.u(-0.5, 0.5))
    loc = c.p(0.5)

    def fn(x):
        v, fc = f(x, iso, return_local_coords=loc)
        return tuple(v) + tuple(fc)
    return Call(fn, dict(x=x), (), (n, tuple(dims), iso is None, loc))


def boxes(c, n):
    from pytorch3d.transforms import random_rotations
    base = torch.tensor([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1.]])
    out = []
    for _ in range(n):
        b = (base - 0.5) * c.rand(3, lo=0.3, hi=2)
        if c.p(0.7):
            b = b @ random_rotations(1)[0].T
        out.append(b + c.randn(3) * c.pick(0.0, 0.3, 1.0))
    return torch.stack(out) if n else torch.zeros(0, 8, 3)


@op
def box3d(c, odd):
    from pytorch3d.ops import box3d_overlap as f
    n, m = c.i(1, 3), c.i(1, 3)
    b1, b2 = boxes(c, n), boxes(c, m)
    if c.p(0.3):
        b2[0] = b1[0]
    return Call(lambda b1, b2: f(b1, b2), dict(b1=b1, b2=b2), (), (n, m))


@op
def pulsar(c, odd):
    from pytorch3d.renderer.points.pulsar import Renderer
    w, h = c.i(2, 40), c.i(2, 40)
    n = max(1, sz(c, odd, 1, 12))
    batch = c.pick(None, c.i(1, 3))
    ortho, rh = c.p(0.3), c.p(0.4)
    ch, track = c.pick(3, 1, c.i(1, 6)), c.i(1, 5)
    lead = () if batch is None else (batch,)
    r = Renderer(w, h, n + c.i(0, 4), orthogonal_projection=ortho, right_handed_system=rh, n_channels=ch, n_track=track)
    sgn = -1 if rh else 1
    pos = c.randn(*lead, n, 3) * c.pick(1.0, 5.0)
    pos[..., 2] = sgn * c.rand(*lead, n, lo=-5 if odd else 8, hi=30)
    rad = c.rand(*lead, n, lo=0.05, hi=c.pick(1.0, 4.0))
    cam = torch.zeros(*lead, 8)
    cam[..., :3] = c.randn(*lead, 3) * 0.2
    cam[..., 3:6] = c.randn(*lead, 3) * 0.1
    cam[..., 6], cam[..., 7] = 0 if ortho else c.u(1, 5), c.u(1, 5) * (10 if ortho else 1)
    t = dict(pos=pos, col=c.rand(*lead, n, ch), rad=rad, cam=cam)
    if c.p(0.4):
        t["opacity"] = c.rand(*lead, n)
    if c.p(0.5):
        t["bg"] = c.rand(ch)
    gamma, far, info = c.pick(1.0, 0.1, 1e-4), 40.0, c.p(0.5)
    kw = dict(percent_allowed_difference=c.pick(0.0, 0.01, 0.3))
    if odd:
        kw.update(max_n_hits=c.pick(1, 2, 4294967295), mode=c.pick(0, 0, 1))
        if ch != 3 and kw["mode"]:
            kw["mode"] = 0

    def fn(pos, col, rad, cam, opacity=None, bg=None):
        o = r.forward(pos, col, rad, cam, gamma, far, bg_col=bg, opacity=opacity, return_forward_info=info, **kw)
        if isinstance(o, tuple):
            if o[1] is not None:
                return (*o, r.sphere_ids_from_result_info_nograd(o[1]))
            return o[0]
        return o
    diff = () if kw.get("mode") else ("pos", "col", "rad") + (("opacity",) if "opacity" in t else ())
    return Call(fn, t, diff, (w, h, n, batch, ortho, rh, ch, track, info, kw.get("mode")))


# ------------------------------------------------------------------ losses
def _mesh_call(c, odd, fn, diff=True, kinds=None, **kw):
    from pytorch3d.structures import Meshes
    ms = gen.meshes(c, empty=0.1 if odd else 0, nofaces=0.1 if odd else 0, **({"kinds": kinds} if kinds else {}))
    if all(len(f) == 0 for _, f in ms):
        ms.append(gen.cube())
    ns = [len(v) for v, _ in ms]
    faces = [f for _, f in ms]
    return Call(lambda verts: fn(Meshes(list(verts.split(ns)), faces)), dict(verts=torch.cat([v for v, _ in ms])),
                ("verts",) if diff else (), (tuple(ns), tuple(map(len, faces))))


@op
def chamfer(c, odd):
    from pytorch3d.loss import chamfer_distance as f
    n, p1, p2 = c.i(1, 3), c.i(1, 8), c.i(1, 8)
    # a cloud of no point has no mean
    kw = dict(norm=c.pick(1, 2), single_directional=c.p(0.3), abs_cosine=c.p(0.5),
              batch_reduction=c.pick("mean", "sum", None), point_reduction=c.pick("mean", "sum", "max", None))
    if kw["point_reduction"] is None:
        kw["batch_reduction"] = None
    t = dict(x=c.randn(n, p1, 3), y=c.randn(n, p2, 3))
    if c.p(0.5):
        t["xl"], t["yl"] = lengths(c, False, n, p1), lengths(c, False, n, p2)
    if c.p(0.5) and kw["point_reduction"] != "max":
        t["xn"], t["yn"] = c.randn(n, p1, 3), c.randn(n, p2, 3)
    if c.p(0.4) and kw["point_reduction"] not in (None, "max"):
        t["w"] = c.rand(n, lo=0.1, hi=2)

    def flat(o):
        out = []
        for x in o:
            if isinstance(x, (tuple, list)):
                out += [y for y in x if y is not None]
            elif x is not None:
                out.append(x)
        return tuple(out)

    def fn(x, y, xl=None, yl=None, xn=None, yn=None, w=None):
        return flat(f(x, y, xl, yl, xn, yn, weights=w, **kw))
    return Call(fn, t, ("x", "y") + (("xn", "yn") if "xn" in t else ()), (n, p1, p2, *[str(v) for v in kw.values()], *t))


@op
def mesh_edge_loss(c, odd):
    from pytorch3d.loss import mesh_edge_loss as f
    tl = c.pick(0.0, 0.7)
    return _mesh_call(c, odd, lambda m: f(m, tl))


@op
def normal_consistency(c, odd):
    from pytorch3d.loss import mesh_normal_consistency as f
    return _mesh_call(c, odd, f)


@op
def laplacian_smoothing(c, odd):
    from pytorch3d.loss import mesh_laplacian_smoothing as f
    m = c.pick("uniform", "cot", "cotcurv")
    # the weights of the cot variants are constants by design
    return _mesh_call(c, odd, lambda x: f(x, method=m), diff=m == "uniform", kinds=("cube", "ico", "tetra"))


@op
def taubin(c, odd):
    from pytorch3d.ops import taubin_smoothing as f
    k = c.i(1, 3)
    return _mesh_call(c, odd, lambda x: f(x, num_iter=k).verts_packed(), kinds=("cube", "ico", "tetra"))


@op
def mesh_views(c, odd):
    return _mesh_call(c, odd, lambda m: (m.verts_normals_packed(), m.faces_normals_packed(), m.faces_areas_packed(),
                                         m.verts_padded(), m.edges_packed()), diff=True)


@op
def sample_surface(c, odd):
    from pytorch3d.ops import sample_points_from_meshes as f
    k = c.i(1, 9)
    return _mesh_call(c, odd, lambda m: f(m, k, return_normals=True))


@op
def laplacians(c, odd):
    from pytorch3d import ops
    which = c.pick("laplacian", "norm_laplacian", "cot_laplacian")

    def fn(m):
        if which == "cot_laplacian":
            l, a = ops.cot_laplacian(m.verts_packed(), m.faces_packed())
            return l.to_dense(), a
        if which == "laplacian":
            return ops.laplacian(m.verts_packed(), m.edges_packed()).to_dense()
        return ops.norm_laplacian(m.verts_packed(), m.edges_packed()).to_dense()
    return _mesh_call(c, odd, fn, diff=False)


@op
def subdivide(c, odd):
    from pytorch3d.ops import SubdivideMeshes

    def fn(m):
        o = SubdivideMeshes()(m)
        return o.verts_packed(), o.faces_packed()
    return _mesh_call(c, False, fn, kinds=("cube", "ico", "tetra", "tri"))


# ------------------------------------------------------------------ clouds, alignment
@op
def cloud_normals(c, odd):
    from pytorch3d.ops import estimate_pointcloud_local_coord_frames as f
    n, p = c.i(1, 3), c.i(6, 12)
    k = c.i(4, p - 1)
    dis = c.p(0.5)
    return Call(lambda x: f(x, k, dis), dict(x=c.randn(n, p, 3)), (), (n, p, k, dis))


@op
def align_points(c, odd):
    from pytorch3d.ops import corresponding_points_alignment as f
    n, p, d = c.i(1, 3), c.i(5, 10), 3
    es, ar = c.p(0.5), c.p(0.3)
    t = dict(x=c.randn(n, p, d), y=c.randn(n, p, d))
    if c.p(0.5):
        t["w"] = c.rand(n, p, lo=0.2, hi=1)
    return Call(lambda x, y, w=None: tuple(f(x, y, w, estimate_scale=es, allow_reflection=ar)), t, (), (n, p, es, ar))


@op
def icp(c, odd):
    from pytorch3d.ops import iterative_closest_point as f
    n = c.i(1, 2)
    x = c.randn(n, c.i(5, 9), 3)

    def fn(x, y):
        s = f(x, y, max_iterations=4)
        return (s.rmse, s.Xt, *s.RTs)
    return Call(fn, dict(x=x, y=x + 0.05 * c.randn(*x.shape)), (), (n, x.shape[1]))


@op
def pnp(c, odd):
    from pytorch3d.ops import efficient_pnp as f
    n, p = c.i(1, 2), c.i(6, 10)
    x = c.randn(n, p, 3)
    cam = x + torch.tensor([0, 0, 6.])
    return Call(lambda x, y: (f(x, y).R, f(x, y).T), dict(x=x, y=cam[..., :2] / cam[..., 2:]), (), (n, p))


@op
def vert_align(c, odd):
    from pytorch3d.ops import vert_align as f
    n, v = c.i(1, 3), c.i(1, 7)
    ch = [c.i(1, 3) for _ in range(c.i(1, 2))]
    packed = c.p(0.4)
    kw = dict(interp_mode=c.pick("bilinear", "nearest"), padding_mode=c.pick("zeros", "border", "reflection"),
              align_corners=c.p(0.5))
    t = {f"f{i}": c.randn(n, k, c.i(1, 5), c.i(1, 5)) for i, k in enumerate(ch)}
    t["verts"] = c.rand(n, v, 3, lo=-1.2, hi=1.2)
    return Call(lambda verts, **fs: f(list(fs.values()), verts, return_packed=packed, **kw), t,
                tuple(t) if kw["interp_mode"] == "bilinear" else tuple(k for k in t if k != "verts"),
                (n, v, tuple(ch), packed, *kw.values()))


@op
def cubify(c, odd):
    from pytorch3d.ops import cubify as f
    n = c.i(1, 3)
    d = [c.i(2, 4) for _ in range(3)]
    al = c.pick("topleft", "corner", "center")

    def fn(x):
        m = f(x, 0.5, align=al)
        return m.verts_packed(), m.faces_packed()
    return Call(fn, dict(x=c.rand(n, *d)), (), (n, tuple(d), al))


@op
def wmean(c, odd):
    from pytorch3d.ops import wmean as f
    dim = c.pick(-2, 0, (0, 1))
    keep = c.p(0.5)
    t = dict(x=c.randn(3, 4, 2))
    if c.p(0.6):
        t["w"] = c.rand(3, 4, lo=0.1, hi=1)
    return Call(lambda x, w=None: f(x, w, dim=dim, keepdim=keep), t, tuple(t), (dim, keep, len(t)))


# ------------------------------------------------------------------ transforms
@op
def conversions(c, odd):
    from pytorch3d import transforms as T
    n = c.i(1, 4)
    q = torch.nn.functional.normalize(c.randn(n, 4), dim=-1)
    conv = c.pick("XYZ", "ZYX", "XZX", "YXY")
    fns = {
        "quaternion_to_matrix": (T.quaternion_to_matrix, q),
        "matrix_to_quaternion": (T.matrix_to_quaternion, T.quaternion_to_matrix(q)),
        "axis_angle_to_matrix": (T.axis_angle_to_matrix, c.randn(n, 3)),
        "matrix_to_axis_angle": (T.matrix_to_axis_angle, T.quaternion_to_matrix(q)),
        "axis_angle_to_quaternion": (T.axis_angle_to_quaternion, c.randn(n, 3)),
        "quaternion_to_axis_angle": (T.quaternion_to_axis_angle, q),
        "rotation_6d_to_matrix": (T.rotation_6d_to_matrix, c.randn(n, 6)),
        "matrix_to_rotation_6d": (T.matrix_to_rotation_6d, T.quaternion_to_matrix(q)),
        "euler_angles_to_matrix": (lambda x: T.euler_angles_to_matrix(x, conv), c.randn(n, 3)),
        "so3_exp_map": (T.so3_exp_map, c.randn(n, 3)),
        "so3_log_map": (T.so3_log_map, T.so3_exp_map(c.randn(n, 3) * 0.7)),
        "se3_exp_map": (T.se3_exp_map, c.randn(n, 6)),
        "se3_log_map": (T.se3_log_map, T.se3_exp_map(c.randn(n, 6) * 0.7)),
        "standardize_quaternion": (T.standardize_quaternion, q),
        "hat": (T.hat if hasattr(T, "hat") else T.so3.hat, c.randn(n, 3)),
    }
    k = c.pick(*fns)
    f, x = fns[k]
    return Call(lambda x: f(x), dict(x=x), ("x",), (k, n))


@op
def quaternion_algebra(c, odd):
    from pytorch3d import transforms as T
    n = c.i(1, 4)
    k = c.pick("quaternion_multiply", "quaternion_raw_multiply", "quaternion_apply")
    b = c.randn(n, 3 if k == "quaternion_apply" else 4)
    return Call(lambda a, b: getattr(T, k)(a, b), dict(a=torch.nn.functional.normalize(c.randn(n, 4), dim=-1), b=b),
                ("a", "b"), (k, n))


@op
def transform3d(c, odd):
    from pytorch3d.transforms import Transform3d, axis_angle_to_matrix
    n, p = c.i(1, 3), c.i(1, 5)
    t = dict(x=c.randn(n, p, 3), tr=c.randn(n, 3), s=c.rand(n, 3, lo=0.5, hi=2), r=c.randn(n, 3))

    def fn(x, tr, s, r):
        a = Transform3d().scale(s).rotate(axis_angle_to_matrix(r)).translate(tr)
        return a.transform_points(x), a.transform_normals(x), a.inverse().transform_points(x), a.get_matrix()
    return Call(fn, t, tuple(t), (n, p))


# ------------------------------------------------------------------ cameras, shading
@op
def cameras(c, odd):
    from pytorch3d import renderer as r
    from pytorch3d.transforms import axis_angle_to_matrix
    n, p = c.i(1, 3), c.i(1, 5)
    kind = c.pick("FoVPerspectiveCameras", "FoVOrthographicCameras", "PerspectiveCameras", "OrthographicCameras")
    t = dict(x=torch.cat([c.randn(n, p, 2), c.rand(n, p, 1, lo=3, hi=6)], -1), rot=c.randn(n, 3) * 0.3, T=c.randn(n, 3) * 0.3)
    if "FoVP" in kind:
        t["fov"] = c.rand(n, lo=30, hi=90)
    elif "FoV" not in kind:
        t["focal_length"] = c.rand(n, 2, lo=0.5, hi=2)
        t["principal_point"] = c.randn(n, 2) * 0.2

    def fn(x, rot, T, **kw):
        cam = getattr(r, kind)(R=axis_angle_to_matrix(rot), T=T, **kw)
        y = cam.transform_points(x)
        w = cam.unproject_points(torch.cat([x[..., :2] * 0.1, x[..., 2:]], -1), world_coordinates=True)
        return y, cam.transform_points_ndc(x), w, cam.get_camera_center()
    return Call(fn, t, tuple(t), (kind, n, p))


@op
def lighting(c, odd):
    from pytorch3d import renderer as r
    n, p = c.i(1, 3), c.i(1, 5)
    kind = c.pick("DirectionalLights", "PointLights")
    arg = "direction" if kind[0] == "D" else "location"
    sh = (n, c.i(1, 3), c.i(1, 3), p, 3)
    t = dict(pts=c.randn(*sh), nrm=c.randn(*sh), loc=c.randn(n, 3), cam=c.randn(n, 3) * 3)

    def fn(pts, nrm, loc, cam):
        li = getattr(r, kind)(**{arg: loc})
        if kind[0] == "D":
            return li.diffuse(nrm), li.specular(nrm, pts, cam, 4)
        return li.diffuse(nrm, pts), li.specular(nrm, pts, cam, 4)
    return Call(fn, t, tuple(t), (kind, n, p))


@op
def textures(c, odd):
    from pytorch3d.renderer import TexturesUV, TexturesVertex
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    from pytorch3d.structures import Meshes
    n = c.i(1, 2)
    ms = gen.meshes(c, n, kinds=("cube", "tetra", "tri"))
    nf = sum(len(f) for _, f in ms)
    h, w, k = c.i(1, 4), c.i(1, 4), c.i(1, 2)
    first = torch.tensor([0] + [len(f) for _, f in ms]).cumsum(0)
    p2f = torch.stack([c.randint(int(first[i]), int(first[i + 1]), (h, w, k)) for i in range(n)])
    p2f = torch.where(c.rand(n, h, w, k) < 0.3, torch.full_like(p2f, -1), p2f)
    bary = torch.nn.functional.normalize(c.rand(n, h, w, k, 3, lo=0.1), p=1, dim=-1)
    fr = lambda b: Fragments(pix_to_face=p2f, zbuf=b[..., 0], bary_coords=b, dists=b[..., 0])
    verts, faces = [v for v, _ in ms], [f for _, f in ms]
    if c.p(0.5):
        t = dict(bary=bary, feats=torch.cat([c.randn(len(v), 3) for v in verts]))
        ns = [len(v) for v in verts]

        def fn(bary, feats):
            m = Meshes(verts, faces, TexturesVertex(list(feats.split(ns))))
            return m.sample_textures(fr(bary))
        return Call(fn, t, ("bary", "feats"), ("vertex", n, h, w, k))
    uvs = [c.rand(len(v), 2) for v in verts]
    t = dict(bary=bary, maps=c.rand(n, c.i(2, 5), c.i(2, 5), 3))
    ac, pm = c.p(0.5), c.pick("border", "zeros", "reflection")

    def fn(bary, maps):
        m = Meshes(verts, faces, TexturesUV(maps, faces, uvs, padding_mode=pm, align_corners=ac))
        return m.sample_textures(fr(bary))
    return Call(fn, t, ("maps",), ("uv", n, h, w, k, ac, pm))


@op
def render_mesh(c, odd):
    from pytorch3d import renderer as r
    from pytorch3d.structures import Meshes
    n = c.i(1, 2)
    ms = gen.meshes(c, n, kinds=("cube", "tetra", "ico"))
    ms = [(v - v.mean(0), f) for v, f in ms]
    ns = [len(v) for v, _ in ms]
    faces = [f for _, f in ms]
    R, T = r.look_at_view_transform(c.u(5, 7), c.u(-60, 60), torch.tensor([c.u(-180, 180) for _ in range(n)]))
    shader = c.pick("SoftPhongShader", "HardPhongShader", "SoftGouraudShader", "HardFlatShader", "SoftSilhouetteShader")
    soft = shader.startswith("Soft")
    rs = dict(image_size=(c.i(2, 10), c.i(2, 10)), blur_radius=c.pick(0.0, 0.01) if soft else 0.0, faces_per_pixel=c.i(1, 4) if soft else 1)
    t = dict(verts=torch.cat([v for v, _ in ms]), feats=c.rand(sum(ns), 3))

    def fn(verts, feats):
        cam = r.FoVPerspectiveCameras(R=R, T=T)
        m = Meshes(list(verts.split(ns)), faces, r.TexturesVertex(list(feats.split(ns))))
        kw = {} if "Silhouette" in shader else dict(cameras=cam, lights=r.PointLights(location=[[2., 3, -4]]))
        ren = r.MeshRenderer(r.MeshRasterizer(cam, r.RasterizationSettings(**rs)), getattr(r, shader)(**kw))
        return ren(m)
    return Call(fn, t, ("verts",) if "Silhouette" in shader else ("verts", "feats"), (shader, n, *[str(x) for x in rs.values()]))


@op
def render_points(c, odd):
    from pytorch3d import renderer as r
    from pytorch3d.structures import Pointclouds
    n = c.i(1, 2)
    pn = [c.i(1, 9) for _ in range(n)]
    comp = c.pick("AlphaCompositor", "NormWeightedCompositor")
    bg = c.pick(None, (0.2, 0.4, 0.6))
    rs = dict(image_size=(c.i(2, 10), c.i(2, 10)), radius=c.u(0.1, 0.6), points_per_pixel=c.i(1, 4))
    R, T = r.look_at_view_transform(5.0, c.u(-60, 60), torch.tensor([c.u(-180, 180) for _ in range(n)]))
    t = dict(points=c.randn(sum(pn), 3), feats=c.rand(sum(pn), 3))

    def fn(points, feats):
        cam = r.FoVPerspectiveCameras(R=R, T=T)
        ren = r.PointsRenderer(r.PointsRasterizer(cam, r.PointsRasterizationSettings(**rs)), getattr(r, comp)(background_color=bg))
        return ren(Pointclouds(list(points.split(pn)), features=list(feats.split(pn))))
    return Call(fn, t, ("points", "feats"), (comp, n, *[str(x) for x in rs.values()], bg is None))


# ------------------------------------------------------------------ implicit
@op
def raymarching(c, odd):
    from pytorch3d import renderer as r
    n, p, ch = c.i(1, 4), c.i(1, 6), c.i(1, 3)
    which = c.pick("EmissionAbsorptionRaymarcher", "AbsorptionOnlyRaymarcher")
    st = c.i(1, 2)
    t = dict(d=c.rand(n, p, 1, lo=0.05, hi=0.9))
    if which[0] == "E":
        t["f"] = c.randn(n, p, ch)
        return Call(lambda d, f: r.EmissionAbsorptionRaymarcher(surface_thickness=st)(d, f), t, ("d", "f"), (which, n, p, ch, st))
    return Call(lambda d: r.AbsorptionOnlyRaymarcher()(d), t, ("d",), (which, n, p))


@op
def ray_samplers(c, odd):
    from pytorch3d import renderer as r
    n = c.i(1, 2)
    which = c.pick("NDCMultinomialRaysampler", "MonteCarloRaysampler", "MultinomialRaysampler")
    R, T = r.look_at_view_transform(3.0, c.u(-60, 60), torch.tensor([c.u(-180, 180) for _ in range(n)]))
    st = c.p(0.4)
    w, h, pp = c.i(1, 5), c.i(1, 5), c.i(1, 4)
    if which[0] == "N":
        s = r.NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=pp, min_depth=1., max_depth=4., stratified_sampling=st)
    elif which[1] == "o":
        s = r.MonteCarloRaysampler(-1., 1., -1., 1., n_rays_per_image=w * h, n_pts_per_ray=pp, min_depth=1., max_depth=4., stratified_sampling=st)
    else:
        s = r.MultinomialRaysampler(min_x=-1., max_x=1., min_y=-1., max_y=1., image_width=w, image_height=h, n_pts_per_ray=pp, min_depth=1., max_depth=4., stratified_sampling=st)

    def fn(R, T, f):
        b = s(r.PerspectiveCameras(R=R, T=T, focal_length=f))
        return b.origins, b.directions, b.lengths, b.xys
    return Call(fn, dict(R=R, T=T, f=c.rand(n, 1, lo=0.8, hi=2)), ("R", "T", "f"), (which, n, w, h, pp, st))


@op
def volume_sampler(c, odd):
    from pytorch3d.renderer import RayBundle, VolumeSampler
    from pytorch3d.structures import Volumes
    n, p, ch = c.i(1, 2), c.i(1, 5), c.i(1, 3)
    g = [c.i(2, 4) for _ in range(3)]
    pm = c.pick("zeros", "border")
    t = dict(den=c.rand(n, 1, *g), fe=c.randn(n, ch, *g), o=c.randn(n, 3, 3) * 0.3, d=c.randn(n, 3, 3), l=c.rand(n, 3, p))

    def fn(den, fe, o, d, l):
        v = Volumes(densities=den, features=fe, voxel_size=0.5)
        return VolumeSampler(v, padding_mode=pm)(RayBundle(o, d, l, o[..., :2]))
    return Call(fn, t, ("den", "fe"), (n, p, ch, tuple(g), pm))


@op
def harmonic(c, odd):
    from pytorch3d.renderer import HarmonicEmbedding
    k, ls, ai = c.i(1, 5), c.p(0.5), c.p(0.5)
    m = HarmonicEmbedding(k, logspace=ls, append_input=ai)
    return Call(lambda x: m(x), dict(x=c.randn(c.i(1, 4), 3)), ("x",), (k, ls, ai))
