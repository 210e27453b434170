"""Inputs stay bit-identical, equal calls give equal bits, and neither layout, warm
caches nor other calls in between change a result."""
import copy

import numpy as np
import torch

from lib import gen, ops
from lib.harness import monitor
from checks.c02 import differ

TECHNIQUE = "runtime monitoring: snapshots of every storage and container around each call of a catalogue of public operations, and bitwise comparison of repeated, re-laid-out, cache-warmed and interleaved executions"
RULE = ("operators (catalogue of public calls, forward and backward) x options x layouts; containers (Meshes with each kind of texture, Pointclouds, Volumes, cameras, lights, Transform3d) x random sequences of queries and non-in-place methods, "
        "fresh against cache-warmed; distinct = distinct (operation, options or query sequence)")
ASSUMPTIONS = ["a different memory layout may change the order of a reduction inside torch: there results are compared up to rounding"]


def seed(s):
    torch.manual_seed(s)
    np.random.seed(s % 2**32)
    import random
    random.seed(s)


def bits(t):
    """The bytes of the whole storage under a tensor."""
    return bytes(t.detach().untyped_storage())


def play(c, call, t, s):
    seed(s)
    leaves = {k: v.detach().requires_grad_() if k in call.diff else v for k, v in t.items()}
    o = call.fn(**leaves)
    o = [x for x in (o if isinstance(o, tuple) else (o,)) if isinstance(x, torch.Tensor)]
    d = [x for x in o if x.requires_grad]
    g = []
    if d:
        gen_ = torch.Generator().manual_seed(s)
        g = [torch.randn(x.shape, generator=gen_, dtype=x.dtype) for x in d]
        before = [bits(x) for x in g]
        torch.autograd.backward(d, g)
        c.check(before == [bits(x) for x in g], "the backward pass changed the upstream gradient")
    return [x.detach() for x in o], {k: v.grad for k, v in leaves.items() if v.requires_grad}


def same(c, what, a, b, exact=True, **kw):
    (o1, g1), (o2, g2) = a, b
    c.check(len(o1) == len(o2) and g1.keys() == g2.keys(), what)
    pairs = [(f"result {i}", x, y) for i, (x, y) in enumerate(zip(o1, o2))] + [(f"gradient of {k}", g1[k], g2[k]) for k in g1]
    for n, x, y in pairs:
        c.check((x is None) == (y is None), f"{what}: {n}")
        if x is None:
            continue
        if exact:
            c.check(not differ(x, y), f"{what}: {n} differs", first=x, second=y, **kw)
        elif x.is_floating_point():
            s = float(y[y.isfinite()].abs().max()) if bool(y.isfinite().any()) else 0.0
            c.close(x, y, f"{what}: {n}", atol=1e-6 + 3e-5 * s, rtol=1e-4, nan_ok=True, **kw)
        else:
            c.equal(x, y, f"{what}: {n}", **kw)


# results that jump when an input moves by one rounding step
JUMPY = {"pnp", "icp", "align_points", "cloud_normals", "box3d"}


@monitor(quick=3000, thorough=80000, need=("calls", "gradients", "other layouts"))
def operators(c):
    name = c.pick(*ops.OPS)
    call = ops.OPS[name](c, False)
    t = {k: v.clone() for k, v in call.t.items()}
    if c.p(0.4):  # views into a larger block: its other entries must stay, too
        for k, v in t.items():
            big = torch.randn(v.numel() + 7).to(v.dtype) if v.is_floating_point() else torch.arange(v.numel() + 7).to(v.dtype)
            big[3:3 + v.numel()] = v.flatten()
            t[k] = big[3:3 + v.numel()].view(v.shape)
    before = {k: (bits(v), tuple(v.stride()), v._version) for k, v in t.items()}
    s = c.i(0, 2**30)
    first = play(c, call, t, s)
    for k, v in t.items():
        c.check(bits(v) == before[k][0] and tuple(v.stride()) == before[k][1], f"{name}: the call changed its input {k}", before=call.t[k], after=v)
    for g in first[0]:
        c.count("results", 1)
    c.count("calls")
    c.count("gradients", len(first[1]))
    keep = ([x.clone() for x in first[0]], {k: None if v is None else v.clone() for k, v in first[1].items()})
    if c.p(0.5):  # another call in between
        other = ops.OPS[c.pick(*ops.OPS)](c, False)
        play(c, other, {k: v.clone() for k, v in other.t.items()}, s + 1)
    second = play(c, call, t, s)
    same(c, f"{name}: a second call with equal inputs", second, keep)
    # a result handed out earlier must not have been changed by the later calls
    same(c, f"{name}: the earlier result after later calls", first, keep)
    if name not in JUMPY:
        from checks.c01 import layout
        u = {k: layout(c, v) for k, v in call.t.items()}
        if any(u[k].stride() != call.t[k].stride() for k in u):
            c.count("other layouts")
            same(c, f"{name}: with inputs in another layout", play(c, call, u, s), keep, exact=False)
    c.sig(name, *call.sig)


# ------------------------------------------------------------------ containers
def tensors(x, path="", seen=None):
    """Every tensor reachable from a container's attributes."""
    if isinstance(x, torch.Tensor):
        yield path, x
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from tensors(y, f"{path}[{i}]")
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from tensors(y, f"{path}.{k}")
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("pytorch3d"):
        d = dict(vars(x))
        for k, y in d.items():
            yield from tensors(y, f"{path}.{k}")
        for k, y in vars(x).get("_buffers", {}).items():
            yield from tensors(y, f"{path}.{k}")


def make_mesh(c):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes
    same_size = c.p(0.3)
    ms = [gen.cube() if same_size else gen.mesh(c) for _ in range(c.i(1, 3))]
    v, f = [x.clone() for x, _ in ms], [x.clone() for _, x in ms]
    k = c.pick("none", "vertex", "uv", "atlas")
    tex = None
    data = dict(v=v, f=f)
    if k == "vertex":
        data["t"] = [c.rand(len(x), 3) for x in v]
    elif k == "uv":
        data["t"] = [c.rand(4, 5, 3) for _ in v]
        data["uv"] = [c.rand(len(x), 2) for x in v]
    elif k == "atlas":
        data["t"] = [c.rand(len(x), 2, 2, 3) for x in f]
    normals = c.p(0.3)
    if normals:
        data["n"] = [c.randn(len(x), 3) for x in v]

    def build():
        d = copy.deepcopy(data)
        tex = {"none": lambda: None, "vertex": lambda: TexturesVertex(d["t"]), "atlas": lambda: TexturesAtlas(d["t"]),
               "uv": lambda: TexturesUV(d["t"], [x.clone() for x in d["f"]], d["uv"])}[k]()
        if same_size and k == "none":
            return Meshes(torch.stack(d["v"]), torch.stack(d["f"]), verts_normals=d.get("n"))
        return Meshes(d["v"], d["f"], tex, verts_normals=d.get("n"))
    return build, (len(v), k, same_size, normals)


def mesh_queries(c):
    from pytorch3d import loss, ops as o, renderer as r
    from pytorch3d.structures import join_meshes_as_batch, join_meshes_as_scene
    n = {}
    q = {a: (lambda m, a=a: getattr(m, a)()) for a in (
        "verts_list", "faces_list", "verts_packed", "faces_packed", "verts_padded", "faces_padded", "edges_packed", "verts_packed_to_mesh_idx",
        "mesh_to_verts_packed_first_idx", "num_verts_per_mesh", "num_faces_per_mesh", "mesh_to_faces_packed_first_idx", "faces_packed_to_mesh_idx", "num_edges_per_mesh",
        "edges_packed_to_mesh_idx", "mesh_to_edges_packed_first_idx", "faces_packed_to_edges_packed", "verts_padded_to_packed_idx", "verts_normals_packed",
        "verts_normals_list", "verts_normals_padded", "faces_normals_packed", "faces_normals_list", "faces_normals_padded", "faces_areas_packed",
        "laplacian_packed", "get_bounding_boxes", "has_verts_normals", "isempty", "clone", "detach")}
    off, sc = c.randn(3), c.u(0.5, 2)
    q.update({
        "offset_verts": lambda m: m.offset_verts(off), "scale_verts": lambda m: m.scale_verts(sc), "extend": lambda m: m.extend(2),
        "update_padded": lambda m: m.update_padded(m.verts_padded() * 2 + 1), "getitem": lambda m: m[0], "slice": lambda m: m[0:1],
        "submeshes": lambda m: m.submeshes([[torch.arange(1)] if len(f) else [] for f in m.faces_list()]),
        "split": lambda m: m.split([1] * len(m)), "join_batch": lambda m: join_meshes_as_batch([m, m]), "join_scene": lambda m: join_meshes_as_scene(m, include_textures=False),
        "edge_loss": lambda m: loss.mesh_edge_loss(m), "consistency": lambda m: loss.mesh_normal_consistency(m), "smoothing": lambda m: loss.mesh_laplacian_smoothing(m),
        "sample": lambda m: o.sample_points_from_meshes(m, 4), "sample_normals": lambda m: o.sample_points_from_meshes(m, 4, return_normals=True),
        "rasterize": lambda m: r.mesh.rasterize_meshes(m.offset_verts(torch.tensor([0, 0, 4.])), image_size=5, bin_size=0, blur_radius=0.01, faces_per_pixel=2),
        "to64": lambda m: m.to("cpu"), "subdivide": lambda m: o.SubdivideMeshes()(m) if m.textures is None else None,
        "cot": lambda m: o.cot_laplacian(m.verts_packed(), m.faces_packed())[1], "taubin": lambda m: o.taubin_smoothing(m, num_iter=1),
        "tex_packed": lambda m: m.textures.faces_verts_textures_packed() if hasattr(m.textures, "faces_verts_textures_packed") else None,
        "tex_image": lambda m: m.textures.maps_padded() if hasattr(m.textures, "maps_padded") else None,
        "tex_clone": lambda m: m.textures.clone() if m.textures is not None else None,
        "render": lambda m: r.MeshRenderer(
            r.MeshRasterizer(r.FoVPerspectiveCameras(T=torch.tensor([[0, 0, 5.]])), r.RasterizationSettings(image_size=4)),
            r.SoftPhongShader(cameras=r.FoVPerspectiveCameras(T=torch.tensor([[0, 0, 5.]]))))(m) if m.textures is not None else None,
    })
    return q


def make_cloud(c):
    from pytorch3d.structures import Pointclouds
    same_size = c.p(0.3)
    sizes = [5 if same_size else c.i(1, 8) for _ in range(c.i(1, 3))]
    data = dict(points=[c.randn(s, 3) for s in sizes])
    if c.p(0.5):
        data["normals"] = [c.randn(s, 3) for s in sizes]
    if c.p(0.6):
        data["features"] = [c.rand(s, 3) for s in sizes]

    def build():
        d = copy.deepcopy(data)
        if same_size:
            d = {k: torch.stack(v) for k, v in d.items()}
        return Pointclouds(**d)
    return build, (len(sizes), same_size, *data)


def cloud_queries(c):
    from pytorch3d import loss, ops as o, renderer as r
    from pytorch3d.structures import join_pointclouds_as_batch, join_pointclouds_as_scene
    q = {a: (lambda m, a=a: getattr(m, a)()) for a in (
        "points_list", "points_packed", "points_padded", "normals_list", "normals_packed", "normals_padded", "features_list", "features_packed", "features_padded",
        "num_points_per_cloud", "packed_to_cloud_idx", "cloud_to_packed_first_idx", "padded_to_packed_idx", "get_bounding_boxes", "isempty", "clone", "detach")}
    off, sc, box = c.randn(3), c.u(0.5, 2), torch.tensor([[-1., -1, -1], [1, 1, 1]])
    q.update({
        "offset": lambda m: m.offset(off), "scale": lambda m: m.scale(sc), "extend": lambda m: m.extend(2), "getitem": lambda m: m[0], "slice": lambda m: m[0:1],
        "split": lambda m: m.split([1] * len(m)), "subsample": lambda m: m.subsample(2), "inside_box": lambda m: m.inside_box(box),
        "update_padded": lambda m: m.update_padded(m.points_padded() + 1),
        "estimate_normals": lambda m: m.estimate_normals(3, assign_to_self=False) if min(m.num_points_per_cloud()) > 4 else None,
        "chamfer": lambda m: loss.chamfer_distance(m, m.offset(off)), "rasterize": lambda m: r.points.rasterize_points(m, image_size=5, radius=0.5, bin_size=0),
        "join_batch": lambda m: join_pointclouds_as_batch([m, m]), "join_scene": lambda m: join_pointclouds_as_scene(m),
        "to": lambda m: m.to("cpu"), "fps": lambda m: o.sample_farthest_points(m.points_padded(), m.num_points_per_cloud(), 2),
        "knn": lambda m: o.knn_points(m.points_padded(), m.points_padded(), m.num_points_per_cloud(), m.num_points_per_cloud(), K=1).dists,
        "render": lambda m: r.PointsRenderer(
            r.PointsRasterizer(r.FoVPerspectiveCameras(T=torch.tensor([[0, 0, 5.]])), r.PointsRasterizationSettings(image_size=4, radius=0.3)),
            r.AlphaCompositor())(m) if m.features_list() is not None else None,
    })
    return q


def make_volume(c):
    from pytorch3d.structures import Volumes
    n, g = c.i(1, 2), [c.i(2, 4) for _ in range(3)]
    d, f = c.rand(n, 1, *g), c.randn(n, 2, *g)
    vs, tr = c.u(0.1, 2), c.randn(3)

    def build():
        return Volumes(d.clone(), f.clone(), voxel_size=vs, volume_translation=tr.clone())
    return build, (n, tuple(g))


def volume_queries(c):
    from pytorch3d import renderer as r
    from pytorch3d.ops import add_pointclouds_to_volumes
    from pytorch3d.structures import Pointclouds
    x = c.randn(2, 3)
    q = {a: (lambda m, a=a: getattr(m, a)()) for a in (
        "densities", "densities_list", "features", "features_list", "get_grid_sizes", "get_world_to_local_coords_transform", "get_local_to_world_coords_transform", "get_coord_grid", "clone")}
    pc = Pointclouds(c.randn(1, 5, 3), features=c.rand(1, 5, 2))
    q.update({
        "world": lambda m: m.local_to_world_coords(x.expand(len(m), 2, 3)), "local": lambda m: m.world_to_local_coords(x.expand(len(m), 2, 3)),
        "grid_local": lambda m: m.get_coord_grid(world_coordinates=False), "getitem": lambda m: m[0], "to": lambda m: m.to("cpu"),
        "add": lambda m: add_pointclouds_to_volumes(pc.extend(len(m)), m.clone()),  # adds in place, as documented
        "sample": lambda m: r.VolumeSampler(m)(r.RayBundle(torch.zeros(len(m), 2, 3), x.expand(len(m), 2, 3), torch.ones(len(m), 2, 3), torch.zeros(len(m), 2, 2))),
    })
    return q


def make_camera(c):
    from pytorch3d import renderer as r
    from pytorch3d.transforms import random_rotations
    n = c.i(1, 3)
    kind = c.pick("FoVPerspectiveCameras", "FoVOrthographicCameras", "PerspectiveCameras", "OrthographicCameras")
    d = dict(R=random_rotations(n), T=c.randn(n, 3))
    if "FoV" in kind:
        d.update(znear=c.rand(n) + 0.5, zfar=c.rand(n) * 10 + 20)
    else:
        d.update(focal_length=c.rand(n, 2, lo=1, hi=3), principal_point=c.randn(n, 2) * 0.1)
        if c.p(0.4):
            d.update(in_ndc=False, image_size=torch.tensor([[20., 30]]).expand(n, 2))

    def build():
        return getattr(r, kind)(**{k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in d.items()})
    return build, (kind, n, d.get("in_ndc", True))


def camera_queries(c):
    from pytorch3d.renderer.camera_utils import join_cameras_as_batch
    from pytorch3d import renderer as r
    x = torch.cat([c.randn(1, 4, 2), c.rand(1, 4, 1, lo=2, hi=5)], -1)
    q = {a: (lambda m, a=a: getattr(m, a)()) for a in (
        "get_camera_center", "get_world_to_view_transform", "get_full_projection_transform", "get_projection_transform", "get_ndc_camera_transform",
        "is_perspective", "in_ndc", "get_znear", "clone", "get_image_size")}
    q.update({
        "transform_points": lambda m: m.transform_points(x.expand(len(m), 4, 3)), "ndc": lambda m: m.transform_points_ndc(x.expand(len(m), 4, 3)),
        "screen": lambda m: m.transform_points_screen(x.expand(len(m), 4, 3), image_size=(6, 7)),
        "unproject": lambda m: m.unproject_points(x.expand(len(m), 4, 3), world_coordinates=True), "getitem": lambda m: m[0], "list": lambda m: m[[0]],
        "join": lambda m: join_cameras_as_batch([m, m]), "to": lambda m: m.to("cpu"),
        "bundle": lambda m: tuple(r.NDCMultinomialRaysampler(image_width=3, image_height=2, n_pts_per_ray=2, min_depth=1., max_depth=2.)(m)),
        "gather": lambda m: m.clone().gather_props(torch.tensor([0])),
    })
    return q


def make_transform(c):
    from pytorch3d.transforms import Rotate, Scale, Transform3d, Translate, random_rotations
    n = c.i(1, 3)
    parts = [(k, c.randn(n, 3)) for k in (c.pick("r", "s", "t", "m") for _ in range(c.i(1, 4)))]
    rots = random_rotations(n)
    mat = torch.eye(4).repeat(n, 1, 1)
    mat[:, :3, :3] += 0.2 * c.randn(n, 3, 3)

    def build():
        t = Transform3d()
        for k, v in parts:
            t = t.compose({"r": lambda: Rotate(rots.clone()), "s": lambda: Scale(v.clone().abs() + 0.5), "t": lambda: Translate(v.clone()), "m": lambda: Transform3d(matrix=mat.clone())}[k]())
        return t
    return build, (n, *[k for k, _ in parts])


def transform_queries(c):
    from pytorch3d.transforms import Translate
    x, v = c.randn(1, 3, 3), c.randn(3)
    q = {
        "matrix": lambda m: m.get_matrix(), "inverse": lambda m: m.inverse(), "inverse_matrix": lambda m: m.inverse().get_matrix(), "invert_composed": lambda m: m.inverse(invert_composed=True).get_matrix(),
        "points": lambda m: m.transform_points(x), "normals": lambda m: m.transform_normals(x), "clone": lambda m: m.clone(), "getitem": lambda m: m[0], "stack": lambda m: m.stack(m),
        "compose": lambda m: m.compose(m), "translate": lambda m: m.translate(1., 2., 3.), "scale": lambda m: m.scale(2.), "rotate": lambda m: m.rotate_axis_angle(30., "X"),
        "to64": lambda m: m.to(torch.float64), "se3": lambda m: m[0].get_matrix(), "self_compose": lambda m: m.compose(Translate(v[None])).inverse().get_matrix(),
    }
    return q


def make_lights(c):
    from pytorch3d import renderer as r
    n = c.i(1, 3)
    kind = c.pick("PointLights", "DirectionalLights")
    d = dict(diffuse_color=c.rand(n, 3), **{"location" if kind[0] == "P" else "direction": c.randn(n, 3)})

    def build():
        return getattr(r, kind)(**{k: v.clone() for k, v in d.items()})
    return build, (kind, n)


def lights_queries(c):
    x, nrm, cam = c.randn(1, 2, 2, 1, 3), c.randn(1, 2, 2, 1, 3), c.randn(3, 3)
    def e(m, y):
        return y.expand(len(m), 2, 2, 1, 3)
    return {
        "diffuse": lambda m: m.diffuse(e(m, nrm), e(m, x)) if hasattr(m, "location") else m.diffuse(e(m, nrm)),
        "specular": lambda m: m.specular(points=e(m, x), normals=e(m, nrm), camera_position=cam[:len(m)], shininess=3),
        "clone": lambda m: m.clone(), "getitem": lambda m: m[0], "to": lambda m: m.to("cpu"), "gather": lambda m: m.clone().gather_props(torch.tensor([0])),
    }


KINDS = {"mesh": (make_mesh, mesh_queries), "cloud": (make_cloud, cloud_queries), "volume": (make_volume, volume_queries),
         "camera": (make_camera, camera_queries), "transform": (make_transform, transform_queries), "lights": (make_lights, lights_queries)}


def flat(x):
    return list(tensors(observe(x)))


def observe(x):
    """What a user sees of a result."""
    import pytorch3d.structures as st
    from pytorch3d.renderer.cameras import CamerasBase
    if isinstance(x, st.Meshes):
        return [x.verts_list(), x.faces_list(), x.verts_normals_list() if all(len(f) for f in x.faces_list()) else None, x.verts_padded(), x.verts_packed(),
                observe(x.textures) if x.textures is not None else None]
    if isinstance(x, st.Pointclouds):
        return [x.points_list(), x.normals_list(), x.features_list(), x.points_padded(), x.points_packed()]
    if type(x).__name__.startswith("Textures"):
        return [getattr(x, a)() for a in ("verts_features_list", "atlas_list", "maps_list", "verts_uvs_list", "faces_uvs_list") if hasattr(x, a)]
    if isinstance(x, (list, tuple)):
        return [observe(y) for y in x]
    if type(x).__name__ == "TensorAccessor":  # camera[i]: a view of one element's properties
        return [getattr(x, k) for k, v in sorted(vars(x.class_object).items()) if isinstance(v, torch.Tensor) and v.ndim and len(v) > x.index]
    if hasattr(x, "get_matrix"):
        return x.get_matrix()
    if isinstance(x, st.Volumes):
        return [x.densities(), x.features(), x.get_coord_grid(), x.get_grid_sizes()]
    if isinstance(x, torch.Tensor):
        return x.to_dense() if x.is_sparse else x
    return [t for _, t in sorted(tensors(x), key=lambda p: p[0])] if hasattr(x, "__dict__") else []


# these keep cached values that a rigid motion or scaling leaves unchanged up to rounding
ROUNDING = {"scale_verts", "offset_verts", "render", "rasterize", "scale", "offset"}


def compare_values(c, what, a, b, rounding=False, **kw):
    a, b = flat(a), flat(b)
    c.check([p for p, _ in a] == [p for p, _ in b], f"{what}: another structure", got=[p for p, _ in a], want=[p for p, _ in b], **kw)
    for (p, x), (_, y) in zip(a, b):
        if rounding and x.is_floating_point():
            if p.startswith("[2]") and x.shape == y.shape:  # a normal that nearly cancelled is rounding noise
                ok = torch.minimum(x.norm(dim=-1), y.norm(dim=-1)) > 0.99
                x, y = x[ok], y[ok]
            c.close(x, y, f"{what}: {p}", atol=1e-5 * (1 + float(y.abs().max())) if y.numel() else 0, **kw)
            continue
        c.check(x.dtype == y.dtype and not differ(x, y), f"{what}: {p} differs", got=x, want=y, **kw)


@monitor(quick=2500, thorough=60000, need=("mesh", "cloud", "volume", "camera", "transform", "lights", "queries"))
def containers(c):
    kind = c.pick("mesh", "mesh", "mesh", "cloud", "cloud", "volume", "camera", "transform", "lights")
    make, queries = KINDS[kind]
    build, sig = make(c)
    q = queries(c)
    warm = build()
    ref = build()
    # the tensors the container holds now, and all that its user sees
    held = [(p, t, bits(t)) for p, t in tensors(warm)]
    names = [c.pick(*q) for _ in range(c.i(2, 6))]
    results = []
    for n in names:
        seed(c.seed)
        try:
            got = q[n](warm)
        except (NotImplementedError, ValueError, RuntimeError, AttributeError, TypeError) as e:
            # the query refuses this container: then it refuses a fresh one as well
            try:
                q[n](build())
            except type(e):
                c.count("refused")
                continue
            raise
        seed(c.seed)
        want = q[n](build())
        compare_values(c, f"{kind}.{n} after {names[:names.index(n)]}", got, want, rounding=n in ROUNDING)
        results.append((n, got, copy.deepcopy([t.detach() for _, t in flat(got)])))
        c.count("queries")
    for p, t, b in held:
        c.check(bits(t) == b, f"{kind}: {names} changed the tensor {p} that the container was built from", after=t)
    compare_values(c, f"{kind}: what the container shows after {names}", warm, ref)
    for n, got, before in results:
        for (p, t), b in zip(flat(got), before):
            c.check(not differ(t, b), f"{kind}: the result of {n} changed during {names}", got=t, want=b)
    c.count(kind)
    c.sig(kind, *sig, *names)
