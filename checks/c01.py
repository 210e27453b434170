"""Every native operator, forward and backward, in an instrumented build of the
extension: AddressSanitizer (heap, stack, globals, use after return), UBSan with
float-to-integer casts, libstdc++ container assertions, and tensor accessors that
check every index against its dimension. A report ends the worker with its stack;
the runner attributes it to the case.
"""
import gc

import torch

from lib import ops
from lib.harness import monitor

SANITIZER = "asan"
TECHNIQUE = ("AddressSanitizer + UndefinedBehaviorSanitizer + bounds-checked tensor accessors over a catalogue of all operators, forward and backward, "
             "with odd sizes, mutated (hostile) arguments, and NaN-filled fresh memory")
RULE = ("operators (all native ones, and the public calls that lead to them) x sizes (0, 1, more; ragged lengths; empty elements) x options x thread counts 1..16 x layouts x upstream gradients; "
        "hostile: one or two arguments mutated (indices out of range, other shapes, dtypes, strides, non-finite values); distinct = distinct (operator, sizes and options, outcome)")
ASSUMPTIONS = ["libtorch itself is not instrumented: a bad access made inside a torch kernel is seen only through the allocator's red zones when it is made through an intercepted function",
               "CUDA code is not built"]

NATIVE = ["knn", "ball_query", "farthest_points", "packed_to_padded", "padded_to_packed", "face_areas_normals", "graph_conv", "gather_scatter",
          "interpolate_attributes", "sigmoid_alpha", "compositing", "splat_volume", "point_mesh", "point_hull", "point_hull_array", "rasterize_meshes",
          "rasterize_points", "coarse_rasterizers", "sample_pdf", "marching_cubes", "box3d", "pulsar", "normal_consistency"]


def fresh(t):
    """A copy in a block of exactly its own size, so that its end is the end of the block."""
    return torch.empty_like(t, memory_format=torch.contiguous_format).copy_(t)


def layout(c, t):
    """The same values with other strides."""
    k = c.pick("as is", "as is", "flip", "expand", "slice")
    if t.dim() < 1 or k == "as is":
        return fresh(t)
    if k == "flip":
        o = tuple(reversed(range(t.dim())))
        return fresh(t.permute(o)).permute(o)
    if k == "slice":
        big = torch.zeros(*t.shape[:-1], t.shape[-1] * 2 + 1, dtype=t.dtype)
        v = big[..., 1::2]
        return v.copy_(t)
    d = c.i(0, t.dim() - 1)
    if t.shape[d] > 1 or t.shape[d] == 0:
        return fresh(t)
    return fresh(t.squeeze(d)).unsqueeze(d).expand(t.shape)


def backward(c, outs, leaves):
    d = [o for o in outs if isinstance(o, torch.Tensor) and o.requires_grad]
    if not d:
        return False
    g = []
    for o in d:
        x = c.pick("randn", "randn", "ones", "expand", "nan")
        if x == "expand":  # a gradient with stride 0, as sum() delivers
            g.append(torch.ones((), dtype=o.dtype).expand_as(o))
        elif x == "nan":
            g.append(ops.hostile_values(c, torch.randn_like(o)))
        else:
            g.append(torch.randn_like(o) if x == "randn" else torch.ones_like(o))
    torch.autograd.backward(d, g)
    return True


def once(c, call, t):
    leaves = {k: (v.detach().requires_grad_() if k in call.diff and v.is_floating_point() else v) for k, v in t.items()}
    o = call.fn(**leaves)
    o = o if isinstance(o, tuple) else (o,)
    if c.p(0.5):
        del leaves
        gc.collect() if c.p(0.05) else None
        return o, backward(c, o, None)
    b = backward(c, o, leaves)
    for k, v in leaves.items():
        if v.grad is not None:
            c.check(v.grad.shape == v.shape, f"the gradient of {k} has another shape", got=v.grad.shape, want=v.shape)
    return o, b


def pick_op(c, names):
    return c.pick(*names)


@monitor(quick=4000, thorough=120000, need=("forward", "backward"))
def accepted(c):
    name = pick_op(c, NATIVE)
    call = ops.OPS[name](c, c.p(0.7))
    nt = c.pick(1, 1, 2, 3, 8, 16)
    torch.set_num_threads(nt)
    try:
        try:
            _, b = once(c, call, {k: layout(c, v) for k, v in call.t.items()})
        except (ValueError, RuntimeError, NotImplementedError, IndexError) as e:
            # a size or option that is refused; which ones are is other properties' subject
            c.count("refused")
            c.count("refused by " + name)
            c.sig(name, "refused", type(e).__name__)
            return
    finally:
        torch.set_num_threads(1)
    c.count("forward")
    c.count("backward", b)
    c.count("ran " + name)
    c.sig(name, *call.sig, nt)


def mutate(c, t):
    k = c.pick(*t)
    x = t[k]
    how = "value" if not x.is_floating_point() and x.dtype != torch.bool and c.p(0.7) else c.pick("shape", "shape", "dtype", "value", "rank", "empty")
    x = x.clone()
    if how == "value":
        if x.is_floating_point():
            x = ops.hostile_values(c, x)
        elif x.numel() and x.dtype == torch.int64:
            for _ in range(c.i(1, 2)):
                x.view(-1)[c.i(0, x.numel() - 1)] = c.pick(-1, -2, -7, x.numel(), int(x.max()) + 1, 1000, 2**31, -2**31, 2**40, -2**62, 2**62)
    elif how == "dtype":
        x = x.to(c.pick(torch.float64, torch.float16, torch.int32, torch.int64, torch.bool, torch.complex64))
    elif how == "rank":
        x = x.unsqueeze(c.i(0, x.dim())) if c.p(0.5) or x.dim() == 0 else x.select(c.i(0, x.dim() - 1), 0) if min(x.shape) else x.flatten()
    elif x.dim():
        d = c.i(0, x.dim() - 1)
        if how == "empty":
            x = x.narrow(d, 0, 0)
        elif c.p(0.5) and x.shape[d] > 0:
            x = x.narrow(d, 0, c.i(0, x.shape[d] - 1))
        else:
            e = c.i(1, 3)
            shape = list(x.shape)
            shape[d] = e
            x = torch.cat([x, torch.zeros(shape, dtype=x.dtype)], d)
    return {**t, k: x}, k, how


@monitor(quick=4000, thorough=150000, need=("raised", "accepted"))
def hostile(c):
    # (the array and coarse entry points are internal: nothing public passes them a user's indices)
    name = pick_op(c, [n for n in NATIVE if n not in ("coarse_rasterizers", "point_hull_array")])
    call = ops.OPS[name](c, c.p(0.4))
    t, k, how = mutate(c, call.t)
    if c.p(0.25):
        t, k2, how2 = mutate(c, t)
        k, how = k + "+" + k2, how + "+" + how2
    torch.set_num_threads(c.pick(1, 4))
    try:
        once(c, call, {a: fresh(b) for a, b in t.items()})
        out = "accepted"
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        out = "raised"
        c.count("raised " + type(e).__name__)
    finally:
        torch.set_num_threads(1)
    c.count(out)
    c.sig(name, k, how, out)


@monitor(quick=1500, thorough=40000, need=("compared",))
def uninitialised_memory(c):
    """Fresh tensors hold NaN (or the largest integer) in one run and whatever was
    there in the other: a result that depends on it was read before it was written."""
    name = c.pick(*ops.OPS)
    call = ops.OPS[name](c, c.p(0.6))
    res = []
    for fill in (True, False):
        torch.use_deterministic_algorithms(fill, warn_only=True)
        torch.utils.deterministic.fill_uninitialized_memory = fill
        torch.manual_seed(c.seed)
        import numpy as np
        np.random.seed(c.seed % 2**32)
        try:
            leaves = {k: fresh(v).detach().requires_grad_() if k in call.diff else fresh(v) for k, v in call.t.items()}
            try:
                o = call.fn(**leaves)
            except (ValueError, RuntimeError, NotImplementedError, IndexError) as e:
                res.append(str(e)[:60])
                continue
            o = [x for x in (o if isinstance(o, tuple) else (o,)) if isinstance(x, torch.Tensor)]
            d = [x for x in o if x.requires_grad]
            if d:
                gen = torch.Generator().manual_seed(c.seed)
                torch.autograd.backward(d, [torch.randn(x.shape, generator=gen, dtype=x.dtype) for x in d])
            res.append([x.detach() for x in o] + [v.grad for v in leaves.values() if v.requires_grad])
        finally:
            torch.use_deterministic_algorithms(False)
            torch.utils.deterministic.fill_uninitialized_memory = True
    a, b = res
    if isinstance(a, str) or isinstance(b, str):
        c.check(isinstance(a, str) and isinstance(b, str), f"{name}: raised depending on the contents of fresh memory", a=a, b=b)
        return
    for k, (x, y) in enumerate(zip(a, b)):
        c.check((x is None) == (y is None), f"{name}: result {k}")
        if x is None:
            continue
        c.check(x.shape == y.shape, f"{name}: the shape of result {k} depends on the contents of fresh memory", a=x, b=y)
        # the deterministic variants of scatter kernels may add in another order
        x, y = x.double(), y.double()
        bad = ~((x == y) | (x.isnan() & y.isnan()) | ((x - y).abs() <= 1e-5 * (1 + y.abs())))
        if name == "laplacian_smoothing":
            bad &= ~(x.isnan() | y.isnan())
        c.check(not bool(bad.any()), f"{name}: result {k} depends on the contents of fresh memory", a=x, b=y)
    c.count("compared")
    c.sig(name, *call.sig)


@monitor(quick=300, thorough=8000, need=("pulsar backward",))
def lifetimes(c):
    """Results outlive the objects that produced them."""
    call = ops.pulsar(c, c.p(0.5))
    t = {k: fresh(v).requires_grad_() if k in call.diff else fresh(v) for k, v in call.t.items()}
    fn = call.fn
    try:
        o = fn(**t)
    except (ValueError, RuntimeError) as e:
        c.sig("refused", str(e)[:40])
        return
    o = o if isinstance(o, tuple) else (o,)
    if c.p(0.5):
        try:
            fn(**{k: fresh(v) for k, v in call.t.items()})  # another image from the same renderer first
        except (ValueError, RuntimeError):
            pass
    if c.p(0.7):
        del fn, call.fn
        gc.collect()
    if o[0].requires_grad:
        torch.autograd.backward(o[0], torch.randn_like(o[0]))
        c.count("pulsar backward")
    c.sig(*call.sig)


@monitor(quick=1500, thorough=40000, need=("raised", "accepted"))
def hostile_scalars(c):
    """Sizes, counts and thresholds that no operator should be asked for."""
    from pytorch3d import ops as o, renderer as r
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
    from pytorch3d.renderer.mesh import rasterize_meshes
    from pytorch3d.renderer.points import rasterize_points
    from pytorch3d.structures import Meshes, Pointclouds
    from pytorch3d.loss import point_mesh_distance as pm
    n = c.pick(-1, 0, -2**31, 1, 40, -7)
    x = c.pick(float("nan"), float("inf"), -1.0, 0.0, 1e30, -1e30)
    pts = c.randn(2, 6, 3)
    cloud = Pointclouds(pts)
    mesh = Meshes(pts + torch.tensor([0, 0, 3.]), c.randint(0, 6, (2, 4, 3)))
    first = torch.tensor([0, 6])
    p = c.randn(12, 3)
    hull = c.randn(12, c.pick(2, 3), 3)
    calls = {
        "knn K": lambda: o.knn_points(pts, pts, K=n),
        "knn norm": lambda: o.knn_points(pts, pts, K=2, norm=n),
        "knn version": lambda: o.knn_points(pts, pts, K=2, version=n),
        "ball K": lambda: o.ball_query(pts, pts, K=n, return_nn=False),
        "ball radius": lambda: o.ball_query(pts, pts, K=2, radius=x),
        "fps K": lambda: o.sample_farthest_points(pts, K=n),
        "fps K list": lambda: o.sample_farthest_points(pts, K=[n, 2]),
        "to padded": lambda: o.packed_to_padded(p, first, n),
        "to packed": lambda: o.padded_to_packed(c.randn(2, 6, 3), first, n),
        "points to volumes": lambda: o.add_points_features_to_volume_densities_features(
            pts * x, c.randn(2, 6, 2), torch.zeros(2, 1, 3, 3, 3), torch.zeros(2, 2, 3, 3, 3), mode=c.pick("nearest", "trilinear")),
        "image size": lambda: rasterize_meshes(mesh, image_size=c.pick(n, (n, 4), (4, n)), bin_size=0),
        "faces per pixel": lambda: rasterize_meshes(mesh, image_size=4, faces_per_pixel=n, bin_size=0),
        "blur": lambda: rasterize_meshes(mesh, image_size=4, blur_radius=x, bin_size=0),
        "z clip": lambda: rasterize_meshes(mesh, image_size=4, z_clip_value=x, bin_size=0),
        "points image size": lambda: rasterize_points(cloud, image_size=c.pick(n, (n, 4), (4, n)), bin_size=0),
        "points per pixel": lambda: rasterize_points(cloud, image_size=4, points_per_pixel=n, bin_size=0),
        "radius": lambda: rasterize_points(cloud, image_size=4, radius=x, bin_size=0),
        "bin size": lambda: rasterize_points(cloud, image_size=4, bin_size=n),
        "bin size mesh": lambda: rasterize_meshes(mesh, image_size=4, bin_size=n, max_faces_per_bin=c.pick(n, None)),
        "pdf samples": lambda: sample_pdf(c.rand(2, 4).sort(-1)[0], c.rand(2, 3), n),
        "pdf eps": lambda: sample_pdf(c.rand(2, 4).sort(-1)[0], c.rand(2, 3) * c.pick(0, 1), 4, eps=x),
        "isolevel": lambda: o.marching_cubes(c.randn(1, 3, 3, 3), x),
        "box eps": lambda: o.box3d_overlap(ops.boxes(c, 2), ops.boxes(c, 1), eps=x),
        "hull max": lambda: getattr(pm, ("point_face", "face_point")[c.i(0, 1)] + "_distance")(p, first, c.randn(12, 3, 3), first, n),
        "hull min area": lambda: pm.point_face_distance(p, first, c.randn(12, 3, 3), first, 6, x),
        "sigma": lambda: r.blending.sigmoid_alpha_blend(
            c.rand(1, 2, 2, 2, 3), _frags(c), r.BlendParams(sigma=x)),
        "pulsar size": lambda: r.points.pulsar.Renderer(c.pick(n, 4), c.pick(n, 4), c.pick(n, 4), n_channels=c.pick(n, 3), n_track=c.pick(n, 4)),
    }
    k = c.pick(*calls)
    torch.set_num_threads(c.pick(1, 4))
    try:
        calls[k]()
        out = "accepted"
    except Exception as e:
        if isinstance(e, MemoryError):
            raise
        out = "raised"
    finally:
        torch.set_num_threads(1)
    c.count(out)
    c.sig(k, n if "hull" not in k else 0, str(x), out)


def _frags(c):
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    d = c.randn(1, 2, 2, 2).requires_grad_()
    return Fragments(pix_to_face=c.randint(-1, 3, (1, 2, 2, 2)), zbuf=d, bary_coords=d[..., None].expand(1, 2, 2, 2, 3), dists=d)


@monitor(quick=600, thorough=20000, need=("pulsar raised", "pulsar drawn"))
def hostile_pulsar(c):
    """Scalars of the sphere renderer, and spheres in every relation to the image."""
    from pytorch3d.renderer.points.pulsar import Renderer
    w, h, n = c.i(2, 24), c.i(2, 24), c.i(1, 9)
    track = c.i(1, 5)
    r = Renderer(w, h, n, n_channels=3, n_track=track, right_handed_system=c.p(0.3))
    pos = c.randn(n, 3) * c.pick(1.0, 10.0, 1e3)
    if c.p(0.7):
        pos[:, 2] = c.rand(n, lo=-2, hi=20)
    rad = c.rand(n) * c.pick(0.1, 1.0, 30.0)
    col = c.rand(n, 3)
    cam = torch.tensor([0, 0, 0, 0, 0, 0, c.u(0.5, 5), c.u(0.5, 5)])
    gamma, far, kw = c.pick(1.0, 0.1, 1e-5), c.pick(20.0, 45.0), {}
    k = c.pick("none", "none", "gamma", "far", "hits", "diff", "min_depth", "values")
    bad = c.pick(float("nan"), float("inf"), -1.0, 0.0, 1e30)
    if k == "gamma":
        gamma = bad
    elif k == "far":
        far = bad
    elif k == "hits":
        kw["max_n_hits"] = c.pick(0, 1, 3)
    elif k == "diff":
        kw["percent_allowed_difference"] = bad
    elif k == "min_depth":
        kw["min_depth"] = bad
    elif k == "values":
        t = c.pick(pos, rad, cam, col)
        t.copy_(ops.hostile_values(c, t))
    pos, rad, col, cam = (x.requires_grad_() for x in (pos, rad, col, cam))
    try:
        o = r.forward(pos, col, rad, cam, gamma, far, **kw)
        torch.autograd.backward(o, torch.randn_like(o))
        c.count("pulsar drawn")
        c.sig(k, w, h, n, track, "drawn")
    except (RuntimeError, ValueError, TypeError) as e:
        c.count("pulsar raised")
        c.sig(k, str(e)[:30])
