"""Back-propagated gradients against central differences of the value itself.

Along a random direction the value is evaluated at several steps; where the
difference quotients agree with each other (so the point is smooth at that scale)
they must agree with the gradient's component.
"""
import math

import torch

from lib import gen, ops
from lib.harness import monitor
from checks.c01 import layout

TECHNIQUE = "runtime monitoring: directional finite differences at three step sizes (float64 where the operator accepts it) as oracle for back-propagated gradients under random upstream gradients; exact-zero monitor for padding"
RULE = ("every differentiable entry of the catalogue (native float32 and float64 torch) x options x dense and single-coordinate directions x inputs alone and together x gradient layouts; near-plane clipping, rotations at and near the identity; "
        "distinct = distinct (operator, options, perturbed inputs)")
ASSUMPTIONS = ["points where difference quotients at three steps disagree are taken as not differentiable at that scale and are skipped (counted)",
               "float32-only operators are compared to about two percent of the gradient's scale"]

# the sphere renderer's gradients are truncated by design: its own property judges them
DIFF = [k for k in ops.OPS if k != "pulsar"]


def value(call, t, w, s):
    torch.manual_seed(s)
    o = call.fn(**t)
    o = o if isinstance(o, tuple) else (o,)
    return [x for x in o if isinstance(x, torch.Tensor) and x.is_floating_point()], [x for x in o if isinstance(x, torch.Tensor) and not x.is_floating_point()]


def judge(c, name, call, dtype, only=None, steps=None, tol=None):
    s = c.i(0, 2**30)
    t = {k: v.to(dtype) if v.is_floating_point() else v for k, v in call.t.items()}
    diff = [k for k in call.diff if t[k].numel()]
    if only:
        diff = [k for k in diff if k in only]
    if not diff:
        return False
    sub = diff if c.p(0.4) else [c.pick(*diff)]
    torch.manual_seed(s)
    # gradients: only the inputs under test require one in some cases
    leaves = {k: layout(c, v).detach().requires_grad_() if k in (diff if c.p(0.5) else sub) else v for k, v in t.items()}
    outs, ids = value(call, leaves, None, s)
    outs_r = [x for x in outs if x.requires_grad]
    if not outs_r:
        c.fail(f"{name}: no result depends on {sub}, which require gradients")
        return False
    pos = [i for i, x in enumerate(outs) if x.requires_grad]
    if len(pos) > 1 and c.p(0.3):
        pos = [c.pick(*pos)]
    w = [c.randn(*outs[i].shape, dtype=dtype) for i in pos]
    if c.p(0.6):  # mostly zero upstream gradients
        w = [x * (c.rand(*x.shape) < max(0.02, 6 / max(x.numel(), 1))) for x in w]
    for i in pos:
        # (barycentric coordinates of slivers grow without bound outside of the face)
        if not bool(outs[i].isfinite().all()) or outs[i].numel() and float(outs[i].detach().abs().max()) > 1e3:
            c.count("not finite")
            return False
    if call.guard is not None:
        g = call.guard(**t)
        if not all(bool((x.abs() < 50).all()) for x in g if x.is_floating_point()) or not all(
                bool((a == b).all()) for a, b in zip(ids, (x for x in g if not x.is_floating_point()))):
            c.count("ill conditioned")
            return False
    torch.autograd.backward([outs[i] for i in pos], w)
    d = {}
    for k in sub:
        x = c.randn(*t[k].shape, dtype=dtype)
        if c.p(0.3):
            x = torch.zeros_like(x)
            x.view(-1)[c.i(0, x.numel() - 1)] = 1
        d[k] = x * t[k].abs().mean().clamp(min=0.05).clamp(max=1.0)
    slope = sum(float((leaves[k].grad.double() * d[k].double()).sum()) if leaves[k].grad is not None else 0.0 for k in sub)
    mags = sum(float((leaves[k].grad.double().abs() * d[k].double().abs()).sum()) if leaves[k].grad is not None else 0.0 for k in sub)

    def f(h):
        u = {k: t[k] + h * d[k] if k in d else t[k] for k in t}
        with torch.no_grad():
            try:
                o, i = value(call, u, None, s)
            except ValueError:  # left the set of accepted arguments (the logarithms check theirs)
                return None
        ys = []
        for j, x in zip(pos, w):
            if o[j].shape != x.shape:
                return None
            ys.append((o[j].double() * x.double()).flatten())
        y = torch.cat(ys)
        for a, b in zip(i, ids):
            if a.shape != b.shape or not bool((a == b).all()):
                return None
        return y

    eps = 2.0 ** -52 if dtype == torch.float64 else 2.0 ** -23
    hs = steps or ([1e-4, 5e-5, 2.5e-5] if dtype == torch.float64 else [4e-3, 2e-3, 1e-3])
    q, noise = [], []
    for h in hs:
        a, b = f(h), f(-h)
        if a is None or b is None or not bool(a.isfinite().all() and b.isfinite().all()):
            c.count("discrete change")
            return False
        q.append(float((a - b).sum()) / (2 * h))
        noise.append(2 * eps * (0.1 + float(torch.maximum(a.abs(), b.abs())[a != b].sum())) / h)
    # a centre value that jumps away from its neighbours is a kink seen symmetrically
    scale = max(map(abs, q)) + mags
    spread = max(q) - min(q)
    if spread > 0.02 * scale / 2 + max(noise):
        c.count("not smooth")
        return False
    z = f(0.0)
    if z is None:
        return False
    p1 = float((f(hs[-1]) - z).sum()) / hs[-1]
    if abs(p1 - q[-1]) > 0.02 * scale + 2 * max(noise):
        c.count("kink")
        return False
    err = abs(slope - (4 * q[1] - q[0]) / 3)
    lim = (1e-5 if dtype == torch.float64 else 0.02) * scale + 2 * spread + 2 * max(noise) + 1e-9
    if tol:
        lim += tol
    if dtype == torch.float32 and scale > 1e4:
        c.count("steep")
        return False
    c.check(math.isfinite(slope), f"{name}: the gradient with respect to {sub} is not finite", sig=call.sig, **{k: t[k] for k in sub})
    c.check(err <= lim, f"{name}: derivative along a direction of {sub} is {q[-1]:.7g} (steps: {[f'{x:.6g}' for x in q]}) but the gradient gives {slope:.7g}",
            sig=call.sig, limit=lim, outputs=pos, **{k: v for k, v in t.items()})
    c.count("compared")
    c.count("compared " + str(dtype)[6:])
    if abs(slope) > 10 * lim:
        c.count("significant")
    c.sig(name, *call.sig, tuple(sub), str(dtype))
    return True


DOUBLE = {"lighting", "conversions", "quaternion_algebra", "raymarching", "harmonic", "wmean", "softmax_blend", "mesh_edge_loss", "normal_consistency",
          "textures", "vert_align", "interpolate_attributes", "subdivide"}


def drawn(c, name):
    call = ops.OPS[name](c, False)
    return call


@monitor(quick=6000, thorough=150000, need=("compared float32", "compared float64", "significant"))
def catalogue(c):
    name = c.pick(*DIFF)
    call = drawn(c, name)
    if not call.diff:
        name = c.pick("rasterize_meshes", "rasterize_points", "splat_volume", "point_mesh", "point_hull", "chamfer", "knn", "compositing", "pulsar_")
        name = "knn" if name == "pulsar_" else name
        call = drawn(c, name)
    if name in DOUBLE:
        judge(c, name, call, torch.float64)
        return
    judge(c, name, call, torch.float32)


@monitor(quick=1500, thorough=40000, need=("compared", "clipped"))
def near_plane(c):
    """Faces cut by the near plane: the new vertices move with the old ones."""
    from pytorch3d.renderer.mesh import rasterize_meshes
    from pytorch3d.structures import Meshes
    n = c.i(1, 2)
    z = c.u(0.5, 1.5)
    vs, fs = [], []
    for _ in range(n):
        k = c.i(1, 3)
        v = c.randn(3 * k, 3)
        v[:, 2] = z + c.randn(3 * k).abs() * 0.3 + 0.3
        for i in range(k):
            for j in c.perm(3)[:c.i(0, 2)]:
                v[3 * i + j, 2] = z - c.u(0.2, 0.45)
        vs.append(v)
        fs.append(torch.arange(3 * k).view(k, 3))
    ns = [len(v) for v in vs]
    kw = dict(image_size=c.i(2, 6), blur_radius=c.pick(0.0, 0.01), faces_per_pixel=c.i(1, 3), bin_size=0, z_clip_value=z,
              perspective_correct=c.p(0.5), clip_barycentric_coords=c.p(0.3), cull_to_frustum=False)

    def fn(verts):
        return rasterize_meshes(Meshes(list(verts.split(ns)), fs), **kw)
    call = ops.Call(fn, dict(verts=torch.cat(vs)), ("verts",), (n, *[str(v) for k, v in kw.items() if k != "z_clip_value"]))
    call.guard = lambda verts: rasterize_meshes(Meshes(list(verts.split(ns)), fs), **{**kw, "clip_barycentric_coords": False})
    with torch.no_grad():
        p2f = fn(call.t["verts"])[0]
    cut = (torch.cat(vs)[:, 2].view(-1, 3) < z).any(1)
    c.count("clipped", int(cut[p2f[p2f >= 0]].sum()))
    if bool((p2f >= 0).any()):
        judge(c, "rasterize_meshes with near-plane clipping", call, torch.float32)


@monitor(quick=1500, thorough=40000, need=("compared", "at identity"))
def rotations(c):
    """Differentiable everywhere, also where the formula for general rotations is 0/0."""
    from pytorch3d import transforms as T
    n = c.i(1, 3)
    r = c.pick(0.0, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.1, 1.0, 2.5)
    w = torch.nn.functional.normalize(c.randn(n, 3, dtype=torch.float64), dim=-1) * r
    ax = {"axis_angle_to_matrix": T.axis_angle_to_matrix, "axis_angle_to_quaternion": T.axis_angle_to_quaternion, "so3_exp_map": T.so3_exp_map,
          "quaternion chain": lambda w: T.quaternion_to_matrix(T.axis_angle_to_quaternion(w)),
          "euler": lambda w: T.euler_angles_to_matrix(w, "XYZ"),
          "so3 round trip": lambda w: T.so3_log_map(T.so3_exp_map(w)),
          "axis angle round trip": lambda w: T.quaternion_to_axis_angle(T.axis_angle_to_quaternion(w)),
          "quaternion of matrix": lambda w: T.matrix_to_quaternion(T.axis_angle_to_matrix(w)),
          "axis angle of matrix": lambda w: T.matrix_to_axis_angle(T.axis_angle_to_matrix(w)),
          "se3_exp_map": lambda w: T.se3_exp_map(torch.cat([w.flip(-1), w], -1)),
          "6d": lambda w: T.rotation_6d_to_matrix(T.matrix_to_rotation_6d(T.axis_angle_to_matrix(w)))}
    k = c.pick(*ax)
    call = ops.Call(lambda w: ax[k](w), dict(w=w), ("w",), (k, n, r))
    if judge(c, k, call, torch.float64, tol=ROT_TOL.get(k, 0)):
        c.count("at identity", r == 0)


# the exponential and logarithm maps replace angles below 1e-2 (eps = 1e-4, squared) by a clamp
ROT_TOL = {}


@monitor(quick=1500, thorough=30000, need=("padding entries", "gradients"))
def padding(c):
    """Entries beyond an element's length, and entries nothing uses, get exactly zero."""
    from pytorch3d import loss, ops as o
    from pytorch3d.structures import Meshes, Pointclouds
    n, p1, p2 = c.i(1, 3), c.i(1, 8), c.i(1, 8)
    x, y = c.randn(n, p1, 3).requires_grad_(), c.randn(n, p2, 3).requires_grad_()
    l1, l2 = ops.lengths(c, False, n, p1), ops.lengths(c, False, n, p2)
    k = c.pick("knn", "ball", "chamfer", "fps", "raster points", "raster mesh", "point mesh", "compositing", "attributes", "to packed", "splat")
    pad1 = torch.arange(p1)[None] >= l1[:, None]
    pad2 = torch.arange(p2)[None] >= l2[:, None]
    zero = []
    fill = c.pick(0.0, 1e3, float("nan")) if k in ("knn", "ball") else 0.0
    if fill:  # whatever the padding holds
        x = torch.where(pad1[..., None], torch.full_like(x, fill), x).detach().requires_grad_()
        y = torch.where(pad2[..., None], torch.full_like(y, fill), y).detach().requires_grad_()
    if k == "knn":
        out = o.knn_points(x, y, l1, l2, K=c.i(1, 4), norm=c.pick(1, 2)).dists
        zero = [(x, pad1), (y, pad2)]
    elif k == "ball":
        out = o.ball_query(x, y, l1, l2, K=c.i(1, 4), radius=1.5, return_nn=False).dists
        zero = [(x, pad1), (y, pad2)]
    elif k == "chamfer":
        out = loss.chamfer_distance(x, y, l1, l2, norm=c.pick(1, 2), point_reduction=c.pick("mean", "sum"))[0]
        zero = [(x, pad1), (y, pad2)]
    elif k == "fps":
        out = o.sample_farthest_points(x, l1, K=c.i(1, 9))[0]
        zero = [(x, pad1)]
    elif k == "raster points":
        from pytorch3d.renderer.points import rasterize_points
        z = torch.cat([x[..., :2] * 0.5, x[..., 2:]], -1)
        idx, zb, d = rasterize_points(Pointclouds([z[i, :l1[i]] for i in range(n)]), image_size=4, radius=0.6, points_per_pixel=2, bin_size=0)
        out = torch.cat([zb.flatten(), d.flatten()])
        zero = [(x, pad1 | (x[..., 2] < 0))]
    elif k == "raster mesh":
        from pytorch3d.renderer.mesh import rasterize_meshes
        v, f = gen.mesh(c, kinds=("unused",))
        v = (v + torch.tensor([0, 0, 5.])).requires_grad_()
        m = Meshes([v], [f])
        idx, zb, b, d = rasterize_meshes(m, image_size=5, blur_radius=0.01, faces_per_pixel=2, bin_size=0)
        out = torch.cat([zb.flatten(), b.flatten(), d.flatten()])
        seen = torch.zeros(len(v), dtype=torch.bool)
        seen[f[idx[idx >= 0]].flatten()] = True
        zero = [(v, ~seen)]
    elif k == "point mesh":
        v, f = gen.mesh(c, kinds=("unused",))
        v = v.requires_grad_()
        out = loss.point_mesh_face_distance(Meshes([v], [f]), Pointclouds(x[:1]))
        used = torch.zeros(len(v), dtype=torch.bool)
        used[f.flatten()] = True
        zero = [(v, ~used)]
    elif k == "compositing":
        from pytorch3d.renderer import compositing as cm
        ft = c.randn(2, 7).requires_grad_()
        idx = c.randint(-1, 5, (1, 3, 2, 2))
        al = c.rand(1, 3, 2, 2, lo=0.1, hi=0.9).requires_grad_()
        out = getattr(cm, c.pick("alpha_composite", "norm_weighted_sum", "weighted_sum"))(idx, al, ft)
        used = torch.zeros(7, dtype=torch.bool)
        used[idx[idx >= 0]] = True
        zero = [(ft.T, None), (al, idx < 0)]
        zero[0] = (ft, (~used).expand(2, 7))
    elif k == "attributes":
        at = c.randn(6, 3, 2).requires_grad_()
        p2f = c.randint(-1, 4, (1, 2, 2, 2))
        ba = c.rand(1, 2, 2, 2, 3).requires_grad_()
        out = o.interpolate_face_attributes(p2f, ba, at)
        used = torch.zeros(6, dtype=torch.bool)
        used[p2f[p2f >= 0]] = True
        zero = [(at, ~used), (ba, p2f < 0)]
    elif k == "to packed":
        first = torch.cat([torch.zeros(1, dtype=torch.int64), l1.cumsum(0)[:-1]])
        out = o.padded_to_packed(x, first, int(l1.sum()))
        zero = [(x, pad1)]
    else:
        ft = c.rand(n, p1, 2).requires_grad_()
        out = torch.cat([t.flatten() for t in o.add_points_features_to_volume_densities_features(
            x, ft, torch.zeros(n, 1, 3, 3, 3), torch.zeros(n, 2, 3, 3, 3), mode="trilinear", mask=(~pad1).float())])
        zero = [(x, pad1), (ft, pad1)]
    if not out.requires_grad or not out.numel():
        return
    torch.autograd.backward(out, torch.randn_like(out))
    for t, m in zero:
        if t.grad is None:
            continue
        c.count("gradients")
        g = t.grad[m]
        c.count("padding entries", g.numel())
        c.check(bool((g == 0).all()), f"{k}: entries that nothing uses received a gradient", grad=t.grad, unused=m)
        c.check(bool(t.grad[~m].isfinite().all()) or k in ("raster mesh",), f"{k}: gradient not finite", grad=t.grad)
    c.sig(k, n, p1, p2, str(fill), tuple(l1.tolist()), tuple(l2.tolist()))
