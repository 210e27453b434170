"""SO(3)/SE(3) exponential and logarithm: oracle is torch.linalg.matrix_exp of
the generator in float64 and the defining identities."""
import math

import torch
from checks.c10 import KINDS, angles, axes, skew
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("random batches of so(3)/se(3) vectors and rigid transforms over generic, tiny, zero, near-pi and mixed angles and "
        "translations of magnitude 1e-3..1e3; distinct = distinct (op, kind, dtype, N)")
ASSUMPTIONS = ["log of rotations exactly by pi is only compared through exp"]
from lib import harness as _h
_h.MONITORS.clear()  # only reuse c10's generators


def draw(c, kind=None, dt=None):
    kind = kind or c.pick(*KINDS)
    n = c.pick(1, 1, 2, 5, 17)
    ax = axes(c, n, c.pick("generic", "aligned", "planar"))
    w = ax * angles(c, n, kind)
    return kind, n, w.to(dt or c.pick(torch.float32, torch.float64))


@monitor(quick=3000, need=("zero", "pi", "inverse"))
def so3(c):
    import pytorch3d.transforms as T
    kind, n, w = draw(c)
    c.count(kind)
    f32 = w.dtype == torch.float32
    t = 2e-5 if f32 else 1e-8
    c.sig("so3", kind, n, str(w.dtype))
    want = torch.linalg.matrix_exp(skew(w.double()))
    R = T.so3_exp_map(w)
    c.check(R.dtype == w.dtype and R.shape == (n, 3, 3), "so3_exp_map shape/dtype")
    c.close(R, want, "so3_exp_map", atol=t, rtol=0, w=w)
    c.close(T.so3_exponential_map(w), want, "so3_exponential_map", atol=t, rtol=0)
    lg = T.so3_log_map(want.to(w.dtype))
    c.close(torch.linalg.matrix_exp(skew(lg.double())), want, "exp(log(R)) != R", atol=2e-3 if f32 and kind in ("near_pi", "pi", "mixed", "beyond_pi") else 2e-4 if f32 else 1e-6, rtol=0, w=w)
    ang = w.double().norm(dim=1)
    if bool((ang < math.pi - 1e-2).all()):
        c.close(T.so3_log_map(R), w, "log(exp(w)) != w", atol=1e-4 if f32 else 1e-7, rtol=1e-4 if f32 else 1e-7)
        c.count("inverse")
    H = T.hat(w) if hasattr(T, "hat") else None
    if H is not None:
        c.close(H, skew(w.double()), "hat", atol=0, rtol=0)
        c.close(T.hat_inv(H), w, "hat_inv(hat(w)) != w", atol=0, rtol=0)
        bad = H.clone()
        bad[c.i(0, n - 1), 0, 1] += 0.5
        c.raises(ValueError, lambda: T.hat_inv(bad), "hat_inv accepts a non skew-symmetric matrix")
    # angles
    k2, n2, w2 = draw(c, dt=w.dtype)
    R2 = torch.linalg.matrix_exp(skew(w2.double()))[:1].expand(n, 3, 3).to(w.dtype)
    true = torch.linalg.norm(want.double() - R2.double(), dim=(1, 2)) / (2 * math.sqrt(2))
    true = 2 * torch.asin(true.clamp(max=1.0))
    got = T.so3_relative_angle(want.to(w.dtype), R2)
    inner = (true > 0.02) & (true < math.pi - 0.02)
    c.close(got[inner], true[inner], "so3_relative_angle", atol=2e-3 if f32 else 1e-6, rtol=0)
    # linear extrapolation beyond cos_bound: stays finite and within 2e-2
    c.close(got, true, "so3_relative_angle near its ends", atol=2e-2, rtol=0)
    c.close(T.so3_relative_angle(want.to(w.dtype), R2, cos_angle=True), torch.cos(true), "so3_relative_angle cosine", atol=t, rtol=0)
    c.close(T.so3_rotation_angle(R, cos_angle=True), torch.cos(ang), "so3_rotation_angle cosine", atol=t, rtol=0)
    bad = torch.eye(3, dtype=w.dtype)[None].repeat(n, 1, 1)
    bad[c.i(0, n - 1)] *= c.pick(1.5, -1.5)
    c.raises(ValueError, lambda: T.so3_rotation_angle(bad), "a trace outside [-1,3] is accepted")


def gen4(v):
    """4x4 generator in the library's row-vector convention (see se3_exp_map docs)."""
    n = v.shape[0]
    G = torch.zeros(n, 4, 4, dtype=D)
    G[:, :3, :3] = skew(v[:, 3:]).transpose(1, 2)
    G[:, 3, :3] = v[:, :3]
    return G


@monitor(quick=2500, need=("inverse", "zero"))
def se3(c):
    import pytorch3d.transforms as T
    kind, n, w = draw(c, kind=c.pick(*[k for k in KINDS if k not in ("pi",)]))
    c.count(kind)
    f32 = w.dtype == torch.float32
    s = c.pick(1e-3, 1.0, 1.0, 1e3)
    tr = (c.randn(n, 3, dtype=D) * s).to(w.dtype)
    c.sig("se3", kind, n, str(w.dtype), s)
    v = torch.cat([tr, w], 1)
    want = torch.linalg.matrix_exp(gen4(v.double()))
    M = T.se3_exp_map(v)
    c.check(M.dtype == v.dtype and M.shape == (n, 4, 4), "se3_exp_map shape/dtype")
    t = 3e-5 if f32 else 1e-8
    c.close(M[:, :3, :3], want[:, :3, :3], "se3_exp_map rotation", atol=t, rtol=0, v=v)
    # clamping at angle 1e-2 changes V by O(1e-2 * 1e-5)
    c.close(M[:, 3, :3], want[:, 3, :3], "se3_exp_map translation", atol=(1e-4 if f32 else 1e-6) * s * 4, rtol=0, v=v)
    c.equal(M[:, :, 3], torch.tensor([0., 0, 0, 1]).expand(n, 4).to(v.dtype), "se3_exp_map last column")
    ang = w.double().norm(dim=1)
    if bool((ang < math.pi - 2e-2).all()):
        lg = T.se3_log_map(M)
        c.close(lg[:, 3:], w, "se3_log(se3_exp) rotation part", atol=1e-4 if f32 else 1e-7, rtol=1e-4)
        c.close(lg[:, :3], tr, "se3_log(se3_exp) translation part", atol=(3e-3 if f32 else 1e-5) * s, rtol=0)
        c.count("inverse")
    if kind != "near_pi" or not f32:
        W = want.to(v.dtype)
        lg = T.se3_log_map(W)
        back = torch.linalg.matrix_exp(gen4(lg.double()))
        near = bool((ang > math.pi - 0.2).any())
        c.close(back, want, "se3_exp(se3_log(M)) != M", atol=max(s, 1) * (2e-2 if f32 and near else 1e-3 if f32 else 1e-5), rtol=0, v=v)
    bad = M.clone()
    bad[c.i(0, n - 1), c.i(0, 2), 3] = 0.3
    c.raises(ValueError, lambda: T.se3_log_map(bad), "se3_log_map accepts a projective matrix")
    tf = T.Transform3d(matrix=M)
    c.close(tf.get_se3_log(), T.se3_log_map(M), "Transform3d.get_se3_log", atol=0, rtol=0)


@monitor(quick=600)
def acos_extrapolation(c):
    import pytorch3d.transforms as T
    lo, hi = sorted([c.u(-0.9999, 0.9999), c.u(-0.9999, 0.9999)])
    shape = c.pick((), (9,), (2, 3), (0,))
    x = c.rand(*shape, lo=-3, hi=3, dtype=D)
    c.sig("acos", shape, c.i(0, 50))
    y = T.acos_linear_extrapolation(x, (lo, hi))
    lin = lambda x0: math.acos(x0) - (x - x0) / math.sqrt(1 - x0 * x0)
    want = torch.where(x >= hi, lin(hi), torch.where(x <= lo, lin(lo), torch.acos(x.clamp(-1, 1))))
    c.close(y, want, "acos_linear_extrapolation", atol=1e-9, rtol=1e-9, x=x, lo=lo, hi=hi)
    c.raises(ValueError, lambda: T.acos_linear_extrapolation(x, (hi, lo - 1e-3)), "swapped bounds accepted")
    c.raises(ValueError, lambda: T.acos_linear_extrapolation(x, (lo, 1.0)), "bound 1.0 accepted")


@monitor(quick=1000, need=("zero", "generic"))
def gradients(c):
    import pytorch3d.transforms as T
    kind = c.pick("zero", "tiny", "small", "generic", "generic")
    c.count(kind)
    _, n, w = draw(c, kind=kind, dt=D)
    w = w.clamp(-1.7, 1.7)
    v = torch.cat([c.randn(n, 3, dtype=D), w], 1)
    f = c.pick("so3_exp", "se3_exp", "so3_roundtrip", "se3_roundtrip", "angle")
    c.sig("grad", f, kind, n)
    fn, x = {
        "so3_exp": (T.so3_exp_map, w), "se3_exp": (T.se3_exp_map, v),
        "so3_roundtrip": (lambda a: T.so3_log_map(T.so3_exp_map(a)), w),
        "se3_roundtrip": (lambda a: T.se3_log_map(T.se3_exp_map(a)), v),
        "angle": (lambda a: T.so3_rotation_angle(T.so3_exp_map(a)), w),
    }[f]
    x = x.clone().requires_grad_(True)
    y = fn(x)
    wt = c.randn(*y.shape, dtype=D)
    (g,) = torch.autograd.grad((y * wt).sum(), x)
    c.check(bool(torch.isfinite(g).all()), f"{f}: gradient not finite at a {kind} rotation", x=x, g=g)
    if kind == "generic" and bool((w.norm(dim=1) > 0.1).all()) and bool((w.norm(dim=1) < 2.9).all()):
        d = c.randn(*x.shape, dtype=D)
        with torch.no_grad():
            h = 1e-6
            fd = ((fn(x + h * d) - fn(x - h * d)) * wt).sum() / (2 * h)
        c.close((g * d).sum(), fd, f"{f}: directional derivative", atol=1e-4, rtol=1e-4, x=x)
