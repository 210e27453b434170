"""Rotation representations: every conversion denotes the same rotation.

Oracle: each representation is turned into a 3x3 matrix by formulas written here
in float64 (expm of the cross-product matrix, the quaternion sandwich product,
elementary rotations), independent of the library's.
"""
import math

import torch
from lib.harness import monitor

NATIVE = False
RULE = ("each case draws a batch of rotations (generic, near identity, near and at pi, all four quaternion "
        "branches, axis aligned, gimbal-lock neighbours) in a random batch shape and dtype, sends it through every "
        "conversion and compares with matrices computed in float64; distinct = distinct (kind, dtype, batch shape, op)")
ASSUMPTIONS = ["float64 tolerance 1e-7..1e-9, float32 tolerance scaled by the conditioning of the conversion"]

D = torch.float64


def skew(v):
    x, y, z = v.unbind(-1)
    o = torch.zeros_like(x)
    return torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(v.shape[:-1] + (3, 3))


def aa_to_R(v):
    return torch.linalg.matrix_exp(skew(v.double()))


def quat_to_R(q):
    """columns are q e_i q^-1, from the definition"""
    q = q.double()
    q = q / q.norm(dim=-1, keepdim=True)
    w, v = q[..., :1], q[..., 1:]
    cols = []
    for i in range(3):
        e = torch.zeros_like(v)
        e[..., i] = 1
        t = 2 * torch.cross(v, e, dim=-1)
        cols.append(e + w * t + torch.cross(v, t, dim=-1))
    return torch.stack(cols, -1)


def elem(axis, a):
    v = torch.zeros(a.shape + (3,), dtype=D)
    v[..., "XYZ".index(axis)] = a.double()
    return aa_to_R(v)


def euler_to_R(e, conv):
    a, b, c = e.unbind(-1)
    return elem(conv[0], a) @ elem(conv[1], b) @ elem(conv[2], c)


def axes(c, n, kind):
    ax = c.randn(n, 3, dtype=D)
    if kind == "aligned":
        ax = torch.eye(3, dtype=D)[c.randint(0, 3, (n,))] * (c.randint(0, 2, (n, 1)) * 2 - 1)
    elif kind == "planar":
        ax[torch.arange(n), c.randint(0, 3, (n,))] = 0
    return ax / ax.norm(dim=-1, keepdim=True)


KINDS = ["generic", "small", "tiny", "zero", "near_pi", "pi", "aligned", "planar", "beyond_pi", "mixed"]


def angles(c, n, kind):
    if kind == "small":
        return c.rand(n, 1, lo=1e-4, hi=1e-2, dtype=D)
    if kind == "tiny":
        return 10.0 ** c.rand(n, 1, lo=-12, hi=-4, dtype=D)
    if kind == "zero":
        return torch.zeros(n, 1, dtype=D)
    if kind == "near_pi":
        return math.pi - 10.0 ** c.rand(n, 1, lo=-5, hi=-1.5, dtype=D)
    if kind == "pi":
        return torch.full((n, 1), math.pi, dtype=D)
    if kind == "beyond_pi":
        return c.rand(n, 1, lo=math.pi + 0.01, hi=2 * math.pi - 0.05, dtype=D)
    if kind == "mixed":
        ks = [c.pick("generic", "small", "zero", "near_pi", "pi", "tiny") for _ in range(n)]
        return torch.cat([angles(c, 1, k) for k in ks] + [torch.zeros(0, 1, dtype=D)])
    return c.rand(n, 1, lo=0.0, hi=math.pi, dtype=D)


def batch(c):
    shape = c.pick((), (1,), (7,), (2, 3), (1, 1, 4), (3, 1, 2), (0,))
    n = 1
    for s in shape:
        n *= s
    return shape, n


def draw(c):
    kind = c.pick(*KINDS)
    shape, n = batch(c)
    ax = axes(c, n, c.pick("generic", "aligned", "planar") if kind in ("pi", "near_pi", "mixed") else kind)
    aa = (ax * angles(c, n, kind)).reshape(shape + (3,))
    dt = c.pick(torch.float32, torch.float64)
    return kind, shape, aa.to(dt), dt


def tol(dt):
    return 2e-5 if dt == torch.float32 else 1e-9


def rot_ok(c, R, msg, t):
    I = torch.eye(3, dtype=D).expand(R.shape)
    c.close(R.double() @ R.double().transpose(-1, -2), I, msg + " is not orthogonal", atol=t, rtol=0)
    if R.numel():
        c.close(torch.linalg.det(R.double()), torch.ones(R.shape[:-2], dtype=D), msg + " has det != 1", atol=t, rtol=0)


@monitor(quick=4000, need=("fast_pi_batch", "near_pi", "zero"))
def axis_angle(c):
    import pytorch3d.transforms as T
    kind, shape, aa, dt = draw(c)
    c.sig("aa", kind, shape, str(dt))
    c.count(kind)
    want = aa_to_R(aa)
    t = tol(dt)
    for fast in (False, True):
        R = T.axis_angle_to_matrix(aa, fast=fast)
        c.check(R.dtype == dt, "axis_angle_to_matrix changes dtype")
        c.close(R, want, f"axis_angle_to_matrix(fast={fast})", atol=t, rtol=0, aa=aa)
        rot_ok(c, R, "axis_angle_to_matrix", t)
    q = T.axis_angle_to_quaternion(aa)
    c.close(quat_to_R(q), want, "axis_angle_to_quaternion", atol=t, rtol=0, aa=aa)
    c.close(q.norm(dim=-1), torch.ones(shape), "axis_angle_to_quaternion norm", atol=t, rtol=0)
    # back: quaternion -> axis angle denotes the same rotation
    half = aa.double().norm(dim=-1) / 2
    if dt == torch.float64 or bool((torch.sin(half) .abs() > 0.05).logical_or(half < 1).all()):
        b = T.quaternion_to_axis_angle(q)
        c.close(aa_to_R(b), want, "quaternion_to_axis_angle", atol=20 * t if kind == "beyond_pi" else t, rtol=0, q=q)
        c.close(b, aa, "axis_angle -> quaternion -> axis_angle", atol=1e-7 if dt == D else 2e-3 if kind == "beyond_pi" else 1e-4, rtol=0)
    # matrix -> axis angle
    Rm = want.to(dt)
    for fast in (False, True):
        b = T.matrix_to_axis_angle(Rm, fast=fast)
        c.check(b.shape == shape + (3,), "matrix_to_axis_angle shape")
        # near pi the axis is recovered from terms of size (pi - angle); fast uses the sine only
        eps = 6e-8 if dt == torch.float32 else 1e-16
        gap = (math.pi - (aa.double().norm(dim=-1) % (2 * math.pi)).sub(0)).abs()
        at = torch.full(shape, 50 * math.sqrt(eps) if dt == torch.float32 else 1e-6, dtype=D)
        if fast:
            at = at + torch.where(gap < 1e-4, 1e-3, 1e-5 / gap.clamp(1e-4).sqrt() if dt == torch.float32 else 0.0)
            if dt == torch.float32:
                at = at + torch.where(gap < 0.2, 3e-6 / gap.clamp(1e-5), 0.0) + 4e-3 * (gap < 2e-3)
            if bool((gap < 1e-5).sum() > 1):
                c.count("fast_pi_batch")
        else:
            c.count("slow_matrix_to_axis_angle")
        got = aa_to_R(b)
        c.close(got, want, f"matrix_to_axis_angle(fast={fast})", atol=at[..., None, None].expand(got.shape), rtol=0,
                aa=aa, out=b)
        slack = 0.05 if fast and dt == torch.float32 else 1e-3
        c.check(bool((b.double().norm(dim=-1) <= math.pi + slack).all()), "matrix_to_axis_angle angle exceeds pi", out=b)


@monitor(quick=4000, need=("negreal", "unnormalized"))
def quaternions(c):
    import pytorch3d.transforms as T
    kind, shape, aa, dt = draw(c)
    half = aa.double().norm(dim=-1, keepdim=True) / 2
    q = torch.cat([torch.cos(half), aa.double() * 0.5 * torch.sinc(half / math.pi)], -1).to(dt)
    t = tol(dt)
    if c.p(0.5):
        s = (c.randint(0, 2, shape + (1,)) * 2 - 1).to(dt)
        q = q * s
        c.count("negreal")
    want = quat_to_R(q)
    c.sig("q", kind, shape, str(dt))
    scaled = q
    if c.p(0.4):
        scaled = q * c.rand(*shape, 1, lo=0.2, hi=5, dtype=dt)
        c.count("unnormalized")
    R = T.quaternion_to_matrix(scaled)
    c.close(R, want, "quaternion_to_matrix", atol=t, rtol=0, q=scaled)
    q2 = T.matrix_to_quaternion(want.to(dt))
    c.close(quat_to_R(q2), want, "matrix_to_quaternion", atol=t * 3, rtol=0, R=want)
    c.close(q2.norm(dim=-1), torch.ones(shape), "matrix_to_quaternion norm", atol=3 * t, rtol=0)
    c.check(bool((q2[..., 0] >= 0).all()), "matrix_to_quaternion real part negative", q=q2)
    st = T.standardize_quaternion(q)
    c.check(bool((st[..., 0] >= 0).all()), "standardize_quaternion real part negative")
    c.check(bool(((st == q).all(-1) | (st == -q).all(-1)).all()), "standardize_quaternion is not +-q")
    # products, with broadcasting
    _, _, aa2, _ = draw(c)
    bshape = c.pick(shape, (1,) * len(shape), ())
    q3 = c.randn(*bshape, 4, dtype=dt)
    q3 = q3 / q3.norm(dim=-1, keepdim=True)
    R3 = quat_to_R(q3)
    for nm, pr in (("quaternion_raw_multiply", T.quaternion_raw_multiply(q, q3)),
                   ("quaternion_multiply", T.quaternion_multiply(q, q3))):
        c.close(quat_to_R(pr), want @ R3, nm + " does not compose", atol=t * 4, rtol=0)
        if nm == "quaternion_multiply":
            c.check(bool((pr[..., 0] >= 0).all()), "quaternion_multiply real part negative")
    # the raw product is bilinear, including on non-unit input: check the norm is multiplicative
    a, b = c.randn(*shape, 4, dtype=D) * 3, c.randn(*bshape, 4, dtype=D)
    ab = T.quaternion_raw_multiply(a, b)
    c.close(ab.norm(dim=-1), a.norm(dim=-1) * b.norm(dim=-1), "quaternion_raw_multiply norm", atol=1e-9)
    c.close(ab[..., 0], a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1), "quaternion_raw_multiply real part", atol=1e-9)
    inv = T.quaternion_invert(q)
    c.close(quat_to_R(inv), want.transpose(-1, -2), "quaternion_invert", atol=t, rtol=0)
    pshape = c.pick(shape, (5,) + shape, (1,) * len(shape))
    p = c.randn(*pshape, 3, dtype=dt)
    got = T.quaternion_apply(q, p)
    w = (want @ p.double()[..., None])[..., 0]
    c.close(got, w, "quaternion_apply", atol=t * 20, rtol=t)


@monitor(quick=3000, need=("tait", "proper", "gimbal"))
def euler(c):
    import pytorch3d.transforms as T
    conv = c.pick(*[a + b + d for a in "XYZ" for b in "XYZ" for d in "XYZ" if a != b and b != d])
    tait = conv[0] != conv[2]
    c.count("tait" if tait else "proper")
    shape, n = batch(c)
    dt = c.pick(torch.float32, torch.float64)
    e = c.rand(*shape, 3, lo=-math.pi, hi=math.pi, dtype=D)
    m = 0.02
    if tait:
        e[..., 1] = c.rand(*shape, lo=-math.pi / 2 + m, hi=math.pi / 2 - m, dtype=D)
    else:
        e[..., 1] = c.rand(*shape, lo=m, hi=math.pi - m, dtype=D)
    c.sig(conv, shape, str(dt))
    e = e.to(dt)
    t = tol(dt)
    R = T.euler_angles_to_matrix(e, conv)
    c.close(R, euler_to_R(e, conv), f"euler_angles_to_matrix {conv}", atol=t, rtol=0, e=e)
    back = T.matrix_to_euler_angles(R, conv)
    c.check(back.shape == e.shape, "matrix_to_euler_angles shape")
    if n:
        d = (back - e).double()
        d = torch.atan2(torch.sin(d), torch.cos(d))
        c.close(d, torch.zeros_like(d), f"matrix_to_euler_angles {conv} inside the principal range",
                atol=1e-3 if dt == torch.float32 else 1e-7, rtol=0, e=e, back=back)
    # outside the principal range the same rotation must still be denoted
    e2 = c.rand(*shape, 3, lo=-7, hi=7, dtype=D)
    R2 = euler_to_R(e2, conv)
    mid = T.matrix_to_euler_angles(R2, conv)
    c.close(euler_to_R(mid, conv), R2, f"matrix_to_euler_angles {conv} denotes another rotation", atol=1e-6, rtol=0, e=e2)
    # a general rotation matrix
    aa = axes(c, max(n, 1), "generic") * c.rand(max(n, 1), 1, lo=0, hi=3.1, dtype=D)
    Rg = aa_to_R(aa)
    c.close(euler_to_R(T.matrix_to_euler_angles(Rg, conv), conv), Rg, f"matrix_to_euler_angles {conv} of a generic rotation",
            atol=1e-6, rtol=0)
    # gimbal lock: only finiteness and the middle angle are promised to be meaningful
    g = e.double().clone()
    g[..., 1] = (math.pi / 2 if tait else 0.0)
    Rg = euler_to_R(g, conv)
    out = T.matrix_to_euler_angles(Rg, conv)
    c.check(bool(torch.isfinite(out).all()), "matrix_to_euler_angles not finite at gimbal lock")
    c.close(out[..., 1], g[..., 1], "middle Euler angle at gimbal lock", atol=1e-6, rtol=0)
    c.count("gimbal")
    bad = c.pick("XXY", "XYY", "AYZ", "XY", "XYZX", "xyz")
    c.raises(ValueError, lambda: T.euler_angles_to_matrix(torch.zeros(2, 3), bad), f"convention {bad} accepted")
    c.raises(ValueError, lambda: T.matrix_to_euler_angles(torch.eye(3)[None], bad), f"convention {bad} accepted")


@monitor(quick=1500)
def six_d(c):
    import pytorch3d.transforms as T
    shape, n = batch(c)
    dt = c.pick(torch.float32, torch.float64)
    t = tol(dt)
    c.sig("6d", shape, str(dt))
    d6 = c.randn(*shape, 6, dtype=dt) * c.pick(0.1, 1.0, 30.0)
    a, b = d6.double()[..., :3], d6.double()[..., 3:]
    ok = torch.cross(a, b, dim=-1).norm(dim=-1) > 0.1 * a.norm(dim=-1) * b.norm(dim=-1)
    R = T.rotation_6d_to_matrix(d6)
    R, a, b = R[ok], a[ok], b[ok]
    rot_ok(c, R, "rotation_6d_to_matrix", t * 10)
    # Gram-Schmidt: first row along a, second in span(a, b) on b's side
    Rd = R.double()
    c.close(Rd[..., 0, :], a / a.norm(dim=-1, keepdim=True), "6d first row", atol=t, rtol=0)
    c.close((Rd[..., 2, :] * b).sum(-1) / b.norm(dim=-1), torch.zeros(b.shape[:-1]), "6d third row not normal to b", atol=t * 10, rtol=0)
    c.check(bool(((Rd[..., 1, :] * b).sum(-1) > 0).all()), "6d second row on the wrong side")
    aa = c.randn(*shape, 3, dtype=D)
    Rr = aa_to_R(aa).to(dt)
    d = T.matrix_to_rotation_6d(Rr)
    c.check(d.shape == shape + (6,), "matrix_to_rotation_6d shape")
    c.close(T.rotation_6d_to_matrix(d), Rr, "matrix -> 6d -> matrix", atol=t, rtol=0)
    d.zero_()
    c.close(Rr, aa_to_R(aa), "matrix_to_rotation_6d result aliases its input", atol=t, rtol=0)


@monitor(quick=300)
def random_rotations(c):
    import pytorch3d.transforms as T
    n = c.pick(0, 1, 64, 500)
    dt = c.pick(torch.float32, torch.float64)
    c.sig("rand", n, str(dt))
    q = T.random_quaternions(n, dtype=dt)
    c.check(q.shape == (n, 4) and q.dtype == dt, "random_quaternions shape/dtype")
    c.close(q.norm(dim=-1), torch.ones(n), "random_quaternions norm", atol=1e-5, rtol=0)
    c.check(bool((q[:, 0] >= 0).all()), "random_quaternions real part negative")
    R = T.random_rotations(n, dtype=dt)
    c.check(R.shape == (n, 3, 3) and R.dtype == dt, "random_rotations shape")
    rot_ok(c, R, "random_rotations", 1e-5)
    rot_ok(c, T.random_rotation(dtype=dt)[None], "random_rotation", 1e-5)
    if n == 500:
        # Haar: mean of R is 0 (sd 1/sqrt(3*500)=.026) and E[trace]=0
        c.close(R.double().mean(0), torch.zeros(3, 3), "random_rotations are not uniform (mean)", atol=0.17, rtol=0)
        ang = torch.acos(((R.double().diagonal(dim1=1, dim2=2).sum(1) - 1) / 2).clamp(-1, 1))
        # density (1-cos a)/pi: mean pi/2 + 2/pi
        c.close(ang.mean(), torch.tensor(math.pi / 2 + 2 / math.pi), "random_rotations are not uniform (angle)", atol=0.2, rtol=0)
        c.count("uniformity")


@monitor(quick=1500, need=("zero", "generic"))
def gradients(c):
    """Derivatives are finite everywhere the maps are smooth and equal central differences."""
    import pytorch3d.transforms as T
    kind = c.pick("generic", "small", "tiny", "zero", "aligned", "planar")
    c.count(kind)
    n = c.i(1, 3)
    aa = axes(c, n, kind) * angles(c, n, kind).clamp(max=3.0)
    f = c.pick("aa2m", "aa2mf", "aa2q", "q2m", "q2aa", "m2q", "r6", "qapply")
    c.sig("grad", f, kind)
    q = torch.cat([torch.cos(aa.norm(dim=-1, keepdim=True) / 2),
                   aa * 0.5 * torch.sinc(aa.norm(dim=-1, keepdim=True) / 2 / math.pi)], -1)
    pt = c.randn(n, 3, dtype=D)
    fn, x = {
        "aa2m": (T.axis_angle_to_matrix, aa),
        "aa2mf": (lambda a: T.axis_angle_to_matrix(a, fast=True), aa),
        "aa2q": (T.axis_angle_to_quaternion, aa),
        "q2m": (T.quaternion_to_matrix, q),
        "q2aa": (T.quaternion_to_axis_angle, q),
        # only a smooth extension off the rotation manifold: differentiate along it
        "m2q": (lambda a: T.matrix_to_quaternion(aa_to_R(a)), aa),
        "r6": (T.rotation_6d_to_matrix, c.randn(n, 6, dtype=D)),
        "qapply": (lambda a: T.quaternion_apply(a, pt), q),
    }[f]
    x = x.clone().requires_grad_(True)
    y = fn(x)
    w = c.randn(*y.shape, dtype=D)
    (g,) = torch.autograd.grad((y * w).sum(), x)
    c.check(bool(torch.isfinite(g).all()), f"{f}: gradient is not finite at a {kind} rotation", x=x, g=g)
    if kind in ("generic", "aligned", "planar") and (f not in ("aa2q", "aa2m", "aa2mf", "q2aa", "m2q") or bool((aa.norm(dim=-1) > 0.05).all())):
        d = c.randn(*x.shape, dtype=D)
        h = 1e-6
        with torch.no_grad():
            fd = ((fn(x + h * d) - fn(x - h * d)) * w).sum() / (2 * h)
        c.close((g * d).sum(), fd, f"{f}: directional derivative", atol=2e-4, rtol=1e-4, x=x)
        c.count("directional")
