"""Transform3d: a history of operations on the real object against a plain float64 matrix."""
import math

import torch
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("random chains of translate/scale/rotate/rotate_axis_angle/compose/stack/index/inverse/clone/to operations over batch sizes 1 and N, "
        "float32 and float64, applied to points and normals; distinct = distinct (operation sequence, batch sizes, dtype)")
ASSUMPTIONS = ["batch elements are compared with tolerances scaled by the condition number of the chain, kept below 1e4"]


def rot(axis, a):
    """Row-vector rotation matrix (counter clockwise for positive angles), float64, a: (N,)."""
    c, s, o, z = torch.cos(a), torch.sin(a), torch.ones_like(a), torch.zeros_like(a)
    col = {"X": (o, z, z, z, c, -s, z, s, c), "Y": (c, z, s, z, o, z, -s, z, c), "Z": (c, -s, z, s, c, z, z, z, o)}[axis]
    return torch.stack(col, -1).view(-1, 3, 3).transpose(1, 2)


def m4(n):
    return torch.eye(4, dtype=D).repeat(n, 1, 1)


def scal(c, n, dt, lo=-3.0, hi=3.0):
    """A python scalar, 0-dim tensor, or tensor of n values; -> (argument, float64 values (1 or n,))"""
    k = c.pick("py", "t0", "t1", "tn")
    if k == "py":
        v = c.u(lo, hi)
        return v, torch.tensor([v], dtype=D)
    m = n if k == "tn" else 1
    # the argument may have another dtype than the transform
    v = c.rand(m, lo=lo, hi=hi, dtype=c.pick(dt, torch.float32))
    return (v[0] if k == "t0" else v), v.double()


def pos(c, n, dt):
    a, v = scal(c, n, dt, 0.4, 2.5)
    return a, v


def prim(c, n, dt, how):
    """A primitive transform as (name, args, kwargs, float64 matrix)."""
    import pytorch3d.transforms as T
    kind = c.pick("translate", "scale", "rotate", "rotate_axis_angle")
    if kind == "translate":
        if c.p(0.4):
            x = c.randn(n, 3, dtype=dt)
            M = m4(n)
            M[:, 3, :3] = x.double()
            return kind, (x,), {}, M
        a = [scal(c, n, dt) for _ in range(3)]
        vs = torch.broadcast_tensors(*[v for _, v in a])
        M = m4(len(vs[0]))
        M[:, 3, :3] = torch.stack(vs, 1)
        return kind, tuple(x for x, _ in a), {}, M
    if kind == "scale":
        r = c.i(0, 2)
        if r == 0:
            x = c.rand(n, 3, lo=0.4, hi=2.5, dtype=dt) * c.pick(1, -1)
            M = m4(n)
            for i in range(3):
                M[:, i, i] = x[:, i].double()
            return kind, (x,), {}, M
        if r == 1:
            a, v = pos(c, n, dt)
            M = m4(len(v))
            for i in range(3):
                M[:, i, i] = v
            return kind, (a,), {}, M
        a = [pos(c, n, dt) for _ in range(3)]
        vs = torch.broadcast_tensors(*[v for _, v in a])
        M = m4(len(vs[0]))
        for i in range(3):
            M[:, i, i] = vs[i]
        return kind, tuple(x for x, _ in a), {}, M
    if kind == "rotate":
        R = T.random_rotations(n, dtype=D).to(dt)
        if n == 1 and c.p(0.5):
            R = R[0]
        M = m4(n)
        M[:, :3, :3] = R.double()
        return kind, (R,), {}, M
    ax = c.pick("X", "Y", "Z", "x", "y", "z")
    deg = c.p(0.5)
    a, v = scal(c, n, dt, -400, 400) if deg else scal(c, n, dt, -7, 7)
    M = m4(len(v))
    M[:, :3, :3] = rot(ax.upper(), v / 180 * math.pi if deg else v)
    kw = {}
    args = (a, ax)
    if not deg:
        kw["degrees"] = False
    elif c.p(0.3):
        kw["degrees"] = True
    return kind, args, kw, M


CLS = dict(translate="Translate", scale="Scale", rotate="Rotate", rotate_axis_angle="RotateAxisAngle")


def bmul(A, B):
    return A @ B


def index(c, n):
    k = c.pick("int", "neg", "list", "slice", "mask", "long")
    if k == "int":
        i = c.i(0, n - 1)
        return k, i, [i]
    if k == "neg":
        i = c.i(0, n - 1)
        return k, i - n, [i]
    if k == "list":
        l = [c.i(-n, n - 1) for _ in range(c.i(1, 4))]
        return k, l, l
    if k == "slice":
        s = slice(c.pick(None, c.i(0, n - 1)), c.pick(None, n, -1 if n > 1 else None), c.pick(None, 2))
        return k, s, list(range(n))[s]
    if k == "mask":
        m = torch.tensor([c.p(0.6) for _ in range(n)])
        return k, m, [i for i in range(n) if m[i]]
    l = [c.i(-n, n - 1) for _ in range(c.i(1, 4))]
    return k, torch.tensor(l), l


@monitor(quick=4000, need=("op_compose", "op_inverse", "op_index", "op_stack", "broadcast", "normals", "class_index"))
def histories(c):
    import pytorch3d.transforms as T
    dt = c.pick(torch.float32, torch.float64)
    n = c.pick(1, 2, 3, 5)
    hist = []

    def fresh(nn):
        """A transform built in one of the public ways, with its model."""
        r = c.i(0, 3)
        if r == 0:
            M = m4(nn)
            M[:, :3, :3] += 0.4 * c.randn(nn, 3, 3, dtype=D).clamp(-1, 1) / 2
            M[:, 3, :3] = c.randn(nn, 3, dtype=D)
            M = M.to(dt)
            arg = M[0] if nn == 1 and c.p(0.3) else M
            return T.Transform3d(matrix=arg), M.double(), "matrix"
        if r == 1:
            k, a, kw, M = prim(c, nn, dt, "class")
            return getattr(T, CLS[k])(*a, dtype=dt, **kw), M, k
        t = T.Transform3d(dtype=dt)
        M = m4(1)
        names = []
        for _ in range(c.i(1, 3)):
            k, a, kw, P = prim(c, nn, dt, "method")
            t = getattr(t, k)(*a, **kw)
            M = bmul(M, P)
            names.append(k)
        return t, M, "chain:" + "+".join(names)

    t, M, name = fresh(n)
    hist.append(name)
    parents = []

    def verify(t, M, what):
        cond = float(torch.linalg.cond(M).max()) if len(M) else 1.0
        scale = max(1.0, float(M.abs().max()) if len(M) else 1.0)
        tol = (3e-6 if dt == torch.float32 else 1e-12) * max(cond, 1) * scale
        got = t.get_matrix()
        c.check(got.dtype == dt, f"{what}: dtype {got.dtype} instead of {dt} after {hist}")
        c.check(len(t) == len(M), f"{what}: len {len(t)} instead of {len(M)} after {hist}")
        c.close(got, M, f"{what}: matrix after {hist}", atol=tol, rtol=1e-5 if dt == torch.float32 else 1e-10)
        return tol

    tol = verify(t, M, "fresh")
    for _ in range(c.i(1, 5)):
        if float(torch.linalg.cond(M).max() if len(M) else 1) > 300 or (len(M) and float(M.abs().max()) > 300):
            break
        op = c.pick("compose", "compose", "inverse", "inverse", "index", "stack", "clone", "to", "method")
        n = len(M)
        before = (t, M.clone())
        if op == "compose":
            k = c.i(1, 2)
            others = [fresh(c.pick(1, n) if n != 1 else c.pick(1, 3)) for _ in range(k)]
            mm = {len(o[1]) for o in others} | {n}
            if len(mm - {1}) > 1:
                continue
            if c.p(0.2):
                parents.append((others[0][0], others[0][1].clone(), "composed-with"))
            t = t.compose(*[o[0] for o in others])
            for o in others:
                M = bmul(M, o[1])
            hist.append("compose(" + ",".join(o[2] for o in others) + ")")
        elif op == "method":
            k, a, kw, P = prim(c, n, dt, "method")
            if len(P) not in (1, n) and n != 1:
                continue
            t = getattr(t, k)(*a, **kw)
            M = bmul(M, P)
            hist.append("." + k)
        elif op == "inverse":
            ic = c.p(0.5)
            t = t.inverse(invert_composed=ic) if c.p(0.8) else t.inverse()
            M = torch.linalg.inv(M)
            hist.append(f"inverse({ic})")
        elif op == "index":
            if n == 0:
                continue
            k, ix, sel = index(c, n)
            if not sel:
                continue
            if type(t) is not T.Transform3d:
                c.count("class_index")
            t = t[ix]
            M = M[sel]
            hist.append(f"index[{k}]")
        elif op == "stack":
            others = [fresh(c.i(1, 3)) for _ in range(c.i(1, 2))]
            t = t.stack(*[o[0] for o in others])
            M = torch.cat([M] + [o[1] for o in others])
            hist.append("stack")
        elif op == "clone":
            t = t.clone()
            hist.append("clone")
        else:
            nd = c.pick(dt, torch.float32, torch.float64)
            t2 = t.to("cpu", copy=c.p(0.5), dtype=nd)
            c.check(t2.dtype == nd and t2.get_matrix().dtype == nd, "to(dtype) kept the dtype")
            if nd == dt:
                t = t2
            hist.append("to")
        c.count("op_" + op)
        parents.append(before + (op,))
        tol = verify(t, M, op)
    for pt, pM, op in parents:
        c.close(pt.get_matrix(), pM, f"the transform before {op} was changed ({hist})",
                atol=max(tol, (1e-4 if dt == torch.float32 else 1e-9) * max(1.0, float(pM.abs().max()) if len(pM) else 1)), rtol=1e-4)
    N = len(M)
    if N == 0:
        return
    c.sig("hist", str(dt), N, *[h.split("(")[0].split(":")[0] for h in hist])
    # application
    P = c.pick(1, 4, 0)
    shape = c.pick("P", "1P", "NP")
    if N == 1 and c.p(0.5):
        shape = "MP"
    x = {"P": c.randn(P, 3, dtype=dt), "1P": c.randn(1, P, 3, dtype=dt), "NP": c.randn(N, P, 3, dtype=dt), "MP": c.randn(4, P, 3, dtype=dt)}[shape]
    c.count("broadcast", shape in ("P", "1P") and N > 1 or shape == "MP")
    xd = x.double()
    hom = torch.cat([xd, torch.ones(*xd.shape[:-1], 1, dtype=D)], -1)
    w = hom @ M
    want = w[..., :3] / w[..., 3:]
    if shape == "P" and N == 1:
        want = want[0]
    x0 = x.clone()
    ptol = tol * 30
    c.close(t.transform_points(x), want, f"points after {hist}", atol=ptol, rtol=1e-4 if dt == torch.float32 else 1e-9)
    c.equal(x, x0, "transform_points changed its input")
    inv = torch.linalg.inv(M[:, :3, :3])
    wn = xd @ inv.transpose(1, 2)
    if shape == "P" and N == 1:
        wn = wn[0]
    c.close(t.transform_normals(x), wn, f"normals after {hist}", atol=ptol * max(1.0, float(inv.abs().max())), rtol=1e-4 if dt == torch.float32 else 1e-9)
    c.count("normals")
    # inverse really undoes
    if shape in ("NP", "MP"):
        back = t.inverse().transform_points(t.transform_points(x))
        cond = float(torch.linalg.cond(M).max())
        c.close(back, x, f"inverse does not undo {hist}", atol=ptol * max(1.0, cond), rtol=1e-3)


@monitor(quick=1500, need=("zero_w",))
def projective(c):
    """Points with a projective last column, eps clamping, bad shapes."""
    import pytorch3d.transforms as T
    dt = c.pick(torch.float32, torch.float64)
    n = c.i(1, 3)
    M = c.randn(n, 4, 4, dtype=dt)
    x = c.randn(n, c.i(1, 5), 3, dtype=dt)
    eps = c.pick(None, 1e-2, 0.5)
    if c.p(0.3):
        # exactly zero denominators
        M[:, :3, 3] = 0
        M[:, 3, 3] = c.pick(0.0, 1e-4, -1e-4)
        eps = eps or 1e-2
        c.count("zero_w")
    c.sig("projective", n, x.shape[1], eps, str(dt))
    got = T.Transform3d(matrix=M).transform_points(x, eps=eps)
    w = torch.cat([x.double(), torch.ones(*x.shape[:2], 1, dtype=D)], -1) @ M.double()
    den = w[..., 3:]
    if eps is not None:
        sg = torch.where(den < 0, -1.0, 1.0).to(D)
        den = sg * den.abs().clamp(min=eps)
    ok = (w[..., 3:].abs() > 0.05) if eps is None else ((w[..., 3:].abs() > 1e-5) | (w[..., 3:] == 0))
    want = w[..., :3] / den
    ok = ok.expand_as(want)
    t = (1e-4 if dt == torch.float32 else 1e-10) / (eps or 0.05)
    c.close(got[ok], want[ok], "projective transform", atol=t, rtol=1e-3 if dt == torch.float32 else 1e-9)
    bad = c.pick(torch.zeros(3, 3, 3), torch.zeros(4, 3), torch.zeros(4), torch.zeros(2, 2, 4, 4))
    c.raises(ValueError, lambda: T.Transform3d(matrix=bad), f"a matrix of shape {tuple(bad.shape)} is accepted")
    t3 = T.Transform3d(matrix=M)
    c.raises(ValueError, lambda: t3.transform_points(c.randn(3)), "1-D points are accepted")
    c.raises(ValueError, lambda: t3.transform_normals(c.randn(1, 1, 2, 3)), "4-D normals are accepted")
    c.raises(ValueError, lambda: t3.compose(M), "composing with a tensor is accepted")
    c.raises(ValueError, lambda: T.Translate(c.randn(2, 4)), "Translate accepts (N,4)")
    c.raises(ValueError, lambda: T.Scale(c.randn(2, 2)), "Scale accepts (N,2)")
    c.raises(ValueError, lambda: T.Translate(c.randn(2), c.randn(3), 1.0), "non-broadcastable translate is accepted")
    c.raises(ValueError, lambda: T.Translate(c.randn(2, 3), 1.0, None), "Translate((N,3), y) is accepted")
    c.raises(ValueError, lambda: T.Rotate(c.randn(2, 4, 4)), "Rotate accepts 4x4")
    c.raises(ValueError, lambda: T.RotateAxisAngle(1.0, "W"), "axis W is accepted")
    c.raises(ValueError, lambda: T.RotateAxisAngle(c.randn(2, 2), "X"), "2-D angles are accepted")
    if n > 1:
        o = T.Transform3d(matrix=c.randn(n + 1, 4, 4, dtype=dt))
        c.raises(ValueError, lambda: t3.compose(o).get_matrix(), "mismatched batch sizes compose")
        c.raises(ValueError, lambda: t3.transform_points(c.randn(n + 1, 2, 3, dtype=dt)), "mismatched batch sizes transform")


@monitor(quick=500, need=("grad",))
def differentiable(c):
    """Gradients reach parameters through construction, composition and inversion."""
    import pytorch3d.transforms as T
    n = c.i(1, 3)
    s = c.rand(n, lo=0.5, hi=2, dtype=D).requires_grad_()
    tr = c.randn(n, 3, dtype=D).requires_grad_()
    an = c.randn(n, dtype=D).requires_grad_()
    x = c.randn(n, 4, 3, dtype=D).requires_grad_()
    ax = c.pick("X", "Y", "Z")
    inv = c.pick(None, False, True)
    c.sig("grad", n, ax, inv)

    def f(s, tr, an, x):
        t = T.Transform3d(dtype=D).scale(s).translate(tr).rotate_axis_angle(an, ax, degrees=False)
        if inv is not None:
            t = t.inverse(invert_composed=inv)
        return t.transform_points(x)

    def ref(s, tr, an, x):
        R = rot(ax, an)
        if inv is None:
            return (x * s[:, None, None] + tr[:, None]) @ R
        return (x @ R.transpose(1, 2) - tr[:, None]) / s[:, None, None]
    w = c.randn(n, 4, 3, dtype=D)
    g1 = torch.autograd.grad((f(s, tr, an, x) * w).sum(), (s, tr, an, x))
    g2 = torch.autograd.grad((ref(s, tr, an, x) * w).sum(), (s, tr, an, x))
    for a, b, nm in zip(g1, g2, ("scale", "translation", "angle", "points")):
        c.close(a, b, f"gradient of {nm}", atol=1e-9, rtol=1e-7)
        c.count("grad")
