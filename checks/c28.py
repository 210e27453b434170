"""Alignment solvers against float64 optima, generators and a step-by-step trace of ICP."""
import math
import warnings
import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
warnings.filterwarnings("ignore")
RULE = ("point sets of 2..4 dimensions and 3..60 points, ragged batches of 1..4 as Pointclouds or tensors; generic, planar, collinear; "
        "noiseless and noisy; weights None, real, with zeros, as lists; scale and reflection options; ICP from starts within 10 degrees; "
        "cameras 2..8; distinct = distinct (function, options)")
ASSUMPTIONS = ["perspective-n-points: at least 8 generic points in front of the camera, float64 (fewer points, planar sets and float32 are "
               "ill-conditioned for this algorithm)",
               "ICP stops for the batch as a whole, as documented; only each step and the result are judged",
               "symeig3x3 to 1e-3 of the norm (its documented float32 accuracy)"]


def rotation(c, dim, deg=None):
    A = c.randn(dim, dim, dtype=D)
    A = A - A.t()
    if deg is not None:
        return torch.linalg.matrix_exp(A / A.norm() * math.sqrt(2) * math.radians(deg))
    return torch.linalg.matrix_exp(A * 3)


def cost(X, Y, w, R, T, s):
    return (w * ((s * X @ R + T - Y) ** 2).sum(-1)).sum()


def optimum(X, Y, w, scale, reflect):
    """the least cost of aligning X to Y, from the closed form in float64"""
    W = w.sum()
    if W == 0:
        return torch.zeros((), dtype=D), None
    mx, my = (w[:, None] * X).sum(0) / W, (w[:, None] * Y).sum(0) / W
    x, y = X - mx, Y - my
    U, S, Vt = torch.linalg.svd((w[:, None] * x).t() @ y)
    e = torch.ones_like(S)
    if not reflect and torch.linalg.det(U @ Vt) < 0:
        e[-1] = -1
    R = U @ torch.diag(e) @ Vt
    vx = (w * (x * x).sum(-1)).sum()
    s = (S * e).sum() / vx if scale and vx > 0 else torch.ones((), dtype=D)
    return cost(X, Y, w, R, my - s * mx @ R, s), S


def pts(c, n, dim):
    x = c.randn(n, dim, dtype=D)
    kind = c.pick("generic", "generic", "generic", "planar", "line")
    if kind == "planar":
        x[:, -1] = 0
    elif kind == "line":
        x[:, 1:] = 0
    return x @ rotation(c, dim) * c.pick(1.0, 0.2, 5.0) + c.randn(dim, dtype=D) * c.pick(0, 1, 3), kind


def proper(c, R, what, reflect=False):
    e = torch.eye(R.shape[-1], dtype=D)
    c.close(R.double() @ R.double().transpose(-1, -2), e.expand_as(R), f"{what}: R is not orthonormal", atol=2e-5 if R.dtype == torch.float32 else 1e-9)
    if not reflect:
        c.check((torch.linalg.det(R.double()) > 0).all(), f"{what}: R is a reflection")


@monitor(quick=1200, thorough=40000, need=("weighted optimum", "exact", "ragged", "reflection"))
def similarity(c):
    from pytorch3d.ops import corresponding_points_alignment
    from pytorch3d.structures import Pointclouds
    b, dim = c.i(1, 4), c.pick(3, 3, 3, 2, 4)
    dt = c.pick(D, D, torch.float32)
    scale, reflect = c.p(0.5), c.p(0.3)
    ragged = c.p(0.5)
    ns = [c.i(3, 30) for _ in range(b)] if ragged else [c.i(3, 30)] * b
    noise = c.pick(0.0, 0.0, 0.05, 0.5)
    Xs, Ys, gen = [], [], []
    for n in ns:
        X, kind = pts(c, n, dim)
        R = rotation(c, dim)
        if reflect and c.p(0.5) or c.p(0.1):
            R = R.clone(); R[:, 0] = -R[:, 0]
        s = c.u(0.2, 4) if scale else 1.0
        T = c.randn(dim, dtype=D)
        Y = s * X @ R + T
        Xs.append(X); Ys.append(Y + noise * X.std() * c.randn(n, dim, dtype=D)); gen.append((R, T, s, kind))
    ws = None
    if c.p(0.6):
        k = c.pick("real", "zeros", "ones", "big")
        ws = [{"real": c.rand(n, dtype=D), "zeros": c.rand(n, dtype=D) * (c.rand(n) < 0.7), "ones": torch.ones(n, dtype=D), "big": c.rand(n, dtype=D, lo=0.1) * 20}[k] for n in ns]
        for w in ws:
            w[c.perm(len(w))[:3]] = c.u(0.3, 1)
    cast = lambda l: [x.to(dt) for x in l]
    X_, Y_ = cast(Xs), cast(Ys)
    kw = {}
    if ws is not None:
        w_ = cast(ws)
        kw["weights"] = w_ if c.p(0.4) else torch.nn.utils.rnn.pad_sequence(w_, batch_first=True, padding_value=c.pick(0.0, 7.0))
    if ragged:
        if dim != 3:
            ragged = False
            n = min(ns)
            X_, Y_ = [x[:n] for x in X_], [x[:n] for x in Y_]
            Xs, Ys = [x[:n] for x in Xs], [x[:n] for x in Ys]
            if ws is not None:
                ws = [w[:n] for w in ws]; kw["weights"] = torch.stack([w.to(dt) for w in ws])
            a, bb = torch.stack(X_), torch.stack(Y_)
        else:
            a, bb = Pointclouds(X_), Pointclouds(Y_)
            c.count("ragged")
    else:
        a, bb = torch.stack(X_), torch.stack(Y_)
    if scale:
        kw["estimate_scale"] = True
    if reflect:
        kw["allow_reflection"] = True
    sol = corresponding_points_alignment(a, bb, **kw)
    R, T, s = sol
    proper(c, R, "alignment", reflect)
    if not scale:
        c.equal(s, torch.ones_like(s), "scale without estimate_scale")
    eps = 1e-9 if dt == D else 3e-5
    for i, (X, Y) in enumerate(zip(Xs, Ys)):
        w = ws[i] if ws is not None else torch.ones(len(X), dtype=D)
        got = cost(X, Y, w, R[i].double(), T[i].double(), s[i].double())
        best, S = optimum(X, Y, w, scale, reflect)
        ref = (w * ((Y - Y.mean(0)) ** 2).sum(-1)).sum() + (w * ((X - X.mean(0)) ** 2).sum(-1)).sum() + (w.sum() * (X.abs().max() + Y.abs().max()) ** 2) * eps
        c.check(float(got) <= float(best) * (1 + (1e-6 if dt == D else 1e-3)) + float(ref) * eps, "the alignment is not the least squares optimum", got=float(got), want=float(best))
        if ws is not None and noise:
            c.count("weighted optimum")
        Rg, Tg, sg, kind = gen[i]
        if noise == 0 and len(X) > dim and kind == "generic" and (ws is None or (w > 0).sum() > dim) and (reflect or torch.linalg.det(Rg) > 0):
            if S is not None and S[-1] > 1e-3 * S[0]:
                tol = 1e-7 if dt == D else 5e-3
                c.close(R[i], Rg, "recovered rotation", atol=tol); c.close(s[i], torch.tensor(float(sg)), "recovered scale", atol=tol * 4)
                c.close(T[i], Tg, "recovered translation", atol=tol * (1 + float(X.abs().max()) * 4))
                c.count("exact")
                c.count("reflection", int(torch.linalg.det(Rg) < 0))
    if b > 1 and not ragged:
        k = c.i(0, b - 1)
        kw1 = dict(kw)
        if ws is not None:
            kw1["weights"] = ws[k][None].to(dt)
        one = corresponding_points_alignment(a[k:k + 1], bb[k:k + 1], **kw1)
        c.check(abs(float(cost(Xs[k], Ys[k], torch.ones(len(Xs[k]), dtype=D), one.R[0].double(), one.T[0].double(), one.s[0].double()))
                    - float(cost(Xs[k], Ys[k], torch.ones(len(Xs[k]), dtype=D), R[k].double(), T[k].double(), s[k].double())))
                < 1e-3 * (1 + float((Ys[k] ** 2).sum())), "batch element on its own")
    c.sig("similarity", dim, scale, reflect, ws is not None, ragged)


@monitor(quick=250, thorough=6000, need=("steps", "ragged", "recovered"))
def icp(c):
    from pytorch3d.ops import iterative_closest_point
    from pytorch3d.ops.points_alignment import SimilarityTransform
    from pytorch3d.structures import Pointclouds
    b = c.i(1, 3)
    dt = torch.float32
    scale = c.p(0.3)
    ragged = c.p(0.6)
    n0 = c.i(8, 40)
    same = c.p(0.4)
    offset = c.pick(0.0, 3.0)
    Xs, Ys, gens = [], [], []
    for k in range(b):
        n = c.i(8, 40) if ragged else n0
        # well separated points, so that the nearest neighbours are the right ones
        X = torch.stack([torch.tensor([i % 4, i // 4 % 4, i // 16], dtype=D) for i in c.perm(64)[:n]]) + c.rand(n, 3, dtype=D, lo=-.1, hi=.1)
        X = X + offset
        R = rotation(c, 3, c.u(0, 4))
        s = c.u(0.97, 1.03) if scale else 1.0
        mid = X.mean(0)
        T = mid - s * mid @ R + c.rand(3, dtype=D, lo=-.1, hi=.1)
        Y = s * X @ R + T
        Y = Y[c.perm(n)]
        if not same:
            extra = Y.max(0)[0] + 5 + c.randn(c.i(1, 6) if ragged else 3, 3, dtype=D)
            Y = torch.cat([Y, extra])
        Xs.append(X); Ys.append(Y); gens.append((R, T, s))
    ragx = len({len(x) for x in Xs}) > 1
    ragy = len({len(x) for x in Ys}) > 1
    wrap = lambda l, r: Pointclouds([x.to(dt) for x in l]) if (r or c.p(0.3)) else torch.stack([x.to(dt) for x in l])
    X_, Y_ = wrap(Xs, ragx), wrap(Ys, ragy)
    if ragged:
        c.count("ragged")
    kw = dict(max_iterations=c.pick(1, 3, 20))
    if scale:
        kw["estimate_scale"] = True
    init = None
    if c.p(0.4):
        init = SimilarityTransform(torch.stack([rotation(c, 3, c.u(0, 2)) for _ in range(b)]).to(dt), c.rand(b, 3, dtype=dt, lo=-.05, hi=.05) - 0.0, torch.ones(b, dtype=dt))
        mids = torch.stack([x.mean(0) for x in Xs]).to(dt)
        init = init._replace(T=init.T + mids - (mids[:, None] @ init.R)[:, 0])
        kw["init_transform"] = init
    sol = iterative_closest_point(X_, Y_, **kw)
    c.check(1 <= len(sol.t_history) <= kw["max_iterations"], "length of the history")
    for p, q in zip(sol.t_history[-1], sol.RTs):
        c.equal(p, q, "RTs is the last of the history")
    proper(c, sol.RTs.R, "icp")
    tol = 1e-8 if dt == D else 1e-4
    Xt = sol.Xt.points_list() if isinstance(X_, Pointclouds) else list(sol.Xt)
    c.check(isinstance(sol.Xt, type(X_)), "type of Xt")
    for k, (X, Y) in enumerate(zip(Xs, Ys)):
        cur = X if init is None else init.s[k].double() * X @ init.R[k].double() + init.T[k].double()
        w = torch.ones(len(X), dtype=D)
        for t in sol.t_history:
            d = torch.cdist(cur, Y)
            near = d.sort(1)[0][:, :2]
            if len(Y) > 1 and float((near[:, 1] - near[:, 0]).min()) < 1e-3:
                break
            nn = Y[d.argmin(1)]
            R, T, s = t.R[k].double(), t.T[k].double(), t.s[k].double()
            best, _ = optimum(X, nn, w, scale, False)
            got = cost(X, nn, w, R, T, s)
            size = float((X - X.mean(0)).pow(2).sum()) + float(X.abs().max()) ** 2 * len(X)
            c.check(float(got) <= float(best) * (1 + 1e-3) + tol ** 2 * 100 * size, "a step of icp is not optimal for the nearest neighbours", got=float(got), want=float(best))
            cur = s * X @ R + T
            rm = (((cur - nn) ** 2).sum(-1).mean()) ** 0.5
            c.count("steps")
        else:
            c.close(sol.rmse[k], rm, "rmse", atol=tol * 50, rtol=1e-3)
            c.close(Xt[k], cur, "Xt", atol=tol * 10)
            if kw["max_iterations"] == 20:
                Rg, Tg, sg = gens[k]
                c.close(sol.RTs.R[k], Rg, "icp: recovered rotation", atol=tol * 100)
                c.close(Xt[k], sg * X @ Rg + Tg, "icp: recovered positions", atol=tol * 100)
                c.count("recovered")
    c.sig("icp", ragx, ragy, scale, init is not None, len(sol.t_history))


@monitor(quick=250, thorough=6000, need=("recovered", "outliers ignored"))
def pnp(c):
    from pytorch3d.ops import efficient_pnp
    b, n = c.i(1, 4), c.i(8, 40)
    x = c.randn(b, n, 3, dtype=D) * c.u(0.7, 2)
    R = torch.stack([rotation(c, 3) for _ in range(b)])
    T = torch.cat([c.rand(b, 2, dtype=D, lo=-1, hi=1), c.rand(b, 1, dtype=D, lo=8, hi=14)], 1)
    xc = x @ R + T[:, None]
    if float(xc[..., 2].min()) < 1:
        return
    off = c.randn(3, dtype=D) * c.pick(0, 2)
    x = x + off
    T = T - (off.expand(b, 1, 3) @ R)[:, 0]
    y = xc[..., :2] / xc[..., 2:]
    kw = {}
    if c.p(0.5):
        w = c.rand(b, n, dtype=D, lo=0.3, hi=1)
        if n > 12 and c.p(0.6):
            y = y.clone(); y[:, :3] += c.randn(b, 3, 2, dtype=D)
            w[:, :3] = 0
            c.count("outliers ignored")
        kw["weights"] = w
    if c.p(0.5):
        kw["skip_quadratic_eq"] = False
    sol = efficient_pnp(x, y, **kw)
    proper(c, sol.R, "pnp")
    c.close(sol.R, R, "pnp: rotation", atol=1e-4)
    c.close(sol.T, T, "pnp: translation", atol=1e-3)
    c.close(sol.x_cam, xc, "pnp: points in camera coordinates", atol=2e-3)
    c.check(float(sol.err_2d.max()) < 1e-4 and float(sol.err_3d.max()) < 1e-4, "pnp: errors")
    k = c.i(0, b - 1)
    one = efficient_pnp(x[k:k + 1], y[k:k + 1], **{a: (v[k:k + 1] if a == "weights" else v) for a, v in kw.items()})
    c.close(one.R[0], sol.R[k], "pnp: batch element on its own", atol=1e-4)
    # errors are the ones of the returned solution
    c.count("recovered", b)
    c.sig("pnp", b, sorted(kw))


@monitor(quick=900, thorough=16000, need=("recovered", "noisy", "reflection nearer"))
def cameras(c):
    from pytorch3d.ops import corresponding_cameras_alignment
    from pytorch3d.renderer import FoVPerspectiveCameras, PerspectiveCameras
    n = c.i(2, 8)
    mode = c.pick("centers", "extrinsics")
    if mode == "centers":
        n = c.i(4, 8)
    R = torch.stack([rotation(c, 3) for _ in range(n)])
    T = c.randn(n, 3, dtype=D) * 2
    RA, TA = rotation(c, 3), c.randn(3, dtype=D)
    scale = c.p(0.7)
    sA = c.u(0.3, 3) if scale else 1.0
    Rt = RA @ R
    Tt = (TA.expand(n, 1, 3) @ R)[:, 0] + T * sA
    noise = c.p(0.4)
    if noise:
        lvl = c.pick(0.1, 3.0)
        if c.p(0.4):
            # rotations that have nothing to do with each other: their mean can be nearer to a reflection
            Rt = torch.stack([rotation(c, 3) for _ in range(n)])
        else:
            Rt = torch.stack([rotation(c, 3, c.u(0, 40 * lvl)) for _ in range(n)]) @ Rt
        Tt = Tt + c.randn(n, 3, dtype=D) * lvl
    cls = c.pick(FoVPerspectiveCameras, PerspectiveCameras)
    src, tgt = cls(R=R.float(), T=T.float()), cls(R=Rt.float(), T=Tt.float())
    kw = {}
    if mode != "extrinsics" or c.p(0.5):
        kw["mode"] = mode
    if not scale or c.p(0.5):
        kw["estimate_scale"] = scale
    out = corresponding_cameras_alignment(src, tgt, **kw)
    c.equal(src.R, R.float(), "the source cameras are modified"); c.equal(src.T, T.float(), "the source cameras are modified")
    proper(c, out.R, "camera alignment")
    if not noise:
        c.close(out.R, Rt, "aligned rotations", atol=1e-3)
        c.close(out.T, Tt, "aligned translations", atol=1e-2)
        c.count("recovered")
    else:
        # the same rigid motion for all cameras
        A = out.R.double() @ R.transpose(1, 2)
        c.close(A, A[:1].expand_as(A), "cameras are not moved together", atol=1e-4)
        c.count("noisy")
        if mode == "centers":
            ctr = lambda a, t: -(t[:, None] @ a.transpose(1, 2))[:, 0]
            X, Y = ctr(R, T), ctr(Rt, Tt)
            w = torch.ones(n, dtype=D)
            best, _ = optimum(X, Y, w, scale, False)
            got = ((out.get_camera_center().double() - Y) ** 2).sum()
            c.check(float(got) < float(best) * 1.01 + 1e-2, "centers are not aligned optimally", got=float(got), want=float(best))
        else:
            # the mean squared deviation of the rotations is minimal
            M = (Rt @ R.transpose(1, 2)).mean(0)
            U, S, Vt = torch.linalg.svd(M)
            d = torch.linalg.det(U @ Vt).sign()
            c.count("reflection nearer", int(d < 0))
            if float(S[1] + d * S[2]) > 0.05 * float(S[0]):
                best = S[0] + S[1] + d * S[2]
                c.check(float((A[0] * M).sum()) > float(best) - 1e-3, "rotations are not aligned optimally", got=float((A[0] * M).sum()), want=float(best))
    c.sig("cameras", mode, scale, noise, cls.__name__)


@monitor(quick=300, thorough=8000, need=("repeated", "generic"))
def eigen(c):
    from pytorch3d.common.workaround import symeig3x3
    n = c.i(1, 5)
    Q = torch.stack([rotation(c, 3) for _ in range(n)])
    kind = c.pick("generic", "repeated", "diagonal", "rank")
    e = c.randn(n, 3, dtype=D)
    if kind == "repeated":
        e[:, 1] = e[:, c.pick(0, 2)]
    elif kind == "rank":
        e[:, :c.i(1, 2)] = 0
    if kind == "diagonal":
        Q = torch.eye(3, dtype=D).expand(n, 3, 3)[:, c.perm(3)]
    k = c.pick(1.0, 1.0, 10.0)
    A = ((Q * e[:, None]) @ Q.transpose(1, 2) * k).float()
    A = (A + A.transpose(1, 2)) / 2
    sh = c.pick((n,), (1, n))
    A = A.reshape(*sh, 3, 3)
    val, vec = symeig3x3(A)
    w = torch.linalg.eigvalsh(A.double())
    tol = 2e-3 * k * 3
    c.close(val, w, "eigenvalues", atol=tol)
    v2, none = symeig3x3(A, eigenvectors=False)
    c.close(v2, val, "eigenvalues alone", atol=1e-5 * k)
    c.check(none is None, "eigenvectors not asked for")
    eye = torch.eye(3, dtype=D)
    c.close(vec.double().transpose(-1, -2) @ vec.double(), eye.expand(*sh, 3, 3), "eigenvectors are not orthonormal", atol=2e-3)
    if kind == "generic":
        gap = (w[..., 1:] - w[..., :-1]).min(-1)[0]
        ok = gap > 0.3 * k
        res = (A.double() @ vec.double() - vec.double() * val.double()[..., None, :]).abs().amax((-1, -2))
        c.check((res[ok] < 2e-2 * k * 3).all(), "A v = e v", got=float(res[ok].max()) if ok.any() else 0)
    c.count(kind)
    c.sig("eigen", kind)
