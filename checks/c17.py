"""Point rasterization and compositing against brute force in float64."""
import torch
from checks.c13 import make, project, to_ndc
from lib.harness import monitor
from lib.raster import D, pixel_centres

RULE = ("cloud batches (dense, sparse, coincident depths, on pixel centres, behind the camera, empty) x image sizes x radius (float, list, tensor per point, strided) x points per pixel, direct, python version, "
        "through cameras and PointsRenderer; compositing of random index lists with gaps x alphas with exact 0 and 1 x backgrounds; distinct = distinct (settings, batch composition)")
ASSUMPTIONS = ["where float32 rounding decides whether a pixel centre lies in a disc, either answer is accepted"]


def judge(c, out, pts, rad, first, H, W, K, what, cerr=3e-7, **info):
    idx, zbuf, d = out
    N = len(pts)
    c.check(tuple(idx.shape) == tuple(zbuf.shape) == tuple(d.shape) == (N, H, W, K), f"{what}: shapes {tuple(idx.shape)}", **info)
    px, py = pixel_centres(H, W)
    for n in range(N):
        f = idx[n].long()
        empty = f < 0
        c.check(bool((f[empty] == -1).all() and (zbuf[n][empty] == -1).all() and (d[n][empty] == -1).all()), f"{what}: an empty slot is not -1", n=n, **info)
        c.check(not bool((empty[..., :-1] & ~empty[..., 1:]).any()), f"{what}: a filled slot after an empty one", n=n, **info)
        P = len(pts[n])
        local = f - first[n]
        c.check(bool(((local >= 0) & (local < P) | empty).all()), f"{what}: image {n} lists a point of another cloud", **info)
        if not P:
            continue
        p, r = pts[n].double(), rad[n].double()
        dx, dy = p[:, 0] - px[..., None], p[:, 1] - py[..., None]
        d2 = dx * dx + dy * dy
        ext = p[:, :2].abs().amax(1) + max(H, W) / min(H, W)
        derr = 6 * cerr * ext * d2.sqrt() + (3 * cerr * ext) ** 2 + 1e-6 * d2 + 1e-12
        z = p[:, 2]
        zerr = cerr * (1 + z.abs())
        yes = (d2 < r * r - derr - 1e-6 * r * r) & (z > zerr)
        no = (d2 > r * r + derr + 1e-6 * r * r) | (z < -zerr) | (r == 0)
        ix = local.clamp(min=0)
        seen = torch.zeros(H, W, P, dtype=torch.int64).scatter_add(2, ix, (~empty).long())
        c.check(bool((seen <= 1).all()), f"{what}: a point is listed twice", **info)
        bad = (seen > 0) & no
        if bool(bad.any()):
            y, x, k = torch.nonzero(bad)[0].tolist()
            c.fail(f"{what}: image {n} pixel ({y},{x}) lists point {k} at squared distance {float(d2[y, x, k]):.4g} (radius {float(r[k]):.4g}, z {float(z[k]):.4g})", **info)
        full = ~empty[..., -1]
        zl = torch.where(full, zbuf[n][..., -1].double(), torch.full((H, W), float("inf"), dtype=D))[..., None]
        miss = yes & (seen == 0) & (z < zl - 2 * zerr)
        if bool(miss.any()):
            y, x, k = torch.nonzero(miss)[0].tolist()
            c.fail(f"{what}: image {n} pixel ({y},{x}) does not list point {k} (squared distance {float(d2[y, x, k]):.4g}, radius {float(r[k]):.4g}, z {float(z[k]):.4g}); "
                   f"lists {f[y, x].tolist()} at {zbuf[n, y, x].tolist()}", **info)
        c.check(bool(((zbuf[n][..., 1:] >= zbuf[n][..., :-1]) | empty[..., 1:]).all()), f"{what}: depths not ascending", **info)
        v = ~empty
        c.close(zbuf[n][v], z[ix][v], f"{what}: depth", atol=2 * zerr[ix][v], rtol=1e-6, **info)
        c.close(d[n][v], d2.gather(2, ix)[v], f"{what}: squared distance", atol=derr.gather(2, ix)[v], rtol=1e-5, **info)
        c.count("fragments", v.sum())
        c.count("overfull", int((yes.sum(-1) > K).sum()))
        c.count("behind", int((z < 0).sum()))


def cloud(c):
    k = c.pick("random", "random", "dense", "samez", "grid", "behind", "dup", "empty", "far")
    if k == "empty":
        return k, torch.zeros(0, 3)
    P = c.i(1, 25)
    v = torch.cat([c.randn(P, 2) * 0.7, c.rand(P, 1, lo=0.1, hi=6)], 1)
    if k == "dense":
        v[:, :2] *= 0.2
    if k == "samez":
        v[:, 2] = c.pick(1.0, 2.5)
    if k == "grid":
        v[:, :2] = torch.round(v[:, :2] * 4) / 4
    if k == "behind":
        v[:, 2] = (c.randint(0, 2, (P,)).float() * 2 - 1) * v[:, 2]
    if k == "dup":
        v = torch.cat([v, v[: c.i(1, P)]])
    if k == "far":
        v[:, :2] *= 6
    return k, v


def radii(c, clouds):
    """-> (argument, list of per-point radii, form)"""
    N, P = len(clouds), max(len(v) for v in clouds)
    k = c.pick("float", "float", "zero", "tensor", "tensor", "strided", "list")
    if k in ("float", "zero") or P == 0:
        r = 0.0 if k == "zero" else c.u(0.02, 0.8)
        return r, [torch.full((len(v),), r) for v in clouds], "float"
    t = c.rand(N, P, lo=0.0, hi=0.8)
    if c.p(0.2):
        t[:, 0] = 0
    per = [t[n, : len(v)] for n, v in enumerate(clouds)]
    if k == "strided":
        t = t.T.contiguous().T
    if k == "list":
        t = t.tolist()
    return t, per, k


def settings(c):
    return c.pick((6, 6), (1, 1), (c.i(1, 9), c.i(1, 9)), (12, 5), (5, 13)) + (c.i(1, 8),)


@monitor(quick=2500, thorough=100000, need=("fragments", "overfull", "behind", "python", "per_point"))
def direct(c):
    from pytorch3d.renderer.points.rasterize_points import rasterize_points, rasterize_points_python
    from pytorch3d.structures import Pointclouds
    parts = [cloud(c) for _ in range(c.i(1, 3))]
    V = [p[1] for p in parts]
    if not sum(map(len, V)):
        return
    arg, per, form = radii(c, V)
    H, W, K = settings(c)
    py = c.p(0.02)
    if py:
        H, W = min(H, 4), min(W, 4)
    fn = rasterize_points_python if py else rasterize_points
    size = c.pick(H, (H, W)) if H == W else (H, W)
    info = dict(form=form, kinds=[p[0] for p in parts], python=py)
    out = fn(Pointclouds(V), image_size=size, radius=arg, points_per_pixel=K)
    first = [sum(map(len, V[:n])) for n in range(len(V))]
    judge(c, out, V, per, first, H, W, K, fn.__name__, **info)
    c.count("python", py)
    c.count("per_point", form != "float")
    c.sig(tuple(info["kinds"]), H, W, K, form, py)


def ref_composite(mode, idx, alpha, feat):
    """idx, alpha: (N,K,H,W); feat (C,P) -> (N,C,H,W) in float64"""
    a = alpha.double() * (idx >= 0)
    f = feat.double()[:, idx.clamp(min=0)].permute(1, 2, 0, 3, 4)  # N,K,C,H,W
    if mode == "alpha":
        T = torch.cumprod(1 - a, 1)
        T = torch.cat([torch.ones_like(T[:, :1]), T[:, :-1]], 1)
        w = a * T
    elif mode == "wsum":
        w = a
    else:
        w = a / a.sum(1, keepdim=True).clamp(min=1e-4)
    return (w[:, :, None] * f).sum(1)


def fragments(c, P):
    N, K, H, W = c.i(1, 3), c.i(1, 5), c.i(1, 6), c.i(1, 6)
    idx = c.randint(0, P, (N, K, H, W))
    k = c.pick("tail", "gaps", "none", "full")
    if k == "tail":
        n = c.randint(0, K + 1, (N, 1, H, W))
        idx[torch.arange(K)[None, :, None, None] >= n] = -1
    if k == "gaps":
        idx[c.rand(N, K, H, W) < 0.5] = -1
    if k == "none":
        idx[:] = -1
    a = c.rand(N, K, H, W)
    a[c.rand(N, K, H, W) < 0.2] = 0
    a[c.rand(N, K, H, W) < 0.2] = 1
    if c.p(0.2):
        a *= 1e-5
    return k, idx, a


def background(c, img, idx, bg):
    bg = torch.as_tensor(bg).float()
    Cn = img.shape[1]
    if bg.ndim == 0:
        bg = bg.expand(Cn)
    if len(bg) + 1 == Cn:
        bg = torch.cat([bg, torch.ones(1)])
    m = (idx < 0).all(1)
    return torch.where(m[:, None], bg.double()[None, :, None, None], img)


@monitor(quick=3000, thorough=150000, need=("gaps", "tail", "none", "background", "strided"))
def compositing(c):
    from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
    from pytorch3d.renderer import AlphaCompositor, NormWeightedCompositor
    P, Cn = c.i(1, 12), c.i(1, 5)
    feat = c.randn(Cn, P)
    k, idx, a = fragments(c, P)
    strided = c.p(0.4)
    fi, fa, ff = idx, a, feat
    if strided:
        fi = idx.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        fa = a.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        ff = feat.T.contiguous().T
    mode = c.pick("alpha", "norm", "wsum", "AlphaCompositor", "NormWeightedCompositor")
    info = dict(mode=mode, gaps=k)
    if mode in ("alpha", "norm", "wsum"):
        fn = {"alpha": alpha_composite, "norm": norm_weighted_sum, "wsum": weighted_sum}[mode]
        got = fn(fi, fa, ff)
        want = ref_composite(mode, idx, a, feat)
    else:
        if k == "gaps":  # compositors take the first slot of a pixel as its fill indicator
            s, o = torch.sort((idx < 0).int(), dim=1, stable=True)
            idx, a = idx.gather(1, o), a.gather(1, o)
            fi, fa = idx, a
        cls = {"AlphaCompositor": AlphaCompositor, "NormWeightedCompositor": NormWeightedCompositor}[mode]
        bg = c.pick(None, c.u(), c.rand(Cn).tolist(), c.rand(Cn), tuple(c.rand(Cn).tolist()))
        if Cn == 4 and c.p(0.5):
            bg = c.rand(3)
        if c.p(0.5):
            got = cls(background_color=bg)(fi, fa, ff)
        else:
            got = cls(background_color=(0.5,) * Cn)(fi, fa, ff, background_color=bg)
        want = ref_composite("alpha" if cls is AlphaCompositor else "norm", idx, a, feat)
        if bg is not None:
            want = background(c, want, idx, bg)
            c.count("background")
    c.close(got, want, f"{mode}", atol=1e-5, rtol=1e-4, **info)
    c.equal(fi, idx, "indices changed by compositing", **info)
    c.count(k)
    c.count("strided", strided)
    c.sig(mode, k, idx.shape, Cn, P, strided)


@monitor(quick=900, thorough=40000, need=("fragments", "render", "per_point_render", "fovp", "persp", "ortho", "fovo"))
def renderer(c):
    from pytorch3d.renderer import AlphaCompositor, NormWeightedCompositor, PointsRasterizationSettings, PointsRasterizer, PointsRenderer
    from pytorch3d.structures import Pointclouds
    N = c.i(1, 3)
    o = make(c, n=c.pick(1, N))
    H, W, K = settings(c)
    V, ndcs = [], []
    for n in range(N):
        b = min(n, o.n - 1)
        P = 0 if c.p(0.1) else c.i(1, 20)
        v = c.randn(P, 3) * 0.5
        v[:, 2] += c.u(2, 5)
        v[:, 2] = v[:, 2].clamp(min=0.3)
        v = ((v.double() - o.T[b]) @ o.R[b].T).float()
        view = v.double() @ o.R[b] + o.T[b]
        sub = type(o)()
        sub.__dict__.update(o.__dict__)
        for k in ("K", "image"):
            if getattr(o, k, None) is not None:
                setattr(sub, k, getattr(o, k)[b:b + 1])
        x = to_ndc(sub, project(o.K[b:b + 1], view[None]))[0]
        V.append(v), ndcs.append(torch.cat([x[:, :2], view[:, 2:]], 1))
    if not sum(map(len, V)):
        return
    arg, per, form = radii(c, V)
    if form == "float" and arg == 0.0:
        arg = 0.1
        per = [torch.full((len(v),), 0.1) for v in V]
    rs = PointsRasterizationSettings(image_size=(H, W), radius=arg, points_per_pixel=K)
    late = c.p(0.3)  # settings and cameras given to forward
    r = PointsRasterizer(raster_settings=None if late else rs, cameras=None if late else o.real)
    kw = dict(cameras=o.real, raster_settings=rs) if late else {}
    Cn = c.i(1, 4)
    pc = Pointclouds(V, features=[c.randn(len(v), Cn) for v in V])
    fr = r(pc, **kw)
    pp = float(o.K[:, :2, :].abs().max()) / float(min(o.K[:, 0, 0].abs().min(), o.K[:, 1, 1].abs().min()))
    info = dict(form=form, late=late, forms=o.forms)
    first = [sum(map(len, V[:n])) for n in range(N)]
    judge(c, (fr.idx, fr.zbuf, fr.dists), ndcs, per, first, H, W, K, "PointsRasterizer", cerr=2e-6 * (1 + pp), **info)
    mode = c.pick("alpha", "norm")
    bg = c.pick(None, tuple(c.rand(Cn).tolist()))
    img = PointsRenderer(rasterizer=r, compositor=(AlphaCompositor if mode == "alpha" else NormWeightedCompositor)(background_color=bg))(pc, **kw)
    idx = fr.idx.long().permute(0, 3, 1, 2)
    R = torch.cat(per).double()[idx.clamp(min=0)]
    w = torch.where(idx >= 0, 1 - fr.dists.double().permute(0, 3, 1, 2) / (R * R).clamp(min=1e-12), torch.zeros_like(R))
    want = ref_composite(mode, idx, w, pc.features_packed().T)
    if bg is not None:
        want = background(c, want, idx, bg)
    atol = torch.full(want.shape, 1e-4, dtype=D)
    if mode == "norm":  # weights cancel at the rim of a disc, and the sum of weights divides
        atol = atol + 1e-6 * K * float(pc.features_packed().abs().max()) / w.sum(1, keepdim=True).clamp(min=1e-4)
    c.close(img, want.permute(0, 2, 3, 1), f"PointsRenderer image ({mode})", atol=atol.permute(0, 2, 3, 1), rtol=1e-3, radius=arg, **info)
    c.count("render")
    c.count("per_point_render", form != "float")
    c.count(o.model)
    c.sig(*o.forms, H, W, K, form, late, mode)
