"""Neighbour searches against exhaustive float64 search."""
import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("batches of 1..4 clouds of 1..40 points (own lengths, including 0), dimension 1..8, L1/L2, K below and above the "
        "number of points, ties and duplicates, scales 1e-3..1e3; padding filled with garbage; distinct = distinct "
        "(lengths, K, norm, dimension, options)")
ASSUMPTIONS = ["which of several equally near (up to float32 rounding) neighbours is returned is left open",
               "clouds are padded to at least one point"]


def cloud(c, n, dim, scale):
    k = c.pick("gauss", "grid", "dups", "line")
    if k == "gauss":
        x = c.randn(n, dim)
    elif k == "grid":
        x = c.randint(-2, 3, (n, dim)).float()
    elif k == "line":
        x = c.randn(n, 1).expand(n, dim) * 1.0
    else:
        x = c.randn(max(n // 2, 1), dim)[c.randint(0, max(n // 2, 1), (n,))]
    return x * scale, k


def batch(c, N, dim, scale, maxp=40, low=0):
    kinds = []
    P = c.pick(1, 2, 3, 7, maxp)
    if c.p(0.3):
        ls = [P] * N
    else:
        ls = [c.i(low, P) for _ in range(N)]
    pts = []
    for n in ls:
        x, k = cloud(c, n, dim, scale)
        pts.append(x); kinds.append(k)
    P = max(P, 1)
    return pts, ls, P, kinds


def padded(c, pts, P, fill):
    out = torch.full((len(pts), P, pts[0].shape[1]), 0.0)
    for i, x in enumerate(pts):
        out[i, :len(x)] = x
        if fill == "nan":
            out[i, len(x):] = float("nan")
        elif fill == "huge":
            out[i, len(x):] = 1e10
        elif fill == "near" and len(x):
            out[i, len(x):] = x.mean(0)
        elif fill == "rand":
            out[i, len(x):] = c.randn(P - len(x), x.shape[1])
    return out


def strided(c, t):
    k = c.i(0, 3)
    if k == 0:
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    if k == 1:
        return torch.cat([t, t + 1], -1)[..., :t.shape[-1]]
    return t


def pair(a, b, norm):
    d = a.double()[:, None] - b.double()[None]
    return d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)


@monitor(quick=2500, thorough=60000, need=("queries", "short", "K>P", "L1", "gather", "dups", "empty"))
def knn(c):
    from pytorch3d.ops import knn_gather, knn_points
    N, dim, norm = c.i(1, 4), c.pick(1, 2, 3, 3, 3, 5, 8), c.pick(2, 2, 1)
    scale = c.pick(1.0, 1.0, 1e-3, 1e3)
    p1, l1, P1, _ = batch(c, N, dim, scale)
    p2, l2, P2, kinds = batch(c, N, dim, scale)
    K = c.pick(1, 1, 2, 3, 5, P2, P2 + 3, 12)
    fill = c.pick("nan", "huge", "near", "rand")
    a, b = strided(c, padded(c, p1, P1, fill)), strided(c, padded(c, p2, P2, fill))
    kw = {}
    if not (set(l1) == {P1} and c.p(0.5)):
        kw["lengths1"] = torch.tensor(l1)
    if not (set(l2) == {P2} and c.p(0.5)):
        kw["lengths2"] = torch.tensor(l2)
    if norm == 1 or c.p(0.3):
        kw["norm"] = norm
    srt = c.p(0.8)
    if not srt:
        kw["return_sorted"] = False
    if c.p(0.2):
        kw["version"] = c.i(-1, 3)
    nn = c.p(0.6)
    a0, b0 = a.clone(), b.clone()
    o = knn_points(a, b, K=K, return_nn=nn, **kw)
    c.equal(tuple(o.dists.shape), (N, P1, K), "shape of dists")
    c.equal(tuple(o.idx.shape), (N, P1, K), "shape of idx")
    if not nn:
        c.check(o.knn is None, "neighbours returned though not asked for")
    else:
        c.equal(tuple(o.knn.shape), (N, P1, K, dim), "shape of nn")
    for i in range(N):
        m = min(K, l2[i])
        dd = pair(p1[i], p2[i], norm)
        g, ix = o.dists[i], o.idx[i]
        c.check(bool((g[l1[i]:] == 0).all() and (g[:, m:] == 0).all()), "padded distances are not zero", dists=g, lens=(l1[i], l2[i]))
        c.check(bool((ix[l1[i]:] == 0).all() and (ix[:, m:] == 0).all()), "padded indices are not zero", idx=ix)
        if not l1[i] or not m:
            c.count("empty")
            if nn:
                c.check(bool((o.knn[i][:, m:] == 0).all()), "padded neighbours are not zero")
            continue
        g, ix = g[:l1[i], :m], ix[:l1[i], :m]
        c.check(bool(((ix >= 0) & (ix < l2[i])).all()), "an index outside the cloud", idx=ix, n=l2[i])
        s = ix.sort(-1)[0]
        c.check(bool((s[:, 1:] > s[:, :-1]).all()), "a neighbour listed twice", idx=ix)
        big = max(float(p1[i].abs().max()), float(p2[i].abs().max()))
        # float32 differences and sums: relative error only, plus nothing absolute for exact inputs
        at = dd.gather(1, ix)
        c.close(g, at, "distance to the listed neighbour", atol=1e-30, rtol=2e-6 * dim)
        want = dd.sort(-1)[0][:, :m]
        got = g if srt else g.sort(-1)[0]
        c.close(got, want, "the K smallest distances", atol=1e-30, rtol=2e-6 * dim, K=K, lens=(l1[i], l2[i]), big=big)
        c.check(bool((g[:, 1:] >= g[:, :-1]).all()) or not srt, "distances not ascending", dists=g)
        if nn:
            c.equal(o.knn[i][:l1[i], :m], p2[i][ix], "neighbours")
            c.check(bool((o.knn[i][:, m:] == 0).all()), "padded neighbours are not zero", nn=o.knn[i])
        c.count("queries", l1[i]); c.count("short", m < K); c.count("dups", kinds[i] == "dups")
    c.count("L1", norm == 1); c.count("K>P", K > P2)
    c.check(torch.equal(a.nan_to_num(7.0), a0.nan_to_num(7.0)) and torch.equal(b.nan_to_num(7.0), b0.nan_to_num(7.0)), "inputs modified")
    c.sig(tuple(l1), tuple(l2), K, norm, dim, fill, srt)
    # gathering other values with the indices
    U = c.i(1, 4)
    f = c.randn(N, P2, U)
    got = knn_gather(f, o.idx, torch.tensor(l2)) if c.p(0.8) or set(l2) != {P2} else knn_gather(f, o.idx)
    c.equal(tuple(got.shape), (N, P1, K, U), "shape of the gathered values")
    for i in range(N):
        m = min(K, l2[i])
        c.equal(got[i, :, :m], f[i][o.idx[i, :, :m]], "gathered values")
        c.check(bool((got[i, :, m:] == 0).all()), "values gathered for missing neighbours are not zero")
    c.count("gather")
    if c.p(0.1):
        c.raises(ValueError, lambda: knn_points(a, b[:, :, :1].repeat(1, 1, dim + 1), K=K), "points of another dimension accepted")
        c.raises(ValueError, lambda: knn_points(a, torch.cat([b, b]), K=K), "another batch size accepted")
        c.raises(ValueError, lambda: knn_points(a, b, K=K, norm=3), "norm 3 accepted")


@monitor(quick=1500, thorough=30000, need=("queries", "full", "none", "cube", "nn"))
def ball(c):
    from pytorch3d.ops import ball_query
    N, dim = c.i(1, 4), c.pick(1, 2, 3, 3, 6)
    scale = c.pick(1.0, 1.0, 0.1, 30.0)
    p1, l1, P1, _ = batch(c, N, dim, scale)
    p2, l2, P2, _ = batch(c, N, dim, scale)
    K = c.pick(1, 2, 3, 8, 50)
    r = scale * c.pick(0.2, 0.5, 1.0, 3.0, 1e-4) * c.u(0.9, 1.1)
    fill = c.pick("nan", "huge", "near", "rand")
    a, b = strided(c, padded(c, p1, P1, fill)), strided(c, padded(c, p2, P2, fill))
    kw = {}
    if not (set(l1) == {P1} and c.p(0.5)):
        kw["lengths1"] = torch.tensor(l1)
    if not (set(l2) == {P2} and c.p(0.5)):
        kw["lengths2"] = torch.tensor(l2)
    cube = c.p(0.4)
    if cube:
        kw["skip_points_outside_cube"] = True
    nn = c.p(0.6)
    o = ball_query(a, b, K=K, radius=r, return_nn=nn, **kw)
    c.equal(tuple(o.dists.shape), (N, P1, K), "shape of dists")
    if not nn:
        c.check(o.knn is None, "neighbours returned though not asked for")
    for i in range(N):
        c.check(bool((o.idx[i, l1[i]:] == -1).all() and (o.dists[i, l1[i]:] == 0).all()), "rows beyond the cloud are not padding")
        dd = pair(p1[i], p2[i], 2)
        tol = 4e-6 * r * r
        ax = (p1[i].double()[:, None] - p2[i].double()[None]).abs()
        for q in range(l1[i]):
            got = [int(x) for x in o.idx[i, q]]
            m = next((k for k, x in enumerate(got) if x < 0), K)
            c.check(all(x == -1 for x in got[m:]), "padding inside the list", idx=got)
            c.check(bool((o.dists[i, q, m:] == 0).all()), "padded distances are not zero")
            got = got[:m]
            c.check(all(y > x for x, y in zip(got, got[1:])), "neighbours not in index order", idx=got)
            c.check(all(x < l2[i] for x in got), "a neighbour outside the cloud", idx=got)
            must = [j for j in range(l2[i]) if dd[q, j] < r * r - tol]
            may = {j for j in range(l2[i]) if dd[q, j] < r * r + tol}
            c.check(set(got) <= may, "a neighbour outside the radius", idx=got, r=r, d=dd[q])
            if m < K:
                c.check(set(must) <= set(got), "a point inside the radius is missing", idx=got, must=must, r=r)
            elif m:
                c.check({j for j in must if j <= got[-1]} <= set(got), "not the first points inside the radius", idx=got, must=must)
            if m:
                c.close(o.dists[i, q, :m], dd[q][got], "distance to the listed neighbour", atol=1e-30, rtol=2e-6 * dim)
            if nn:
                c.equal(o.knn[i, q, :m], p2[i][got], "neighbours")
                c.check(bool((o.knn[i, q, m:] == 0).all()), "padded neighbours are not zero")
                c.count("nn")
            c.count("queries"); c.count("full", m == K); c.count("none", m == 0)
    c.count("cube", cube)
    c.sig(tuple(l1), tuple(l2), K, dim, cube, fill)


@monitor(quick=1500, thorough=30000, need=("steps", "short", "random", "ownK", "empty", "naive"))
def farthest(c):
    from pytorch3d.ops import sample_farthest_points
    from pytorch3d.ops.sample_farthest_points import sample_farthest_points_naive
    N, dim = c.i(1, 4), c.pick(1, 2, 3, 3, 6)
    scale = c.pick(1.0, 1.0, 1e-2, 30.0)
    pts, ls, P, kinds = batch(c, N, dim, scale)
    fill = c.pick("nan", "huge", "near", "rand")
    x = strided(c, padded(c, pts, P, fill))
    kk = c.pick("int", "list", "tensor")
    Ks = [c.i(0 if c.p(0.1) else 1, c.pick(3, P + 2, 20)) for _ in range(N)]
    if kk == "int" or max(Ks) == 0:
        Ks = [max(Ks[0], 1)] * N
    K = {"int": Ks[0], "list": Ks, "tensor": torch.tensor(Ks)}[kk]
    rs = c.p(0.4)
    kw = dict(random_start_point=True) if rs else {}
    if not (set(ls) == {P} and c.p(0.6)):
        kw["lengths"] = torch.tensor(ls)
        if c.p(0.1):
            kw["lengths"] = kw["lengths"].int()
    for name, fn in (("native", sample_farthest_points), ("naive", sample_farthest_points_naive)):
        sel, idx = fn(x, K=K, **kw)
        c.equal(tuple(idx.shape), (N, max(Ks)), f"{name}: shape of the indices")
        c.equal(tuple(sel.shape), (N, max(Ks), dim), f"{name}: shape of the points")
        for i in range(N):
            m = min(ls[i], Ks[i])
            g = [int(q) for q in idx[i]]
            c.check(all(q == -1 for q in g[m:]), f"{name}: padding of the indices", idx=g, m=m)
            c.check(bool((sel[i, m:] == 0).all()), f"{name}: padding of the points")
            g = g[:m]
            if not m:
                c.count("empty")
                continue
            c.check(all(0 <= q < ls[i] for q in g), f"{name}: an index outside the cloud", idx=g, n=ls[i])
            c.equal(sel[i, :m], pts[i][g], f"{name}: selected points")
            if not rs:
                c.equal(g[0], 0, f"{name}: first point")
            dd = pair(pts[i], pts[i], 2)
            near = dd[g[0]].clone()
            for k in range(1, m):
                best = float(near.max())
                c.check(float(near[g[k]]) >= best * (1 - 2e-6 * dim) - 1e-30,
                        f"{name}: step {k} did not take the farthest point", idx=g, got=float(near[g[k]]), best=best)
                near = torch.minimum(near, dd[g[k]])
                c.count("steps")
        c.count(name)
    c.count("random", rs); c.count("ownK", len(set(Ks)) > 1); c.count("short", any(a < b for a, b in zip(ls, Ks)))
    c.sig(tuple(ls), tuple(Ks), dim, kk, rs, tuple(kinds))
    if rs and ls[0] >= 7 and Ks[0] == 1:
        first = {int(sample_farthest_points(x, K=K, **kw)[1][0, 0]) for _ in range(40)}
        c.check(len(first) > 1, "random_start_point always starts at the same point")
    if c.p(0.1):
        c.raises(ValueError, lambda: sample_farthest_points(x, lengths=torch.full((N,), P + 1), K=1), "lengths beyond the padding accepted")
        c.raises(ValueError, lambda: sample_farthest_points(x, lengths=torch.full((N + 1,), 1), K=1), "lengths of another batch accepted")
        c.raises(ValueError, lambda: sample_farthest_points(x, K=[1] * (N + 1)), "K of another batch accepted")


@monitor(quick=200, thorough=8000, need=("3d", "2d", "masked"))
def gather(c):
    from pytorch3d.ops.utils import masked_gather
    N, P, dim = c.i(1, 4), c.i(1, 9), c.i(1, 5)
    x = c.randn(N, P, dim)
    shp = (N, c.i(1, 6), c.i(1, 4)) if c.p(0.5) else (N, c.i(1, 9))
    idx = c.randint(-1, P, shp)
    i0 = idx.clone()
    out = masked_gather(x, idx)
    c.equal(tuple(out.shape), (*shp, dim), "shape")
    for i in range(N):
        want = x[i][idx[i].clamp(min=0)] * (idx[i] >= 0)[..., None]
        c.equal(out[i], want, "gathered values")
    c.equal(idx, i0, "indices modified")
    c.count("3d" if len(shp) == 3 else "2d"); c.count("masked", int((idx < 0).sum()))
    c.sig(shp, P, dim)


@monitor(quick=800, thorough=20000, need=("knn", "ball", "gathered", "short", "L1", "padding", "farthest"))
def gradients(c):
    from pytorch3d.ops import ball_query, knn_gather, knn_points, sample_farthest_points
    N, dim = c.i(1, 3), c.pick(1, 2, 3, 3, 5)
    P1, P2, K = c.i(1, 12), c.i(1, 12), c.pick(1, 2, 4, 14)
    full = c.p(0.2)
    l1 = [P1 if full else c.i(0, P1) for _ in range(N)]
    l2 = [P2 if full else c.i(0, P2) for _ in range(N)]
    p1, p2 = [c.randn(n, dim) for n in l1], [c.randn(n, dim) for n in l2]
    fill = c.pick("huge", "near", "rand")
    a, b = padded(c, p1, P1, fill).requires_grad_(), padded(c, p2, P2, fill).requires_grad_()
    kind = c.pick("knn", "knn", "ball", "farthest")
    norm = c.pick(2, 2, 1) if kind == "knn" else 2
    kw = {} if full else dict(lengths1=torch.tensor(l1), lengths2=torch.tensor(l2))
    nn = c.p(0.4)
    if kind == "farthest":
        sel, idx = sample_farthest_points(b, lengths=None if full else torch.tensor(l2), K=K)
        g = c.randn(*sel.shape)
        sel.backward(g)
        want = torch.zeros(N, P2, dim, dtype=D)
        for i in range(N):
            for k, j in enumerate(idx[i].tolist()):
                if j >= 0:
                    want[i, j] += g[i, k].double()
        c.close(b.grad, want, "gradient of the selected points", atol=1e-5, rtol=1e-5)
        c.count("farthest"); c.sig("farthest", tuple(l2), K)
        return
    if kind == "knn":
        o = knn_points(a, b, K=K, norm=norm, return_nn=nn, return_sorted=c.p(0.8), **kw)
    else:
        o = ball_query(a, b, K=K, radius=c.u(0.3, 3), return_nn=nn, **kw)
    g = c.randn(*o.dists.shape)
    loss = (o.dists * g).sum()
    f, gn, gf = None, None, None
    if nn:
        gn = c.randn(*o.knn.shape)
        loss = loss + (o.knn * gn).sum()
    if kind == "knn" and c.p(0.4):
        f = c.randn(N, P2, 2).requires_grad_()
        gf = c.randn(N, P1, K, 2)
        loss = loss + (knn_gather(f, o.idx, torch.tensor(l2)) * gf).sum()
        c.count("gathered")
    loss.backward()
    A, B = a.detach().double().requires_grad_(), b.detach().double().requires_grad_()
    F_ = f.detach().double().requires_grad_() if f is not None else None
    ref = A.sum() * 0 + B.sum() * 0 + (F_.sum() * 0 if f is not None else 0)
    gap = []
    for i in range(N):
        for q in range(l1[i]):
            ix = o.idx[i, q].tolist()
            m = min(K, l2[i]) if kind == "knn" else sum(x >= 0 for x in ix)
            if not m:
                continue
            d = A[i, q] - B[i][ix[:m]]
            gap.append(float(d.abs().min()))
            ref = ref + ((d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)) * g[i, q, :m].double()).sum()
        m = min(K, l2[i])
        for q in range(P1):
            ix = o.idx[i, q].tolist()
            for k in range(K):
                live = k < m if kind == "knn" else ix[k] >= 0
                if live and nn:
                    ref = ref + (B[i, ix[k]] * gn[i, q, k].double()).sum()
                if live and f is not None:
                    ref = ref + (F_[i, ix[k]] * gf[i, q, k].double()).sum()
    ref.backward()
    if norm == 1 and gap and min(gap) < 1e-6:
        return
    for t, w, name, ls in ((a, A, "queries", l1), (b, B, "cloud", l2)):
        t = torch.zeros_like(t) if t.grad is None else t.grad
        c.close(t, w.grad, f"gradient of {kind} distances by the {name}", atol=3e-5, rtol=1e-5, K=K, norm=norm, l1=l1, l2=l2)
        for i, n in enumerate(ls):
            if name == "cloud" or not nn:
                c.check(bool((t[i, n:] == 0).all()), "padding receives a gradient")
                c.count("padding", t.shape[1] - n)
    if f is not None:
        c.close(f.grad, F_.grad, "gradient of the gathered values", atol=3e-5, rtol=1e-5)
    c.count(kind); c.count("L1", norm == 1); c.count("short", any(n < K for n in l2))
    c.sig(kind, tuple(l1), tuple(l2), K, norm, nn, f is not None)
