"""Point-to-surface distances and the chamfer loss against exhaustive float64 geometry."""
import torch
from checks.c23 import padded
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("batches of 1..4 meshes (soups of 0..12 triangles, some degenerate or tiny) and clouds (0..12 points, on, near, over, "
        "beside and far from the primitives), empty items in any position; chamfer over every reduction, weight, norm and "
        "direction with padded, ragged and Pointclouds inputs; distinct = distinct (sizes, options)")
ASSUMPTIONS = ["triangles below min_triangle_area count as their edges, as documented",
               "an element where only one of the two sides is empty has no defined point-to-mesh distance",
               "normals are judged where the nearest neighbour is unique"]


def seg_d(p, a, b):
    """p (P,1,3), a, b (S,3) -> (P,S) squared"""
    ab = b - a
    L = (ab * ab).sum(-1)
    t = (((p - a) * ab).sum(-1) / L.clamp(min=1e-300)).clamp(0, 1)
    t = torch.where(L > 0, t, torch.zeros_like(t))
    q = a + t[..., None] * ab
    return (p - q).pow(2).sum(-1)


def tri_d(p, t, min_area):
    """-> lower and upper acceptable squared distance (P,T)"""
    a, b, d = t.unbind(1)
    e = torch.stack([seg_d(p, a, b), seg_d(p, a, d), seg_d(p, b, d)]).min(0)[0]
    u, v, w = b - a, d - a, p - a
    n = torch.linalg.cross(u, v)
    area = 0.5 * n.norm(dim=-1)
    nn = n / n.norm(dim=-1, keepdim=True).clamp(min=1e-300)
    h = (w * nn).sum(-1)
    d00, d01, d11 = (u * u).sum(-1), (u * v).sum(-1), (v * v).sum(-1)
    d20, d21 = (w * u).sum(-1), (w * v).sum(-1)
    den = (d00 * d11 - d01 ** 2).clamp(min=1e-300)
    w1, w2 = (d11 * d20 - d01 * d21) / den, (d00 * d21 - d01 * d20) / den
    w0 = 1 - w1 - w2
    inside = (w0 >= 0) & (w1 >= 0) & (w2 >= 0) & (area > 0)
    true = torch.where(inside, torch.minimum(h * h, e), e)
    small, large = area < min_area * (1 - 1e-3), area > min_area * (1 + 1e-3)
    lo = torch.where(small, e, true)
    hi = torch.where(large, true, e)
    # float32: position errors of 1e-6 of the coordinates, the barycentric test being ill-conditioned for slivers
    m = torch.maximum(p.abs().amax(-1), t.abs().amax((1, 2)))
    edge = torch.stack([d00, d11, (d - b).pow(2).sum(-1)]).max(0)[0].sqrt()
    far = (p - a).norm(dim=-1)
    slope = (edge * edge / (2 * area).clamp(min=1e-300))
    dn = (1e-6 * m * edge / (2 * area).clamp(min=1e-300) + 2e-8 / (2 * area).clamp(min=1e-300)).clamp(max=1.0)
    tol_h = 2 * h.abs() * (3e-6 * m + dn * far) + (3e-6 * m + dn * far) ** 2
    x = 2e-6 * (1 + slope) ** 2 * (far + edge)  # how far outside a point may be taken for inside
    tol_b = torch.where(small, torch.zeros_like(x), x * x * 4)
    base = 4e-6 * m * hi.sqrt() + (4e-6 * m) ** 2 + 2e-6 * hi
    # a triangle taken for outside uses its edges: hi there
    edge_near = (torch.minimum(torch.minimum(w0.abs(), w1.abs()), w2.abs()) < 1e-5 * (1 + slope) ** 2 * (1 + far / edge.clamp(min=1e-30))) & ~small
    hi = torch.where(edge_near, torch.minimum(e, true + 4 * x * x + 2 * x * true.sqrt()), hi)
    return (lo - base - torch.where(small, 0 * tol_h, tol_h + tol_b)).clamp(min=0), \
        hi + base + torch.where(small, 0 * tol_h, tol_h + tol_b)


def scene(c, N, scale, low=0):
    """-> meshes [(verts, faces)], clouds; empties come in pairs"""
    from lib import gen
    ms, ps = [], []
    for _ in range(N):
        if c.p(0.15) and not low:
            ms.append((torch.zeros(0, 3), torch.zeros(0, 3, dtype=torch.long)))
            ps.append(torch.zeros(0, 3))
            continue
        V, F = c.i(3, 10), c.i(1, 12)
        v = c.randn(V, 3) * scale
        if c.p(0.2):
            v[:, 2] = 0.5 * scale
        f = torch.stack([torch.tensor(c.perm(V)[:3]) for _ in range(F)])
        if c.p(0.2):
            v[c.i(0, V - 1)] = v[c.i(0, V - 1)]  # coincident vertices: degenerate faces and edges
        P = c.i(1, 12)
        k = c.pick("near", "on", "far", "vert", "above")
        t = v[f[c.randint(0, F, (P,))]]
        w = torch.rand(P, 3, generator=c.gen) + 0.05
        w = w / w.sum(-1, keepdim=True)
        x = (t * w[..., None]).sum(1)
        if k == "near":
            x = x + 0.3 * scale * c.randn(P, 3)
        elif k == "far":
            x = x + 10 * scale * c.randn(P, 3)
        elif k == "vert":
            x = t[:, 0].clone()
        elif k == "above":
            n = torch.linalg.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
            x = x + n / n.norm(dim=-1, keepdim=True).clamp(min=1e-6) * c.rand(P, 1) * scale
        ms.append((v, f)); ps.append(x)
        c.count(k)
    return ms, ps


def edges(f):
    e = set()
    for t in f.tolist():
        for a, b in ((0, 1), (1, 2), (2, 0)):
            if t[a] != t[b]:
                e.add((min(t[a], t[b]), max(t[a], t[b])))
    return torch.tensor(sorted(e), dtype=torch.long).reshape(-1, 2)


@monitor(quick=2500, thorough=60000, need=("face", "edge", "empty", "small", "tiny", "above", "on", "far", "primitive"))
def surfaces(c):
    from pytorch3d.loss import point_mesh_edge_distance, point_mesh_face_distance
    from pytorch3d.loss.point_mesh_distance import (edge_point_distance, face_point_distance, point_edge_distance,
                                                    point_face_distance)
    from pytorch3d.structures import Meshes, Pointclouds
    N = c.i(1, 4)
    scale = c.pick(1.0, 1.0, 0.3, 5.0, 0.02)
    ms, ps = scene(c, N, scale)
    kw = {}
    area = 5e-3
    if scale < 0.1 or c.p(0.3):
        area = scale * scale * c.pick(1e-2, 0.1)
        kw["min_triangle_area"] = area
        c.count("tiny", scale < 0.1)
    meshes = Meshes([v for v, f in ms], [f for v, f in ms])
    clouds = Pointclouds(ps)
    if all(len(p) == 0 for p in ps):
        return
    c.count("empty", sum(len(p) == 0 for p in ps))
    both = {}
    for which in ("face", "edge"):
        lo = hi = 0.0
        per = []
        for (v, f), p in zip(ms, ps):
            if not len(p):
                per.append(None)
                continue
            vv, pp = v.double(), p.double()[:, None]
            if which == "face":
                a, b = tri_d(pp, vv[f], area)
                ar = 0.5 * torch.linalg.cross(vv[f][:, 1] - vv[f][:, 0], vv[f][:, 2] - vv[f][:, 0]).norm(dim=-1)
                c.count("small", int((ar < area).sum()))
            else:
                e = edges(f)
                d = seg_d(pp, vv[e[:, 0]], vv[e[:, 1]])
                m = torch.maximum(pp.abs().max(), vv.abs().max())
                tol = 2e-6 * d + 4e-6 * m * d.sqrt() + (4e-6 * m) ** 2
                L2 = (vv[e[:, 0]] - vv[e[:, 1]]).pow(2).sum(-1)
                tol = tol + torch.where(L2 < 2e-8, L2 + 2 * (L2 * d).sqrt(), 0 * d)
                a, b = (d - tol).clamp(min=0), d + tol
            per.append((a.min(1)[0], b.min(1)[0], a.min(0)[0], b.min(0)[0]))
            lo += float(a.min(1)[0].mean() + a.min(0)[0].mean()) / N
            hi += float(b.min(1)[0].mean() + b.min(0)[0].mean()) / N
        fn = point_mesh_face_distance if which == "face" else point_mesh_edge_distance
        got = float(fn(meshes, clouds, **(kw if which == "face" else {})))
        c.count(which)
        c.check(lo * (1 - 1e-5) - 1e-12 <= got <= hi * (1 + 1e-5) + 1e-12, f"point to {which} loss {got} outside [{lo}, {hi}]",
                meshes=[(v.tolist(), f.tolist()) for v, f in ms], clouds=[p.tolist() for p in ps], area=area)
        # the primitive distances
        pts, first = clouds.points_packed(), clouds.cloud_to_packed_first_idx()
        if which == "face":
            prim, pf = meshes.verts_packed()[meshes.faces_packed()], meshes.mesh_to_faces_packed_first_idx()
            g1 = point_face_distance(pts, first, prim, pf, max(len(p) for p in ps), area)
            g2 = face_point_distance(pts, first, prim, pf, max(len(f) for _, f in ms), area)
        else:
            prim, pf = meshes.verts_packed()[meshes.edges_packed()], meshes.mesh_to_edges_packed_first_idx()
            g1 = point_edge_distance(pts, first, prim, pf, max(len(p) for p in ps))
            g2 = edge_point_distance(pts, first, prim, pf, int(meshes.num_edges_per_mesh().max()))
        i1 = i2 = 0
        for i, q in enumerate(per):
            if q is None:
                continue
            x = g1[i1:i1 + len(q[0])].double(); i1 += len(q[0])
            y = g2[i2:i2 + len(q[2])].double(); i2 += len(q[2])
            c.check(bool(((x >= q[0]) & (x <= q[1])).all()), f"distance of a point to the {which}s of its mesh {i}",
                    got=x, lo=q[0], hi=q[1], mesh=[ms[i][0].tolist(), ms[i][1].tolist()], cloud=ps[i], area=area)
            if which == "face":
                ok = ((y >= q[2]) & (y <= q[3])).all()
            else:  # the edge order is the library's own
                o = meshes.edges_packed()[i2 - len(q[2]):i2] - int(meshes.mesh_to_verts_packed_first_idx()[i])
                key = {tuple(e): k for k, e in enumerate(edges(ms[i][1]).tolist())}
                pm = torch.tensor([key[tuple(sorted(e))] for e in o.tolist()])
                ok = ((y >= q[2][pm]) & (y <= q[3][pm])).all()
            c.check(bool(ok), f"distance of the {which}s of mesh {i} to its points", got=y, lo=q[2], hi=q[3],
                    mesh=[ms[i][0].tolist(), ms[i][1].tolist()], cloud=ps[i], area=area)
            c.count("primitive", len(x) + len(y))
        c.equal((i1, i2), (len(g1), len(g2)), f"number of {which} distances")
    c.sig(tuple((len(v), len(f)) for v, f in ms), tuple(len(p) for p in ps), scale, area)
    if N > 1 and c.p(0.1):
        c.raises(ValueError, lambda: point_mesh_face_distance(meshes[:1], clouds), "another batch size accepted")


def direction(x, y, nx, ny, norm, absc):
    """one cloud -> distances (P,), deviation (P,), sure (P,)"""
    if not len(x):
        z = torch.zeros(0, dtype=D)
        return z, z, z.bool()
    if not len(y):
        return torch.zeros(len(x), dtype=D), None, torch.zeros(len(x), dtype=torch.bool)
    d = x.double()[:, None] - y.double()[None]
    d = d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)
    s, i = d.sort(-1)
    sure = torch.ones(len(x), dtype=torch.bool) if len(y) == 1 else s[:, 1] - s[:, 0] > 1e-5 * s[:, 1]
    dev = None
    if nx is not None:
        cos = torch.nn.functional.cosine_similarity(nx.double(), ny.double()[i[:, 0]], dim=-1, eps=1e-6)
        dev = 1 - (cos.abs() if absc else cos)
    return s[:, 0], dev, sure


@monitor(quick=4000, thorough=100000, need=("normals", "weights", "max", "ragged", "Pointclouds", "one way", "L1", "none", "zero weights"))
def chamfer(c):
    from pytorch3d.loss import chamfer_distance
    from pytorch3d.structures import Pointclouds
    N = c.i(1, 4)
    pr = c.pick("mean", "mean", "sum", "max", None)
    br = c.pick("mean", "mean", "sum", None) if pr is not None else None
    norm, one, absc = c.pick(2, 2, 1), c.p(0.4), c.p(0.6)
    use_n = pr != "max" and c.p(0.5)
    form = c.pick("padded", "lengths", "Pointclouds", "mixed")
    dim = 3 if use_n or form in ("Pointclouds", "mixed") else c.pick(1, 2, 3, 3, 5)
    P1, P2 = c.i(1, 14), c.i(1, 14)
    low = 1 if use_n else c.pick(0, 1, 1)
    l1 = [P1] * N if form == "padded" else [c.i(low, P1) for _ in range(N)]
    l2 = [P2] * N if form == "padded" else [c.i(low, P2) for _ in range(N)]
    s = c.pick(1.0, 1.0, 0.1, 10.0)
    xs, ys = [c.randn(n, dim) * s for n in l1], [c.randn(n, dim) * s for n in l2]
    nx = [c.randn(n, 3) for n in l1] if use_n else [None] * N
    ny = [c.randn(n, 3) for n in l2] if use_n else [None] * N
    fill = c.pick("huge", "near", "rand")
    kw = {}

    def arg(pts, nor, P, pre, pc):
        if pc:
            c.count("Pointclouds")
            return Pointclouds(pts, normals=nor if use_n else None)
        ls = [len(p) for p in pts]
        if set(ls) != {P} or c.p(0.5):
            kw[pre + "_lengths"] = torch.tensor(ls)
            c.count("ragged")
        if use_n:
            kw[pre + "_normals"] = padded(c, nor, P, fill)
        return padded(c, pts, P, fill)

    X = arg(xs, nx, P1, "x", form == "Pointclouds" or (form == "mixed" and c.p(0.5)))
    Y = arg(ys, ny, P2, "y", form == "Pointclouds" or (form == "mixed" and c.p(0.5)))
    PX = P1 if torch.is_tensor(X) else max(l1)
    PY = P2 if torch.is_tensor(Y) else max(l2)
    w = None
    if c.p(0.5):
        w = c.rand(N)
        if c.p(0.3):
            w[c.i(0, N - 1)] = 0
        if c.p(0.15):
            w = torch.zeros(N)
        kw["weights"] = w
        c.count("weights")
    keep = [t.clone() if torch.is_tensor(t) else None for t in (X, Y)]
    if pr != "mean" or c.p(0.3):
        kw["point_reduction"] = pr
    if br != "mean" or c.p(0.3):
        kw["batch_reduction"] = br
    if norm != 2:
        kw["norm"] = norm
    if one:
        kw["single_directional"] = True
    if not absc:
        kw["abs_cosine"] = False
    if PX == 0 or PY == 0:
        return
    got, gotn = chamfer_distance(X, Y, **kw)
    for t, k in zip((X, Y), keep):
        if k is not None:
            c.equal(t, k, "input modified")
    c.count(str(pr).lower()); c.count("one way", one); c.count("L1", norm == 1); c.count("normals", use_n)
    c.sig(tuple(l1), tuple(l2), pr, br, norm, one, absc, use_n, form, w is not None)
    if w is not None and float(w.sum()) == 0:
        c.count("zero weights")
        for t in (got if isinstance(got, tuple) else (got,)):
            c.check(bool((t == 0).all()), "loss with zero weights is not zero", got=t)
        return
    W = torch.ones(N, dtype=D) if w is None else w.double()
    res = []
    for a, b, na, nb, P in ((xs, ys, nx, ny, PX), (ys, xs, ny, nx, PY))[:1 if one else 2]:
        per = [direction(a[i], b[i], na[i], nb[i], norm, absc) for i in range(N)]
        res.append((per, P))
    tol = 1e-5

    def reduce(kind):
        """-> list per direction of (N,) or (N,P) values"""
        out = []
        for per, P in res:
            v = []
            for i, (d, dev, sure) in enumerate(per):
                q = d if kind == "d" else dev
                if pr is None:
                    v.append(torch.nn.functional.pad(q, (0, P - len(q))) * W[i])
                elif pr == "sum":
                    v.append(q.sum() * W[i])
                elif pr == "mean":
                    v.append(q.sum() / max(len(q), 1) * W[i])
                else:
                    v.append((q.max() if len(q) else torch.zeros((), dtype=D)) * W[i])
            out.append(torch.stack(v))
        return out

    def final(v):
        if pr is None:
            return v[0] if one else tuple(v)
        t = v[0] if one else (torch.maximum(*v) if pr == "max" else v[0] + v[1])
        if br == "mean":
            return t.sum() / (W.sum() if w is not None else N)
        return t.sum() if br == "sum" else t

    want = final(reduce("d"))
    if isinstance(want, tuple):
        c.check(isinstance(got, tuple) and len(got) == 2, "unreduced loss is not a pair")
        for g, q, k in zip(got, want, ("forward", "backward")):
            c.close(g, q, f"{k} chamfer terms", atol=tol * 1e-3, rtol=tol, norm=norm)
    else:
        c.close(got, want, "chamfer loss", atol=tol * 1e-3, rtol=tol, norm=norm, pr=pr, br=br)
    if not use_n:
        c.check(gotn is None, "loss of normals returned without normals", got=gotn)
    elif all(bool(s.all()) for per, _ in res for _, _, s in per):
        want = final(reduce("n"))
        if isinstance(want, tuple):
            for g, q, k in zip(gotn, want, ("forward", "backward")):
                c.close(g, q, f"{k} terms of the normals", atol=1e-5, rtol=1e-4)
        else:
            c.close(gotn, want, "loss of the normals", atol=1e-5 * max(PX, PY) * N, rtol=1e-4, absc=absc)
    if c.p(0.1):
        c.raises(ValueError, lambda: chamfer_distance(X, Y, point_reduction="median"), "unknown reduction accepted")
        c.raises(ValueError, lambda: chamfer_distance(X, Y, point_reduction=None), "batch reduction without point reduction accepted")
        c.raises(ValueError, lambda: chamfer_distance(X, Y, norm=3), "norm 3 accepted")
        c.raises(ValueError, lambda: chamfer_distance(X, Y, weights=-torch.ones(N)), "negative weights accepted")


def foot(p, t):
    """p (3,), t (T,3,3) float64 -> weights (T,3) of the closest point of every triangle and the squared distance"""
    W, Q = [], []
    for tri in t:
        a, b, d = tri
        best = None
        u, v, w = b - a, d - a, p - a
        d00, d01, d11, d20, d21 = u @ u, u @ v, v @ v, w @ u, w @ v
        den = d00 * d11 - d01 * d01
        w1, w2 = (d11 * d20 - d01 * d21) / den, (d00 * d21 - d01 * d20) / den
        if w1 >= 0 and w2 >= 0 and w1 + w2 <= 1:
            best = torch.stack([1 - w1 - w2, w1, w2])
        else:
            for i, j in ((0, 1), (0, 2), (1, 2)):
                e = tri[j] - tri[i]
                s = ((p - tri[i]) @ e / (e @ e)).clamp(0, 1)
                x = torch.zeros(3, dtype=D)
                x[i], x[j] = 1 - s, s
                r = p - (x[:, None] * tri).sum(0)
                if best is None or r @ r < q:
                    best, q = x, r @ r
        r = p - (best[:, None] * tri).sum(0)
        W.append(best); Q.append(r @ r)
    return torch.stack(W), torch.stack(Q)


@monitor(quick=1500, thorough=40000, need=("face", "edge", "chamfer", "L1", "ragged"))
def gradients(c):
    from pytorch3d.loss import chamfer_distance, point_mesh_edge_distance, point_mesh_face_distance
    from pytorch3d.structures import Meshes, Pointclouds
    kind = c.pick("face", "edge", "chamfer", "chamfer")
    N = c.i(1, 3)
    if kind == "chamfer":
        P1, P2, norm, one = c.i(1, 9), c.i(1, 9), c.pick(2, 2, 1), c.p(0.4)
        full = c.p(0.3)
        l1, l2 = [P1 if full else c.i(1, P1) for _ in range(N)], [P2 if full else c.i(1, P2) for _ in range(N)]
        xs, ys = [c.randn(n, 3) for n in l1], [c.randn(n, 3) for n in l2]
        x, y = padded(c, xs, P1, "rand").requires_grad_(), padded(c, ys, P2, "rand").requires_grad_()
        pr, br = c.pick("mean", "sum"), c.pick("mean", "sum")
        kw = {} if full else dict(x_lengths=torch.tensor(l1), y_lengths=torch.tensor(l2))
        w = c.rand(N) + 0.1 if c.p(0.5) else None
        X, Y = x.detach().double().requires_grad_(), y.detach().double().requires_grad_()
        k = c.u(0.5, 2)
        (chamfer_distance(x, y, weights=w, point_reduction=pr, batch_reduction=br, norm=norm, single_directional=one, **kw)[0] * k).backward()
        W = torch.ones(N, dtype=D) if w is None else w.double()
        ref = X.sum() * 0 + Y.sum() * 0
        for i in range(N):
            for A, B in ((X[i, :l1[i]], Y[i, :l2[i]]), (Y[i, :l2[i]], X[i, :l1[i]]))[:1 if one else 2]:
                d = A[:, None] - B[None]
                if norm == 1 and float(d.abs().min()) < 1e-6:
                    return
                d = d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)
                s = d.detach().sort(-1)[0]
                if len(B) > 1 and bool((s[:, 1] - s[:, 0] < 1e-5 * s[:, 1]).any()):
                    return
                m = d.min(-1)[0]
                ref = ref + W[i] * (m.mean() if pr == "mean" else m.sum())
        if br == "mean":
            ref = ref / W.sum()
        (ref * k).backward()
        c.close(x.grad, X.grad, "gradient of the chamfer loss by the first clouds", atol=2e-5, rtol=1e-5, norm=norm, l1=l1, l2=l2, pr=pr, br=br)
        c.close(y.grad, Y.grad, "gradient of the chamfer loss by the second clouds", atol=2e-5, rtol=1e-5, norm=norm, l1=l1, l2=l2, pr=pr, br=br)
        c.count("L1", norm == 1); c.count("ragged", not full); c.count("chamfer"); c.sig(kind, tuple(l1), tuple(l2), norm, pr, br, one)
        return
    vs, fs, ps = [], [], []
    for _ in range(N):
        F = c.i(1, 5)
        base = c.randn(F, 1, 3) * 2
        v = (base + torch.eye(3)[None] + 0.3 * c.randn(F, 3, 3)).reshape(-1, 3)
        vs.append(v.requires_grad_())
        f = torch.arange(3 * F).reshape(F, 3)
        if F > 1 and c.p(0.5):
            f[1, 0] = 0  # a shared vertex
        fs.append(f)
        ps.append((c.randn(c.i(1, 6), 3) * 2).requires_grad_())
    out = (point_mesh_face_distance if kind == "face" else point_mesh_edge_distance)(Meshes(vs, fs), Pointclouds(ps))
    out.backward()
    V, Q = [v.detach().double().requires_grad_() for v in vs], [p.detach().double().requires_grad_() for p in ps]
    ref = 0
    for i in range(N):
        if kind == "face":
            prim = V[i][fs[i]]
            area = torch.linalg.cross(prim[:, 1] - prim[:, 0], prim[:, 2] - prim[:, 0]).norm(dim=-1)
            longest = torch.stack([(prim[:, i] - prim[:, j]).norm(dim=-1) for i, j in ((0, 1), (0, 2), (1, 2))]).amax(0)
            if float(area.min()) < 0.05 or float((area / longest ** 2).min()) < 0.1:
                return
        else:
            prim = V[i][edges(fs[i])]
        d, Wt = [], []
        for p in Q[i]:
            if kind == "face":
                wt, _ = foot(p.detach(), prim.detach())
            else:
                e = prim.detach()
                t = (((p.detach() - e[:, 0]) * (e[:, 1] - e[:, 0])).sum(-1) / (e[:, 1] - e[:, 0]).pow(2).sum(-1)).clamp(0, 1)
                wt = torch.stack([1 - t, t], -1)
            # where the closest point is an optimum its weights may be held fixed
            d.append((p - (wt[..., None] * prim).sum(1)).pow(2).sum(-1)); Wt.append(wt)
        d = torch.stack(d)
        wt = torch.stack(Wt)
        if bool(((wt > 0) & (wt < 4e-3 * (1 + d.detach().sqrt()[..., None]))).any()):
            return  # so near a corner, in float32 the next edge is as near
        for m in (d.detach(), d.detach().T):
            s = m.sort(-1)[0]
            if s.shape[1] > 1 and bool((s[:, 1] - s[:, 0] < 1e-4 * s[:, 1]).any()):
                return
        ref = ref + (d.min(1)[0].mean() + d.min(0)[0].mean()) / N
    ref.backward()
    for i in range(N):
        c.close(vs[i].grad, V[i].grad, f"gradient of the point to {kind} loss by the vertices", atol=3e-4, rtol=1e-4,
                verts=vs[i].tolist(), faces=fs[i].tolist(), cloud=ps[i].tolist())
        c.close(ps[i].grad, Q[i].grad, f"gradient of the point to {kind} loss by the points", atol=3e-4, rtol=1e-4,
                verts=vs[i].tolist(), faces=fs[i].tolist(), cloud=ps[i].tolist())
    c.count(kind); c.sig(kind, tuple(map(len, fs)), tuple(map(len, ps)))
