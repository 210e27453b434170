"""Mesh geometry, Laplacians, losses and graph convolution against float64 definitions computed mesh by mesh."""
import itertools
import torch
from lib import gen
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("batches of 1..4 meshes: soups with edges of 1..6 faces, closed and open surfaces, unused vertices, faces repeated "
        "or with repeated vertices, meshes without faces, empty meshes in any position; scales 0.1..10; distinct = "
        "distinct (sizes, functions)")
ASSUMPTIONS = ["normals, cotangents and cosines are judged where no face involved is degenerate (relative area above 1e-3); "
               "degenerate faces must give finite values",
               "a vertex without neighbours has the row -1 on the diagonal of the uniform Laplacian, as documented"]


def batch(c, nice=False):
    ms = []
    for _ in range(c.i(1, 4)):
        v, f = gen.mesh(c, empty=0.12, nofaces=0.06)
        if len(f) and not nice and c.p(0.2):
            f = torch.cat([f, f[:c.i(1, len(f))][:, c.pick([0, 1, 2], [1, 2, 0], [0, 2, 1])]])  # repeated, reversed
        if len(f) and not nice and c.p(0.15):
            f = f.clone()
            k = c.i(0, len(f) - 1)
            f[k, 2] = f[k, 0]  # a face with a repeated vertex
            c.count("repeated vertex")
        if len(f) and not nice and c.p(0.15):
            v = v.clone()
            v[f[0, 1]] = v[f[0, 0]]
            c.count("degenerate")
        ms.append((v * c.pick(1.0, 1.0, 0.1, 10.0), f))
    c.count("empty", sum(len(v) == 0 for v, _ in ms))
    c.count("no faces", sum(len(v) > 0 and len(f) == 0 for v, f in ms))
    return ms


def build(ms):
    from pytorch3d.structures import Meshes
    return Meshes([v.clone() for v, _ in ms], [f.clone() for _, f in ms])


def edge_set(f):
    return sorted({(min(a, b), max(a, b)) for t in f.tolist() for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))})


def cross_of(v, f):
    v = v.double()
    return torch.linalg.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])


def quality(v, f):
    """relative area of each face: area / longest edge squared"""
    v = v.double()
    e = torch.stack([(v[f[:, i]] - v[f[:, j]]).norm(dim=1) for i, j in ((0, 1), (1, 2), (2, 0))]).max(0)[0]
    return cross_of(v, f).norm(dim=1) / 2 / (e * e).clamp(min=1e-300)


@monitor(quick=1000, thorough=40000, need=("faces", "degenerate", "empty"))
def areas_normals(c):
    from pytorch3d.ops import mesh_face_areas_normals
    ms = batch(c)
    m = build(ms)
    if c.p(0.5):
        vp, fp = m.verts_packed(), m.faces_packed()
        if c.p(0.5):
            vp = vp.t().contiguous().t()
            fp = torch.cat([fp, fp], 1)[:, :3]
        if c.p(0.2):
            vp = vp.double()
        A, Nn = mesh_face_areas_normals(vp, fp)
    else:
        A, Nn = m.faces_areas_packed(), m.faces_normals_packed()
    if sum(len(v) for v, _ in ms) == 0:
        return
    i = 0
    for v, f in ms:
        F = len(f)
        a, n = A[i:i + F], Nn[i:i + F]; i += F
        if not F:
            continue
        cr = cross_of(v, f)
        s = v.double().abs().max()
        want = cr.norm(dim=1) / 2
        e = torch.stack([(v[f[:, p]] - v[f[:, q]]).double().norm(dim=1) for p, q in ((0, 1), (1, 2), (2, 0))]).max(0)[0]
        c.close(a, want, "face areas", atol=2e-6 * (s * e + e * e), rtol=1e-5)
        ok = (quality(v, f) > 1e-3) & (want > 1e-5)
        c.close(n[ok], torch.nn.functional.normalize(cr, dim=1)[ok], "face normals",
                atol=(1e-5 * s * e / want)[ok][:, None].expand(-1, 3), rtol=0)
        c.check(bool(n.isfinite().all() and (n.norm(dim=1) < 1 + 1e-4).all()), "a face normal is longer than one or not finite")
        c.count("faces", F)
        # vertex normals: area weighted sum
        acc = torch.zeros(len(v), 3, dtype=D)
        for k in range(3):
            acc.index_add_(0, f[:, k], cr)
    c.equal(i, len(A), "number of faces")
    vn = m.verts_normals_list() if not m.isempty() else None
    for j, (v, f) in enumerate(ms):
        if vn is None or not len(v):
            continue
        acc, mag = torch.zeros(len(v), 3, dtype=D), torch.zeros(len(v), dtype=D)
        cr = cross_of(v, f)
        for k in range(3):
            acc.index_add_(0, f[:, k], cr)
            mag.index_add_(0, f[:, k], cr.norm(dim=1))
        L = acc.norm(dim=1)
        s2 = v.double().abs().max() ** 2
        good = (L > 1e-3 * mag) & (L > 1e-3 * s2) & (L > 1e-5)
        c.close(vn[j][good], (acc / L[:, None].clamp(min=1e-300))[good], f"vertex normals of mesh {j}",
                atol=(2e-6 * (s2 + mag) / L)[good][:, None].expand(-1, 3), rtol=0)
        lone = torch.ones(len(v), dtype=torch.bool)
        lone[f.reshape(-1)] = False
        c.check(bool((vn[j][lone] == 0).all()), "normal of a vertex without faces is not zero", v=v, f=f, n=vn[j])
        c.check(bool(vn[j].isfinite().all()), "a vertex normal is not finite")
    c.sig("areas", tuple((len(v), len(f)) for v, f in ms))


def uniform_L(n, e):
    A = torch.zeros(n, n, dtype=D)
    for a, b in e:
        A[a, b] += 1
        A[b, a] += 1
    deg = A.sum(1, keepdim=True)
    return torch.where(deg > 0, A / deg.clamp(min=1), A) - torch.eye(n, dtype=D)


def cot_L(v, f):
    v = v.double()
    n = len(v)
    L, area = torch.zeros(n, n, dtype=D), torch.zeros(n, dtype=D)
    for t in f.tolist():
        for k in range(3):
            o, i, j = t[k], t[(k + 1) % 3], t[(k + 2) % 3]
            p, q = v[i] - v[o], v[j] - v[o]
            cot = (p @ q) / torch.linalg.cross(p, q).norm()
            L[i, j] += cot / 1
            L[j, i] += cot / 1
        a = torch.linalg.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]).norm() / 2
        area[t] += a
    return L, area


def norm_L(v, e):
    v = v.double()
    L = torch.zeros(len(v), len(v), dtype=D)
    for a, b in e:
        w = 1 / ((v[a] - v[b]).norm() + 1e-12)
        L[a, b] += w
        L[b, a] += w
    return L


def good_mesh(v, f):
    """drops slivers, small faces and the faces with repeated vertices"""
    if not len(f):
        return v, f
    ok = (quality(v, f) > 0.03) & (cross_of(v, f).norm(dim=1) > 2e-3)
    return v, f[ok]


@monitor(quick=800, thorough=30000, need=("uniform", "cot", "norm", "nonmanifold", "isolated"))
def laplacians(c):
    from pytorch3d.ops import cot_laplacian, laplacian, norm_laplacian
    ms = [good_mesh(v, f) for v, f in batch(c, nice=c.p(0.6))]
    if not sum(len(f) for _, f in ms):
        return
    m = build(ms)
    off, vp = 0, m.verts_packed()
    ep = m.edges_packed()
    U = laplacian(vp, ep).to_dense() if c.p(0.5) else m.laplacian_packed().to_dense()
    C, inv = cot_laplacian(vp, m.faces_packed())
    C = C.to_dense()
    Nl = norm_laplacian(vp, ep).to_dense()
    tot = len(vp)
    for M, name in ((U, "uniform"), (C, "cotangent"), (Nl, "norm")):
        c.equal(tuple(M.shape), (tot, tot), f"shape of the {name} Laplacian")
        mask = torch.zeros(tot, tot, dtype=torch.bool)
        o = 0
        for v, _ in ms:
            mask[o:o + len(v), o:o + len(v)] = True
            o += len(v)
        c.check(bool((M[~mask] == 0).all()), f"the {name} Laplacian connects different meshes")
    c.equal(tuple(inv.shape), (tot, 1), "shape of the inverse areas")
    for v, f in ms:
        n = len(v)
        sl = slice(off, off + n); off += n
        if not n:
            continue
        e = edge_set(f)
        c.close(U[sl, sl], uniform_L(n, e), "uniform Laplacian", atol=1e-6, rtol=1e-5)
        w = norm_L(v, e)
        if all(float((v[a] - v[b]).norm()) > 1e-3 * float(v.abs().max()) for a, b in e):
            c.close(Nl[sl, sl], w, "norm Laplacian", atol=1e-6, rtol=1e-3)
            c.count("norm")
        cl, ar = cot_L(v, f)
        s = float(v.abs().max())
        q = quality(v, f).min() if len(f) else 1.0
        c.close(C[sl, sl], cl, "cotangent Laplacian", atol=2e-4 / float(q) ** 2 * (1 + s), rtol=2e-3)
        wi = torch.where(ar > 0, 1 / ar.clamp(min=1e-300), ar)
        c.close(inv[sl, 0], wi, "inverse areas", atol=1e-6, rtol=3e-3 / float(q) * (1 + s))
        c.count("uniform", n); c.count("cot", len(f))
        nf = torch.zeros(n, dtype=torch.long)
        if len(f):
            nf.index_add_(0, f.reshape(-1), torch.ones(f.numel(), dtype=torch.long))
        c.count("isolated", int((nf == 0).sum()))
        cnt = {}
        for t in f.tolist():
            for a, b in ((0, 1), (1, 2), (2, 0)):
                k = (min(t[a], t[b]), max(t[a], t[b]))
                cnt[k] = cnt.get(k, 0) + 1
        c.count("nonmanifold", sum(x > 2 for x in cnt.values()))
    c.sig("lap", tuple((len(v), len(f)) for v, f in ms))


def wmean(per, N):
    return sum(per, torch.zeros((), dtype=D)) / N


@monitor(quick=1500, thorough=60000, need=("edge", "consistency", "uniform", "cot", "cotcurv", "nonmanifold", "all empty", "empty"))
def losses(c):
    from pytorch3d.loss import mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency
    which = c.pick("edge", "consistency", "consistency", "uniform", "cot", "cotcurv")
    ms = batch(c)
    if which in ("cot", "cotcurv", "consistency"):
        ms = [good_mesh(v, f) for v, f in ms]
    N = len(ms)
    m = build(ms)
    if all(len(f) == 0 for _, f in ms):
        c.count("all empty")
        for fn in (mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency):
            if all(len(v) == 0 for v, _ in ms):
                r = fn(m)
                c.check(float(r) == 0 and r.requires_grad, f"{fn.__name__} of empty meshes is not zero")
        return
    per, tol = [], 1e-9
    if which == "edge":
        tgt = c.pick(0.0, c.u(0, 2))
        got = mesh_edge_loss(m, target_length=tgt) if tgt or c.p(0.5) else mesh_edge_loss(m)
        for v, f in ms:
            e = edge_set(f)
            if e:
                L = torch.stack([(v[a].double() - v[b].double()).norm() for a, b in e])
                per.append(((L - tgt) ** 2).mean())
                tol += 4e-6 * float(v.abs().max()) * float((L - tgt).abs().max())
        rtol = 2e-5
    elif which == "consistency":
        got = mesh_normal_consistency(m)
        rtol = 1e-5
        tol = 1e-5
        for v, f in ms:
            by = {}
            for t in f.tolist():
                for k in range(3):
                    a, b, o = t[k], t[(k + 1) % 3], t[(k + 2) % 3]
                    by.setdefault((min(a, b), max(a, b)), []).append(o)
            vals = []
            vd = v.double()
            for (a, b), os in by.items():
                c.count("nonmanifold", len(os) > 2)
                for p, q in itertools.combinations(os, 2):
                    d = vd[b] - vd[a]
                    n0, n1 = torch.linalg.cross(d, vd[p] - vd[a]), -torch.linalg.cross(d, vd[q] - vd[a])
                    vals.append(1 - n0 @ n1 / (n0.norm() * n1.norm()))
                    tol = max(tol, 2e-6 * float(v.abs().max()) * float(d.norm() / n0.norm() + d.norm() / n1.norm()) * 4)
            if vals:
                per.append(torch.stack(vals).mean())
    else:
        got = mesh_laplacian_smoothing(m, method=which) if which != "uniform" or c.p(0.5) else mesh_laplacian_smoothing(m)
        rtol = 1e-4
        for v, f in ms:
            n = len(v)
            if not n:
                continue
            vd = v.double()
            s = float(v.abs().max())
            if which == "uniform":
                r = uniform_L(n, edge_set(f)) @ vd
                tol += 1e-5 * s
            else:
                L, ar = cot_L(v, f)
                w = L.sum(1, keepdim=True)
                q = float(quality(v, f).min()) if len(f) else 1.0
                if which == "cot":
                    r = torch.where(w > 0, L / w.clamp(min=1e-300), L) @ vd - vd
                    tol += 3e-4 / q ** 2 * s
                else:
                    r = (L @ vd - w * vd) * torch.where(ar > 0, 1 / ar.clamp(min=1e-300), 0 * ar)[:, None] / 4
                    tol += 3e-4 / q ** 3 * s * (1 + float((1 / ar[ar > 0]).max()) if bool((ar > 0).any()) else 1)
            per.append(r.norm(dim=1).mean())
    want = wmean(per, N)
    c.close(got.reshape(()), want, f"{which} loss", atol=tol, rtol=rtol, sizes=str([(len(v), len(f)) for v, f in ms]))
    c.count(which)
    c.sig(which, tuple((len(v), len(f)) for v, f in ms))
    # the same meshes one by one
    if N > 1:
        fn = {"edge": lambda x: mesh_edge_loss(x, target_length=tgt) if which == "edge" else None,
              "consistency": mesh_normal_consistency}.get(which, lambda x: mesh_laplacian_smoothing(x, method=which))
        alone = sum(float(fn(build([q]))) for q in ms if len(q[1]) or (len(q[0]) and which in ("uniform", "cot")))
        if all(len(v) == 0 or len(f) for v, f in ms):
            c.close(got.reshape(()), torch.tensor(alone / N), f"{which} loss against single meshes", atol=1e-5 * (1 + abs(alone)), rtol=1e-4)
    if c.p(0.05):
        c.raises(ValueError, lambda: mesh_laplacian_smoothing(m, method="other"), "unknown method accepted")


@monitor(quick=700, thorough=30000, need=("directed", "undirected", "no edges", "gather"))
def graph_conv(c):
    from pytorch3d.ops import GraphConv
    from pytorch3d.ops.graph_conv import gather_scatter, gather_scatter_python
    V = c.pick(0, 1, 2, 5, 12)
    E = 0 if V == 0 else c.pick(0, 1, 4, 20)
    di, do = c.i(1, 5), c.i(1, 5)
    directed = c.p(0.5)
    x = c.randn(V, di)
    e = c.randint(0, max(V, 1), (E, 2))
    if c.p(0.3):
        x = x.t().contiguous().t()
        e = e.t().contiguous().t()
    init = c.pick("normal", "zero")
    g = GraphConv(di, do, init=init, directed=directed) if c.p(0.8) else GraphConv(di, do, init)
    directed = directed if g.directed == directed else g.directed
    if init == "zero":
        c.check(bool((g.w0.weight == 0).all() and (g.w1.weight == 0).all()), "zero initialisation is not zero")
    with torch.no_grad():
        for p in g.parameters():
            p.copy_(c.randn(*p.shape))
    y = g(x, e)
    c.equal(tuple(y.shape), (V, do), "shape")
    w0, b0, w1, b1 = (p.detach().double() for p in (g.w0.weight, g.w0.bias, g.w1.weight, g.w1.bias))
    x0, x1 = x.double() @ w0.t() + b0, x.double() @ w1.t() + b1
    want = x0.clone()
    for a, b in e.tolist():
        want[a] += x1[b]
        if not directed:
            want[b] += x1[a]
    c.close(y, want, "graph convolution", atol=1e-4, rtol=1e-5, directed=directed)
    for name, fn in (("native", gather_scatter), ("python", gather_scatter_python)):
        d = c.p(0.5)
        s = fn(x, e, d)
        w = torch.zeros(V, di, dtype=D)
        for a, b in e.tolist():
            w[a] += x[b].double()
            if not d:
                w[b] += x[a].double()
        c.close(s, w, f"{name} sum over neighbours", atol=1e-5, rtol=1e-5, directed=d)
        c.count("gather")
    c.count("directed" if directed else "undirected"); c.count("no edges", E == 0)
    c.sig(V, E, di, do, directed)
    if c.p(0.1):
        c.raises(ValueError, lambda: GraphConv(di, do, init="other"), "unknown initialisation accepted")
        c.raises(ValueError, lambda: gather_scatter_python(x, e.float(), False), "edges that are not integers accepted")


@monitor(quick=120, thorough=2000, need=("sphere", "torus", "refined"))
def shapes(c):
    """the built-in shapes: every vertex on the surface, one closed consistently and outward oriented surface"""
    from pytorch3d.utils import ico_sphere, torus
    if c.p(0.4):
        L = c.pick(0, 1, 2, 3, 4 if c.p(0.2) else 2)
        m = ico_sphere(L) if L or c.p(0.5) else ico_sphere()
        V, F, chi = 10 * 4 ** L + 2, 20 * 4 ** L, 2
        v = m.verts_packed().double()
        c.close(v.norm(dim=1), torch.ones(len(v), dtype=D), "distance of the vertices of the sphere to its centre", atol=1e-4)
        n = v
        c.count("sphere"); c.count("refined", L > 0); c.sig("sphere", L)
    else:
        r, R = c.u(0.1, 1), c.u(1.2, 4)
        s, k = c.i(3, 12), c.i(3, 12)
        m = torus(r, R, s, k)
        V, F, chi = s * k, 2 * s * k, 0
        v = m.verts_packed().double()
        ring = v * torch.tensor([1.0, 1.0, 0.0], dtype=D)
        ring = R * ring / ring.norm(dim=1, keepdim=True)
        n = v - ring
        c.close(n.norm(dim=1), torch.full((len(v),), r, dtype=D), "distance of the vertices of the torus to its core", atol=1e-5)
        a = torch.atan2(v[:, 1], v[:, 0])
        turns = torch.unique((a * k / (2 * torch.pi)).round().long() % k)
        c.equal(len(turns), k, "number of rings")
        c.close(((a * k / (2 * torch.pi)) - (a * k / (2 * torch.pi)).round()).abs(), torch.zeros(len(v), dtype=D), "angles of the rings", atol=1e-4)
        c.count("torus"); c.sig("torus", s, k)
    f = m.faces_packed()
    c.equal((len(m), len(v), len(f)), (1, V, F), "number of meshes, vertices and faces")
    c.equal(len(edge_set(f)), V + F - chi, "number of edges")
    c.equal(len({e for t in f.tolist() for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))}), 3 * F, "edges, each used once in either direction")
    c.check(len(torch.unique(v.round(decimals=4), dim=0)) == V, "two vertices coincide")
    out = (cross_of(v, f) * n[f].mean(1)).sum(1)
    c.check(bool((out > 0).all()), "a face looks inwards", faces=(out <= 0).nonzero().flatten())
    v += 1.0  # the caller's copy
    m.verts_packed().mul_(3.0)
    if chi == 2 and L < 3:
        c.close(ico_sphere(L).verts_packed().double().norm(dim=1), torch.ones(V, dtype=D), "a second sphere", atol=1e-4)
