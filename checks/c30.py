"""Sampling, subdivision and smoothing of meshes against float64 geometry and exact moments of the uniform distribution."""
import torch
from lib import gen
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("batches of 1..4 open, closed, non-manifold meshes with unused vertices and empty meshes; 0..300 samples for geometry, 20000 for the "
        "distribution (rejected beyond 6.5 sigma); vertex, atlas and UV textures; features of 1..4 channels; precomputed and general subdivision; "
        "smoothing of 0..6 iterations; distinct = distinct (kinds of meshes, options)")
ASSUMPTIONS = ["distribution tests have a false alarm rate below 1e-9 per statistic",
               "smoothing is judged where neighbouring vertices stay apart (its edge weights are inverse lengths)"]


def build(c, n, **kw):
    from pytorch3d.structures import Meshes
    ms = gen.meshes(c, n, **kw)
    return ms, (lambda tex=None: Meshes([v.clone() for v, _ in ms], [f.clone() for _, f in ms], textures=tex))


def areas(v, f):
    return 0.5 * torch.linalg.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]], dim=1).norm(dim=1)


def on_face(p, v, f):
    """(P, F) distance of the points to the planes of the faces, least barycentric coordinate"""
    a, b, d = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    n = torch.linalg.cross(b - a, d - a, dim=1)
    nn = (n * n).sum(1).clamp(min=1e-30)
    q = p[:, None] - a
    dist = (q * n).sum(-1).abs() / nn.sqrt()
    w1 = (torch.linalg.cross(q, (d - a).expand_as(q), dim=-1) * n).sum(-1) / nn
    w2 = (torch.linalg.cross((b - a).expand_as(q), q, dim=-1) * n).sum(-1) / nn
    bary = torch.stack([1 - w1 - w2, w1, w2], -1)
    return dist, bary, n / nn.sqrt()[:, None]


@monitor(quick=500, thorough=15000, need=("points", "normals", "textures", "empty mesh", "gradient"))
def samples(c):
    from pytorch3d.ops import sample_points_from_meshes
    from pytorch3d.renderer import TexturesVertex, TexturesAtlas, TexturesUV
    ms, mk = build(c, None, empty=0.15, nofaces=0.15)
    ok = [len(f) > 0 and float(areas(v.double(), f).max()) > 1e-3 for v, f in ms]
    has = [len(f) > 0 for _, f in ms]
    if not any(has) or ok != has:
        return
    n = c.pick(0, 1, 2) if c.p(0.1) else c.i(3, 60)
    if n == 0:
        n = 1
    C = 3
    rn, kind = c.p(0.6), c.pick(None, "vertex", "atlas", "uv")
    lin = [(c.randn(3, C, dtype=D), c.randn(C, dtype=D)) for _ in ms]
    cols = [c.rand(len(f), C) for _, f in ms]
    tex = None
    if kind == "vertex":
        tex = TexturesVertex([(v.double() @ A + b).float() for (v, _), (A, b) in zip(ms, lin)])
    elif kind == "atlas":
        R = c.i(1, 3)
        tex = TexturesAtlas([x[:, None, None].expand(-1, R, R, -1).clone() for x in cols])
    elif kind == "uv":
        tex = TexturesUV([c.rand(C).expand(c.i(2, 4), 3, C).clone() for _ in ms] if False else torch.stack([c.rand(C).expand(4, 3, C) for _ in ms]),
                         [f for _, f in ms], [c.rand(len(v), 2) for v, _ in ms])
        flat = tex.maps_padded()[:, 0, 0]
    m = mk(tex)
    grad = c.p(0.3)
    if grad:
        for v in m.verts_list():
            v.requires_grad_(True)
    out = sample_points_from_meshes(m, n, return_normals=rn, return_textures=kind is not None)
    out = list(out) if isinstance(out, tuple) else [out]
    c.equal(len(out), 1 + rn + (kind is not None), "number of results")
    c.equal(tuple(out[0].shape), (len(ms), n, 3), "shape of the samples")
    p = out[0].detach().double()
    for k, (v, f) in enumerate(ms):
        if not has[k]:
            for o in out:
                c.check((o[k] == 0).all(), "an empty mesh has zero rows")
            c.count("empty mesh")
            continue
        v = v.double()
        size = float(v.abs().max())
        dist, bary, nrm = on_face(p[k], v, f)
        big = areas(v, f) > 1e-5 * size ** 2
        hit = (dist < 2e-5 * size) & (bary.amin(-1) > -1e-3) & big
        # very thin faces: not judged through their planes
        if bool((~big).any()):
            hit = hit | (~big)[None]
        c.check(hit.any(1).all(), "a sample is not on its mesh", got=p[k][~hit.any(1)][:3])
        c.count("points", n)
        if bool((~big).any()):
            continue
        if rn:
            g = out[1][k].double()
            c.close(g.norm(dim=-1), torch.ones(n, dtype=D), "length of the normals", atol=1e-4)
            c.check(((hit & ((g[:, None] * nrm).sum(-1) > 1 - 1e-3)).any(1)).all(), "normal of the face of the sample")
            c.count("normals", n)
        if kind == "vertex":
            A, b = lin[k]
            c.close(out[-1][k], p[k] @ A + b, "vertex texture at the sample", atol=2e-4 * (1 + size) * (1 + float(A.abs().max())))
        elif kind == "atlas":
            d = (out[-1][k].double()[:, None] - cols[k].double()).abs().amax(-1)
            c.check((hit & (d < 1e-5)).any(1).all(), "atlas colour of the face of the sample")
        elif kind == "uv":
            c.close(out[-1][k], flat[k].expand(n, C), "UV texture of the mesh of the sample", atol=1e-5)
        c.count("textures", n * (kind is not None))
    if grad:
        w = c.randn(len(ms), n, 3)
        (out[0] * w).sum().backward()
        for k, v in enumerate(m.verts_list()):
            if has[k]:
                c.close(v.grad.sum(0), w[k].sum(0), "gradient of the samples", atol=1e-4 * n)
                c.count("gradient")
    c.sig("samples", tuple(has), rn, kind, n)


@monitor(quick=40, thorough=800, need=("faces", "moments"))
def distribution(c):
    from pytorch3d.ops import sample_points_from_meshes
    from pytorch3d.structures import Meshes
    nb = c.i(1, 3)
    n = 20000
    vs, fs = [], []
    for k in range(nb):
        # disjoint faces, apart from each other, of very different areas
        q = c.i(1, 8)
        v = c.randn(q, 3, 3, dtype=D) * (10 ** c.rand(q, 1, 1, lo=-1, hi=0.3, dtype=D))
        v = v + torch.arange(q, dtype=D)[:, None, None] * torch.tensor([30.0, 0, 0], dtype=D)
        vs.append(v.reshape(-1, 3).float()); fs.append(torch.arange(3 * q).view(q, 3))
    pos = c.i(0, nb)
    if c.p(0.5):
        vs.insert(pos, torch.zeros(0, 3)); fs.insert(pos, torch.zeros(0, 3, dtype=torch.int64))
    p = sample_points_from_meshes(Meshes(vs, fs), n)
    for k, (v, f) in enumerate(zip(vs, fs)):
        if not len(f):
            continue
        v = v.double()
        a = areas(v, f)
        if float(a.min()) < 1e-4:
            continue
        pk = p[k].double()
        face = torch.floor(pk[:, 0] / 30 + 0.5).clamp(0, len(f) - 1).long()
        mid = v[f].mean(1)
        face = torch.cdist(pk, mid).argmin(1) if len(f) > 1 else torch.zeros(n, dtype=torch.int64)
        cnt = torch.bincount(face, minlength=len(f)).double()
        pr = a / a.sum()
        z = (cnt - n * pr).abs() / (n * pr * (1 - pr)).sqrt().clamp(min=1)
        c.check((z < 6.5 + 10 / (n * pr).sqrt().clamp(min=1)).all(), "samples are not spread by area", got=cnt, want=n * pr)
        c.count("faces", len(f))
        j = int(a.argmax())
        sel = pk[face == j]
        if len(sel) < 1000:
            continue
        _, b, _ = on_face(sel, v, f[j:j + 1])
        b = b[:, 0]
        N = len(b)
        for i in range(3):
            for name, x, mean, var in (("w", b[:, i], 1 / 3, 1 / 18), ("w^2", b[:, i] ** 2, 1 / 6, 1 / 15 - 1 / 36),
                                       ("w < .1", (b[:, i] < 0.1).double(), 0.19, 0.19 * 0.81), ("w > .7", (b[:, i] > 0.7).double(), 0.09, 0.09 * 0.91),
                                       ("wi wj", b[:, i] * b[:, (i + 1) % 3], 1 / 12, 1 / 90 - 1 / 144)):
                z = abs(float(x.mean()) - mean) / (var / N) ** 0.5
                c.check(z < 6.5, f"samples are not uniform on their face: {name}", got=float(x.mean()), want=mean)
                c.count("moments")
        # consecutive samples and meshes are independent
        r = float(((b[1:, 0] - 1 / 3) * (b[:-1, 0] - 1 / 3)).mean()) / (1 / 18) * (N - 1) ** 0.5
        c.check(abs(r) < 6.5, "consecutive samples are correlated", got=r)
    c.sig("distribution", tuple(len(f) for f in fs))


def tris(v, f):
    """multiset of oriented triangles: each rotated to start with its least corner"""
    t = v[f]
    out = []
    for x in t.tolist():
        r = min(range(3), key=lambda i: (x[i], x[(i + 1) % 3], x[(i + 2) % 3]))
        out.append(tuple(tuple(y) for y in (x[r], x[(r + 1) % 3], x[(r + 2) % 3])))
    return sorted(out)


@monitor(quick=500, thorough=15000, need=("faces", "features", "precomputed", "empty mesh", "twice"))
def subdivide(c):
    from pytorch3d.ops import SubdivideMeshes
    from pytorch3d.structures import Meshes
    pre = c.p(0.4)
    # coordinates on a coarse lattice, so that midpoints are exact
    q = lambda v: torch.round(v * 64) / 64
    if pre:
        v, f = gen.mesh(c)
        ms = [(q(v * c.u(0.5, 2) + 0.1 * c.randn(*v.shape)), f) for _ in range(c.i(1, 3))]
    else:
        ms = [(q(v), f) for v, f in gen.meshes(c, None, empty=0.15, nofaces=0.15)]
        if not any(len(f) for _, f in ms):
            return
    m = Meshes([v for v, _ in ms], [f for _, f in ms])
    C = c.i(1, 4)
    feats = [torch.round(c.randn(len(v), C) * 64) / 64 for v, _ in ms] if c.p(0.6) else None
    if pre:
        sub = SubdivideMeshes(Meshes([ms[0][0]], [ms[0][1]]) if c.p(0.5) else m)
        x = torch.stack(feats) if feats is not None and c.p(0.5) else torch.cat(feats) if feats is not None else None
        c.count("precomputed")
    else:
        sub = SubdivideMeshes()
        x = torch.cat(feats) if feats is not None else None
    args = () if x is None else (x,)
    out = sub(m, *args)
    nf = None
    if feats is not None:
        out, nf = out
    c.equal(len(out), len(ms), "batch size")
    if nf is not None and nf.dim() == 3:
        nf = torch.cat([nf[k] for k in range(len(ms))])
    off = 0
    for k, (v, f) in enumerate(ms):
        gv, gf = out.verts_list()[k], out.faces_list()[k]
        e = {tuple(sorted((int(t[i]), int(t[(i + 1) % 3])))) for t in f for i in range(3)}
        c.equal(len(gv), len(v) + len(e), "number of vertices")
        c.equal(len(gf), 4 * len(f), "number of faces")
        c.equal(gv[:len(v)], v, "the old vertices come first")
        if len(f):
            t = v[f]
            mid = (t + t.roll(-1, 1)) / 2  # of edges 01, 12, 20
            want = torch.cat([torch.stack([t[:, 0], mid[:, 0], mid[:, 2]], 1), torch.stack([t[:, 1], mid[:, 1], mid[:, 0]], 1),
                              torch.stack([t[:, 2], mid[:, 2], mid[:, 1]], 1), torch.stack([mid[:, 0], mid[:, 1], mid[:, 2]], 1)])
            c.check(tris(gv, gf) == tris(want.reshape(-1, 3), torch.arange(3 * len(want)).view(-1, 3)), "the faces are not the quarters of the old ones")
            c.count("faces", len(f))
        else:
            c.count("empty mesh")
        if feats is not None:
            g = nf[off:off + len(gv)]
            off += len(gv)
            c.equal(g[:len(v)], feats[k], "features of the old vertices")
            # each new vertex belongs to one edge: compare (position, feature) pairs
            new = {}
            for a, b in e:
                new.setdefault(tuple(((v[a] + v[b]) / 2).tolist()), []).append(tuple(((feats[k][a] + feats[k][b]) / 2).tolist()))
            got = {}
            for a, b in zip(gv[len(v):].tolist(), g[len(v):].tolist()):
                got.setdefault(tuple(a), []).append(tuple(b))
            c.check({a: sorted(b) for a, b in got.items()} == {a: sorted(b) for a, b in new.items()}, "features of the new vertices")
            c.count("features")
    if nf is not None:
        c.equal(off, len(nf), "number of features")
    if c.p(0.3):
        two = SubdivideMeshes()(out)
        for k, (v, f) in enumerate(ms):
            a0 = float(areas(v.double(), f).sum()) if len(f) else 0
            g = two.verts_list()[k].double(), two.faces_list()[k]
            a1 = float(areas(*g).sum()) if len(f) else 0
            c.check(abs(a0 - a1) < 1e-9 * (1 + a0) and len(g[1]) == 16 * len(f), "area after two subdivisions", got=a1, want=a0)
        c.count("twice")
    c.sig("subdivide", tuple((len(v), len(f)) for v, f in ms), pre, feats is not None)


@monitor(quick=400, thorough=12000, need=("smoothed", "isolated vertex", "empty mesh"))
def taubin(c):
    from pytorch3d.ops import taubin_smoothing
    from pytorch3d.structures import Meshes
    ms = gen.meshes(c, None, empty=0.1, nofaces=0.15, kinds=("soup", "cube", "tetra", "ico", "tri", "unused", "unused"))
    if not any(len(v) for v, _ in ms):
        return
    if not any(len(f) for _, f in ms):
        return
    lam, mu = c.pick((0.53, -0.53), (0.3, -0.34), (c.u(0, 1), -c.u(0, 1)), (1.0, 0.0))
    it = c.i(0, 6)
    kw = {} if (lam, mu) == (0.53, -0.53) and c.p(0.5) else dict(lambd=lam, mu=mu)
    m = Meshes([v for v, _ in ms], [f for _, f in ms])
    before = [v.clone() for v, _ in ms]
    out = taubin_smoothing(m, num_iter=it, **kw)
    for a, b in zip(m.verts_list(), before):
        c.equal(a, b, "the mesh given is changed")
    for k, (v, f) in enumerate(ms):
        c.equal(out.faces_list()[k], f, "faces")
        x = v.double()
        n = len(v)
        W = torch.zeros(n, n, dtype=D)
        for t in f.tolist():
            for a, b in ((0, 1), (1, 2), (2, 0)):
                W[t[a], t[b]] = W[t[b], t[a]] = 1
        near = 1.0
        for _ in range(it):
            for w in (lam, mu):
                d = torch.cdist(x, x)
                if bool(W.any()):
                    near = min(near, float(d[W > 0].min()) / max(1e-9, float(x.abs().max())))
                inv = torch.where(W > 0, 1 / (d + 1e-12), torch.zeros_like(d))
                tot = inv.sum(1, keepdim=True)
                x = torch.where(tot > 0, (1 - w) * x + w * inv @ x / tot.clamp(min=1e-30), x)
        c.equal(tuple(out.verts_list()[k].shape), (n, 3), "number of vertices")
        iso = (W.sum(1) == 0)
        if bool(iso.any()):
            c.count("isolated vertex")
            c.close(out.verts_list()[k][iso], v[iso], "a vertex without neighbours moves", atol=1e-6)
        if near > 0.02:
            size = float(v.abs().max()) if n else 0
            c.close(out.verts_list()[k], x, "smoothed vertices", atol=1e-4 * (1 + size) / near ** 0.5, rtol=1e-3)
            c.count("smoothed")
        c.count("empty mesh", int(len(f) == 0))
    c.sig("taubin", tuple((len(v), len(f)) for v, f in ms), it, lam == 1.0)
