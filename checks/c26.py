"""Marching cubes and cubify against the definition of the surface: one vertex per crossed grid edge, watertight, winding number."""
from collections import Counter
import numpy as np
import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("scalar fields (noise, few-level integer fields with ties at the isolevel, smooth blobs, sparse spikes) on grids of 1..7 points "
        "a side, non-contiguous storage, batches of 1..3, isolevel given or None; occupancy grids of any density; "
        "distinct = distinct (shape, function)")
ASSUMPTIONS = ["values are either within 1e-6 of the isolevel (snapped to the grid point) or further than 1e-3 from it: in between the "
               "code's 1e-5 tolerances move vertices by design",
               "cubify voxels exactly at the threshold, and grids with an axis of a single voxel (refused by cubify), are not judged"]


def winding(V, F, P):
    """generalised winding number of the surface at points P"""
    t = V[F]
    a, b, c = (t[:, k][None] - P[:, None] for k in range(3))
    la, lb, lc = (np.linalg.norm(x, axis=-1) for x in (a, b, c))
    num = (a * np.cross(b, c)).sum(-1)
    den = la * lb * lc + (a * b).sum(-1) * lc + (b * c).sum(-1) * la + (c * a).sum(-1) * lb
    return np.arctan2(num, den).sum(1) / (2 * np.pi)


def boundary(F):
    c = Counter()
    for x, y, z in F:
        for p, q in ((x, y), (y, z), (z, x)):
            if p < q:
                c[p, q] += 1
            elif q < p:
                c[q, p] -= 1
    return [k for k, v in c.items() if v]


def field(c, shape):
    d, h, w = shape
    kind = c.pick("noise", "levels", "blob", "spikes", "levels")
    if kind == "noise":
        f = c.randn(d, h, w)
    elif kind == "levels":
        f = c.randint(-2, 3, (d, h, w)).float()
    elif kind == "blob":
        g = torch.stack(torch.meshgrid(*[torch.linspace(-1, 1, n) for n in shape], indexing="ij"), -1)
        f = c.u(0.3, 0.9) - (g * c.rand(3, lo=0.6, hi=1.8) - c.rand(3, lo=-0.3, hi=0.3)).norm(dim=-1)
        if c.p(0.5):
            f = -f
    else:
        f = torch.full(shape, c.pick(-1.0, 1.0))
        f = torch.where(c.rand(d, h, w) < 0.08, -f, f)
    return f, kind


def surface(c, v, f, val, iso, closed, what):
    """judges one mesh in grid coordinates against the field val (D, H, W, float32)"""
    d, h, w = val.shape
    x = val.double().numpy()
    lo = x < iso
    exact = np.abs(x - iso) < 1e-6
    # the crossed edges and the position of the crossing
    want = []
    for ax, off in ((2, (0, 0, 1)), (1, (0, 1, 0)), (0, (1, 0, 0))):
        s0 = tuple(slice(0, n - o) for n, o in zip(x.shape, off))
        s1 = tuple(slice(o, n) for n, o in zip(x.shape, off))
        for k in np.argwhere(lo[s0] != lo[s1]):
            a, b = x[s0][tuple(k)], x[s1][tuple(k)]
            m = 0.0 if exact[s0][tuple(k)] else 1.0 if exact[s1][tuple(k)] else (iso - a) / (b - a)
            want.append((k + m * np.array(off))[::-1])
    inner = [n >= 2 for n in (d, h, w)]
    if not want or not all(inner):
        c.check(len(v) == 0 and len(f) == 0, f"{what}: a surface where nothing is crossed")
        c.count("no surface")
        return None
    want = np.array(want)
    key = lambda p: np.unique(np.round(p * 2000).astype(np.int64), axis=0)
    if len(v) == 0:
        # only snapped triangles may vanish
        c.check(exact.any(), f"{what}: the surface is missing")
        return None
    V, F = v.double().numpy(), f.numpy()
    c.check(np.isfinite(V).all() and F.min() >= 0 and F.max() < len(V), f"{what}: bad vertices or indices")
    c.check(len(np.unique(F)) == len(V), f"{what}: unused vertices")
    # every vertex is at a crossing, and (without ties) every crossing has exactly one vertex
    dist = np.abs(V[:, None] - want[None]).max(-1)
    c.check(dist.min(1).max() < 1e-4 * max(1.0, w / 10, h / 10, d / 10), f"{what}: a vertex is not at a crossing of a grid edge")
    if not exact.any():
        c.check(dist.min(0).max() < 1e-4, f"{what}: a crossed grid edge has no vertex")
        c.check(len(V) == len(want), f"{what}: {len(V)} vertices for {len(want)} crossed edges")
        c.count("exact vertex count")
    else:
        c.count("ties")
    c.count("crossings", len(want))
    # watertight: positions merged, the oriented boundary lies on the border of the grid
    u, inv = np.unique(want[dist.argmin(1)].round(9), axis=0, return_inverse=True)
    G = inv.reshape(-1)[F]
    c.check(all(len(set(t)) == 3 for t in G.tolist()), f"{what}: a degenerate triangle")
    bad = boundary(G.tolist())
    top = np.array([w - 1, h - 1, d - 1]) - 1e-6
    for a, b in bad:
        on = ((u[a] < 1e-6) & (u[b] < 1e-6)) | ((u[a] > top) & (u[b] > top))
        c.check(on.any(), f"{what}: the surface has a hole inside the grid", edge=(u[a].tolist(), u[b].tolist()))
    if closed:
        c.check(not bad, f"{what}: the surface is not closed")
        P = np.argwhere(~exact)[:, ::-1].astype(float)
        W = winding(u, G, P)
        # the surface is oriented the same way everywhere
        ins = ~lo[~exact]
        c.check(np.abs(W - np.round(W)).max() < 1e-6, f"{what}: winding number")
        c.check((np.round(W)[~ins] == 0).all(), f"{what}: a sample below the isolevel is inside")
        c.check(np.abs(np.round(W)[ins]).max(initial=1) == 1 and np.abs(np.round(W)[ins]).min(initial=1) == 1,
                f"{what}: a sample above the isolevel is outside")
        c.check(len(set(np.round(W)[ins].tolist())) <= 1, f"{what}: the orientation of the surface varies")
        c.count("closed")
        c.count("samples located", len(P))
        return float(np.round(W)[ins][0]) if ins.any() else None
    return None


@monitor(quick=400, thorough=12000, need=("closed", "ties", "crossings", "no surface", "exact vertex count"))
def marching(c):
    from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive
    n = c.i(1, 3)
    shape = tuple(c.i(1, 7) if c.p(0.15) else c.i(2, 6) for _ in range(3))
    fs, closed = [], c.p(0.6)
    iso = c.pick(None, 0.0, 0.5, c.u(-1, 1))
    for _ in range(n):
        f, kind = field(c, shape)
        fs.append(f)
    x = torch.stack(fs)
    scale, shift = c.pick((1.0, 0.0), (1.0, 0.0), (20.0, 0.0), (1.0, 3.0))
    x = x * scale + shift
    if iso is not None:
        iso = iso * scale + shift
        iso = float(torch.tensor(iso))
        if closed:
            x = torch.nn.functional.pad(x, (1,) * 6, value=iso - c.u(0.5, 2) * scale)
    isos = [iso if iso is not None else float((f.max() + f.min()) / 2) for f in x]
    for f, s in zip(x, isos):
        near = (f - s).abs() < 2e-3
        # values near the isolevel become exactly equal to it, or are moved off it
        if iso is None:
            if not near.any():
                continue
            hi, lo = f.max(), f.min()
            keep = (f == hi) | (f == lo)
            f[near & ~keep] = s
        elif c.p(0.5):
            f[near] = s
        else:
            f[near] = s + 0.1
    isos = [iso if iso is not None else float((f.max() + f.min()) / 2) for f in x]
    if iso is None and any(((f - s).abs() < 1e-3).any() and not ((f - s).abs()[(f - s).abs() < 1e-3] < 1e-6).all() for f, s in zip(x, isos)):
        return
    inp = x.clone()
    if c.p(0.3):
        inp = torch.stack([inp, inp], -1)[..., 0]
    naive = c.p(0.25)
    fn = marching_cubes_naive if naive else marching_cubes
    keep = inp.clone()
    V, F = fn(inp, iso, return_local_coords=False)
    c.equal(inp, keep, "marching cubes changes its input")
    c.check(len(V) == len(F) == n, "one mesh per batch element")
    sign = set()
    for v, f, val, s in zip(V, F, x, isos):
        if len(v):
            c.check(f.dtype == torch.int64 and v.dtype == torch.float32, "dtypes")
        r = surface(c, v, f, val, s, closed and iso is not None, fn.__name__)
        if r is not None:
            sign.add(r)
    c.check(sign <= {ORIENT}, "orientation of the surface", got=sorted(sign))
    # local coordinates
    if c.p(0.5) and min(x.shape[1:]) > 1:
        L, FL = fn(inp, iso) if c.p(0.5) else fn(inp, isolevel=iso, return_local_coords=True)
        size = torch.tensor([x.shape[3], x.shape[2], x.shape[1]], dtype=D) - 1
        for v, f, l, fl in zip(V, F, L, FL):
            c.check(len(v) == len(l) and len(f) == len(fl), "local coordinates change the mesh")
            if len(v):
                c.close(l, v.double() / size * 2 - 1, "local coordinates", atol=1e-5)
                c.equal(fl, f, "faces in local coordinates")
    # batch independence
    if n > 1:
        k = c.i(0, n - 1)
        v1, f1 = fn(inp[k:k + 1], iso, return_local_coords=False)
        c.check(len(v1[0]) == len(V[k]), "batch element on its own")
        if len(v1[0]):
            c.equal(v1[0], V[k], "batch element on its own: verts"); c.equal(f1[0], F[k], "batch element on its own: faces")
    c.sig(tuple(x.shape), fn.__name__)


ORIENT = -1.0


@monitor(quick=60, thorough=1500, need=("compared",))
def native_vs_naive(c):
    from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive
    shape = tuple(c.i(2, 6) for _ in range(3))
    f, kind = field(c, shape)
    iso = c.pick(None, 0.0, 0.25)
    s = float((f.max() + f.min()) / 2) if iso is None else iso
    near = (f - s).abs() < 1e-3
    if iso is None and near.any():
        return
    f[near] = s
    x = torch.stack([f, f.flip(0) + 0.0])
    A, FA = marching_cubes(x, iso, return_local_coords=False)
    B, FB = marching_cubes_naive(x, iso, return_local_coords=False)
    for a, fa, b, fb in zip(A, FA, B, FB):
        c.check(len(a) == len(b) and len(fa) == len(fb), "native and Python surfaces differ in size")
        if len(a):
            c.count("compared")
            gap = (b[:, None].double() - a[None].double()).abs().max(-1)[0]
            c.check(float(gap.min(1)[0].max()) < 1e-3, "native and Python surfaces have different vertices")
            rep = (a[:, None] - a[None]).abs().max(-1)[0].lt(1e-3).float().argmax(1)  # ties share a position

            def canon(t):
                return Counter(min(tuple(p[k:] + p[:k]) for k in range(3)) for p in t.tolist())
            c.check(canon(rep[fa]) == canon(rep[gap.argmin(1)][fb]), "native and Python surfaces have different triangles")
    c.sig(shape, kind)


@monitor(quick=2, thorough=6, need=("large",))
def large_grid(c):
    """more than 2^24 grid points: a small patch of surface in a huge grid equals the same patch in a small one"""
    from pytorch3d.ops.marching_cubes import marching_cubes
    d, h, w = c.perm([3, 2500 + c.i(0, 100), 2600 + c.i(0, 100)])
    x = torch.full((d, h, w), -1.0)
    lo = [max(0, n - 12 - c.i(0, 5)) for n in (d, h, w)]
    sub = tuple(slice(l, l + 8 if n > 20 else n) for l, n in zip(lo, (d, h, w)))
    x[sub] = c.randn(*x[sub].shape).sign() * c.rand(*x[sub].shape, lo=0.2, hi=1.0)
    ext = tuple(slice(max(0, s.start - 2), min(n, s.stop + 2)) for s, n in zip(sub, x.shape))
    V, F = marching_cubes(x[None], 0.0, return_local_coords=False)
    A, B = marching_cubes(x[ext][None].contiguous(), 0.0, return_local_coords=False)
    c.check(len(V[0]) == len(A[0]) and len(F[0]) == len(B[0]), "large grid: size of the mesh", got=(len(V[0]), len(F[0])), want=(len(A[0]), len(B[0])))
    c.close(V[0], A[0] + torch.tensor([e.start for e in ext[::-1]]), "large grid: verts", atol=1e-3)
    c.equal(F[0], B[0], "large grid: faces")
    c.count("large")
    c.sig(d, h, w)


@monitor(quick=400, thorough=12000, need=("faces", "closed", "empty", "colored"))
def cubes(c):
    from pytorch3d.ops import cubify
    n = c.i(1, 3)
    shape = tuple(c.i(2, 5) for _ in range(3))
    d, h, w = shape
    align = c.pick("topleft", "corner", "center")
    dens = [c.pick(0.0, 1.0, 0.5, 0.5, 0.2, 0.8) for _ in range(n)]
    occ = torch.stack([c.rand(*shape) < p for p in dens])
    th = c.pick(0.5, 0.5, 0.1, -0.3, 2.0)
    kind = c.pick("binary", "real")
    vox = torch.where(occ, th + 0.5, th - 0.5) if kind == "binary" else torch.where(occ, th + c.rand(n, *shape, lo=0.01, hi=3), th - c.rand(n, *shape, lo=0.01, hi=3))
    if c.p(0.2):
        vox = vox.permute(0, 3, 2, 1).contiguous().permute(0, 3, 2, 1)
    feats = c.rand(n, c.pick(3, 3, 1), *shape) if align == "center" and c.p(0.7) else None
    if feats is not None and c.p(0.3):
        feats = feats.permute(0, 2, 3, 4, 1).contiguous().permute(0, 4, 1, 2, 3)
    kw = {}
    if align != "topleft" or c.p(0.5):
        kw["align"] = align
    if feats is not None:
        kw["feats"] = feats
    m = cubify(vox, th, **kw)
    c.check(len(m) == n, "one mesh per grid")
    vl, fl = m.verts_list(), m.faces_list()
    atlas = None
    if feats is not None and m.textures is not None:
        atlas = m.textures.atlas_list()
    o = occ.numpy()
    size = np.array([w, h, d])
    for k in range(n):
        # boundary quads: (corner key tuple) -> cell
        quads = {}
        for z, y, x in np.argwhere(o[k]):
            for ax in range(3):
                for side in (0, 1):
                    q = [z, y, x]
                    q[ax] += 1 if side else -1
                    if all(0 <= a < b for a, b in zip(q, shape)) and o[k][tuple(q)]:
                        continue
                    quads[(2 - ax, side, (x, y, z))] = (z, y, x)
        v, f = vl[k].double().numpy(), fl[k].numpy()
        c.count("faces", len(quads))
        if not quads:
            c.check(len(v) == 0 and len(f) == 0, "cubify: a mesh without voxels")
            c.count("empty")
            continue
        c.check(len(f) == 2 * len(quads), f"cubify: {len(f)} faces for {len(quads)} boundary squares")
        # vertices in grid corners
        marg = 0.0 if align == "corner" else 1.0
        g = (v + 1) * (size - marg) / 2 + (0.5 if align == "center" else 0)
        gi = np.round(g).astype(int)
        c.check(np.abs(g - gi).max() < 1e-4, "cubify: a vertex is not at a corner of a voxel", align=align)
        c.check(len(np.unique(gi, axis=0)) == len(gi), "cubify: vertices are not merged")
        c.check(len(np.unique(f)) == len(gi), "cubify: unused vertices")
        area, seen = Counter(), Counter()
        for j, t in enumerate(gi[f]):
            e1, e2 = t[1] - t[0], t[2] - t[0]
            nrm = np.cross(e1, e2)
            c.check(np.abs(nrm).sum() == 1, "cubify: a triangle is not half of a unit square")
            ax = int(np.abs(nrm).argmax()); side = int(nrm[ax] > 0)
            cell = t.min(0).copy()
            c.check(t[:, ax].min() == t[:, ax].max(), "cubify: a triangle is not in a grid plane")
            cell[ax] = t[0, ax] - side
            key = (ax, side, tuple(int(a) for a in cell))
            c.check(key in quads, "cubify: a face that is not between an occupied and an empty voxel, or faces inwards", face=str(key))
            diag = max(((t[a] - t[b]) ** 2).sum() for a, b in ((0, 1), (1, 2), (2, 0)))
            c.check(diag == 2, "cubify: shape of a triangle")
            area[key] += 1
            # the missing corner tells the two halves apart
            right = [i for i in range(3) if (t[(i + 1) % 3] - t[i]) @ (t[(i + 2) % 3] - t[i]) == 0][0]
            seen[key, tuple(t[right].tolist())] += 1
            diagonal = tuple(sorted(tuple(t[i].tolist()) for i in range(3) if i != right))
            seen[key, "d", diagonal] += 1
            if atlas is not None:
                zz, yy, xx = quads[key]
                c.check(np.allclose(atlas[k][j].numpy(), feats[k, :, zz, yy, xx].numpy()), "cubify: colour of a face", face=str(key))
                c.count("colored")
        c.check(all(area[q] == 2 for q in quads), "cubify: a boundary square is not covered by two triangles")
        c.check(all(n_ == (2 if "d" in q else 1) for q, n_ in seen.items()), "cubify: the two triangles of a square overlap")
        c.check(not boundary(f.tolist()), "cubify: the surface is not closed")
        c.count("closed")
    if feats is not None:
        c.check(m.textures is not None or not occ.any(), "cubify: features are ignored")
    c.sig(shape, align, n)
