"""Textures: histories of batch operations; the colour at random surface points against a float64 sampler of the
texture each mesh was given at the start."""
import math

import torch
from lib import gen
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("histories of index/split/extend/clone/detach/to/join/submeshes on textured batches, then join_scene; the colour of random "
        "(face, barycentric) samples compared with a float64 sampler; distinct = distinct (kind, options, sizes, operation sequence)")
ASSUMPTIONS = ["UV coordinates of joined scenes lie in [0, 1]; samples within 1e-3 of a texel rounding boundary are not compared for nearest / atlas lookups"]


# ---- the model: per mesh dicts with verts, faces, tex
def bilinear(m, uv, o):
    """m (H,W,C) float64, uv (P,2) -> (P,C), ok (P,): documented mapping of uv to map positions."""
    H, W, C = m.shape
    if o["align"]:
        x, y = uv[:, 0] * (W - 1), (1 - uv[:, 1]) * (H - 1)
    else:
        x, y = uv[:, 0] * W - 0.5, (1 - uv[:, 1]) * H - 0.5

    def refl(t, n):
        lo, span = (0.0, n - 1.0) if o["align"] else (-0.5, float(n))
        if span == 0:
            return torch.zeros_like(t)
        t = (t - lo).abs()
        k = torch.floor(t / span)
        t = torch.where(k % 2 == 0, t - k * span, span - (t - k * span)) + lo
        return t.clamp(0, n - 1)

    if o["pad"] == "border":
        x, y = x.clamp(0, W - 1), y.clamp(0, H - 1)
    elif o["pad"] == "reflection":
        x, y = refl(x, W), refl(y, H)

    def tap(ix, iy):
        ok = (ix >= 0) & (ix < W) & (iy >= 0) & (iy < H)
        return m[iy.clamp(0, H - 1), ix.clamp(0, W - 1)] * ok[:, None]

    if o["mode"] == "nearest":
        fx, fy = x - torch.floor(x), y - torch.floor(y)
        ok = ((fx - 0.5).abs() > 1e-3) & ((fy - 0.5).abs() > 1e-3)
        return tap(torch.round(x).long(), torch.round(y).long()), ok
    x0, y0 = torch.floor(x), torch.floor(y)
    wx, wy = (x - x0)[:, None], (y - y0)[:, None]
    x0, y0 = x0.long(), y0.long()
    out = (tap(x0, y0) * (1 - wx) * (1 - wy) + tap(x0 + 1, y0) * wx * (1 - wy)
           + tap(x0, y0 + 1) * (1 - wx) * wy + tap(x0 + 1, y0 + 1) * wx * wy)
    return out, torch.ones(len(uv), dtype=torch.bool)


def resize(m, hw, align):
    if tuple(m.shape[:2]) == tuple(hw):
        return m
    return torch.nn.functional.interpolate(m.permute(2, 0, 1)[None], size=hw, mode="bilinear", align_corners=align)[0].permute(1, 2, 0)


def colour(me, o, f, b, hw):
    """Colour of mesh `me` at faces f (P,), barycentrics b (P,3) float64. -> (P,C), comparable (P,)"""
    t = me["tex"]
    if o["kind"] == "vertex":
        a = t["feat"].double()[me["faces"][f]]
        return (a * b[..., None]).sum(1), torch.ones(len(f), dtype=torch.bool)
    if o["kind"] == "atlas":
        A = t["atlas"].double()
        R = A.shape[1]
        w = b[:, :2] * R
        c = torch.floor(w).long().clamp(max=R - 1)
        s = w.sum(1) - c.sum(1)
        frac = w - torch.floor(w)
        ok = ((frac > 1e-3) & (frac < 1 - 1e-3)).all(1) & ((s - 1).abs() > 1e-3)
        lower = s <= 1
        ix = torch.where(lower, c[:, 0], R - 1 - c[:, 0])
        iy = torch.where(lower, c[:, 1], R - 1 - c[:, 1])
        return A[f, iy, ix], ok
    uv = (t["uv"].double()[t["fuv"][f]] * b[..., None]).sum(1)
    if "ids" in t:
        out, ok = [], []
        for p in range(len(f)):
            r, k = bilinear(resize(t["map"][t["ids"][f[p]]].double(), hw, o["align"]), uv[p:p + 1], o)
            out.append(r)
            ok.append(k)
        return torch.cat(out), torch.cat(ok)
    return bilinear(resize(t["map"].double(), hw, o["align"]), uv, o)


def bary(c, P):
    b = c.rand(P, 3, lo=0.02, hi=1.0)
    b = b / b.sum(1, keepdim=True)
    for i in range(P):
        if c.p(0.15):
            b[i] = torch.eye(3)[c.i(0, 2)]
    return b


def hw_of(ms, o):
    if o["kind"] != "uv":
        return None
    return tuple(max(m["tex"]["map"].shape[-3 + d] for m in ms) for d in (0, 1))


def make_model(c, o, n):
    """n meshes with their own textures"""
    out = []
    C = o["C"]
    for i in range(n):
        v, f = gen.mesh(c)
        m = dict(verts=v, faces=f)
        if o["kind"] == "vertex":
            t = dict(feat=c.rand(len(v), C))
        elif o["kind"] == "atlas":
            t = dict(atlas=c.rand(len(f), o["R"], o["R"], C))
        else:
            H, W = o["hw"] if not o["mixed"] else (c.i(1 if not o["align"] else 2, 7), c.i(1 if not o["align"] else 2, 7))
            nuv = c.i(3, 12)
            uv = c.rand(nuv, 2)
            if c.p(0.3):
                uv = uv.round()
            if o["outside"]:
                uv = uv * 2 - 0.5
            t = dict(uv=uv, fuv=c.randint(0, nuv, (len(f), 3)))
            if o["multi"]:
                M = o["multi"] if not o["mixed"] else c.i(1, o["multi"])
                t["map"] = c.rand(M, H, W, C)
                t["ids"] = c.randint(0, M, (len(f),))
            else:
                t["map"] = c.rand(H, W, C)
                if i and o["share"] and c.p(0.5):
                    t["map"] = out[c.i(0, i - 1)]["tex"]["map"]
        m["tex"] = t
        out.append(m)
    return out


def options(c, multi=False, mixed=None):
    kind = "uv" if multi else c.pick("vertex", "atlas", "uv", "uv")
    return dict(kind=kind, C=c.pick(3, 3, 1, 5), R=c.i(1, 5), align=c.p(0.5), pad=c.pick("border", "zeros", "reflection"),
                mode=c.pick("bilinear", "bilinear", "nearest"), hw=(c.i(2, 7), c.i(2, 7)), mixed=(c.p(0.3) if mixed is None else mixed) and kind == "uv",
                outside=c.p(0.3), share=c.p(0.3), multi=c.i(1, 3) if multi else 0)


def pad(ts, val=0):
    n = max(len(t) for t in ts)
    out = torch.full((len(ts), n, *ts[0].shape[1:]), val, dtype=ts[0].dtype)
    for i, t in enumerate(ts):
        out[i, :len(t)] = t
    return out


def build_tex(c, ms, o, aslist=None):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    al = c.p(0.6) if aslist is None else aslist
    g = (lambda k, v=0: [m["tex"][k] for m in ms]) if al else (lambda k, v=0: pad([m["tex"][k] for m in ms], v))
    if o["kind"] == "vertex":
        return TexturesVertex(verts_features=g("feat"))
    if o["kind"] == "atlas":
        return TexturesAtlas(atlas=g("atlas"))
    maps = [m["tex"]["map"] for m in ms]
    if (not al or c.p(0.3)) and not o["mixed"]:
        maps = torch.stack(maps)
    kw = {}
    if o["multi"]:
        kw["maps_ids"] = g("ids")
    return TexturesUV(maps=maps, faces_uvs=g("fuv"), verts_uvs=g("uv"), align_corners=o["align"], padding_mode=o["pad"],
                      sampling_mode=o["mode"], **kw)


def build(c, ms, o):
    from pytorch3d.structures import Meshes
    return Meshes(verts=[m["verts"] for m in ms], faces=[m["faces"] for m in ms], textures=build_tex(c, ms, o))


def judge(c, real, ms, o, what, hw=None, scene=False):
    """Colours of random samples; `ms` in the order of the faces of `real`; scene: all in one mesh."""
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    hw = hw or hw_of(ms, o)
    nf = [len(m["faces"]) for m in ms]
    off = [sum(nf[:i]) for i in range(len(ms))]
    P, K = 10, c.i(1, 2)
    H = 2
    rows = 1 if scene else len(ms)
    p2f = torch.full((rows, H, P // H, K), -1, dtype=torch.int64)
    b = torch.full((rows, H, P // H, K, 3), -1.0)
    todo = []
    for r in range(rows):
        for y in range(H):
            for x in range(P // H):
                for k in range(K):
                    i = c.i(0, len(ms) - 1) if scene else r
                    if nf[i] == 0 or c.p(0.1):
                        continue
                    f = c.i(0, nf[i] - 1)
                    p2f[r, y, x, k] = off[i] + f
                    todo.append((i, f, (r, y, x, k)))
    if not todo:
        return
    bb = bary(c, len(todo))
    for q, t in enumerate(todo):
        b[t[2]] = bb[q]
    z = torch.zeros_like(p2f, dtype=torch.float32)
    out = real.sample_textures(Fragments(pix_to_face=p2f, zbuf=z, bary_coords=b, dists=z))
    for i in range(len(ms)):
        sel = [q for q, t in enumerate(todo) if t[0] == i]
        if not sel:
            continue
        f = torch.tensor([todo[q][1] for q in sel])
        want, ok = colour(ms[i], o, f, bb[sel].double(), hw[i] if isinstance(hw, list) else hw)
        got = torch.stack([out[todo[q][2]] for q in sel])
        c.count("samples", int(ok.sum()))
        c.close(got[ok], want[ok], f"{what}: colour on mesh {i}", atol=2e-4, rtol=1e-3, options=o)


def corners(c, real, ms, o, what):
    """faces_verts_textures_packed: the colours of the three corners of every face."""
    fp = real.faces_packed()
    t = real.textures
    got = t.faces_verts_textures_packed(fp) if o["kind"] == "vertex" else t.faces_verts_textures_packed()
    nf = [len(m["faces"]) for m in ms]
    off = 0
    c.check(len(got) == sum(nf), f"{what}: {len(got)} faces in faces_verts_textures_packed", options=o)
    for i, m in enumerate(ms):
        for k in range(3):
            b = torch.eye(3, dtype=D)[k].expand(nf[i], 3)
            if o["kind"] == "atlas":
                A = m["tex"]["atlas"].double()
                want = [A[:, 0, -1], A[:, -1, 0], A[:, 0, 0]][k]
                ok = torch.ones(nf[i], dtype=torch.bool)
            else:
                want, ok = colour(m, o, torch.arange(nf[i]), b, hw_of(ms, o))
            c.close(got[off:off + nf[i], k][ok], want[ok], f"{what}: corner {k} of mesh {i}", atol=2e-4, rtol=1e-3, options=o)
        off += nf[i]
    c.count("corners", sum(nf))


@monitor(quick=500, thorough=20000, need=("samples", "scene", "join", "submeshes", "extend", "mixed", "multi", "index", "corners"))
def history(c):
    from pytorch3d.structures import join_meshes_as_batch, join_meshes_as_scene
    multi = c.p(0.25)
    o = options(c, multi)
    ms = make_model(c, o, c.i(1, 4))
    real = build(c, ms, o)
    c.count("mixed", o["mixed"])
    c.count("multi", o["multi"] > 0)
    ops = []
    if c.p(0.6):
        judge(c, real, ms, o, "at the start")
    names = ["index", "clone", "detach", "to", "split"] + ([] if multi else ["join"]) + ([] if o["mixed"] else ["extend"]) \
        + ([] if o["mixed"] or multi else ["submeshes"])
    for step in range(c.i(0, 4)):
        if len(ms) > 8:
            break
        op = c.pick(*names)
        ops.append(op)
        if op == "index":
            kind, idx, sel = gen.index(c, len(ms))
            if not sel:
                continue
            real, ms = real[idx], [ms[i] for i in sel]
            ops[-1] += "-" + kind
            c.count("index")
        elif op == "clone":
            old, real = real, real.clone()
            if c.p(0.3) and old.textures is not None:  # the clone does not share storage
                t = old.textures
                x = t.verts_features_padded() if o["kind"] == "vertex" else t.atlas_padded() if o["kind"] == "atlas" else t.verts_uvs_padded()
                y = real.textures
                z = y.verts_features_padded() if o["kind"] == "vertex" else y.atlas_padded() if o["kind"] == "atlas" else y.verts_uvs_padded()
                c.check(x.data_ptr() != z.data_ptr() or x.numel() == 0, "clone shares the texture storage")
        elif op == "detach":
            real = real.detach()
        elif op == "to":
            real = real.to("cpu")
        elif op == "split":
            if len(ms) < 2:
                continue
            k = c.i(1, len(ms) - 1)
            a, b = real.split([k, len(ms) - k])
            if c.p(0.5):
                real, ms = a, ms[:k]
            else:
                real, ms = b, ms[k:]
        elif op == "extend":
            k = c.i(1, 3)
            real, ms = real.extend(k), [m for m in ms for _ in range(k)]
            c.count("extend")
        elif op == "join":
            more = make_model(c, o, c.i(1, 2))
            other = build(c, more, o)
            if c.p(0.5):
                judge(c, other, more, o, "before the join")
            if c.p(0.5):
                real, ms = join_meshes_as_batch([real, other]), ms + more
            else:
                third = make_model(c, o, 1)
                real, ms = join_meshes_as_batch([other, real, build(c, third, o)]), more + ms + third
            c.count("join")
        elif op == "submeshes":
            ids, new = [], []
            for m in ms:
                mine = []
                for _ in range(c.i(0, 2)):
                    fi = torch.tensor(c.perm(len(m["faces"]))[:c.i(1, len(m["faces"]))])
                    mine.append(fi)
                    t = {k: v for k, v in m["tex"].items()}
                    keep = m["faces"][fi].unique()
                    back = torch.full((len(m["verts"]),), -1)
                    back[keep] = torch.arange(len(keep))
                    if "feat" in t:
                        t["feat"] = t["feat"][keep]
                    if "atlas" in t:
                        t["atlas"] = t["atlas"][fi]
                    if "fuv" in t:
                        t["fuv"] = t["fuv"][fi]
                    new.append(dict(verts=m["verts"][keep], faces=back[m["faces"][fi]], tex=t))
                ids.append(mine)
            if not new:
                continue
            real, ms = real.submeshes(ids), new
            c.count("submeshes")
        what = "after " + ",".join(ops)
        if c.p(0.7):
            judge(c, real, ms, o, what)
        if c.p(0.3):
            corners(c, real, ms, o, what)
    c.sig(o["kind"], o["C"], o["align"], o["pad"], o["mode"], o["mixed"], o["multi"], [len(m["faces"]) for m in ms], ops)
    what = "after " + ",".join(ops)
    judge(c, real, ms, o, what)
    corners(c, real, ms, o, what)
    if not multi and not o["outside"] and c.p(0.7):
        sc = join_meshes_as_scene(real) if c.p(0.6) else join_meshes_as_scene([real[i] for i in range(len(ms))])
        c.equal(len(sc), 1, "a scene is one mesh")
        hw = [tuple(m["tex"]["map"].shape[-3:-1]) for m in ms] if o["kind"] == "uv" else None
        judge(c, sc, ms, o, what + ",scene", hw=hw, scene=True)
        again = sc.extend(2)[1] if c.p(0.3) else sc
        judge(c, again, ms, o, what + ",scene,extend", hw=hw, scene=True)
        c.count("scene")


@monitor(quick=150, thorough=4000, need=("scene", "flip_candidates"))
def packing(c):
    """Many maps of very different sizes and shared maps joined into one."""
    from pytorch3d.structures import join_meshes_as_scene
    o = options(c, mixed=True)
    o.update(kind="uv", outside=False, share=True, mixed=True)
    n = c.i(3, 9)
    ms = make_model(c, o, n)
    for m in ms:
        if c.p(0.6):
            lo = 2 if o["align"] else 1
            hw = c.pick((c.i(lo, 4), c.i(8, 20)), (c.i(8, 20), c.i(lo, 4)), (c.i(lo, 20), c.i(lo, 20)))
            m["tex"]["map"] = c.rand(*hw, o["C"])
    if c.p(0.5):
        ms[-1]["tex"]["map"] = ms[0]["tex"]["map"]
    real = build(c, ms, o)
    sc = join_meshes_as_scene(real)
    hw = [tuple(m["tex"]["map"].shape[:2]) for m in ms]
    c.sig(hw, o["align"], o["pad"], o["mode"])
    c.count("flip_candidates", any(h < w for h, w in hw) and any(h > w for h, w in hw))
    for _ in range(4):
        judge(c, sc, ms, o, "scene of maps " + str(hw), hw=hw, scene=True)
    c.count("scene")


@monitor(quick=150, thorough=4000, need=("placed", "shared"))
def rectangles(c):
    """Every rectangle has its own place inside the total; equal ids share one place."""
    from pytorch3d.renderer.mesh.utils import Rectangle, pack_rectangles, pack_unique_rectangles
    n = c.i(2, 12)
    big = c.pick(3, 30)
    sizes = [(c.i(1, big), c.i(1, big)) for _ in range(n)]
    c.sig(sizes)
    res = pack_rectangles(sizes)

    def verify(ids, res):
        H, W = res.total_size
        occ = {}
        c.equal(len(res.locations), n, "number of locations")
        for i, (loc, (h, w)) in enumerate(zip(res.locations, sizes)):
            if loc.flipped:
                h, w = w, h
            c.check(loc.x >= 0 and loc.y >= 0 and loc.x + h <= H and loc.y + w <= W,
                    f"rectangle {i} leaves the total area", loc=loc, total=res.total_size, size=(h, w))
            if ids[i] in [ids[j] for j in range(i)]:
                j = ids.index(ids[i])
                a, b = res.locations[j], loc
                c.check((a.x, a.y, a.flipped) == (b.x, b.y, b.flipped) and not b.is_first, "equal ids have different places")
                c.count("shared")
                continue
            c.check(loc.is_first, "the first rectangle with its id is not marked first")
            for x in range(loc.x, loc.x + h):
                for y in range(loc.y, loc.y + w):
                    c.check((x, y) not in occ, f"rectangles {occ.get((x, y))} and {i} overlap", sizes=sizes)
                    occ[x, y] = i
            c.count("placed")

    verify(list(range(n)), res)
    ids = [c.i(0, n) for _ in range(n)]
    for i in range(n):
        sizes[i] = sizes[ids.index(ids[i])]
    verify(ids, pack_unique_rectangles([Rectangle(h, w, k) for (h, w), k in zip(sizes, ids)]))


@monitor(quick=150, thorough=3000, need=("rejected", "accepted"))
def rejects(c):
    """A texture that cannot belong to the meshes raises ValueError."""
    from pytorch3d.structures import Meshes
    o = options(c)
    o.update(mixed=False)
    ms = make_model(c, o, c.i(1, 3))
    verts, faces = [m["verts"] for m in ms], [m["faces"] for m in ms]
    al = c.p(0.5)
    Meshes(verts=verts, faces=faces, textures=build_tex(c, ms, o, al))
    c.count("accepted")
    bad = [dict(m, tex=dict(m["tex"])) for m in ms]
    how = c.pick("batch", "count")
    if how == "batch":
        bad = bad + bad[:1] if c.p(0.5) or len(bad) == 1 else bad[:-1]
    else:
        k = {"vertex": "feat", "atlas": "atlas", "uv": "fuv"}[o["kind"]]
        # the largest mesh gets too few or too many
        j = max(range(len(bad)), key=lambda j: len(bad[j]["tex"][k]))
        t = bad[j]["tex"][k]
        bad[j]["tex"][k] = torch.cat([t, t[:1]])
    c.sig(o["kind"], how, al, len(ms))
    c.raises(ValueError, lambda: Meshes(verts=verts, faces=faces, textures=build_tex(c, bad, o, al)),
             f"{o['kind']} texture with a wrong {how} is accepted")
    c.count("rejected")


@monitor(quick=60, thorough=1500, need=("points",))
def sampled(c):
    """sample_points_from_meshes(return_textures): the colour belongs to the surface point that is returned."""
    from pytorch3d.ops import sample_points_from_meshes
    o = options(c)
    o.update(mode="bilinear", outside=False)
    ms = make_model(c, o, c.i(1, 3))
    for m in ms:  # well separated faces: the face of a point is unambiguous
        F = len(m["faces"])
        v = torch.cat([torch.rand(3, 3) + torch.tensor([[3.0 * k, 0, 0], [3.0 * k + 1, 0, 0], [3.0 * k, 1, 1]]) for k in range(F)])
        m["verts"], m["faces"] = v, torch.arange(3 * F).view(F, 3)
        if o["kind"] == "vertex":
            m["tex"]["feat"] = c.rand(3 * F, o["C"])
    real = build(c, ms, o)
    n = c.i(1, 40)
    pts, nrm, tex = sample_points_from_meshes(real, num_samples=n, return_normals=True, return_textures=True)
    c.equal(tuple(tex.shape), (len(ms), n, o["C"]), "shape of the sampled textures")
    c.sig(o["kind"], o["C"], o["align"], o["pad"], len(ms), n)
    hw = hw_of(ms, o)
    for i, m in enumerate(ms):
        v = m["verts"].double()[m["faces"]]
        p = pts[i].double()
        A = v.transpose(1, 2)
        e1, e2 = v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]
        d = p[:, None] - v[None, :, 0]
        g11, g12, g22 = (e1 * e1).sum(-1), (e1 * e2).sum(-1), (e2 * e2).sum(-1)
        r1, r2 = (d * e1).sum(-1), (d * e2).sum(-1)
        det = g11 * g22 - g12 * g12
        b1, b2 = (g22 * r1 - g12 * r2) / det, (g11 * r2 - g12 * r1) / det
        b = torch.stack([1 - b1 - b2, b1, b2], -1)
        q = (b[..., None] * v[None]).sum(2)
        err = (q - p[:, None]).norm(dim=-1) + (-b).clamp(min=0).sum(-1)
        e, f = err.min(1)
        c.check(bool((e < 1e-3).all()), "a sampled point is not on the surface")
        bf = b[torch.arange(n), f]
        want, ok = colour(m, o, f, bf, hw)
        cond = (det[f] > 0.05)
        if o["kind"] == "atlas":
            R = m["tex"]["atlas"].shape[1]
            w = bf[:, :2] * R
            fr = w - w.floor()
            ok &= ((fr > 0.01) & (fr < 0.99)).all(1) & ((w.sum(1) - w.floor().sum(1) - 1).abs() > 0.02)
        ok &= cond
        c.close(tex[i][ok], want[ok], f"texture of the points sampled on mesh {i}", atol=3e-3, rtol=1e-3, options=o)
        c.count("points", int(ok.sum()))
