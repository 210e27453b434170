"""Volumes: histories of operations against per-volume float64 formulas of the documented convention."""
import torch
from lib import gen
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("batches of volumes with unequal grid sizes (1..6 per axis), voxel sizes, translations, alignment, through "
        "index/clone/to/update_padded histories; every voxel and random points judged; distinct = distinct (sizes, argument forms, operations)")
ASSUMPTIONS = ["world-to-local conversion is judged for axes of at least two voxels (the documented formula divides by size - 1)"]


def model(c, n, same):
    C, Fd = c.i(1, 3), c.i(1, 3)
    s0 = [c.i(1 if c.p(0.2) else 2, 6) for _ in range(3)]
    out = []
    for _ in range(n):
        s = s0 if same else [c.i(1 if c.p(0.15) else 2, 6) for _ in range(3)]
        out.append(dict(d=c.rand(C, *s), f=c.rand(Fd, *s), s=s))
    return out


def geom(c, ms):
    """-> (args, kinds); sets vs (3,) and tr (3,) of every volume"""
    n = len(ms)
    k = c.pick("float", "int", "tuple", "list", "t1", "t3", "tn3", "tn1", "t13")
    vs = c.rand(n, 3, lo=0.2, hi=3.0)
    if k == "float":
        arg = c.u(0.2, 3)
        val = torch.full((n, 3), arg)
    elif k == "int":
        arg = c.i(1, 3)
        val = torch.full((n, 3), float(arg))
    elif k in ("tuple", "list"):
        arg = [c.u(0.2, 3) for _ in range(3)]
        val = torch.tensor(arg).expand(n, 3)
        arg = tuple(arg) if k == "tuple" else arg
    elif k == "t1":
        arg = vs[0, :1]
        val = arg.expand(n, 3)
    elif k == "t3":
        arg = vs[0]
        val = arg.expand(n, 3)
    elif k == "t13":
        arg = vs[:1]
        val = arg.expand(n, 3)
    elif k == "tn3":
        arg = val = vs
    else:
        arg = vs[:, :1]
        val = arg.expand(n, 3)
    k2 = c.pick("tuple", "list", "t3", "tn3", "t13", "none")
    tr = c.randn(n, 3)
    if k2 in ("tuple", "list"):
        arg2 = [c.u(-2, 2) for _ in range(3)]
        tv = torch.tensor(arg2).expand(n, 3)
        arg2 = tuple(arg2) if k2 == "tuple" else arg2
    elif k2 == "t3":
        arg2, tv = tr[0], tr[:1].expand(n, 3)
    elif k2 == "t13":
        arg2, tv = tr[:1], tr[:1].expand(n, 3)
    elif k2 == "tn3":
        arg2 = tv = tr
    else:
        arg2, tv = None, torch.zeros(n, 3)
    for i, m in enumerate(ms):
        m["vs"], m["tr"] = val[i].double(), tv[i].double()
    kw = dict(voxel_size=arg)
    if arg2 is not None:
        kw["volume_translation"] = arg2
    return kw, (k, k2)


def pad(ts):
    sh = [max(t.shape[d] for t in ts) for d in range(4)]
    out = torch.zeros(len(ts), *sh)
    for i, t in enumerate(ts):
        out[(i,) + tuple(slice(0, q) for q in t.shape)] = t
    return out


def local_grid(s, al):
    ax = []
    for n in s:
        i = torch.arange(n, dtype=D)
        ax.append((-1 + 2 * i / (n - 1) if n > 1 else torch.full((1,), -1.0, dtype=D)) if al else -1 + (2 * i + 1) / n)
    Z, Y, X = torch.meshgrid(*ax, indexing="ij")
    return torch.stack([X, Y, Z], -1)


def l2w(m, x):
    size = torch.tensor(m["s"][::-1], dtype=D)
    return x * (size - 1) * 0.5 * m["vs"] - m["tr"]


def judge_locator(c, loc, ms, al, what):
    n = len(ms)
    c.equal(loc.get_grid_sizes().tolist(), [list(m["s"]) for m in ms], f"{what}: grid sizes")
    lg, wg = loc.get_coord_grid(world_coordinates=False), loc.get_coord_grid(world_coordinates=True)
    c.equal(len(lg), n, f"{what}: batch size of the grid")
    c.check(bool(lg.isfinite().all() and wg.isfinite().all()), f"{what}: the coordinate grid is not finite")
    big = max(max(m["s"]) for m in ms)
    P = 5
    loc_pts = c.randn(n, P, 1, 3) if c.p(0.3) else c.randn(n, P, 3)
    w = loc.local_to_world_coords(loc_pts)
    c.equal(tuple(w.shape), tuple(loc_pts.shape), f"{what}: shape of converted points")
    if all(min(m["s"]) > 1 for m in ms):
        back = loc.world_to_local_coords(w)
        c.close(back, loc_pts, f"{what}: world_to_local(local_to_world(x))", atol=5e-4, rtol=5e-4)
        pts = c.randn(n, P, 3) * 3
        wl = loc.world_to_local_coords(pts)
        t = loc.get_world_to_local_coords_transform().transform_points(pts)
        c.close(t, wl, f"{what}: world to local transform", atol=1e-4, rtol=1e-4)
        for i, m in enumerate(ms):
            size = torch.tensor(m["s"][::-1], dtype=D)
            want = (pts[i].double() + m["tr"]) / (0.5 * m["vs"]) / (size - 1)
            c.close(wl[i], want, f"{what}: world_to_local of volume {i}", atol=3e-4, rtol=3e-4)
        c.count("inverse")
    for i, m in enumerate(ms):
        g = local_grid(m["s"], al)
        a, b, d = m["s"]
        c.close(lg[i, :a, :b, :d], g, f"{what}: local grid of volume {i}", atol=3e-6, rtol=1e-5)
        c.close(wg[i, :a, :b, :d], l2w(m, g), f"{what}: world grid of volume {i}", atol=2e-5 * big, rtol=1e-4)
        c.close(w[i], l2w(m, loc_pts[i].double()), f"{what}: local_to_world of volume {i}", atol=1e-4, rtol=1e-4)
        c.count("voxels", a * b * d)


def judge(c, v, ms, al, feats, what):
    n = len(ms)
    c.equal(len(v), n, f"{what}: len")
    c.equal(bool(v.get_align_corners()), al, f"{what}: align_corners")
    judge_locator(c, v, ms, al, what)
    for i, m in enumerate(ms):
        a, b, d = m["s"]
        own = v.densities()[i, :, :a, :b, :d]
        c.equal(own, m["d"], f"{what}: densities of volume {i}")
        c.equal(v.densities_list()[i], m["d"], f"{what}: densities_list[{i}]")
        if feats:
            c.equal(v.features()[i, :, :a, :b, :d], m["f"], f"{what}: features of volume {i}")
            c.equal(v.features_list()[i], m["f"], f"{what}: features_list[{i}]")
        g = v.get_coord_grid(world_coordinates=False)[i:i + 1, :a, :b, :d]
        smp = torch.nn.functional.grid_sample(own[None], g, align_corners=al, padding_mode="border")
        c.close(smp[0], m["d"], f"{what}: sampling volume {i} at its own grid", atol=3e-5, rtol=1e-4)
    if not feats:
        c.check(v.features() is None and v.features_list() is None, f"{what}: features appeared")


@monitor(quick=700, thorough=25000, need=("voxels", "inverse", "index", "update", "hetero", "unaligned"))
def history(c):
    from pytorch3d.structures import Volumes
    n = c.i(1, 4)
    same = c.p(0.3)
    ms = model(c, n, same)
    kw, kinds = geom(c, ms)
    al = c.p(0.5)
    feats = c.p(0.7)
    form = [c.pick("list", "tuple") if not same else c.pick("list", "padded") for _ in range(2)]
    mk = {"list": list, "tuple": tuple, "padded": lambda x: torch.stack(x)}
    if c.p(0.15):
        form[1] = "padded"
    f = [m["f"] for m in ms]
    f = pad(f) if form[1] == "padded" else mk[form[1]](f)
    v = Volumes(densities=mk[form[0]]([m["d"] for m in ms]), features=f if feats else None, align_corners=al, **kw)
    c.count("hetero", len({tuple(m["s"]) for m in ms}) > 1)
    c.count("unaligned", not al)
    ops = []
    judge(c, v, ms, al, feats, "start")
    for _ in range(c.i(0, 3)):
        op = c.pick("index", "clone", "to", "update")
        ops.append(op)
        if op == "index":
            kind, idx, sel = gen.index(c, len(ms))
            if not sel:
                continue
            before = v
            v, ms2 = v[idx], [ms[i] for i in sel]
            ops[-1] += kind
            if c.p(0.3):
                judge(c, before, ms, al, feats, "the indexed batch itself, after " + ",".join(ops))
            ms = ms2
            c.count("index")
        elif op == "clone":
            w = v.clone()
            c.check(w.densities().data_ptr() != v.densities().data_ptr(), "clone shares memory")
            if c.p(0.5):  # changing the clone's data leaves the original alone
                w.densities().fill_(7)
                if feats:
                    w.features().fill_(7)
                w = v
            v = w
        elif op == "to":
            cp = c.p(0.5)
            w = v.to("cpu", copy=cp)
            c.check((w is v) != cp, "to(copy)")
            v = w
        elif op == "update":
            old, oldms = v, ms
            ms = [dict(m) for m in ms]
            for m in ms:
                m["d"] = c.rand(*m["d"].shape)
                m["f"] = c.rand(*m["f"].shape)
            big = v.densities().shape[2:]

            def padb(ts):
                out = torch.zeros(len(ts), ts[0].shape[0], *big)
                for i, t in enumerate(ts):
                    out[(i,) + tuple(slice(0, q) for q in t.shape)] = t
                return out
            nf = padb([m["f"] for m in ms]) if c.p(0.6) else None
            v = v.update_padded(padb([m["d"] for m in ms]), nf)
            judge(c, old, oldms, al, feats, "the updated batch itself")
            feats = nf is not None
            c.count("update")
        judge(c, v, ms, al, feats, "after " + ",".join(ops))
    c.sig([m["s"] for m in ms], kinds, al, feats, form, ops)


@monitor(quick=150, thorough=4000, need=("voxels",))
def locator(c):
    """VolumeLocator on its own, with every documented form of grid_sizes."""
    from pytorch3d.structures.volumes import VolumeLocator
    n = c.i(1, 4)
    form = c.pick("tuple", "lists", "tensor", "tensors")
    ms = model(c, n, form == "tuple")
    kw, kinds = geom(c, ms)
    al = c.p(0.5)
    s = [m["s"] for m in ms]
    gs = {"tuple": tuple(s[0]), "lists": [tuple(x) for x in s], "tensor": torch.tensor(s), "tensors": [torch.tensor(x) for x in s]}[form]
    loc = VolumeLocator(batch_size=n, grid_sizes=gs, device=torch.device("cpu"), align_corners=al, **kw)
    c.sig(form, s, kinds, al)
    judge_locator(c, loc, ms, al, form)
    c.equal(len(loc), n, "len")
    judge_locator(c, loc.clone() if c.p(0.5) else loc.to("cpu", copy=True), ms, al, form + " copied")


@monitor(quick=150, thorough=3000, need=("rejected",))
def rejects(c):
    """Features or updates that do not fit the grid raise ValueError."""
    from pytorch3d.structures import Volumes
    n = c.i(1, 3)
    ms = model(c, n, c.p(0.5))
    d, f = [m["d"] for m in ms], [m["f"] for m in ms]
    how = c.pick("batch", "size", "channels", "ndim", "update", "voxel", "translation")
    c.sig(how, [m["s"] for m in ms])
    ax = c.i(1, 3)
    if how == "batch":
        bad = lambda: Volumes(densities=d, features=f + f[:1])
    elif how == "size":
        g = list(f)
        j = c.i(0, n - 1)
        g[j] = torch.cat([g[j], g[j].narrow(ax, 0, 1)], ax)
        bad = lambda: Volumes(densities=d, features=g)
    elif how == "channels":
        if n == 1:
            return
        g = list(f)
        g[-1] = torch.cat([g[-1], g[-1]])
        bad = lambda: Volumes(densities=d, features=g)
    elif how == "ndim":
        bad = lambda: Volumes(densities=d, features=[x[0] for x in f])
    elif how == "update":
        v = Volumes(densities=d, features=f)
        x = v.densities()
        x = torch.cat([x, x.narrow(ax + 1, 0, 1)], ax + 1)
        bad = lambda: v.update_padded(x)
    elif how == "voxel":
        bad = lambda: Volumes(densities=d, voxel_size=[1.0, 2.0])
    else:
        bad = lambda: Volumes(densities=d, volume_translation=torch.zeros(n + 1, 3))
    c.raises(ValueError, bad, f"{how}: accepted")
    c.count("rejected")
