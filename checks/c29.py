"""Splatting points into volumes against a float64 loop over points and their eight voxels."""
import itertools
import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("batches of 1..3 clouds of 0..12 points in, on the border of and outside grids of 1..5 voxels per axis and element, both modes, masks, "
        "alignment, rescaling, given or absent initial features, native and Python; as tensors and as Pointclouds/Volumes; distinct = distinct (options, sizes)")
ASSUMPTIONS = ["nearest mode is not judged for points within 1e-4 of the middle between two voxels, gradients not within 1e-3 of a voxel centre",
               "the functions add to the initial volumes in place, as their implementation notes; only the returned volumes are judged"]


def locations(p, gs, align):
    """continuous zyx voxel positions of local xyz points"""
    s = gs.to(p).flip(-1)
    loc = (p + 1) / 2 * (s - 1) if align else (p + 1) / 2 * s - 0.5
    return loc.flip(-1)


def splat(p, f, w, gs, shape, mode, align):
    """densities (1, *shape) and feature sums (C, *shape) that the points add, differentiable"""
    loc = locations(p, gs, align)
    n = shape[0] * shape[1] * shape[2]
    dens, feat = p.new_zeros(n), p.new_zeros(n, f.shape[1])
    if mode == "nearest":
        base, corners = torch.floor(loc.detach() + 0.5), [(0, 0, 0)]
    else:
        base, corners = torch.floor(loc.detach()), list(itertools.product((0, 1), repeat=3))
    r = loc - base
    for o in corners:
        v = base.long() + torch.tensor(o)
        ok = ((v >= 0) & (v < gs)).all(1)
        wt = w.clone()
        if mode != "nearest":
            for k in range(3):
                wt = wt * (r[:, k] if o[k] else 1 - r[:, k])
        idx = (v[:, 0] * shape[1] + v[:, 1]) * shape[2] + v[:, 2]
        idx = torch.where(ok, idx, torch.zeros_like(idx))
        wt = wt * ok
        dens = dens.index_add(0, idx, wt)
        feat = feat.index_add(0, idx, wt[:, None] * f)
    return dens.view(1, *shape), feat.t().reshape(-1, *shape)


def points(c, n, gs, align):
    kind = c.pick("inside", "inside", "edge", "outside", "nodes", "clump")
    s = gs.flip(0).double()
    if kind == "inside":
        p = c.rand(n, 3, lo=-1, hi=1, dtype=D)
    elif kind == "edge":
        p = c.rand(n, 3, lo=-1, hi=1, dtype=D)
        k = c.randint(0, 3, (n,))
        p[torch.arange(n), k] = (c.randint(0, 2, (n,)).double() * 2 - 1) * (1 + c.rand(n, lo=-.2, hi=.3, dtype=D))
    elif kind == "outside":
        p = c.rand(n, 3, lo=-2.5, hi=2.5, dtype=D)
    elif kind == "nodes":
        v = torch.stack([c.randint(0, int(q), (n,)) for q in s], 1).double()
        p = (v / (s - 1).clamp(min=1) * 2 - 1) if align else (v + 0.5) / s * 2 - 1
    else:
        p = c.rand(1, 3, lo=-1, hi=1, dtype=D) + c.randn(n, 3, dtype=D) * 0.05
    return p.float(), kind


@monitor(quick=1500, thorough=40000, need=("outside", "below the grid", "masked", "gradients", "python", "features None"))
def tensors(c):
    from pytorch3d.ops.points_to_volumes import add_points_features_to_volume_densities_features as add
    N, C, P = c.i(1, 3), c.i(1, 4), c.i(0, 12) if c.p(0.1) else c.i(1, 12)
    align = c.p(0.5)
    lo = 2 if align and c.p(0.8) else 1
    same = c.p(0.4)
    s0 = [c.i(lo, 5) for _ in range(3)]
    gs = torch.tensor([s0 if same else [c.i(lo, 5) for _ in range(3)] for _ in range(N)])
    shape = [int(x) + (0 if same or c.p(0.6) else c.i(0, 2)) for x in gs.max(0)[0]]
    mode = c.pick("trilinear", "trilinear", "nearest")
    cl = [points(c, P, gs[k], align) for k in range(N)]
    pts, kinds = torch.stack([x[0] for x in cl]), [x[1] for x in cl]
    f = c.randn(N, P, C)
    mask = (c.rand(N, P) < 0.7).float() if c.p(0.5) else None
    d0 = c.rand(N, 1, *shape) if c.p(0.6) else torch.zeros(N, 1, *shape)
    f0 = None if c.p(0.15) else c.randn(N, C, *shape) if c.p(0.6) else torch.zeros(N, C, *shape)
    rescale, python = c.p(0.5), c.p(0.35)
    kw = dict(mode=mode, mask=mask, rescale_features=rescale, align_corners=align)
    mw = 1e-4
    if c.p(0.3):
        mw = kw["min_weight"] = c.pick(1e-6, 0.1, 2.0)
    if not (gs == torch.tensor(shape)).all() or c.p(0.4):
        kw["grid_sizes"] = gs
    if python:
        kw["_python"] = True
        c.count("python")
    loc = torch.stack([locations(pts[k].double(), gs[k], align) for k in range(N)])
    if mode == "nearest" and P:
        fr = (loc - torch.floor(loc) - 0.5).abs()
        if bool((fr < 1e-4).any()):
            return
    w = mask.double() if mask is not None else torch.ones(N, P, dtype=D)
    grads = c.p(0.5) and P > 0
    leaves = dict(p=pts.clone(), f=f.clone(), d=d0.clone())
    if f0 is not None:
        leaves["g"] = f0.clone()
    refs = {k: v.double() for k, v in leaves.items()}
    if grads:
        for t in (*leaves.values(), *refs.values()):
            t.requires_grad_(True)
    # the volumes are added to in place: hand over copies
    vf, vd = add(leaves["p"], leaves["f"], leaves["d"] * 1, leaves["g"] * 1 if f0 is not None else None, **kw)
    wd, wf = [], []
    for k in range(N):
        a, b = splat(refs["p"][k], refs["f"][k], w[k], gs[k], shape, mode, align)
        wd.append(refs["d"][k] + a)
        wf.append(b + (refs["g"][k] if f0 is not None else 0))
    wd, wf = torch.stack(wd), torch.stack(wf)
    if rescale:
        wf = wf / wd.clamp(min=mw if mode == "trilinear" else 1.0)
    amp = 1 / mw if rescale and mode == "trilinear" else 1
    # an almost empty voxel divides rounding noise of both its sums
    small = (1 / wd.detach().clamp(min=mw)) if rescale and mode == "trilinear" else torch.ones_like(wd)
    c.close(vd, wd, f"{mode}: densities", atol=1e-5)
    c.close(vf, wf, f"{mode}: features", atol=(1e-5 * small * (1 + wf.detach().abs())).expand_as(wf))
    if mode == "trilinear" and mask is None:
        inside = ((loc >= 0) & (loc <= gs[:, None].double() - 1)).all(-1)
        gain = (vd.detach().double() - d0.double()).sum((1, 2, 3, 4))
        c.check((gain >= inside.sum(1) - 1e-4 * P).all() and (gain <= P + 1e-4).all(), "mass of the points", got=gain, want=inside.sum(1))
        if bool(inside.all()):
            c.count("mass conserved")
            c.check(((gain - P).abs() < 1e-4 * (1 + P)).all(), "every point inside adds one in total")
    if P > 1 and c.p(0.3) and not python:
        o = c.perm(P)
        kw2 = dict(kw, mask=mask[:, o] if mask is not None else None)
        f2, d2 = add(pts[:, o], f[:, o], d0.clone(), f0.clone() if f0 is not None else None, **kw2)
        c.close(d2, vd, "order of the points", atol=2e-5)
        c.count("reordered")
    if grads:
        near = (loc - torch.round(loc)).abs().amin(-1) < 1e-3
        a, b = c.randn(*vd.shape), c.randn(*vf.shape)
        ((vd * a).sum() + (vf * b).sum()).backward()
        ((wd * a.double()).sum() + (wf * b.double()).sum()).backward()
        lim = (1 + float(small.max())) ** 2 if rescale else 1
        kink = rescale and bool(((wd.detach() - (mw if mode == "trilinear" else 1)).abs() < 1e-4).any())
        if lim < 1e3 and not kink:
            tol = 3e-5 * lim * (1 + float(f0.abs().max() if f0 is not None else 0)) * 10
            c.close(leaves["f"].grad, refs["f"].grad, "gradient of the point features", atol=tol, rtol=1e-3)
            c.close(leaves["d"].grad, refs["d"].grad, "gradient of the initial densities", atol=tol, rtol=1e-3)
            if f0 is not None:
                c.close(leaves["g"].grad, refs["g"].grad, "gradient of the initial features", atol=tol, rtol=1e-3)
            if mode == "trilinear":
                c.close(leaves["p"].grad[~near], refs["p"].grad[~near], "gradient of the points", atol=tol, rtol=1e-3)
                c.count("gradients", int((~near).sum()))
    if P:
        c.count("outside", int(((loc < -1) | (loc > gs[:, None])).any()))
        c.count("below the grid", int(((loc < 0) & (loc > -1)).any()))
    c.count("masked", int(mask is not None))
    c.count("features None", int(f0 is None))
    c.sig("tensors", N, P, C, tuple(shape), same, mode, align, rescale, python, mask is not None, f0 is None, tuple(kinds))


@monitor(quick=500, thorough=12000, need=("ragged", "empty cloud"))
def structures(c):
    from pytorch3d.ops import add_pointclouds_to_volumes
    from pytorch3d.structures import Pointclouds, Volumes
    N, C = c.i(1, 3), c.i(1, 3)
    align = c.p(0.5)
    same = c.p(0.4)
    s0 = [c.i(2, 5) for _ in range(3)]
    gs = torch.tensor([s0 if same else [c.i(2, 5) for _ in range(3)] for _ in range(N)])
    shape = [int(x) for x in gs.max(0)[0]]
    ns = [c.i(0, 9) for _ in range(N)]
    if not any(ns):
        return
    mode = c.pick("trilinear", "nearest")
    loc = [points(c, n, gs[k], align)[0] if n else torch.zeros(0, 3) for k, n in enumerate(ns)]
    fs = [c.randn(n, C) for n in ns]
    vs, tr = c.rand(N, 3, lo=0.3, hi=2), c.randn(N, 3)
    den = [c.rand(1, *s) for s in gs.tolist()]
    fea = [c.randn(C, *s) for s in gs.tolist()]
    vol = Volumes(features=[x.clone() for x in fea], densities=[x.clone() for x in den], voxel_size=vs, volume_translation=tr, align_corners=align)
    # the volume is centred on minus its translation; local -1..1 are the outer voxel centres or the outer faces
    world = []
    for k in range(N):
        s = gs[k].flip(0).double()
        half = (s - 1) / 2 * vs[k].double()
        world.append((loc[k].double() * half - tr[k].double()).float())
    back = [((w.double() + tr[k].double()) / ((gs[k].flip(0).double() - 1) / 2 * vs[k].double())) for k, w in enumerate(world)]
    pcl = Pointclouds(world, features=fs)
    rescale, python = c.p(0.5), c.p(0.3)
    kw = dict(mode=mode, rescale_features=rescale)
    if python:
        kw["_python"] = True
    for k in range(N):
        l = locations(back[k], gs[k], align)
        if mode == "nearest" and ns[k] and bool(((l - torch.floor(l) - 0.5).abs() < 1e-4).any()):
            return
    out = add_pointclouds_to_volumes(pcl, vol, **kw)
    c.check(isinstance(out, Volumes) and len(out) == N, "type of the result")
    c.equal(out.get_grid_sizes(), gs, "grid sizes")
    c.close(out.get_coord_grid(), vol.get_coord_grid(), "geometry of the volumes", atol=1e-6)
    for k in range(N):
        a, b = splat(back[k], fs[k].double(), torch.ones(ns[k], dtype=D), gs[k], gs[k].tolist(), mode, align)
        wd, wf = den[k].double() + a, fea[k].double() + b
        if rescale:
            wf = wf / wd.clamp(min=1e-4 if mode == "trilinear" else 1.0)
        q = tuple(slice(0, x) for x in gs[k].tolist())
        small = 1 / wd.clamp(min=1e-4) if rescale and mode == "trilinear" else torch.ones_like(wd)
        got_d, got_f = out.densities()[k], out.features()[k]
        c.close(got_d[(slice(None), *q)], wd, f"{mode}: densities", atol=2e-5)
        c.close(got_f[(slice(None), *q)], wf, f"{mode}: features", atol=(2e-5 * small * (1 + wf.abs())).expand_as(wf))
        rest = got_d.clone()
        rest[(slice(None), *q)] = 0
        c.check((rest == 0).all(), "padding of the densities")
        c.count("empty cloud", int(ns[k] == 0))
    c.count("ragged", int(not same))
    c.sig("structures", tuple(ns), mode, align, rescale, python, same)
