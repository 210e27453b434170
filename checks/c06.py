"""Pointclouds: histories of operations against a plain list of (points, normals, features)."""
import numpy as np
import torch
from lib import gen
from lib.harness import monitor

D = torch.float64
TECHNIQUE = "runtime monitoring: model-based operation histories, all views compared to a list-of-clouds model after every step"
RULE = ("random histories of up to 7 operations on batches of 1-5 clouds (0-12 points, with or without normals and features, each given as list or padded tensor), "
        "with a random subset of cached views computed before every operation; distinct = distinct (build, sizes, warmed views, operation sequence)")
ASSUMPTIONS = ["in-place operations are applied to objects that share no storage with others, as documented",
               "a batch whose clouds are all empty is only required to be empty in all its views"]

WARM = ["points_packed", "points_padded", "normals_packed", "normals_padded", "features_packed", "features_padded", "points_list",
        "normals_list", "features_list", "padded_to_packed_idx", "packed_to_cloud_idx"]


def verify(c, pc, model, what, loose=False):
    N = len(model)
    c.check(len(pc) == N, f"{what}: len {len(pc)} != {N}")
    nP = [len(p) for p, _, _ in model]
    empty = N == 0 or not any(nP)
    c.check(bool(pc.isempty()) == empty, f"{what}: isempty() is {pc.isempty()}")
    if N == 0:
        return
    c.equal(pc.num_points_per_cloud().tolist(), nP, f"{what}: num_points_per_cloud")
    if empty:
        c.count("all_empty")
        c.equal(len(pc.points_packed()), 0, f"{what}: packed points of an empty batch")
        c.equal(pc.points_padded().shape[0], N, f"{what}: padded points of an empty batch")
        return
    P = max(nP)
    off = [sum(nP[:i]) for i in range(N)]
    t = dict(atol=1e-5, rtol=1e-5)
    for view in c.perm(4):
        if view == 0:
            for k, nm in enumerate(("points", "normals", "features")):
                lst = getattr(pc, nm + "_list")()
                if model[0][k] is None:
                    c.check(lst is None, f"{what}: {nm}_list appears from nowhere")
                    continue
                c.check(lst is not None, f"{what}: {nm} got lost (list)")
                c.check(len(lst) == N, f"{what}: {nm}_list length")
                for i in range(N):
                    if nP[i]:
                        c.close(lst[i], model[i][k], f"{what}: {nm}_list[{i}]", **t)
                    else:
                        c.equal(len(lst[i]), 0, f"{what}: {nm}_list[{i}] of an empty cloud")
        elif view == 1:
            for k, nm in enumerate(("points", "normals", "features")):
                x = getattr(pc, nm + "_packed")()
                if model[0][k] is None:
                    c.check(x is None, f"{what}: {nm}_packed appears from nowhere")
                    continue
                c.check(x is not None, f"{what}: {nm} got lost (packed)")
                c.close(x, torch.cat([m[k] for m in model]), f"{what}: {nm}_packed", **t)
            c.equal(pc.packed_to_cloud_idx().tolist(), [i for i in range(N) for _ in range(nP[i])], f"{what}: packed_to_cloud_idx")
            c.equal(pc.cloud_to_packed_first_idx().tolist(), off, f"{what}: cloud_to_packed_first_idx")
        elif view == 2:
            for k, nm in enumerate(("points", "normals", "features")):
                x = getattr(pc, nm + "_padded")()
                if model[0][k] is None:
                    c.check(x is None, f"{what}: {nm}_padded appears from nowhere")
                    continue
                c.check(x is not None, f"{what}: {nm} got lost (padded)")
                C = model[0][k].shape[1]
                c.equal(tuple(x.shape), (N, P, C), f"{what}: {nm}_padded shape")
                for i in range(N):
                    c.close(x[i, :nP[i]], model[i][k], f"{what}: {nm}_padded[{i}]", **t)
                    if not loose:
                        c.equal(x[i, nP[i]:], torch.zeros(P - nP[i], C), f"{what}: padding of {nm}_padded[{i}]")
            c.equal(pc.padded_to_packed_idx().tolist(), [i * P + j for i in range(N) for j in range(nP[i])], f"{what}: padded_to_packed_idx")
        else:
            i = c.i(0, N - 1)
            got = pc.get_cloud(i)
            for k in range(3):
                if model[0][k] is not None and nP[i]:
                    c.close(got[k], model[i][k], f"{what}: get_cloud({i})[{k}]", **t)
            if all(nP):
                want = torch.stack([torch.stack([p.min(0)[0], p.max(0)[0]], 1) for p, _, _ in model])
                c.close(pc.get_bounding_boxes(), want, f"{what}: get_bounding_boxes", **t)
            lo = c.randn(3).clamp(max=0.3)
            box = torch.stack([lo, lo + c.rand(3, lo=0, hi=2)])
            if c.p(0.5):
                lo = c.randn(N, 3).clamp(max=0.3)
                box = torch.stack([lo, lo + c.rand(N, 3, lo=0, hi=2)], 1)
            elif c.p(0.3):
                box = box[None]
            bb = box.expand(N, 2, 3) if box.dim() == 3 else box[None].expand(N, 2, 3)
            pk = torch.cat([m[0] for m in model])
            # a face of the box goes exactly through a point
            got = pc.inside_box(box)
            want = torch.cat([((p >= bb[i, 0]) & (p <= bb[i, 1])).all(1) for i, (p, _, _) in enumerate(model)])
            near = torch.cat([((p - bb[i, 0]).abs().min(1)[0] < 1e-5) | ((p - bb[i, 1]).abs().min(1)[0] < 1e-5) for i, (p, _, _) in enumerate(model)])
            c.equal(got[~near], want[~near], f"{what}: inside_box")
            c.equal(tuple(got.shape), (len(pk),), f"{what}: inside_box shape")


def build(c, sizes=None, nrm=None, C=None, mixed=True):
    from pytorch3d.structures import Pointclouds
    if sizes is None:
        n = c.i(1, 4)
        sizes = [0 if c.p(0.15) else c.i(1, 12) for _ in range(n)]
        if c.p(0.25):
            sizes = [sizes[0]] * n
    nrm = c.p(0.5) if nrm is None else nrm
    C = c.pick(None, 1, 3, 4) if C is None else C or None
    model = [(c.randn(s, 3), torch.nn.functional.normalize(c.randn(s, 3), dim=1) if nrm else None, c.randn(s, C) if C else None) for s in sizes]
    forms = []
    args = {}
    equal = len(set(sizes)) == 1 and sizes[0] > 0
    for k, nm in enumerate(("points", "normals", "features")):
        if model[0][k] is None:
            continue
        # padded constructor input means that every cloud has all points
        form = c.pick("list", "padded") if equal else "list"
        if nm != "points" and form == "list" and max(sizes) and c.p(0.3):
            form = "padded_aux"
        forms.append(form)
        if form == "list":
            args[nm] = [m[k].clone() for m in model]
        else:
            P = max(sizes)
            args[nm] = torch.stack([torch.cat([m[k], torch.zeros(P - len(m[k]), m[k].shape[1])]) for m in model])
    return Pointclouds(**args), model, (tuple(sizes), tuple(forms), nrm, C)


def warm(c, pc):
    used = []
    for w in WARM:
        if c.p(0.2):
            getattr(pc, w)()
            used.append(w)
    return tuple(used)


@monitor(quick=3000, need=("index", "clone", "offset", "scale", "extend", "split", "update_padded", "subsample", "join", "scene", "normals", "all_empty"))
def histories(c):
    from pytorch3d.structures import Pointclouds, join_pointclouds_as_batch, join_pointclouds_as_scene
    pc, model, desc = build(c)
    hist, trail = [desc], [warm(c, pc)]
    if c.p(0.6):
        verify(c, pc, model, f"built {desc}")
    loose = False
    for _ in range(c.i(1, 6)):
        N = len(model)
        sizes = [len(m[0]) for m in model]
        P = max(sizes)
        empty = not any(sizes)
        if c.p(0.7):
            trail.append(warm(c, pc))
        op = c.pick("index", "clone", "detach", "to", "offset", "offset_", "offset3", "scale", "scale_", "extend", "split", "update_padded",
                    "subsample", "join", "scene", "normals")
        if empty and op not in ("index", "clone", "extend"):
            continue
        old, oldmodel, oldloose = pc, [tuple(None if x is None else x.clone() for x in m) for m in model], loose
        changed_self = False
        if op == "index":
            k, ix, sel = gen.index(c, N)
            pc = pc[ix]
            model = [model[i] for i in sel]
            op = "index:" + k
            c.count("index")
            if not model:
                c.check(len(pc) == 0, "selecting nothing gives clouds")
                break
            loose = False
            if c.p(0.5):
                pc = pc.clone()
        elif op in ("clone", "detach", "to"):
            pc = pc.clone() if op == "clone" else pc.detach().clone() if op == "detach" else pc.to("cpu", copy=True)
            c.count("clone")
        elif op in ("offset", "offset_", "offset3"):
            o = [c.randn(s, 3) for s in sizes]
            oo = torch.cat(o)
            if op == "offset3":
                oo = c.randn(3)
                o = [oo] * N
            if op == "offset_":
                pc = pc.clone()
                trail.append(warm(c, pc))
                c.check(pc.offset_(oo) is pc, "offset_ does not return self")
            else:
                pc = pc.offset(oo)
            model = [(m[0] + o[i], m[1], m[2]) for i, m in enumerate(model)]
            c.count("offset")
        elif op in ("scale", "scale_"):
            s = c.rand(N, lo=0.3, hi=2) * c.pick(1, -1)
            arg = s
            if c.p(0.3):
                arg = c.u(0.3, 2)
                s = torch.full((N,), arg)
            if op == "scale_":
                pc = pc.clone()
                trail.append(warm(c, pc))
                pc.scale_(arg)
            else:
                pc = pc.scale(arg)
            model = [(m[0] * s[i], m[1], m[2]) for i, m in enumerate(model)]
            c.count("scale")
        elif op == "extend":
            k = c.i(1, 3)
            pc = pc.extend(k)
            model = [m for m in model for _ in range(k)]
            loose = False
            c.count("extend")
        elif op == "split":
            cut = c.i(0, N)
            a, b = pc.split([cut, N - cut])
            c.check(len(a) == cut and len(b) == N - cut, "split sizes")
            if cut:
                verify(c, a, model[:cut], f"first part of a split after {hist}")
            if cut == N:
                continue
            pc, model, loose = b, model[cut:], False
            c.count("split")
        elif op == "update_padded":
            kw, new = {}, [None, None, None]
            new[0] = c.randn(N, P, 3)
            if model[0][1] is not None and c.p(0.5):
                new[1] = torch.nn.functional.normalize(c.randn(N, P, 3), dim=2)
            if model[0][2] is not None and c.p(0.5):
                new[2] = c.randn(N, P, model[0][2].shape[1])
            c.raises(ValueError, lambda: pc.update_padded(c.randn(N, P + 1, 3)), "update_padded accepts another number of points")
            pc = pc.update_padded(new[0].clone(), *[None if x is None else x.clone() for x in new[1:]])
            model = [tuple(m[k] if new[k] is None else new[k][i, :sizes[i]].clone() for k in range(3)) for i, m in enumerate(model)]
            loose = True
            c.count("update_padded")
        elif op == "subsample":
            mx = [c.i(1, 10) for _ in range(N)]
            arg = mx
            if c.p(0.4):
                arg = mx[0]
                mx = [arg] * N
            elif c.p(0.5):
                arg = torch.tensor(mx)
            sub = pc.subsample(arg)
            want = [min(s, m) for s, m in zip(sizes, mx)]
            c.equal(sub.num_points_per_cloud().tolist(), want, f"subsample sizes after {hist}")
            new = []
            for i in range(N):
                got = sub.points_list()[i]
                used = set()
                ids = []
                for row in got:
                    d = (model[i][0] - row).abs().max(1)[0]
                    ok = [j for j in torch.nonzero(d < 1e-6).flatten().tolist() if j not in used]
                    c.check(bool(ok), f"subsample returns a point twice or one that is not in the cloud, after {hist}")
                    used.add(ok[0])
                    ids.append(ok[0])
                if sizes[i] <= mx[i]:
                    c.equal(ids, list(range(sizes[i])), "a cloud that is small enough was changed by subsample")
                new.append(tuple(None if x is None else x[ids] for x in model[i]))
            if sub is not pc:
                loose = False
            pc, model = sub, new
            c.count("subsample")
        elif op == "join":
            o, om, _ = build(c, sizes=[c.i(1, 9) for _ in range(c.i(1, 2))], nrm=model[0][1] is not None, C=0 if model[0][2] is None else model[0][2].shape[1])
            trail.append(warm(c, o))
            pc = join_pointclouds_as_batch([pc, o])
            model = model + om
            loose = False
            c.count("join")
        elif op == "scene":
            pc = join_pointclouds_as_scene(pc) if c.p(0.5) else join_pointclouds_as_scene([pc[i] for i in range(N)])
            model = [tuple(None if model[0][k] is None else torch.cat([m[k] for m in model]) for k in range(3))]
            loose = loose and N == 1
            c.count("scene")
        elif op == "normals":
            if min(sizes) < 5:
                continue
            asg = c.p(0.6)
            pc = pc.clone()
            trail.append(warm(c, pc))
            est = pc.estimate_normals(neighborhood_size=4, disambiguate_directions=c.p(0.5), assign_to_self=asg)
            c.equal(tuple(est.shape), (N, P, 3), "estimate_normals shape")
            if asg:
                model = [(m[0], est[i, :sizes[i]].clone(), m[2]) for i, m in enumerate(model)]
                loose = True
            c.count("normals")
        hist.append(op)
        if len(model) > 8 or sum(len(m[0]) for m in model) > 150:
            pc, model = pc[[0, len(model) - 1]], [model[0], model[-1]]
            hist.append("trim")
            loose = False
        verify(c, pc, model, f"after {hist}", loose)
        if pc is not old and c.p(0.4):
            verify(c, old, oldmodel, f"the batch before {op} ({hist})", oldloose)
    c.sig(*hist, *trail)


@monitor(quick=400)
def rejects(c):
    from pytorch3d.structures import Pointclouds, join_pointclouds_as_batch
    n = c.i(1, 3)
    P = c.i(1, 5)
    pts = [c.randn(P, 3) for _ in range(n)]
    c.sig(n, P)
    bad = [
        ("2-D points", lambda: Pointclouds(points=[c.randn(P, 2)] * n)),
        ("wrong padded points", lambda: Pointclouds(points=c.randn(n, P, 4))),
        ("features of the wrong count", lambda: Pointclouds(points=pts, features=[c.randn(P + 1, 4)] * n)),
        ("a wrong number of feature tensors", lambda: Pointclouds(points=pts, features=[c.randn(P, 4)] * (n + 1))),
        ("padded features of the wrong size", lambda: Pointclouds(points=pts, features=c.randn(n, P + 1, 4))),
        ("4-D normals", lambda: Pointclouds(points=pts, normals=[c.randn(P, 4)] * n)),
        ("a tuple as points", lambda: Pointclouds(points="abc")),
        ("an invalid box", lambda: Pointclouds(points=pts).inside_box(torch.tensor([[1., 1, 1], [0, 2, 2]]))),
        ("a box of the wrong shape", lambda: Pointclouds(points=pts).inside_box(c.randn(6))),
        ("boxes of another batch size", lambda: Pointclouds(points=pts).inside_box(torch.stack([torch.zeros(n + 1, 3), torch.ones(n + 1, 3)], 1))),
        ("offsets of the wrong size", lambda: Pointclouds(points=pts).offset(c.randn(n * P + 1, 3))),
        ("extend(0)", lambda: Pointclouds(points=pts).extend(0)),
        ("a wrong number of max_points", lambda: Pointclouds(points=pts).subsample([1] * (n + 1))),
        ("joining clouds with and without features", lambda: join_pointclouds_as_batch([Pointclouds(points=pts), Pointclouds(points=pts, features=[c.randn(P, 2)] * n)])),
        ("joining different feature sizes", lambda: join_pointclouds_as_batch([Pointclouds(points=pts, features=[c.randn(P, 3)] * n), Pointclouds(points=pts, features=[c.randn(P, 2)] * n)])),
    ]
    if n > 1:
        bad.append(("features of different sizes", lambda: Pointclouds(points=pts, features=[c.randn(P, 2 + i) for i in range(n)])))
    nm, f = bad[c.i(0, len(bad) - 1)]
    c.raises(ValueError, f, nm + " is accepted")
    c.raises(IndexError, lambda: Pointclouds(points=pts)[torch.tensor([0.5])], "a float index is accepted")


@monitor(quick=150)
def normals_of_planes(c):
    """Estimated normals: those of a plane, per cloud, for clouds of different sizes."""
    from pytorch3d.structures import Pointclouds
    from pytorch3d.ops import estimate_pointcloud_normals
    n = c.i(1, 3)
    pts, nrm = [], []
    for _ in range(n):
        s = c.i(15, 40)
        d = torch.nn.functional.normalize(c.randn(3), dim=0)
        a = torch.linalg.cross(d, c.randn(3))
        a = a / a.norm()
        b = torch.linalg.cross(d, a)
        pts.append(c.randn(s, 1) * a + c.randn(s, 1) * b + c.randn(3) * c.pick(0, 2))
        nrm.append(d)
    c.sig(n, [len(p) for p in pts])
    k = c.i(8, 12)
    kw = dict(neighborhood_size=k, disambiguate_directions=c.p(0.5))
    if c.p(0.5):
        est = Pointclouds(points=pts).estimate_normals(**kw)
    else:
        m = min(map(len, pts))
        pts = [p[:m] for p in pts]
        est = estimate_pointcloud_normals(torch.stack(pts), **kw)
    for i in range(n):
        e = est[i, :len(pts[i])]
        c.close(e.norm(dim=1), torch.ones(len(e)), "estimated normals are not unit vectors", atol=1e-3, rtol=0)
        cos = (e @ nrm[i]).abs()
        bad = cos < 0.999
        c.check(not bool(bad.any()), f"estimated normals of a plane are off by up to acos({float(cos.min()):.4f})", pts=pts[i])
