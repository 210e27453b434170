"""View pooling: sampling source views at projections, aggregating valid views, vertex alignment."""
import warnings

import torch

from lib.harness import monitor

TECHNIQUE = ("runtime monitoring: a float64 per-point, per-view projection and interpolation loop judges every sampled feature, float64 reductions over the valid views judge the aggregates, "
             "and poisoned invalid views, removed views and permuted views must leave them unchanged")
RULE = ("camera models x NDC or screen space x feature map sizes x masks x sequences x aggregators x reductions x source view orders; distinct = distinct (component, options, sizes)")
ASSUMPTIONS = ["points within 0.05 of a camera plane are not generated", "nearest reads away from ties", "masks of the reductions are binary, except for the weighted average and deviation",
               "invalid views hold large finite features (not NaN)"]

D = torch.float64
M = None


def mods():
    global M
    if M is None:
        import logging
        import types
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.models.view_pooler import feature_aggregator as fa
        from pytorch3d.implicitron.models.view_pooler.view_pooler import ViewPooler
        from pytorch3d.implicitron.models.view_pooler.view_sampler import ViewSampler
        from pytorch3d.implicitron.tools.config import expand_args_fields
        from pytorch3d.renderer import cameras as cm
        from pytorch3d import ops
        from pytorch3d.structures import Meshes, Pointclouds
        AGG = {k: getattr(fa, k) for k in ("IdentityFeatureAggregator", "ReductionFeatureAggregator", "AngleWeightedReductionFeatureAggregator",
                                           "AngleWeightedIdentityFeatureAggregator")}
        for k in (*AGG.values(), ViewSampler, ViewPooler):
            expand_args_fields(k)
        M = types.SimpleNamespace(A=AGG, F=fa.ReductionFunction, P=ViewPooler, S=ViewSampler, cm=cm, vert_align=ops.vert_align, Meshes=Meshes, Pointclouds=Pointclouds)
    return M


# ------------------------------------------------------------------- oracles
def weights(pos, n, padding, mode):
    """(P, n) weights of n values for continuous positions (value i at position i)."""
    idx = torch.arange(n, dtype=D)
    if padding == "border":
        pos = pos.clamp(0, n - 1)
    if mode == "nearest":
        return (pos.round()[:, None] == idx).double()
    return (1 - (pos[:, None] - idx).abs()).clamp(min=0)


def read(fmap, row, col, mode, padding="zeros"):
    """(P, C) reads of a (C, H, W) map at continuous positions; also which nearest reads are ambiguous."""
    f = fmap.double()
    wr, wc = weights(row, f.shape[1], padding, mode), weights(col, f.shape[2], padding, mode)
    amb = torch.zeros(len(row), dtype=torch.bool)
    if mode == "nearest":
        for x in (row, col):
            amb |= ((x - x.floor()) - 0.5).abs() < 1e-3 * (1 + x.abs())
    return torch.einsum("pi,pj,cij->pc", wr, wc, f), amb


def random_rotations(c, n):
    q, r = torch.linalg.qr(c.randn(n, 3, 3, dtype=D))
    q = q * torch.sign(torch.diagonal(r, dim1=1, dim2=2))[:, None]
    q[:, :, 0] *= torch.det(q)[:, None]
    return q


def cameras(c, n):
    """Cameras, with a float64 function (view, points) -> NDC positions and depth."""
    m = mods()
    kind = c.pick("persp", "persp", "ortho", "fovpersp", "fovortho", "screen persp", "screen ortho")
    R = random_rotations(c, n)
    if c.p(0.4):  # views of the origin
        centre = torch.nn.functional.normalize(c.randn(n, 3, dtype=D), dim=-1) * c.u(2, 4)
        z = torch.nn.functional.normalize(-centre, dim=-1)
        x = torch.nn.functional.normalize(torch.linalg.cross(c.randn(n, 3, dtype=D), z), dim=-1)
        R = torch.stack([x, torch.linalg.cross(z, x), z], -1)
        T = -torch.einsum("ni,nij->nj", centre, R)
    else:
        T = c.randn(n, 3, dtype=D) + torch.tensor([0.0, 0.0, 3.0], dtype=D)
    R, T = R.float(), T.float()
    size = (c.i(2, 40), c.i(2, 40))
    half = min(size) / 2
    screen = kind.startswith("screen")
    if "fov" in kind:
        if kind == "fovpersp":
            fov = c.rand(n, lo=30, hi=110)
            asp = c.rand(n, lo=0.6, hi=1.6)
            cams = m.cm.FoVPerspectiveCameras(R=R, T=T, fov=fov, aspect_ratio=asp, znear=0.5)
            f = torch.stack([1 / (torch.tan(torch.deg2rad(fov.double()) / 2) * asp.double()), 1 / torch.tan(torch.deg2rad(fov.double()) / 2)], -1)
            p = torch.zeros(n, 2, dtype=D)
        else:
            s = c.rand(n, 3, lo=0.4, hi=1.6)
            cams = m.cm.FoVOrthographicCameras(R=R, T=T, scale_xyz=s, max_x=1.5, min_x=-1.0, max_y=1.2, min_y=-1.3)
            f = torch.stack([s[:, 0].double() * 2 / 2.5, s[:, 1].double() * 2 / 2.5], -1)
            p = torch.tensor([[-0.5 / 2.5, 0.1 / 2.5]], dtype=D).repeat(n, 1)
    else:
        f32, p32 = c.rand(n, 2, lo=0.5, hi=3), c.rand(n, 2, lo=-0.4, hi=0.4)
        cls = m.cm.PerspectiveCameras if "persp" in kind else m.cm.OrthographicCameras
        if screen:
            fs = f32 * half
            ps = torch.tensor([size[1] / 2, size[0] / 2]) + p32 * half
            cams = cls(R=R, T=T, focal_length=fs, principal_point=ps, in_ndc=False, image_size=torch.tensor([size]).repeat(n, 1))
            f = fs.double() / half
            p = (torch.tensor([size[1] / 2, size[0] / 2], dtype=D) - ps.double()) / half
        else:
            cams = cls(R=R, T=T, focal_length=f32, principal_point=p32)
            f, p = f32.double(), p32.double()
    persp = "persp" in kind

    def project(v, pts):
        q = pts.double() @ R[v].double() + T[v].double()
        z = q[:, 2:]
        return q[:, :2] * f[v] / (z if persp else 1) + p[v], q[:, 2]

    c.count("screen cameras" if screen else "NDC cameras")
    c.count("perspective" if persp else "orthographic")
    centre = -torch.einsum("ni,nji->nj", T.double(), R.double())
    return kind, cams, project, centre


def points(c, b, n, project, views):
    """Points around the origin, away from every camera plane."""
    pts = c.randn(b, n, 3) * float(c.pick(0.3, 1, 2))
    for _ in range(20):
        bad = torch.zeros(b, n, dtype=torch.bool)
        for v in range(views):
            for i in range(b):
                bad[i] |= project(v, pts[i])[1].abs() < 0.05
        if not bad.any():
            return pts
        pts = torch.where(bad[..., None], c.randn(b, n, 3) * 2, pts)
    return None


def pixel(ndc, hw):
    h, w = hw
    half = min(h, w) / 2
    return h / 2 - ndc[:, 1] * half - 0.5, w / 2 - ndc[:, 0] * half - 0.5


def slack(ndc, hw, fmap):
    """Per point: change of the interpolated value for a float32-rounded projection."""
    spread = float(fmap.max() - fmap.min()) if fmap.numel() else 0.0
    spread = max(spread, float(fmap.abs().max()))
    return (2e-5 + 2e-5 * ndc.abs().max(-1).values * min(hw) + 2e-5 * max(hw)) * spread + 1e-6


def sequences(c, n, views, match):
    names = c.pick(["a", "b", "c"], [3, 5, -7])
    cam = [c.pick(*names) for _ in range(views)]
    pts = [cam[i] if (match and i < views) else c.pick(*names) for i in range(n)]
    same = torch.tensor([[p == q for q in cam] for p in pts])
    if not isinstance(names[0], str):
        if c.p(0.5):
            return torch.tensor(pts), torch.tensor(cam), same
    return pts, cam, same


def feature_maps(c, views):
    feats = {}
    for k in range(c.i(1, 3)):
        hw = (c.i(1, 12), c.i(1, 12))
        feats[f"f{k}"] = c.randn(views, c.i(1, 4), *hw) * float(c.pick(1, 1, 30)) + float(c.pick(0, 0, 5, -5))
    return feats


def sampled_want(c, pts, project, feats, masks, mode, masked, same):
    """Float64 sampled features, masks, tolerances, ambiguous entries."""
    B, V = same.shape
    out, tol = {}, {}
    amb = torch.zeros(B, V, pts.shape[1], dtype=torch.bool)
    mask = torch.zeros(B, V, pts.shape[1], 1, dtype=D)
    for k, f in feats.items():
        o = torch.zeros(B, V, pts.shape[1], f.shape[1], dtype=D)
        t = torch.full((B, V, pts.shape[1], 1), 1e-9, dtype=D)
        for b in range(B):
            for v in range(V):
                if not same[b, v]:
                    continue
                ndc, _ = project(v, pts[b])
                o[b, v], a = read(f[v], *pixel(ndc, f.shape[2:]), mode)
                amb[b, v] |= a
                t[b, v, :, 0] = slack(ndc, f.shape[2:], f[v])
        out[k], tol[k] = o, t
    mt = torch.full((B, V, pts.shape[1], 1), 1e-9, dtype=D)
    inside = 0
    for b in range(B):
        for v in range(V):
            if not same[b, v]:
                continue
            if masked:
                ndc, _ = project(v, pts[b])
                mask[b, v], a = read(masks[v], *pixel(ndc, masks.shape[2:]), mode)
                amb[b, v] |= a
                mt[b, v, :, 0] = slack(ndc, masks.shape[2:], masks[v])
                inside += int((mask[b, v] > 0).sum())
            else:
                mask[b, v] = 1
    c.count("points inside masks", inside)
    return out, tol, mask, mt, amb


@monitor(quick=2500, thorough=80000, need=("screen cameras", "NDC cameras", "perspective", "orthographic", "other sequences", "masked", "points inside masks", "nonzero features"))
def sampler(c):
    m = mods()
    V, B, n = c.i(1, 4), c.i(1, 3), c.i(1, 8)
    kind, cams, project, _ = cameras(c, V)
    pts = points(c, B, n, project, V)
    if pts is None:
        return
    feats = feature_maps(c, V)
    masks = (c.rand(V, 1, c.i(1, 12), c.i(1, 12)) > 0.4).float()
    mode = c.pick("bilinear", "bilinear", "nearest")
    masked = c.p(0.6)
    sp, sc, same = sequences(c, B, V, c.p(0.4))
    c.count("other sequences", int((~same).sum()))
    c.count("masked" if masked else "not masked")
    c.sig("sampler", kind, V, B, n, mode, masked, tuple(tuple(f.shape[1:]) for f in feats.values()))
    s = m.S(masked_sampling=masked, sampling_mode=mode)
    got, gm = s(pts=pts, seq_id_pts=sp, camera=cams, seq_id_camera=sc, feats=feats, masks=masks if masked or c.p(0.5) else None)
    want, tol, wm, mt, amb = sampled_want(c, pts, project, feats, masks, mode, masked, same)
    ok = (~amb)[..., None]
    c.equal(sorted(got), sorted(want), "names of the sampled features")
    for k in want:
        c.equal(tuple(got[k].shape), (B, V, n, feats[k].shape[1]), "shape of sampled features")
        c.close(torch.where(ok, got[k].double(), want[k]), want[k], f"features sampled from the source views of a {kind} camera", atol=tol[k].expand_as(want[k]), rtol=1e-5, pts=pts)
        c.count("nonzero features", int((want[k] != 0).any(-1).sum()))
    c.equal(tuple(gm.shape), (B, V, n, 1), "shape of sampled masks")
    c.close(torch.where(ok, gm.double(), wm), wm, "masks sampled from the source views", atol=mt, rtol=0, pts=pts)
    if masked:
        c.raises(ValueError, lambda: s(pts=pts, seq_id_pts=sp, camera=cams, seq_id_camera=sc, feats=feats, masks=None), "masked sampling without masks was accepted")


# --------------------------------------------------------------- aggregation
def angle_weights(pts, centre, min_w, gamma):
    """(B, V, P): the target view of element b is view b."""
    B, V = pts.shape[0], len(centre)
    d = torch.nn.functional.normalize(pts.double()[:, None] - centre[None, :, None], dim=-1)
    dots = torch.stack([(d[b] * d[b, b]).sum(-1) for b in range(B)])
    return (dots * 0.5 + 0.5 + min_w) ** gamma


def reduce_want(f, w, funs, F):
    """Float64 reductions of (B, V, P, C) with weights (B, V, P); the views of weight zero do not exist."""
    f = f.double()
    sw = w.sum(1, keepdim=True)[..., None].clamp(min=1e-2)
    f0 = torch.where(w[..., None] > 0, f, torch.zeros((), dtype=D))
    mu = (f0 * w[..., None]).sum(1, keepdim=True) / sw
    var = (torch.where(w[..., None] > 0, (f - mu) ** 2, torch.zeros((), dtype=D)) * w[..., None]).sum(1, keepdim=True) / sw
    std = var.clamp(min=1e-4).sqrt()
    out = []
    if F.AVG in funs:
        out.append(mu)
    if F.STD in funs:
        out.append(std)
    if F.STD_AVG in funs:
        out.append(std.mean(-1, keepdim=True))
    if F.MAX in funs:
        out.append(torch.where(w[..., None] > 0, f, torch.tensor(float("-inf"), dtype=D)).max(1, keepdim=True).values)
    res = torch.cat(out, -1)
    return torch.where((w.max(1, keepdim=True).values > 0)[..., None], res, torch.zeros((), dtype=D))


def functions(c, F, binary=True):
    funs = [F.AVG, F.STD, F.STD_AVG, F.MAX] if binary else [F.AVG, F.STD, F.STD_AVG]
    k = c.i(1, len(funs))
    return tuple(funs[i] for i in sorted(c.perm(len(funs))[:k]))


AGGS = ("IdentityFeatureAggregator", "ReductionFeatureAggregator", "AngleWeightedReductionFeatureAggregator", "AngleWeightedIdentityFeatureAggregator")


@monitor(quick=3000, thorough=100000, need=("reductions", "angle weighted", "identities", "invalid views", "no valid view", "target excluded", "target included", "dims of dictionaries", "max reductions"))
def aggregators(c):
    m = mods()
    name = c.pick(*AGGS)
    V = c.i(1, 5)
    B, n = c.i(1, V), c.i(1, 6)
    reducing, angled = "Reduction" in name, "Angle" in name
    kind, cams, project, centre = cameras(c, V)
    pts = c.randn(B, n, 3)
    binary = not angled and c.p(0.7)
    mask = c.rand(B, V, n, 1)
    mask = (mask > c.pick(0.2, 0.6, 0.95)).float() if binary or c.p(0.6) else torch.where(mask < 0.3, torch.zeros(()), mask)
    if not angled and bool(((mask == 0) | (mask == 1)).all()):
        binary = True
    kw = dict(exclude_target_view=c.p(0.6), exclude_target_view_mask_features=c.p(0.6), concatenate_output=c.p(0.6))
    funs = ()
    if reducing:
        funs = functions(c, m.F, binary)
        kw["reduction_functions"] = funs
    min_w, gamma = 0.1, 1.0
    if angled:
        min_w, gamma = c.u(0.05, 0.5), float(c.pick(0.5, 1, 2, 3))
        kw.update(min_ray_angle_weight=min_w, weight_by_ray_angle_gamma=gamma)
    feats = {f"f{k}": c.randn(B, V, n, c.i(1, 4)) * float(c.pick(1, 10)) + float(c.pick(0, 0, 8, -8)) for k in range(c.i(1, 3))}
    agg = m.A[name](**kw)
    c.count("reductions" if reducing else "identities")
    c.count("angle weighted", angled)
    c.count("max reductions", m.F.MAX in funs)
    c.count("target excluded" if kw["exclude_target_view"] else "target included")
    c.sig(name, V, B, n, kw["exclude_target_view"], kw["exclude_target_view_mask_features"], kw["concatenate_output"], tuple(f.value for f in funs), binary, min_w > 0.2, gamma)
    args = dict(camera=cams, pts=pts) if angled or c.p(0.5) else {}
    keep = {k: f.clone() for k, f in feats.items()}
    got = agg(feats, mask, **args)
    for k in feats:
        c.equal(feats[k], keep[k], "sampled features after an aggregation")

    target = torch.zeros(B, V, dtype=torch.bool)
    target[torch.arange(B), torch.arange(B)] = True
    src = {k: torch.where((target & torch.tensor(kw["exclude_target_view_mask_features"]))[..., None, None], torch.zeros(()), f) for k, f in feats.items()}
    w = mask[..., 0].double() * torch.where(target & torch.tensor(kw["exclude_target_view"]), 0.0, 1.0).double()[..., None]
    if angled:
        w = w * angle_weights(pts, centre, min_w, gamma)
    # weights that are neither clearly zero nor clearly valid are not judged
    judged = ((w.max(1).values > 2e-4) | (w.max(1).values == 0))[:, None, :, None]
    if reducing:
        want = {k: reduce_want(f, w, funs, m.F) for k, f in src.items()}
    elif angled:
        want = {k: f.double() * w[..., None] for k, f in src.items()}
        judged = torch.ones_like(judged)
    else:
        want = {k: f.double() for k, f in src.items()}
        judged = torch.ones_like(judged)
    c.count("invalid views", int((w == 0).sum()))
    c.count("no valid view", int((w.max(1).values == 0).sum()))
    scale = max(float(f.abs().max()) for f in feats.values())

    def compare(g, x, what):
        c.equal(tuple(g.shape), tuple(x.shape), f"shape of {what}")
        c.close(torch.where(judged, g.double(), x), x, what, atol=3e-5 * scale + 2e-4 * scale * ("Reduction" in name and any(f in (m.F.STD, m.F.STD_AVG) for f in funs)), rtol=1e-4)

    order = list(feats)
    if kw["concatenate_output"]:
        compare(got, torch.cat([want[k] for k in order], -1), f"concatenated output of {name}")
        dim = got.shape[-1]
    else:
        c.equal(list(got), order, "names of the aggregated features")
        for k in order:
            compare(got[k], want[k], f"output of {name}")
        dim = sum(g.shape[-1] for g in got.values())
    c.equal(agg.get_aggregated_feature_dim(feats), dim, "aggregated dimension of the sampled features")
    c.count("dims of dictionaries")
    if m.F.STD_AVG not in funs or len(feats) == 1:
        c.equal(agg.get_aggregated_feature_dim(sum(f.shape[-1] for f in feats.values())), dim, "aggregated dimension of a number of channels")
    c.equal(agg.has_aggregation(), reducing, "has_aggregation")

    if reducing:
        # the features of invalid views must not matter
        poisoned = {k: torch.where((w == 0)[..., None], c.randn(*f.shape) * 20 * scale, f) for k, f in feats.items()}
        again = agg(poisoned, mask, **args)
        a = got if kw["concatenate_output"] else torch.cat(list(got.values()), -1)
        b = again if kw["concatenate_output"] else torch.cat(list(again.values()), -1)
        # weights of zero: with the target's features masked, an included target stays valid with zeros
        c.close(torch.where(judged, b.double(), a.double()), a.double(), f"output of {name} after other features in the invalid views", atol=1e-4 * scale, rtol=1e-4)
        # the order of the source views that are not targets must not matter
        perm = list(range(B)) + [B + i for i in c.perm(V - B)]
        if angled:
            args = dict(camera=cams[perm], pts=pts)
        again = agg({k: f[:, perm] for k, f in feats.items()}, mask[:, perm], **args)
        b = again if kw["concatenate_output"] else torch.cat(list(again.values()), -1)
        c.close(b.double(), a.double(), f"output of {name} after permuting the source views", atol=1e-4 * scale, rtol=1e-4)


@monitor(quick=1200, thorough=40000, need=("pooled", "views removed", "points alone", "default aggregator"))
def pooler(c):
    m = mods()
    name = c.pick(*AGGS)
    V = c.i(2, 4)
    B, n = c.i(1, 2), c.i(1, 6)
    reducing, angled = "Reduction" in name, "Angle" in name
    kind, cams, project, centre = cameras(c, V)
    pts = points(c, B, n, project, V)
    if pts is None:
        return
    feats = feature_maps(c, V)
    masks = (c.rand(V, 1, c.i(1, 12), c.i(1, 12)) > 0.4).float()
    masked = c.p(0.5)
    mode = "nearest" if c.p(0.5) else "bilinear"
    sp, sc, same = sequences(c, B, V, True)
    kw = dict(exclude_target_view=c.p(0.6), exclude_target_view_mask_features=c.p(0.6), concatenate_output=True)
    funs = ()
    if reducing:
        funs = functions(c, m.F, not angled and (mode == "nearest" or not masked))
        kw["reduction_functions"] = funs
    args = {f"feature_aggregator_{name}_args": kw}
    if c.p(0.2) and name == "AngleWeightedReductionFeatureAggregator":
        c.count("default aggregator")
        p = m.P(**args, view_sampler_args=dict(masked_sampling=masked, sampling_mode=mode))
    else:
        p = m.P(feature_aggregator_class_type=name, **args, view_sampler_args=dict(masked_sampling=masked, sampling_mode=mode))
    c.sig("pooler", name, kind, V, B, mode, masked, tuple(f.value for f in funs))
    got = p(pts=pts, seq_id_pts=sp, camera=cams, seq_id_camera=sc, feats=feats, masks=masks)
    want, tol, wm, mt, amb = sampled_want(c, pts, project, feats, masks, mode, masked, same)
    target = torch.zeros(B, V, dtype=torch.bool)
    target[torch.arange(B), torch.arange(B)] = True
    if kw["exclude_target_view_mask_features"]:
        want = {k: torch.where(target[..., None, None], torch.zeros((), dtype=D), f) for k, f in want.items()}
    w = wm[..., 0] * torch.where(target & torch.tensor(kw["exclude_target_view"]), 0.0, 1.0).double()[..., None]
    if angled:
        w = w * angle_weights(pts, centre, 0.1, 1.0)
    if reducing:
        x = torch.cat([reduce_want(f, w, funs, m.F) for f in want.values()], -1)
    elif angled:
        x = torch.cat([f * w[..., None] for f in want.values()], -1)
    else:
        x = torch.cat(list(want.values()), -1)
    c.equal(tuple(got.shape), tuple(x.shape), "shape of pooled features")
    t = max(float(t.max()) for t in tol.values())
    scale = max(float(f.abs().max()) for f in feats.values())
    # a weight close to the thresholds of the reductions magnifies the rounding of the masks
    good = ~amb.any(1) if reducing else ~amb
    if reducing:
        s = w.sum(1)
        good &= ((s > 0.05) | (s == 0)) & ~((w > 0) & (w < 1e-2)).any(1)
        good = good[:, None]
    tolerance = 3 * (t + (float(mt.max()) * 20 * scale if masked else 0)) + 3e-4 * scale
    if tolerance < 0.05 * scale:
        c.count("pooled", int(good.sum()))
        c.close(torch.where(good[..., None], got.double(), x), x, f"features pooled by {name}", atol=tolerance * (3 if m.F.STD in funs or m.F.STD_AVG in funs else 1), rtol=1e-3)
    c.equal(p.has_aggregation(), reducing, "has_aggregation")
    c.equal(p.get_aggregated_feature_dim(sum(f.shape[1] for f in feats.values())) if len(feats) == 1 or m.F.STD_AVG not in funs else got.shape[-1], got.shape[-1], "dimension of pooled features")

    # other elements of the batch do not matter: element 0 alone
    if B > 1:
        alone = p(pts=pts[:1], seq_id_pts=sp[:1], camera=cams, seq_id_camera=sc, feats=feats, masks=masks)
        c.count("points alone")
        c.close(alone[0], got[0], "features pooled for one element of the batch", atol=1e-5 * scale + 1e-6, rtol=1e-4)
    # a view of another sequence can be left out
    others = [v for v in range(B, V) if not same[:, v].any()]
    if others and reducing:
        keep = [v for v in range(V) if v not in others]
        c.count("views removed")
        rest = p(pts=pts, seq_id_pts=sp, camera=cams[keep], seq_id_camera=[sc[v] for v in keep] if isinstance(sc, list) else sc[keep],
                 feats={k: f[keep] for k, f in feats.items()}, masks=masks[keep])
        c.close(rest, got, "features pooled without the views of other sequences", atol=1e-4 * scale + 1e-6, rtol=1e-4)


# --------------------------------------------------------------- vert_align
@monitor(quick=2500, thorough=80000, need=("tensors", "meshes", "clouds", "packed", "ragged packed clouds", "several maps", "gradients"))
def alignment(c):
    m = mods()
    N = c.i(1, 4)
    form = c.pick("tensors", "meshes", "clouds")
    align, mode, pad = c.p(0.5), c.pick("bilinear", "bilinear", "nearest"), c.pick("zeros", "border", "reflection")
    packed = c.p(0.5)
    feats = [c.randn(N, c.i(1, 4), c.i(1, 10), c.i(1, 10)) for _ in range(c.i(1, 3))]
    sizes = [c.i(0 if form == "clouds" and N > 1 else 1, 7) for _ in range(N)]
    if max(sizes) == 0:
        sizes[0] = 1
    pts = [c.rand(k, 3, lo=-1.4, hi=1.4) for k in sizes]
    if c.p(0.3):
        pts = [torch.where(c.rand(k, 3) < 0.3, torch.tensor(float(c.pick(-1, 1, 0))), p) for k, p in zip(sizes, pts)]
    if form == "tensors":
        k = sizes[0] or 1
        sizes = [k] * N
        t = c.rand(N, k, 3, lo=-1.4, hi=1.4)
        pts, v = list(t), t.clone().requires_grad_()
    elif form == "meshes":
        v = m.Meshes(pts, [torch.zeros(c.i(0, 2) if j else 1, 3, dtype=torch.int64) for j, _ in enumerate(pts)])
    else:
        v = m.Pointclouds(pts)
    c.count(form)
    c.count("packed", packed)
    c.count("ragged packed clouds", packed and form == "clouds" and len(set(sizes)) > 1)
    c.count("several maps", len(feats) > 1)
    single = len(feats) == 1 and c.p(0.5)
    c.sig(form, align, mode, pad, packed, tuple(sizes), tuple(tuple(f.shape[1:]) for f in feats))
    arg = feats[0] if single else feats
    if form == "tensors" and c.p(0.5):
        arg = [f.clone().requires_grad_() for f in feats] if not single else feats[0].clone().requires_grad_()
    got = m.vert_align(arg, v, return_packed=packed, interp_mode=mode, padding_mode=pad, align_corners=align)
    want, amb = [], []
    for i, p in enumerate(pts):
        row, a = [], torch.zeros(len(p), dtype=torch.bool)
        for f in feats:
            h, w = f.shape[2:]
            pos = []
            for x, k in ((p[:, 1], h), (p[:, 0], w)):
                x = x.double()
                q = (x + 1) / 2 * (k - 1) if align else ((x + 1) * k - 1) / 2
                if pad == "reflection":
                    lo, hi = (0.0, k - 1.0) if align else (-0.5, k - 0.5)
                    if hi == lo:
                        q = torch.zeros_like(q)
                    else:
                        r = torch.remainder(q - lo, 2 * (hi - lo))
                        q = (torch.where(r > hi - lo, 2 * (hi - lo) - r, r) + lo).clamp(0, k - 1)
                pos.append(q)
            val, b = read(f[i], *pos, mode, "border" if pad == "reflection" else pad)
            row.append(val)
            a |= b
        want.append(torch.cat(row, -1))
        amb.append(a)
    C = sum(f.shape[1] for f in feats)
    scale = max(float(f.abs().max()) for f in feats)
    tol = 1e-4 * scale
    if packed:
        x, a = torch.cat(want), torch.cat(amb)
        c.equal(tuple(got.shape), (sum(sizes), C), "shape of packed aligned features")
        c.close(torch.where(a[:, None], x, got.double()), x, f"packed features aligned with {form}", atol=tol, rtol=1e-4)
    else:
        c.equal(tuple(got.shape), (N, max(sizes), C), "shape of aligned features")
        for i, (x, a) in enumerate(zip(want, amb)):
            c.close(torch.where(a[:, None], x, got[i, :len(x)].double()), x, f"features aligned with {form}", atol=tol, rtol=1e-4)
    if form == "tensors" and not isinstance(arg, list) and arg.requires_grad or (isinstance(arg, list) and arg[0].requires_grad):
        # the features enter linearly: <gradient, features> equals the weighted sum of outputs
        g = c.randn(*got.shape)
        fs = arg if isinstance(arg, list) else [arg]
        grads = torch.autograd.grad((got * g).sum(), fs)
        c.count("gradients")
        c.close(sum((x.double() * f.double()).sum() for x, f in zip(grads, fs)), (got.double() * g.double()).sum(), "gradient of aligned features", atol=1e-3 * scale * (1 + got.numel()) ** 0.5, rtol=1e-3)
