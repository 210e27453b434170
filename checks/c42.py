"""Evaluation metrics: image, depth and mask errors, view metrics of rendered rays, evaluation batches, and their aggregation."""
import contextlib
import copy
import io
import math
import os
import tempfile
import warnings

import torch
import torch.nn.functional as F

from lib.harness import monitor

TECHNIQUE = "runtime monitoring: every metric value observed is compared with a float64 loop over the pixels its definition names; poisoned masked-out pixels and per-frame re-evaluation"
RULE = ("images x masks x crops x options; ray bundles (full, packed) x ground-truth sizes; evaluation batches x background colours; result lists x subsets; "
        "distinct = distinct (metric, options, shapes, masks present)")
ASSUMPTIONS = ["rgb_l1 sums the absolute error over the colour channels (as published), all other errors average it",
               "metrics of packed rays are compared for the per-ray quantities (colour, mask, cross entropy), every ray being its own frame for depth scales and overlaps"]

M = None


def mods():
    global M
    if M is None:
        import logging
        import sys
        import types
        sys.modules.setdefault("lpips", None)   # its weights would have to be downloaded
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.evaluation import evaluate_new_view_synthesis as nvs
        from pytorch3d.implicitron.evaluation import evaluator
        from pytorch3d.implicitron.models import metrics
        from pytorch3d.implicitron.models.renderer import base
        from pytorch3d.implicitron.models import base_model
        from pytorch3d.implicitron.dataset.frame_data import FrameData
        from pytorch3d.implicitron.tools import image_utils, metric_utils
        from pytorch3d.implicitron.tools.config import expand_args_fields
        for k in (metrics.ViewMetrics, metrics.RegularizationMetrics, evaluator.ImplicitronEvaluator):
            expand_args_fields(k)
        M = types.SimpleNamespace(nvs=nvs, ev=evaluator, me=metrics, base=base, mo=base_model, fd=FrameData, im=image_utils, mu=metric_utils)
    return M


def D(x):
    return x.double()


def soft_mask(c, *shape):
    kind = c.pick("binary", "soft", "ones", "zeros", "one pixel", "none")
    c.count("masks: " + kind)
    if kind == "none":
        return None
    if kind == "ones":
        return torch.ones(*shape)
    if kind == "zeros":
        return torch.zeros(*shape)
    if kind == "soft":
        return c.rand(*shape)
    if kind == "one pixel":
        m = torch.zeros(*shape)
        m.view(-1)[c.i(0, m.numel() - 1)] = 1
        return m
    return (c.rand(*shape) < c.u(0.1, 0.9)).float()


# ------------------------------------------------------------------ references
def ref_mse(x, y, m=None):
    d = (D(x) - D(y)) ** 2
    if m is None:
        return d.mean()
    mm = D(m).expand_as(d)
    return (d * mm).sum() / mm.sum().clamp(min=1e-5)


def ref_psnr(x, y, m=None):
    return -10 * torch.log10(ref_mse(x, y, m).clamp(min=1e-10))


def ref_l1(x, y, m=None):
    d = (D(x) - D(y)).abs()
    m = torch.ones_like(d[:, :1]) if m is None else D(m)
    return (d * m).flatten(1).sum(1) / m.flatten(1).sum(1).clamp(min=1)


def ref_iou(p, t, m=None):
    p, t = D(p), D(t)
    if m is not None:
        p, t = p * D(m), t * D(m)
    out = []
    for a, b in zip(p, t):
        out.append((a * b).sum() / ((a + b - a * b).sum() + 1e-4))
    return torch.stack(out).mean()


def ref_depth(pred, gt, crop=1, mask=None, best=True, thr=0.5, clampthr=1e-4, disparity=False, eps=1e-4):
    mse, l1 = [], []
    for i in range(len(pred)):
        p, g = D(pred[i, 0]), D(gt[i, 0])
        h, w = p.shape
        ok = torch.zeros(h, w, dtype=torch.bool)
        ok[crop:h - crop, crop:w - crop] = True
        ok &= g > 0
        if mask is not None:
            ok &= D(mask[i, 0]) > thr
        area = (h - 2 * crop) * (w - 2 * crop)
        p, g = p[ok], g[ok]

        def scale(p, g):
            return ((p * g).sum() / area) / max(float((p * p).sum() / area), clampthr)

        if best:
            p = p * scale(p, g)
        if disparity:
            p, g = 1 / (p + eps), 1 / (g + eps)
            p = p * scale(p, g)
        n = max(float(ok.sum()), 1e-4)
        mse.append(((g - p) ** 2).sum() / n)
        l1.append((g - p).abs().sum() / n)
    return torch.stack(mse), torch.stack(l1)


def ref_bce(p, gt, equal=True, eps=0.01, mask=None, lerp=None):
    """p: probabilities."""
    p, gt = D(p), D(gt)
    if eps > 0:
        p = p.clamp(eps, 1 - eps)
    m = torch.ones_like(gt) if mask is None else D(mask)
    if equal:
        fg = (gt > 0.5).double() * m
        bg = (1 - fg) * m
        w = fg / fg.sum().clamp(min=1) + bg / bg.sum().clamp(min=1)
        w = w * (w.numel() / w.sum().clamp(min=1))
    else:
        w = m.expand_as(gt)
    if lerp is not None:
        def log(x):
            return torch.where(x >= lerp, x.clamp(min=lerp).log(), math.log(lerp) + (x - lerp) / lerp)
        loss = log(1 - p) * (1 - gt) + log(p) * gt
        return -(loss * w).sum() / w.sum().clamp(min=1e-4)
    loss = -(gt * p.log().clamp(min=-100) + (1 - gt) * (1 - p).log().clamp(min=-100))
    return (loss * w).mean()


# ------------------------------------------------------------------ functions
@monitor(quick=6000, thorough=200000, need=("masks: none", "masks: zeros", "masks: soft", "poisoned pixels", "frames alone"))
def images(c):
    m = mods().mu
    n, h, w = c.i(1, 4), c.i(1, 8), c.i(1, 8)
    ch = c.pick(3, 3, 1)
    x, y = c.rand(n, ch, h, w), c.rand(n, ch, h, w)
    if c.p(0.1):
        y = x.clone()
    mask = soft_mask(c, n, 1, h, w)
    hard = mask is not None and bool(((mask == 0) | (mask == 1)).all())
    arg = mask
    if hard and c.p(0.4):
        arg = mask.bool()
        c.count("boolean masks")
    c.sig(n, h, w, ch, mask is None, hard)
    c.close(m.calc_mse(x, y, mask=arg), ref_mse(x, y, mask), "mean squared error", atol=1e-6)
    c.close(m.calc_psnr(x, y, mask=arg), ref_psnr(x, y, mask), "peak signal-to-noise ratio", atol=1e-3)
    c.close(m.rgb_l1(x, y, mask=arg), ref_l1(x, y, mask), "absolute colour error", atol=1e-6)
    mk, gt = c.rand(n, 1, h, w), (c.rand(n, 1, h, w) < 0.5).float()
    if c.p(0.5):
        mk = mk.round()
    c.close(m.iou(mk, gt, mask=arg), ref_iou(mk, gt, mask), "intersection over union", atol=1e-5)
    c.close(m.neg_iou_loss(mk, gt, mask=arg), 1 - ref_iou(mk, gt, mask), "negative intersection over union", atol=1e-5)
    sq = (x - y) ** 2
    s = c.u(0.01, 1.0)
    c.close(m.huber(sq, s), ((1 + D(sq) / s**2 + 1e-4).sqrt() - 1) * s, "huber loss", atol=1e-5, rtol=1e-4)
    cap = c.u(0.01, 1.0)
    c.close(m.beta_prior(mk, cap), ((D(mk) + cap).log() + (1 - D(mk) + cap).log()).mean() - math.log(cap) - math.log(cap + 1), "beta prior", atol=1e-4)
    if hard:
        c.count("poisoned pixels")
        bad = torch.where(mask > 0, x, c.rand(n, ch, h, w, lo=-5, hi=5))
        bad2 = torch.where(mask > 0, mk, c.rand(n, 1, h, w))
        for name, f, a, b in (("mse", m.calc_mse, (x, y), (bad, y)), ("psnr", m.calc_psnr, (x, y), (bad, y)), ("l1", m.rgb_l1, (x, y), (bad, y)), ("iou", m.iou, (mk, gt), (bad2, gt))):
            c.close(f(*b, mask=arg), f(*a, mask=arg), f"{name}: a masked-out pixel influences the metric", atol=1e-6)
    if n > 1:
        i = c.i(0, n - 1)
        c.count("frames alone")
        sub = None if arg is None else arg[i:i + 1]
        c.close(m.rgb_l1(x, y, mask=arg)[i], m.rgb_l1(x[i:i + 1], y[i:i + 1], mask=sub)[0], "absolute colour error of a frame depends on the other frames", atol=1e-6)
        alone = torch.stack([m.iou(mk[j:j + 1], gt[j:j + 1], mask=None if arg is None else arg[j:j + 1]) for j in range(n)])
        c.close(m.iou(mk, gt, mask=arg), alone.mean(), "intersection over union is not the mean over frames", atol=1e-5)
    # backgrounds
    image = c.rand(n, 3, h, w)
    fg = mk.round() if c.p(0.5) else mk
    bgkind = c.pick("white", "black", "float", "list", "tuple", "tensor")
    col = {"white": [1.0] * 3, "black": [0.0] * 3}.get(bgkind) or [c.u() for _ in range(3)]
    bg = bgkind if bgkind in ("white", "black") else col[0] if bgkind == "float" else list(col) if bgkind == "list" else tuple(col) if bgkind == "tuple" else torch.tensor(col)
    if bgkind == "float":
        col = [col[0]] * 3
    got = mods().im.mask_background(image, fg.bool() if c.p(0.3) and bool((fg == fg.round()).all()) else fg, bg_color=bg)
    c.close(got, D(image) * D(fg) + (1 - D(fg)) * torch.tensor(col, dtype=torch.float64).view(1, 3, 1, 1), "background masking", atol=1e-5)
    c.raises(ValueError, lambda: mods().im.mask_background(image, fg, bg_color="teal"), "unknown background colours are rejected")


@monitor(quick=6000, thorough=200000, need=("crops", "best scale", "disparity", "poisoned pixels", "frames alone", "frames without depth"))
def depth(c):
    m = mods().mu
    n, h, w = c.i(1, 4), c.i(3, 12), c.i(3, 12)
    crop = c.i(0, (min(h, w) - 1) // 2)
    gt = c.rand(n, 1, h, w, lo=0.2, hi=5.0) * (c.rand(n, 1, h, w) < c.pick(0.1, 0.5, 1.0)).float()
    pred = c.rand(n, 1, h, w, lo=0.2, hi=5.0) if c.p(0.6) else gt * c.u(0.2, 3.0) + 0.1 * c.rand(n, 1, h, w)
    if c.p(0.1):
        gt[c.i(0, n - 1)] = 0
    mask = soft_mask(c, n, 1, h, w)
    best, disp = c.p(0.6), c.p(0.3)
    thr = c.pick(0.5, c.u(0.1, 0.9))
    kw = dict(crop=crop, mask=mask, get_best_scale=best, mask_thr=thr, use_disparity=disp)
    c.sig(n, h, w, crop, best, disp, mask is None)
    got = m.eval_depth(pred, gt, **kw)
    want = ref_depth(pred, gt, crop=crop, mask=mask, best=best, thr=thr, disparity=disp)
    for g, wv, name in zip(got, want, ("squared", "absolute")):
        c.close(g, wv, f"{name} depth error", atol=1e-4, rtol=1e-3)
    c.count("crops", int(crop > 0))
    c.count("best scale", int(best))
    c.count("disparity", int(disp))
    c.count("frames without depth", int((gt.flatten(1).sum(1) == 0).sum()))
    ok = torch.zeros(n, 1, h, w, dtype=torch.bool)
    ok[:, :, crop:h - crop, crop:w - crop] = True
    ok &= gt > 0
    if mask is not None:
        ok &= mask > thr
    bad = torch.where(ok, pred, c.rand(n, 1, h, w, lo=0.01, hi=90))
    badgt = gt
    if mask is not None:
        badgt = torch.where(mask > thr, gt, c.rand(n, 1, h, w, lo=0, hi=90))
    c.count("poisoned pixels", int((~ok).sum()))
    for g, wv in zip(m.eval_depth(bad, badgt, **kw), got):
        c.close(g, wv, "a pixel outside of the mask, of the crop, or without depth influences the depth error", atol=1e-4, rtol=1e-3)
    if n > 1:
        i = c.i(0, n - 1)
        c.count("frames alone")
        alone = m.eval_depth(pred[i:i + 1], gt[i:i + 1], **{**kw, "mask": None if mask is None else mask[i:i + 1]})
        for g, wv in zip(alone, got):
            c.close(g[0], wv[i], "depth error of a frame depends on the other frames", atol=1e-5)
    if best and not disp and c.p(0.5):
        f = c.u(0.5, 2.0)
        for g, wv in zip(m.eval_depth(pred * f, gt, **kw), got):
            c.close(g, wv, "depth error up to scale depends on the scale of the prediction", atol=2e-3, rtol=2e-3)


@monitor(quick=5000, thorough=150000, need=("logits", "linear extrapolation", "equal weights", "probabilities"))
def entropy(c):
    m = mods().mu
    shape = c.pick((c.i(1, 4), 1, c.i(1, 6), c.i(1, 6)), (c.i(1, 30), 1))
    p = c.rand(*shape)
    if c.p(0.3):
        p = (p * 3 - 1).clamp(0, 1)
    gt = c.rand(*shape)
    if c.p(0.7):
        gt = gt.round()
    mask = soft_mask(c, *shape)
    eq = c.p(0.6)
    eps = c.pick(0.01, 0.01, c.u(0.001, 0.2))
    lerp = c.pick(None, c.u(0.001, 0.3))
    c.sig(shape, eq, lerp is None, mask is None)
    want = ref_bce(p, gt, eq, eps, mask, lerp)
    kw = dict(equal_w=eq, pred_eps=eps, mask=mask, lerp_bound=lerp)
    c.close(m.calc_bce(p, gt, **kw), want, "binary cross entropy", atol=1e-5, rtol=1e-4)
    c.count("probabilities")
    c.count("equal weights", int(eq))
    c.count("linear extrapolation", int(lerp is not None))
    q = p.clamp(1e-4, 1 - 1e-4)
    logits = torch.logit(q)
    if bool(((p - q).abs() == 0).all()) or eps > 1e-3:
        c.count("logits")
        c.close(m.calc_bce(logits, gt, pred_logits=True, **kw), want, "binary cross entropy of logits", atol=1e-4, rtol=1e-3)
    if lerp is not None:
        # predictions of exactly 0 and 1 are what the extrapolation is for
        kw["pred_eps"] = 0.0
        c.close(m.calc_bce(p, gt, **kw), ref_bce(p, gt, eq, 0.0, mask, lerp), "extrapolated cross entropy", atol=1e-5, rtol=1e-4)
        a = p.clone().requires_grad_()
        m.calc_bce(a, gt, **kw).backward()
        r = D(p).requires_grad_()
        ref_bce(r, gt, eq, 0.0, mask, lerp).backward()
        far = ((p - lerp).abs() > 1e-5) & ((1 - p - lerp).abs() > 1e-5)
        c.close(a.grad[far], r.grad[far], "gradient of the extrapolated cross entropy", atol=1e-5, rtol=1e-3)
        c.count("extrapolated gradients")
    x = c.rand(c.i(1, 20), lo=1e-3, hi=1.0)
    b = c.u(0.01, 0.9)
    c.close(m.log_lerp(x, b), torch.where(D(x) >= b, D(x).log(), math.log(b) + (D(x) - b) / b), "extrapolated logarithm", atol=1e-4)
    A = c.randn(5)
    e = c.u(1e-6, 1e-2)
    c.close(m.safe_sqrt(A, e), (D(A).clamp(min=0) + e).sqrt(), "safe square root", atol=1e-5)


# ---------------------------------------------------------------- view metrics
def grid_read(image, xys, mode):
    """Float64 value of image (C, H, W) at ndc positions (K, 2) (+x left, +y up, short side in [-1, 1])."""
    ch, h, w = image.shape
    rx, ry = (w / h, 1.0) if w >= h else (1.0, h / w)
    col = (1 - D(xys[:, 0]) / rx) * w / 2 - 0.5
    row = (1 - D(xys[:, 1]) / ry) * h / 2 - 0.5
    im = D(image)
    if mode == "nearest":
        out = []
        for r, k in zip(row.tolist(), col.tolist()):
            ir, ik = round(r), round(k)
            out.append(im[:, ir, ik] if 0 <= ir < h and 0 <= ik < w else torch.zeros(ch, dtype=torch.float64))
        return torch.stack(out)
    out = []
    for r, k in zip(row.tolist(), col.tolist()):
        r0, k0 = math.floor(r), math.floor(k)
        v = torch.zeros(ch, dtype=torch.float64)
        for a in (0, 1):
            for b in (0, 1):
                if 0 <= r0 + a < h and 0 <= k0 + b < w:
                    v = v + (1 - abs(r - r0 - a)) * (1 - abs(k - k0 - b)) * im[:, r0 + a, k0 + b]
        out.append(v)
    return torch.stack(out)


def away_from_edges(c, h, w, sizes, k):
    """K ndc positions whose nearest pixels are unambiguous in every map size."""
    rx, ry = (w / h, 1.0) if w >= h else (1.0, h / w)
    out = []
    while len(out) < k:
        x, y = c.u(-0.98 * rx, 0.98 * rx), c.u(-0.98 * ry, 0.98 * ry)
        ok = True
        for a, b in sizes:
            col, row = (1 - x / rx) * b / 2 - 0.5, (1 - y / ry) * a / 2 - 0.5
            ok = ok and abs(col - math.floor(col) - 0.5) > 1e-3 and abs(row - math.floor(row) - 0.5) > 1e-3
        if ok:
            out.append((x, y))
    return torch.tensor(out)


def stage(c, m, shape, depth=True, rgb=True, mask=True):
    return dict(features=c.rand(*shape, 3) if rgb else None, depths=c.rand(*shape, 1, lo=-1 if c.p(0.3) else 0.2, hi=4.0) if depth else None,
                masks=c.rand(*shape, 1, lo=0.0, hi=1.0) if mask else None)


@monitor(quick=3000, thorough=60000, need=("full bundles", "packed bundles", "previous stages", "ground truth of another size", "regularizers", "crops", "autocast"))
def views(c):
    m = mods()
    h, w, n = c.i(2, 7), c.i(2, 7), c.i(1, 4)
    packed = c.p(0.4)
    sc = c.pick(1, 1, 2, 3)
    sizes = [(h * sc, w * sc), (h, w)]
    H, W = sizes[0]
    rgb = c.rand(n, 3, H, W) if c.p(0.85) else None
    dep = c.rand(n, 1, h, w, lo=0.3, hi=5.0) * (c.rand(n, 1, h, w) < 0.8).float() if c.p(0.8) else None
    fgs = soft_mask(c, n, 1, h, w)
    crop = soft_mask(c, n, 1, h, w)
    if packed:
        counts = [c.i(1, 6) for _ in range(n)]
        ids = c.perm(n)[: c.i(1, n)]
        counts = [counts[i] for i in range(len(ids))]
        total = sum(counts)
        xy = away_from_edges(c, h, w, sizes, total)
        shape = (total, 1)
        cam = [i for i, k in zip(ids, counts) for _ in range(k)]
        bundle = m.base.ImplicitronRayBundle(origins=c.randn(total, 1, 3), directions=c.randn(total, 1, 3), lengths=c.rand(total, 1, 2), xys=xy[:, None],
                                             camera_ids=torch.tensor(ids), camera_counts=torch.tensor(counts))
        c.count("packed bundles")
        frames = [(i, xy[k:k + 1]) for k, i in enumerate(cam)]
    else:
        rays = c.pick((h, w), (c.i(1, 8), 1))
        xy = torch.stack([away_from_edges(c, h, w, sizes, rays[0] * rays[1]) for _ in range(n)])
        shape = (n, *rays)
        bundle = m.base.ImplicitronRayBundle(origins=c.randn(*shape, 3), directions=c.randn(*shape, 3), lengths=c.rand(*shape, 2), xys=xy.view(*shape, 2), camera_ids=None, camera_counts=None)
        c.count("full bundles")
        frames = [(i, xy[i]) for i in range(n)]
    c.count("ground truth of another size", int(sc > 1))
    c.count("crops", int(crop is not None))
    aux = {}
    grid = theta = None
    if c.p(0.3):
        c.count("regularizers")
        grid = c.rand(c.i(1, 2), 1, c.i(2, 4), c.i(2, 4), c.i(2, 4), hi=3.0)
        theta = c.randn(c.i(1, 3), 3, c.i(1, 5))
        aux = {"grad_theta": theta, "density_grid": grid}
    outs = [stage(c, m, shape, c.p(0.9), c.p(0.9), c.p(0.9))]
    chain = m.base.RendererOutput(**outs[0], aux=aux)
    if c.p(0.3):
        c.count("previous stages")
        outs.append(stage(c, m, shape, c.p(0.9), c.p(0.9), c.p(0.9)))
        chain.prev_stage = m.base.RendererOutput(**outs[1])
    prefix = c.pick("loss_", "", "eval_", None) if len(outs) == 1 else c.pick("loss_", "", "eval_")
    c.sig(packed, n, h, w, sc, rgb is None, dep is None, fgs is None, crop is None, len(outs), prefix)
    auto = c.p(0.15) and all(o["masks"] is None or True for o in outs)
    ctx = contextlib.nullcontext()
    if auto:
        c.count("autocast")
        torch.set_autocast_enabled(True)
    try:
        with ctx:
            got = m.me.ViewMetrics()(raymarched=chain, ray_bundle=bundle, image_rgb=rgb, depth_map=dep, fg_probability=fgs, mask_crop=crop, **({} if prefix == "loss_" else {"keys_prefix": prefix}))
    finally:
        if auto:
            torch.set_autocast_enabled(False)
    want, skip = {}, set()
    for k, o in enumerate(outs):
        p = (prefix or "") + "prev_stage_" * k

        def rd(t, mode):
            return None if t is None else torch.stack([grid_read(t[i], q, mode).T for i, q in frames])[..., None]

        R, Z, FG, CR = rd(rgb, "bilinear"), rd(dep, "nearest"), rd(fgs, "nearest"), rd(crop, "nearest")
        flat = {a: None if b is None else D(b).reshape(len(frames), -1, b.shape[-1]).transpose(1, 2)[..., None] for a, b in o.items()}
        P, Q, V = flat["features"], flat["depths"], flat["masks"]
        ones = torch.ones(len(frames), 1, frames[0][1].shape[0], 1, dtype=torch.float64)
        if CR is None:
            CR = ones
            nocrop = P is None and Q is None
        if R is not None and P is not None:
            d = P - R
            mass = CR.sum().clamp(min=1)
            sq = (d**2).mean(1, keepdim=True)
            want[p + "rgb_huber"] = ((((1 + sq / 0.03**2 + 1e-4).sqrt() - 1) * 0.03) * CR).sum() / mass
            want[p + "rgb_l1"] = (d.abs().mean(1, keepdim=True) * CR).sum() / mass
            want[p + "rgb_mse"] = (sq * CR).sum() / mass
            want[p + "rgb_psnr"] = ref_psnr(P, R, CR)
            if FG is not None:
                want[p + "rgb_mse_fg"] = (sq * CR * FG).sum() / (CR * FG).sum().clamp(min=1)
                want[p + "rgb_psnr_fg"] = ref_psnr(P, R, CR * FG)
        if V is not None:
            want[p + "mask_beta_prior"] = ((V + 0.1).log() + (1.1 - V).log()).mean() - math.log(0.1) - math.log(1.1)
            if FG is not None:
                want[p + "mask_neg_iou"] = 1 - ref_iou(V, FG, CR)
                want[p + "mask_bce"] = ref_bce(V, FG, mask=CR)
        if Z is not None and Q is not None:
            names = [("depth_abs", CR)] + ([("depth_abs_fg", CR * FG)] if FG is not None else [])
            for name, mk in names:
                if bool(((mk - 0.5).abs() < 1e-6).any()):
                    skip.add(p + name)
                want[p + name] = ref_depth(Q, Z, crop=0, mask=mk)[1].mean()
        if k == 0 and theta is not None:
            want[p + "eikonal"] = ((D(theta).norm(dim=1) - 1) ** 2).mean()
            g = (D(grid) + 1e-5).log()
            b = g[..., :-1, :-1, :-1]
            want[p + "density_tv"] = ((g[..., :-1, :-1, 1:] - b) ** 2 + (g[..., :-1, 1:, :-1] - b) ** 2 + (g[..., 1:, :-1, :-1] - b) ** 2 + 1e-5).sqrt().mean()
        if Q is not None:
            want[p + "depth_neg_penalty"] = (Q.clamp(max=0) ** 2).mean()
    c.equal(sorted(got), sorted(want), "metrics reported")
    for k, v in want.items():
        if k in skip:
            continue
        loose = "psnr" in k or "depth_abs" in k
        c.close(got[k], v, f"view metric {k.replace(prefix or '', '', 1)}", atol=2e-3 if loose else 1e-4, rtol=1e-3)
        c.check(got[k].dim() == 0, f"{k} is not a single number")
    # regularization of auto decoders
    if c.p(0.1):
        import types
        v = c.pick(None, torch.tensor(c.u(0, 3)))
        model = types.SimpleNamespace(sequence_autodecoder=c.pick(None, types.SimpleNamespace(calculate_squared_encoding_norm=lambda: v)))
        r = m.me.RegularizationMetrics()(model=model, keys_prefix="a_")
        c.equal(r, {} if v is None or model.sequence_autodecoder is None else {"a_autodecoder_norm": v}, "regularization metrics")


# ----------------------------------------------------------- evaluation batches
def eval_frame(c, m, h, w, n, train, optional=True):
    from pytorch3d.renderer import PerspectiveCameras
    kinds = ["train_known" if train else "test_known"] * n
    kinds[0] = kinds[0].replace("known", "unseen")
    opt = (lambda v: v if c.p(0.8) else None) if optional else (lambda v: v)
    zeros = (c.rand(n, 1, h, w) < 0.7).float()
    return m.fd(frame_number=torch.arange(n), sequence_name=["s"] * n, sequence_category=["k"] * n, frame_timestamp=torch.arange(n).float(),
                image_rgb=c.rand(n, 3, h, w), depth_map=opt(c.rand(n, 1, h, w, lo=0.3, hi=4.0) * zeros), depth_mask=opt((c.rand(n, 1, h, w) < 0.8).float()),
                fg_probability=opt(c.rand(n, 1, h, w)), mask_crop=opt((c.rand(n, 1, h, w) < c.pick(0.5, 1.0)).float()), camera=PerspectiveCameras(R=torch.eye(3)[None].expand(n, 3, 3), T=torch.zeros(n, 3)),
                frame_type=kinds)


def resized(t, h, w, nearest):
    """(1, C, a, b) resized to (h, w) in float64: nearest = floor, bilinear = half-pixel centres clamped at the border."""
    t = D(t)[0]
    ch, a, b = t.shape
    out = torch.zeros(ch, h, w, dtype=torch.float64)
    for i in range(h):
        for j in range(w):
            if nearest:
                out[:, i, j] = t[:, min(i * a // h, a - 1), min(j * b // w, b - 1)]
            else:
                y, x = max((i + 0.5) * a / h - 0.5, 0), max((j + 0.5) * b / w - 0.5, 0)
                y0, x0 = min(int(y), a - 1), min(int(x), b - 1)
                y1, x1 = min(y0 + 1, a - 1), min(x0 + 1, b - 1)
                fy, fx = y - y0, x - x0
                out[:, i, j] = (1 - fy) * ((1 - fx) * t[:, y0, x0] + fx * t[:, y0, x1]) + fy * ((1 - fx) * t[:, y1, x0] + fx * t[:, y1, x1])
    return out[None]


def ref_eval(fd, render, bg, thr=0.5):
    h, w = fd.image_rgb.shape[2:]
    P = resized(render["image_render"][:1], h, w, False).clamp(0, 1)
    V, Q = (resized(render[k][:1], h, w, True) for k in ("mask_render", "depth_render"))
    img = D(fd.image_rgb[:1])
    fg = (fd.fg_probability[:1] >= thr).double() if fd.fg_probability is not None else torch.ones(1, 1, h, w, dtype=torch.float64)
    cr = D(fd.mask_crop[:1]) if fd.mask_crop is not None else torch.ones(1, 1, h, w, dtype=torch.float64)
    masked = img * fg + (1 - fg) * torch.tensor(bg, dtype=torch.float64).view(1, 3, 1, 1)
    out = {"iou": ref_iou(V, fg, cr), "psnr_masked": ref_psnr(P, masked, cr * cr), "rgb_l1_masked": ref_l1(P, masked, cr * cr), "psnr_fg": ref_psnr(P, masked, fg * cr),
           "rgb_l1_fg": ref_l1(P, masked, fg * cr), "psnr_full_image": ref_psnr(P, img, cr), "rgb_l1_full_image": ref_l1(P, img, cr)}
    if fd.depth_map is not None:
        z = D(fd.depth_map[:1]) * (D(fd.depth_mask[:1]) if fd.depth_mask is not None else 1)
        out["depth_abs_fg"] = ref_depth(Q, z, crop=5, mask=fg * cr)[1].mean()
    return {k: float(v) for k, v in out.items()}


def snapshot(fd):
    return {k: v.clone() if torch.is_tensor(v) else copy.copy(v) for k, v in vars(fd).items() if not hasattr(v, "get_world_to_view_transform")}


@monitor(quick=1200, thorough=25000, need=("evaluated batches", "renders of another size", "source views poisoned", "without masks", "wrong batches rejected"))
def batches(c):
    m = mods()
    h, w, n = c.i(12, 17), c.i(12, 17), c.i(1, 4)
    fd = eval_frame(c, m, h, w, n, c.p(0.5))
    f = c.pick(1, 1, 0.5, 2)
    rs = (max(int(h * f), 1), max(int(w * f), 1)) if c.p(0.7) else (c.i(4, 20), c.i(4, 20))
    render = dict(image_render=c.rand(n, 3, *rs, lo=-0.1, hi=1.1), mask_render=c.rand(n, 1, *rs), depth_render=c.rand(n, 1, *rs, lo=0.3, hi=4.0))
    bg = c.pick("white", "black", [0.2, 0.5, 0.7])
    col = {"white": [1.0] * 3, "black": [0.0] * 3}.get(bg, bg) if isinstance(bg, str) else bg
    before, rbefore = snapshot(fd), {k: v.clone() for k, v in render.items()}
    got = m.nvs.eval_batch(fd, m.mo.ImplicitronRender(**render), bg_color=bg)
    c.sig(h, w, n, rs, fd.depth_map is None, fd.depth_mask is None, fd.fg_probability is None, fd.mask_crop is None, str(bg))
    for k, v in snapshot(fd).items():
        c.equal(v, before[k], f"evaluation modified the frame data ({k})")
    for k in render:
        c.equal(render[k], rbefore[k], f"evaluation modified the render ({k})")
    want = ref_eval(fd, render, col)
    meta = got.pop("meta")
    c.equal(sorted(got), sorted(want), "metrics of an evaluation batch")
    exact = all(a == b or a % b == 0 or b % a == 0 for a, b in zip(rs, (h, w)))
    for k, v in want.items():
        if exact or k not in ("iou", "depth_abs_fg"):   # nearest resizing by odd ratios may round either way
            c.close(got[k], v, f"evaluation metric {k}", atol=3e-3 if "psnr" in k or "depth" in k else 1e-4, rtol=1e-3)
    c.equal(meta, {"batch_size": n, "frame_type": fd.frame_type[0]}, "meta data of an evaluation batch")
    c.count("evaluated batches")
    c.count("renders of another size", int(rs != (h, w)))
    c.count("without masks", int(fd.fg_probability is None or fd.mask_crop is None))
    if n > 1:
        c.count("source views poisoned")
        bad = eval_frame(c, m, h, w, n, True)
        for k in ("image_rgb", "depth_map", "depth_mask", "fg_probability", "mask_crop"):
            v = getattr(fd, k)
            if v is not None:
                other = c.rand(*v.shape)
                other[0] = v[0]
                setattr(bad, k, other)
            else:
                setattr(bad, k, None)
        bad.frame_type = fd.frame_type
        render2 = {k: torch.cat([v[:1], torch.rand_like(v[1:])]) for k, v in render.items()}
        again = m.nvs.eval_batch(bad, m.mo.ImplicitronRender(**render2), bg_color=bg)
        again.pop("meta")
        for k, v in got.items():
            c.close(again[k], v, f"source views influence the metric {k} of the target view", atol=1e-6, rtol=1e-6)
    if n > 2 and c.p(0.4):
        c.count("wrong batches rejected")
        fd.frame_type = list(fd.frame_type)
        i = c.i(2, n - 1)
        fd.frame_type[i] = "test_known" if fd.frame_type[i].startswith("train") else "train_known"
        c.raises(ValueError, lambda: m.nvs.eval_batch(fd, m.mo.ImplicitronRender(**render)), "a mix of train and test source views is rejected")
    if c.p(0.1):
        k = c.pick("image_render", "mask_render", "depth_render")
        c.raises(ValueError, lambda: m.nvs.eval_batch(fd, m.mo.ImplicitronRender(**{**render, k: None})), "a missing prediction is rejected")


NSRC = (1, 3, 5, 7, 9)


def results_list(c):
    keys = ["iou", "psnr", "depth"][: c.i(1, 3)]
    out = []
    for _ in range(c.i(1, 12)):
        t = c.pick("train_unseen", "train_known", "test_unseen", "test_known")
        out.append({**{k: c.u(-5, 30) for k in keys}, "meta": {"batch_size": c.pick(1, 2, 4, 6, 8, 10, 3), "frame_type": t}})
    return keys, out


@monitor(quick=3000, thorough=60000, need=("summaries", "empty subsets", "evaluated loaders", "loaders without depth", "task aggregates"))
def aggregation(c):
    m = mods()
    keys, per = results_list(c)
    multi = c.p(0.6)
    before = copy.deepcopy(per)
    flat, aux = m.nvs.summarize_nvs_eval_results(per, multi)
    c.equal(per, before, "summaries modified the per-batch results")
    c.count("summaries")
    c.sig(len(per), multi, len(keys))
    want = {}
    sets = ("train", "test") if multi else ("test",)

    def mean(rs, k):
        return sum(r[k] for r in rs) / len(rs) if rs else float("nan")

    for s in sets:
        rs = [r for r in per if not multi or r["meta"]["frame_type"].startswith("train") == (s == "train")]
        for k in keys:
            want[f"{k}|subset={s}|diff=all"] = mean(rs, k)
        if multi:
            for q in NSRC:
                sub = [r for r in rs if r["meta"]["batch_size"] == q + 1]
                c.count("empty subsets", int(not sub))
                for k in keys:
                    want[f"{k}|subset={s}|n_src={q}"] = mean(sub, k)
    c.equal(sorted(flat), sorted(want), "aggregate metrics reported")
    for k, v in want.items():
        c.close(torch.tensor(flat[k], dtype=torch.float64), torch.tensor(v, dtype=torch.float64), f"aggregate {k}", atol=1e-9, rtol=1e-9, nan_ok=True)
    c.equal(sum(len(r["metrics"]) for r in aux["results"]), len(want), "results of the subsets")
    # several tasks
    if c.p(0.5):
        tasks = [aux["results"]]
        for _ in range(c.i(0, 3)):
            tasks.append(m.nvs.summarize_nvs_eval_results([{**{k: c.u(-5, 30) for k in keys}, "meta": r["meta"]} for r in per[: c.i(1, len(per))]], multi)[1]["results"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            agg = m.nvs.aggregate_nvs_results(tasks)
        c.count("task aggregates")
        seen = set()
        for r in agg:
            seen.add((r["subset"], r["subsubset"]))
            for k in keys:
                vals = [t["metrics"][k] for ts in tasks for t in ts if (t["subset"], t["subsubset"]) == (r["subset"], r["subsubset"])]
                vals = [v for v in vals if v == v]
                c.close(torch.tensor(r["metrics"][k], dtype=torch.float64), torch.tensor(sum(vals) / len(vals) if vals else float("nan"), dtype=torch.float64), f"average of {k} over tasks", atol=1e-9, rtol=1e-9, nan_ok=True)
        c.equal(len(seen), len(agg), "each subset is aggregated once")
        c.equal(len(seen), len(aux["results"]), "all subsets are aggregated")
    # whole evaluations of a model
    if c.p(0.12):
        optional = c.p(0.5)
        n = c.i(1, 3)
        h, w = 13, c.i(12, 15)
        loader, want, renders = [], [], []
        have = {k: not optional or c.p(0.7) for k in ("depth_map", "depth_mask", "fg_probability", "mask_crop")}
        if not have["depth_map"]:
            c.count("loaders without depth")
        for _ in range(c.i(1, 4)):
            fd = eval_frame(c, m, h, w, n, c.p(0.5), False)
            for k, v in have.items():
                if not v:
                    setattr(fd, k, None)
            render = dict(image_render=c.rand(n, 3, h, w), mask_render=c.rand(n, 1, h, w), depth_render=c.rand(n, 1, h, w, lo=0.3, hi=4.0))
            loader.append(fd)
            renders.append(render)
            want.append((ref_eval(fd, render, [0.0] * 3), fd.frame_type[0].startswith("train"), n))
        calls = []

        class Model(torch.nn.Module):
            def forward(self, *, evaluation_mode, **fd):
                c.check(evaluation_mode == m.base.EvaluationMode.EVALUATION and not self.training, "the model is not evaluated in evaluation mode")
                i = len(calls)
                calls.append(i)
                for k in ("image_rgb", "depth_map", "fg_probability", "mask_crop"):
                    v, full = fd[k], getattr(loader[i], k)
                    if full is None:
                        c.check(v is None, f"a missing {k} appears")
                        continue
                    c.check(float(v[0].abs().sum()) == 0, f"the model sees the target {k}")
                    c.equal(v[1:], full[1:], f"the model sees other source views ({k})")
                return {"implicitron_render": m.mo.ImplicitronRender(**renders[i])}

        with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ev = m.ev.ImplicitronEvaluator(is_multisequence=multi)
            out = ev.run(model=Model(), dataloader=loader, device=torch.device("cpu"), dump_to_json=True, exp_dir=tmp, epoch=3)
            import json
            stored = json.load(open(os.path.join(tmp, "results_test.json")))
        c.count("evaluated loaders")
        c.equal(len(calls), len(loader), "each batch is evaluated once")
        c.check(str(stored) == str(json.loads(json.dumps(out))) and all(r["eval_epoch"] == 3 for r in stored), "stored results differ from the returned ones")
        for r in out:
            sel = [x for x, tr, k in want if (not multi or tr == (r["subset"] == "train")) and (r["subsubset"] == "diff=all" or r["subsubset"] == f"n_src={k - 1}")]
            for k, v in r["metrics"].items():
                c.close(torch.tensor(v, dtype=torch.float64), torch.tensor(sum(x[k] for x in sel) / len(sel) if sel else float("nan"), dtype=torch.float64), f"evaluation of a loader: {k}", atol=5e-3, rtol=1e-3, nan_ok=True)
