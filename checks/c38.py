"""Frames: crops, resizes, building from files and collation keep pixels, depth, masks and camera aligned."""
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch

from lib.harness import monitor

TECHNIQUE = ("runtime monitoring: images, depth maps and masks whose pixels encode their own original position go through recorded histories of crops and resizes, and after each step world points projected "
             "by the frame's camera (own float64 projection) must read their original pixel position")
RULE = "image sizes x boxes x contexts x target sizes x crop and resize histories x cameras x depth resolutions x stored file formats; distinct = distinct (history, sizes)"
ASSUMPTIONS = ["bilinear resizes are judged away from the borders of each step, nearest resizes up to half a pixel of the input plus half a pixel of the output of each step",
               "a resize may round the pasted size down to whole pixels", "depth maps of another resolution than the image go through one crop and one resize, judged up to 1.5 of their pixels plus one per aspect ratio of the crop (the crop is truncated to whole pixels)"]

D = torch.float64
M = None


def mods():
    global M
    if M is None:
        import logging
        import types as ty
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.dataset import frame_data, types, utils
        from pytorch3d.implicitron.tools.config import expand_args_fields
        from pytorch3d.renderer.cameras import PerspectiveCameras
        from pytorch3d.structures import Pointclouds
        expand_args_fields(frame_data.FrameDataBuilder)
        M = ty.SimpleNamespace(F=frame_data.FrameData, B=frame_data.FrameDataBuilder, t=types, u=utils, C=PerspectiveCameras, P=Pointclouds)
    return M


def pixels(cam, pts, hw):
    """Continuous pixel positions (u, v) in float64 of world points; the first pixel spans [0, 1]."""
    h, w = hw
    q = pts.double() @ cam.R[0].double() + cam.T[0].double()
    ndc = q[:, :2] / q[:, 2:] * cam.focal_length[0].double() + cam.principal_point[0].double()
    half = min(h, w) / 2
    return torch.stack([w / 2 - ndc[:, 0] * half, h / 2 - ndc[:, 1] * half], -1)


def camera(c):
    m = mods()
    q, r = torch.linalg.qr(c.randn(3, 3, dtype=D))
    q = q * torch.sign(torch.diagonal(r))
    if torch.det(q) < 0:
        q[:, 0] *= -1
    return m.C(R=q.float()[None], T=torch.tensor([[c.u(-1, 1), c.u(-1, 1), c.u(3, 6)]]), focal_length=c.rand(1, 2, lo=0.7, hi=3), principal_point=c.rand(1, 2, lo=-0.5, hi=0.5))


def world_points(c, cam, hw, n=60):
    """World points spread over the image of the camera."""
    h, w = hw
    uv = c.rand(n, 2, dtype=D) * torch.tensor([w, h])
    half = min(h, w) / 2
    ndc = torch.stack([w / 2 - uv[:, 0], h / 2 - uv[:, 1]], -1) / half
    z = c.rand(n, 1, lo=0.5, hi=5, dtype=D)
    xy = (ndc - cam.principal_point[0].double()) / cam.focal_length[0].double() * z
    return (torch.cat([xy, z], -1) - cam.T[0].double()) @ cam.R[0].double().T


def code(h, w):
    """Values 1.. that name each pixel."""
    return (torch.arange(h)[:, None] * 64 + torch.arange(w) + 1.0)[None]


class Tracker:
    """Positions of the points in the original image, and what is known about the accuracy of each step."""

    def __init__(self, c, cam, hw):
        self.c, self.hw = c, hw
        self.pts = world_points(c, cam, hw)
        self.uv = pixels(cam, self.pts, hw)
        self.px = 1.0           # size of a current pixel in original pixels
        self.tol = 2e-3         # misalignment allowed for interpolated images (original pixels)
        self.near = 0.5         # the same for nearest reads, including the final read
        self.keep = torch.ones(len(self.uv), dtype=torch.bool)
        self.ext = hw            # part of the current image that is not padding
        self.bad = 0.0          # width of the border of the current image that bilinear resizes bent

    def step(self, uv, size_hw, inset):
        """Only points at least inset current pixels inside the current image remain judged."""
        h, w = size_hw
        self.keep &= (uv[:, 0] > inset) & (uv[:, 0] < w - inset) & (uv[:, 1] > inset) & (uv[:, 1] < h - inset)


def bilinear(img, uv):
    g = torch.stack([uv[:, 0] / img.shape[2] * 2 - 1, uv[:, 1] / img.shape[1] * 2 - 1], -1)
    return torch.nn.functional.grid_sample(img.double()[None], g[None, None], mode="bilinear", align_corners=False, padding_mode="border")[0, :, 0].T


def nearest(img, uv):
    i = uv[:, 0].floor().long().clamp(0, img.shape[2] - 1)
    j = uv[:, 1].floor().long().clamp(0, img.shape[1] - 1)
    return img[:, j, i].T


def decode(v):
    """Original pixel centres named by code values; zero is padding."""
    v = v.round().long() - 1
    return torch.stack([v % 64, v // 64], -1).double() + 0.5


def judge(c, t, f, what, depth_hw=None, image_scale=1.0):
    """The frame's camera, image, depth, masks against the original positions."""
    hw = tuple(f.effective_image_size_hw.tolist())
    uv = pixels(f.camera, t.pts, hw)
    if f.image_rgb is not None:
        c.equal(tuple(f.image_rgb.shape[-2:]), hw, f"effective size after {what}")
    ins = t.keep & (uv[:, 0] > 1) & (uv[:, 0] < hw[1] - 1) & (uv[:, 1] > 1) & (uv[:, 1] < hw[0] - 1)
    if f.image_rgb is not None:
        v = bilinear(f.image_rgb, uv)
        ok = ins & (v[:, 2] > image_scale * 0.9999)
        got = torch.stack([v[:, 0], v[:, 1]], -1) / image_scale
        c.count("points read from the image", int(ok.sum()))
        c.close(got[ok], t.uv[ok], f"original position read at the projected pixel after {what}", atol=t.tol + 1e-3 * image_scale, rtol=1e-4)
    for name in ("fg_probability", "depth_map", "depth_mask"):
        img = getattr(f, name)
        if img is None:
            continue
        ratio = torch.ones(2, dtype=D)
        tol = t.near
        if name.startswith("depth") and depth_hw is not None and depth_hw != t.hw:
            ratio = torch.tensor([t.hw[1] / depth_hw[1], t.hw[0] / depth_hw[0]], dtype=D)
            g = f.crop_bbox_xywh
            longest = 1.0 if g is None else float(g[2:].max() / g[2:].min())
            tol = t.near + (1.5 + longest) * float(ratio.max()) + t.px
        elif img.shape[-2:] != hw:
            c.fail(f"{name} has size {tuple(img.shape[-2:])} instead of {hw} after {what}")
        v = nearest(img, uv * torch.tensor([img.shape[2] / hw[1], img.shape[1] / hw[0]], dtype=D))[:, 0]
        ok = ins & (v > 0)
        if ratio[0] == 1:
            ok_in = ins & (bilinear(f.image_rgb, uv)[:, 2] > image_scale * 0.9999) if f.image_rgb is not None else ok
            c.check(bool((v[ok_in] > 0).all()), f"{name} is empty where the image is not after {what}")
        c.count(f"points read from {name}", int(ok.sum()))
        c.close(decode(v)[ok] * ratio, t.uv[ok], f"original position read from {name} at the projected pixel after {what}", atol=tol + 1e-3, rtol=0)


@monitor(quick=4000, thorough=120000, need=("crops", "given crops", "resizes", "boxes over the border", "points read from the image", "points read from depth_map", "points read from fg_probability",
                                            "depth of another resolution", "moved to another device or type", "exact resizes", "padded"))
def histories(c):
    m = mods()
    h, w = c.i(6, 60), c.i(6, 60)
    other = c.p(0.25)
    k = 1
    if other:
        k = c.pick(2, 2, 0.5)
        h, w = (h + 1) // 2 * 2, (w + 1) // 2 * 2
        if k == 0.5:
            h, w = c.i(6, 30), c.i(6, 30)
    dhw = (int(h / k), int(w / k))
    cam = camera(c)
    img = torch.stack([torch.arange(w).expand(h, w) + 0.5, (torch.arange(h)[:, None].expand(h, w)) + 0.5, torch.ones(h, w)])
    f = m.F(image_size_hw=torch.tensor([h, w]), effective_image_size_hw=torch.tensor([h, w]), image_rgb=img.clone(), camera=cam.clone(), image_path="x")
    if c.p(0.8):
        f.fg_probability = code(h, w)
    if other or c.p(0.8):
        f.depth_map = code(*dhw)
    if c.p(0.5):
        f.depth_mask = code(*dhw)
    c.count("depth of another resolution", other)
    t = Tracker(c, cam, (h, w))
    n = 2 if other else c.i(1, 4)
    hist = []
    for s in range(n):
        hw = tuple(f.effective_image_size_hw.tolist())
        op = ("crop", "resize")[s] if other else c.pick("crop", "resize")
        before = pixels(f.camera, t.pts, hw)
        if op == "crop":
            changed = bool(hist)
            ch, cw = hw
            bw, bh = c.u(3, cw), c.u(3, ch)
            x0, y0 = c.u(-0.2, 1) * max(cw - bw, 0), c.u(-0.2, 1) * max(ch - bh, 0)
            if c.p(0.2):
                x0, y0 = c.u(-3, cw - 3), c.u(-3, ch - 3)
            box = torch.tensor([x0, y0, bw, bh])
            if c.p(0.5):
                box = box.round().long() if c.p(0.5) else box.round()
            ctx = float(c.pick(0, 0, 0.3, 1, 3))
            full = torch.tensor([box[0] - box[2] * ctx / 2, box[1] - box[3] * ctx / 2, box[0] + box[2] * (1 + ctx / 2), box[1] + box[3] * (1 + ctx / 2)]).double()
            lim = torch.tensor([cw, ch, cw, ch], dtype=D)
            want = torch.minimum(full.clamp(min=0), lim)
            if bool((want[2:] - want[:2] < 3).any()):
                continue
            c.count("boxes over the border", bool((full != want).any()))
            keep_box = box.clone()
            if not changed and c.p(0.5):
                f.bbox_xywh = box
                f.crop_by_metadata_bbox_(ctx)
                c.count("crops")
            else:
                if changed:
                    f.bbox_xywh = box
                    c.raises(ValueError, lambda: f.crop_by_metadata_bbox_(ctx), "the box of the original image was applied to a changed frame")
                f.crop_by_given_bbox_(ctx, box)
                c.count("given crops")
            c.equal(box, keep_box, "box after a crop")
            got = f.crop_bbox_xywh.double()
            got = torch.cat([got[:2], got[:2] + got[2:]])
            c.close(got, want, "crop box", atol=1.001, rtol=0)
            what = "crop"
            t.step(pixels(f.camera, t.pts, f.effective_image_size_hw.tolist()), f.effective_image_size_hw.tolist(), 0)
            # a crop moves the pixels rigidly
            x0, y0 = got[:2].tolist()
            t.ext = (min(t.ext[0] - y0, got[3] - y0), min(t.ext[1] - x0, got[2] - x0))
            after = pixels(f.camera, t.pts, f.effective_image_size_hw.tolist())
            inside = (before.abs() < 1e3).all(-1)
            c.close(after[inside], (before - torch.tensor([x0, y0], dtype=D))[inside], "projection after a crop", atol=2e-3, rtol=1e-4)
        else:
            if c.p(0.4):
                z = c.pick(0.5, 2, 3, 1) if min(hw) % 2 == 0 and max(hw) % 2 == 0 else c.pick(2, 3, 1)
                new = (int(hw[0] * z), int(hw[1] * z))
                if c.p(0.5):
                    new = (new[0] + c.i(0, 9), new[1]) if c.p(0.5) else (new[0], new[1] + c.i(0, 9))
                exact = True
                c.count("exact resizes")
            else:
                new, exact = (c.i(6, 70), c.i(6, 70)), False
            if max(new) > 200 or min(int(hw[0] * min(new[0] / hw[0], new[1] / hw[1])), int(hw[1] * min(new[0] / hw[0], new[1] / hw[1]))) < 3:
                continue
            scale = min(new[0] / hw[0], new[1] / hw[1])
            t.step(before, t.ext, t.bad + (0.51 if t.bad == 0 else 1.01) + 1 / scale)
            t.bad = (t.bad + 1.01) * scale + 1
            t.ext = (t.ext[0] * scale, t.ext[1] * scale)
            f.resize_frame_(torch.tensor(new))
            c.count("resizes")
            c.equal(tuple(f.effective_image_size_hw.tolist()), new, "effective size after a resize")
            mc = f.mask_crop
            c.equal(tuple(mc.shape), (1, *new), "shape of mask_crop")
            oh, ow = int(mc[0, :, 0].sum()), int(mc[0, 0].sum())
            ref = torch.zeros(1, *new)
            ref[:, :oh, :ow] = 1
            c.equal(mc, ref, "mask_crop is one on the pasted corner only")
            c.check(abs(oh - hw[0] * scale) <= (1.001 if not exact else 1e-3 + 1e-5 * oh) and abs(ow - hw[1] * scale) <= (1.001 if not exact else 1e-3 + 1e-5 * ow),
                    f"the resized image covers {oh, ow} of {new}, aspect ratio of {hw} is not preserved")
            c.check(bool((f.image_rgb * (1 - mc) == 0).all()), "the padding of a resized image is not empty")
            c.count("padded", oh < new[0] or ow < new[1])
            # the pasted size is rounded down to whole pixels
            err = max(hw[0] * abs(scale * hw[0] / oh - 1), hw[1] * abs(scale * hw[1] / ow - 1)) * t.px
            out_px = t.px / scale
            t.tol += err + 1e-3
            t.near += err + 0.5 * t.px + out_px
            t.px = out_px
            t.step(pixels(f.camera, t.pts, new), (oh, ow), 1)
            what = "resize"
        hist.append(op)
        if c.p(0.2):
            c.count("moved to another device or type")
            g = f.to(torch.device("cpu"))
            g2 = f.cpu()
            c.equal(g._uncropped if hasattr(g, "_uncropped") else None, f._uncropped if hasattr(f, "_uncropped") else None, "state after moving a frame")
            c.equal(g2.image_rgb, f.image_rgb, "image after moving a frame")
            f = g
        judge(c, t, f, " + ".join(hist), dhw if other else None)
    c.sig(h, w, tuple(hist), other)


# ---------------------------------------------------------------- box tools
@monitor(quick=3000, thorough=100000, need=("plain masks", "lowered thresholds", "empty masks", "one pixel", "tiny images"))
def boxes(c):
    m = mods()
    h, w = c.i(1, 12), c.i(1, 12)
    if c.p(0.05):
        h = w = 1
    thr = float(c.pick(0.4, 0.5, 0.9, 0.1))
    mask = np.zeros((h, w), dtype=np.float32)
    kind = c.pick("blob", "soft", "one", "empty", "noise")
    if kind == "blob":
        y, x = sorted((c.i(0, h), c.i(0, h))), sorted((c.i(0, w), c.i(0, w)))
        mask[y[0]:y[1], x[0]:x[1]] = 1
    elif kind == "soft":
        mask = c.rand(h, w, hi=0.35).numpy()
    elif kind == "one":
        mask[c.i(0, h - 1), c.i(0, w - 1)] = 1
        c.count("one pixel")
    elif kind == "noise":
        mask = (c.rand(h, w) > 0.9).float().numpy() * c.rand(h, w, lo=0.3).numpy()
    c.count("tiny images", h * w == 1)
    arr = mask[None] if c.p(0.5) else mask
    keep = arr.copy()
    got = m.u.get_bbox_from_mask(arr, thr)
    c.equal(bool((arr == keep).all()), True, "mask after a box was computed")
    x, y, bw, bh = [int(v) for v in got]
    c.sig(kind, h, w, thr, got)
    c.check(0 <= x and 0 <= y and bw >= 1 and bh >= 1 and x + bw <= w and y + bh <= h, f"box {got} of a mask of size {h, w} is not inside the image")
    if (mask > thr).sum() > 1:
        c.count("plain masks")
        ys, xs = np.nonzero(mask > thr)
        c.equal((x, y, bw, bh), (int(xs.min()), int(ys.min()), int(xs.max() - xs.min() + 1), int(ys.max() - ys.min() + 1)), "tight box of a mask")
    elif (mask > 0).sum() > 1:
        # some lower threshold: the box of a level set that holds at least two pixels
        c.count("lowered thresholds")
        options = set()
        for v in sorted(set(mask.flatten().tolist())):
            s = mask >= v
            ys, xs = np.nonzero(s)
            options.add((int(xs.min()), int(ys.min()), int(xs.max() - xs.min() + 1), int(ys.max() - ys.min() + 1)))
        c.check((x, y, bw, bh) in options, f"box {got} fits no level set of the mask")
        top = np.sort(mask.flatten())[-2]
        ys, xs = np.nonzero(mask >= top)
        c.check(x <= xs.min() and y <= ys.min() and x + bw > xs.max() and y + bh > ys.max(), f"box {got} misses the most certain pixels")
    else:
        c.count("empty masks")
        c.equal((x, y, bw, bh), (0, 0, w, h), "box of a mask without foreground")

    b = c.randint(-9, 30, (4,))
    b[2:] = b[2:].abs() + 1
    b = b.float() + c.rand(4) if c.p(0.5) else b
    c.close(m.u.bbox_xyxy_to_xywh(m.u.bbox_xywh_to_xyxy(b)), b, "box converted to corners and back", atol=1e-5)
    xyxy = m.u.bbox_xywh_to_xyxy(b)
    H, W = c.i(1, 40), c.i(1, 40)
    cl = m.u.clamp_box_to_image_bounds_and_round(xyxy, (H, W))
    lim = torch.tensor([W, H, W, H])
    c.check(cl.dtype == torch.int64 and bool((cl >= 0).all()) and bool((cl <= lim).all()), f"clamped box {cl.tolist()} outside of an image of size {H, W}")
    c.close(cl.double(), torch.minimum(xyxy.double().clamp(min=0), lim.double()), "clamped box", atol=0.5001, rtol=0)
    a, z = (c.i(1, 90), c.i(1, 90)), c.pick(2, 3, 0.5)
    c.close(m.u.rescale_bbox(b, a, (a[0] * z, a[1] * z)), b.double() * z, "rescaled box", atol=1e-5)


# ------------------------------------------------------------------ builder
def save_png(path, arr, mode=None):
    from PIL import Image
    Image.fromarray(arr, mode).save(path)


@monitor(quick=1200, thorough=40000, need=("built", "cropped", "not cropped", "annotated boxes", "boxes from masks", "alpha masks", "image bound intrinsics", "isotropic intrinsics", "masked images", "masked depths",
                                           "without files", "points read from the image", "resized", "not resized", "point clouds"))
def builder(c):
    m = mods()
    root = tempfile.mkdtemp(prefix="c38_")
    try:
        _builder(c, m, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _builder(c, m, root):
    h, w = c.i(8, 40), c.i(8, 40)
    alpha = c.p(0.2)
    img = np.zeros((h, w, 4 if alpha else 3), dtype=np.uint8)
    img[..., 0] = 2 * np.arange(w) + 1
    img[..., 1] = (2 * np.arange(h) + 1)[:, None]
    img[..., 2] = 255
    mask = np.zeros((h, w), dtype=np.uint8)
    y, x = sorted((c.i(0, h), c.i(0, h))), sorted((c.i(0, w), c.i(0, w)))
    y = (y[0], max(y[1], y[0] + 3)) if y[0] + 3 <= h else (h - 3, h)
    x = (x[0], max(x[1], x[0] + 3)) if x[0] + 3 <= w else (w - 3, w)
    mask[y[0]:y[1], x[0]:x[1]] = c.randint(130, 256, (y[1] - y[0], x[1] - x[0])).numpy()
    if c.p(0.3):
        mask[c.i(0, h - 1), c.i(0, w - 1)] = c.i(1, 255)
    if alpha:
        img[..., 3] = mask
    save_png(os.path.join(root, "image.png"), img)
    has_mask = not alpha and c.p(0.8)
    if has_mask:
        save_png(os.path.join(root, "mask.png"), mask)
    has_depth = c.p(0.7)
    scale_adj = float(c.pick(1, 1, 2, 0.5))
    depth = (np.arange(h)[:, None] * 44 + np.arange(w) + 1).astype(np.float16)
    holes = c.rand(h, w).numpy() < 0.2
    nan = c.rand(h, w).numpy() < 0.1
    if has_depth:
        stored = depth.copy()
        if c.p(0.5):
            stored[holes] = 0
            stored[nan] = np.inf
            holes |= nan
        else:
            holes[:] = False
        save_png(os.path.join(root, "depth.png"), stored.view(np.uint16))
        dmask = (c.rand(h, w).numpy() > 0.5)
        if c.p(0.5):
            save_png(os.path.join(root, "dmask.png"), dmask.astype(np.uint8) * 255)
            dpath = "dmask.png"
        else:
            dpath = None
    clean = np.where(holes, 0, depth.astype(np.float32) * scale_adj)
    npts = 0
    if c.p(0.3):
        from pytorch3d.io import IO
        npts = c.i(3, 30)
        cloud = c.randn(npts, 3)
        IO().save_pointcloud(m.P([cloud]), os.path.join(root, "cloud.ply"))
    fmt = c.pick("ndc_norm_image_bounds", "ndc_isotropic")
    cam = camera(c)
    foc, pp = cam.focal_length[0].tolist(), cam.principal_point[0].tolist()
    box = None
    if c.p(0.4):
        bw, bh = c.u(3, w), c.u(3, h)
        box = (c.u(0, w - bw), c.u(0, h - bh), bw, bh)
    have_view = c.p(0.9)
    fa = m.t.FrameAnnotation(
        sequence_name="seq", frame_number=c.i(0, 99), frame_timestamp=c.u(0, 9), image=m.t.ImageAnnotation("image.png", (h, w)),
        depth=m.t.DepthAnnotation("depth.png", scale_adj, dpath) if has_depth else None,
        mask=m.t.MaskAnnotation("mask.png", bounding_box_xywh=box) if has_mask else (m.t.MaskAnnotation("", bounding_box_xywh=box) if box else None),
        viewpoint=m.t.ViewpointAnnotation(tuple(map(tuple, cam.R[0].tolist())), tuple(cam.T[0].tolist()), tuple(foc), tuple(pp), fmt) if have_view else None)
    sa = m.t.SequenceAnnotation("seq", "cat", None, m.t.PointCloudAnnotation("cloud.ply", 0.5, npts) if npts else None, 0.75)
    blobs = c.p(0.9)
    masks_known = alpha or has_mask
    crop = (box is not None or (masks_known and blobs)) and c.p(0.6)
    load = dict(load_images=c.p(0.9), load_masks=c.p(0.9), load_depths=c.p(0.8), load_depth_masks=c.p(0.7), load_point_clouds=c.p(0.7))
    fg_loaded = blobs and ((has_mask and load["load_masks"]) or (alpha and load["load_images"]))
    crop = crop and (box is not None or fg_loaded)
    mi = fg_loaded and c.p(0.3)
    md = fg_loaded and c.p(0.3)
    size = None if c.p(0.4) else (c.i(12, 60), c.i(12, 60))
    ctx = float(c.pick(0, 0.3, 1))
    b = m.B(dataset_root=root, mask_images=mi, mask_depths=md, image_height=size and size[0], image_width=size and size[1], box_crop=crop, box_crop_context=ctx, **load)
    c.sig(h, w, alpha, has_mask, has_depth, fmt, box is not None, crop, tuple(load.values()), mi, md, size is None, blobs)
    f = b.build(fa, sa, load_blobs=blobs)
    c.count("built")
    c.count("cropped" if crop else "not cropped")
    c.count("resized" if size else "not resized")
    c.count("without files", not blobs)
    c.count("image bound intrinsics" if fmt != "ndc_isotropic" else "isotropic intrinsics", have_view)
    c.equal((int(f.frame_number), f.sequence_name, f.sequence_category), (fa.frame_number, "seq", "cat"), "identity of the frame")
    c.close(f.frame_timestamp, fa.frame_timestamp, "time of the frame")
    c.close(f.camera_quality_score, 0.75, "camera quality")
    c.equal(tuple(f.image_size_hw.tolist()), (h, w), "size of the original image")
    c.equal(f.image_path, os.path.join(root, "image.png"), "path of the image")
    c.equal(f.mask_path, os.path.join(root, "mask.png") if has_mask else None, "path of the mask")
    c.equal(f.depth_path, os.path.join(root, "depth.png") if has_depth else None, "path of the depth map")
    if npts:
        c.close(f.point_cloud_quality_score, 0.5, "point cloud quality")
        if blobs and load["load_point_clouds"]:
            c.count("point clouds")
            c.close(f.sequence_point_cloud.points_list()[0], cloud, "points of the sequence", atol=1e-5)
        else:
            c.equal(f.sequence_point_cloud, None, "a point cloud that should not be loaded")
    fgm = mask.astype(np.float32) / 255
    # boxes
    want_box = box
    if box is None and fg_loaded:
        ys, xs = np.nonzero(fgm > 0.4)
        want_box = (xs.min(), ys.min(), xs.max() - xs.min() + 1, ys.max() - ys.min() + 1)
        c.count("boxes from masks")
    elif box is not None:
        c.count("annotated boxes")
    if want_box is None:
        c.equal(f.bbox_xywh, None, "box of a frame without mask")
    else:
        c.close(f.bbox_xywh, torch.tensor([float(v) for v in want_box]), "box of the frame", atol=1e-4)
    region = (0, 0, w, h)
    if crop:
        bb = torch.tensor([float(v) for v in want_box], dtype=D)
        full = torch.tensor([bb[0] - bb[2] * ctx / 2, bb[1] - bb[3] * ctx / 2, bb[0] + bb[2] * (1 + ctx / 2), bb[1] + bb[3] * (1 + ctx / 2)], dtype=D)
        lim = torch.tensor([w, h, w, h], dtype=D)
        g = f.crop_bbox_xywh.long()
        region = (int(g[0]), int(g[1]), int(g[0] + g[2]), int(g[1] + g[3]))
        c.close(torch.tensor(region).double(), torch.minimum(full.clamp(min=0), lim), "crop box", atol=1.001, rtol=0)
    x0, y0, x1, y1 = region
    rh, rw = y1 - y0, x1 - x0
    eff = size or (rh, rw)
    c.equal(tuple(f.effective_image_size_hw.tolist()), tuple(eff), "size of the built frame")
    # loaded or not
    for name, want in (("image_rgb", blobs and load["load_images"]), ("fg_probability", fg_loaded), ("depth_map", blobs and load["load_depths"] and has_depth), ("depth_mask", blobs and load["load_depths"] and has_depth)):
        c.equal(getattr(f, name) is not None, bool(want), f"{name} is present")
    c.count("alpha masks", alpha and fg_loaded)
    c.count("masked images", mi and f.image_rgb is not None)
    c.count("masked depths", md and f.depth_map is not None)
    if not has_depth:
        clean_depth = None
    else:
        clean_depth = clean * (fgm if md else 1)
        dm = dmask.astype(np.float32) if load["load_depth_masks"] and dpath else (clean_depth > 0).astype(np.float32)
    rgb = img[..., :3].transpose(2, 0, 1).astype(np.float32) / 255
    if mi:
        rgb = rgb * fgm
    if size is None:
        for name, want in (("image_rgb", rgb), ("fg_probability", fgm[None]), ("depth_map", clean_depth[None] if has_depth else None), ("depth_mask", dm[None] if has_depth else None)):
            got = getattr(f, name)
            if got is not None:
                c.close(got, torch.tensor(want[..., y0:y1, x0:x1]), f"{name} of the built frame", atol=1e-5, rtol=1e-5)
    elif f.image_rgb is not None:
        mc = f.mask_crop
        oh, ow = int(mc[0, :, 0].sum()), int(mc[0, 0].sum())
        # nearest reads: every value stems from the neighbourhood of its place
        for name, want in (("fg_probability", fgm), ("depth_map", clean_depth if has_depth else None), ("depth_mask", dm if has_depth else None)):
            got = getattr(f, name)
            if got is None:
                continue
            c.equal(tuple(got.shape), (1, *size), f"shape of {name}")
            c.check(bool((got * (1 - mc) == 0).all()), f"{name} is not empty in the padding")
            ref = torch.tensor(want[y0:y1, x0:x1]).double()
            iy, ix = (torch.arange(oh) + 0.5) * rh / oh - 0.5, (torch.arange(ow) + 0.5) * rw / ow - 0.5
            hit = torch.zeros(oh, ow, dtype=torch.bool)
            ry, rx = 0.5 * rh / oh + 0.51, 0.5 * rw / ow + 0.51
            g = got[0, :oh, :ow].double()
            for dy in range(-int(ry + 1), int(ry + 2)):
                for dx in range(-int(rx + 1), int(rx + 2)):
                    yy, xx = (iy.floor() + dy), (ix.floor() + dx)
                    near = ((yy - iy).abs() <= ry)[:, None] & ((xx - ix).abs() <= rx)
                    v = ref[yy.long().clamp(0, rh - 1)][:, xx.long().clamp(0, rw - 1)]
                    hit |= near & ((v - g).abs() <= 1e-5 * (1 + v.abs()))
            c.check(bool(hit.all()), f"{name} holds values from elsewhere", where=(~hit).nonzero()[:5].tolist())
    if have_view:
        s = torch.tensor([w, h], dtype=D) / min(h, w) if fmt != "ndc_isotropic" else torch.ones(2, dtype=D)
        ref = m.C(R=cam.R, T=cam.T, focal_length=(cam.focal_length.double() * s).float(), principal_point=(cam.principal_point.double() * s).float())
        t = Tracker(c, ref, (h, w))
        uv = pixels(f.camera, t.pts, eff)
        sc = 1.0 if size is None else min(size[0] / rh, size[1] / rw)
        want = (t.uv - torch.tensor([x0, y0], dtype=D)) * sc
        c.close(uv, want, "projection of the built frame's camera", atol=2e-3 * (1 + sc), rtol=1e-3)
        if f.image_rgb is not None and not mi:
            err = 0.0
            if size is not None:
                err = max(rh * abs(sc * rh / oh - 1), rw * abs(sc * rw / ow - 1))
            lo = torch.tensor([x0, y0], dtype=D) + 1 + 1 / sc
            hi = torch.tensor([x1, y1], dtype=D) - 1 - 1 / sc - err
            ok = ((t.uv > lo) & (t.uv < hi)).all(-1)
            v = bilinear(f.image_rgb, uv)
            got = (v[:, :2] * 255) / 2
            c.count("points read from the image", int(ok.sum()))
            c.close(got[ok], t.uv[ok], "original position read at the projected pixel of a built frame", atol=err + 0.02, rtol=1e-3)
    else:
        c.equal(f.camera, None, "camera of a frame without viewpoint")


# ---------------------------------------------------------------- collation
@monitor(quick=1500, thorough=50000, need=("collated", "shared clouds", "partly missing", "distinct clouds"))
def collation(c):
    m = mods()
    n = c.i(1, 5)
    h, w = c.i(1, 6), c.i(1, 6)
    clouds = [m.P([c.randn(c.i(1, 5), 3)]) for _ in range(c.i(1, n))]
    which = [c.i(0, len(clouds) - 1) for _ in range(n)]
    drop = c.pick(None, "image_rgb", "camera", "depth_map", "sequence_point_cloud", "bbox_xywh")
    dropped = c.i(0, n - 1)
    frames = []
    for i in range(n):
        f = m.F(frame_number=torch.tensor(c.i(0, 99)), sequence_name=f"s{which[i]}", sequence_category=c.pick("a", "b"), frame_timestamp=torch.tensor(c.u()), image_size_hw=torch.tensor([h, w]),
                effective_image_size_hw=torch.tensor([h, w]), image_path=f"p{i}", image_rgb=c.rand(3, h, w), depth_map=c.rand(1, h, w), fg_probability=c.rand(1, h, w), bbox_xywh=c.rand(4), camera=camera(c),
                sequence_point_cloud=clouds[which[i]], frame_type=c.pick("train_known", "test_unseen"))
        if drop and i == dropped:
            setattr(f, drop, None)
        frames.append(f)
    c.count("partly missing", drop is not None)
    b = m.F.collate(frames)
    c.count("collated")
    c.sig(n, h, w, tuple(which), drop)
    for k in ("frame_number", "frame_timestamp", "image_rgb", "depth_map", "fg_probability", "bbox_xywh", "image_size_hw"):
        if k == drop:
            c.equal(getattr(b, k), None, f"{k} of a batch where one frame has none")
        else:
            c.equal(getattr(b, k), torch.stack([getattr(f, k) for f in frames]), f"collated {k}")
    for k in ("sequence_name", "sequence_category", "image_path", "frame_type"):
        c.equal(list(getattr(b, k)), [getattr(f, k) for f in frames], f"collated {k}")
    for k in ("mask_crop", "depth_mask", "mask_path"):
        c.equal(getattr(b, k), None, f"collated {k}")
    if drop == "camera":
        c.equal(b.camera, None, "camera of a batch where one frame has none")
    else:
        for k in ("R", "T", "focal_length", "principal_point"):
            c.equal(getattr(b.camera, k), torch.cat([getattr(f.camera, k) for f in frames]), f"collated camera {k}")
    if drop == "sequence_point_cloud":
        return
    idx = b.sequence_point_cloud_idx
    c.check(idx.shape == (n,) and not idx.is_floating_point(), f"indices of the sequence point clouds are not integers: {idx}")
    c.equal(len(b.sequence_point_cloud), len(set(which)), "number of distinct point clouds in a batch")
    c.count("shared clouds", len(set(which)) < n)
    c.count("distinct clouds", len(set(which)) > 1)
    pts = b.sequence_point_cloud.points_list()
    for i in range(n):
        c.equal(pts[int(idx[i])], clouds[which[i]].points_list()[0], "point cloud of a frame in a batch")
    c.equal(b.sequence_point_cloud[idx].points_list()[0], clouds[which[0]].points_list()[0], "point clouds picked by the batch's indices")
