"""Ray samplers: every reported ray projects to the image position reported with it."""
import torch
from checks.c13 import make, project, to_ndc
from lib.harness import monitor
from lib.raster import D, pixel_centres

NATIVE = True
RULE = ("grid, NDC grid and Monte-Carlo samplers x camera models and parameter forms x image sizes x masks x rays per image / in total x depths overridden per call x stratified and unit directions x "
        "image-plane ranges; distinct = distinct (sampler, options, camera forms, sizes)")
ASSUMPTIONS = ["camera batches as in C13; positions are compared in float64 with tolerances scaled by the image-plane coordinates"]


def sub(o, ids):
    s = type(o)()
    s.__dict__.update(o.__dict__)
    for k in ("K", "R", "T", "image"):
        if getattr(o, k, None) is not None:
            setattr(s, k, getattr(o, k)[ids])
    return s


def judge_rays(c, o, cam_of_ray, rb, lo, hi, npts, unit, strat, info):
    """Flat rays (M,3), (M,3), (M,n), (M,2) and the camera of each ray."""
    org, d, ln, xy = (t.detach().double() for t in rb)
    M = len(org)
    c.equal(tuple(ln.shape), (M, npts), "shape of the lengths", **info)
    s = sub(o, cam_of_ray)
    # origins
    persp = o.model in ("fovp", "persp")
    C = -(s.T[:, None] @ s.R.transpose(1, 2))[:, 0]
    v0 = (org[:, None] @ s.R)[:, 0] + s.T
    scale = 1 + s.T.norm(dim=1).max() + xy.abs().max()
    if persp:
        c.close(org, C, "ray origin is not the camera centre", atol=1e-4 * float(scale) * 3, rtol=0, **info)
    else:
        c.close(v0[:, 2], torch.zeros(M), "orthographic ray origin is not on the plane of the camera", atol=1e-4 * float(scale) * 3, **info)
    if unit:
        c.close(d.norm(dim=1), torch.ones(M), "length of a unit direction", atol=1e-5, **info)
    vd = (d[:, None] @ s.R)[:, 0]
    for t in (1.0, 2.5) + tuple(ln[:, i] for i in range(npts)):
        t = torch.full((M,), t, dtype=D) if isinstance(t, float) else t
        v = v0 + vd * t[:, None]
        ok = v[:, 2] > 0.2
        if not unit:
            c.close(v[:, 2][ok], t[ok], "depth of a ray point", atol=2e-4 * float(scale), rtol=2e-4, **info)
        if not bool(ok.any()):
            continue
        p = to_ndc(s, project(s.K, v[:, None]))[:, 0, :2]
        # rounding of the origin weighs more at small depth, and more for large focal lengths
        f = s.K[:, [0, 1], [0, 1]].abs().amax(1)
        if not o.ndc:
            f = f * 2 / s.image.min(1).values
        tol = 1e-4 * float(scale) * (1 + f / (v[:, 2] if persp else 1.0)) + 1e-4
        c.close(p[ok], xy[ok], "a point of the ray does not project to the image position of the ray", atol=tol[ok][:, None].expand(-1, 2), rtol=1e-4, **info)
        c.count("points", int(ok.sum()))
    if npts:
        want = torch.linspace(lo, hi, npts, dtype=D)
        e = 1e-4 * max(1.0, abs(hi))
        if strat and npts > 1:
            mid = (want[1:] + want[:-1]) / 2
            L, U = torch.cat([want[:1], mid]), torch.cat([mid, want[-1:]])
            L, U = torch.minimum(L, U), torch.maximum(L, U)
            c.check(bool(((ln >= L - e) & (ln <= U + e)).all()), "a stratified depth left its interval", lengths=ln, **info)
            if M > 3:
                c.check(bool((ln.std(0) > 0).all()) or hi == lo, "stratified depths do not vary between rays", **info)
            c.count("stratified")
        else:
            c.close(ln, want.expand(M, npts), "depths of the ray points", atol=e, **info)


def flat(rb):
    return tuple(t.reshape(-1, t.shape[-1]) if t.shape[-1] else t.reshape(rb.origins.reshape(-1, 3).shape[0], 0) for t in (rb.origins, rb.directions, rb.lengths, rb.xys))


@monitor(quick=2500, thorough=60000,
         need=("points", "stratified", "grid", "ndc", "mc", "packed", "masked", "per_image", "override", "fovp", "fovo", "persp", "ortho", "screen_cam", "zero_pts", "unit"))
def samplers(c):
    from pytorch3d.renderer import MonteCarloRaysampler, MultinomialRaysampler, NDCMultinomialRaysampler
    from pytorch3d.renderer.implicit.utils import HeterogeneousRayBundle, ray_bundle_to_ray_points
    o = make(c)
    n = o.n
    # zero-size image axes do not exist; a one-pixel axis does
    H, W = c.i(1, 7), c.i(1, 7)
    npts = c.i(0, 5) if c.p(0.2) else c.i(1, 5)
    lo = c.u(0.3, 2)
    hi = lo + c.u(0, 4)
    unit, strat = c.p(0.3), c.p(0.4)
    kind = c.pick("grid", "ndc", "mc")
    mode = c.pick("all", "all", "per_image", "total", "mask", "mask_per_image", "mask_total") if kind != "mc" else c.pick("per_image", "total")
    nr = c.i(1, 12)
    kw = dict(n_pts_per_ray=npts, min_depth=lo, max_depth=hi)
    fw = {}
    if unit or c.p(0.5):
        kw["unit_directions"] = unit
    if c.p(0.3):
        fw["stratified_sampling"] = strat
        kw["stratified_sampling"] = c.p(0.5)
    elif strat or c.p(0.5):
        kw["stratified_sampling"] = strat
    if kind != "mc" and c.p(0.3):
        lo = c.pick(0.0, c.u(0.3, 1), c.u(0.3, 1))
        hi = lo + c.pick(0.0, c.u(0, 3), c.u(0, 3))
        fw.update(min_depth=lo, max_depth=hi)
        if c.p(0.5):
            npts = c.i(0, 4)
            fw["n_pts_per_ray"] = npts
        c.count("override")
    mask = None
    if "mask" in mode:
        mask = (c.rand(n, H, W) < 0.6)
        mask[:, c.i(0, H - 1), c.i(0, W - 1)] = True
        fw["mask"] = mask.float() if c.p(0.5) else mask.to(torch.float64).float()
    if "per_image" in mode:
        (fw if kind != "mc" and c.p(0.5) else kw)["n_rays_per_image"] = nr
    if "total" in mode:
        (fw if kind != "mc" and c.p(0.5) else kw)["n_rays_total"] = nr
    x0, x1, y0, y1 = c.u(-2, 2), c.u(-2, 2), c.u(-2, 2), c.u(-2, 2)
    if kind == "grid":
        S = MultinomialRaysampler(min_x=x0, max_x=x1, min_y=y0, max_y=y1, image_width=W, image_height=H, **kw)
        gx, gy = torch.linspace(x0, x1, W, dtype=D).expand(H, W), torch.linspace(y0, y1, H, dtype=D)[:, None].expand(H, W)
    elif kind == "ndc":
        S = NDCMultinomialRaysampler(image_width=W, image_height=H, **kw)
        gx, gy = pixel_centres(H, W)
    else:
        if "total" in mode:
            kw["n_rays_per_image"] = None
        S = MonteCarloRaysampler(x0, x1, y0, y1, **kw)
    rb = S(o.real, **fw)
    info = dict(kind=kind, mode=mode, forms=o.forms, H=H, W=W, npts=npts, unit=unit, strat=strat, nr=nr)
    total = "total" in mode
    if total:
        c.check(isinstance(rb, HeterogeneousRayBundle), "rays in total give a heterogeneous bundle", **info)
        c.equal((rb.origins.shape[0], rb.origins.numel()), (nr, 3 * nr), "number of packed rays", **info)
        ids, cnt = rb.camera_ids, rb.camera_counts
        c.equal(int(cnt.sum()), nr, "sum of the camera counts", **info)
        c.check(len(ids) == len(set(ids.tolist())) and bool((cnt > 0).all()) and bool(((ids >= 0) & (ids < n)).all()), "camera ids", ids=ids, counts=cnt, **info)
        cam = torch.repeat_interleave(ids, cnt)
        per = [torch.nonzero(cam == b)[:, 0] for b in range(n)]
        c.count("packed")
    else:
        m = nr
        if mode == "mask":
            m = int(mask.sum((1, 2)).min())
        shape = {"all": (H, W)}.get(mode, (m, 1) if kind != "mc" else (m,))
        c.equal(tuple(rb.origins.shape), (n, *shape, 3), "shape of the rays", **info)
        c.equal(tuple(rb.xys.shape), (n, *shape, 2), "shape of the image positions", **info)
        k = rb.origins[0].numel() // 3
        cam = torch.arange(n).repeat_interleave(k)
        per = [torch.arange(b * k, (b + 1) * k) for b in range(n)]
    f = flat(rb)
    judge_rays(c, o, cam, f, lo, hi, npts, unit, strat, info)
    xy = f[3].double()
    if kind == "mc":
        a, b = torch.tensor([x0, y0]), torch.tensor([x1, y1])
        L, U = torch.minimum(a, b).double() - 1e-5, torch.maximum(a, b).double() + 1e-5
        c.check(bool(((xy >= L) & (xy <= U)).all()), "a Monte-Carlo ray left the requested range", xy=xy, **info)
    else:
        g = torch.stack([gx, gy], -1)
        if mode == "all":
            c.close(rb.xys, g.expand(n, H, W, 2), "image positions of the grid", atol=2e-5, **info)
        else:
            near = (xy[:, None] - g.reshape(-1, 2)[None]).abs().amax(-1)
            e, j = near.min(1)
            c.check(bool((e < 1e-4).all()), "a sampled ray is not on the grid", **info)
            if min(abs(x1 - x0) / max(W - 1, 1), abs(y1 - y0) / max(H - 1, 1)) > 1e-2 or kind == "ndc":
                for b in range(n):
                    jj = j[per[b]]
                    avail = H * W
                    if mask is not None:
                        c.check(bool(mask[b].reshape(-1)[jj].all()), "a ray was sampled outside the mask", **info)
                        avail = int(mask[b].sum())
                    # rays are drawn without replacement as long as there are enough pixels
                    want = int(cnt.max()) if total else len(jj)
                    if avail >= want:
                        c.equal(len(set(jj.tolist())), len(jj), "pixels sampled twice", **info)
    if npts and c.p(0.3):
        p = ray_bundle_to_ray_points(rb)
        c.close(p, rb.origins[..., None, :] + rb.lengths[..., None] * rb.directions[..., None, :], "ray points", atol=1e-4, **info)
    c.count(kind), c.count(o.model), c.count("masked", mask is not None), c.count("per_image", "per_image" in mode)
    c.count("screen_cam", not o.ndc), c.count("zero_pts", npts == 0), c.count("unit", unit)
    c.sig(kind, mode, *o.forms, H, W, npts, unit, strat)


@monitor(quick=60, thorough=1500, need=("pixels",))
def sampling_law(c):
    """Random pixels: every pixel of the mask (of the image) is drawn at about its rate; cameras too."""
    from pytorch3d.renderer import FoVPerspectiveCameras, MonteCarloRaysampler, NDCMultinomialRaysampler
    H, W, n = c.i(2, 4), c.i(2, 4), c.i(1, 3)
    cam = FoVPerspectiveCameras(R=torch.eye(3).expand(n, 3, 3), T=torch.zeros(n, 3))
    S = NDCMultinomialRaysampler(image_width=W, image_height=H, n_pts_per_ray=1, min_depth=1, max_depth=2)
    mask = torch.ones(n, H, W)
    if c.p(0.6):
        mask[:, 0, c.i(0, W - 1)] = 0
    T = 400
    nr = c.i(1, H * W - 1)
    px, py = pixel_centres(H, W)
    g = torch.stack([px, py], -1).reshape(-1, 2)
    cnt = torch.zeros(n, H * W)
    for _ in range(T):
        rb = S(cam, mask=mask, n_rays_per_image=nr)
        j = (rb.xys.reshape(n, -1, 1, 2).double() - g).abs().amax(-1).argmin(-1)
        cnt.scatter_add_(1, j, torch.ones(j.shape))
    m = mask.reshape(n, -1)
    p = torch.minimum(nr / m.sum(1, keepdim=True), torch.ones(1))
    repl = nr > m.sum(1, keepdim=True)
    sd = (T * p * (1 - p)).sqrt() + (T * nr) ** 0.5 * repl
    want = T * nr / m.sum(1, keepdim=True)
    c.check(bool((cnt[m == 0] == 0).all()), "masked pixels were drawn")
    dev = ((cnt - want).abs() / (sd + 1)) * m
    c.check(float(dev.max()) < 6.5, "the sampler does not draw the pixels evenly", counts=cnt, want=want)
    rb = MonteCarloRaysampler(-1, 1, -2, 2, n_rays_per_image=2000, n_pts_per_ray=1, min_depth=1, max_depth=2)(cam)
    q = ((rb.xys / torch.tensor([1.0, 2.0]) + 1) / 2).reshape(-1, 2)
    for a in range(2):
        h = torch.histc(q[:, a], 8, 0, 1)
        e = len(q) / 8
        c.check(float((h - e).abs().max()) < 6.5 * e ** 0.5, "Monte-Carlo positions are not uniform", hist=h)
    c.count("pixels", H * W)
    c.sig(H, W, n, nr, int(mask.sum()))
