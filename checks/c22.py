"""Ray marching, PDF sampling and volume sampling against float64 references."""
import torch
from checks import c09
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("ray densities in [0,1] with runs of exact 0 and 1, 1..40 points, any leading shape; piecewise-constant PDFs with "
        "zero weights, zero-width bins, extreme scales and 1..60 bins in any batch shape; rays through volumes of unequal "
        "grid sizes; distinct = distinct (shape, argument forms)")
ASSUMPTIONS = ["surface_thickness of the marcher is at least 1", "volumes with a single voxel along an axis are excluded when sampled",
               "bins whose weight is at most eps may be represented by their start, as the samplers document an eps"]


def densities(c, shape):
    """(..., P, 1) in [0,1]"""
    d = c.rand(*shape)
    k = c.pick("any", "sparse", "opaque", "binary", "tiny", "zero", "one", "mixed")
    if k == "sparse":
        d = d * (c.rand(*shape) < 0.3)
    elif k == "opaque":
        d = torch.where(c.rand(*shape) < 0.3, torch.ones(shape), d)
    elif k == "binary":
        d = (d < 0.4).float()
    elif k == "tiny":
        d = d * 1e-6
    elif k == "zero":
        d = torch.zeros(shape)
    elif k == "one":
        d = torch.ones(shape)
    elif k == "mixed":
        r = c.rand(*shape)
        d = torch.where(r < 0.3, torch.zeros(shape), torch.where(r > 0.8, torch.ones(shape), d))
    return d, k


def march(d, f, s):
    """d (...,P) f (...,P,C) float64; explicit loop over points"""
    P = d.shape[-1]
    T = [torch.ones_like(d[..., 0])]
    for k in range(P):
        T.append(T[-1] * (1 - d[..., k]))
    w = [d[..., k] * (T[k - s + 1] if k >= s else T[0]) for k in range(P)]
    w = torch.stack(w, -1)
    return (w[..., None] * f).sum(-2), (1 - T[P])[..., None], w


@monitor(quick=500, thorough=20000, need=("weights", "thick", "zero", "one"))
def raymarchers(c):
    from pytorch3d.renderer import AbsorptionOnlyRaymarcher, EmissionAbsorptionRaymarcher
    lead = c.pick((), (1,), (3,), (2, 3), (2, 2, 3), (1, 4))
    P = c.pick(1, 2, 3, 5, 10, 40)
    C = c.i(1, 4)
    dens, kind = densities(c, (*lead, P, 1))
    feat = c.randn(*lead, P, C)
    s = c.pick(1, 1, 1, 2, 3)
    if s > P:
        s = 1
    m = EmissionAbsorptionRaymarcher(surface_thickness=s) if s > 1 or c.p(0.5) else EmissionAbsorptionRaymarcher()
    extra = dict(ray_bundle=None) if c.p(0.3) else {}
    d0, f0 = dens.clone(), feat.clone()
    out = m(dens, feat, **extra)
    wf, wo, w = march(dens[..., 0].double(), feat.double(), s)
    c.close(out[..., :-1], wf, "emission-absorption features", atol=2e-6 * P, rtol=1e-5, kind=kind, s=s)
    c.close(out[..., -1:], wo, "emission-absorption opacity", atol=1e-6 * P, rtol=1e-6, kind=kind)
    c.equal(tuple(out.shape), (*lead, C + 1), "shape of the rendered features")
    a = AbsorptionOnlyRaymarcher()(dens, **extra)
    c.close(a, wo, "absorption-only opacity", atol=1e-6 * P, rtol=1e-6, kind=kind)
    # read the weights off with one-hot features
    eye = torch.eye(P).expand(*lead, P, P)
    ww = m(dens, eye)[..., :-1]
    c.close(ww, w, "weights of the points", atol=1e-6 * P, rtol=1e-5, kind=kind, s=s)
    if s == 1:
        c.check(bool((ww >= 0).all() and (ww <= 1 + 1e-6).all()), "a weight outside [0,1]", w=ww)
        c.check(bool((ww.sum(-1) <= 1 + 1e-5).all()), "weights of a ray add up to more than one", w=ww)
        c.close(ww.sum(-1, keepdim=True), out[..., -1:], "sum of weights against opacity", atol=2e-6 * P, rtol=0)
    else:
        c.count("thick")
    c.equal(dens, d0, "densities modified"); c.equal(feat, f0, "features modified")
    c.count("weights", ww.numel()); c.count(kind)
    c.sig(lead, P, C, s, kind)
    # rays are independent: any one of them gives the same alone
    if lead:
        i = tuple(c.i(0, q - 1) for q in lead)
        c.close(m(dens[i], feat[i]), out[i], "a ray on its own", atol=1e-6, rtol=1e-6)
    bad = c.pick("dim", "shape")
    if bad == "dim":
        c.raises(ValueError, lambda: m(dens.expand(*lead, P, 2), feat), "densities of two channels accepted")
    else:
        c.raises(ValueError, lambda: m(dens, torch.cat([feat, feat], -2)), "features of another number of points accepted")


def make_pdf(c, lead, nb):
    k = c.pick("any", "holes", "peak", "zero", "edges")
    w = c.rand(*lead, nb)
    if k == "holes":
        w = w * (c.rand(*lead, nb) < 0.5)
    elif k == "peak":
        w = w * 1e-3
        w[..., c.i(0, nb - 1)] = 1.0
    elif k == "zero":
        w = torch.zeros(*lead, nb)
    elif k == "edges":
        w[..., 0] = 0
        w[..., -1] = 0
    scale = c.pick(1.0, 1.0, 30.0, 1e4, 1e-2)
    widths = c.rand(*lead, nb + 1, lo=0.05)
    kb = c.pick("any", "any", "flat", "far")
    if kb == "flat":
        widths = widths * (c.rand(*lead, nb + 1) < 0.7)
    bins = widths.cumsum(-1) + (c.u(-3, 3) if kb != "far" else 100.0)
    return bins, w * scale, k, kb


def cdf_range(bins, w, x, slack):
    """F(x - slack), F(x + slack) of the piecewise-constant density; loops over bins"""
    def F(x, right):
        tot = torch.zeros_like(x)
        for j in range(w.shape[-1]):
            a, b, wj = bins[..., j:j + 1], bins[..., j + 1:j + 2], w[..., j:j + 1]
            fr = torch.where(b > a, ((x - a) / (b - a).clamp(min=1e-300)).clamp(0, 1),
                             ((x >= a) if right else (x > a)).to(D))
            tot = tot + wj * fr
        return tot
    return F(x - slack, False), F(x + slack, True)


@monitor(quick=900, thorough=40000, need=("det", "random", "holes", "flat", "zero", "native", "python", "law"))
def pdf_samplers(c):
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf, sample_pdf_python
    lead = c.pick((1,), (2,), (3,), (4,), (5,), (6,), (7,), (9,), (2, 3), (5, 1), (2, 2, 2), (13,))
    nb = c.pick(1, 2, 3, 4, 7, 8, 20, 60)
    n = c.pick(1, 2, 3, 5, 16, 64)
    bins, w, k, kb = make_pdf(c, lead, nb)
    if c.p(0.2):  # strided inputs
        bins = bins.transpose(0, -1).contiguous().transpose(0, -1)
        w = torch.cat([w, w], -1)[..., :nb]
    b0, w0 = bins.clone(), w.clone()
    eps = 1e-5
    kw = {}
    if c.p(0.2):
        eps = c.pick(1e-5, 1e-3, 1e-7)
        kw["eps"] = eps
    Wt = w.double().sum(-1, keepdim=True)
    lo, hi = bins[..., :1], bins[..., -1:]
    mag = bins.abs().max()
    slack = 4e-7 * float(mag) + 1e-7
    for name, fn in (("native", sample_pdf), ("python", sample_pdf_python)):
        det = c.p(0.6)
        N = n if det else c.pick(n, 3000 if len(lead) == 1 and lead[0] <= 2 else n)
        x = fn(bins, w, N, det=det, **kw)
        c.equal(tuple(x.shape), (*lead, N), f"{name}: shape")
        c.check(bool((x >= lo - slack).all() and (x <= hi + slack).all()), f"{name}: a sample outside the bins",
                x=x, bins=bins, w=w)
        c.count(name); c.count("det" if det else "random"); c.count(k); c.count(kb)
        c.sig(name, lead, nb, N, k, kb, det)
        err_w = (3 * nb + 3) * eps + (eps if name == "python" else 0) * Wt + (nb + 4) * 3e-7 * Wt
        if det:
            c.check(bool((x[..., 1:] >= x[..., :-1] - slack).all()), f"{name}: samples not ascending", x=x)
            if k != "zero":
                u = torch.linspace(0, 1, N, dtype=D).expand(*lead, N)
                a, b = cdf_range(bins.double(), w.double(), x.double(), slack)
                ok = (a <= u * Wt + err_w) & (b >= u * Wt - err_w)
                c.check(bool(ok.all()), f"{name}: samples do not follow the inverse cumulative distribution",
                        x=x, bins=bins, w=w, got=a / Wt, u=u)
                c.count("inverse", ok.numel())
        elif N >= 1000 and k != "zero":
            a, b = cdf_range(bins.double(), w.double(), x.double(), slack)
            err = float((err_w / Wt.clamp(min=1e-30))[Wt > 0].max()) if bool((Wt > 0).any()) else 0
            for i in range(lead[0]):
                if float(Wt[i]) == 0:
                    continue
                q = torch.arange(N, dtype=D) / N
                xa, xb = (a[i] / Wt[i]).sort()[0], (b[i] / Wt[i]).sort()[0]
                # Kolmogorov-Smirnov distance; 0.07 at 3000 samples has probability < 1e-12
                dist = max(float((xa - q - 1 / N).max()), float((q - xb).max()))
                c.check(dist < 0.07 + err, f"{name}: random samples do not follow the density (KS distance {dist:.3f})",
                        bins=bins[i], w=w[i])
            c.check(N == len(x[0].unique()) or kb == "flat" or k in ("holes", "peak", "edges") or len(x[0].unique()) > 5,
                    f"{name}: all random samples equal")
            c.count("law")
        # each element of the batch on its own
        if det:
            j = tuple(c.i(0, q - 1) for q in lead[:-1])
            sub = (*j, slice(c.i(0, lead[-1] - 1), None))
            y = fn(bins[sub], w[sub], N, det=True, **kw)
            c.equal(y, x[sub], f"{name}: sampling part of the batch alone")
    c.equal(bins, b0, "bins modified"); c.equal(w, w0, "weights modified")
    if c.p(0.1):
        c.raises(ValueError, lambda: sample_pdf(bins, w - 1 - w.max(), n), "negative weights accepted")
        c.raises(ValueError, lambda: sample_pdf(bins[..., 1:], w, n), "inconsistent numbers of bins accepted")
        c.raises(NotImplementedError, lambda: sample_pdf(bins.requires_grad_(), w, n), "gradient silently ignored")


def interp(vol, x, al, mode):
    """vol (C,Z,Y,X), x (P,3) local xyz; zero outside; -> (P,C), sure (P)"""
    n = torch.tensor(vol.shape[:0:-1], dtype=D)
    p = (x + 1) / 2 * (n - 1) if al else ((x + 1) * n - 1) / 2
    vol = vol.double()
    out = torch.zeros(len(x), vol.shape[0], dtype=D)
    if mode == "nearest":
        r = (p + 0.5).floor()
        sure = ((p + 0.5 - (p + 0.5).round()).abs() > 1e-3).all(-1)
        ok = ((r >= 0) & (r < n)).all(-1)
        q = r.clamp(min=0).minimum(n - 1).long()
        out = vol[:, q[:, 2], q[:, 1], q[:, 0]].t() * ok[:, None]
        return out, sure
    f = p.floor()
    for dx in (0, 1):
        for dy in (0, 1):
            for dz in (0, 1):
                q = f + torch.tensor([dx, dy, dz], dtype=D)
                wt = (1 - (p - q).abs()).clamp(min=0).prod(-1)
                ok = ((q >= 0) & (q < n)).all(-1)
                qi = q.clamp(min=0).minimum(n - 1).long()
                out += (wt * ok)[:, None] * vol[:, qi[:, 2], qi[:, 1], qi[:, 0]].t()
    return out, torch.ones(len(x), dtype=torch.bool)


def volumes(c, n, same=None, **kw):
    from pytorch3d.structures import Volumes
    ms = c09.model(c, n, c.p(0.4) if same is None else same)
    for m in ms:
        if min(m["s"]) < 2:
            s = [max(q, 2) for q in m["s"]]
            m.update(s=s, d=c.rand(m["d"].shape[0], *s), f=c.rand(m["f"].shape[0], *s))
    args, kind = c09.geom(c, ms)
    al = c.p(0.5)
    feats = c.p(0.8)
    if len({tuple(m["s"]) for m in ms}) == 1 and c.p(0.5):
        d, f = torch.stack([m["d"] for m in ms]), torch.stack([m["f"] for m in ms])
    else:
        d, f = [m["d"] for m in ms], [m["f"] for m in ms]
    v = Volumes(densities=d, features=f if feats else None, align_corners=al, **args)
    return v, ms, al, feats, kind


def w2l(m, x):
    size = torch.tensor(m["s"][::-1], dtype=D)
    return (x + m["tr"]) / (0.5 * m["vs"]) / (size - 1)


@monitor(quick=400, thorough=15000, need=("unequal", "points", "nearest", "inside", "voxels"))
def volume_sampler(c):
    from pytorch3d.renderer import RayBundle, VolumeSampler
    n = c.i(1, 4)
    v, ms, al, feats, kind = volumes(c, n)
    mode = c.pick("bilinear", "bilinear", "nearest")
    samp = VolumeSampler(v) if mode == "bilinear" and c.p(0.5) else VolumeSampler(v, sample_mode=mode)
    mid = c.pick((5,), (2, 3), (1,), (2, 1, 2))
    P = c.i(1, 5)
    # aim at random interior points
    tgt = torch.stack([c09.l2w(m, c.rand(*mid, 3, lo=-1.3, hi=1.3, dtype=D)) for m in ms]).float()
    direc = c.randn(n, *mid, 3)
    L = c.randn(n, *mid, P)
    if c.p(0.3):
        L[..., 0] = 0
    ray = RayBundle(origins=tgt, directions=direc, lengths=L, xys=torch.zeros(n, *mid, 2))
    dens, fe = samp(ray)
    pts = tgt.double()[..., None, :] + L.double()[..., None] * direc.double()[..., None, :]
    for i, m in enumerate(ms):
        x = w2l(m, pts[i].reshape(-1, 3))
        for got, vol, what in ((dens, m["d"], "densities"), (fe, m["f"], "features")):
            if what == "features" and not feats:
                c.equal(fe.shape[-1], 0, "features of a volume without any")
                continue
            want, sure = interp(vol, x, al, mode)
            g = got[i].reshape(-1, got.shape[-1])
            err = (1e-5 * (x.abs().amax(-1) + 1) * max(m["s"]) * 3 + 1e-5)[sure][:, None]
            c.close(g[sure], want[sure], f"{what} of volume {i} at ray points", atol=err.expand_as(want[sure]), rtol=1e-5,
                    x=x, sizes=str([q["s"] for q in ms]), align=al, mode=mode)
            c.count("points", int(sure.sum()))
            c.count("inside", int(((x.abs() <= 1).all(-1)).sum()))
    c.count(mode)
    if len({tuple(m["s"]) for m in ms}) > 1:
        c.count("unequal")
    c.sig(mode, al, feats, kind, tuple(tuple(m["s"]) for m in ms))
    # sampling at the world grid returns the voxels themselves
    g = v.get_coord_grid(world_coordinates=True)
    Z, Y, X = g.shape[1:4]
    o = g.reshape(n, -1, 3)
    ray = RayBundle(o, torch.ones_like(o), torch.zeros(*o.shape[:2], 1), torch.zeros(*o.shape[:2], 2))
    got = VolumeSampler(v)(ray)[0].reshape(n, Z, Y, X, -1).permute(0, 4, 1, 2, 3)
    for i, m in enumerate(ms):
        a, b, d = m["s"]
        c.close(got[i, :, :a, :b, :d], m["d"], f"volume {i} sampled at its own coordinate grid", atol=2e-3, rtol=0)
        c.count("voxels", a * b * d)
    if n > 1:
        c.raises(ValueError, lambda: samp(RayBundle(*[t[:1] for t in ray])), "rays of another batch size accepted")


@monitor(quick=120, thorough=4000, need=("image", "points"))
def renderers(c):
    from pytorch3d.renderer import (AbsorptionOnlyRaymarcher, EmissionAbsorptionRaymarcher, FoVPerspectiveCameras,
                                    ImplicitRenderer, MonteCarloRaysampler, NDCMultinomialRaysampler, VolumeRenderer,
                                    look_at_view_transform)
    n = c.i(1, 3)
    R, T = look_at_view_transform(c.u(2, 4), c.rand(n, lo=-60, hi=60), c.rand(n, lo=0, hi=360))
    cams = FoVPerspectiveCameras(R=R, T=T, fov=c.rand(n, lo=30, hi=80))
    P = c.i(2, 12)
    hw = (c.i(1, 6), c.i(1, 6))
    sampler = (NDCMultinomialRaysampler(image_width=hw[1], image_height=hw[0], n_pts_per_ray=P, min_depth=0.5, max_depth=5.0)
               if c.p(0.6) else
               MonteCarloRaysampler(min_x=-1, max_x=1, min_y=-1, max_y=1, n_rays_per_image=c.i(1, 9),
                                    n_pts_per_ray=P, min_depth=0.5, max_depth=5.0))
    ab = c.p(0.2)
    marcher = AbsorptionOnlyRaymarcher() if ab else EmissionAbsorptionRaymarcher()
    seen = {}
    if c.p(0.5):
        v, ms, al, feats, kind = volumes(c, n)
        while any(m["d"].shape[0] != 1 for m in ms) or not feats:
            v, ms, al, feats, kind = volumes(c, n)
        mode = c.pick("bilinear", "nearest")
        img, rb = VolumeRenderer(sampler, marcher, sample_mode=mode)(cameras=cams, volumes=v)

        def field(i, x):
            x = w2l(ms[i], x)
            d, s1 = interp(ms[i]["d"], x, al, mode)
            f, s2 = interp(ms[i]["f"], x, al, mode)
            return d, f, s1
        what = "volume"
    else:
        k = c.u(0.3, 2)

        def fun(ray_bundle, cameras, bias=0.0, **kw):
            p = ray_bundle.origins[..., None, :] + ray_bundle.lengths[..., None] * ray_bundle.directions[..., None, :]
            seen["cams"] = cameras
            return torch.exp(-k * p.pow(2).sum(-1, keepdim=True)), torch.sin(p * 2 + bias)

        img, rb = ImplicitRenderer(sampler, marcher)(cameras=cams, volumetric_function=fun, bias=0.5)
        c.check(seen["cams"] is cams, "the volumetric function was not given the cameras")

        def field(i, x):
            return torch.exp(-k * x.pow(2).sum(-1, keepdim=True)), torch.sin(x * 2 + 0.5), torch.ones(len(x), dtype=torch.bool)
        what = "implicit"
    for i in range(n):
        p = rb.origins[i].double()[..., None, :] + rb.lengths[i].double()[..., None] * rb.directions[i].double()[..., None, :]
        shp = p.shape[:-1]
        d, f, sure = field(i, p.reshape(-1, 3))
        ff, oo, _ = march(d.reshape(shp), f.reshape(*shp, -1), 1)
        keep = sure.reshape(shp).all(-1)
        want = oo if ab else torch.cat([ff, oo], -1)
        c.equal(tuple(img[i].shape), tuple(want.shape), f"{what}: shape of the image")
        c.close(img[i][keep], want[keep], f"{what}: rendered image {i}", atol=2e-3, rtol=1e-3)
        c.count("points", p.numel() // 3)
    c.count("image", n)
    c.sig(what, ab, type(sampler).__name__, hw, P, n)
