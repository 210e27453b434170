"""Implicit rendering components: ray samplers, refiner, raymarchers, multi-pass and
signed-distance renderers, conical frustums, and chunked rendering of whole models."""
import copy
import math

import torch

from lib.harness import monitor

TECHNIQUE = "runtime monitoring: float64 reference laws judge every ray bundle and render observed (recorded implicit-function calls included); chunked against unchunked executions"
RULE = ("ray samplers x modes x options x cameras, refiner x bins x weights, raymarchers x options, multi-pass renderers with recorded calls, frusta, signed distance "
        "fields, small models x chunk sizes; distinct = distinct (component, options, shapes)")
ASSUMPTIONS = ["image grids have at least two pixels per side",
               "the signed-distance renderer is driven with one image per batch (it rejects more with an error)"]

BASE = None


def mods():
    """Implicitron modules (expanded once per process)."""
    global BASE
    if BASE is None:
        import logging
        logging.disable(logging.WARNING)
        import types
        from pytorch3d.implicitron.models.renderer import base, multipass_ea, ray_point_refiner, ray_sampler, raymarcher, ray_tracing, sdf_renderer
        from pytorch3d.implicitron.tools.config import expand_args_fields
        for k in (ray_sampler.AdaptiveRaySampler, ray_sampler.NearFarRaySampler, raymarcher.EmissionAbsorptionRaymarcher, raymarcher.CumsumRaymarcher,
                  multipass_ea.MultiPassEmissionAbsorptionRenderer, ray_tracing.RayTracing, sdf_renderer.SignedDistanceFunctionRenderer):
            expand_args_fields(k)
        BASE = types.SimpleNamespace(base=base, mp=multipass_ea, ref=ray_point_refiner, rs=ray_sampler, rm=raymarcher, rt=ray_tracing, sdf=sdf_renderer,
                                     T=base.EvaluationMode.TRAINING, E=base.EvaluationMode.EVALUATION)
    return BASE


def rotation(c):
    q, r = torch.linalg.qr(c.randn(3, 3, dtype=torch.float64))
    q = q * torch.sign(torch.diagonal(r))
    if torch.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


class Cams:
    """A batch of cameras with float64 copies of what they mean: view = X R + T, ndc = f xy/z + p."""
    def __init__(self, c, n, centre=None, same=False, spread=6.0):
        from pytorch3d import renderer as r
        self.R = torch.stack([rotation(c) for _ in range(n)]).float()
        centre = torch.zeros(3) if centre is None else centre
        d = [c.u(0.2, spread) for _ in range(n)]
        if same:
            d = [d[0]] * n
        away = torch.nn.functional.normalize(c.randn(n, 3), dim=-1) * torch.tensor(d)[:, None]
        C = centre + away
        self.T = -(C[:, None] @ self.R)[:, 0]
        self.kind = c.pick("perspective", "fov")
        if self.kind == "perspective":
            self.f = c.rand(n, 2, lo=0.8, hi=4.0)
            self.p = c.rand(n, 2, lo=-0.3, hi=0.3)
            self.cameras = r.PerspectiveCameras(focal_length=self.f, principal_point=self.p, R=self.R, T=self.T)
        else:
            fov = c.rand(n, lo=20.0, hi=90.0)
            self.f = (1 / torch.tan(fov * (math.pi / 360)))[:, None].expand(n, 2)
            self.p = torch.zeros(n, 2)
            self.cameras = r.FoVPerspectiveCameras(fov=fov, R=self.R, T=self.T)
        self.R, self.T, self.f, self.p = (x.double() for x in (self.R, self.T, self.f, self.p))
        self.C = -(self.T[:, None] @ self.R.transpose(1, 2))[:, 0]

    def direction(self, i, xy):
        """Unit world directions of rays through ndc xy (K, 2) of camera i."""
        v = torch.cat([(xy.double() - self.p[i]) / self.f[i], torch.ones(len(xy), 1, dtype=torch.float64)], -1)
        return torch.nn.functional.normalize(v, dim=-1) @ self.R[i].T


def grid(h, w):
    rx, ry = (w / h, 1.0) if w >= h else (1.0, h / w)
    x = torch.tensor([rx - (2 * j + 1) * rx / w for j in range(w)], dtype=torch.float64)
    y = torch.tensor([ry - (2 * i + 1) * ry / h for i in range(h)], dtype=torch.float64)
    return torch.stack([x[None].expand(h, w), y[:, None].expand(h, w)], -1), rx / w, ry / h


# ---------------------------------------------------------------- ray samplers
@monitor(quick=2500, thorough=60000, need=("rays", "full grids", "masked rays", "packed bundles", "cones", "stratified", "adaptive", "near-far", "cameras of different distance", "camera inside the scene"))
def sampler(c):
    m = mods()
    h, w, n = c.i(2, 9), c.i(2, 9), c.i(1, 4)
    kind = c.pick("AdaptiveRaySampler", "AdaptiveRaySampler", "NearFarRaySampler")
    mode, train = c.pick("full_grid", "mask_sample"), c.p(0.5)
    other = c.pick("full_grid", "mask_sample")
    pts = c.i(1, 7)
    strat, cone = c.p(0.5), c.p(0.35)
    per_image, total = c.i(1, h * w + 3), None
    if train and not cone and c.p(0.35):
        per_image, total = None, c.i(1, 12)
    s = dict(image_width=w, image_height=h, stratified_point_sampling_training=strat if train else not strat, stratified_point_sampling_evaluation=strat if not train else not strat,
             n_pts_per_ray_training=pts if train else pts + 2, n_pts_per_ray_evaluation=pts if not train else pts + 3, cast_ray_bundle_as_cone=cone,
             n_rays_per_image_sampled_from_mask=per_image, n_rays_total_training=total,
             sampling_mode_training=mode if train else other, sampling_mode_evaluation=mode if not train else other)
    centre, extent = torch.zeros(3), None
    if kind == "AdaptiveRaySampler":
        extent = c.pick(c.u(0.3, 1.5), c.u(0.5, 8.0))
        centre = c.pick(torch.zeros(3), c.randn(3))
        s.update(scene_extent=extent, scene_center=tuple(float(x) for x in centre))
    else:
        s.update(min_depth=c.u(0.05, 2.0), max_depth=c.u(2.1, 9.0))
    cams = Cams(c, n, centre, same=c.p(0.2), spread=c.pick(3.0, 12.0))
    mask = None
    if mode == "mask_sample" and c.p(0.7) or c.p(0.1):
        mh, mw = c.pick((h, w), (c.i(1, 12), c.i(1, 12)))
        mask = (c.rand(n, 1, mh, mw) < c.pick(0.2, 0.6, 1.0)).float() * c.pick(torch.ones(n, 1, mh, mw), c.rand(n, 1, mh, mw, lo=0.1))
        res = torch.stack([mask[:, 0, min(int(i * mh / h), mh - 1)] for i in range(h)], 1)
        res = torch.stack([res[:, :, min(int(j * mw / w), mw - 1)] for j in range(w)], 2)
        if bool((res.flatten(1).sum(1) == 0).any()):
            c.count("empty masks skipped")
            return
    sampler = getattr(m.rs, kind)(**s)
    torch.manual_seed(c.i(0, 10**6))
    b = sampler(cams.cameras, m.T if train else m.E, mask=mask)
    c.sig(kind, mode, h, w, n, pts, strat, cone, total is not None, mask is not None)
    o, d, xy = b.origins, b.directions, b.xys
    L = b.bins if cone else b.lengths
    k = pts + 1 if cone else pts
    info = dict(settings=str(s), mask=mask, R=cams.R, T=cams.T, f=cams.f, p=cams.p)
    # which camera each leading index belongs to
    if total is not None:
        ids, counts = b.camera_ids, b.camera_counts
        c.check(b.is_packed() and int(counts.sum()) == total and len(o) == total and bool((counts > 0).all()), "counts of a packed bundle do not add up to the rays asked for", ids=ids, counts=counts, **info)
        c.check(len(set(ids.tolist())) == len(ids) and all(0 <= i < n for i in ids.tolist()), "camera ids of a packed bundle are not distinct cameras", ids=ids, **info)
        owner = [i for i, k_ in zip(ids.tolist(), counts.tolist()) for _ in range(k_)]
        spatial = (1, 1)
        c.count("packed bundles")
    else:
        owner = list(range(n))
        c.check(b.camera_ids is None or b.camera_ids.tolist() == owner, "camera ids of a complete bundle", **info)
        spatial = (per_image, 1) if mode == "mask_sample" else (h, w)
    c.equal(tuple(L.shape), (len(owner), *spatial, k), "shape of the depths of rays", **info)
    c.equal(tuple(xy.shape), (len(owner), *spatial, 2), "shape of the pixels of rays", **info)
    g, pw, ph = grid(h, w)
    g = g.reshape(-1, 2)
    if total is None and mode == "full_grid":
        for i in range(n):
            c.close(xy[i].double().reshape(-1, 2), g, "a full grid of rays does not visit every pixel centre in order", atol=1e-5, rtol=0, **info)
        c.count("full grids")
    use_mask = mask is not None and mode == "mask_sample"
    for a, i in enumerate(owner):
        p2 = xy[a].reshape(-1, 2)
        near_pix = (p2.double()[:, None] - g[None]).abs().amax(-1)
        c.check(bool((near_pix.amin(1) < 1e-4).all()), "a ray starts off the pixel centres", camera=i, **info)
        idx = near_pix.argmin(1)
        if use_mask:
            allowed = res[i].flatten() > 0
            c.check(bool(allowed[idx].all()), "a ray was sampled outside the mask", camera=i, pixels=idx, **info)
            if total is None and int(allowed.sum()) >= len(idx):
                c.check(len(set(idx.tolist())) == len(idx), "a ray was sampled twice although the mask has enough pixels", camera=i, pixels=idx, **info)
            c.count("masked rays", len(idx))
        elif total is None and mode == "mask_sample" and len(idx) <= h * w:
            c.check(len(set(idx.tolist())) == len(idx), "a ray was sampled twice although the image has enough pixels", camera=i, pixels=idx, **info)
        scale = max(1.0, float(cams.C[i].abs().max()))
        c.close(o[a].reshape(-1, 3).double(), cams.C[i].expand(len(p2), 3), "rays do not start at the centre of their camera", atol=3e-5 * scale, rtol=0, camera=i, **info)
        c.close(d[a].reshape(-1, 3).double(), cams.direction(i, p2), "rays do not run through their pixel", atol=3e-5 * scale, rtol=0, camera=i, **info)
    c.count("rays", o.numel() // 3)
    # depths
    for a, i in enumerate(owner):
        z = L[a].double().reshape(-1, k)
        if extent is not None:
            dist = float((cams.C[i] - centre.double()).norm())
            near, far = max(dist - extent, 0.0), dist + extent
            inside = dist < extent + 2e-3
            c.count("camera inside the scene", inside)
            c.count("cameras of different distance", i > 0 and abs(dist - float((cams.C[0] - centre.double()).norm())) > 1e-2)
            tol = 1e-4 * (far + 1)
            if inside:
                c.check(float(z.min()) > 0, "a depth is not positive", camera=i, **info)
                near, far = float(L[a].min()), max(far, 2 * extent + 1e-3)
                tol = max(tol, 2e-3)
                if not strat:
                    c.check(near < 2e-3, "the sampled depths of a camera inside the scene do not begin at the camera", camera=i, near=near, **info)
        else:
            near, far, tol, inside = s["min_depth"], s["max_depth"], 1e-5 * s["max_depth"], False
        c.check(bool((z[:, 1:] >= z[:, :-1]).all()), "depths along a ray are not sorted", camera=i, lengths=z, **info)
        c.check(float(z.min()) >= near - tol and float(z.max()) <= far + tol, "depths of a ray leave the near and far bounds of its camera", camera=i, bounds=(near, far), got=(float(z.min()), float(z.max())), **info)
        lin = near + (far - near) * torch.arange(k, dtype=torch.float64) / max(k - 1, 1)
        if not strat:
            if not inside:
                c.close(z, lin.expand_as(z), "the depths of a ray are not spaced evenly between the bounds of its camera", atol=tol, rtol=0, camera=i, **info)
        elif not inside:
            mid = (lin[1:] + lin[:-1]) / 2
            lo, hi = torch.cat([lin[:1], mid]), torch.cat([mid, lin[-1:]])
            c.check(bool(((z >= lo - tol) & (z <= hi + tol)).all()), "a stratified depth left its stratum", camera=i, lengths=z, **info)
            c.count("stratified")
    c.count("adaptive" if extent is not None else "near-far")
    if cone:
        c.close(b.lengths.double(), (b.bins[..., 1:] + b.bins[..., :-1]).double() / 2, "lengths of a cone are not the midpoints of its bins", atol=1e-5 * (1 + float(b.bins.abs().max())), rtol=0, **info)
        for i in range(n):
            want = (2 * pw / float(cams.f[i, 0]) + 2 * ph / float(cams.f[i, 1])) / math.sqrt(12)
            c.close(b.pixel_radii_2d[i].double(), torch.full_like(b.pixel_radii_2d[i], want).double(), "the radius of a cone does not match the footprint of its pixel",
                    atol=2e-6 * max(1.0, float(cams.C[i].abs().max())), rtol=1e-4, camera=i, **info)
        c.count("cones")


# --------------------------------------------------------------------- refiner
def bundle(c, m, lead, k, bins=False, zero_gap=False):
    steps = c.rand(*lead, k, lo=0.0 if zero_gap else 0.02, hi=1.0)
    z = c.u(0.1, 3.0) + steps.cumsum(-1)
    kw = dict(bins=z, lengths=None, pixel_radii_2d=c.rand(*lead, 1, lo=0.001, hi=0.1)) if bins else dict(lengths=z)
    return m.base.ImplicitronRayBundle(origins=c.randn(*lead, 3), directions=torch.nn.functional.normalize(c.randn(*lead, 3), dim=-1), xys=c.rand(*lead, 2), **kw)


def mass_below(edges, w, x):
    """The distribution function at x: piecewise linear between the edges."""
    cdf = torch.cat([torch.zeros(1, dtype=torch.float64), torch.cumsum(w / w.sum(), 0)])
    if x <= float(edges[0]):
        return 0.0
    for j in range(len(w)):
        if x < float(edges[j + 1]):
            return float(cdf[j] + (cdf[j + 1] - cdf[j]) * (x - edges[j]) / (edges[j + 1] - edges[j]))
    return 1.0


@monitor(quick=3000, thorough=80000, need=("rays", "percentiles", "random", "bins", "kept samples", "blurred"))
def refiner(c):
    m = mods()
    lead = c.pick((c.i(1, 3), c.i(1, 4)), (c.i(1, 2), c.i(1, 3), c.i(1, 3)))
    use_bins = c.p(0.4)
    k = c.i(3, 9)
    new = c.i(1, 8)
    rnd, add, blur = c.p(0.5), c.p(0.6), c.p(0.4)
    eps = c.pick(1e-5, 1e-2)
    b = bundle(c, m, lead, k, use_bins)
    nw = k - 1 if use_bins else k
    w = c.pick(c.rand(*lead, nw), c.rand(*lead, nw) * (c.rand(*lead, nw) < 0.4), torch.zeros(*lead, nw))
    keep = {a: (None if getattr(b, a) is None else getattr(b, a).clone()) for a in ("origins", "directions", "xys", "bins", "pixel_radii_2d", "lengths")}
    r = m.ref.RayPointRefiner(n_pts_per_ray=new, random_sampling=rnd, add_input_samples=add, blurpool_weights=blur, sample_pdf_eps=eps)
    w0 = w.clone()
    torch.manual_seed(c.i(0, 10**6))
    out = r(b, w)
    c.sig(lead, use_bins, k, new, rnd, add, blur)
    info = dict(settings=(new, rnd, add, blur, eps), z=b.bins if use_bins else b.lengths, weights=w)
    for a, v in keep.items():
        c.check(v is None and getattr(b, a) is None or torch.equal(getattr(b, a), v), f"the refiner changed '{a}' of its input", **info)
        if a not in ("bins", "lengths"):
            c.check(v is None and getattr(out, a) is None or torch.equal(getattr(out, a), v), f"the refiner lost '{a}' of the rays", **info)
    c.equal(w, w0, "the refiner changed the weights given", **info)
    z_in = (b.bins if use_bins else b.lengths)
    z = out.bins if use_bins else out.lengths
    cnt = new + 1 if use_bins else new
    c.equal(tuple(z.shape), (*lead, cnt + (k if add else 0)), "number of refined points", **info)
    c.check(bool((z[..., 1:] >= z[..., :-1]).all()), "refined depths are not sorted", got=z, **info)
    zi, zo, ww = z_in.reshape(-1, k), z.reshape(-1, z.shape[-1]), w.reshape(-1, nw).double()
    for ray in range(len(zi)):
        weights = ww[ray]
        if blur:
            pad = torch.cat([weights[:1], weights, weights[-1:]])
            mx = torch.maximum(pad[1:], pad[:-1])
            weights = (mx[1:] + mx[:-1]) / 2
            c.count("blurred")
        if use_bins:
            edges = zi[ray].double()
            c.count("bins")
        else:
            edges = (zi[ray, 1:].double() + zi[ray, :-1].double()) / 2
            weights = weights[1:-1]
        rest = zo[ray].tolist()
        if add:
            for v in zi[ray].tolist():
                c.check(v in rest, "an input point is missing from the refined ray", got=zo[ray], ray=ray, **info)
                rest.remove(v)
            c.count("kept samples", k)
        tol = 1e-5 * (1 + float(edges.abs().max()))
        c.check(all(float(edges[0]) - tol <= v <= float(edges[-1]) + tol for v in rest), "a refined point lies outside the range of the weights", got=rest, ray=ray, **info)
        if not rnd:
            # sample k is where the mass below reaches k/(cnt-1); bins lighter than eps may be jumped over
            total = float(weights.sum())
            slack = 3e-5 + (len(weights) + 1) * eps / max(total, 1e-12)
            if slack < 0.1:
                for q, v in enumerate(sorted(rest)):
                    u = q / max(cnt - 1, 1)
                    lo, hi = mass_below(edges, weights, v - tol), mass_below(edges, weights, v + tol)
                    c.check(lo - slack <= u <= hi + slack, "deterministic refinement does not return the percentiles of the weights", got=rest, quantile=u, mass=(lo, hi), ray=ray, **info)
                c.count("percentiles")
        else:
            c.count("random")
        c.count("rays")


# ----------------------------------------------------------------- raymarchers
def law(kind, dens, feats, z, o, deltas=None):
    """The composition law of one ray in float64: weights, opacity, colour, depth."""
    n = len(z)
    dens = dens.double()
    if o["density_relu"]:
        dens = torch.relu(dens)
    if deltas is None:
        dz = [float(z[i + 1] - z[i]) for i in range(n - 1)]
        dz.append(dz[-1] if o["replicate_last_interval"] else o["background_opacity"])
        deltas = torch.tensor(dz, dtype=torch.float64)
    deltas = deltas.double()
    cap = (lambda x: -torch.expm1(-x)) if kind == "EmissionAbsorptionRaymarcher" else (lambda x: x.clamp(max=1.0))
    a = deltas * dens
    op = cap(a.cumsum(0))
    w = torch.zeros(n, dtype=torch.float64)
    for i in range(n):
        j = i - o["surface_thickness"]
        t = 1 - op[j] if j >= 0 else torch.tensor(1.0, dtype=torch.float64)
        w[i] = cap(a[i]) * t if kind == "EmissionAbsorptionRaymarcher" else torch.minimum(cap(a[i]), t)
    col = (w[:, None] * feats.double()).sum(0)
    bg = torch.tensor(o["bg_color"], dtype=torch.float64)
    al = op[-1] if o["blend_output"] else 1.0
    return w, op[-1:], al * col + (1 - op[-1]) * bg, (w * z.double()).sum()[None]


def march_options(c, kind, dim):
    o = dict(surface_thickness=c.pick(1, 1, 2, 3), bg_color=c.pick((0.0,), (c.u(),), tuple(c.u() for _ in range(dim))), replicate_last_interval=c.p(0.4),
             density_relu=c.p(0.7), blend_output=c.p(0.4), background_opacity=c.pick(0.0, 1.0, 1e10))
    return o


@monitor(quick=4000, thorough=120000, need=("rays", "EmissionAbsorptionRaymarcher", "CumsumRaymarcher", "deltas given", "opaque", "transparent", "gradients"))
def raymarcher(c):
    m = mods()
    kind = c.pick("EmissionAbsorptionRaymarcher", "CumsumRaymarcher")
    lead, n, dim = c.pick((c.i(1, 4),), (c.i(1, 2), c.i(1, 3)), (1, 2, 2)), c.i(2, 9), c.i(1, 5)
    o = march_options(c, kind, dim)
    if o["surface_thickness"] > n:
        o["surface_thickness"] = n
    z = c.u(0.1, 2.0) + c.rand(*lead, n, lo=0.01, hi=0.7).cumsum(-1)
    dens = c.pick(c.rand(*lead, n, 1, hi=3.0), c.randn(*lead, n, 1), c.rand(*lead, n, 1) * (c.rand(*lead, n, 1) < 0.3) * 40, torch.zeros(*lead, n, 1))
    if not o["density_relu"]:
        dens = dens.abs()
    feats = c.randn(*lead, n, dim)
    deltas = c.rand(*lead, n, hi=0.8) if c.p(0.35) else None
    diff = c.p(0.4)
    dens.requires_grad_(diff), feats.requires_grad_(diff)
    r = getattr(m.rm, kind)(**o)
    aux = dict(tag=object())
    out = r(dens, feats, aux, ray_lengths=z, ray_deltas=deltas)
    c.sig(kind, lead, n, dim, str({k: v for k, v in o.items() if k != "bg_color"}), len(o["bg_color"]))
    c.check(out.aux.get("tag") is aux["tag"], "auxiliary results are lost", options=str(o))
    info = dict(options=str(o), densities=dens, features=feats, z=z, deltas=deltas)
    c.equal((tuple(out.features.shape), tuple(out.depths.shape), tuple(out.masks.shape), tuple(out.weights.shape)), ((*lead, dim), (*lead, 1), (*lead, 1), (*lead, n)), "shapes of the render", **info)
    D, F = dens.detach().double().reshape(-1, n).requires_grad_(diff), feats.detach().double().reshape(-1, n, dim).requires_grad_(diff)
    Z = z.reshape(-1, n)
    dl = None if deltas is None else deltas.reshape(-1, n)
    res = [law(kind, D[i], F[i], Z[i], o, None if dl is None else dl[i]) for i in range(len(Z))]
    got = (out.weights.reshape(-1, n), out.masks.reshape(-1, 1), out.features.reshape(-1, dim), out.depths.reshape(-1, 1))
    for name, g, want in zip(("weights", "opacity", "features", "depth"), got, zip(*res)):
        c.close(g.double(), torch.stack(want), f"rendered {name} break the composition law", atol=3e-5, rtol=3e-5, **info)
    w = got[0].detach()
    c.check(bool((w >= -1e-6).all()), "a rendering weight is negative", **info)
    if o["surface_thickness"] == 1:
        c.check(bool((w.sum(-1) <= 1 + 1e-4).all()), "rendering weights sum to more than one", **info)
    c.count("opaque", bool((got[1] > 0.999).any()))
    c.count("transparent", bool((got[1] < 1e-3).any()))
    c.count("deltas given", deltas is not None)
    c.count(kind)
    c.count("rays", len(Z))
    if diff and (o["background_opacity"] < 1e9 or o["replicate_last_interval"]) and kind == "EmissionAbsorptionRaymarcher":
        up = c.randn(len(Z), dim)
        gd, gf = torch.autograd.grad((got[2] * up).sum() + got[3].sum(), (dens, feats))
        wd, wf = torch.autograd.grad((torch.stack([x[2] for x in res]) * up.double()).sum() + sum(x[3].sum() for x in res), (D, F))
        c.close(gd.reshape(-1, n).double(), wd, "gradient of a render with respect to the densities", atol=1e-3, rtol=1e-3, **info)
        c.close(gf.reshape(-1, n, dim).double(), wf, "gradient of a render with respect to the features", atol=1e-4, rtol=1e-3, **info)
        c.count("gradients")


# ------------------------------------------------------------------ multi-pass
class Field(torch.nn.Module):
    """A smooth analytic field, recording the bundles it was evaluated on."""
    def __init__(self, c, dim):
        super().__init__()
        self.centre, self.scale, self.amp = c.randn(3), c.u(0.5, 3.0), c.u(0.2, 5.0)
        self.M = c.randn(3, dim)
        self.calls = []

    def on_bind_args(self):
        pass

    def values(self, p):
        M, ce = self.M.to(p), self.centre.to(p)
        return self.amp * torch.exp(-((p - ce) ** 2).sum(-1, keepdim=True) * self.scale), torch.sigmoid(p @ M)

    def forward(self, ray_bundle=None, **kw):
        b = ray_bundle
        self.calls.append(copy.copy(b))
        p = b.origins[..., None, :] + b.lengths[..., None] * b.directions[..., None, :]
        return (*self.values(p), {})


@monitor(quick=1500, thorough=30000, need=("passes", "rays", "three passes", "cones", "weights returned", "evaluation", "training"))
def multipass(c):
    m = mods()
    dim, passes = c.i(1, 4), c.i(1, 3)
    kind = c.pick("EmissionAbsorptionRaymarcher", "EmissionAbsorptionRaymarcher", "CumsumRaymarcher")
    o = march_options(c, kind, dim)
    train = c.p(0.5)
    new = {True: c.i(1, 6), False: c.i(1, 6)}
    rnd = {True: c.p(0.5), False: c.p(0.5)}
    add, ret = c.p(0.6), c.p(0.5)
    if not add:
        new = {k: v + 2 for k, v in new.items()}
    lead = c.pick((c.i(1, 3), c.i(1, 4)), (1, c.i(1, 3), c.i(1, 3)))
    cone = c.p(0.4)
    b = bundle(c, m, lead, c.i(4, 8), cone)
    r = m.mp.MultiPassEmissionAbsorptionRenderer(
        raymarcher_class_type=kind, **{f"raymarcher_{kind}_args": o}, n_pts_per_ray_fine_training=new[True], n_pts_per_ray_fine_evaluation=new[False],
        stratified_sampling_coarse_training=rnd[True], stratified_sampling_coarse_evaluation=rnd[False], append_coarse_samples_to_fine=add, return_weights=ret,
        blurpool_weights=c.p(0.3))
    fields = [Field(c, dim) for _ in range(passes)]
    torch.manual_seed(c.i(0, 10**6))
    out = r(b, [m.base.ImplicitFunctionWrapper(f) for f in fields], m.T if train else m.E)
    c.sig(kind, dim, passes, lead, cone, add, ret, train, new[train], rnd[train])
    stages = []
    s = out
    while s is not None:
        stages.insert(0, s)
        s = s.prev_stage
    c.equal(len(stages), passes, "a multi-pass render does not keep one result per pass")
    prev = None
    for st, f in zip(stages, fields):
        info = dict(options=str(o), origins=b.origins, directions=b.directions)
        c.equal(len(f.calls), 1, "an implicit function was not evaluated exactly once")
        rb = f.calls[0]
        c.check(torch.equal(rb.origins, b.origins) and torch.equal(rb.directions, b.directions) and torch.equal(rb.xys, b.xys), "a pass evaluated other rays", **info)
        z = rb.bins if cone else rb.lengths
        if prev is None:
            c.equal(z, b.bins if cone else b.lengths, "the first pass does not evaluate the given points", **info)
        else:
            c.equal(z.shape[-1], new[train] + (1 if cone else 0) + (prev.shape[-1] if add else 0), "number of points of a fine pass", **info)
            c.check(bool((z[..., 1:] >= z[..., :-1]).all()), "points of a fine pass are not sorted", z=z, **info)
            c.check(bool((z.min(-1).values >= prev.min(-1).values - 1e-5).all() and (z.max(-1).values <= prev.max(-1).values + 1e-5).all()), "points of a fine pass leave the range of the coarse pass", z=z, **info)
            if add:
                for a, q in zip(z.reshape(-1, z.shape[-1]).tolist(), prev.reshape(-1, prev.shape[-1]).tolist()):
                    c.check(all(v in a for v in q), "points of the coarse pass are missing in the fine pass", fine=a, coarse=q, **info)
        prev = z
        Z = rb.lengths.reshape(-1, rb.lengths.shape[-1])
        O, D = b.origins.reshape(-1, 3).double(), b.directions.reshape(-1, 3).double()
        W, M_, Cc, Dp = [], [], [], []
        for i in range(len(Z)):
            dens, feat = f.values(O[i] + Z[i].double()[:, None] * D[i])
            dl = rb.bins.reshape(-1, rb.bins.shape[-1])[i].double().diff() if cone else None
            w_, m_, c_, d_ = law(kind, dens[:, 0], feat, Z[i], o, dl)
            W.append(w_), M_.append(m_), Cc.append(c_), Dp.append(d_)
        for name, g, want in (("features", st.features, Cc), ("mask", st.masks, M_), ("depth", st.depths, Dp)):
            want = torch.stack(want).reshape(g.shape)
            c.close(g.double(), want, f"{name} of a pass break the composition law on the points it evaluated", atol=3e-4, rtol=3e-4, z=Z, **info)
        if ret:
            c.close(st.weights.double(), torch.stack(W).reshape(st.weights.shape), "returned weights of a pass", atol=3e-4, rtol=3e-4, z=Z, **info)
            c.count("weights returned")
        else:
            c.check(st.weights is None, "weights were returned unasked")
        c.count("passes")
    c.count("three passes", passes == 3)
    c.count("cones", cone)
    c.count("training" if train else "evaluation")
    c.count("rays", b.origins.numel() // 3)


# -------------------------------------------------------------------- frustums
@monitor(quick=1500, thorough=60000, need=("frustums", "thin", "wide"))
def frustum(c):
    """Mean and variance of a conical frustum along and across its axis, from exact moments."""
    m = mods()
    lead, k = (c.i(1, 3), c.i(1, 4)), c.i(2, 7)
    b = bundle(c, m, lead, k, True)
    scale = c.pick(1.0, 0.05, 5.0)
    b.bins = b.bins * scale
    if c.p(0.3):
        b.bins = b.bins - b.bins[..., :1]
    if c.p(0.5):
        b.directions = b.directions * c.u(0.3, 3.0)
    mean, cov = m.base.conical_frustum_to_gaussian(b)
    t = b.bins.double()
    t0, t1 = t[..., :-1], t[..., 1:]
    mom = lambda j: (t1 ** (j + 1) - t0 ** (j + 1)) / (j + 1)  # integral of t^j
    V = mom(2)  # cross sections grow with t^2
    Et, Et2 = mom(3) / V, mom(4) / V
    var_t = Et2 - Et ** 2
    r2 = b.pixel_radii_2d.double() ** 2
    var_r = r2 * Et2 / 4
    d = b.directions.double()
    want = b.origins.double()[..., None, :] + Et[..., None] * d[..., None, :]
    dd = d ** 2
    wc = var_t[..., None] * dd[..., None, :] + var_r[..., None] * (1 - dd / dd.sum(-1, keepdim=True))[..., None, :]
    c.sig(lead, k, scale)
    info = dict(bins=b.bins, radii=b.pixel_radii_2d, directions=b.directions, origins=b.origins)
    c.close(mean.double(), want, "the mean of a conical frustum is wrong", atol=1e-5 * float(1 + t.max() * d.abs().max()), rtol=1e-5, **info)
    c.close(cov.double(), wc, "the covariance of a conical frustum is wrong", atol=1e-6 * float((wc.abs().max() + 1e-3)), rtol=1e-3, **info)
    c.check(bool((cov >= -1e-6 * float(cov.abs().max())).all()), "a variance is negative", **info)
    c.count("frustums", mean.numel() // 3)
    c.count("thin", scale < 1), c.count("wide", scale > 1)


# ------------------------------------------------------------- signed distance
class Balls(torch.nn.Module):
    def __init__(self, c, dim, radius):
        super().__init__()
        n = c.i(1, 3)
        self.r = c.rand(n, lo=0.15, hi=0.5) * radius
        ce = torch.nn.functional.normalize(c.randn(n, 3), dim=-1)
        self.ce = ce * ((radius * 0.95 - self.r) * c.rand(n))[:, None]
        self.M = torch.nn.Parameter(c.randn(3, dim))

    def on_bind_args(self):
        pass

    def sdf(self, p):
        return ((p[:, None] - self.ce.to(p)).norm(dim=-1) - self.r.to(p)).amin(-1)

    def forward(self, rays_points_world=None, **kw):
        p = rays_points_world.reshape(-1, 3)
        return torch.cat([self.sdf(p)[:, None], torch.sigmoid(p @ self.M)], -1)

    def hit(self, o, d):
        """First intersection in float64 (inf: none), and how close a missing ray passes / how steep a hit is."""
        o, d, ce, r = o.double(), d.double(), self.ce.double(), self.r.double()
        oc = o[:, None] - ce
        b = (oc * d[:, None]).sum(-1)
        disc = b * b - (oc.pow(2).sum(-1) - r * r)
        t = -b - disc.clamp(min=0).sqrt()
        t = torch.where((disc > 0) & (t > 0), t, torch.full_like(t, math.inf))
        gap = ((oc - b[..., None] * d[:, None]).norm(dim=-1) - r)
        return t.amin(-1), gap


@monitor(quick=900, thorough=20000, need=("rays", "hits", "misses", "empty images", "chunks"))
def signed_distance(c):
    m = mods()
    dim, radius = c.i(3, 4), c.pick(1.0, 2.0, c.u(0.5, 4.0))
    f = Balls(c, dim, radius)
    n = c.i(4, 40)
    centre = torch.nn.functional.normalize(c.randn(3), dim=-1) * radius * c.u(1.1, 4.0)
    aim = c.pick(f.ce[c.i(0, len(f.ce) - 1)] + c.randn(n, 3) * 0.5 * radius, c.randn(n, 3) * radius)
    if c.p(0.15):
        aim = centre * 2 + c.randn(n, 3) * 0.1 * radius
    d = torch.nn.functional.normalize(aim - centre, dim=-1)
    o = centre.expand(n, 3).contiguous()
    b = m.base.ImplicitronRayBundle(origins=o[None, :, None], directions=d[None, :, None], lengths=torch.zeros(1, n, 1, 0), xys=torch.zeros(1, n, 1, 2))
    bg, alpha = c.pick((0.0,), tuple(c.u() for _ in range(dim))), c.pick(50.0, 5.0)
    torch.manual_seed(c.i(0, 10**6))
    r = m.sdf.SignedDistanceFunctionRenderer(
        render_features_dimensions=dim, object_bounding_sphere=radius, bg_color=bg, soft_mask_alpha=alpha,
        ray_tracer_args=dict(sphere_tracing_iters=c.pick(10, 10, 30, 3), n_steps=c.pick(100, 60)),
        ray_normal_coloring_network_args=dict(dims=(8,), d_in=9, d_out=dim))
    r.eval()
    om = torch.ones(1, n, 1, dtype=torch.bool) if c.p(0.7) else c.rand(1, n, 1) < 0.5
    out = r(b, [m.base.ImplicitFunctionWrapper(f)], m.E, object_mask=om)
    t, gap = f.hit(o, d)
    miss_by = gap.amin(-1)
    info = dict(balls=torch.cat([f.ce, f.r[:, None]], -1), origin=centre, directions=d, radius=radius)
    c.sig(n, dim, len(f.r), radius == 1.0, alpha)
    mask, depth, pts, feat = out.masks[0, :, 0, 0].detach(), out.depths[0, :, 0, 0].detach(), out.points[0, :, 0].detach(), out.features[0, :, 0].detach()
    nor = out.normals[0, :, 0].detach()
    on = f.sdf(pts)
    hits = 0
    for i in range(n):
        if t[i] < math.inf and float(gap[i].min()) < -0.08 * radius:  # a clear hit: nothing else is grazed first
            first = gap[i] < 0.02 * radius
            sure = all(not (0 <= abs(float(gap[i][j])) < 0.03 * radius) for j in range(len(gap[i])))
            if not sure:
                c.count("grazing skipped")
                continue
            c.check(float(mask[i]) == 1.0, "a ray that hits the surface is rendered as background", ray=i, t=float(t[i]), mask=float(mask[i]), **info)
            c.check(abs(float(on[i])) < 1e-3 * radius, "the rendered point does not lie on the surface", ray=i, sdf=float(on[i]), **info)
            c.close(depth[i].double(), t[i], "the rendered depth is not the first intersection of the ray", atol=3e-3 * radius, rtol=0, ray=i, **info)
            c.close(pts[i], o[i] + depth[i] * d[i], "the rendered point is not the one at the rendered depth", atol=1e-4 * radius, rtol=0, ray=i, **info)
            near = (pts[i] - f.ce).norm(dim=-1) - f.r
            k = int(near.argmin())
            c.close(nor[i], (pts[i] - f.ce[k]) / (pts[i] - f.ce[k]).norm(), "the normal is not the gradient of the distance", atol=1e-3, rtol=0, ray=i, **info)
            hits += 1
        elif t[i] == math.inf and float(miss_by[i]) > 0.02 * radius:
            c.check(float(mask[i]) < 0.5, "a ray that misses the surface is rendered as object", ray=i, mask=float(mask[i]), miss=float(miss_by[i]), **info)
            c.close(feat[i], torch.tensor(bg).expand(dim), "a ray that misses the surface has not the background colour", atol=1e-6, rtol=0, ray=i, **info)
            c.count("misses")
    c.count("hits", hits)
    c.count("rays", n)
    c.count("empty images", bool((mask < 1).all()) or not bool((t < math.inf).any()))
    # the same rays in pieces
    cut = c.i(1, n)
    outs = []
    for s in range(0, n, cut):
        e = slice(s, s + cut)
        bb = m.base.ImplicitronRayBundle(origins=o[None, e, None], directions=d[None, e, None], lengths=torch.zeros(1, len(o[e]), 1, 0), xys=torch.zeros(1, len(o[e]), 1, 2))
        outs.append(r(bb, [m.base.ImplicitFunctionWrapper(f)], m.E, object_mask=om[:, e]))
    for k in ("features", "masks", "depths", "points", "normals"):
        c.close(torch.cat([getattr(x, k) for x in outs], 1), getattr(out, k), f"'{k}' of rays rendered in pieces differ from those rendered at once", atol=1e-3 * radius, rtol=1e-3, cut=cut, **info)
        c.count("chunks", len(outs))


# ------------------------------------------------------------- chunks of models
@monitor(quick=120, thorough=3000, need=("chunked renders", "chunks", "NeuralRadianceFieldImplicitFunction", "IdrFeatureField", "two passes", "SRN", "packed training"))
def chunks(c):
    """A small model renders the same image whatever the size of its chunks."""
    mods()
    from pytorch3d.implicitron.models.generic_model import GenericModel
    from pytorch3d.implicitron.tools.config import expand_args_fields
    from pytorch3d.renderer import look_at_view_transform, PerspectiveCameras
    import warnings
    expand_args_fields(GenericModel)
    h, w = c.i(2, 6), c.i(2, 6)
    kind = c.pick("NeuralRadianceFieldImplicitFunction", "NeuralRadianceFieldImplicitFunction", "NeRFormer", "IdrFeatureField", "SRN", "packed")
    pts = c.i(3, 5)
    n = c.i(1, 3)
    passes, mode = 1, "full_grid"
    args = dict(render_image_height=h, render_image_width=w, loss_weights={}, output_rasterized_mc=False, tqdm_trigger_threshold=10**6)
    samp = dict(n_pts_per_ray_evaluation=pts, n_pts_per_ray_training=pts, scene_extent=c.u(1.0, 4.0))
    train = False
    if kind == "packed":
        samp.update(n_rays_per_image_sampled_from_mask=None, n_rays_total_training=c.i(1, 9), stratified_point_sampling_training=False)
        args.update(sampling_mode_training="full_grid", n_train_target_views=-1)
        train = True
    if kind in ("NeuralRadianceFieldImplicitFunction", "NeRFormer", "packed"):
        passes = c.i(1, 2)
        samp["cast_ray_bundle_as_cone"] = kind[0] == "N" and c.p(0.3)
        real = "NeuralRadianceFieldImplicitFunction"
        args.update(num_passes=passes, implicit_function_class_type=real, **{f"implicit_function_{real}_args": dict(
            transformer_dim_down_factor=1.0, n_hidden_neurons_xyz=8, n_hidden_neurons_dir=8, n_layers_xyz=2, append_xyz=(1,), n_harmonic_functions_xyz=2, n_harmonic_functions_dir=1)},
            renderer_MultiPassEmissionAbsorptionRenderer_args=dict(n_pts_per_ray_fine_evaluation=c.i(2, 4), n_pts_per_ray_fine_training=2, stratified_sampling_coarse_training=False))
        if samp["cast_ray_bundle_as_cone"]:
            args[f"implicit_function_{real}_args"]["use_integrated_positional_encoding"] = c.p(0.7)
        kind = real if kind != "packed" else kind
    elif kind == "IdrFeatureField":
        samp.update(n_pts_per_ray_evaluation=0, n_pts_per_ray_training=0)
        pts = 1
        args.update(implicit_function_class_type=kind, implicit_function_IdrFeatureField_args=dict(dims=(8, 8), skip_in=(), n_harmonic_functions_xyz=1),
                    renderer_class_type="SignedDistanceFunctionRenderer",
                    renderer_SignedDistanceFunctionRenderer_args=dict(ray_normal_coloring_network_args=dict(dims=(8,)), bg_color=(c.u(),)))
    else:
        pts = 1
        samp.update(n_pts_per_ray_evaluation=1, n_pts_per_ray_training=1)
        args.update(implicit_function_class_type="SRNImplicitFunction", implicit_function_SRNImplicitFunction_args=dict(
            raymarch_function_args=dict(n_harmonic_functions=1, n_hidden_units=8, n_layers=1), pixel_generator_args=dict(n_harmonic_functions=1, n_hidden_units=8, n_hidden_units_color=8, n_layers=1)),
            renderer_class_type="LSTMRenderer", renderer_LSTMRenderer_args=dict(num_raymarch_steps=2, init_depth_noise_std=0.0, hidden_size=4))
    args["raysampler_AdaptiveRaySampler_args"] = samp
    R, T = look_at_view_transform(dist=c.u(2.0, 6.0), elev=c.u(-60, 60), azim=torch.tensor([c.u(0, 360) for _ in range(n)]))
    cams = PerspectiveCameras(R=R, T=T, focal_length=c.u(1.0, 3.0))
    seed = c.i(0, 10**6)
    fg = torch.ones(n, 1, h, w)
    outs = []
    sizes = [0, pts * c.i(1, h * w), pts * c.i(1, 3), pts * h * w * 2]
    for size in sizes:
        torch.manual_seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model = GenericModel(chunk_size_grid=size, **copy.deepcopy(args))
            model.train() if train else model.eval()
            torch.manual_seed(seed + 1)
            mode = mods().T if train else mods().E
            img = torch.rand(n, 3, h, w, generator=torch.Generator().manual_seed(seed))
            with torch.set_grad_enabled(kind in ("IdrFeatureField",)):
                outs.append(model(image_rgb=img, camera=cams, fg_probability=fg, sequence_name=["a"] * n, evaluation_mode=mode))
    c.sig(kind, h, w, pts, passes, n, *sizes)
    keys = [k for k in ("images_render", "depths_render", "masks_render") if k in outs[0]]
    c.check(len(keys) == 3, "a full-grid render has no image, depth or mask")
    for size, o in zip(sizes[1:], outs[1:]):
        for k in keys:
            c.equal(tuple(o[k].shape), tuple(outs[0][k].shape), f"'{k}' rendered in chunks has another shape", size=size, model=kind)
            c.close(o[k], outs[0][k], f"'{k}' rendered in chunks differs from the render at once", atol=2e-4, rtol=1e-4, size=size, model=kind, args=str(args))
        for k in sorted(outs[0]):
            v = outs[0][k]
            if k not in keys and isinstance(v, torch.Tensor):
                c.close(o[k], v, f"'{k}' depends on the chunk size", atol=2e-4, rtol=1e-3, nan_ok=True, size=size, model=kind, args=str(args))
        c.count("chunks", -(-h * w * pts // size))
        c.count("chunked renders")
    if not train:
        c.equal(tuple(outs[0]["images_render"].shape[-2:]), (h, w), "the render has not the configured image size")
    c.count(kind if kind != "packed" else "packed training")
    c.count("two passes", passes == 2)


# ------------------------------------------------------------------ small parts
@monitor(quick=1500, thorough=30000, need=("depth bounds", "alignments", "overlaps", "masked inputs", "thresholds", "objectives"))
def parts(c):
    from pytorch3d.implicitron.models.utils import preprocess_input, weighted_sum_losses
    from pytorch3d.implicitron.tools import camera_utils as cu
    import warnings
    n = c.i(1, 4)
    centre = c.randn(3)
    cams = Cams(c, n, centre)
    ext = c.u(0.3, 5.0)
    lo, hi = cu.get_min_max_depth_bounds(cams.cameras, centre, ext)
    dist = (cams.C - centre.double()).norm(dim=-1)
    for i in range(n):
        if float(dist[i]) > ext + 1e-2:
            c.close(torch.stack([lo[i], hi[i]]).double(), torch.stack([dist[i] - ext, dist[i] + ext]), "depth bounds do not surround the scene", atol=1e-3, rtol=1e-4, extent=ext, dist=dist)
        else:
            c.check(0 < float(lo[i]) < 1.2e-2 + 1e-3 * ext and float(hi[i]) >= float(dist[i]) + ext - 1e-3, "depth bounds of a camera inside the scene", extent=ext, dist=dist, got=(float(lo[i]), float(hi[i])))
        c.count("depth bounds")
    # alignment: aligned cameras see aligned points as the old ones saw the old points, scaled
    rig = torch.eye(4, dtype=torch.float64).repeat(n, 1, 1)
    for i in range(n):
        rig[i, :3, :3] = rotation(c)
        rig[i, 3, :3] = c.randn(3)
    sc = c.rand(n, lo=0.2, hi=4.0)
    Ra, Ta = cu.apply_camera_alignment(cams.R, cams.T, rig, sc.double())
    p = c.randn(7, 3, dtype=torch.float64)
    for i in range(n):
        moved = (p @ rig[i, :3, :3] + rig[i, 3, :3]) * sc[i].double()
        c.close(moved @ Ra[i] + Ta[i], (p @ cams.R[i] + cams.T[i]) * sc[i].double(), "aligned cameras do not see the aligned scene", atol=1e-9, rtol=1e-9)
        c.count("alignments")
    if c.p(0.4):
        wa, res = c.p(0.5), c.i(2, 6)
        iou = cu.volumetric_camera_overlaps(cams.cameras, scene_extent=ext, scene_center=tuple(centre.tolist()), resol=res, weigh_by_ray_angle=wa)
        c.equal(tuple(iou.shape), (n, n), "overlaps have another shape")
        c.close(iou, iou.t(), "overlaps of cameras are not symmetric", atol=1e-5)
        c.check(bool((iou >= -1e-5).all()), "an overlap is negative", iou=iou)
        c.check(bool((iou <= 1 + 1e-4).all()), "an overlap exceeds one", iou=iou)
        lin = (torch.arange(res, dtype=torch.float64) - (res - 1) / 2) * 2 * ext / res
        g = torch.stack(torch.meshgrid(lin, lin, lin, indexing="ij"), -1).reshape(-1, 3) + centre.double()
        v = torch.einsum("kp,npq->nkq", g, cams.R) + cams.T[:, None]
        front = 1.0 if cams.kind == "fov" else 0.0  # the near plane of FoV cameras
        sees = (v[..., 2] > front)
        pr = v[..., :2] / v[..., 2:] * cams.f[:, None] + cams.p[:, None]
        small = (v[..., 2].abs() < 2e-2).any() or ((v[..., 2] - front).abs() < 1e-3).any() or ((pr.abs() - 1).abs() < 1e-4).any()
        if not bool(small):
            sees = sees & (pr.abs() <= 1).all(-1)
            s = sees.double()
            if wa:
                rays = torch.nn.functional.normalize(g - cams.C[:, None], dim=-1) * s[..., None]
                inter = len(g) + torch.einsum("akx,bkx->ab", rays, rays)
            else:
                inter = s @ s.T
            ms = inter.diagonal()
            c.close(iou.double(), inter / (ms[:, None] + ms[None] - inter).clamp(min=0.1), "overlaps of camera frusta", atol=1e-3, rtol=1e-3, wa=wa, res=res)
        c.count("overlaps")
    # masked inputs
    h, w = c.i(1, 5), c.i(1, 5)
    img, fg, dep = c.rand(n, 3, h, w), c.pick(c.rand(n, 1, h, w), (c.rand(n, 1, h, w) < 0.5).float()), c.rand(n, 1, h, w)
    thr, mi = c.pick(0.0, 0.5, 0.3), c.p(0.5)
    md = c.p(0.5) and thr > 0
    bg = (c.u(), c.u(), c.u())
    have = {k: c.p(0.8) for k in "ifd"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b_, e = preprocess_input(img.clone() if have["i"] else None, fg.clone() if have["f"] else None, dep.clone() if have["d"] else None, mi, md, thr, bg)
    want_fg = (fg >= thr).float() if thr > 0 else fg
    if have["f"]:
        c.equal(b_, want_fg, "the foreground mask is not thresholded as configured")
        c.count("thresholds", thr > 0)
    if have["i"]:
        want = img * want_fg + torch.tensor(bg)[:, None, None] * (1 - want_fg) if mi and have["f"] else img
        c.close(a, want, "input images are not masked as configured", atol=1e-6, rtol=1e-6)
        c.count("masked inputs", mi and have["f"])
    if have["d"]:
        c.close(e, dep * want_fg if md and have["f"] else dep, "input depths are not masked as configured", atol=1e-7, rtol=0)
    c.check((a is None) == (not have["i"]) and (b_ is None) == (not have["f"]) and (e is None) == (not have["d"]), "a missing input appeared")
    names = [f"k{i}" for i in range(c.i(1, 5))]
    preds = {k: c.randn(1)[0] for k in names if c.p(0.8)}
    wts = {k: c.pick(0.0, c.u(-2, 2)) for k in names if c.p(0.8)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj = weighted_sum_losses(preds, wts)
    use = [k for k in wts if k in preds and wts[k] != 0]
    if use:
        c.close(obj.double(), sum(preds[k].double() * wts[k] for k in use), "the objective is not the weighted sum of its losses", atol=1e-5, rtol=1e-5)
    else:
        c.check(obj is None, "an objective without any loss is not missing")
    c.count("objectives")
    c.sig(n, h, w, thr, mi, md, *have.values())
