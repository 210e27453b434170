"""The sphere renderer against a float64 evaluation of its blending model, pixel by pixel."""
import math
import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("scenes of 0..12 spheres (apart, overlapping, tiny, behind, outside) seen by perspective and orthogonal cameras of both handednesses, axis-angle and "
        "six-number rotations, principal point offsets, images of 2..40 pixels per side, gamma 1..1e-4, 1..8 channels, opacities, backgrounds; "
        "distinct = distinct (interface, camera kind, options, sizes)")
ASSUMPTIONS = ["pixels whose colour is not determined to 0.05 by float32 inputs (grazing rays at small gamma) are not judged, and counted",
               "spheres smaller than a pixel are judged for the exact colour only where their special rule applies beyond doubt",
               "max_n_hits, gradients of positions and cameras under orthogonal projection, and gradients through more hits than n_track are not judged (approximate by design)"]
EPS = 1e-6


class Blend:
    """weights and colours of every (pixel, sphere); all arguments float64 and differentiable"""

    def __init__(self, pos, col, rad, op, eye, axes, px, shape, f, ortho, shift, gamma, lo, hi, bg, bgdepth):
        h, w = shape
        x, y, z = axes
        jj = torch.arange(w, dtype=D) + .5 - w / 2 + shift[0]
        ii = torch.arange(h, dtype=D) + .5 - h / 2 + shift[1]
        plane = jj[None, :, None] * px * x + ii[:, None, None] * px * y
        c = pos - eye
        t = c.norm(dim=1)
        cz = c @ z
        if ortho:
            flat = c[None, None] - plane[:, :, None] - 0 * z
            flat = flat - (flat @ z)[..., None] * z
            off = flat.norm(dim=-1)
            o, cp = cz.abs().expand_as(off), off
            dist = cz
            self.proj = rad / px
            doff = 4e-7 * (t + plane.norm(dim=-1).max() + eye.norm())
            dcp2 = 2 * off * doff + doff ** 2
            dev = torch.maximum((flat @ x).abs(), (flat @ y).abs()) / px
            axis_ok = cz > 0
            self.margin = (cz / t.clamp(min=1e-9)).abs()
        else:
            d = plane + f * z
            d = d / d.norm(dim=-1, keepdim=True)
            diff = c[None, None] - d[:, :, None] * t[:, None]
            off = diff.norm(dim=-1)
            o = torch.einsum("hwk,nk->hwn", d, c)
            cp = ((t ** 2 - o ** 2).clamp(min=1e-30)).sqrt()
            dist = t
            self.proj = rad * f / t / px
            doff = 6e-7 * (t + eye.norm())
            dcp2 = 8e-7 * (t + eye.norm()) * t + 0 * off
            u = torch.stack([c @ x, c @ y], -1) / cz.clamp(min=1e-6)[:, None] * f / px
            grid = torch.stack([jj[None, :].expand(h, w), ii[:, None].expand(h, w)], -1)
            dev = (u[None, None] - grid[:, :, None]).abs().amax(-1)
            axis_ok = cz / t.clamp(min=1e-12) > 1e-6
            self.margin = (cz / t.clamp(min=1e-12)).abs()
        near = dist - rad
        self.near = near
        self.on = (near >= lo) & (near <= hi) & axis_ok
        self.limits = torch.minimum((near - lo).abs(), (near - hi).abs()) / (1e-9 + t + eye.norm())
        tiny = self.proj < 1
        # spheres of less than a pixel show fully in the pixel they project to; about its neighbours nothing is promised
        wide = .1 + .85 * (t / cz.clamp(min=1e-6)) ** 2
        centre, unsure = dev < .5, (dev > .49) & (dev < wide) | ((self.proj - 1).abs() < 1e-3) & (dev < wide)
        unsure = unsure | tiny & ~centre & (off <= 1.05 * rad)
        close = (1 - off / rad).clamp(0, 1)
        special = centre & tiny
        close = torch.where(special, torch.ones_like(close), close)
        hit = ((off <= rad) | special) & self.on
        pp2 = (rad ** 2 - cp ** 2)
        pp = torch.where(pp2 > 0, pp2.clamp(min=1e-30).sqrt(), torch.zeros_like(pp2))
        depth = o - pp
        self.depth = torch.where(hit, depth, torch.full_like(depth, math.inf))
        nd = (depth - lo) / (hi - lo)
        e = (1 - nd) / gamma * op
        self.close, self.hit = close, hit
        dclose = doff / rad + 1e-6
        ddepth = dcp2.detach() / (2 * pp.detach()).clamp(min=1e-12)
        ddepth = torch.minimum(ddepth, dcp2.detach().sqrt()) + 2e-7 * (t + eye.norm())
        de = ddepth / (hi - lo) / gamma * op + 3e-7 / gamma
        ddepth = ddepth.detach()
        tiny = self.proj < 1.001
        maybe = hit | ((off <= rad * (1 + 1e-4) + doff) & self.on) | (unsure & tiny & self.on)
        eb = torch.tensor(bgdepth / gamma, dtype=D)
        top = torch.where(maybe, e.detach(), torch.full_like(e, -math.inf)).amax(-1) if len(rad) else torch.full((h, w), -math.inf, dtype=D)
        top = torch.maximum(top, eb)
        wexp = torch.where(maybe, (e - top[..., None]).clamp(max=700).exp(), torch.zeros_like(e)) * op
        self.w = torch.where(hit, close * wexp, torch.zeros_like(e))
        self.wb = (eb - top).exp()
        self.W = self.w.sum(-1) + self.wb
        self.colour = (torch.einsum("hwn,nk->hwk", self.w, col) + self.wb[..., None] * bg) / self.W[..., None]
        with torch.no_grad():
            dw = torch.where(maybe, (torch.where(special, torch.zeros_like(dclose + off), dclose + 0 * off) + close * de.clamp(max=1).expm1()) * wexp, torch.zeros_like(e))
            dw = torch.where(unsure & tiny & maybe, wexp, dw)
            vague = ((dw > .3 * self.w) & ((self.w + dw) > 1e-4 * self.W[..., None])).any(-1)
            vague = vague | (self.W < 1e-5)             # the kernel normalises by at least 1e-6
            # the kernel's exponential is an approximation, good to 4%, and is applied again when a nearer sphere comes
            rough = .04 * (1 + maybe.sum(-1, keepdim=True))
            dw = dw + rough.clamp(max=1) * self.w
            spread = (col[None, None] - self.colour[:, :, None]).abs().amax(-1) if len(rad) else torch.zeros(h, w, 0, dtype=D)
            self.tol = (dw * spread).sum(-1) / self.W + 2e-6 * (1 + self.colour.abs().amax(-1)) + (1.2e-7 / gamma + .04) * (bg - self.colour).abs().amax(-1) * self.wb / self.W
            self.tol = torch.where(vague, self.tol + 1, self.tol)
            self.dw, self.ddepth, self.maybe = dw, ddepth, maybe
            self.grazing = hit & ~special & (off >= rad * (1 - 1e-4) - doff)   # the outline goes through the pixel's centre

    def sure(self):
        """no sphere sits on a clipping limit or beside the camera plane"""
        return bool(((self.limits > 1e-5) & (self.margin > 1e-3)).all())


def rotation(c):
    q = c.randn(4, dtype=D)
    q = q / q.norm()
    a, b, e, d = q.tolist()
    return torch.tensor([[1 - 2 * (e * e + d * d), 2 * (b * e - d * a), 2 * (b * d + e * a)],
                         [2 * (b * e + d * a), 1 - 2 * (b * b + d * d), 2 * (e * d - b * a)],
                         [2 * (b * d - e * a), 2 * (e * d + b * a), 1 - 2 * (b * b + e * e)]], dtype=D)


def scene(c, ortho, big=True):
    """camera, spheres and settings; everything rounded to float32 first"""
    h, w = c.i(2, 40), c.i(2, 40)
    right = c.p(.4)
    if c.p(.5):
        R = rotation(c)
        rot = torch.cat([R[0], R[1]]).float()          # the first two rows determine the rest
        from pytorch3d.transforms import rotation_6d_to_matrix
        R = rotation_6d_to_matrix(rot.double())
    else:
        v = c.randn(3, dtype=D) * c.pick(0., .3, 1., 2.)
        rot = v.float()
        from pytorch3d.transforms import axis_angle_to_matrix
        R = axis_angle_to_matrix(rot.double())
    off = c.pick(None, None, (c.i(-5, 5), c.i(-5, 5)), (0, 0))
    f = 0. if ortho else float(torch.tensor(c.u(.3, 2.)))
    sw = c.u(2., 6.) if ortho else c.u(.5, 2.) * f * min(1., 1.2 * w / h)
    camp = torch.cat([c.randn(3) * c.pick(0., 1.), rot, torch.tensor([f, sw])] + ([torch.tensor([float(off[0]), float(off[1])])] if off else []))
    eye = camp[:3].double()
    f, sw = float(camp[3 + len(rot)]), float(camp[4 + len(rot)])
    x, y, z = R[:, 0], -R[:, 1], R[:, 2] * (-1 if right else 1)
    px = sw / w
    n = c.pick(0, 1, 1, 2, 3, 5, 8, 12)
    lo = c.pick(0., 0., max(f, .1) + .2) if not ortho else c.pick(0., .5)
    hi = c.u(6., 14.)
    near = max(lo, f) + .1
    zz = c.rand(n, lo=near + .3, hi=hi, dtype=D) if c.p(.8) else (near + .5 + .05 * c.rand(n, dtype=D))
    spread = .5 * sw * (zz / f if not ortho else torch.ones(n, dtype=D)) * c.pick(.3, .9, 1.3)
    px_at = px * (zz / f if not ortho else torch.ones(n, dtype=D))
    q = c.rand(n, 2, lo=-1, hi=1, dtype=D)
    if c.p(.2) and n:
        q[:] = q[:1] + .02 * c.randn(n, 2, dtype=D)
    rad = px_at * c.rand(n, lo=1.3, hi=c.pick(3., 8., 30.), dtype=D)
    rad = torch.minimum(rad, (zz - max(lo, f)) * .8)
    tiny = torch.zeros(n, dtype=torch.bool)
    if c.p(.25) and n:
        tiny = c.rand(n) < .4
        rad = torch.where(tiny, px_at * c.rand(n, lo=.05, hi=.8, dtype=D), rad)
    shifted = torch.tensor([float(off[0]), float(off[1])], dtype=D) if off else torch.zeros(2, dtype=D)
    pos = eye + zz[:, None] * z + (q[:, :1] * spread[:, None] + shifted[0] * px_at[:, None]) * x + (q[:, 1:] * spread[:, None] * h / w + shifted[1] * px_at[:, None]) * y
    if c.p(.2) and n:
        k = c.i(0, n - 1)                               # behind the camera, or beyond the far end
        pos[k] = eye + (c.pick(-3., hi + 3.)) * z
    if c.p(.15) and n and not ortho:                    # the ray of a pixel goes through the centre
        i, j, k = c.i(0, h - 1), c.i(0, w - 1), c.i(0, n - 1)
        if c.p(.5):
            i, j = h // 2, w // 2
        pos[k] = eye + float(zz[k]) / f * ((j + .5 - w / 2 + shifted[0]) * px * x + (i + .5 - h / 2 + shifted[1]) * px * y + f * z)
    K = c.pick(3, 3, 3, 1, 2, 4, 6, 8)
    s = dict(h=h, w=w, right=right, ortho=ortho, cam=camp, eye=eye, axes=(x, y, z), px=px, f=f, shift=off or (0, 0), lo=lo, hi=hi, n=n, K=K,
             pos=pos.float(), rad=rad.float(), col=c.rand(n, K), op=c.pick(None, c.rand(n), torch.ones(n)), gamma=c.pick(1., .3, .1, .03, .01, 1e-3, 1e-4),
             bg=c.pick(None, c.rand(K)), bgd=c.pick(None, None, .2, .6))
    return s


def oracle(s, **over):
    g = lambda k: over.get(k, s[k])
    op = g("op")
    op = torch.ones(s["n"], dtype=D) if op is None else op.double()
    bg = torch.ones(s["K"], dtype=D) if g("bg") is None else g("bg").double()
    return Blend(g("pos").double(), g("col").double(), g("rad").double(), op, s["eye"], s["axes"], s["px"], (s["h"], s["w"]), s["f"], s["ortho"], s["shift"],
                 s["gamma"], s["lo"] or s["f"] + 2e-6, s["hi"], bg, s["bgd"] if s["bgd"] is not None else EPS)


def renderer(s, **kw):
    from pytorch3d.renderer.points.pulsar import Renderer
    if s["bgd"] is not None:
        kw["background_normalized_depth"] = s["bgd"]
    return Renderer(s["w"], s["h"], max(1, s["n"]), orthogonal_projection=s["ortho"], right_handed_system=s["right"], n_channels=s["K"], **kw)


def draw(r, s, **over):
    kw = dict(bg_col=s["bg"], opacity=s["op"], percent_allowed_difference=0., min_depth=s["lo"])
    arg = {k: over.pop(k, s[k]) for k in ("pos", "col", "rad")}
    for k in ("op",):
        if k in over:
            kw["opacity"] = over.pop(k)
    kw.update(over)
    return r(arg["pos"], arg["col"], arg["rad"], s["cam"], s["gamma"], s["hi"], **kw)


def judge(c, img, b, what):
    """image against the model wherever float32 determines it"""
    bad = (img.double() - b.colour).abs().amax(-1) - b.tol * 1.5
    ok = b.tol < .1
    c.count("pixels judged", int(ok.sum()))
    c.count("pixels left out", int((~ok).sum()))
    c.count("pixels hit", int((b.hit.any(-1) & ok).sum()))
    bad = torch.where(ok, bad, torch.full_like(bad, -1.))
    if not torch.isfinite(img).all():
        c.fail(f"{what}: colours are not finite")
    if (bad > 0).any():
        k = divmod(int(bad.argmax()), bad.shape[1])
        c.fail(f"{what}: pixel differs from the blending model", pixel=list(k), got=img[k].tolist(), want=b.colour[k].tolist(), tol=float(b.tol[k]), wrong=int((bad > 0).sum()))


@monitor(quick=700, thorough=60000, need=("pixels hit",))
def images(c):
    """one scene through the native interface: image, order of spheres, forward information, hit map"""
    s = scene(c, ortho=c.p(.3))
    b = oracle(s)
    if not b.sure():
        c.count("left out: a sphere on a clipping limit")
        return
    c.sig(s["ortho"], s["right"], s["n"], s["K"], s["gamma"], s["shift"] != (0, 0))
    if not s["n"]:
        c.count("scenes without spheres")
        return
    r = renderer(s)
    img, info = draw(r, s, return_forward_info=True)
    c.equal(tuple(img.shape), (s["h"], s["w"], s["K"]), "image shape")
    judge(c, img, b, "image")
    nohit = ~b.maybe.any(-1)
    bg = torch.ones(s["K"]) if s["bg"] is None else s["bg"]
    if nohit.any():
        c.close(img[nohit], bg.expand(int(nohit.sum()), -1), "background", atol=1e-6)
    c.count("background pixels", int(nohit.sum()))
    # the order of the spheres does not matter
    p = torch.tensor(c.perm(s["n"]))
    img2 = draw(r, s, pos=s["pos"][p], col=s["col"][p], rad=s["rad"][p], op=None if s["op"] is None else s["op"][p])
    judge(c, img2, b, "image of permuted spheres")
    # forward information
    depth = r.depth_map_from_result_info_nograd(info).double()
    want = b.depth.amin(-1)
    sure = ((b.maybe == b.hit) & ~b.grazing).all(-1)
    none = sure & ~b.hit.any(-1)
    if not (depth[none] == -1).all():
        c.fail("depth map is not -1 where nothing is hit")
    some = sure & b.hit.any(-1)
    slack = 3 * torch.where(b.hit, b.ddepth + 0 * b.depth.clamp(max=1), torch.zeros_like(b.depth)).amax(-1) + 1e-5
    if ((depth - want).abs()[some] > slack[some]).any():
        k = ((depth - want).abs() - slack).masked_fill(~some, -1).argmax()
        k = divmod(int(k), s["w"])
        c.fail("depth map is not the closest intersection", pixel=list(k), got=float(depth[k]), want=float(want[k]), slack=float(slack[k]))
    c.count("depths", int(some.sum()))
    ids = r.sphere_ids_from_result_info_nograd(info)
    ids = ids[0] if ids.ndim == 4 else ids
    wts = info[..., 4:]
    for (i, j) in sure.nonzero()[:: max(1, int(sure.sum()) // 40)].tolist():
        hits = set(b.hit[i, j].nonzero().flatten().tolist())
        got = [int(q) for q in ids[i, j].tolist() if q >= 0]
        if len(set(got)) != len(got) or not set(got) <= hits:
            c.fail("sphere ids of a pixel are not spheres it hits", pixel=[i, j], got=got, want=sorted(hits))
        if len(got) != min(len(hits), 5):
            c.fail("number of tracked spheres", pixel=[i, j], got=got, want=sorted(hits))
        c.count("pixels with ids")
    hm = draw(r, s, mode=1)
    want = b.hit.sum(-1).double()
    hm = hm[..., 0] if hm.ndim == 3 else hm
    if (hm.double() != want)[sure].any():
        c.fail("hit map is not the number of spheres hit", got=hm[sure & (hm != want)][:5].tolist(), want=want[sure & (hm != want)][:5].tolist())
    c.count("hit map pixels", int(sure.sum()))


@monitor(quick=400, thorough=30000, need=("gradients", "partial"))
def gradients(c):
    """gradients through one pixel against differentiating the model, and their additivity over pixels"""
    s = scene(c, ortho=c.p(.35))
    n = s["n"]
    s["gamma"] = max(s["gamma"], .03)
    if s["op"] is not None:
        s["op"] = s["op"].clamp(min=.05)
    if not n:
        return
    b = oracle(s)
    if not b.sure() or int(b.maybe.sum(-1).max()) > 5:
        c.count("left out: scenes")
        return
    names = ["pos", "col", "rad"] + (["op"] if s["op"] is not None else [])
    r = renderer(s)

    def native(g, names=names):
        leaf = {m: s[m].clone().requires_grad_() for m in names}
        cam = s["cam"].clone().requires_grad_(c.p(.5) or not names)
        (draw(r, dict(s, cam=cam), **leaf) * g).sum().backward()
        for m in names:
            if leaf[m].grad is None or not torch.isfinite(leaf[m].grad).all():
                c.fail(f"gradient of {m} is missing or not finite")
        return {m: leaf[m].grad.double() for m in names}

    g = c.randn(s["h"], s["w"], s["K"])
    half = (c.rand(s["h"], s["w"], 1) < .5).float()
    a, b1, b2 = native(g), native(g * half), native(g * (1 - half))
    for m in names:
        c.close(b1[m] + b2[m], a[m], f"gradients of {m} add up over pixels", atol=1e-3 + 1e-3 * float(b1[m].abs().max() + b2[m].abs().max()))
    some = [m for m in names if c.p(.5)]
    few = native(g, some)
    for m in some:
        c.close(few[m], a[m], f"gradient of {m} when only {some} ask for one", atol=1e-3 + 1e-3 * float(a[m].abs().max()))
        c.count("partial")
    clear = ((b.maybe == b.hit) & (~b.hit | (b.close > .05) & (b.close < .97) & (b.proj > 1.01) & (b.ddepth < .002 * (s["hi"] - s["lo"]) * s["gamma"]))).all(-1) & b.hit.any(-1)
    seen = b.hit.flatten(0, 1).sum(0).double()
    wide = (b.hit.any(0).sum(0) >= 4) & (b.hit.any(1).sum(0) >= 4)
    sure_count = (b.maybe == b.hit).all(0).all(0)
    c.sig(s["ortho"], s["right"], n, s["K"], s["gamma"])
    spots = clear.nonzero()
    for q in range(min(3, len(spots))):
        i, j = spots[c.i(0, len(spots) - 1)].tolist()
        one = torch.zeros_like(g)
        one[i, j] = g[i, j]
        got = native(one)
        dbl = {m: s[m].double().requires_grad_() for m in names}
        want = torch.autograd.grad((oracle(s, **dbl).colour[i, j] * g[i, j].double()).sum(), list(dbl.values()))
        gk, col, C = g[i, j].double(), s["col"].double(), b.colour[i, j]
        p = b.w[i, j] / b.W[i, j]
        spread = (p[:, None] * (col - C).abs()).sum(0) + (1 - p.sum()) * (C - 1).abs()
        dev = gk * (col - C)
        ratio = (.15 * dev.abs().sum(1) + .08 * (gk.abs() * spread).sum()) / dev.sum(1).abs().clamp(min=1e-12)
        for m, w in zip(names, want):
            w = w / seen.clamp(min=1).view(-1, *[1] * (w.ndim - 1))
            size = w.abs().reshape(n, -1).amax(1)
            noise = 1e-6 if m == "col" else 6e-7 / s["gamma"] * float(gk.abs().sum()) * (1 if m == "op" else max(1., float(1 / s["rad"].min())))
            tol = size * (.12 if m == "col" else ratio) + max(noise, 1e-6)
            sel = sure_count & (b.hit[i, j] if m != "col" else torch.ones(n, dtype=torch.bool))
            if m in ("pos", "rad"):
                sel = sel & wide
            if m != "col":
                sel = sel & (ratio < .7)
                idle = ~b.maybe[i, j]
                if got[m][idle].abs().sum() > 0:
                    c.fail(f"gradient of {m} for a sphere that the pixel does not see")
            err = (got[m] - w).abs().reshape(n, -1).amax(1)
            if (err > tol)[sel].any():
                k = int((err / tol).masked_fill(~sel, 0).argmax())
                c.fail(f"gradient of {m} differs from the model", pixel=[i, j], sphere=k, got=got[m][k].tolist(), want=w[k].tolist(), tol=float(tol[k]))
            c.count("gradients", int(sel.sum()))
            c.count(f"gradients of {m}", int(sel.sum()))


def rays_of(cam, s):
    """eye, axes and pixel size of a parameter vector, in float64 and differentiable"""
    from pytorch3d.transforms import axis_angle_to_matrix, rotation_6d_to_matrix
    k = s["rot"]
    R = rotation_6d_to_matrix(cam[3:9]) if k == 6 else axis_angle_to_matrix(cam[3:6])
    x, y, z = R[:, 0], -R[:, 1], R[:, 2] * (-1 if s["right"] else 1)
    return cam[:3], (x, y, z), cam[4 + k] / s["w"], cam[3 + k]


@monitor(quick=300, thorough=20000, need=("camera gradients",))
def camera_directions(c):
    """camera gradients are scaled by coverage, but point where the model's gradient points (one sphere, one pixel)"""
    s = scene(c, ortho=c.p(.5))
    s["gamma"] = max(s["gamma"], .1)
    if not s["n"]:
        return
    for k in ("pos", "col", "rad", "op"):
        s[k] = s[k][:1] if s[k] is not None else None
    s["n"] = 1
    s["rot"] = 6 if len(s["cam"]) in (11, 13) else 3
    b = oracle(s)
    if not b.sure() or (b.maybe != b.hit).any():
        return
    wide = (b.hit.any(0).sum(0) >= 4) & (b.hit.any(1).sum(0) >= 4)
    clear = b.hit[..., 0] & (b.close[..., 0] > .05) & (b.close[..., 0] < .95)
    if not bool(wide) or not clear.any():
        return
    spots = clear.nonzero()
    i, j = spots[c.i(0, len(spots) - 1)].tolist()
    g = c.randn(s["K"])
    cam = s["cam"].clone().requires_grad_()
    (draw(renderer(s), dict(s, cam=cam))[i, j] * g).sum().backward()
    got = cam.grad.double()
    if not torch.isfinite(got).all():
        c.fail("camera gradient is not finite")
    dc = s["cam"].double().requires_grad_()
    eye, axes, px, f = rays_of(dc, s)
    t = dict(s, eye=eye, axes=axes, px=px, f=f if not s["ortho"] else 0.)
    t["lo"] = s["lo"] or s["f"] + 2e-6
    want, = torch.autograd.grad((oracle(t).colour[i, j] * g.double()).sum(), dc)
    cut = len(want) - (2 if len(want) in (10, 13) else 0)
    got, want = got[:cut], want[:cut]
    if want.norm() < 1e-3 or got.norm() == 0 and want.norm() < 1e-2:
        c.count("left out: flat")
        return
    cos = float((got * want).sum() / (got.norm() * want.norm()).clamp(min=1e-30))
    c.sig(s["ortho"], s["right"], s["rot"], s["K"])
    if cos < .9995:
        c.fail("camera gradient points elsewhere", cosine=cos, got=got.tolist(), want=want.tolist())
    c.count("camera gradients")


@monitor(quick=150, thorough=10000, need=("batched images",))
def batches(c):
    """several scenes of one size at once, broadcast over a single camera or not, against one at a time"""
    ortho = c.p(.3)
    s = scene(c, ortho)
    n, k = max(1, s["n"]), c.i(1, 4)
    while s["n"] != n:
        s = scene(c, ortho)
        n = max(1, s["n"])
    lo = s["lo"]
    pos = s["pos"][None] + .1 * c.randn(k, n, 3)
    rad = s["rad"][None] * c.rand(k, n, lo=.5, hi=1.)
    col = c.rand(k, n, s["K"])
    op = c.rand(k, n) if c.p(.5) else None
    cams = s["cam"][None].repeat(k, 1)
    cams[:, :3] += .1 * c.randn(k, 3)
    r = renderer(s)
    r1 = renderer(s)
    kw = dict(bg_col=s["bg"], percent_allowed_difference=c.pick(0., .01), min_depth=lo, first_R_then_T=c.p(.3))
    mode = c.pick(0, 0, 0, 1)
    full, info = r(pos, col, rad, cams, s["gamma"], s["hi"], opacity=op, return_forward_info=True, mode=mode, **kw)
    c.equal(tuple(full.shape), (k, s["h"], s["w"], s["K"] if mode == 0 else 1), "shape of a batch")
    g = c.randn(*full.shape)
    for b in range(k):
        one, info1 = r1(pos[b], col[b], rad[b], cams[b], s["gamma"], s["hi"], opacity=None if op is None else op[b], return_forward_info=True, mode=mode, **kw)
        c.close(full[b], one, "image of a batch element", atol=1e-5)
        if mode == 0:
            c.equal(r.depth_map_from_result_info_nograd(info)[b], r1.depth_map_from_result_info_nograd(info1), "depth map of a batch element")
            c.equal(r.sphere_ids_from_result_info_nograd(info)[b], r1.sphere_ids_from_result_info_nograd(info1)[0], "sphere ids of a batch element")
        else:
            c.check(info is None and info1 is None, "forward information of a hit map")
        c.count("batched images")
    c.sig(ortho, k, n, mode)
    if mode == 0:
        leaves = [t.clone().requires_grad_() for t in (pos, col, rad, cams)]
        (r(*leaves, s["gamma"], s["hi"], opacity=op, **kw) * g).sum().backward()
        for b in range(k):
            mine = [t[b].clone().requires_grad_() for t in (pos, col, rad, cams)]
            (r1(*mine, s["gamma"], s["hi"], opacity=None if op is None else op[b], **kw) * g[b]).sum().backward()
            for q, p_, name in zip(leaves, mine, ("positions", "colours", "radii", "cameras")):
                c.close(q.grad[b], p_.grad, f"gradient of {name} of a batch element", atol=1e-5 * (1 + float(p_.grad.abs().max())))
        c.count("batched gradients", k)


@monitor(quick=150, thorough=10000, need=("interleaved scenes",))
def histories(c):
    """one renderer draws several scenes before any of their gradients are asked for, in another order"""
    s0 = scene(c, c.p(.3))
    k = c.i(2, 4)
    most = 24
    r = renderer(dict(s0, n=most))
    items = []
    for b in range(k):
        n = c.i(1, most)
        base = s0["pos"] if s0["n"] else (s0["eye"] + 3 * s0["axes"][2]).float()[None]
        pos = base[c.randint(0, len(base), (n,))] + .2 * c.randn(n, 3)
        rad = (s0["rad"] if s0["n"] else torch.tensor([.3]))[c.randint(0, len(base), (n,))]
        cam = s0["cam"].clone()
        cam[:3] += .05 * c.randn(3)
        args = [pos, c.rand(n, s0["K"]), rad, cam]
        if c.p(.3):                                     # transposed memory
            args[1] = args[1].t().contiguous().t()
        items.append((args, c.pick(1., .3, .05), c.rand(n) if c.p(.5) else None, b and c.p(.15)))
    def start(r, item):
        args, gamma, op, batched = item
        leaves = [a.clone().requires_grad_() for a in args]
        if op is not None:
            leaves.append(op.clone().requires_grad_())
        use = [a[None] for a in leaves] if batched else leaves
        img = r(*use[:4], gamma, s0["hi"], min_depth=s0["lo"], bg_col=s0["bg"], opacity=use[4] if op is not None else None)
        return leaves, img[0] if batched else img
    g = c.randn(s0["h"], s0["w"], s0["K"])
    runs = [start(r, it) for it in items]
    kept = [img.detach().clone() for _, img in runs]
    for b in c.perm(k):
        (runs[b][1] * g).sum().backward()
    for b, it in enumerate(items):
        leaves, img = start(renderer(dict(s0, n=most)), it)
        (img * g).sum().backward()
        c.close(kept[b], img, "image of a used renderer", atol=1e-6)
        c.close(runs[b][1], img, "image after later renderings", atol=1e-6)
        for q, p_, name in zip(runs[b][0], leaves, ("positions", "colours", "radii", "camera", "opacities")):
            c.close(q.grad, p_.grad, f"gradient of {name} after later renderings", atol=1e-5 * (1 + float(p_.grad.abs().max())))
        c.count("interleaved scenes")
    c.sig(s0["ortho"], k, tuple(it[2] is None for it in items), s0["K"])


@monitor(quick=250, thorough=15000, need=("images through the point renderer",))
def points_interface(c):
    """PulsarPointsRenderer over its camera classes, one camera or one per cloud, overrides and repeated rendering"""
    from pytorch3d.renderer import (FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras, PointsRasterizationSettings,
                                    PointsRasterizer, PulsarPointsRenderer)
    from pytorch3d.structures import Pointclouds
    kind = c.pick("fovp", "fovo", "persp", "ortho")
    free = kind in ("persp", "ortho")
    w = c.i(4, 32)
    h = w if not free or c.p(.5) else c.i(4, 32)
    side = min(w, h)
    k = c.i(1, 3)
    nc = k if c.p(.6) else 1
    ortho = kind in ("fovo", "ortho")
    R = torch.stack([rotation(c) for _ in range(nc)]).float()
    T = c.randn(nc, 3) * .5
    znear, zfar = c.rand(nc, lo=.3, hi=1.2), c.rand(nc, lo=8, hi=14)
    kw = dict(R=R, T=T)
    if kind == "fovp":
        deg = c.p(.5)
        fov = c.rand(nc, lo=25, hi=90)
        kw.update(fov=fov if deg else fov * math.pi / 180, degrees=deg)
        scale = 1 / (fov.double() * math.pi / 360).tan()
    elif kind == "fovo":
        half = c.rand(nc, lo=1., hi=3.)
        kw.update(max_x=half, min_x=-half, max_y=half, min_y=-half)
        scale = 1 / half.double()
    else:
        focal = c.rand(nc, lo=.5, hi=2.5)
        if ortho:
            focal = focal / 2
        kw.update(focal_length=focal[:, None].expand(nc, c.pick(1, 2)).contiguous() if c.p(.7) else focal, principal_point=2 * c.randint(-3, 4, (nc, 2)).float() / side)
        scale = focal.double()
    cls = dict(fovp=FoVPerspectiveCameras, fovo=FoVOrthographicCameras, persp=PerspectiveCameras, ortho=OrthographicCameras)[kind]
    if not free:
        kw.update(znear=znear, zfar=zfar)
    late = set()
    if c.p(.4):                                         # some parameters given only when rendering
        cand = {"fovp": ["R", "T", "znear", "zfar", "fov"], "fovo": ["R", "T", "znear", "zfar"], "persp": ["R", "T", "principal_point", "focal_length"],
                "ortho": ["R", "T", "principal_point", "focal_length"]}[kind]
        late = {m for m in cand if c.p(.5)}
    per = c.i(0, k - 1)
    own = {m: v for m, v in kw.items() if m not in late}
    if "focal_length" in late and kw["focal_length"].ndim == 1:
        kw["focal_length"] = kw["focal_length"][:, None]
    if late:
        own["R"] = own.get("R", R.roll(1, 1))           # keeps the number of cameras
    K = c.pick(3, 3, 1, 4)
    s0, counts = [], []
    gammas = [c.pick(1., .1, .03, .01) for _ in range(k)]
    pts, cols, rads = [], [], []
    for b in range(k):
        q = b if nc > 1 else 0
        n = c.i(1, 6)
        Rd, Td = R[q].double(), T[q].double()
        zz = c.rand(n, lo=float(znear[q]) + 1.5, hi=float(zfar[q]) - 1, dtype=D)
        at = (zz if not ortho else torch.ones(n, dtype=D)) / scale[q]
        pp = kw["principal_point"][q].double() if free else torch.zeros(2, dtype=D)
        xy = (c.rand(n, 2, lo=-1, hi=1, dtype=D) * torch.tensor([w / side, h / side], dtype=D) * c.pick(.4, .9, 1.2) - pp) * at[:, None]
        view = torch.cat([xy, zz[:, None]], 1)
        pts.append(((view - Td) @ Rd.T).float())
        cols.append(c.rand(n, K))
        rads.append(torch.minimum(at * 2 / side * c.rand(n, lo=1.3, hi=c.pick(3., 6.), dtype=D), .8 * (zz - float(znear[q]))).float())
    mode = c.pick("world list", "world one", "pixels")
    same = len({len(p) for p in pts}) == 1
    one = float(torch.cat(rads).max())
    if mode == "world list" and (k == 1 or same):
        radius = torch.stack(rads) if same and c.p(.7) or k > 1 else rads[0]
    elif mode == "pixels":
        radius = c.u(1.5, 5.) * 2 / side / float(scale.min()) * (1 if ortho else float(znear.max()) * (2 if kind == "fovp" else 1))
    else:
        mode, radius = "world one", one
        if c.p(.5):
            radius = torch.tensor(one)
    cams = cls(**own)
    size = (h, w) if h != w or c.p(.5) else w
    rast = PointsRasterizer(cameras=cams, raster_settings=PointsRasterizationSettings(image_size=size, radius=radius))
    r = PulsarPointsRenderer(rasterizer=rast, n_channels=K, max_num_spheres=c.pick(6, 100))
    call = {m: kw[m] for m in late}
    if "fov" in late:
        call["degrees"] = kw["degrees"]
    if free:
        call.update(znear=znear if c.p(.5) else znear.tolist(), zfar=zfar if c.p(.5) else zfar.tolist())
    call["gamma"] = c.pick(torch.tensor(gammas), gammas, tuple(gammas)) if k > 1 or c.p(.5) else (gammas[0],)
    bg = c.pick(None, c.rand(K))
    if bg is not None:
        call["bg_col"] = bg
    if mode.startswith("world"):
        call["radius_world"] = True
    call["percent_allowed_difference"] = 0.
    clouds = Pointclouds(points=pts, features=cols)
    img = r(clouds, **call)
    c.equal(tuple(img.shape), (k, h, w, K), "shape of the rendered clouds")
    again = r(clouds, **call)
    c.close(again, img, "second rendering with the same renderer", atol=1e-6)
    for b in range(k):
        q = b if nc > 1 else 0
        Rd = R[q].double()
        eye = -T[q].double() @ Rd.T
        axes = (-Rd[:, 0], -Rd[:, 1], Rd[:, 2])
        f = float(znear[q].double() - 1e-6) if not ortho else 0.
        px = 2 / side / float(scale[q]) * (f if not ortho else 1.)
        pp = kw["principal_point"][q].double() * side / 2 if free else torch.zeros(2)
        n = len(pts[b])
        if mode == "world one":
            rad = torch.full((n,), one, dtype=D)
        elif mode == "world list":
            rad = rads[b].double()
        elif ortho:
            rad = torch.full((n,), float(radius), dtype=D)
        else:
            rad = radius / f * (pts[b].double() - eye).norm(dim=1) * (.5 if kind == "fovp" else 1.)
        m = Blend(pts[b].double(), cols[b].double(), rad, torch.ones(n, dtype=D), eye, axes, px, (h, w), f, ortho, [float(round(float(v))) for v in pp],
                  gammas[b], float(znear[q]), float(zfar[q]), torch.zeros(K, dtype=D) if bg is None else bg.double(), EPS)
        if not m.sure() or (m.proj < 1.02).any():
            c.count("left out: a sphere on a clipping limit, or smaller than a pixel")
            continue
        judge(c, img[b], m, f"image of cloud {b} of {k} by {kind} camera")
        c.count("images through the point renderer")
    c.sig(kind, k, nc, h == w, mode, tuple(sorted(late)))
