"""Blending of rasterized fragments against float64 reference formulas."""
import dataclasses

import torch
from lib.harness import monitor

NATIVE = True
D = torch.float64
RULE = ("fragment tensors (random depths, signed distances, missing slots, empty pixels, whole empty images) x sigma, gamma from 1e-12 to 1e3 x background as tuple, list, tensor "
        "x znear / zfar as number or per-image tensor; distinct = distinct (operator, shapes, magnitudes, argument forms)")


def fragments(c, N=None, H=None, W=None, K=None, F=50, zlo=1.0, zhi=10.0, dscale=None):
    """Rasterizer-like output: valid slots first (in depth order), then -1."""
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    N, H, W, K = N or c.i(1, 3), H or c.i(1, 6), W or c.i(1, 6), K or c.i(1, 6)
    cnt = c.randint(0, K + 1, (N, H, W))
    m = c.pick("mixed", "mixed", "full", "empty", "one")
    if m == "full":
        cnt[:] = K
    elif m == "empty" and c.p(0.5):
        cnt[:] = 0
    elif m == "one":
        cnt[:] = 1
    valid = torch.arange(K) < cnt[..., None]
    z = c.rand(N, H, W, K, lo=zlo, hi=zhi).sort(-1).values
    if c.p(0.2):
        z[..., 1:] = z[..., :1]  # ties in depth
    ds = dscale if dscale is not None else 10 ** c.u(-6, 0)
    d = c.randn(N, H, W, K) * ds
    d[c.rand(N, H, W, K) < 0.1] = 0.0
    b = c.rand(N, H, W, K, 3, lo=0.05, hi=1)
    b = b / b.sum(-1, keepdim=True)
    p = c.randint(0, F, (N, H, W, K))
    neg = torch.full_like(z, -1)
    return Fragments(pix_to_face=torch.where(valid, p, torch.full_like(p, -1)), zbuf=torch.where(valid, z, neg),
                     bary_coords=torch.where(valid[..., None], b, neg[..., None]), dists=torch.where(valid, d, neg)), valid, m


def ref_hard(colors, fr, bg):
    v = fr.pix_to_face[..., 0] >= 0
    rgb = torch.where(v[..., None], colors[..., 0, :].double(), bg)
    return torch.cat([rgb, v[..., None].double()], -1)


def ref_prob(fr, sigma):
    v = fr.pix_to_face >= 0
    x = fr.dists.double() / sigma
    p = torch.sigmoid(-x)
    return torch.where(v, p, torch.zeros_like(p))


def ref_sigmoid(colors, fr, sigma):
    a = 1 - torch.prod(1 - ref_prob(fr, sigma), -1, keepdim=True)
    return torch.cat([colors[..., 0, :].double(), a], -1)


def per_image(x, N):
    return x.double().view(-1, 1, 1, 1) if torch.is_tensor(x) else x


def ref_softmax(colors, fr, sigma, gamma, bg, znear, zfar):
    """The published formula (SoftRas), computed with log-sum-exp."""
    v = fr.pix_to_face >= 0
    x = fr.dists.double() / sigma
    logp = torch.nn.functional.logsigmoid(-x)
    zn, zf = per_image(znear, None), per_image(zfar, None)
    eps = 1e-10
    zi = (zf - fr.zbuf.double()) / (zf - zn)
    zi = torch.where(v, zi, torch.zeros_like(zi))
    zmax = zi.max(-1, keepdim=True).values.clamp(min=eps)
    lw = torch.where(v, logp + (zi - zmax) / gamma, torch.full_like(zi, -float("inf")))
    # the documented background weight exp((eps - zmax) / gamma), at least eps
    delta = torch.exp((eps - zmax) / gamma).clamp(min=eps)
    w = torch.exp(lw)
    den = w.sum(-1, keepdim=True) + delta
    rgb = ((w[..., None] * colors.double()).sum(-2) + delta * bg) / den
    a = 1 - torch.prod(torch.where(v, 1 - torch.sigmoid(-x), torch.ones_like(x)), -1, keepdim=True)
    return torch.cat([rgb, a], -1), w, delta


def background(c):
    b = c.rand(3)
    k = c.pick("default", "tuple", "list", "tensor")
    if k == "default":
        return None, torch.ones(3, dtype=D), k
    return {"tuple": tuple(b.tolist()), "list": b.tolist(), "tensor": b}[k], b.double(), k


def mag(c, lo=-12, hi=3):
    return float(10 ** c.u(lo, hi))


def colours(c, fr):
    """Fragment colours, with values in the empty slots that must not matter."""
    col = c.rand(*fr.pix_to_face.shape, 3)
    if c.p(0.5):
        col[fr.pix_to_face < 0] = c.pick(0.0, 5.0, -7.0)
    return col


@monitor(quick=1500, thorough=60000, need=("background_pixels", "covered_pixels", "hard", "sigmoid"))
def hard_and_sigmoid(c):
    from pytorch3d.renderer.blending import BlendParams, hard_rgb_blend, sigmoid_alpha_blend
    fr, valid, m = fragments(c)
    col = colours(c, fr)
    bg, bgd, k = background(c)
    sigma = mag(c, -8, 2)
    bp = BlendParams(sigma=sigma, **({} if bg is None else dict(background_color=bg)))
    info = dict(sigma=sigma, bg=bg, p2f=fr.pix_to_face)
    col0, d0 = col.clone(), fr.dists.clone()
    out = hard_rgb_blend(col, fr, bp)
    c.close(out, ref_hard(col, fr, bgd), "hard blending", atol=1e-6, rtol=1e-6, **info)
    c.count("hard")
    s = sigmoid_alpha_blend(col, fr, bp)
    # float32 rounding of dist / sigma inside the sigmoid and of 1 - p
    c.close(s, ref_sigmoid(col, fr, sigma), "sigmoid alpha blending", atol=1e-5, rtol=1e-5, dists=fr.dists, **info)
    a = s[..., 3]
    c.check(bool((a[~valid.any(-1)] == 0).all()), "alpha of a pixel without fragments", **info)
    c.check(bool(((a >= 0) & (a <= 1)).all()), "alpha outside [0, 1]", **info)
    c.check(bool((col == col0).all() and (fr.dists == d0).all()), "an input changed", **info)
    c.count("sigmoid")
    # gradient of alpha with respect to the distances
    d = fr.dists.clone().requires_grad_()
    up = c.rand(*a.shape)
    (sigmoid_alpha_blend(col, dataclasses.replace(fr, dists=d), bp)[..., 3] * up).sum().backward()
    dd = fr.dists.double().clone().requires_grad_()
    f2 = dataclasses.replace(fr, dists=dd)
    (ref_sigmoid(col, f2, sigma)[..., 3] * up).sum().backward()
    c.close(d.grad, dd.grad, "gradient of the sigmoid alpha", atol=1e-5 / sigma, rtol=1e-3, dists=fr.dists, **info)
    c.check(bool((d.grad[~valid] == 0).all()), "an empty slot received a gradient", **info)
    c.count("background_pixels", (~valid.any(-1)).sum())
    c.count("covered_pixels", valid.any(-1).sum())
    c.sig(tuple(fr.pix_to_face.shape), m, k, round(torch.log10(torch.tensor(sigma)).item()))


@monitor(quick=2500, thorough=100000, need=("background_pixels", "covered_pixels", "extreme", "tensor_planes", "mixed_weights"))
def softmax(c):
    from pytorch3d.renderer.blending import BlendParams, softmax_rgb_blend
    fr, valid, m = fragments(c, zlo=c.pick(1.0, 0.1), zhi=c.pick(10.0, 90.0, 150.0))
    N = fr.zbuf.shape[0]
    col = colours(c, fr)
    bg, bgd, k = background(c)
    sigma, gamma = mag(c, -9, 2), mag(c, -9, 2)
    pl = c.pick("default", "num", "one", "each")
    zn, zf, kw = 1.0, 100.0, {}
    if pl == "num":
        zn, zf = c.u(0.05, 2), c.u(20, 200)
    elif pl in ("one", "each"):
        n = 1 if pl == "one" else N
        zn, zf = c.rand(n, lo=0.05, hi=2), c.rand(n, lo=20, hi=200)
    if pl != "default":
        kw = dict(znear=zn, zfar=zf)
    bp = BlendParams(sigma=sigma, gamma=gamma, **({} if bg is None else dict(background_color=bg)))
    info = dict(sigma=sigma, gamma=gamma, zn=zn, zf=zf, bg=bg, z=fr.zbuf, d=fr.dists, p2f=fr.pix_to_face)
    out = softmax_rgb_blend(col, fr, bp, **kw).double()
    want, w, delta = ref_softmax(col, fr, sigma, gamma, bgd, zn, zf)
    c.check(bool(torch.isfinite(out).all()), "the blended image is not finite", out=out, **info)
    cov = valid.any(-1)
    c.close(out[~cov], torch.cat([bgd, torch.zeros(1)]).expand(int((~cov).sum()), 4), "pixels without fragments", atol=1e-6, **info)
    c.check(bool((out[..., 3][~cov] == 0).all()), "alpha of a pixel without fragments", **info)
    # alpha
    c.close(out[..., 3], want[..., 3], "alpha", atol=1e-5, rtol=1e-5, **info)
    # colours: convex combination of the fragment colours of this pixel and the background
    big = torch.full_like(col, -1e9)
    hi = torch.maximum(torch.where(valid[..., None], col, big).max(-2).values, bgd.float())
    lo = torch.minimum(torch.where(valid[..., None], col, -big).min(-2).values, bgd.float())
    c.check(bool(((out[..., :3] <= hi + 1e-5) & (out[..., :3] >= lo - 1e-5)).all()), "a colour outside the convex hull of fragments and background", out=out, **info)
    # float32 rounding of depths, worth |dz| / gamma in the exponent; judged where that is small
    zr = float(torch.as_tensor(zf).max() / (torch.as_tensor(zf) - torch.as_tensor(zn)).min()) * 3e-7
    xmax = (fr.dists.double().abs() / sigma).clamp(max=700)
    relerr = zr / gamma + 1e-6 * xmax.where(valid, torch.zeros_like(xmax)).amax(-1)
    judged = cov & (relerr < 5e-3)
    tol = (1e-5 + 6 * relerr[..., None].expand_as(out[..., :3])[judged])
    c.close(out[..., :3][judged], want[..., :3][judged], "colour", atol=tol, rtol=1e-5, **info)
    c.count("judged", judged.sum())
    c.count("background_pixels", (~cov).sum())
    c.count("covered_pixels", cov.sum())
    c.count("extreme", sigma < 1e-6 or gamma < 1e-6 or sigma > 1 or gamma > 1)
    c.count("tensor_planes", pl in ("one", "each"))
    tot = w.sum(-1)
    c.count("mixed_weights", ((tot > 0.05 * delta[..., 0]) & (delta[..., 0] > 0.05 * tot) & judged).sum())
    # with a vanishing gamma the nearest certain fragment wins
    c.sig(tuple(fr.pix_to_face.shape), m, k, pl, *(round(torch.log10(torch.tensor(v)).item()) for v in (sigma, gamma)))


@monitor(quick=400, thorough=20000, need=("slots",))
def empty_slots(c):
    """Adding empty slots, or changing what stands in them, changes nothing; pixels are independent."""
    from pytorch3d.renderer.blending import BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend
    fr, valid, m = fragments(c)
    col = colours(c, fr)
    bg, bgd, k = background(c)
    bp = BlendParams(sigma=mag(c, -5, 0), gamma=mag(c, -5, 0), **({} if bg is None else dict(background_color=bg)))
    n = c.i(1, 3)
    pad = lambda t, v: torch.cat([t, torch.full((*t.shape[:3], n, *t.shape[4:]), v, dtype=t.dtype)], 3)
    f2 = dataclasses.replace(fr, pix_to_face=pad(fr.pix_to_face, -1), zbuf=pad(fr.zbuf, -1.0), dists=pad(fr.dists, -1.0), bary_coords=pad(fr.bary_coords, -1.0))
    c2 = pad(col, c.pick(0.0, 3.0))
    other = c.rand(*col.shape)
    c3 = torch.where(valid[..., None], col, other)
    for fn in (hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend):
        a = fn(col, fr, bp)
        sl = slice(3, 4) if fn is sigmoid_alpha_blend else slice(0, 4)
        c.close(fn(c2, f2, bp)[..., sl], a[..., sl], f"{fn.__name__} with more empty slots", atol=1e-6, rtol=1e-6)
        c.close(fn(c3, fr, bp)[..., sl], a[..., sl], f"{fn.__name__} with other colours in empty slots", atol=0, rtol=0)
        h, w, i = c.i(0, a.shape[1] - 1), c.i(0, a.shape[2] - 1), c.i(0, a.shape[0] - 1)
        one = type(fr)(*[getattr(fr, n)[i:i + 1, h:h + 1, w:w + 1] for n in ("pix_to_face", "zbuf", "bary_coords", "dists")])
        c.close(fn(col[i:i + 1, h:h + 1, w:w + 1], one, bp)[0, 0, 0], a[i, h, w], f"{fn.__name__} of one pixel alone", atol=1e-6, rtol=1e-6)
    c.count("slots", n)
    c.sig(tuple(fr.pix_to_face.shape), n, m, k)
