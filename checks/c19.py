"""Interpolation of face attributes and texture sampling at rasterized pixels, against float64 references."""
import torch
from checks.c08 import D, bilinear, build, colour, hw_of, make_model, options
from lib.harness import monitor

RULE = ("pix_to_face with missing slots (NaN and -1 barycentrics there), strided tensors, faces of several meshes x attribute widths and dtypes; textured batches x fragments from the real rasterizer and "
        "synthetic ones x texture kind, sampling, padding, alignment and several maps; images sampled at NDC positions; distinct = distinct (kind, options, shapes)")
ASSUMPTIONS = ["barycentrics of sampled pixels are non-negative (as with clip_barycentric_coords, the default with blur)",
               "samples within 1e-3 of a texel rounding boundary are not compared for nearest / atlas lookups",
               "UV textures sample the map also at uncovered pixels; only vertex and atlas textures return zero there, and the shaders ignore it"]


@monitor(quick=3000, thorough=150000, need=("covered", "uncovered", "nan", "strided", "float64"))
def attributes(c):
    from pytorch3d.ops.interp_face_attrs import interpolate_face_attributes, interpolate_face_attributes_python
    N, H, W, K = c.i(1, 3), c.i(1, 6), c.i(1, 6), c.i(1, 4)
    F, C = c.i(1, 10), c.i(1, 7)
    dt = c.pick(torch.float32, torch.float32, D)
    p2f = c.randint(0, F, (N, H, W, K))
    empty = c.rand(N, H, W, K) < c.pick(0.0, 0.3, 1.0)
    p2f[empty] = -1
    b = c.randn(N, H, W, K, 3, dtype=dt)
    nan = c.p(0.2)
    b[empty] = float("nan") if nan else -1.0
    att = c.randn(F, 3, C, dtype=dt)
    a_p, a_b, a_att = p2f, b, att
    strided = c.p(0.4)
    if strided:
        a_b = b.permute(4, 3, 2, 1, 0).contiguous().permute(4, 3, 2, 1, 0)
        a_att = att.transpose(0, 2).contiguous().transpose(0, 2)
        a_p = p2f.permute(3, 0, 2, 1).contiguous().permute(1, 3, 2, 0)
    fn = c.pick(interpolate_face_attributes, interpolate_face_attributes_python)
    got = fn(a_p, a_b, a_att)
    v = att.double()[p2f.clamp(min=0)]
    want = (v * torch.where(empty[..., None], torch.zeros_like(b), b).double()[..., None]).sum(-2)
    c.close(got, want, "interpolated attributes", atol=2e-5, rtol=1e-4, strided=strided, nan=nan)
    c.check(got.dtype == dt, f"dtype {got.dtype}")
    c.equal(a_p, p2f, "pix_to_face changed")
    c.count("covered", (~empty).sum()), c.count("uncovered", empty.sum())
    c.count("nan", nan and bool(empty.any())), c.count("strided", strided), c.count("float64", dt == D)
    c.sig(N, H, W, K, F, C, dt, strided, nan, int(empty.sum()))


def fill(c, ms, kind):
    """Fragments over the batch, real or synthetic."""
    from pytorch3d.renderer.mesh.rasterizer import Fragments
    from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
    from pytorch3d.structures import Meshes
    H, W, K = c.i(1, 8), c.i(1, 8), c.i(1, 3)
    nf = [len(m["faces"]) for m in ms]
    if kind == "raster":
        vs = []
        for m in ms:
            v = m["verts"].clone()
            v[:, :2] = (v[:, :2] - v[:, :2].mean(0)) / (v[:, :2].std() + 0.1) * 0.7
            v[:, 2] = v[:, 2] - v[:, 2].min() + 1
            vs.append(v)
        blur = c.pick(0.0, 0.05)
        return Fragments(*rasterize_meshes(Meshes(vs, [m["faces"] for m in ms]), image_size=(H, W), faces_per_pixel=K, blur_radius=blur,
                                           clip_barycentric_coords=True, perspective_correct=c.p(0.5)))
    N = len(ms)
    p = torch.full((N, H, W, K), -1, dtype=torch.int64)
    off = 0
    for n in range(N):
        if nf[n]:
            p[n] = off + c.randint(0, nf[n], (H, W, K))
        off += nf[n]
    p[c.rand(N, H, W, K) < 0.25] = -1
    b = c.rand(N, H, W, K, 3) + 1e-3
    k = c.randint(0, 3, (N, H, W, K, 1))
    b = torch.where(c.rand(N, H, W, K, 1) < 0.1, torch.zeros_like(b).scatter(-1, k, 1.0), b / b.sum(-1, keepdim=True))
    b = torch.where(p[..., None] < 0, torch.full_like(b, -1), b)
    z = torch.zeros(N, H, W, K)
    return Fragments(p, z, b, z)


@monitor(quick=1200, thorough=50000, need=("samples", "raster", "synthetic", "uv", "vertex", "atlas", "multi", "mixed", "uncovered"))
def textures(c):
    o = options(c, multi=c.p(0.25))
    ms = make_model(c, o, c.i(1, 4))
    ms = [m for m in ms if len(m["faces"])]
    if not ms:
        return
    real = build(c, ms, o)
    kind = c.pick("raster", "synthetic")
    fr = fill(c, ms, kind)
    got = real.sample_textures(fr)
    N, H, W, K = fr.pix_to_face.shape
    C = o["C"]
    c.equal(tuple(got.shape), (N, H, W, K, C), "shape of the sampled textures", options=o)
    hw = hw_of(ms, o)
    off = 0
    for n, m in enumerate(ms):
        p = fr.pix_to_face[n]
        v = p >= 0
        if bool(v.any()):
            f, b = p[v] - off, fr.bary_coords[n][v].double()
            want, ok = colour(m, o, f, b, hw)
            c.close(got[n][v][ok], want[ok], f"colour of the pixels of image {n} ({o['kind']})", atol=3e-4, rtol=1e-3, options=o, fill=kind)
            c.count("samples", int(ok.sum()))
        if o["kind"] != "uv":
            c.check(bool((got[n][~v] == 0).all()), f"uncovered pixels of a {o['kind']} texture are not zero", options=o)
            c.count("uncovered", int((~v).sum()))
        off += len(m["faces"])
    c.count(kind), c.count(o["kind"]), c.count("multi", bool(o["multi"])), c.count("mixed", o["mixed"])
    c.sig(kind, len(ms), H, W, K, tuple(sorted((k, str(v)) for k, v in o.items())))


@monitor(quick=1500, thorough=60000, need=("centres", "anywhere", "tall", "wide"))
def image_at_ndc(c):
    from pytorch3d.renderer import ndc_grid_sample, ndc_to_grid_sample_coords
    from lib.raster import pixel_centres
    B, C, H, W = c.i(1, 3), c.i(1, 4), c.i(1, 9), c.i(1, 9)
    img = c.randn(B, C, H, W)
    al = c.p(0.3) and H > 1 and W > 1
    pad, mode = c.pick("zeros", "border", "reflection"), c.pick("bilinear", "nearest")
    s = min(H, W)
    if c.p(0.4):
        px, py = pixel_centres(H, W)
        got = ndc_grid_sample(img, torch.stack([px, py], -1).float()[None].expand(B, -1, -1, -1), mode=mode, padding_mode=pad)
        c.close(got, img, "an image sampled at the NDC of its pixel centres", atol=2e-5 * max(H, W), H=H, W=W, mode=mode)
        c.count("centres")
        c.sig("centres", H, W, B, C, pad, mode)
        return
    shape = c.pick((4,), (3, 2), (2, 1, 2), ())
    xy = c.randn(B, *shape, 2)
    xy0 = xy.clone()
    got = ndc_grid_sample(img, xy, align_corners=al, mode=mode, padding_mode=pad)
    c.equal(xy, xy0, "the NDC grid changed")
    c.equal(tuple(got.shape), (B, C, *shape), "shape of the samples")
    # image position in [0, 1]: NDC +x is left, +y up, the shorter side spans [-1, 1]
    g = ndc_to_grid_sample_coords(xy, (H, W))
    u = (1 - xy.double()[..., 0] * s / W) / 2
    vv = (1 - xy.double()[..., 1] * s / H) / 2
    c.close(g, torch.stack([2 * u - 1, 2 * vv - 1], -1), "grid coordinates", atol=1e-5)
    for n in range(B):
        uv = torch.stack([u[n].reshape(-1), 1 - vv[n].reshape(-1)], -1)
        want, ok = bilinear(img[n].permute(1, 2, 0).double(), uv, dict(align=al, pad=pad, mode=mode))
        c.close(got[n].reshape(C, -1).T[ok], want[ok], "sampled image", atol=2e-4, rtol=1e-3, H=H, W=W, pad=pad, mode=mode, align=al)
    c.count("anywhere"), c.count("tall", H > W), c.count("wide", W > H)
    c.sig("any", H, W, B, C, pad, mode, al, shape)


@monitor(quick=300, thorough=10000, need=("centers",))
def map_positions(c):
    """TexturesUV.centers_for_image: pixel positions of the used texture vertices."""
    o = options(c)
    o.update(kind="uv", mixed=False, outside=False, align=True, mode="bilinear")
    ms = make_model(c, o, 1)
    t = ms[0]["tex"]
    H, W = t["map"].shape[:2]
    uv = t["uv"].double()
    c.close(build(c, ms, o).textures.centers_for_image(0), torch.stack([uv[:, 0] * (W - 1), (1 - uv[:, 1]) * (H - 1)], -1), "positions of the texture vertices in the map", atol=1e-3)
    c.count("centers")
    c.sig(H, W, len(uv), o["pad"])
