"""Mesh rasterization against a float64 brute-force reference."""
import torch
from checks.c13 import make, project, to_ndc
from lib import gen
from lib.harness import monitor
from lib.raster import D, judge

RULE = ("mesh batches (random soups, closed meshes, slivers, degenerate and duplicate faces, faces behind the camera, empty meshes, meshes covering or missing the image) x image sizes "
        "(square, tall, wide, 1 pixel) x blur radius x faces per pixel x perspective correction x clipping x culling; direct and through MeshRasterizer with every camera model; "
        "distinct = distinct (settings, image size, batch composition)")
ASSUMPTIONS = ["where float32 rounding decides whether a pixel centre is covered, either answer is accepted; such cases are counted as ambiguous",
               "a face with a vertex at or behind the camera plane is not drawn unless it is clipped (C16), as the code documents"]


def ndc_mesh(c):
    """Vertices in NDC with depth."""
    k = c.pick("soup", "soup", "big", "small", "closed", "sliver", "degenerate", "dup", "behind", "grid", "empty")
    if k == "empty":
        return k, torch.zeros(0, 3), torch.zeros(0, 3, dtype=torch.int64)
    if k == "closed":
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico"))
        v = v - v.mean(0)
        v = v / v.abs().max() * c.u(0.2, 1.2)
        v[:, 2] += c.u(1.5, 5)
        return k, v, f
    nv, nf = c.i(3, 12), c.i(1, 16)
    v = torch.cat([c.randn(nv, 2) * c.u(0.3, 1.2), c.rand(nv, 1, lo=0.2, hi=5)], 1)
    if k == "big":
        v[:, :2] *= 8
    if k == "small":
        v[:, :2] = v[:, :2] * 0.05 + c.randn(1, 2) * 0.5
    f = torch.stack([torch.tensor(c.perm(nv)[:3]) for _ in range(nf)])
    if k == "sliver":
        v[:, 1] = v[:, 1] * 0.01 + 0.3 * v[:, 0]
    if k == "degenerate":
        f[:: 2, 1] = f[:: 2, 0]
        v[0] = v[-1]
    if k == "dup":
        f = torch.cat([f, f[: c.i(1, nf)], f[: 1][:, [1, 2, 0]]])
        if c.p(0.5):
            v[:, 2] = float(v[0, 2])
    if k == "behind":
        s = c.p(0.5)
        v[:, 2] -= 2.5
        if s:
            v[:, 2] = -v[:, 2].abs() - 0.1
        v[:, 2] = torch.where(v[:, 2].abs() < 0.05, torch.full_like(v[:, 2], 0.1), v[:, 2])
    if k == "grid":  # vertices on pixel centres and image corners
        v[:, :2] = torch.round(v[:, :2] * 4) / 4
    return k, v, f


def settings(c):
    H, W = c.pick((6, 6), (1, 1), (c.i(1, 9), c.i(1, 9)), (c.i(4, 10),) * 2, (12, 5), (5, 13))
    blur = c.pick(0.0, 0.0, 10 ** c.u(-6, -1), c.u(0, 0.5))
    return H, W, blur, c.i(1, 6), c.p(0.5), c.p(0.5), c.p(0.3)


@monitor(quick=2400, thorough=100000, need=("fragments", "inside", "blurred", "overfull", "nonsquare", "empty_mesh"))
def direct(c):
    from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
    from pytorch3d.structures import Meshes
    N = c.i(1, 3)
    parts = [ndc_mesh(c) for _ in range(N)]
    V, F = [p[1] for p in parts], [p[2] for p in parts]
    H, W, blur, K, persp, clip, cull = settings(c)
    m = Meshes(V, F)
    size = c.pick((H, W), [H, W], H) if H == W else c.pick((H, W), [H, W])
    kinds = tuple(p[0] for p in parts)
    info = dict(H=H, W=W, blur=blur, K=K, persp=persp, clip=clip, cull=cull, kinds=kinds)
    v0 = m.verts_packed().clone()
    kw = dict(bin_size=0) if c.p(0.5) else {}
    if not sum(map(len, V)):
        return
    out = rasterize_meshes(m, image_size=size, blur_radius=blur, faces_per_pixel=K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull, **kw)
    c.check(bool((m.verts_packed() == v0).all()), "the rasterizer changed the vertices", **info)
    first, tot = [], 0
    for f in F:
        first.append(tot)
        tot += len(f)
    tris = [v[f] if len(f) else torch.zeros(0, 3, 3) for v, f in zip(V, F)]
    judge(c, out, tris, first, H, W, K, blur, persp, clip, cull, "rasterize_meshes", info=info)
    c.count("nonsquare", H != W)
    c.count("empty_mesh", "empty" in kinds)
    c.sig(kinds, H, W, K, persp, clip, cull, blur > 0)


@monitor(quick=60, thorough=2500, need=("fragments",))
def python_version(c):
    from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes_python
    from pytorch3d.structures import Meshes
    parts = [ndc_mesh(c) for _ in range(c.i(1, 2))]
    V, F = [p[1] for p in parts], [p[2][:6] for p in parts]
    if not sum(map(len, F)):
        return
    H, W, blur, K, persp, clip, cull = settings(c)
    H, W = min(H, 5), min(W, 5)
    out = rasterize_meshes_python(Meshes(V, F), image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp,
                                  clip_barycentric_coords=clip, cull_backfaces=cull, cull_to_frustum=False)
    first = [0, len(F[0])]
    tris = [v[f] if len(f) else torch.zeros(0, 3, 3) for v, f in zip(V, F)]
    judge(c, out, tris, first, H, W, K, blur, persp, clip, cull, "rasterize_meshes_python", info=dict(H=H, W=W, blur=blur, K=K, kinds=[p[0] for p in parts]))
    c.sig(tuple(p[0] for p in parts), H, W, K, persp, clip, cull, blur > 0)


@monitor(quick=1200, thorough=50000, need=("fragments", "inside", "fovp", "fovo", "persp", "ortho", "screen_cam", "one_camera"))
def rasterizer(c):
    """World meshes through a camera: the fragments are those of the projected faces, with depth in view units."""
    from pytorch3d.renderer import MeshRasterizer, RasterizationSettings
    from pytorch3d.structures import Meshes
    N = c.i(1, 3)
    o = make(c, n=c.pick(1, N))
    if o.n not in (1, N):
        return
    H, W, blur, K, persp, clip, cull = settings(c)
    if not o.ndc and o.image is not None:
        # a screen-space camera: the image it is defined for (one size for the whole batch)
        H, W = c.pick((H, W), tuple(int(x) for x in (o.image[0] / o.image[0].max() * 10).ceil().clamp(min=1)))
    V, F, tris, first, tot = [], [], [], [], 0
    for n in range(N):
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico", "soup"), empty=0.1)
        b = min(n, o.n - 1)
        if len(v):
            v = v - v.mean(0)
            v = v / v.abs().max() * c.u(0.3, 1.0)
            v[:, 2] += c.u(1.6, 5)
            v[:, :2] += c.randn(1, 2) * 0.3
            v = ((v.double() - o.T[b]) @ o.R[b].T).float()
        V.append(v), F.append(f)
        view = v.double() @ o.R[b] + o.T[b]
        ndc = project(o.K[b:b + 1], view[None])
        sub = type(o)()
        sub.__dict__.update(o.__dict__)
        for k in ("K", "image"):
            if getattr(o, k, None) is not None:
                setattr(sub, k, getattr(o, k)[b:b + 1])
        ndc = to_ndc(sub, ndc)[0]
        t = torch.cat([ndc[:, :2], view[:, 2:]], 1)
        tris.append(t[f] if len(f) else torch.zeros(0, 3, 3, dtype=D))
        first.append(tot)
        tot += len(f)
    if not len(torch.cat(V)):
        return
    kw = {}
    is_p = o.model in ("fovp", "persp")
    if c.p(0.6):
        kw["perspective_correct"] = persp
    else:
        persp = is_p
    if c.p(0.6):
        kw["clip_barycentric_coords"] = clip
    else:
        clip = blur > 0
    rs = RasterizationSettings(image_size=c.pick((H, W), H) if H == W else (H, W), blur_radius=blur, faces_per_pixel=K, cull_backfaces=cull, **kw)
    m = Meshes(V, F)
    if c.p(0.5):
        r = MeshRasterizer(cameras=o.real, raster_settings=rs)
        fr = r(m)
    else:
        r = MeshRasterizer(raster_settings=c.pick(None, rs))
        fr = r(m, cameras=o.real, raster_settings=rs)
    # accuracy of the float32 projection, relative to coordinates (screen cameras go through large pixel values)
    pp = float(o.K[:, :2, :].abs().max()) / float(min(o.K[:, 0, 0].abs().min(), o.K[:, 1, 1].abs().min()))
    cerr = 2e-6 * (1 + pp)
    info = dict(forms=o.forms, H=H, W=W, blur=blur, K=K, persp=persp, clip=clip, cull=cull)
    judge(c, (fr.pix_to_face, fr.zbuf, fr.bary_coords, fr.dists), tris, first, H, W, K, blur, persp, clip, cull, "MeshRasterizer", cerr=cerr, info=info)
    c.count(o.model)
    c.count("screen_cam", not o.ndc)
    c.count("one_camera", o.n == 1 and N > 1)
    c.sig(*o.forms, H, W, K, persp, clip, cull, blur > 0)
