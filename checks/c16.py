"""Near-plane clipping and frustum culling against ray casting of the whole faces."""
import torch
from lib import gen
from lib.harness import monitor
from lib.raster import D, judge, clipped_faces

RULE = ("batches of meshes with every configuration of vertices before, on, behind the clipping plane and behind the camera x batch position x empty meshes x perspective / orthographic x blur x faces per "
        "pixel x back-face and frustum culling x image shapes, direct and through MeshRasterizer with cameras inside and next to meshes; distinct = distinct (settings, vertex configuration of the batch)")
ASSUMPTIONS = ["perspective meshes are rasterized with perspective correction and orthographic ones without, as the camera decides by default",
               "the distance of a pixel to a face that was cut is not judged (only its sign): the code measures to the outline of a part of the cut face"]


def cam_mesh(c, zc, persp):
    """A mesh in camera space around the plane z = zc; returned in NDC with depth."""
    k = c.pick("cross", "cross", "cross", "mixed", "front", "back", "empty", "closed")
    if k == "empty":
        return k, torch.zeros(0, 3), torch.zeros(0, 3, dtype=torch.int64)
    if k == "closed":
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico"))
        v = (v - v.mean(0)) / (v - v.mean(0)).abs().max() * c.u(0.5, 3)
        v[:, 2] += zc + c.u(-0.5, 1.5)
    else:
        nf = c.i(1, 6)
        v = c.randn(3 * nf, 3) * c.u(0.5, 2)
        f = torch.arange(3 * nf).reshape(nf, 3)
        lo = {"cross": -2, "mixed": -1, "front": 0.01, "back": -3}[k]
        hi = {"cross": 2, "mixed": 4, "front": 3, "back": -0.01}[k]
        v[:, 2] = zc + c.rand(3 * nf, lo=lo, hi=hi)
        if c.p(0.3):
            v[c.i(0, 3 * nf - 1), 2] = zc  # a vertex on the plane
    if persp:
        # away from z = 0, where the projection does not exist
        z = v[:, 2]
        v[:, 2] = torch.where(z.abs() < 0.02, torch.full_like(z, -0.05), z)
        if zc < 0.05:
            v[:, 2] = torch.where((v[:, 2] > 0) & (v[:, 2] < 0.05), torch.full_like(z, 0.06), v[:, 2])
        v = torch.cat([v[:, :2] / v[:, 2:], v[:, 2:]], 1)
    else:
        v[:, :2] *= 0.6
    return k, v, f


def settings(c):
    H, W = c.pick((6, 6), (8, 8), (c.i(1, 9), c.i(1, 9)), (12, 5), (5, 13), (1, 1))
    blur = c.pick(0.0, 0.0, 0.0, 10 ** c.u(-5, -1))
    return H, W, blur


@monitor(quick=3000, thorough=120000, need=("fragments", "inside", "crossing", "case2", "case3", "case4", "persp", "ortho", "frustum", "clipped_inside"))
def direct(c):
    from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
    from pytorch3d.structures import Meshes
    persp = c.p(0.65)
    zc = c.pick(0.02, 0.1, 0.5, 1.0, c.u(0.02, 2))
    N = c.i(1, 4)
    parts = [cam_mesh(c, zc, persp) for _ in range(N)]
    V, F = [p[1] for p in parts], [p[2] for p in parts]
    if not sum(map(len, V)):
        return
    H, W, blur = settings(c)
    K = c.pick(1, 2, 4, 8, 20)
    cull = c.p(0.25)
    clip = blur > 0 if c.p(0.7) else c.p(0.5)
    frustum = c.p(0.3) and blur == 0
    zc_arg = zc
    if frustum and c.p(0.3):  # culling alone
        zc_arg = None
        V = [torch.cat([v[:, :2], v[:, 2:].abs() + 0.05], 1) if len(v) else v for v in V]
        zc = 0.01
    kinds = tuple(p[0] for p in parts)
    info = dict(H=H, W=W, blur=blur, K=K, persp=persp, clip=clip, cull=cull, frustum=frustum, zc=zc, kinds=kinds)
    m = Meshes(V, F)
    kw = dict(image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull)
    out = rasterize_meshes(m, z_clip_value=zc_arg, cull_to_frustum=frustum, **kw)
    c.check(bool((m.verts_packed() == torch.cat(V)).all()), "clipping changed the vertices of the mesh", **info)
    first, tot = [], 0
    for f in F:
        first.append(tot)
        tot += len(f)
    tris = [v[f] if len(f) else torch.zeros(0, 3, 3) for v, f in zip(V, F)]
    judge(c, out, tris, first, H, W, K, blur, persp, clip, cull, "clipped rasterization", info=info, split_key="cut-face-blur-full-list",
          oracle=lambda t: clipped_faces(t, H, W, blur, persp, clip, cull, zc))
    t = torch.cat([t for t in tris if len(t)]) if tot else torch.zeros(0, 3, 3)
    nb = (t[..., 2] < zc).sum(1)
    for i in range(4):
        c.count(f"case{ {0: 1, 1: 4, 2: 3, 3: 2}[i]}", int((nb == i).sum()))
    cr = (nb == 1) | (nb == 2)
    c.count("crossing", int(cr.sum()))
    shown = out[0][out[0] >= 0]
    c.count("clipped_inside", int(cr[shown].sum()))
    if not bool(cr.any()) and not bool((nb == 3).any()):
        plain = rasterize_meshes(m, **kw)
        for a, b, w in zip(out, plain, ("faces", "depth", "barycentrics", "distances")):
            if frustum:
                c.close(a, b, f"{w} with culling to the frustum, nothing clipped", atol=1e-5, **info)
            else:
                c.equal(a, b, f"{w} with a clipping plane that cuts nothing", **info)
        c.count("nothing_clipped")
    c.count("frustum", frustum)
    c.count("persp" if persp else "ortho")
    c.sig(kinds, H, W, K, persp, clip, cull, frustum, blur > 0, tuple(nb.tolist()))


@monitor(quick=500, thorough=20000, need=("fragments", "crossing", "default_clip", "explicit_clip"))
def camera_in_the_scene(c):
    """MeshRasterizer with field-of-view cameras close to or inside the meshes; default clipping plane at half znear."""
    from pytorch3d.renderer import FoVPerspectiveCameras, MeshRasterizer, RasterizationSettings, PerspectiveCameras
    from pytorch3d.structures import Meshes
    from checks.c13 import rotations
    N = c.i(1, 3)
    R = rotations(c, N).float() if c.p(0.7) else torch.eye(3)[None].expand(N, 3, 3)
    T = c.randn(N, 3) * 0.3
    fov = c.u(30, 120)
    znear = c.pick(1.0, 0.1, c.u(0.05, 1.5))
    explicit = c.p(0.4)
    zc = c.u(0.03, 1.5) if explicit else znear / 2
    fp = c.p(0.8)
    if fp:
        cam = FoVPerspectiveCameras(R=R, T=T, fov=fov, znear=znear)
        s = 1 / torch.tan(torch.tensor(fov, dtype=D) * 3.141592653589793 / 360)
    else:
        explicit, zc = True, c.u(0.03, 1.5)
        s = torch.tensor(c.u(0.5, 2), dtype=D).float().double()
        cam = PerspectiveCameras(R=R, T=T, focal_length=float(s))
    V, F, tris, first, tot = [], [], [], [], 0
    for n in range(N):
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico", "soup", "tri"), empty=0.1)
        if len(v):
            v = (v - v.mean(0)) * c.u(0.5, 2)
        view = v.double() @ R[n].double() + T[n].double()
        V.append(v), F.append(f), first.append(tot)
        tot += len(f)
        t = torch.cat([view[:, :2] * s / view[:, 2:], view[:, 2:]], 1)
        tris.append(t[f] if len(f) else torch.zeros(0, 3, 3, dtype=D))
    if not tot or min(float(t[..., 2].abs().min()) for t in tris if len(t)) < 0.02:
        return
    H, W, blur = settings(c)
    K, cull = c.i(1, 5), c.p(0.25)
    kw = dict(z_clip_value=zc) if explicit else {}
    frustum = c.p(0.3) and blur == 0
    rs = RasterizationSettings(image_size=(H, W), blur_radius=blur, faces_per_pixel=K, cull_backfaces=cull, cull_to_frustum=frustum, **kw)
    fr = MeshRasterizer(cameras=cam, raster_settings=rs)(Meshes(V, F))
    clip = blur > 0
    info = dict(H=H, W=W, blur=blur, K=K, cull=cull, zc=zc, frustum=frustum, fov=fov)
    judge(c, (fr.pix_to_face, fr.zbuf, fr.bary_coords, fr.dists), tris, first, H, W, K, blur, True, clip, cull, "MeshRasterizer near the camera", info=info, split_key="cut-face-blur-full-list",
          oracle=lambda t: clipped_faces(t, H, W, blur, True, clip, cull, zc, cerr=2e-6), cerr=2e-6)
    nb = torch.cat([(t[..., 2] < zc).sum(1) for t in tris])
    c.count("crossing", int(((nb == 1) | (nb == 2)).sum()))
    c.count("explicit_clip" if explicit else "default_clip")
    c.sig(H, W, K, cull, frustum, blur > 0, explicit, tuple(nb.tolist()))


@monitor(quick=200, thorough=4000, need=("fragments",))
def python_version(c):
    from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes_python
    from pytorch3d.structures import Meshes
    persp, zc = c.p(0.65), c.u(0.05, 1.5)
    parts = [cam_mesh(c, zc, persp) for _ in range(c.i(1, 2))]
    V, F = [p[1] for p in parts], [p[2][:4] for p in parts]
    if not sum(map(len, F)):
        return
    H, W, blur = c.i(1, 5), c.i(1, 5), c.pick(0.0, 0.0, 0.01)
    K, cull, frustum = c.i(1, 4), c.p(0.25), blur == 0 and c.p(0.4)
    out = rasterize_meshes_python(Meshes(V, F), image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp,
                                  clip_barycentric_coords=blur > 0, cull_backfaces=cull, z_clip_value=zc, cull_to_frustum=frustum)
    tris = [v[f] if len(f) else torch.zeros(0, 3, 3) for v, f in zip(V, F)]
    judge(c, out, tris, [0, len(F[0])], H, W, K, blur, persp, blur > 0, cull, "rasterize_meshes_python with clipping", split_key="cut-face-blur-full-list",
          info=dict(H=H, W=W, blur=blur, K=K, persp=persp, cull=cull, frustum=frustum, zc=zc),
          oracle=lambda t: clipped_faces(t, H, W, blur, persp, blur > 0, cull, zc))
    c.sig(tuple(p[0] for p in parts), H, W, K, persp, cull, frustum, blur > 0)
