"""Camera construction (look-at), format conversions, and indexing / joining / cloning of camera batches."""
import math

import torch
from checks.c13 import D, make, rotations
from lib import gen
from lib.harness import monitor

NATIVE = False
RULE = ("look-at arguments (scalar, tensor, list; degrees and radians; eye or spherical) x targets x up vectors; OpenCV and Pulsar conversions x image sizes x intrinsics; "
        "all camera models x index kinds, joins, clones, in-place edits of accessors; distinct = distinct (operation, argument forms, batch sizes, sizes)")
ASSUMPTIONS = ["the up vector is at least 2 degrees away from the viewing direction",
               "conversion to OpenCV is judged for cameras defined in NDC space, the case it documents",
               "fish-eye cameras declare no consistent field list and refuse indexing and joining; they are not indexed here"]


def unit(x):
    return x / x.norm(dim=-1, keepdim=True)


def look_at_oracle(C, at, up):
    z = unit(at - C)
    x = unit(torch.linalg.cross(up, z, dim=1))
    y = torch.linalg.cross(z, x, dim=1)
    return torch.stack([x, y, z], 2)  # columns: camera axes in the world; row-vector convention


def arg(c, n, lo, hi, forms):
    """scalar-like batch argument"""
    k = c.pick("py", "t0", "t1", "tn", "list")
    forms.append(k)
    if k in ("py", "t0"):
        v = c.u(lo, hi)
        return (v if k == "py" else torch.tensor(v)), torch.full((n,), v, dtype=D)
    m = 1 if k == "t1" else n
    v = c.rand(m, lo=lo, hi=hi)
    return (v.tolist() if k == "list" else v), v.double().expand(n)


def vec(c, n, forms, scale=1.0, unit_ish=False):
    k = c.pick("one", "each", "tuple")
    forms.append(k)
    m = n if k == "each" else 1
    v = c.randn(m, 3) * scale
    if unit_ish:
        v = torch.nn.functional.normalize(v, dim=1) * c.u(0.2, 5)
    return (tuple(map(tuple, v.tolist())) if k == "tuple" else v), v.double().expand(n, 3)


def judge_pose(c, R, T, C, at, up, **info):
    N = C.shape[0]
    c.check(tuple(R.shape) == (N, 3, 3) and tuple(T.shape) == (N, 3), f"shapes {tuple(R.shape)} {tuple(T.shape)} for {N} cameras", **info)
    Rd, Td = R.double(), T.double()
    s = 1 + float(C.abs().max())
    c.close(Rd @ Rd.transpose(1, 2), torch.eye(3, dtype=D).expand(N, 3, 3), "R is orthogonal", atol=2e-4, **info)
    c.close(torch.linalg.det(Rd), torch.ones(N, dtype=D), "R is proper", atol=2e-4, **info)
    c.close((C[:, None] @ Rd)[:, 0] + Td, torch.zeros(N, 3), "the camera centre maps to the origin", atol=3e-4 * s, **info)
    a = (at[:, None] @ Rd)[:, 0] + Td
    d = (at - C).norm(dim=1)
    c.close(a, torch.stack([0 * d, 0 * d, d], 1), "the target lies on the optical axis at its distance", atol=5e-4 * s, **info)
    u = (up[:, None] @ Rd)[:, 0] / up.norm(dim=1, keepdim=True)
    c.close(u[:, 0], 0 * d, "the up direction has no sideways part", atol=2e-3, **info)
    c.check(bool((u[:, 1] > 0).all()), "the up direction points up", **info)
    c.close(Rd, look_at_oracle(C, at, up), "R", atol=3e-3, **info)
    c.count("poses", N)


@monitor(quick=1200, thorough=60000, need=("poses", "spherical", "eye", "rotation", "position", "eye_at_up"))
def look_at(c):
    from pytorch3d.renderer.camera_utils import camera_to_eye_at_up
    from pytorch3d.renderer.cameras import (FoVPerspectiveCameras, camera_position_from_spherical_angles, look_at_rotation, look_at_view_transform)
    n = c.i(1, 4)
    forms = [n]
    deg = c.p(0.5)
    akw, at = {}, torch.zeros(n, 3, dtype=D)
    ukw, up = {}, torch.tensor([[0.0, 1, 0]], dtype=D).expand(n, 3)
    if c.p(0.6):
        akw["at"], at = vec(c, n, forms)
    if c.p(0.5):
        ukw["up"], up = vec(c, n, forms, unit_ish=True)
    mode = c.pick("spherical", "eye", "rotation", "position")
    c.count(mode)
    forms.append(mode)
    if mode in ("spherical", "position"):
        k = 1 if deg else math.pi / 180
        dist, d = arg(c, n, 0.3, 10, forms)
        elev, e = arg(c, n, -180 * k, 180 * k, forms)
        azim, a = arg(c, n, -400 * k, 400 * k, forms)
        if deg:
            e, a = e * math.pi / 180, a * math.pi / 180
        off = torch.stack([d * e.cos() * a.sin(), d * e.sin(), d * e.cos() * a.cos()], 1)
        if mode == "position":
            got = camera_position_from_spherical_angles(dist, elev, azim, degrees=deg)
            N = got.shape[0]
            c.close(got, off[:N], "camera position from spherical angles", atol=1e-4 * (1 + float(d.max())), forms=forms)
            c.sig("position", deg, *forms)
            return
        C = off + at
    else:
        e_arg, C = vec(c, n, forms, 3.0)
    z = unit(at - C)
    sep = torch.linalg.cross(unit(up), z, dim=1).norm(dim=1)
    if bool((sep < 0.035).any()) or bool(((at - C).norm(dim=1) < 0.2).any()):
        c.count("skipped_degenerate")
        return
    info = dict(forms=forms, center=C, target=at, upv=up, deg=deg)
    if mode == "spherical":
        R, T = look_at_view_transform(dist, elev, azim, degrees=deg, **akw, **ukw)
    elif mode == "eye":
        R, T = look_at_view_transform(eye=e_arg, **akw, **ukw)
    else:
        R = look_at_rotation(e_arg, **akw, **ukw)
        T = -(R.transpose(1, 2) @ C[:R.shape[0], :, None].float())[:, :, 0]
    N = R.shape[0]
    C, at, up = C[:N], at[:N], up[:N]
    judge_pose(c, R, T, C, at, up, **info)
    cam = FoVPerspectiveCameras(R=R, T=T)
    c.close(cam.get_camera_center(), C, "camera centre", atol=3e-4 * (1 + float(C.abs().max())), **info)
    eye, at2, up2 = camera_to_eye_at_up(cam.get_world_to_view_transform())
    zz = unit(at - C)
    c.close(eye, C, "eye of camera_to_eye_at_up", atol=3e-4 * (1 + float(C.abs().max())), **info)
    c.close(at2, C + zz, "at is one unit in front of the camera", atol=1e-3 * (1 + float(C.abs().max())), **info)
    c.close(up2, look_at_oracle(C, at, up)[:, :, 1], "up of camera_to_eye_at_up", atol=3e-3, **info)
    R2, T2 = look_at_view_transform(eye=eye, at=at2, up=up2)
    c.close(R2, R, "rebuilding the camera from eye, at, up", atol=5e-3, **info)
    c.close(T2, T, "rebuilding the camera from eye, at, up", atol=1e-2 * (1 + float(C.abs().max())), **info)
    c.count("eye_at_up")
    c.sig(mode, deg, *forms)


@monitor(quick=600, thorough=20000, need=("spots",))
def rotate_in_place(c):
    from pytorch3d.renderer.camera_utils import rotate_on_spot
    n = c.i(1, 3)
    R, T = rotations(c, n).float(), c.randn(n, 3) * 2
    k = c.pick("one", "each", "flat")
    rot = rotations(c, n if k == "each" else 1).float()
    flat = c.p(0.3) and n == 1
    R2, T2 = rotate_on_spot(R[0] if flat else R, T[0] if flat else T, rot[0] if k == "flat" else rot)
    Rd, Td, rd = R.double(), T.double(), rot.double()
    C = -(Td[:, None] @ Rd.transpose(1, 2))[:, 0]
    C2 = -(T2.double()[:, None] @ R2.double().transpose(1, 2))[:, 0]
    c.close(C2, C.expand_as(C2), "the camera centre stays", atol=1e-4, R=R, T=T, rot=rot)
    p = c.randn(5, 3, dtype=D)
    want = (p @ Rd + Td[:, None]) @ rd.transpose(1, 2)  # the old view, then rotated about the camera
    c.close(p @ R2.double() + T2.double()[:, None], want, "view after rotating on the spot", atol=1e-4, R=R, T=T, rot=rot)
    c.count("spots", n)
    c.sig(n, k, flat)


@monitor(quick=900, thorough=40000, need=("to_p3d", "to_cv", "pulsar", "nonsquare"))
def opencv(c):
    from pytorch3d.renderer import PerspectiveCameras
    from pytorch3d.utils import (cameras_from_opencv_projection, opencv_from_cameras_projection, pulsar_from_cameras_projection, pulsar_from_opencv_projection)
    n = c.i(1, 4)
    same = c.p(0.5)
    h = c.randint(4, 600, (n, 1))
    w = c.randint(4, 600, (n, 1))
    if same:
        h, w = h[:1].expand(n, 1), w[:1].expand(n, 1)
    im = torch.cat([h, w], 1)
    if c.p(0.2):
        im[:, 1] = im[:, 0]
    imd = im.double()
    c.count("nonsquare", bool((imd[:, 0] != imd[:, 1]).any()))
    R = rotations(c, n).float()
    t = c.randn(n, 3) * 2
    K = torch.zeros(n, 3, 3)
    f = c.rand(n, 2, lo=0.3, hi=3) * im.float().min(1, keepdim=True).values
    if c.p(0.4):
        f[:, 1] = f[:, 0]
    K[:, 0, 0], K[:, 1, 1] = f.unbind(1)
    K[:, 0, 2] = im[:, 1] * c.rand(n)
    K[:, 1, 2] = im[:, 0] * c.rand(n)
    K[:, 2, 2] = 1
    info = dict(im=im, R=R, t=t, K=K)
    P = c.i(1, 6)
    v = torch.cat([c.randn(n, P, 2), c.rand(n, P, 1, lo=0.5, hi=6)], 2).double()
    world = ((v - t.double()[:, None]) @ R.double()).float()
    Kd, Rd, td = K.double(), R.double(), t.double()
    vd = world.double() @ Rd.transpose(1, 2) + td[:, None]
    px = vd @ Kd.transpose(1, 2)
    px = px[..., :2] / px[..., 2:]
    tol = dict(atol=2e-4 * (float(px.abs().max()) + float(imd.max())), rtol=2e-4)
    R0, t0, K0 = R.clone(), t.clone(), K.clone()
    cams = cameras_from_opencv_projection(R, t, K, im if c.p(0.5) else im.float())
    scr = cams.transform_points_screen(world)
    c.close(scr[..., :2], px, "pixels of the converted camera", **tol, **info)
    s2 = cams.transform_points_screen(world, image_size=im)
    c.close(s2[..., :2], px, "pixels of the converted camera (given image size)", **tol, **info)
    c.close(cams.get_world_to_view_transform().transform_points(world)[..., 2], vd[..., 2], "depth", atol=2e-4, rtol=1e-4, **info)
    c.close(cams.get_image_size(), imd, "image size", **info)
    c.check(bool((R == R0).all() and (t == t0).all() and (K == K0).all()), "the arguments changed", **info)
    c.count("to_p3d", n)
    # any NDC camera to OpenCV
    k = c.pick("round", "own", "own")
    if k == "own":
        cams = PerspectiveCameras(R=rotations(c, n).float(), T=c.randn(n, 3), focal_length=c.rand(n, 2, lo=0.5, hi=3), principal_point=c.randn(n, 2) * 0.3)
    r2, t2, k2 = opencv_from_cameras_projection(cams, im)
    if k == "round":
        c.close(r2, R, "R round trip", **info)
        c.close(t2, t, "tvec round trip", **info)
        c.close(k2, K, "camera matrix round trip", atol=1e-4 * float(imd.max()), **info)
    vv = torch.cat([c.randn(n, P, 2), c.rand(n, P, 1, lo=0.5, hi=6)], 2).double()
    pw = ((vv - cams.T.double()[:, None]) @ cams.R.double().transpose(1, 2)).float()
    want = cams.transform_points_screen(pw, image_size=im)[..., :2]
    q = (pw.double() @ r2.double().transpose(1, 2) + t2.double()[:, None]) @ k2.double().transpose(1, 2)
    c.close(q[..., :2] / q[..., 2:], want, "OpenCV pixels of a PyTorch3D camera", atol=3e-4 * (float(want.abs().max()) + float(imd.max())), **info)
    c.count("to_cv", n)
    # Pulsar: (position, 6D rotation, focal, sensor width, principal point)
    if bool((imd == imd[:1]).all()):
        znear = c.pick(0.1, c.u(0.01, 2))
        if c.p(0.5):
            K[:, 1, 1] = K[:, 0, 0]
        tt = t[..., None] if c.p(0.3) else t
        par = pulsar_from_opencv_projection(R, tt, K, im, znear=znear)
        H, W = imd[0].tolist()
        Rt = Rd.transpose(1, 2)
        c.close(par[:, :3], -(Rt @ td[..., None])[..., 0], "pulsar position", atol=1e-4, **info)
        c.close(par[:, 3:9], Rt[:, :2].reshape(n, 6), "pulsar rotation", atol=1e-5, **info)
        fm = (K[:, 0, 0] + K[:, 1, 1]).double() / 2
        c.close(par[:, 9] / par[:, 10], fm / W, "pulsar focal length to sensor width", **info)
        c.check(bool((par[:, 9] <= znear).all()) and bool((par[:, 9] > znear - 1e-3).all()), "pulsar focal length just below znear", par=par, znear=znear)
        c.close(par[:, 11], -(K[:, 0, 2].double() - W / 2), "pulsar principal point x", atol=1e-3, **info)
        c.close(par[:, 12], K[:, 1, 2].double() - H / 2, "pulsar principal point y", atol=1e-3, **info)
        par2 = pulsar_from_cameras_projection(cams, im)
        par3 = pulsar_from_opencv_projection(r2, t2, k2, im)
        c.close(par2, par3, "pulsar parameters via OpenCV", **info)
        c.count("pulsar")
    else:
        c.raises(Exception, lambda: pulsar_from_opencv_projection(R, t, K, im), "images of different sizes must be rejected")
    c.sig(n, same, k, P)


def proj(cam, pts, image):
    return cam.transform_points_screen(pts, image_size=image), cam.get_world_to_view_transform().transform_points(pts)


@monitor(quick=900, thorough=40000, need=("indexed", "joined", "cloned", "rejected"))
def batches(c):
    from pytorch3d.renderer.camera_utils import join_cameras_as_batch
    o = make(c)
    cam, n = o.real, o.n
    info = dict(forms=o.forms)
    pts = torch.cat([c.randn(n, 4, 2), c.rand(n, 4, 1, lo=1, hi=5)], 2).double()
    pts = ((pts - o.T[:, None]) @ o.R.transpose(1, 2)).float()
    image = torch.tensor([[c.i(8, 300), c.i(8, 300)] for _ in range(n)]) if o.image is None else o.image.float()
    base, view = proj(cam, pts, image)

    def same(sub, ids, what):
        c.equal(len(sub), len(ids), f"{what}: number of cameras", **info)
        if not ids:
            return
        c.check(type(sub) is type(cam), f"{what}: type", **info)
        g, v = proj(sub, pts[ids], image[ids])
        c.close(g, base[ids], f"{what}: projected points", atol=1e-3 * (1 + float(base[ids].abs().max())) * 0.01, **info)
        c.close(v, view[ids], f"{what}: view points", atol=1e-5, **info)
        if o.image is not None:
            c.close(sub.get_image_size(), o.image[ids], f"{what}: image size", **info)
            c.close(sub.transform_points_screen(pts[ids]), base[ids], f"{what}: projected points with own image size", atol=1e-5 * (1 + float(base[ids].abs().max())), **info)
        c.equal(sub.in_ndc(), cam.in_ndc(), f"{what}: in_ndc", **info)

    for _ in range(3):
        kind, idx, ids = gen.index(c, n)
        if kind in ("slice", "range"):
            continue
        same(cam[idx], ids, f"cameras[{idx}]")
        c.count("indexed")
        c.sig("index", o.model, n, kind, len(ids))
    for bad in (n, [0, n], torch.tensor([n]), torch.ones(n + 1, dtype=torch.bool), "a", 1.5, [True] * n):
        c.raises((ValueError, IndexError), lambda: cam[bad], f"index {bad!r} of {n} cameras must be rejected")
        c.count("rejected")
    # join
    order = c.perm(n)[: c.i(1, n)]
    parts, ids, j = [], [], 0
    while j < len(order):
        m = c.i(1, len(order) - j)
        parts.append(cam[order[j:j + m]])
        ids += order[j:j + m]
        j += m
    same(join_cameras_as_batch(parts), ids, "joined cameras")
    c.count("joined", len(parts))
    c.sig("join", o.model, n, tuple(len(p) for p in parts))
    other = make(c, model=c.pick("fovp", "fovo", "persp", "ortho"), n=1)
    if type(other.real) is not type(cam):
        c.raises(ValueError, lambda: join_cameras_as_batch([cam, other.real]), "cameras of different types must not be joined")
        c.raises(ValueError, lambda: join_cameras_as_batch([cam, None]), "something that is no camera must not be joined")
        c.count("rejected")
    elif other.real.in_ndc() != cam.in_ndc() or (getattr(other.real, "K", None) is None) != (getattr(cam, "K", None) is None):
        c.raises(ValueError, lambda: join_cameras_as_batch([cam, other.real]), "inconsistent cameras must not be joined")
        c.count("rejected")
    # clone and to
    cl = cam.clone()
    same(cl, list(range(n)), "clone")
    same(cam.to("cpu"), list(range(n)), "to(cpu)")
    cl.R = cl.R @ torch.tensor([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]])
    cl.T = cl.T + 1
    cl.R[...] = cl.R.clone() * 0
    for f in ("focal_length", "fov", "max_x"):
        if hasattr(cl, f):
            getattr(cl, f).data.mul_(3) if getattr(cl, f).is_contiguous() else None
    same(cam, list(range(n)), "source after its clone was changed")
    c.count("cloned")
