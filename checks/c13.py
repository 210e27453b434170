"""Cameras: projection and unprojection against the documented camera equations in float64."""
import math

import torch
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("camera models x parameter forms (python scalar, tensor of 1 or N) x square and non-square images x NDC and screen parameters x point shapes; "
        "distinct = distinct (model, argument forms, batch sizes, image sizes, options)")
ASSUMPTIONS = ["points are judged where the camera-frame depth is at least 0.3 (0.3 .. 8 units)",
               "fish-eye cameras: moderate distortion, for which the published model is invertible over the field of view, and radial distortion enabled"]


def rotations(c, n):
    q = torch.nn.functional.normalize(c.randn(n, 4, dtype=D), dim=1)
    w, x, y, z = q.unbind(1)
    return torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
                        2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
                        2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], 1).view(n, 3, 3)


def par(c, n, lo, hi):
    """A scalar camera parameter: -> (argument, float64 (n,), form)"""
    k = c.pick("py", "t1", "tn", "list")
    if k == "py":
        v = c.u(lo, hi)
        return v, torch.full((n,), v, dtype=D), k
    m = 1 if k == "t1" else n
    v = c.rand(m, lo=lo, hi=hi)
    return (v.tolist() if k == "list" else v), v.double().expand(n), k


class Cam:
    """The real camera with float64 copies of its parameters."""


def pose(c, o, n, kw):
    o.R, o.T = torch.eye(3, dtype=D).expand(n, 3, 3), torch.zeros(n, 3, dtype=D)
    k = c.pick("none", "one", "each", "each")
    if k != "none":
        m = 1 if k == "one" else n
        R, T = rotations(c, m).float(), c.randn(m, 3)
        kw.update(R=R, T=T)
        o.R, o.T = R.double().expand(n, 3, 3), T.double().expand(n, 3)
    return k


def make(c, model=None, image=None, n=None):
    from pytorch3d.renderer import FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras
    o = Cam()
    n = o.n = n or c.i(1, 4)
    o.model = model or c.pick("fovp", "fovo", "persp", "ortho")
    kw = {}
    forms = [o.model, n]
    o.image = None
    forms.append(pose(c, o, n, kw))
    if o.model == "fovp":
        for k, lo, hi in (("znear", 0.1, 1.0), ("zfar", 10, 100), ("aspect_ratio", 0.5, 2.0)):
            if c.p(0.7):
                a, v, f = par(c, n, lo, hi)
                kw[k] = a
                forms.append((k, f))
            else:
                v = torch.full((n,), dict(znear=1.0, zfar=100.0, aspect_ratio=1.0)[k], dtype=D)
            setattr(o, k, v)
        deg = c.p(0.5)
        a, v, f = par(c, n, 20, 110) if deg else par(c, n, 0.3, 1.9)
        kw.update(fov=a, degrees=deg)
        o.fov = v * math.pi / 180 if deg else v
        forms += [f, deg]
        cls = FoVPerspectiveCameras
        t = torch.tan(o.fov / 2)
        o.K = torch.zeros(n, 4, 4, dtype=D)
        o.K[:, 0, 0] = 1 / (t * o.aspect_ratio)
        o.K[:, 1, 1] = 1 / t
        o.K[:, 2, 2] = o.zfar / (o.zfar - o.znear)
        o.K[:, 2, 3] = -o.zfar * o.znear / (o.zfar - o.znear)
        o.K[:, 3, 2] = 1
    elif o.model == "fovo":
        for k, lo, hi, df in (("znear", 0.1, 1.0, 1.0), ("zfar", 10, 100, 100.0), ("max_x", 0.3, 3, 1.0), ("min_x", -3, -0.3, -1.0),
                              ("max_y", 0.3, 3, 1.0), ("min_y", -3, -0.3, -1.0)):
            v = torch.full((n,), df, dtype=D)
            if c.p(0.7):
                a, v, f = par(c, n, lo, hi)
                kw[k] = a
                forms.append((k, f))
            setattr(o, k, v)
        s = torch.ones(n, 3, dtype=D)
        if c.p(0.6):
            m = c.pick(1, n)
            a = c.rand(m, 3, lo=0.3, hi=3)
            kw["scale_xyz"] = a if c.p(0.6) else a.tolist()
            s = a.double().expand(n, 3)
            forms.append(m)
        cls = FoVOrthographicCameras
        o.K = torch.zeros(n, 4, 4, dtype=D)
        o.K[:, 0, 0] = 2 / (o.max_x - o.min_x) * s[:, 0]
        o.K[:, 1, 1] = 2 / (o.max_y - o.min_y) * s[:, 1]
        o.K[:, 0, 3] = -(o.max_x + o.min_x) / (o.max_x - o.min_x)
        o.K[:, 1, 3] = -(o.max_y + o.min_y) / (o.max_y - o.min_y)
        o.K[:, 2, 2] = s[:, 2] / (o.zfar - o.znear)
        o.K[:, 2, 3] = -o.znear / (o.zfar - o.znear)
        o.K[:, 3, 3] = 1
    else:
        o.ndc = c.p(0.5)
        cls = PerspectiveCameras if o.model == "persp" else OrthographicCameras
        if not o.ndc or c.p(0.5):
            m = c.pick(1, n)
            im = torch.tensor([[c.i(8, 300), c.i(8, 300)] for _ in range(m)])
            if c.p(0.3):
                im[:, 1] = im[:, 0]
            o.image = im.double().expand(n, 2)
            kw["image_size"] = c.pick(im, im.tolist(), tuple(map(tuple, im.tolist())))
            forms.append(im.tolist())
        scale = 1.0 if o.ndc else float(o.image.min()) / 2
        kf = c.pick("default", "py", "n", "n1", "n2", "12") if o.ndc else c.pick("py", "n", "n1", "n2", "12")
        forms.append(kf)
        if kf == "default":
            f = torch.ones(n, 2, dtype=D)
        elif kf == "py":
            a = c.u(0.5, 3) * scale
            kw["focal_length"] = a
            f = torch.full((n, 2), a, dtype=D)
        else:
            a = c.rand(*{"n": (n,), "n1": (n, 1), "n2": (n, 2), "12": (1, 2)}[kf], lo=0.5, hi=3) * scale
            kw["focal_length"] = a if c.p(0.7) else a.tolist()
            f = (a[:, None] if a.ndim == 1 else a).double().expand(n, 2)
        m = c.pick(0, 1, n)
        p = torch.zeros(n, 2, dtype=D)
        if m:
            a = c.randn(m, 2) * 0.4 if o.ndc else c.rand(m, 2, lo=0, hi=1) * o.image[:m].float().flip(1)
            kw["principal_point"] = a if c.p(0.7) else a.tolist()
            p = a.double().expand(n, 2)
        kw["in_ndc"] = o.ndc
        forms += [m, o.ndc]
        o.K = torch.zeros(n, 4, 4, dtype=D)
        o.K[:, 0, 0], o.K[:, 1, 1] = f.unbind(1)
        j = 2 if o.model == "persp" else 3
        o.K[:, 0, j], o.K[:, 1, j] = p.unbind(1)
        if o.model == "persp":
            o.K[:, 3, 2] = o.K[:, 2, 3] = 1
        else:
            o.K[:, 2, 2] = o.K[:, 3, 3] = 1
        o.f, o.pp = f, p
    if c.p(0.12):
        kw["K"] = o.K.float().clone()
        forms.append("K")
    if o.model in ("fovp", "fovo"):
        o.ndc = True
    o.kw = kw
    o.real = cls(**kw)
    # the number of cameras is the largest batch among the arguments
    sizes = [len(v) for v in kw.values() if isinstance(v, (list, tuple)) or (torch.is_tensor(v) and v.ndim)]
    o.n = max(sizes + [1])
    for k in ("R", "T", "K", "f", "pp", "image"):
        if getattr(o, k, None) is not None:
            setattr(o, k, getattr(o, k)[:o.n])
    o.forms = forms
    return o


def view(o, pts):
    """world (N,P,3) or (P,3) float64 -> (n,P,3)"""
    if pts.ndim == 2:
        pts = pts[None]
    return pts @ o.R + o.T[:, None]


def project(K, v):
    h = torch.cat([v, torch.ones_like(v[..., :1])], -1) @ K.transpose(1, 2)
    return h[..., :3] / h[..., 3:]


def to_ndc(o, x, image=None):
    if o.ndc:
        return x
    image = o.image if image is None else image
    s = image.min(1).values[:, None, None]
    wh = image.flip(1)[:, None]
    f, p = o.K[:, [0, 1], [0, 1]], o.K[:, :2, 2 if o.model == "persp" else 3]
    # parameters converted to NDC as documented, then the documented camera equation
    q = (x[..., :2] - p[:, None]) * 2 / s + -(p[:, None] - wh / 2) * 2 / s
    return torch.cat([q, x[..., 2:]], -1)


def to_screen(x, image):
    s = image.min(1).values[:, None, None]
    wh = image.flip(1)[:, None]
    return torch.cat([wh / 2 - x[..., :2] * s / 2, x[..., 2:]], -1)


def points(c, o):
    """World points: one set for all cameras or one per camera. -> (points float32, float64 view (n,P,3))"""
    P = c.i(1, 6)
    if o.n == 1 and c.p(0.3) or o.n > 1 and c.p(0.3):
        pts = c.randn(P, 3) * 4
        return pts, view(o, pts.double())
    v = torch.cat([c.randn(o.n, P, 2) * 2, c.rand(o.n, P, 1, lo=0.4, hi=7)], 2).double()
    pts = ((v - o.T[:, None]) @ o.R.transpose(1, 2)).float()
    return pts, view(o, pts.double())


def cmp(c, got, want, ok, msg, scale=None, **kw):
    if got.ndim == 2:
        got = got[None]
    c.check(tuple(got.shape) == tuple(want.shape), f"{msg}: shape {tuple(got.shape)} instead of {tuple(want.shape)}", **kw)
    s = max(1.0, float(want[ok].abs().max()) if bool(ok.any()) else 1.0) if scale is None else scale
    c.close(got[ok], want[ok], msg, atol=3e-5 * s, rtol=2e-4, **kw)
    c.count("points", int(ok.sum()))


@monitor(quick=1500, thorough=60000, need=("points", "screen_cam", "nonsquare", "unprojected", "kwargs", "fovp", "fovo", "persp", "ortho"))
def models(c):
    o = make(c)
    cam = o.real
    c.sig(*o.forms)
    c.count(o.model)
    c.count("screen_cam", not o.ndc)
    c.equal(len(cam), o.n, "number of cameras", forms=o.forms)
    pts, v = points(c, o)
    ok = v[..., 2] > 0.3
    info = dict(forms=o.forms, points=pts)
    if not bool(ok.any()):
        return
    w2v = cam.get_world_to_view_transform().transform_points(pts)
    cmp(c, w2v, v, ok, "world to view", **info)
    c.close(cam.get_camera_center(), -(o.T[:, None] @ o.R.transpose(1, 2))[:, 0], "camera centre", atol=1e-4, rtol=1e-4, **info)
    want = project(o.K, v)
    cmp(c, cam.transform_points(pts), want, ok, "transform_points", **info)
    cmp(c, cam.get_full_projection_transform().transform_points(pts), want, ok, "full projection transform", **info)
    cmp(c, cam.get_projection_transform().transform_points(v.float()), want, ok, "projection transform", scale=max(1, float(want[ok].abs().max())), **info)
    ndc = to_ndc(o, want)
    cmp(c, cam.transform_points_ndc(pts), ndc, ok, "transform_points_ndc", **info)
    if o.image is not None and c.p(0.7):
        image, ikw = o.image, {}
    else:
        m = c.pick(1, o.n)
        im = torch.tensor([[c.i(8, 300), c.i(8, 300)] for _ in range(m)])
        image = im.double().expand(o.n, 2)
        ikw = dict(image_size=c.pick(im, im.tolist()))
        if not o.ndc:
            ndc = to_ndc(o, want, image)
            cmp(c, cam.transform_points_ndc(pts, **ikw), ndc, ok, "transform_points_ndc with an image size", **info)
    c.count("nonsquare", bool((image[:, 0] != image[:, 1]).any()))
    scr = to_screen(ndc, image)
    cmp(c, cam.transform_points_screen(pts, **ikw), scr, ok, "transform_points_screen", image=image, **info)
    flip = torch.tensor([-1.0, -1, 1], dtype=D)
    cmp(c, cam.transform_points_screen(pts, with_xyflip=False, **ikw), scr * flip, ok, "transform_points_screen without flip", image=image, **info)
    # unprojection
    depth = v[..., 2:]
    world = pts.double() if pts.ndim == 3 else pts.double()[None].expand(o.n, -1, 3)
    for wc in (True, False):
        tgt = world if wc else v
        amp = 1.0
        if o.model in ("fovp", "fovo"):
            amp = 30.0
            xyd = torch.cat([want[..., :2], depth], -1).float()
            got = cam.unproject_points(xyd, world_coordinates=wc)
            keep = ok & (v[..., 2] < 8)
            cmp(c, got, tgt, keep, f"unproject_points(world={wc})", scale=amp * (1 + float(tgt.abs().max())), **info)
            got = cam.unproject_points(want.float(), world_coordinates=wc, scaled_depth_input=True)
            # a float32 scaled depth is worth |z / znear| ulps for a perspective camera
            cmp(c, got, tgt, keep, f"unproject_points(scaled depth, world={wc})", scale=4 * amp * (1 + float(tgt.abs().max())), **info)
        else:
            cond = 1.0 if o.ndc else 10.0
            src = want
            got = cam.unproject_points(torch.cat([src[..., :2], depth], -1).float(), world_coordinates=wc)
            cmp(c, got, tgt, ok, f"unproject_points(world={wc})", scale=cond * 3 * (1 + float(tgt.abs().max())), **info)
            if o.ndc or o.image is not None:
                src = ndc if o.ndc else to_ndc(o, want)
                got = cam.unproject_points(torch.cat([src[..., :2], depth], -1).float(), world_coordinates=wc, from_ndc=True)
                cmp(c, got, tgt, ok, f"unproject_points(from_ndc, world={wc})", scale=cond * 3 * (1 + float(tgt.abs().max())), **info)
        c.count("unprojected")
    # parameters given at the call replace those of the camera, for that call
    if "K" not in o.kw:
        n = o.n
        K2 = o.K.clone()
        if o.model == "fovp":
            f2 = c.rand(n, lo=0.4, hi=1.8)
            kw = dict(fov=f2, degrees=False)
            t = torch.tan(f2.double() / 2)
            K2[:, 0, 0], K2[:, 1, 1] = 1 / (t * (o.K[:, 1, 1] / o.K[:, 0, 0])), 1 / t
        elif o.model == "fovo":
            s2 = c.rand(n, 3, lo=0.5, hi=2)
            kw = dict(scale_xyz=s2, max_x=torch.ones(n), min_x=-torch.ones(n) * 0.5)
            a = torch.tensor([o.kw.get("scale_xyz", [[1.0] * 3])]) if not torch.is_tensor(o.kw.get("scale_xyz")) else o.kw["scale_xyz"]
            a = a.reshape(-1, 3).double().expand(n, 3)
            K2[:, 0, 0] = 2 / 1.5 * s2[:, 0].double()
            K2[:, 0, 3] = -0.5 / 1.5
            K2[:, 1, 1] *= s2[:, 1].double() / a[:, 1]
            K2[:, 2, 2] *= s2[:, 2].double() / a[:, 2]
        else:
            f2, p2 = c.rand(n, 2, lo=0.5, hi=2), c.randn(n, 2)
            kw = dict(focal_length=f2, principal_point=p2)
            K2[:, 0, 0], K2[:, 1, 1] = f2.double().unbind(1)
            j = 2 if o.model == "persp" else 3
            K2[:, 0, j], K2[:, 1, j] = p2.double().unbind(1)
        cmp(c, cam.transform_points(pts, **kw), project(K2, v), ok, "transform_points with parameters at the call", call=kw, **info)
        cmp(c, cam.transform_points(pts), want, ok, "transform_points after a call with other parameters", **info)
        c.count("kwargs")
    R2, T2 = rotations(c, o.n), c.randn(o.n, 3, dtype=D)
    o.R, o.T = R2.float().double(), T2.float().double()
    v2 = view(o, pts.double())
    ok2 = v2[..., 2] > 0.3
    if bool(ok2.any()):
        cmp(c, cam.transform_points(pts, R=R2.float(), T=T2.float()), project(o.K, v2), ok2, "transform_points with R and T at the call", **info)


@monitor(quick=300, thorough=10000, need=("pixels", "wide", "tall"))
def grid_sample(c):
    """Sampling an image at the NDC position of a pixel centre returns that pixel."""
    from pytorch3d.renderer import ndc_grid_sample, ndc_to_grid_sample_coords
    H, W, N, C = c.i(1, 9), c.i(1, 9), c.i(1, 3), c.i(1, 3)
    im = c.rand(N, C, H, W)
    s = min(H, W)
    j, i = torch.arange(W, dtype=D), torch.arange(H, dtype=D)
    g = torch.stack(torch.broadcast_tensors(((W - 2 * j - 1) / s)[None], ((H - 2 * i - 1) / s)[:, None]), -1)
    g = g[None].expand(N, H, W, 2)
    c.sig(N, C, H, W)
    c.count("wide", W > H)
    c.count("tall", H > W)
    got = ndc_grid_sample(im, g.float())
    c.close(got, im, "ndc_grid_sample at the pixel centres", atol=1e-4, rtol=1e-4, padding_mode="zeros")
    # any grid shape
    idx = c.randint(0, H * W, (5,))
    got = ndc_grid_sample(im, g.reshape(N, -1, 2)[:, idx].float(), mode=c.pick("bilinear", "nearest"))
    c.close(got, im.flatten(2)[:, :, idx], "ndc_grid_sample of a list of points", atol=1e-4, rtol=1e-4)
    x = g.float().clone()
    q = ndc_to_grid_sample_coords(x, (H, W))
    c.equal(x, g.float(), "ndc_to_grid_sample_coords changed its input")
    want = torch.stack(torch.broadcast_tensors(((2 * j + 1) / W - 1)[None], ((2 * i + 1) / H - 1)[:, None]), -1)[None].expand(N, H, W, 2)
    c.close(q, want, "ndc_to_grid_sample_coords", atol=1e-5, rtol=1e-4)
    c.count("pixels", H * W)


@monitor(quick=300, thorough=10000, need=("points", "centre", "batch", "world", "inverse"))
def fisheye(c):
    """The published radial, tangential and thin-prism model, and its inverse."""
    from pytorch3d.renderer.fisheyecameras import FishEyeCameras
    n = c.i(1, 3)
    f = c.rand(n, 1, lo=0.5, hi=300)
    pp = c.randn(n, 2) * c.pick(0, 50)
    k = c.randn(n, 6) * torch.tensor([0.02, 0.01, 0.004, 0.001, 0.0003, 0.0001])
    p = c.randn(n, 2) * 0.004
    s = c.randn(n, 4) * torch.tensor([0.003, 0.0005, 0.003, 0.0005])
    ut, us = c.p(0.7), c.p(0.7)
    world = c.p(0.5)
    kw = {}
    R, T = rotations(c, n).float(), c.randn(n, 3) * 0.3
    one = n == 1
    if world:
        kw = dict(R=R, T=T, world_coordinates=True)
    cam = FishEyeCameras(focal_length=f, principal_point=pp, radial_params=k, tangential_params=p, thin_prism_params=s,
                         use_tangential=ut, use_thin_prism=us, **kw)
    P = c.i(2, 6)
    v = torch.cat([c.randn(P, 2) * 0.8, torch.ones(P, 1)], 1) * c.rand(P, 1, lo=0.5, hi=4)
    centre = c.p(0.4)
    if centre and not world:
        v[0, :2] = 0
        c.count("centre")
    if world and not one:
        world_one = False
    c.sig(n, ut, us, world, P, centre)
    if world:
        if not one:
            # the camera frames differ, every camera sees the same world points
            kw["T"] = T
        pts = ((v.double() - T[0].double()) @ R[0].double().T).float()
        if not one:
            return world_batch(c, cam, R, T, v, f, pp, k, p, s, ut, us)
    else:
        pts = v
    shape = c.pick("p", "1p", "mp") if one else "p"
    if shape == "1p":
        pts = pts[None]
    elif shape == "mp":
        pts = torch.stack([pts, pts.flip(0)])
    got = cam.transform_points(pts)
    src = pts.double()
    if world:
        src = src @ R[0].double() + T[0].double()
        c.count("world")
    want = torch.stack([fish(src, f[i], pp[i], k[i], p[i], s[i], ut, us) for i in range(n)])
    want = want[0] if one else want
    want = torch.cat([want, torch.ones_like(want[..., :1])], -1)
    c.count("batch", not one)
    got_s = got if got.ndim == want.ndim else got.reshape(want.shape)
    tol = 2e-5 * (float(f.max()) * 4 + float(pp.abs().max()) + 1)
    c.close(got_s, want, "fish-eye projection", atol=tol, rtol=1e-4, options=(n, ut, us, world, shape))
    c.count("points", want.shape[-2])
    for i in range(n):
        one_cam = FishEyeCameras(focal_length=f[i:i + 1], principal_point=pp[i:i + 1], radial_params=k[i:i + 1], tangential_params=p[i:i + 1],
                                 thin_prism_params=s[i:i + 1], use_tangential=ut, use_thin_prism=us)
        uv = want if one else want[i]
        back = one_cam.unproject_points(uv.float())
        z1 = src / src[..., 2:]
        c.close(back, z1.reshape(back.shape), "unproject_points(project(X)) with z = 1", atol=5e-4 * (1 + float(pp.abs().max() / f.min())), rtol=2e-3,
                options=(n, ut, us))
        c.count("inverse")
    if not one:
        uv = want[0][:, :3].float()
        back = cam.unproject_points(uv)
        for i in range(n):
            again = fish(torch.cat([back[i].double()[..., :2], torch.ones(P, 1, dtype=D)], -1), f[i], pp[i], k[i], p[i], s[i], ut, us)
            near = (((uv.double()[:, :2] - pp[i].double()) / f[i].double()).norm(dim=1) < 1.1)
            c.close(again[near], uv[near][:, :2], f"project(unproject(x)) of camera {i} of a batch", atol=2e-3 * float(f.max()), rtol=2e-3)


def world_batch(c, cam, R, T, v, f, pp, k, p, s, ut, us):
    n = len(R)
    pts = c.randn(len(v), 3)
    view = pts.double()[None] @ R.double() + T.double()[:, None]
    try:
        got = cam.transform_points(pts)
    except ValueError:
        c.count("world_batch_rejected")  # several cameras take one set of camera-frame points only
        return


def fish(v, f, pp, k, p, s, ut, us):
    v, f, pp, k, p, s = (t.double() for t in (v, f, pp, k, p, s))
    ab = v[..., :2] / v[..., 2:]
    r = ab.norm(dim=-1, keepdim=True)
    th = torch.atan(r)
    rad = sum(k[i] * th ** (2 * i + 3) for i in range(6)) + th
    xy = torch.where(r > 0, rad * ab / r.clamp(min=1e-300), ab)
    x, y = xy[..., 0], xy[..., 1]
    rd = x * x + y * y
    u = xy.clone()
    if ut:
        u = u + torch.stack([(2 * x * x + rd) * p[0] + 2 * x * y * p[1], (2 * y * y + rd) * p[1] + 2 * x * y * p[0]], -1)
    if us:
        u = u + torch.stack([s[0] * rd + s[1] * rd * rd, s[2] * rd + s[3] * rd * rd], -1)
    return f * u + pp
