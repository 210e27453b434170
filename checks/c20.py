"""Lighting and shading against float64 Phong equations."""
import torch
from checks.c13 import rotations
from checks.c18 import D, background, fragments, ref_hard, ref_prob, ref_softmax
from lib import gen
from lib.harness import monitor

NATIVE = True
RULE = ("point, directional and ambient lights, materials, cameras with batch size 1 or N each x packed, padded and per-pixel layouts x all shader classes on synthetic fragments "
        "over random mesh batches (given and computed normals; vertex and atlas textures); distinct = distinct (shader or term, layouts, batch sizes, argument forms)")
ASSUMPTIONS = ["pixels whose light is within 1e-3 of grazing (the specular term switches there), or whose normal or light vector is nearly zero, are not judged"]


def unit(x):
    return x / x.norm(dim=-1, keepdim=True).clamp(min=1e-30)


def ref_diffuse(n, color, l):
    return color * (unit(n) * unit(l)).sum(-1, keepdim=True).clamp(min=0)


def ref_specular(p, n, l, color, cam, shin):
    n, l = unit(n), unit(l)
    cos = (n * l).sum(-1, keepdim=True)
    v = unit(cam - p)
    r = 2 * cos * n - l
    a = (v * r).sum(-1, keepdim=True).clamp(min=0) * (cos > 0)
    return color * a ** shin


def judged(p, n, l, cam):
    cos = (unit(n) * unit(l)).sum(-1).abs()
    return (cos > 1e-3) & (n.norm(dim=-1) > 0.02) & (l.norm(dim=-1) > 0.02) & ((cam - p).norm(dim=-1) > 0.02)


def col(c, m):
    return c.rand(m, 3)


class Scene:
    """Light, material and camera with float64 copies of one row per batch element."""


def scene(c, N, lights=("point", "dir", "ambient"), same=False, centre=None):
    from pytorch3d.renderer import AmbientLights, DirectionalLights, FoVPerspectiveCameras, Materials, PerspectiveCameras, PointLights
    s = Scene()
    s.forms = []

    def num(opts=(1, N)):
        m = c.pick(*opts)
        s.forms.append(m)
        return m
    one = lambda t: t.double().expand(N, *t.shape[1:])
    k = s.kind = c.pick(*lights)
    kw = {}
    s.dif, s.spec = torch.full((N, 3), 0.3, dtype=D), torch.full((N, 3), 0.2, dtype=D)
    s.amb = torch.full((N, 3), 1.0 if k == "ambient" else 0.5, dtype=D)
    if c.p(0.8):
        kw["ambient_color"] = col(c, num())
        s.amb = one(kw["ambient_color"])
    if k != "ambient":
        if c.p(0.8):
            kw["diffuse_color"] = col(c, num())
            s.dif = one(kw["diffuse_color"])
        if c.p(0.8):
            kw["specular_color"] = col(c, num())
            s.spec = one(kw["specular_color"])
        v = c.randn(num(), 3) * (3 if k == "point" else c.u(0.1, 10))
        kw["location" if k == "point" else "direction"] = v
        s.vec = one(v)
    else:
        s.dif, s.spec, s.vec = s.dif * 0, s.spec * 0, torch.ones(N, 3, dtype=D)
    s.lights = {"point": PointLights, "dir": DirectionalLights, "ambient": AmbientLights}[k](**kw)
    s.forms.append(k)
    mk = {}
    s.ma = s.md = s.ms = torch.ones(N, 3, dtype=D)
    s.shin = torch.full((N,), 64.0, dtype=D)
    for f, a in (("ambient_color", "ma"), ("diffuse_color", "md"), ("specular_color", "ms")):
        if c.p(0.7):
            mk[f] = col(c, num())
            setattr(s, a, one(mk[f]))
    if c.p(0.7):
        h = c.rand(num(), lo=1, hi=80)
        mk["shininess"] = h if c.p(0.7) or len(h) > 1 else float(h)
        s.shin = one(h)
    s.mat = Materials(**mk)
    m = num()
    R = rotations(c, m).float()
    C = c.randn(m, 3) * 3 if centre is None else centre
    T = -(C[:, None] @ R)[:, 0]
    ck = c.pick("fov", "persp")
    s.planes = (1.0, 100.0)
    if ck == "fov":
        zn, zf = c.rand(c.pick(1, m), lo=0.3, hi=2), c.rand(c.pick(1, m), lo=30, hi=120)
        s.planes = (zn.expand(m), zf.expand(m))
        s.cam = FoVPerspectiveCameras(R=R, T=T, znear=zn, zfar=zf)
    else:
        s.cam = PerspectiveCameras(R=R, T=T)
    s.forms.append(ck)
    s.C = one(C)
    return s


def rows(t, dims):
    """(N,3) -> (N,1,..,3)"""
    return t.view(t.shape[0], *[1] * dims, *t.shape[1:])


@monitor(quick=1500, thorough=60000, need=("diffuse", "specular", "facing_away", "packed", "padded", "pixels", "ambient"))
def terms(c):
    from pytorch3d.renderer.lighting import diffuse, specular
    lay = c.pick("packed", "padded", "pixels")
    N = c.i(1, 4)
    shape = {"packed": (N, 3), "padded": (N, c.i(1, 5), 3), "pixels": (N, c.i(1, 3), c.i(1, 3), c.i(1, 4), 3)}[lay]
    k = len(shape) - 2
    c.count(lay)
    s = scene(c, N)
    n = c.randn(*shape) * c.pick(1.0, c.u(0.1, 10))
    p = c.randn(*shape) * 2
    nd, pd = n.double(), p.double()
    vec = rows(s.vec, k)
    l = (vec - pd) if s.kind == "point" else vec.expand(shape)
    cam = rows(s.C, k)
    wd = ref_diffuse(nd, rows(s.dif, k), l)
    ws = ref_specular(pd, nd, l, rows(s.spec, k), cam, rows(s.shin[:, None], k))
    ok = judged(pd, nd, l, cam)
    info = dict(layout=lay, light=s.kind, forms=s.forms)
    if lay != "padded":
        cp = s.cam.get_camera_center()
        gd = s.lights.diffuse(normals=n, points=p)
        gs = s.lights.specular(normals=n, points=p, camera_position=cp, shininess=s.mat.shininess)
        c.close(gd.expand(shape)[ok], wd[ok], "diffuse term", atol=2e-5, **info)
        c.close(gs.expand(shape)[ok], ws[ok], "specular term", atol=1e-4, rtol=1e-3, **info)
    # the functions, which take directions and any number of middle dimensions
    if s.kind == "dir":
        gd = diffuse(n, s.lights.diffuse_color, s.lights.direction)
        gs = specular(p, n, s.lights.direction, s.lights.specular_color, s.cam.get_camera_center(), s.mat.shininess)
    else:
        lf = l.float()
        gd = diffuse(n, s.dif.float(), lf)
        gs = specular(p, n, lf, s.spec.float(), s.C.float(), s.shin.float())
    c.close(gd[ok], wd[ok], "diffuse()", atol=2e-5, **info)
    c.close(gs[ok], ws[ok], "specular()", atol=1e-4, rtol=1e-3, **info)
    away = ok & ((unit(nd) * unit(l)).sum(-1) < 0)
    c.check(bool((gd[away] == 0).all()) and bool((gs[away] == 0).all()), "light on a surface facing away", **info)
    # lengths do not matter
    if s.kind == "dir":
        g2 = diffuse(n * 3.7, s.lights.diffuse_color, s.lights.direction * 0.2)
        c.close(g2[ok], wd[ok], "diffuse with other lengths", atol=2e-5, **info)
    c.count("facing_away", away.sum())
    c.count("diffuse", ok.sum())
    c.count("specular", (ws[ok] > 1e-3).any(-1).sum())
    c.count("ambient", s.kind == "ambient")
    c.sig(lay, *s.forms, tuple(shape))


def ref_normals(v, f):
    """Area weighted vertex normals."""
    fn = torch.linalg.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]], dim=1)
    n = torch.zeros_like(v)
    for j in range(3):
        n = n.index_add(0, f[:, j], fn)
    return n, fn


class MeshScene:
    pass


def mesh_scene(c, N, texture):
    from pytorch3d.renderer import TexturesAtlas, TexturesVertex
    from pytorch3d.structures import Meshes
    o = MeshScene()
    parts = [gen.mesh(c, kinds=("cube", "tetra", "ico", "tri")) for _ in range(N)]
    V, F = [p[0] for p in parts], [p[1] for p in parts]
    given = c.p(0.4)
    vn = [torch.nn.functional.normalize(c.randn(*v.shape), dim=1) for v in V] if given else None
    if texture == "vertex":
        feats = [c.rand(len(v), 3) for v in V]
        tex = TexturesVertex(feats)
    else:
        feats = [c.rand(len(f), 3) for f in F]
        tex = TexturesAtlas([x[:, None, None].clone() for x in feats])
    o.m = Meshes(V, F, textures=tex, **({"verts_normals": vn} if given else {}))
    o.V, o.F = [v.double() for v in V], F
    o.vn, o.fn = [], []
    for i, (v, f) in enumerate(zip(o.V, F)):
        a, b = ref_normals(v, f)
        o.vn.append(vn[i].double() if given else unit(a))
        o.fn.append(unit(b))
    o.feats = [x.double() for x in feats]
    o.first = [0]
    for f in F:
        o.first.append(o.first[-1] + len(f))
    o.given, o.texture = given, texture
    return o


def scatter(fr, o, attr):
    """attr: per mesh (F_i,3,3) -> per pixel barycentric combination, zero where empty."""
    N = fr.pix_to_face.shape[0]
    out = torch.zeros(*fr.pix_to_face.shape, attr[0].shape[-1], dtype=D)
    for i in range(N):
        p = fr.pix_to_face[i]
        v = p >= 0
        a = attr[i][p[v] - o.first[i]]
        out[i][v] = (fr.bary_coords[i][v].double()[..., None] * a).sum(1)
    return out


@monitor(quick=2500, thorough=60000, need=("HardPhongShader", "SoftPhongShader", "HardGouraudShader", "SoftGouraudShader", "HardFlatShader", "HardDepthShader",
                                          "SoftDepthShader", "SoftSilhouetteShader", "kwargs", "batched_materials", "batched_lights", "pixels"))
def shaders(c):
    import pytorch3d.renderer.mesh.shader as sh
    from pytorch3d.renderer.blending import BlendParams
    name = c.pick("HardPhongShader", "SoftPhongShader", "HardGouraudShader", "SoftGouraudShader", "HardFlatShader", "HardPhongShader", "HardDepthShader", "SoftDepthShader", "SoftSilhouetteShader")
    N = c.i(1, 4)
    texture = "vertex" if "Gouraud" in name else c.pick("vertex", "atlas")
    o = mesh_scene(c, N, texture)
    fr, valid, m = fragments(c, N=N, zlo=c.pick(1.0, 0.5), zhi=c.pick(10.0, 130.0), dscale=10 ** c.u(-5, -1))
    p2f = fr.pix_to_face
    for i in range(N):
        f0, f1 = o.first[i], o.first[i + 1]
        p2f[i] = torch.where(p2f[i] >= 0, f0 + p2f[i] % (f1 - f0), p2f[i])
    s = scene(c, N)
    bg, bgd, bk = background(c)
    sigma, gamma = 10 ** c.u(-5, -1), 10 ** c.u(-3, 0)
    bp = BlendParams(sigma=sigma, gamma=gamma, **({} if bg is None else dict(background_color=bg)))
    cls = getattr(sh, name)
    via = c.pick("init", "kwargs", "mixed")
    full = dict(cameras=s.cam, lights=s.lights, materials=s.mat, blend_params=bp)
    ik, fk = {}, {}
    decoy = scene(c, 1)
    dec = dict(cameras=decoy.cam, lights=decoy.lights, materials=decoy.mat, blend_params=BlendParams(sigma=0.37, gamma=0.2, background_color=(0.9, 0.1, 0.4)))
    for k, v in full.items():
        if name == "SoftSilhouetteShader" and k != "blend_params":
            continue
        if via == "init" or via == "mixed" and c.p(0.5):
            ik[k] = v
        else:
            fk[k] = v
            if c.p(0.5):
                ik[k] = dec[k]
    shader = cls(**ik)
    info = dict(shader=name, forms=s.forms, via=via, given_normals=o.given, texture=texture, N=N)
    v0, p0 = o.m.verts_packed().clone(), p2f.clone()
    lights_before = {k: getattr(s.lights, k).clone() for k in ("ambient_color", "diffuse_color", "location", "direction") if hasattr(s.lights, k) and torch.is_tensor(getattr(s.lights, k))}
    out = shader(fr, o.m, **fk)
    c.check(bool((o.m.verts_packed() == v0).all() and (fr.pix_to_face == p0).all()), "shading changed its inputs", **info)
    for k, v in lights_before.items():
        c.equal(getattr(s.lights, k), v, f"shading changed lights.{k}", **info)
    N_, H, W, K = p2f.shape
    c.count(name)
    c.sig(name, via, texture, o.given, bk, *s.forms, N, K)
    c.count("kwargs", via != "init")
    zn, zf = s.planes
    zf_img = zf.double().expand(N).view(N, 1, 1, 1) if torch.is_tensor(zf) else torch.full((N, 1, 1, 1), zf, dtype=D)
    if name == "HardDepthShader":
        want = torch.where(valid[..., :1], fr.zbuf[..., :1].double(), zf_img)
        c.close(out, want, "depth image", atol=1e-5, **info)
        return
    if name == "SoftDepthShader":
        prob = ref_prob(fr, sigma)
        cum = torch.cat([prob, torch.ones(N, H, W, 1, dtype=D)], -1).cumsum(-1).clamp(max=1)
        w = torch.diff(cum, dim=-1, prepend=torch.zeros(N, H, W, 1, dtype=D))
        want = (w * torch.cat([fr.zbuf.double(), zf_img.expand(N, H, W, 1)], -1)).sum(-1, keepdim=True)
        c.close(out, want, "soft depth image", atol=2e-3, rtol=1e-4, sigma=sigma, **info)
        return
    if name == "SoftSilhouetteShader":
        a = 1 - torch.prod(1 - ref_prob(fr, sigma), -1)
        c.close(out[..., 3], a, "silhouette", atol=1e-5, **info)
        c.check(bool((out[..., :3] == 1).all()), "silhouette colours", **info)
        return
    # colours
    fv = [v[f] for v, f in zip(o.V, o.F)]
    R4 = lambda t: t.view(N, 1, 1, 1, -1)
    if "Gouraud" in name:
        face_cols, face_ok = [], []
        for i in range(N):
            l = (s.vec[i] - o.V[i]) if s.kind == "point" else s.vec[i].expand_as(o.V[i])
            d = ref_diffuse(o.vn[i], s.dif[i], l)
            q = ref_specular(o.V[i], o.vn[i], l, s.spec[i], s.C[i], s.shin[i])
            vc = o.feats[i] * (s.ma[i] * s.amb[i] + s.md[i] * d) + s.ms[i] * q
            ok = judged(o.V[i], o.vn[i], l, s.C[i]) | (s.kind == "ambient")
            face_cols.append(vc[o.F[i]])
            face_ok.append(ok[o.F[i]][..., None].double())
        colors = scatter(fr, o, face_cols)
        ok = scatter(fr, o, face_ok)[..., 0] > 0.999
    else:
        if name == "HardFlatShader":
            pos = scatter(fr, o, [x.mean(1, keepdim=True).expand(-1, 3, 3) for x in fv])
            nor = scatter(fr, o, [x[:, None].expand(-1, 3, 3) for x in o.fn])
        else:
            pos = scatter(fr, o, fv)
            nor = scatter(fr, o, [n[f] for n, f in zip(o.vn, o.F)])
        tex = scatter(fr, o, [x[f] for x, f in zip(o.feats, o.F)] if texture == "vertex" else [x[:, None].expand(-1, 3, 3) for x in o.feats])
        l = (R4(s.vec) - pos) if s.kind == "point" else R4(s.vec).expand_as(pos)
        d = ref_diffuse(nor, R4(s.dif), l)
        q = ref_specular(pos, nor, l, R4(s.spec), R4(s.C), R4(s.shin))
        colors = (R4(s.ma * s.amb) + R4(s.md) * d) * tex + R4(s.ms) * q
        ok = judged(pos, nor, l, R4(s.C)) | (s.kind == "ambient")
    ok = (ok | ~valid)
    if "Hard" in name:
        c.close(out[ok[..., 0]], ref_hard(colors, fr, bgd)[ok[..., 0]], "shaded image", atol=3e-4, rtol=1e-3, **info)
        n = int((ok[..., 0] & valid[..., 0]).sum())
    else:
        want, w, delta = ref_softmax(colors, fr, sigma, gamma, bgd, zn if not torch.is_tensor(zn) else zn.expand(N), zf if not torch.is_tensor(zf) else zf.expand(N))
        good = ok.all(-1)
        c.close(out[good], want[good], "shaded image", atol=3e-3, rtol=1e-3, sigma=sigma, gamma=gamma, **info)
        n = int((good & valid.any(-1)).sum())
    c.count("pixels", n)
    c.count("batched_materials", N > 1 and any(getattr(s, a)[0].ne(getattr(s, a)[1]).any() for a in ("ma", "md", "ms")))
    c.count("batched_lights", N > 1 and bool((s.vec[0] != s.vec[1]).any()))


@monitor(quick=100, thorough=4000, need=("splats", "reused"))
def splatter(c):
    """The splatting shader: what its formula fixes - background far from the surface, bounded colours, independence of reuse and of the other images."""
    from pytorch3d.renderer import AmbientLights, BlendParams, FoVPerspectiveCameras, Materials, SplatterPhongShader
    from pytorch3d.renderer import MeshRasterizer, RasterizationSettings, TexturesVertex, look_at_view_transform
    from pytorch3d.structures import Meshes
    N = c.i(1, 3)
    V, F, feats = [], [], []
    for _ in range(N):
        v, f = gen.mesh(c, kinds=("cube", "tetra", "ico"))
        v = v - v.mean(0)
        V.append(v / v.norm(dim=1).max() * c.u(0.3, 0.9)); F.append(f)
        feats.append(c.rand(len(v), 3))
    meshes = Meshes(V, F, textures=TexturesVertex(feats))
    R, T = look_at_view_transform(2.5, c.rand(N, lo=-40, hi=40), c.rand(N, lo=0, hi=360))
    cam = FoVPerspectiveCameras(R=R, T=T)
    bg, bgd, bk = background(c)
    bp = BlendParams(sigma=0.5, **({} if bg is None else dict(background_color=torch.tensor(bg) if not torch.is_tensor(bg) else bg)))
    S, K = c.pick(6, (5, 8), 10), c.i(1, 3)
    rast = MeshRasterizer(cameras=cam, raster_settings=RasterizationSettings(image_size=S, faces_per_pixel=K))
    fr = rast(meshes)
    lights = AmbientLights()
    shader = SplatterPhongShader(cameras=cam, lights=lights, blend_params=bp)
    out = shader(fr, meshes)
    c.check(bool(torch.isfinite(out).all()), "splatted image is not finite")
    texel = meshes.sample_textures(fr)
    cov = fr.pix_to_face[..., 0] >= 0
    near = torch.nn.functional.max_pool2d(cov[:, None].float(), 3, 1, 1)[:, 0] > 0
    far = ~near
    c.close(out[far], torch.cat([bgd, torch.zeros(1, dtype=D)]).expand(int(far.sum()), 4), "pixels away from the surface", atol=1e-5)
    # neighbours may splat over: colours stay in the hull of the neighbourhood's fragment colours and the background
    t = torch.where((fr.pix_to_face >= 0)[..., None], texel, torch.full_like(texel, -9)).amax(3).permute(0, 3, 1, 2)
    hi = torch.maximum(torch.nn.functional.max_pool2d(t, 3, 1, 1).permute(0, 2, 3, 1), bgd.float())
    t = torch.where((fr.pix_to_face >= 0)[..., None], texel, torch.full_like(texel, 9)).amin(3).permute(0, 3, 1, 2)
    lo = torch.minimum(-torch.nn.functional.max_pool2d(-t, 3, 1, 1).permute(0, 2, 3, 1), bgd.float())
    c.check(bool((out[..., :3] <= hi + 1e-4).all() and (out[..., :3] >= lo - 1e-4).all()), "a splatted colour outside the hull of its neighbourhood")
    c.check(bool((out[..., 3] >= 0).all() and (out[..., 3] <= 1 + 1e-4).all()), "splatted alpha outside [0, 1]")
    if K == 1:
        # one layer, everything on one surface level: normalized 3x3 Gaussian of sigma 0.5 (times 1.05)
        o9 = torch.tensor([[i, j] for i in (-1, 0, 1) for j in (-1, 0, 1)], dtype=D)
        kern = torch.exp(-(o9 ** 2).sum(1) / 0.5)
        kern = (1.05 * kern / kern.sum()).view(1, 1, 3, 3)
        rgba = torch.cat([texel[..., 0, :], torch.ones_like(texel[..., 0, :1])], -1).double() * cov[..., None]
        x = rgba.permute(0, 3, 1, 2)
        acc = torch.nn.functional.conv2d(x.reshape(-1, 1, *x.shape[2:]), kern, padding=1).view(x.shape)
        acc = acc / acc[:, 3:].clamp(min=1)
        want = acc[:, :3] + (1 - acc[:, 3:]) * bgd.view(1, 3, 1, 1)
        c.close(out[..., :3].permute(0, 3, 1, 2), want, "single-layer splatting", atol=2e-3)
        c.close(out[..., 3], acc[:, 3], "single-layer splatting alpha", atol=2e-3)
    # a shader that served other shapes before gives the same image
    i = c.i(0, N - 1)
    cam1 = FoVPerspectiveCameras(R=R[i:i + 1], T=T[i:i + 1])
    fr1 = MeshRasterizer(cameras=cam1, raster_settings=RasterizationSettings(image_size=S, faces_per_pixel=K))(meshes[i])
    one = shader(fr1, meshes[i], cameras=cam1)
    c.close(one[0], out[i], "one image of the batch alone, with a reused shader", atol=1e-3)
    again = shader(fr, meshes)
    c.close(again, out, "the batch again", atol=0, rtol=0)
    c.count("splats", near.sum())
    c.count("reused")
    c.sig(N, S, K, bk)


@monitor(quick=500, thorough=20000, need=("accessor", "gathered"))
def properties(c):
    from pytorch3d.renderer import AmbientLights, DirectionalLights, Materials, PointLights
    n = c.i(1, 4)
    kind = c.pick("point", "dir", "mat")
    shp = lambda: c.pick(1, n)
    kw = {k: c.rand(shp(), 3) for k in ("ambient_color", "diffuse_color", "specular_color")}
    if kind == "point":
        kw["location"] = c.randn(shp(), 3)
        o = PointLights(**kw)
    elif kind == "dir":
        kw["direction"] = c.randn(shp(), 3)
        o = DirectionalLights(**kw)
    else:
        kw["shininess"] = c.rand(shp()) * 60
        o = Materials(**kw)
    N = max(len(v) for v in kw.values())
    c.equal(len(o), N, "batch size")
    ref = {k: v.expand(N, *v.shape[1:]).clone() for k, v in kw.items()}
    for k, v in ref.items():
        c.equal(getattr(o, k), v, f"attribute {k}")
    other = o.clone()
    i = c.i(0, N - 1)
    for k in ref:
        c.equal(getattr(o[i], k), ref[k][i], f"[{i}].{k}")
        s = slice(c.i(0, N - 1), N)
        c.equal(getattr(o[s], k), ref[k][s], f"[{s}].{k}")
    c.count("accessor")
    # setting one element of a clone changes that element only, and not the source
    k = c.pick(*ref)
    val = torch.rand_like(ref[k][i])
    setattr(other[i], k, val if c.p(0.5) else val.tolist())
    for kk in ref:
        want = ref[kk].clone()
        if kk == k:
            want[i] = val
        c.close(getattr(other, kk), want, f"clone after setting [{i}].{k}: {kk}", atol=1e-6)
        c.equal(getattr(o, kk), ref[kk], f"source after setting an element of its clone: {kk}")
    # gather_props: every element takes the properties of its batch index
    m = c.i(1, 6)
    idx = c.randint(0, N, (m,))
    g = o.clone().gather_props(idx)
    for kk in ref:
        want = ref[kk][idx] if N > 1 else ref[kk]
        c.equal(getattr(g, kk), want, f"gather_props({idx.tolist()}).{kk}")
    c.count("gathered", m)
    c.sig(kind, n, N, m, tuple(len(v) for v in kw.values()))
