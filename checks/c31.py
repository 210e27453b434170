"""Generated OBJ/MTL texts against the content they were generated from; saved meshes against their loaded copies."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch

from lib import gen
from lib.harness import monitor

NATIVE = False
D = torch.float64
RULE = ("OBJ texts with 1..12 vertices defined before, between and after faces, polygons of 3..7 corners, absolute and relative indices, missing "
        "attributes, 0..3 materials with and without images, comments, unknown statements, blank space, CRLF; meshes of 0..30 vertices saved with 0..8 "
        "decimals; distinct = distinct (constructs used)")
ASSUMPTIONS = ["a single mtllib per file, as load_obj documents; names without spaces",
               "textures are 8 bit images: saved values are compared after quantisation"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def near(c, got, want, tol, msg):
    c.close(got, want, msg, atol=tol, rtol=0)


def num(c, x):
    return c.pick("%.6f", "%.9g", "%e", "%+.7f", "%.3f") % x


def f32(text):
    return torch.tensor(float(text), dtype=torch.float32)


def image(c, path):
    from PIL import Image
    h, w = c.i(1, 6), c.i(1, 6)
    a = c.randint(0, 256, (h, w, 3)).numpy().astype(np.uint8)
    Image.fromarray(a).save(path)
    return torch.from_numpy(a).float() / 255.0


class Text:
    """a random OBJ text, and what it means"""

    def __init__(self, c, uvs_everywhere=False, materials=()):
        self.v, self.vt, self.vn, self.faces, self.lines = [], [], [], [], []
        self.used, self.cur, self.flags = [], -1, set()
        sep = lambda: c.pick(" ", " ", " ", "  ", "\t", " \t ")
        put = lambda *t: self.lines.append(c.pick("", "", "", " ", "\t") + "".join(x + (sep() if k + 1 < len(t) else "") for k, x in enumerate(t)) + c.pick("", "", " ", "\t"))

        def define(kind):
            n = {"v": 3, "vt": 2, "vn": 3}[kind]
            t = [num(c, x) for x in ((c.rand(n, lo=-0.6, hi=1.6) if kind == "vt" and c.p(0.2) else c.rand(n)) if kind == "vt" else c.randn(n)).tolist()]
            if kind == "vt" and c.p(0.25):
                t = [c.pick("0", "1", "0.0", "1.0", x) for x in t]
            {"v": self.v, "vt": self.vt, "vn": self.vn}[kind].append([f32(x) for x in t])
            extra = []
            if kind == "v" and c.p(0.15):
                extra = [num(c, x) for x in c.rand(c.pick(1, 3)).tolist()]
                self.flags.add("extra values")
            if kind == "vt" and c.p(0.2):
                extra = ["0.0"]
            put(kind, *t, *extra)

        def noise():
            k = c.i(0, 6)
            if k == 0:
                self.lines.append(c.pick("# a comment", "#", "#v 1 2 3", "# f 1 2 3"))
            elif k == 1:
                self.lines.append(c.pick("", "   ", "\t"))
            elif k == 2:
                put(c.pick("g", "o"), "part")
            elif k == 3:
                put("s", c.pick("off", "1"))
            elif k == 4:
                put("vp", "0.5", "0.5")
            elif k == 5:
                put(c.pick("l", "p"), "1")

        def face():
            n = c.pick(3, 3, 3, 4, 4, 5, 7)
            wt = bool(self.vt) and (uvs_everywhere or c.p(0.5))
            wn = bool(self.vn) and c.p(0.5)
            rel = c.p(0.3)
            same = c.p(0.15)
            corners = []
            toks = []
            first = [c.i(0, len(x) - 1) if x else 0 for x in (self.v, self.vt, self.vn)]
            if same and c.p(0.5):
                first = [len(x) - 1 for x in (self.v, self.vt, self.vn)]
            for _ in range(n):
                i = [c.i(0, len(self.v) - 1), (first[1] if same else c.i(0, len(self.vt) - 1)) if wt else -1,
                     (first[2] if same else c.i(0, len(self.vn) - 1)) if wn else -1]
                w = lambda k, x: str(x + 1 if not (rel and c.p(0.8)) else x - len((self.v, self.vt, self.vn)[k]))
                t = w(0, i[0])
                if wt:
                    t += "/" + w(1, i[1])
                elif wn:
                    t += "/"
                elif c.p(0.05):
                    t += "/"
                if wn:
                    t += "/" + w(2, i[2])
                corners.append(i)
                toks.append(t)
            put("f", *toks)
            for k in range(n - 2):
                self.faces.append(([corners[0][j], corners[k + 1][j], corners[k + 2][j]] for j in range(3)))
                self.faces[-1] = (*[list(x) for x in self.faces[-1]], self.cur)
            self.flags |= {"polygon"} if n > 3 else set()
            self.flags |= {"relative"} if rel else set()
            self.flags |= {("normals", "uvs and normals")[wt]} if wn else ({"uvs"} if wt else {"bare"})
            self.flags |= {"one index for all corners"} if same and (wt or wn) else set()

        for _ in range(c.i(1, 4)):
            define("v")
        if uvs_everywhere or c.p(0.5):
            define("vt")
        for _ in range(c.i(0, 25)):
            k = c.rng.random()
            if k < 0.3:
                define("v")
            elif k < 0.42:
                define("vt")
            elif k < 0.52:
                define("vn")
            elif k < 0.62:
                noise()
            elif k < 0.72 and materials:
                name = c.pick(*materials)
                if name not in self.used:
                    self.used.append(name)
                self.cur = self.used.index(name)
                put("usemtl", name)
            else:
                face()

    def text(self, c):
        nl = c.pick("\n", "\n", "\r\n")
        return nl.join(self.lines) + c.pick("", nl)


def stack(rows, cols):
    return torch.stack([torch.stack(r) for r in rows]) if rows else torch.zeros(0, cols)


def as_input(c, text, d, name="m.obj"):
    k = c.pick("str", "path", "text stream", "byte stream")
    p = os.path.join(d, name)
    with open(p, "w", newline="") as f:
        f.write(text)
    return k, {"str": p, "path": Path(p), "text stream": io.StringIO(text), "byte stream": io.BytesIO(text.encode())}[k]


def judge(c, t, verts, faces, aux):
    c.equal(verts, stack(t.v, 3), "vertices are the v statements in order")
    n = len(t.faces)
    c.equal(faces.verts_idx, torch.tensor([f[0] for f in t.faces], dtype=torch.int64).reshape(n, 3), "vertex indices of the fan of every face")
    if n:
        c.equal(faces.textures_idx, torch.tensor([f[1] for f in t.faces]), "texture indices")
        c.equal(faces.normals_idx, torch.tensor([f[2] for f in t.faces]), "normal indices")
        c.equal(faces.materials_idx, torch.tensor([f[3] for f in t.faces]), "material of every face")
    c.check((aux.verts_uvs is None) == (not t.vt), "verts_uvs are there iff the file has vt statements")
    c.check((aux.normals is None) == (not t.vn), "normals are there iff the file has vn statements")
    if t.vt:
        c.equal(aux.verts_uvs, stack(t.vt, 2), "uvs")
    if t.vn:
        c.equal(aux.normals, stack(t.vn, 3), "normals")


@monitor(quick=900, thorough=30000, need=("relative", "polygon", "uvs", "normals", "uvs and normals", "bare", "one index for all corners", "faces"))
def parse(c):
    from pytorch3d.io import load_obj
    t = Text(c, materials=c.pick((), ("a", "b")))
    with scratch() as d, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        text = t.text(c)
        kind, f = as_input(c, text, d)
        c.sample(text)
        verts, faces, aux = load_obj(f, load_textures=c.p(0.7))
    judge(c, t, verts, faces, aux)
    c.check(not any("invalid indices" in str(x.message) for x in w), "no index is called invalid", text=text)
    c.check(not aux.material_colors and not aux.texture_images and aux.texture_atlas is None, "no material appears from nowhere")
    for x in t.flags:
        c.count(x)
    c.count("faces", len(t.faces))
    c.count(kind)
    c.sig(kind, tuple(sorted(t.flags)), min(len(t.faces), 6))


def bilinear(img, uv):
    """img (H, W, 3) float64 with v up, uv (..., 2); zero outside, align_corners"""
    h, w, _ = img.shape
    img = img.flip(0)
    x, y = uv[..., 0] * (w - 1), uv[..., 1] * (h - 1)
    x0, y0 = x.floor(), y.floor()
    out = torch.zeros(*uv.shape[:-1], 3, dtype=D)
    for dy in (0, 1):
        for dx in (0, 1):
            xi, yi = x0 + dx, y0 + dy
            wt = (1 - (x - xi).abs()) * (1 - (y - yi).abs())
            ok = (xi >= 0) & (xi < w) & (yi >= 0) & (yi < h)
            out += torch.where(ok, wt, 0.0)[..., None] * img[yi.clamp(0, h - 1).long(), xi.clamp(0, w - 1).long()]
    return out


@monitor(quick=400, thorough=12000, need=("image", "atlas of an image", "colour", "no usemtl", "white"))
def materials(c):
    from pytorch3d.io import load_obj
    names = ["mat%d" % k for k in range(c.i(1, 3))]
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = Text(c, uvs_everywhere=True, materials=names if c.p(0.8) or len(names) > 1 else ())
        mats, lines = {}, []
        for n in [names[k] for k in c.perm(len(names))]:
            m = {}
            lines += c.pick([], ["# comment"], [""]) + ["newmtl" + c.pick(" ", "\t", "  ") + n]
            props = [("Kd", "diffuse_color", 3), ("Ka", "ambient_color", 3), ("Ks", "specular_color", 3), ("Ns", "shininess", 1)]
            props = [props[k] for k in c.perm(4)]
            for key, attr, k in props:
                if c.p(0.6):
                    vals = [num(c, x) for x in c.rand(k).tolist()]
                    m[attr] = torch.stack([f32(x) for x in vals])
                    lines.append(c.pick("", "  ", "\t") + key + c.pick(" ", "\t", "  ") + " ".join(vals))
            if c.p(0.15):
                lines.append("illum 2")
            if c.p(0.6):
                fn = n + c.pick(".png", " with spaces.png", "_x.bmp")
                m["image"] = image(c, os.path.join(d, fn))
                lines.append(c.pick("", " ") + "map_Kd" + c.pick(" ", "\t", "  ") + fn + c.pick("", " "))
            mats[n] = m
        with open(os.path.join(d, "x y.mtl"), "w") as f:
            f.write("\n".join(lines) + c.pick("", "\n"))
        t.lines.insert(0, "mtllib" + c.pick(" ", "\t", "  ") + "x y.mtl")
        text = t.text(c)
        path = os.path.join(d, "m.obj")
        with open(path, "w", newline="") as f:
            f.write(text)
        c.sample(text + "\n----\n" + "\n".join(lines))
        if not t.used:
            if len(names) > 1:
                c.raises(ValueError, lambda: load_obj(path), "several materials without usemtl")
                return
            c.count("no usemtl")
            t.faces = [(a, b, n_, 0) for a, b, n_, _ in t.faces]
            t.used = names
        R = c.i(1, 5)
        wrap = c.pick("repeat", "clamp", None)
        atlas = c.p(0.7) and len(t.faces) > 0
        verts, faces, aux = load_obj(path, create_texture_atlas=atlas, texture_atlas_size=R, texture_wrap=wrap)
    judge(c, t, verts, faces, aux)
    c.equal(list(aux.material_colors), t.used, "the materials the file uses, in the order of their first use")
    c.equal(list(aux.texture_images), [n for n in t.used if "image" in mats[n]], "the images of the used materials")
    for n in t.used:
        got = aux.material_colors[n]
        want = {k: v for k, v in mats[n].items() if k != "image"}
        c.equal(set(got), set(want), "properties of a material")
        for k in want:
            c.equal(got[k].reshape(-1), want[k], k)
            c.count("colour")
        if "image" in mats[n]:
            c.equal(aux.texture_images[n], mats[n]["image"], "texture image")
            c.count("image")
    c.sig(len(t.used), atlas, R if atlas else 0, wrap, tuple(sorted(len(mats[n]) for n in t.used)), "no usemtl" if t.cur < 0 else "")
    if not atlas:
        return
    want = torch.ones(len(t.faces), R, R, 3, dtype=D)
    uv = torch.stack([stack(t.vt, 2)[f[1]] for f in t.faces]).double()
    if wrap == "repeat" and ((uv > 1).any() or (uv < 0).any()):
        if (uv == 1).any():
            return
        uv = uv % 1
        c.count("wrapped")
    elif wrap == "clamp":
        uv = uv.clamp(0, 1)
    safe = torch.ones(len(t.faces), R, R, dtype=torch.bool)
    for k, f in enumerate(t.faces):
        m = mats[t.used[f[3]]] if f[3] >= 0 else {}
        if "diffuse_color" in m:
            want[k] = m["diffuse_color"].double()
        if not m or set(m) - {"ambient_color", "specular_color", "shininess"} == set():
            c.count("white")
        if "image" not in m:
            continue
        c.count("atlas of an image")
        for y in range(R):
            for x in range(R):
                w0, w1 = ((x + 1 / 3) / R, (y + 1 / 3) / R) if x + y < R else ((R - 1 - x + 2 / 3) / R, (R - 1 - y + 2 / 3) / R)
                p = w0 * uv[k, 0] + w1 * uv[k, 1] + (1 - w0 - w1) * uv[k, 2]
                want[k, y, x] = bilinear(m["image"].double(), p)
    near(c, aux.texture_atlas, want, 2e-4, "atlas: each cell is the colour at the centroid of its subtriangle")


@monitor(quick=500, thorough=15000, need=("texture", "normals", "empty", "IO", "again", "path manager"))
def save_load(c):
    from iopath.common.file_io import PathManager, PathHandler
    from pytorch3d.io import IO, load_obj, save_obj
    from pytorch3d.renderer import TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes
    V, F = c.i(1, 30), c.i(0, 40)
    if c.p(0.08):
        V = F = 0
        c.count("empty")
    verts = c.randn(V, 3) * c.pick(1e-3, 1.0, 1.0, 1e4)
    faces = c.randint(0, max(V, 1), (F, 3))
    dp = c.pick(None, None, 0, 1, 3, 8)
    tol = 0.5 * 10.0 ** -(6 if dp is None else dp)
    tex = c.p(0.5) and F > 0
    nrm = c.p(0.5) and F > 0
    kw = {}
    if tex:
        T = c.i(1, 20)
        kw.update(verts_uvs=c.rand(T, 2), faces_uvs=c.randint(0, T, (F, 3)), texture_map=c.rand(c.i(1, 7), c.i(1, 7), 3))
        if c.p(0.3):
            kw["texture_map"] = c.randint(0, 256, kw["texture_map"].shape).float() / 255
            c.count("8 bit texture")
        if c.p(0.2):
            kw["texture_map"][0, 0] = c.pick(0.0, 1.0)
    elif c.p(0.2) and F > 0:
        kw.update(verts_uvs=c.rand(4, 2))     # incomplete texture: nothing is saved
    if nrm:
        N = c.i(1, 20)
        kw.update(normals=c.randn(N, 3), faces_normals_idx=c.randint(0, N, (F, 3)))
    dt = c.pick(torch.float32, torch.float32, torch.float64)
    use_io = c.p(0.4)
    pm = None

    def compare(v, f, aux, uv, ref=verts):
        c.equal(tuple(v.shape), (V, 3), "number of vertices")
        near(c, v.double(), ref.double(), tol * 1.001 + 1e-6 * (1 + ref.abs().max().item() if V else 1), "vertices to the written precision")
        c.equal(f.verts_idx, faces, "faces")
        if uv:
            near(c, aux.verts_uvs.double(), kw["verts_uvs"].double(), tol * 1.001 + 1e-6, "uvs to the written precision")
            c.equal(f.textures_idx, kw["faces_uvs"], "texture indices")
            img, = aux.texture_images.values()
            c.equal(tuple(img.shape), tuple(kw["texture_map"].shape), "shape of the texture image")
            c.check((img - kw["texture_map"]).abs().max() < 1 / 255 + 1e-6, "texture to 8 bits")
            exact = (kw["texture_map"] * 255 - (kw["texture_map"] * 255).round()).abs() < 1e-6
            c.check((img - kw["texture_map"])[exact].abs().max() < 1e-6 if exact.any() else True, "8 bit values are kept")
        else:
            c.check(aux.verts_uvs is None and not aux.texture_images, "no texture where none was saved")

    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        name = c.pick("a.obj", "b c.obj", "d.e.obj", "UP.OBJ" if use_io else "up.obj")
        path = os.path.join(d, name)
        if c.p(0.25):
            class Handler(PathHandler):
                def _get_supported_prefixes(self):
                    return ["verif://"]

                def _get_local_path(self, path, force=False, **k):
                    return os.path.join(d, path[len("verif://"):])

                def _open(self, path, mode="r", buffering=-1, **k):
                    return open(self._get_local_path(path), mode)

                def _exists(self, path, **k):
                    return os.path.exists(self._get_local_path(path))
            pm = PathManager()
            pm.register_handler(Handler())
            path = "verif://folder/" + name
            os.mkdir(os.path.join(d, "folder"))
            c.count("path manager")
        elif c.p(0.5):
            path = Path(path)
        if use_io:
            t = None
            if tex:
                t = TexturesUV(kw["texture_map"][None], [kw["faces_uvs"]], [kw["verts_uvs"]])
            elif c.p(0.3) and V:
                t = TexturesVertex([c.rand(V, 3)])
            m = Meshes([verts], [faces], textures=t)
            inc = c.p(0.8)
            IO(path_manager=pm).save_mesh(m, path, include_textures=inc, decimal_places=dp)
            c.check((m.textures is None) == (t is None), "saving leaves the mesh as it was")
            tex = tex and inc
            nrm = False
            c.count("IO" if inc else "without textures")
        else:
            save_obj(path, verts.to(dt), faces, decimal_places=dp, path_manager=pm, **{k: (x.to(dt) if x.is_floating_point() and k != "texture_map" else x) for k, x in kw.items()})
        v, f, aux = load_obj(path, path_manager=pm)
        compare(v, f, aux, tex)
        if F:
            if nrm:
                near(c, aux.normals.double(), kw["normals"].double(), tol * 1.001 + 1e-6, "normals")
                c.equal(f.normals_idx, kw["faces_normals_idx"], "normal indices")
                c.count("normals")
            else:
                c.check(aux.normals is None, "no normals where none were saved")
        if tex:
            c.count("texture")
        if use_io and V and F:
            m2 = IO(path_manager=pm).load_mesh(path, include_textures=c.p(0.8))
            c.equal(m2.verts_list()[0], v, "load_mesh: vertices")
            c.equal(m2.faces_list()[0], faces, "load_mesh: faces")
            if m2.textures is not None:
                c.check(tex, "no texture from nowhere")
                c.equal(m2.textures.verts_uvs_list()[0], aux.verts_uvs, "load_mesh: uvs")
                c.equal(m2.textures.faces_uvs_list()[0], f.textures_idx, "load_mesh: face uvs")
                c.equal(m2.textures.maps_padded()[0], *aux.texture_images.values(), "load_mesh: map")
                # what was loaded is saved and loaded again without change
                p2 = os.path.join(d, "again.obj")
                IO().save_mesh(m2, p2, decimal_places=8)
                m3 = IO().load_mesh(p2)
                near(c, m3.verts_list()[0], v, 1e-6 + 1e-8 * float(v.abs().max()), "saved again: vertices")
                c.equal(m3.textures.maps_padded(), m2.textures.maps_padded(), "saved again: the texture is unchanged")
                c.count("again")
    c.sig(use_io, tex, nrm, dp, F == 0, pm is not None, name)


@monitor(quick=150, thorough=4000, need=("textured batch", "atlas batch", "plain batch"))
def batches(c):
    from pytorch3d.io import IO, load_objs_as_meshes
    n = c.i(1, 4)
    kind = c.pick("textured", "atlas", "plain")
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        paths, size = [], (c.i(1, 5), c.i(1, 5))
        from pytorch3d.io import save_obj
        for k in range(n):
            v, f = gen.mesh(c)
            T = c.i(3, 9)
            kw = dict(verts_uvs=c.rand(T, 2), faces_uvs=c.randint(0, T, (len(f), 3)), texture_map=c.rand(*size, 3)) if kind != "plain" else {}
            if not len(f):
                return
            p = os.path.join(d, "%d.obj" % k)
            save_obj(p, v, f, **kw)
            paths.append(p)
        kw = dict(create_texture_atlas=kind == "atlas", texture_atlas_size=c.i(1, 4))
        batch = load_objs_as_meshes(paths, **kw)
        single = [IO().load_mesh(p, **kw) for p in paths]
    c.equal(len(batch), n, "a mesh for every file")
    for k in range(n):
        c.equal(batch.verts_list()[k], single[k].verts_list()[0], "vertices of mesh %d" % k)
        c.equal(batch.faces_list()[k], single[k].faces_list()[0], "faces of mesh %d" % k)
        if kind == "textured":
            c.equal(batch.textures.verts_uvs_list()[k], single[k].textures.verts_uvs_list()[0], "uvs")
            c.equal(batch.textures.faces_uvs_list()[k], single[k].textures.faces_uvs_list()[0], "face uvs")
            c.equal(batch.textures.maps_padded()[k], single[k].textures.maps_padded()[0], "maps")
        elif kind == "atlas":
            c.equal(batch.textures.atlas_list()[k], single[k].textures.atlas_list()[0], "atlas")
        else:
            c.check(batch.textures is None, "no texture")
    c.count(kind + " batch")
    c.sig(n, kind, kw["texture_atlas_size"] if kind == "atlas" else 0, size)
