"""PLY and OFF files written by an independent encoder against their content; saved meshes and clouds against their loaded copies."""
import contextlib
import io
import os
import shutil
import struct
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch

from lib import gen
from lib.harness import monitor

NATIVE = False
RULE = ("PLY headers with 1..4 elements in any order, 3..14 vertex properties in any order with any of 16 type names, lists with any count and value "
        "type, ascii and both byte orders, text and binary streams; OFF texts with 3 kinds of colours; 0..25 vertices, polygons of 3..6 corners; saved "
        "meshes and clouds with every option; distinct = distinct (encoding, paths through the reader, attributes)")
ASSUMPTIONS = ["face elements have one list property and vertex elements have none (others are rejected by documented errors)",
               "integer colours of OFF vertices are recognised by coordinates with decimal points, as the reader documents"]

TYPES = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "float": "f", "double": "d",
         "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "float32": "f", "float64": "d"}
FLOATS = ("float", "double", "float32", "float64")
RANGE = {"b": (-100, 127), "B": (0, 255), "h": (-3000, 3000), "H": (0, 60000), "i": (-10 ** 6, 10 ** 6), "I": (0, 3 * 10 ** 9)}


def near(c, got, want, tol, msg):
    c.close(got, want, msg, atol=tol, rtol=0)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c32-")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def value(c, t):
    if t in FLOATS:
        x = float(np.float32(c.rng.normal() * c.pick(1e-3, 1, 1, 100)))
        return x
    lo, hi = RANGE[TYPES[t]]
    return c.i(lo, hi) if c.p(0.7) else c.pick(lo, hi, 0)


def token(c, t, x):
    return (c.pick("%.9g", "%.9e", "%r") % x) if t in FLOATS else "%d" % x


class Ply:
    def __init__(self, c):
        self.enc = c.pick("ascii", "ascii", "binary_little_endian", "binary_big_endian")
        self.end = ">" if "big" in self.enc else "<"
        self.flags = set()
        self.V = c.pick(0, 1) if c.p(0.1) else c.i(2, 25)
        self.head, self.body, self.flat = [], [], b""
        order = ["vertex"] + (["face"] if c.p(0.85) else []) + (["edge"] if c.p(0.25) else []) + (["thing"] if c.p(0.25) else [])
        order = [order[k] for k in c.perm(len(order))] if c.p(0.4) else order
        self.faces, self.elements = None, []
        for name in order:
            getattr(self, name)(c)

    def element(self, name, props, rows):
        """props: (name, type, list count type or None)"""
        self.elements.append((name, props, rows))

    def vertex(self, c):
        same = c.pick(*FLOATS, "int", "double") if c.p(0.4) else None
        ft = lambda: same or (c.pick(*FLOATS) if c.p(0.8) else c.pick("int", "short", "uchar", "int16"))
        props = [(n, ft()) for n in "xyz"]
        self.colour = self.normal = self.uv = False
        if c.p(0.4):
            t = same or c.pick("uchar", "uint8", "float", "double")
            self.colour = (1 / 255) if t in ("uchar", "uint8") else 1.0
            props += [(n, t) for n in ("red", "green", "blue")]
            if c.p(0.4):
                props.append(("alpha", t))
        if c.p(0.35):
            t = same or c.pick("float", "double", "float32")
            self.normal = True
            props += [(n, t) for n in ("nx", "ny", "nz")]
        if c.p(0.2):
            self.uv = True
            t = same or c.pick("float", "float64")
            props += [(n, t) for n in ("texture_u", "texture_v")]
        for k in range(c.i(0, 2) if c.p(0.3) else 0):
            props.append(("extra%d" % k, same or c.pick(*TYPES)))
        if c.p(0.5):
            props = [props[k] for k in c.perm(len(props))]
            self.flags.add("shuffled properties")
            if [p[0] for p in props] != list("xyz") and len(props) == 3:
                self.flags.add("coordinates out of order")
        rows = [[value(c, t) for _, t in props] for _ in range(self.V)]
        col = {n: torch.tensor([r[k] for r in rows], dtype=torch.float64) for k, (n, _) in enumerate(props)}
        get = lambda *n: torch.stack([col[x] for x in n], 1).float()
        self.verts = get("x", "y", "z")
        self.colours = get("red", "green", "blue") * self.colour if self.colour else None
        self.normals = get("nx", "ny", "nz") if self.normal else None
        self.flags.add("one type" if len({TYPES[t] for _, t in props}) == 1 else "several types")
        self.element("vertex", [(n, t, None) for n, t in props], rows)

    def face(self, c):
        n = c.i(0, 20) if self.V else 0
        it = c.pick("int", "uint", "uchar", "short", "int32", "uint16")
        const = c.pick(3, 4, 5) if c.p(0.6) else None
        rows = [[[c.i(0, self.V - 1) for _ in range(const or c.pick(3, 4, 6))]] for _ in range(n)]
        self.faces = [(p[0], p[k + 1], p[k + 2]) for p, in rows for k in range(len(p) - 2)]
        self.flags.add("constant faces" if const else "mixed faces")
        self.element("face", [(c.pick("vertex_indices", "vertex_index"), it, c.pick("uchar", "int", "ushort", "uint8", "char"))], rows)

    def edge(self, c):
        props = [("vertex1", "int", None), ("vertex2", "int", None)] + ([("w", "float", None)] if c.p(0.5) else [])
        self.element("edge", props, [[value(c, t) for _, t, _ in props] for _ in range(c.i(0, 4))])
        self.flags.add("other elements")

    def thing(self, c):
        props = [("p%d" % k, c.pick(*TYPES), c.pick(None, None, "uchar", "int")) for k in range(c.i(1, 3))]
        rows = [[value(c, t) if l is None else [value(c, t) for _ in range(c.i(0, 3))] for _, t, l in props] for _ in range(c.i(0, 4))]
        self.element("thing", props, rows)
        self.flags.add("other elements")
        if any(l for _, _, l in props):
            self.flags.add("lists elsewhere")

    def bytes(self, c):
        nl = c.pick(b"\n", b"\n", b"\r\n") if self.enc == "ascii" else b"\n"
        h = [b"ply"]
        note = lambda: h.append(c.pick(b"comment made by hand", b"obj_info num_cols 3", b"comment", b"comment element vertex 7")) if c.p(0.15) else None
        h.append(b"format %s 1.0" % self.enc.encode())
        note()
        for name, props, rows in self.elements:
            h.append(b"element %s %d" % (name.encode(), len(rows)))
            for n, t, l in props:
                note()
                h.append(("property %s%s %s" % ("list %s " % l if l else "", t, n)).encode())
        note()
        h.append(b"end_header")
        out = nl.join(h) + nl
        if self.enc == "ascii":
            lines = []
            for _, props, rows in self.elements:
                for r in rows:
                    toks = []
                    for x, (_, t, l) in zip(r, props):
                        if l:
                            toks.append("%d" % len(x))
                            toks += [token(c, t, y) for y in x]
                        else:
                            toks.append(token(c, t, x))
                    lines.append(c.pick(" ", " ", "  ").join(toks).encode() + c.pick(b"", b"", b" "))
            return out + nl.join(lines) + c.pick(b"", nl)
        for _, props, rows in self.elements:
            for r in rows:
                for x, (_, t, l) in zip(r, props):
                    if l:
                        out += struct.pack(self.end + TYPES[l], len(x)) + struct.pack(self.end + "%d%s" % (len(x), TYPES[t]), *x)
                    else:
                        out += struct.pack(self.end + TYPES[t], x)
        return out


def feed(c, data, d, text_ok, name="m.ply"):
    kinds = ["str", "path", "byte stream", "open file"] + (["text stream", "open text file"] if text_ok else [])
    k = c.pick(*kinds)
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    if k == "str":
        return k, p
    if k == "path":
        return k, Path(p)
    if k == "byte stream":
        return k, io.BytesIO(data)
    if k == "text stream":
        return k, io.StringIO(data.decode().replace("\r\n", "\n"))
    return k, open(p, "rb" if k == "open file" else "r")


def triangles(c, got, want, msg):
    """the same triangles; the order of the pieces of the polygons is free"""
    got = sorted(map(tuple, got.tolist()))
    c.equal(got, sorted(tuple(x) for x in want), msg)


@monitor(quick=1200, thorough=40000, need=("one type", "several types", "coordinates out of order", "constant faces", "mixed faces", "other elements",
                                          "lists elsewhere", "ascii", "binary_little_endian", "binary_big_endian", "colours", "normals", "open text file"))
def ply_parse(c):
    from pytorch3d.io import IO, load_ply
    from pytorch3d.renderer import TexturesVertex
    p = Ply(c)
    with scratch() as d:
        data = p.bytes(c)
        c.sample(data[:300])
        how = c.pick("load_ply", "mesh", "cloud")
        kind, f = feed(c, data, d, p.enc == "ascii")
        try:
            if how == "load_ply":
                verts, faces = load_ply(f)
                c.equal(verts, p.verts, "vertices")
                triangles(c, faces, p.faces or [], "faces")
            elif how == "mesh":
                inc = c.p(0.8)
                m = IO().load_mesh(f, include_textures=inc)
                c.equal(m.verts_list()[0], p.verts, "vertices")
                triangles(c, m.faces_list()[0], p.faces or [], "faces")
                if inc and p.colour:
                    c.check(isinstance(m.textures, TexturesVertex), "colours become vertex features")
                    near(c, m.textures.verts_features_list()[0], p.colours, 1e-6 * (1 + float(p.colours.abs().max()) if p.V else 1), "colours")
                    c.count("colours")
                elif not (inc and p.uv):
                    c.check(m.textures is None, "no texture appears")
                if p.V:
                    c.equal(m.has_verts_normals(), p.normal, "normals are there iff the file has them")
                if p.normal and p.faces:
                    c.equal(m.verts_normals_list()[0], p.normals, "normals")
                    c.count("normals")
            else:
                m = IO().load_pointcloud(f)
                c.equal(m.points_list()[0], p.verts, "points")
                if p.V:
                    c.equal(m.features_list() is not None, bool(p.colour), "features are there iff the file has colours")
                    c.equal(m.normals_list() is not None, p.normal, "normals are there iff the file has them")
                if p.colour and p.V:
                    near(c, m.features_list()[0], p.colours, 1e-6 * (1 + float(p.colours.abs().max())), "colours")
                if p.normal and p.V:
                    c.equal(m.normals_list()[0], p.normals, "normals")
        finally:
            if hasattr(f, "close"):
                f.close()
    for x in p.flags | {p.enc, kind}:
        c.count(x)
    c.sig(p.enc, how, kind, tuple(sorted(p.flags)), bool(p.colour), p.normal, p.uv, p.V == 0)


@monitor(quick=200, thorough=5000, need=("uv texture",))
def ply_texture(c):
    """the uv texture named by a TextureFile comment"""
    from PIL import Image
    from pytorch3d.io import IO
    V, F = c.i(3, 12), c.i(1, 12)
    uv, v = c.rand(V, 2), c.randn(V, 3)
    faces = c.randint(0, V, (F, 3))
    img = c.randint(0, 256, (c.i(1, 6), c.i(1, 6), 3)).numpy().astype(np.uint8)
    names = ["x", "y", "z"]
    with scratch() as d:
        Image.fromarray(img).save(os.path.join(d, "skin.png"))
        first = c.p(0.5)
        props = (["texture_u", "texture_v"] + names) if first else names + ["texture_u", "texture_v"]
        rows = torch.cat([uv, v] if first else [v, uv], 1).numpy().astype("<f4")
        h = ["ply", "format binary_little_endian 1.0", "comment TextureFile skin.png", "element vertex %d" % V] + ["property float " + p for p in props]
        h += ["element face %d" % F, "property list uchar int vertex_indices", "end_header", ""]
        rec = np.zeros(F, dtype=[("n", "u1"), ("i", "<i4", 3)])
        rec["n"], rec["i"] = 3, faces.numpy()
        p = os.path.join(d, "m.ply")
        with open(p, "wb") as f:
            f.write("\n".join(h).encode() + rows.tobytes() + rec.tobytes())
        m = IO().load_mesh(c.pick(p, Path(p)))
    c.equal(m.textures.verts_uvs_list()[0], uv, "uvs")
    c.equal(m.textures.faces_uvs_list()[0], faces, "the uvs of a face are those of its vertices")
    near(c, m.textures.maps_padded()[0], torch.from_numpy(img).float() / 255, 1e-6, "map")
    c.count("uv texture")
    c.sig(first, img.shape, V, F)


def tol_of(dp, *xs):
    return 0.5 * 10.0 ** -(6 if dp is None else dp) * 1.001 + 1e-6 * (1 + max([float(x.abs().max()) for x in xs if x is not None and x.numel()], default=0))


@monitor(quick=900, thorough=30000, need=("mesh", "cloud", "save_ply", "byte colours", "normals", "colours", "ascii", "binary", "empty"))
def ply_save(c):
    from pytorch3d.io import IO, load_ply, save_ply
    from pytorch3d.renderer import TexturesVertex
    from pytorch3d.structures import Meshes, Pointclouds
    V, F = c.i(1, 25), c.i(0, 25)
    if c.p(0.07):
        V = F = 0
        c.count("empty")
    v = c.randn(V, 3) * c.pick(1e-3, 1, 1, 1e4)
    f = c.randint(0, max(V, 1), (F, 3))
    n = c.randn(V, 3) if c.p(0.5) else None
    how = c.pick("mesh", "mesh", "cloud", "save_ply")
    if how != "cloud" and not F:
        n = None    # Meshes do not keep normals without faces
    col = c.rand(V, 3) if c.p(0.5) else None
    if col is not None and V and c.p(0.3):
        col[0] = torch.tensor([0.0, 1.0, 0.5])
    binary = c.pick(None, True, False)
    dp = c.pick(None, 0, 2, 8) if binary is False else c.pick(None, 3)
    asc = binary is False
    b8 = c.p(0.4)
    tol = tol_of(dp, v) if asc else 0.0
    ctol = (0.5 / 255 + 1e-6) if b8 else (tol_of(dp, col) if asc else 0.0)
    with scratch() as d:
        p = os.path.join(d, c.pick("a.ply", "A.PLY"))
        out = c.pick(p, Path(p), io.BytesIO())
        again = lambda: io.BytesIO(out.getvalue()) if isinstance(out, io.BytesIO) else out
        need_grad = c.p(0.2)
        vv = v.clone().requires_grad_() if need_grad else v
        if how == "save_ply":
            asc = c.p(0.5)
            tol = tol_of(dp, v) if asc else 0.0
            dt = torch.float64 if c.p(0.3) else torch.float32
            save_ply(out, vv.to(dt), f if F or c.p(0.5) else None, None if n is None else n.to(dt), ascii=asc, decimal_places=dp)
            gv, gf = load_ply(again())
            near(c, gv, v, tol, "vertices")
            c.equal(gf, f, "faces")
            if n is not None and V:
                near(c, IO().load_mesh(again()).verts_normals_list()[0], n, tol_of(dp, n) if asc else 0.0, "normals")
        elif how == "mesh":
            tex = None if col is None else TexturesVertex([col])
            m = Meshes([vv], [f], textures=tex, verts_normals=None if n is None else [n])
            inc = c.p(0.85)
            IO().save_mesh(m, out, binary=binary, decimal_places=dp, colors_as_uint8=b8, include_textures=inc)
            g = IO().load_mesh(again())
            near(c, g.verts_list()[0], v, tol, "vertices")
            c.equal(g.faces_list()[0], f, "faces")
            c.equal(g.textures is not None, col is not None and inc, "there is a texture iff one was saved")
            if g.textures is not None:
                near(c, g.textures.verts_features_list()[0], col, ctol, "vertex colours")
                c.count("colours")
                if b8:
                    c.count("byte colours")
            if V:
                c.equal(g.has_verts_normals(), n is not None, "there are normals iff they were saved")
                if n is not None:
                    near(c, g.verts_normals_list()[0], n, tol_of(dp, n) if asc else 0.0, "normals")
                    c.count("normals")
        else:
            m = Pointclouds([vv], normals=None if n is None else [n], features=None if col is None else [col])
            IO().save_pointcloud(m, out, binary=binary, decimal_places=dp, colors_as_uint8=b8)
            g = IO().load_pointcloud(again())
            near(c, g.points_list()[0], v, tol, "points")
            if V:
                c.equal(g.features_list() is not None, col is not None, "there are features iff they were saved")
                c.equal(g.normals_list() is not None, n is not None, "there are normals iff they were saved")
                if col is not None:
                    near(c, g.features_list()[0], col, ctol, "features")
                if n is not None:
                    near(c, g.normals_list()[0], n, tol_of(dp, n) if asc else 0.0, "normals")
        c.count(how)
        c.count("ascii" if asc else "binary")
    c.sig(how, asc, dp, b8, n is not None, col is not None, V == 0, F == 0, type(out).__name__)


@monitor(quick=700, thorough=25000, need=("polygons", "mixed polygons", "int vertex colours", "float vertex colours", "int face colours", "float face colours", "comments"))
def off_parse(c):
    from pytorch3d.io import IO
    from pytorch3d.renderer import TexturesAtlas, TexturesVertex
    V, F = c.i(1, 20), c.i(0, 15)
    size = None if c.p(0.4) else c.pick(3, 3, 4, 5)
    vc, fc = c.pick(None, None, "int", "float"), c.pick(None, None, "int", "float")
    C = c.pick(3, 4)
    lines, flags = [], set()

    def noise():
        if c.p(0.12):
            lines.append(c.pick("", "# a comment", "   ", "# 1 2.5 3"))
            flags.add("comments")
    num = lambda x: c.pick("%.6f", "%.4f", "%.8f") % x
    col = lambda k: ([c.i(0, 255) for _ in range(C)] if k == "int" else [num(c.u()) for _ in range(C)])
    tail = lambda: c.pick("", "", " ", "  # note" if c.p(0.3) else "")
    verts, vcols, faces, fcols = [], [], [], []
    for _ in range(V):
        t = [num(x) for x in c.randn(3).tolist()]
        verts.append([float(x) for x in t])
        noise()
        if vc:
            k = col(vc)
            vcols.append([float(x) / (255 if vc == "int" else 1) for x in k])
            t += [str(x) for x in k]
        lines.append(c.pick(" ", "  ").join(t) + tail())
    for _ in range(F):
        n = size or c.pick(3, 4, 6)
        p = [c.i(0, V - 1) for _ in range(n)]
        t = [str(n)] + [str(x) for x in p]
        k = col(fc) if fc else []
        t += [str(x) for x in k]
        noise()
        lines.append(" ".join(t) + tail())
        for j in range(n - 2):
            faces.append((p[0], p[j + 1], p[j + 2]))
            fcols.append([float(x) / (255 if fc == "int" else 1) for x in k])
    noise()
    counts = "%d %d %d" % (V, F, c.pick(0, 12)) + tail()
    kind = c.i(0, 2)
    text = ("# leading comment\n" if c.p(0.1) else "") + (c.pick("OFF\n", "off\n", "OFF # c\n", "OFF\n\n# c\n") + counts, "OFF " + counts, counts)[kind] + "\n" + "\n".join(lines) + c.pick("", "\n")
    if c.p(0.2):
        text = text.replace("\n", "\r\n")
    c.sample(text)
    with scratch() as d:
        p = os.path.join(d, "m.off")
        with open(p, "wb") as f:
            f.write(text.encode())
        m = IO().load_mesh(c.pick(p, Path(p)))
    near(c, m.verts_list()[0], torch.tensor(verts), 1e-6, "vertices")
    order = sorted(range(len(faces)), key=lambda k: faces[k])
    got = m.faces_list()[0].tolist()
    gorder = sorted(range(len(got)), key=lambda k: got[k])
    c.equal([tuple(got[k]) for k in gorder], [faces[k] for k in order], "faces")
    if vc:
        c.check(isinstance(m.textures, TexturesVertex), "vertex colours become vertex features")
        near(c, m.textures.verts_features_list()[0], torch.tensor(vcols), 1e-6, "vertex colours")
        c.count(vc + " vertex colours")
    elif fc and F:
        c.check(isinstance(m.textures, TexturesAtlas), "face colours become an atlas")
        a = m.textures.atlas_list()[0]
        c.equal(tuple(a.shape[1:]), (1, 1, C), "shape of the atlas")
        a = a[:, 0, 0].double().numpy()
        pair = lambda fs, cs: sorted((tuple(x), tuple(round(float(y), 4) for y in z)) for x, z in zip(fs, cs))
        g, w = pair(got, a), pair(faces, fcols)
        c.equal([x[0] for x in g], [x[0] for x in w], "faces with colours")
        near(c, torch.tensor([x[1] for x in g]), torch.tensor([x[1] for x in w]), 2e-4, "the colour of a polygon is that of its triangles")
        c.count(fc + " face colours")
    else:
        c.check(m.textures is None, "no texture appears")
    if F:
        c.count("polygons" if size and size > 3 else "mixed polygons" if not size else "triangles")
    for x in flags:
        c.count(x)
    c.sig(vc, fc, C if vc or fc else 0, size, kind, F == 0, V == 1)


@monitor(quick=400, thorough=12000, need=("vertex colours", "face colours", "empty", "no faces"))
def off_save(c):
    from pytorch3d.io import IO
    from pytorch3d.renderer import TexturesAtlas, TexturesVertex
    from pytorch3d.structures import Meshes
    V, F = c.i(1, 25), c.pick(0, 1, c.i(2, 25))
    if c.p(0.08):
        V = F = 0
        c.count("empty")
    v = c.randn(V, 3) * c.pick(1e-2, 1, 1, 1e3)
    f = c.randint(0, max(V, 1), (F, 3))
    dp = c.pick(None, None, 2, 8)
    C = c.pick(3, 4)
    kind = c.pick(None, "vertex", "face")
    tex, col = None, None
    if kind == "vertex" and V:
        col = c.rand(V, C)
        tex = TexturesVertex([col])
    elif kind == "face" and F:
        col = c.rand(F, C)
        tex = TexturesAtlas([col[:, None, None]])
    if col is not None and c.p(0.3):
        col[0] = torch.tensor([0.0, 1.0, 1.0, 0.0][:C])
    m = Meshes([v], [f], textures=tex)
    with scratch() as d:
        p = os.path.join(d, c.pick("a.off", "A.OFF"))
        p = c.pick(p, Path(p))
        inc = c.p(0.85)
        IO().save_mesh(m, p, decimal_places=dp, include_textures=inc)
        g = IO().load_mesh(p)
    near(c, g.verts_list()[0], v, tol_of(dp, v), "vertices")
    c.equal(tuple(g.verts_list()[0].shape), (V, 3), "shape of the vertices")
    c.equal(g.faces_list()[0], f, "faces")
    c.equal(g.textures is None, tex is None or not inc, "there is a texture iff one was saved")
    if g.textures is not None:
        got = g.textures.verts_features_list()[0] if kind == "vertex" else g.textures.atlas_list()[0][:, 0, 0]
        near(c, got, col, tol_of(dp if kind == "vertex" else None, col), kind + " colours")
        c.count(kind + " colours")
    if not F:
        c.count("no faces")
    c.sig(kind, dp, C, V == 0, F == 0, inc)
