"""Broken mesh files: every prefix of a file, wrong counts, bad tokens, indices out of range, damaged headers, flipped bytes, inconsistent glTF."""
import base64
import copy
import io
import json
import os
import resource
import shutil
import signal
import struct
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch

from lib.harness import monitor

NATIVE = False
RULE = ("small OBJ, OFF, PLY (ascii and both byte orders) and glTF files of up to 8 vertices and faces with colours, normals, mixed polygons and extra "
        "elements; every prefix of each; changed counts, replaced, removed and added tokens, out of range indices, damaged header lines, flipped bytes, "
        "changed glTF fields; from paths and streams; distinct = distinct (format, mutation, outcome)")
ASSUMPTIONS = ["a text file cut inside its last number, or an OFF file of one coloured line cut after a legal number of columns, is itself well formed",
               "OBJ files declare no counts, so a prefix ending at a line is well formed; unknown OBJ keywords are ignored by design"]

INTS = {"char": ("b", -128, 127), "uchar": ("B", 0, 255), "short": ("h", -2 ** 15, 2 ** 15 - 1), "ushort": ("H", 0, 2 ** 16 - 1),
        "int": ("i", -2 ** 31, 2 ** 31 - 1), "uint": ("I", 0, 2 ** 32 - 1)}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


_limited = False


def attempt(c, fn, what):
    """-> (result or None, exception or None, warnings)"""
    global _limited
    if not _limited:
        _limited = True
        now = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (now + (3 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 25)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r, e = fn(), None
    except Exception as x:
        r, e = None, x
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        c.fail("loading did not end: " + what)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    c.count("loads")
    return r, e, [str(x.message) for x in w]


class Files:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="c34-")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, suffix, data):
        p = os.path.join(self.d, "m" + suffix)
        with open(p, "wb") as f:
            f.write(data)
        return p


def loader(c, files, fmt, data, how=None):
    """a function that loads the bytes, as (vertices, faces)"""
    from pytorch3d.io import IO, load_obj, load_ply
    how = how or c.pick("path", "stream")
    if fmt == "obj":
        def go():
            src = files.path(".obj", data) if how == "path" else io.StringIO(data.decode("latin-1"))
            v, f, aux = load_obj(src, load_textures=False)
            return v, f.verts_idx
    elif fmt.startswith("ply"):
        def go():
            if how == "stream":
                return load_ply(io.BytesIO(data))
            p = files.path(".ply", data)
            if c.p(0.5):
                m = IO().load_mesh(p)
                return m.verts_list()[0], m.faces_list()[0]
            return load_ply(Path(p))
    elif fmt == "off":
        def go():
            m = IO().load_mesh(files.path(".off", data))
            return m.verts_list()[0], m.faces_list()[0]
    else:
        def go():
            from iopath.common.file_io import PathManager
            from pytorch3d.io.experimental_gltf_io import load_meshes
            ms = load_meshes(files.path(".glb", data) if how == "path" else io.BytesIO(data), PathManager())
            return (torch.cat([m.verts_packed() for _, m in ms]) if ms else torch.zeros(0, 3),
                    torch.cat([m.faces_list()[0] for _, m in ms]) if ms else torch.zeros(0, 3, dtype=torch.int64))
    return go


def number(c):
    return "%.4f" % (c.rng.normal() + 0.00003)


class Doc:
    """fmt, header: list of lines, rows: list of lists of [token, tag, spec]"""

    def __init__(self, c, fmt):
        self.fmt = fmt
        self.V, self.F = c.i(3, 8), c.i(1, 8)
        const = c.pick(3, 4) if c.p(0.5) else None
        self.polys = [[c.i(0, self.V - 1) for _ in range(const or c.pick(3, 4, 5))] for _ in range(self.F)]
        self.rows = []
        getattr(self, fmt.split("-")[0])(c)

    def faces(self):
        return [(p[0], p[k + 1], p[k + 2]) for p in self.polys for k in range(len(p) - 2)]

    def xyz(self, c):
        r = [[number(c), "float", None] for _ in range(3)]
        self.coords.append([float(x[0]) for x in r])
        return r

    def obj(self, c):
        self.coords, self.header = [], []
        key = lambda k: [k, "key", None]
        for _ in range(self.V):
            self.rows.append([key("v")] + self.xyz(c))
        self.vt = c.i(1, 5) if c.p(0.5) else 0
        self.vn = c.i(1, 5) if c.p(0.5) else 0
        for _ in range(self.vt):
            self.rows.append([key("vt"), [number(c), "float", None], [number(c), "float", None]])
        for _ in range(self.vn):
            self.rows.append([key("vn")] + [[number(c), "float", None] for _ in range(3)])
        for p in self.polys:
            corner = lambda v: "%d" % (v + 1) + ("/" + ("%d" % c.i(1, self.vt) if self.vt else "") if self.vt or self.vn else "") + \
                ("/%d" % c.i(1, self.vn) if self.vn else "")
            self.rows.append([key("f")] + [[corner(v), "corner", None] for v in p])

    def off(self, c):
        self.coords = []
        self.header = ["OFF", "%d %d 0" % (self.V, self.F)]
        vc = c.pick(0, 0, 3, 4)
        for _ in range(self.V):
            self.rows.append(self.xyz(c) + [["%.3f" % c.u(), "float", None] for _ in range(vc)])
        fc = c.pick(0, 0, 0, 3, 4)
        for p in self.polys:
            self.rows.append([["%d" % len(p), "len", None]] + [["%d" % v, "index", ("int",)] for v in p] + [["%.3f" % c.u(), "float", None] for _ in range(fc)])
        self.coloured = bool(vc or fc)

    def ply(self, c):
        self.coords = []
        self.enc = self.fmt[4:]
        t = c.pick("float", "double")
        props = [(n, t) for n in "xyz"]
        if c.p(0.4):
            ct = c.pick("uchar", t, "ushort")
            props += [(n, ct) for n in ("red", "green", "blue")]
        self.props = {"vertex": props}
        self.header = ["ply", "format %s 1.0" % self.enc]
        if c.p(0.3):
            self.header.append("comment made here")
        self.header += ["element vertex %d" % self.V] + ["property %s %s" % (b, a) for a, b in props]
        ft, lt = c.pick("int", "uint", "uchar", "short"), c.pick("uchar", "int", "ushort", "char")
        face_h = ["element face %d" % self.F, "property list %s %s vertex_indices" % (lt, ft)]
        edges = c.i(1, 4) if c.p(0.3) else 0
        et = [c.pick("int", "uchar", "short"), c.pick("int", "ushort", "float")]
        edge_h = ["element edge %d" % edges, "property %s a" % et[0], "property %s b" % et[1]] if edges else []
        last = c.p(0.5)
        self.header += (face_h + edge_h if last else edge_h + face_h) + ["end_header"]
        for _ in range(self.V):
            row = self.xyz(c)
            for x in row:
                x[2] = (t,)
            row += [["%d" % c.i(0, 255), "int", (b,)] if b in INTS else [number(c), "float", (b,)] for _, b in props[3:]]
            self.rows.append(row)
        fr = [[["%d" % len(p), "len", (lt,)]] + [["%d" % v, "index", (ft,)] for v in p] for p in self.polys]
        er = [[["%d" % c.i(40, 100), "int", (x,)] if x != "float" else [number(c), "float", (x,)] for x in et] for _ in range(edges)]
        self.rows += fr + er if last else er + fr

    def render(self):
        out = "".join(h + "\n" for h in self.header).encode()
        if self.fmt.startswith("ply") and self.enc != "ascii":
            e = ">" if "big" in self.enc else "<"
            for r in self.rows:
                for tok, _, (t,) in r:
                    ch = INTS[t][0] if t in INTS else t[0]
                    out += struct.pack(e + ch, int(tok) if t in INTS else float(tok))
            return out
        return out + "".join(" ".join(t[0] for t in r) + "\n" for r in self.rows).encode()


FMTS = ("obj", "off", "ply-ascii", "ply-ascii", "ply-binary_little_endian", "ply-binary_big_endian")


def describe(data):
    return repr(data[:1500])


def whole(c, doc, r):
    v, f = r
    c.close(v, torch.tensor(doc.coords), "vertices of the intact file", atol=1e-6, rtol=1e-6)
    c.equal(f, torch.tensor(doc.faces(), dtype=torch.int64).reshape(-1, 3)[_order(doc, f)], "faces of the intact file")


def _order(doc, f):
    """the order of the triangles of several polygons is free"""
    want = torch.tensor(doc.faces(), dtype=torch.int64).reshape(-1, 3)
    if want.shape != f.shape:
        return slice(None)
    key = lambda t: sorted(range(len(t)), key=lambda k: t[k].tolist())
    a, b = key(want), key(f)
    out = [0] * len(a)
    for x, y in zip(a, b):
        out[y] = x
    return torch.tensor(out)


@monitor(quick=160, thorough=4000, need=("rejected", "accepted") + FMTS)
def truncate(c):
    fmt = c.pick(*FMTS)
    doc = Doc(c, fmt)
    data = doc.render()
    binary = "binary" in fmt
    tris = doc.faces()
    with Files() as files:
        r, e, _ = attempt(c, loader(c, files, fmt, data), describe(data))
        if e is not None:
            raise e
        whole(c, doc, r)
        for k in range(len(data)):
            r, e, _ = attempt(c, loader(c, files, fmt, data[:k]), describe(data[:k]))
            if e is not None:
                c.count("rejected")
                if fmt == "obj" and (k == 0 or data[k - 1:k] == b"\n"):
                    c.fail(f"an obj file ending after a line was rejected: {e!r}", data=describe(data[:k]))
                continue
            c.count("accepted")
            v, f = r
            rest = data[k:]
            c.check(not binary, f"a {fmt} file cut at byte {k} of {len(data)} was accepted", data=describe(data))
            c.check(v.shape[0] <= doc.V and len(f) <= len(tris), f"more elements than the {fmt} file holds", data=describe(data[:k]))
            if fmt == "obj":
                done = data[:k].split(b"\n")[:-1]
                nv = sum(x.startswith(b"v ") for x in done)
                nf = sum(len(x.split()) - 3 for x in done if x.startswith(b"f "))
                c.check(nv <= len(v) <= nv + 1 and nf <= len(f), "elements of the complete lines", data=describe(data[:k]))
                c.check(bool((v[:nv] == torch.tensor(doc.coords[:nv]).reshape(-1, 3)).all()), "vertices of the complete lines")
                c.equal(f[:nf], torch.tensor(tris[:nf], dtype=torch.int64).reshape(-1, 3), "faces of the complete lines")
            else:
                one = fmt == "off" and doc.coloured
                c.check(len(rest.split()) <= (4 if one else 1), f"a {fmt} file cut at byte {k} of {len(data)} was accepted", data=describe(data))
                c.equal(len(v), doc.V, "declared vertices")
                c.equal(len(f), len(tris), "declared faces")
                if rest.strip() == b"" or one:
                    c.close(v, torch.tensor(doc.coords), "vertices", atol=1e-6, rtol=1e-6)
    c.count(fmt)
    c.sig(fmt, len(data), doc.V, doc.F)


def must_reject(c, files, fmt, data, what):
    r, e, w = attempt(c, loader(c, files, fmt, data), describe(data))
    c.check(e is not None, f"{what} was accepted ({fmt})", data=describe(data), got=r and (r[0], r[1]))
    c.count("rejected")


@monitor(quick=2500, thorough=60000, need=("smaller", "larger", "negative", "huge", "not a number", "zero"))
def counts(c):
    fmt = c.pick("off", "ply-ascii", "ply-ascii", "ply-binary_little_endian", "ply-binary_big_endian")
    doc = Doc(c, fmt)
    kind = c.pick("smaller", "larger", "negative", "huge", "not a number", "zero", "list length")
    if fmt == "off":
        w = c.i(0, 1)
        parts = doc.header[1].split()
        line, at = 1, w
    else:
        line = c.pick(*[k for k, h in enumerate(doc.header) if h.startswith("element")])
        parts, at = doc.header[line].split(), 2
    n = int(parts[at])
    if "binary" in fmt and kind in ("smaller", "larger", "zero") and line != max(k for k, h in enumerate(doc.header) if h.startswith("element")):
        return  # the bytes that follow may be another well-formed file
    if kind == "list length":
        if "binary" in fmt:
            return  # the same bytes may be another well-formed file
        r = c.pick(*[r for r in doc.rows if r[0][1] == "len"])
        old = int(r[0][0])
        new = c.pick(0, 1, 2, old - 1, old + 1, -1, 100)
        if new == old:
            return
        if fmt == "off" and (doc.coloured or len(doc.polys) == 1):
            return  # a shorter polygon followed by colours is well formed
        r[0][0] = str(new)
    else:
        new = {"smaller": n - c.i(1, n), "larger": n + c.i(1, 5), "negative": -c.i(1, 9), "huge": c.pick(10 ** 12, 2 ** 31, 2 ** 63, 10 ** 20), "zero": 0,
               "not a number": c.pick("x", "1.5", "", "0x3", "3e0", "--3", "nan")}[kind]
        parts[at] = str(new)
        doc.header[line] = " ".join(parts)
        if fmt == "off" and new == "":
            return
    data = doc.render()
    with Files() as files:
        must_reject(c, files, fmt, data, f"{kind}: {new} in {doc.header[line]!r}")
    c.count(kind)
    c.sig(fmt, kind, str(new), len(data))
    c.sample(doc.header[line])


@monitor(quick=2500, thorough=60000, need=("garbage", "removed", "added", "fraction", "range", "row removed", "row added"))
def tokens(c):
    fmt = c.pick("obj", "off", "ply-ascii", "ply-ascii")
    doc = Doc(c, fmt)
    kind = c.pick("garbage", "garbage", "removed", "added", "fraction", "range", "row removed", "row added")
    ri = c.i(0, len(doc.rows) - 1)
    row = doc.rows[ri]
    ti = c.i(1 if fmt == "obj" else 0, len(row) - 1)
    tok, tag, spec = row[ti]
    if kind == "garbage":
        row[ti][0] = c.pick("abc", "1.2.3", "--5", "0x1g", "1e", "1,5", "?", "1-2", "None", "\u00b9", "1//2//3")
    elif kind == "removed":
        if tag == "len":
            return  # 4 3 0 1 2 without its first number is a triangle
        if fmt == "obj" and tag == "corner" or fmt == "off" and (doc.coloured or tag != "float"):
            if len(doc.polys) == 1 or fmt == "obj" or doc.coloured:
                return
        del row[ti]
    elif kind == "added":
        if fmt == "obj" or fmt == "off" and len(doc.polys) == 1:
            return
        row.insert(ti, [tok, tag, spec])
    elif kind == "fraction":
        if tag not in ("int", "index", "len"):
            if tag != "corner":
                return
            row[ti][0] = "1.5" + tok[len(tok.split("/")[0]):]
        else:
            row[ti][0] = tok + c.pick(".5", ".25", "e-1" if tok not in ("0",) and not tok.endswith("0") else ".5")
    elif kind == "range":
        if spec is None or spec[0] not in INTS or fmt == "off":
            return
        lo, hi = INTS[spec[0]][1:]
        row[ti][0] = str(c.pick(lo - 1, hi + 1, hi + c.i(1, 300), 10 ** 12, 10 ** 25))
    else:
        if fmt == "obj":
            return
        if kind == "row removed":
            del doc.rows[ri]
        else:
            doc.rows.insert(ri, copy.deepcopy(row))
    data = doc.render()
    with Files() as files:
        must_reject(c, files, fmt, data, f"{kind} at line {ri} token {ti}")
    c.count(kind)
    c.sig(fmt, kind, row[ti][0] if ti < len(row) else "", tag, ri)


@monitor(quick=1500, thorough=40000, need=("obj", "off", "ply", "glb", "warned", "raised"))
def indices(c):
    """face indices out of range: a warning or an error"""
    from pytorch3d.io import load_obj
    fmt = c.pick(*FMTS, "glb")
    with Files() as files:
        if fmt == "glb":
            g = Glb(c)
            k = c.i(0, 3 * g.F - 1)
            t = g.itype
            g.faces[k] = min(c.pick(g.V, g.V + 1, 200), {"<u1": 255, "<u2": 65535, "<u4": 10 ** 6}[t])
            data = g.bytes()
            what = "index %d of %d vertices" % (g.faces[k], g.V)
        else:
            doc = Doc(c, fmt)
            rows = [r for r in doc.rows if any(t[1] in ("index", "corner") for t in r)]
            r = c.pick(*rows)
            ti = c.pick(*[k for k, t in enumerate(r) if t[1] in ("index", "corner")])
            if fmt == "obj":
                parts = r[ti][0].split("/")
                which = c.pick(*[k for k, p in enumerate(parts) if p])
                n = (doc.V, doc.vt, doc.vn)[which]
                parts[which] = str(c.pick(0, n + 1, n + 5, -n - 1, 10 ** 6))
                r[ti][0] = "/".join(parts)
            else:
                t = r[ti][2][0]
                lo, hi = INTS[t][1:]
                bad = [x for x in (doc.V, doc.V + 1, 100, -1, -5, 2 ** 24 + 1) if lo <= x <= hi]
                r[ti][0] = str(c.pick(*bad))
            what = r[ti][0]
            data = doc.render()
        res, e, w = attempt(c, loader(c, files, fmt, data), describe(data))
    if e is not None:
        c.count("raised")
    else:
        c.check(any("invalid indices" in x or "ndex" in x or "ndices" in x for x in w), f"index out of range was neither reported nor rejected ({fmt}): {what}",
                data=describe(data), faces=res[1], verts=len(res[0]))
        c.count("warned")
    c.count(fmt.split("-")[0])
    c.sig(fmt, what, e is None)


@monitor(quick=1500, thorough=40000, need=("off", "ply"))
def header(c):
    fmt = c.pick("off", "ply-ascii", "ply-ascii", "ply-binary_little_endian", "ply-binary_big_endian")
    doc = Doc(c, fmt)
    h = doc.header
    if fmt == "off":
        k = c.i(0, 6)
        if k == 0:
            h[0] = c.pick("OOF", "ply", "# OFF", "NOFF", "0FF")
            if h[0][0] == "#":
                h.insert(1, "XYZ")
        elif k == 1:
            h[1] = " ".join(h[1].split()[:c.i(0, 2)]) or "x"
        elif k == 2:
            h[1] += c.pick(" 5", " x", " 0 0")
        elif k == 3:
            del h[1]
        elif k == 4:
            h.insert(1, h[1])
        elif k == 5:
            h.append(c.pick("x", "1", "end"))
        else:
            h[1] = c.pick("a b c", "3 x 0", "1.5 2 0", "-1 3 0", "nan 1 0")
    else:
        props = [k for k, x in enumerate(h) if x.startswith("property")]
        els = [k for k, x in enumerate(h) if x.startswith("element")]
        vp = [k for k in props if h[k].split()[-1] in "xyz"]
        k = c.i(0, 13)
        p, e = c.pick(*props), c.pick(*els)
        if k == 0:
            h[0] = c.pick("plyx", "PLY ", "obj", "", " ply", "pl")
        elif k == 1:
            h[1] = c.pick("format asci 1.0", "format ascii 2.0", "format", "format binary 1.0", "Format ascii 1.0", "format binary_middle_endian 1.0")
        elif k == 2:
            del h[1]
        elif k == 3:
            h.insert(c.i(2, len(h) - 1), "format ascii 1.0")
        elif k == 4:
            h[p] = h[p].replace(h[p].split()[-2], "floot")
        elif k == 5:
            h.insert(p, h[p])
        elif k == 6:
            h.insert(els[0], "property float early")
        elif k == 7:
            h.remove("end_header")
        elif k == 8:
            h.insert(c.i(2, len(h) - 1), c.pick("nonsense", "end", "vertex 3", "endheader", "elephant 3"))
        elif k == 9:
            h[e] = c.pick("element", "element vertex", "element vertex 3 3", "element 3 vertex")
        elif k == 10:
            del h[c.pick(*vp)]
        elif k == 11:
            h[p] = c.pick("property", "property float", "property list uchar int", "property float x y", "property list foo int v", "property list uchar foo v")
        elif k == 12:
            h.insert(e, h[e])
        else:
            # the same element twice, with its data
            name = c.pick("vertex", "face")
            s = next(k for k in els if h[k].split()[1] == name)
            t = next((k for k in range(s + 1, len(h)) if not h[k].startswith("property")), len(h))
            rows = [r for r in doc.rows if any(x[1] == "len" for x in r)] if name == "face" else doc.rows[:doc.V]
            more = c.i(1, 3)
            block = ["element %s %d" % (name, more)] + h[s + 1:t]
            h[len(h) - 1:len(h) - 1] = block
            doc.rows += [copy.deepcopy(c.pick(*rows)) for _ in range(more)]
    data = doc.render()
    with Files() as files:
        must_reject(c, files, fmt, data, "a damaged header")
    c.count(fmt.split("-")[0])
    c.sig(fmt, k, tuple(h))


class Glb:
    def __init__(self, c):
        self.V, self.F = c.i(3, 8), c.i(1, 6)
        self.itype = c.pick("<u1", "<u2", "<u4")
        self.pos = c.randn(self.V, 3).numpy().astype("<f4")
        self.faces = c.randint(0, self.V, (3 * self.F,)).numpy().astype(np.int64)
        self.uv = c.rand(self.V, 2).numpy().astype("<f4") if c.p(0.4) else None
        self.j = None
        self.raw = lambda: None

    def build(self):
        if self.j is not None:
            return
        blob, views, acc = b"", [], []

        def add(a, ct, n, kind):
            nonlocal blob
            blob += b"\0" * (-len(blob) % 4)
            views.append({"buffer": 0, "byteOffset": len(blob), "byteLength": a.nbytes})
            acc.append({"bufferView": len(views) - 1, "componentType": ct, "count": n, "type": kind})
            blob += a.tobytes()
            return len(acc) - 1
        p = {"attributes": {"POSITION": add(self.pos, 5126, self.V, "VEC3")}}
        if self.uv is not None:
            p["attributes"]["TEXCOORD_0"] = add(self.uv, 5126, self.V, "VEC2")
        p["indices"] = add(self.faces.astype(self.itype), {"<u1": 5121, "<u2": 5123, "<u4": 5125}[self.itype], 3 * self.F, "SCALAR")
        self.blob = blob + b"\0" * (-len(blob) % 4)
        self.j = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0]}], "nodes": [{"children": [1]}, {"mesh": 0}],
                  "meshes": [{"primitives": [p]}], "accessors": acc, "bufferViews": views, "buffers": [{"byteLength": len(self.blob)}]}

    def bytes(self, text=None, sizes=None):
        self.build()
        t = json.dumps(self.j).encode() if text is None else text
        t += b" " * (-len(t) % 4)
        total = 28 + len(t) + len(self.blob)
        a, b, n = sizes(len(t), len(self.blob), total) if sizes else (len(t), len(self.blob), total)
        return struct.pack("<III", 0x46546C67, 2, n) + struct.pack("<II", a, 0x4E4F534A) + t + struct.pack("<II", b, 0x004E4942) + self.blob


@monitor(quick=30, thorough=600)
def truncate_glb(c):
    g = Glb(c)
    data = g.bytes()
    with Files() as files:
        r, e, _ = attempt(c, loader(c, files, "glb", data), "intact")
        if e is not None:
            raise e
        c.equal(r[0], torch.from_numpy(g.pos), "vertices of the intact file")
        c.equal(r[1].reshape(-1), torch.from_numpy(g.faces), "faces of the intact file")
        for k in range(len(data)):
            r, e, _ = attempt(c, loader(c, files, "glb", data[:k]), describe(data[:k]))
            c.check(e is not None, f"a glb file cut at byte {k} of {len(data)} was accepted", data=describe(data))
            c.count("rejected")
    c.sig(len(data), g.itype, g.uv is None)


@monitor(quick=2000, thorough=60000, need=("cycle", "accessor count", "view length", "data uri", "chunk", "not json", "reference"))
def gltf(c):
    g = Glb(c)
    g.build()
    j = g.j
    kind = c.pick("cycle", "accessor count", "accessor offset", "view length", "view offset", "buffer length", "data uri", "chunk", "not json", "reference",
                  "component", "element type", "missing", "mode", "magic", "stride")
    a = c.pick(*j["accessors"])
    v = j["bufferViews"][a["bufferView"]]
    text = sizes = None
    if kind == "cycle":
        j["nodes"] = c.pick([{"children": [0]}, {"mesh": 0}], [{"children": [1]}, {"children": [0], "mesh": 0}],
                            [{"children": [1]}, {"children": [2]}, {"children": [1], "mesh": 0}], [{"children": [0, 0]}, {"mesh": 0}])
    elif kind == "accessor count":
        a["count"] = c.pick(a["count"] + c.i(1, 4), 10 ** 9, 2 ** 40, -1, -3, 10 ** 30, 1.5, "3")
    elif kind == "accessor offset":
        a["byteOffset"] = c.pick(4, 12, 10 ** 6, -4, -12, 2 ** 40)
    elif kind == "view length":
        v["byteLength"] = c.pick(v["byteLength"] - c.i(1, v["byteLength"]), -1)
    elif kind == "view offset":
        v["byteOffset"] = c.pick(len(g.blob), len(g.blob) - 4 * c.i(0, 1), 10 ** 6, -4)
        if v["byteOffset"] + v["byteLength"] <= len(g.blob) and v["byteOffset"] >= 0:
            return
    elif kind == "buffer length":
        j["buffers"][0]["byteLength"] += c.pick(1, 4, 100, 10 ** 9)
    elif kind == "data uri":
        uri = "data:application/octet-stream;base64," + base64.b64encode(g.blob).decode()
        uri = c.pick(uri[:-8], uri[:40], uri.replace("base64,", "base65,"), uri[5:], "file.bin")
        j["buffers"][0]["uri"] = uri
        text = json.dumps(j).encode()
    elif kind == "chunk":
        which = c.i(0, 3)
        sizes = lambda x, y, n: ((x + 4 * c.i(1, 9), y, n), (x - 4 * c.i(1, 9), y, n), (x, y - 4 * c.i(1, 3), n), (x, y + 4 * c.i(1, 9), n + 400))[which]
    elif kind == "not json":
        t = json.dumps(j).encode()
        k = c.i(0, len(t) - 1)
        text = c.pick(t[:k], b"", t.replace(b":", b";", 1), t + b"}", b"[]", b"null", b"3", b'"x"', t.replace(b'"', b"'"))
    elif kind == "reference":
        n = c.pick(1, 3, 10 ** 6)
        what = c.i(0, 7)
        if what == 0:
            a["bufferView"] = len(j["bufferViews"]) - 1 + n
        elif what == 1:
            v["buffer"] = n
        elif what == 2:
            j["nodes"][1]["mesh"] = n
        elif what == 3:
            j["nodes"][0]["children"] = [1 + n]
        elif what == 4:
            j["scenes"][0]["nodes"] = [1 + n]
        elif what == 5:
            j["scene"] = n
        elif what == 6:
            j["meshes"][0]["primitives"][0]["indices"] = len(j["accessors"]) - 1 + n
        else:
            j["meshes"][0]["primitives"][0]["attributes"]["POSITION"] = len(j["accessors"]) - 1 + n
    elif kind == "component":
        a["componentType"] = c.pick(1, 0, 5127, 6000, "5126", None)
    elif kind == "element type":
        a["type"] = c.pick("VEC5", "vec3", "", None, 3)
    elif kind == "missing":
        where, key = c.pick((a, "count"), (a, "componentType"), (a, "type"), (v, "buffer"), (v, "byteLength"), (j, "scenes"), (j, "meshes"), (j, "accessors"),
                            (j, "bufferViews"), (j, "buffers"), (j["buffers"][0], "byteLength"), (j["meshes"][0], "primitives"), (j["scenes"][0], "nodes"),
                            (j["meshes"][0]["primitives"][0]["attributes"], "POSITION"))
        del where[key]
    elif kind == "mode":
        j["meshes"][0]["primitives"][0]["mode"] = c.pick(0, 1, 3, 5, 6, 99)
    elif kind == "stride":
        v["byteStride"] = c.pick(1, 2, 256, 1000, -12, 3)
    data = g.bytes(text, sizes)
    if kind == "magic":
        data = c.pick(b"glTG" + data[4:], b"GLTF" + data[4:], data[:4] + struct.pack("<I", 1) + data[8:], data[:4] + struct.pack("<I", 3) + data[8:], data[1:], b"")
    elif kind == "data uri":
        data = text
    with Files() as files:
        must_reject(c, files, "glb", data, kind)
    c.count(kind)
    c.sig(kind, str(a), str(v), len(data))
    c.sample(kind + " " + str(a))


@monitor(quick=60, thorough=1500, need=("rejected", "accepted"))
def flips(c):
    """random damage: the outcome is an error or something well formed"""
    fmt = c.pick(*FMTS, "glb", "glb")
    data = Glb(c).bytes() if fmt == "glb" else Doc(c, fmt).render()
    with Files() as files:
        for _ in range(40):
            b = bytearray(data)
            for _ in range(c.pick(1, 1, 2, 8)):
                k = c.i(0, len(b) - 1)
                op = c.i(0, 3)
                if op == 0:
                    b[k] = c.i(0, 255)
                elif op == 1:
                    b[k] ^= 1 << c.i(0, 7)
                elif op == 2:
                    del b[k:k + c.i(1, 4)]
                else:
                    b[k:k] = bytes(c.rng.integers(0, 256, size=c.i(1, 4), dtype=np.uint8))
                if not b:
                    break
            b = bytes(b)
            r, e, _ = attempt(c, loader(c, files, fmt, b), describe(b))
            if e is not None:
                c.count("rejected")
                continue
            c.count("accepted")
            v, f = r
            c.check(v.ndim == 2 and v.shape[1] == 3 and v.is_floating_point() and f.ndim == 2 and f.shape[1] == 3 and f.dtype == torch.int64,
                    "a loaded mesh is well formed", v=v, f=f, data=describe(b))
            c.check(v.shape[0] <= len(b) and f.shape[0] <= 3 * len(b), "not more elements than bytes", data=describe(b))
            c.sig(fmt, len(v), len(f))
