"""glTF files written by an independent encoder against their content; saved meshes against their loaded copies and the rules of the container."""
import base64
import io
import json
import os
import shutil
import struct
import tempfile
import warnings
from pathlib import Path

import numpy as np
import torch

from lib import gen
from lib.harness import monitor

NATIVE = False
RULE = ("scenes of 1..5 nodes in a random hierarchy with matrices or scale/rotation/translation, 1..3 meshes of 1..2 primitives with 3..20 vertices, separate "
        "or interleaved attributes with offsets and strides, four index encodings, six colour encodings, three texture coordinate encodings, materials "
        "with and without images, one or two buffers; saved meshes of 1..70000 vertices; distinct = distinct (encodings, hierarchy)")
ASSUMPTIONS = ["the features MeshGlbFormat documents as supported: default scene, triangles, embedded buffers, one of vertex colour, base colour texture "
               "or base colour factor"]


def near(c, got, want, tol, msg):
    c.close(got, want, msg, atol=tol, rtol=0)


class Gltf:
    def __init__(self, c):
        self.c = c
        self.buffers = [bytearray(), bytearray()]
        self.two = c.p(0.3)
        self.views, self.accessors, self.flags = [], [], set()
        self.j = {"asset": {"version": "2.0"}, "scene": 0, "accessors": self.accessors, "bufferViews": self.views, "nodes": [], "meshes": [],
                  "materials": [], "textures": [], "images": []}
        self.prims = []       # per mesh: list of (positions, faces, texture description)
        self.expected = []

    def buffer(self):
        return self.c.i(0, 1) if self.two else 0

    def pad(self, b, k):
        self.buffers[b] += bytes(self.c.rng.integers(0, 255, size=(-len(self.buffers[b]) % k) + k * self.c.i(0, 2), dtype=np.uint8))

    def view(self, b, data, stride=None):
        self.pad(b, 4)
        v = {"buffer": b, "byteOffset": len(self.buffers[b]), "byteLength": len(data)}
        if v["byteOffset"] == 0 and self.c.p(0.5):
            del v["byteOffset"]
        if stride:
            v["byteStride"] = stride
        self.buffers[b] += data
        self.views.append(v)
        return len(self.views) - 1

    def accessor(self, view, offset, ctype, n, kind, normalized=False):
        a = {"bufferView": view, "componentType": ctype, "count": n, "type": kind}
        if offset or self.c.p(0.5):
            a["byteOffset"] = offset
        if normalized:
            a["normalized"] = True
        self.accessors.append(a)
        return len(self.accessors) - 1

    def attributes(self, arrays):
        """arrays: name -> (array of file type (n, k), component type, normalized)"""
        c = self.c
        out = {}
        n = len(next(iter(arrays.values()))[0])
        kind = lambda a: "VEC%d" % a.shape[1]
        if len(arrays) > 1 and c.p(0.5):
            offs, at = {}, 0
            for k, (a, t, nn) in arrays.items():
                offs[k] = at
                at += a.dtype.itemsize * a.shape[1]
                at += -at % 4
            stride = at + 4 * c.i(0, 1)
            raw = bytearray(c.rng.integers(0, 255, size=stride * n, dtype=np.uint8))
            end = 0
            for k, (a, t, nn) in arrays.items():
                w = a.dtype.itemsize * a.shape[1]
                for i in range(n):
                    raw[i * stride + offs[k]:i * stride + offs[k] + w] = a[i].tobytes()
                end = max(end, (n - 1) * stride + offs[k] + w)
            if c.p(0.6):
                raw = raw[:end]
                self.flags.add("short last stride")
            v = self.view(self.buffer(), bytes(raw), stride)
            for k, (a, t, nn) in arrays.items():
                out[k] = self.accessor(v, offs[k], t, n, kind(a), nn)
            self.flags.add("interleaved")
        else:
            for k, (a, t, nn) in arrays.items():
                w = a.dtype.itemsize * a.shape[1]
                lead = 4 * c.pick(0, 0, 1, 3)
                if w % 4 or c.p(0.2):
                    stride = w + (-w % 4) + 4 * c.i(0, 1)
                    raw = bytes(lead) + b"".join(r.tobytes() + b"\x7f" * (stride - w) for r in a)
                    if w % 4 == 0 and c.p(0.5):
                        raw = raw[:len(raw) - (stride - w)]
                    self.flags.add("strided")
                else:
                    stride, raw = c.pick(None, w), bytes(lead) + a.tobytes()
                v = self.view(self.buffer(), raw, stride)
                out[k] = self.accessor(v, lead, t, n, kind(a), nn)
        return out

    def material(self):
        """index or None, and the map it gives"""
        from PIL import Image
        c = self.c
        kind = c.pick("none", "factor", "texture", "bare", "empty")
        if kind == "none":
            self.flags.add("material none")
            return None, torch.ones(1, 1, 3)
        m = {}
        if kind == "bare":
            m = {"name": "x"}
            want = torch.ones(1, 1, 3)
        elif kind == "empty":
            m = {"pbrMetallicRoughness": {"metallicFactor": 0.5}}
            want = torch.ones(1, 1, 3)
        elif kind == "factor":
            f = [round(x, 3) for x in c.rand(4).tolist()]
            m = {"pbrMetallicRoughness": {"baseColorFactor": f}}
            want = torch.tensor(f[:3])[None, None]
        else:
            a = c.randint(0, 256, (c.i(1, 5), c.i(1, 5), c.pick(3, 3, 4))).numpy().astype(np.uint8)
            b = io.BytesIO()
            Image.fromarray(a).save(b, format="PNG")
            self.j["images"].append({"bufferView": self.view(self.buffer(), b.getvalue()), "mimeType": "image/png"})
            self.j["textures"].append({"source": len(self.j["images"]) - 1})
            m = {"pbrMetallicRoughness": {"baseColorTexture": {"index": len(self.j["textures"]) - 1}}}
            want = torch.from_numpy(a[..., :3]).float() / 255
        self.j["materials"].append(m)
        self.flags.add("material " + kind)
        return len(self.j["materials"]) - 1, want

    def primitive(self, tex):
        c = self.c
        n = c.i(3, 20)
        pos = c.randn(n, 3)
        arrays = {"POSITION": (pos.numpy().astype("<f4"), 5126, False)}
        desc = None
        scaled = lambda shape: c.pick(*([("f", None)] + [("B", 255), ("H", 65535)]))
        if tex == "colour":
            k = c.pick(3, 4)
            t, s = scaled(None)
            a = c.rand(n, k).numpy()
            raw = a.astype("<f4") if s is None else np.round(a * s).astype("<u1" if t == "B" else "<u2")
            arrays["COLOR_0"] = (raw, {"f": 5126, "B": 5121, "H": 5123}[t], s is not None)
            desc = ("colour", torch.from_numpy(raw.astype(np.float64) / (s or 1)))
            self.flags.add("colour " + t)
        if tex == "uv" or (tex == "colour" and c.p(0.2)):
            t, s = scaled(None)
            a = c.rand(n, 2).numpy()
            raw = a.astype("<f4") if s is None else np.round(a * s).astype("<u1" if t == "B" else "<u2")
            arrays["TEXCOORD_0"] = (raw, {"f": 5126, "B": 5121, "H": 5123}[t], s is not None)
            if tex == "uv":
                uv = torch.from_numpy(raw.astype(np.float64) / (s or 1))
                desc = ("uv", torch.stack([uv[:, 0], 1 - uv[:, 1]], 1))
                self.flags.add("uv " + t)
        if c.p(0.3):
            arrays["NORMAL"] = (c.randn(n, 3).numpy().astype("<f4"), 5126, False)
        names = list(arrays)
        p = {"attributes": self.attributes({names[k]: arrays[names[k]] for k in c.perm(len(names))})}
        if tex == "uv":
            m, want = self.material()
            if m is not None:
                p["material"] = m
            desc += (want,)
        if c.p(0.2):
            n3 = n // 3 * 3
            if n3 != n:
                return self.primitive(tex)
            faces = torch.arange(n).reshape(-1, 3)
            self.flags.add("no indices")
        else:
            F = c.i(1, 15)
            faces = c.randint(0, n, (F, 3))
            dt, t = c.pick(("<u1", 5121), ("<u2", 5123), ("<u4", 5125))
            lead = c.pick(0, 0, 4)
            v = self.view(self.buffer(), bytes(lead) + faces.numpy().astype(dt).tobytes())
            p["indices"] = self.accessor(v, lead, t, 3 * F, "SCALAR")
            self.flags.add("indices " + dt)
        if c.p(0.5):
            p["mode"] = 4
        return p, (pos, faces, desc)

    def node(self):
        """json of a transform and its column-vector matrix"""
        c = self.c
        k = c.pick("none", "matrix", "trs", "trs")
        n, M = {}, np.eye(4)
        if k == "matrix":
            M[:3] = np.round(c.randn(3, 4).double().numpy(), 4)
            n["matrix"] = [float(x) for x in M.T.reshape(-1)]
            self.flags.add("matrix")
        elif k == "trs":
            if c.p(0.7):
                s = np.round(c.rand(3, lo=0.3, hi=2).double().numpy(), 4)
                n["scale"] = s.tolist()
                M = np.diag([*s, 1.0]) @ M
            if c.p(0.7):
                q = c.randn(4).double().numpy()
                q /= np.linalg.norm(q)
                n["rotation"] = q.tolist()
                x, y, z, w = q
                R = np.eye(4)
                R[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                             [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                             [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
                M = R @ M
                self.flags.add("rotation")
            if c.p(0.7):
                t = np.round(c.randn(3).double().numpy(), 4)
                n["translation"] = t.tolist()
                T = np.eye(4)
                T[:3, 3] = t
                M = T @ M
        return n, M

    def build(self, tex):
        c = self.c
        for k in range(c.i(1, 3)):
            ps = [self.primitive(tex) for _ in range(c.pick(1, 1, 2))]
            m = {"primitives": [p for p, _ in ps]}
            name = None
            if c.p(0.5):
                name = m["name"] = "mesh%d" % k
            self.j["meshes"].append(m)
            self.prims.append((name, [x for _, x in ps]))
        nn = c.i(1, 5)
        world, par = [], []
        for k in range(nn):
            n, M = self.node()
            parent = c.i(-1, k - 1)
            world.append((world[parent] if parent >= 0 else np.eye(4)) @ M)
            par.append(parent)
            self.j["nodes"].append(n)
            if parent >= 0:
                self.j["nodes"][parent].setdefault("children", []).append(k)
                self.flags.add("hierarchy")
        scene = [k for k in range(nn) if par[k] < 0]
        used = [c.p(0.7) for _ in range(nn)]
        used[c.i(0, nn - 1)] = True
        hidden = set()
        if len(scene) > 1 and c.p(0.3):
            gone = scene.pop(c.i(0, len(scene) - 1))
            hidden.add(gone)
            for k in range(nn):
                if par[k] in hidden:
                    hidden.add(k)
            self.flags.add("outside the scene")
        for k in range(nn):
            if not used[k]:
                continue
            mi = c.i(0, len(self.prims) - 1)
            self.j["nodes"][k]["mesh"] = mi
            if k in hidden:
                continue
            name, ps = self.prims[mi]
            for pos, faces, desc in ps:
                P = torch.from_numpy(world[k]) @ torch.cat([pos.double(), torch.ones(len(pos), 1, dtype=torch.float64)], 1).T
                self.expected.append((name, P[:3].T, faces, desc))
        self.j["scenes"] = [{"nodes": scene}] + ([{"nodes": [0]}] if c.p(0.2) else [])
        if c.p(0.2):
            self.j["scenes"].reverse()
            self.j["scene"] = len(self.j["scenes"]) - 1
        for k in list(self.j):
            if self.j[k] == []:
                del self.j[k]

    def bytes(self, glb):
        bufs = [{"byteLength": len(b)} for b in self.buffers]
        uri = lambda b: "data:application/octet-stream;base64," + base64.b64encode(bytes(b)).decode()
        if len(self.buffers[1]):
            bufs[1]["uri"] = uri(self.buffers[1])
        else:
            bufs.pop()
        if not glb:
            bufs[0]["uri"] = uri(self.buffers[0])
        self.j["buffers"] = bufs
        text = json.dumps(self.j).encode()
        if not glb:
            return text
        text += b" " * (-len(text) % 4)
        binary = bytes(self.buffers[0]) + b"\0" * (-len(self.buffers[0]) % 4)
        return (struct.pack("<III", 0x46546C67, 2, 28 + len(text) + len(binary)) + struct.pack("<II", len(text), 0x4E4F534A) + text
                + struct.pack("<II", len(binary), 0x004E4942) + binary)


def key(e):
    return (len(e[1]), len(e[2]))


@monitor(quick=3000, thorough=25000, need=("interleaved", "short last stride", "strided", "matrix", "rotation", "hierarchy", "colour B", "colour H", "colour f", "uv f",
                                         "uv B", "material texture", "material factor", "material none", "no indices", "outside the scene", "scene", "list"))
def parse(c):
    from iopath.common.file_io import PathManager
    from pytorch3d.io import IO
    from pytorch3d.io.experimental_gltf_io import load_meshes, MeshGlbFormat
    from pytorch3d.renderer import TexturesUV, TexturesVertex
    g = Gltf(c)
    tex = c.pick(None, "colour", "uv", "uv")
    g.build(tex)
    if not g.expected:
        return
    glb = c.p(0.75) and len(g.buffers[0]) > 0
    if not len(g.buffers[0]):
        return
    data = g.bytes(glb)
    c.sample(json.dumps(g.j["nodes"]) + json.dumps(g.accessors))
    d = tempfile.mkdtemp(prefix="c33-")
    try:
        p = os.path.join(d, "m.glb")
        with open(p, "wb") as f:
            f.write(data)
        src = c.pick(p, Path(p), io.BytesIO(data))
        inc = c.p(0.85)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            whole = c.p(0.4) and (not inc or tex != "colour" or len({e[3][1].shape[1] for e in g.expected}) == 1)
            if whole:
                o = IO(include_default_formats=False)
                o.register_meshes_format(MeshGlbFormat())
                m = o.load_mesh(src, include_textures=inc)
            else:
                got = load_meshes(src, PathManager(), include_textures=inc)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if whole:
        c.equal(len(m), 1, "the scene is one mesh")
        v, f = m.verts_packed(), m.faces_packed()
        c.equal(len(v), sum(len(e[1]) for e in g.expected), "number of vertices")
        c.equal(len(f), sum(len(e[2]) for e in g.expected), "number of faces")
        tri = lambda vs: np.array(sorted(map(tuple, np.round(vs.reshape(-1, 9), 3))))
        a = torch.cat([e[1][e[2]] for e in g.expected]).reshape(-1, 9)
        b = v[f].double().reshape(-1, 9)
        # the order of the nodes is free: match every triangle with its closest
        dist = torch.cdist(a, b)
        tol = 1e-4 * (1 + a.abs().max())
        c.check(dist.min(1).values.max() < tol and dist.min(0).values.max() < tol, "triangles of the scene")
        if inc and tex:
            c.check(isinstance(m.textures, TexturesVertex if tex == "colour" else TexturesUV), "texture of the scene")
        c.count("scene")
    else:
        c.equal(len(got), len(g.expected), "a mesh for every primitive of every node of the scene")
        left = list(g.expected)
        for name, m in got:
            v, f = m.verts_list()[0].double(), m.faces_list()[0]
            hit = None
            for e in left:
                if e[0] == name and e[1].shape == v.shape and e[2].shape == f.shape and bool((e[2] == f).all()) \
                        and float((e[1] - v).abs().max()) < 1e-4 * (1 + float(e[1].abs().max())):
                    hit = e
                    break
            c.check(hit is not None, "a loaded mesh is not in the scene", verts=v, faces=f)
            left = [e for e in left if e is not hit]
            if not inc or tex is None:
                c.check(m.textures is None, "no texture appears")
            elif tex == "colour":
                c.check(isinstance(m.textures, TexturesVertex), "vertex colours")
                near(c, m.textures.verts_features_list()[0], hit[3][1], 1e-6, "vertex colours")
            else:
                c.check(isinstance(m.textures, TexturesUV), "uv texture")
                near(c, m.textures.verts_uvs_list()[0], hit[3][1], 1e-6, "texture coordinates")
                c.equal(m.textures.faces_uvs_list()[0], hit[2], "texture coordinates belong to the vertices")
                near(c, m.textures.maps_padded()[0], hit[3][2], 1e-6, "map of the material")
        c.count("list")
    for x in g.flags:
        c.count(x)
    c.sig(glb, whole, inc, tuple(sorted(g.flags)), len(g.expected))


def container(c, data):
    """the rules of the binary container and its accessors, read independently of the loader"""
    magic, version, length = struct.unpack("<III", data[:12])
    c.check(magic == 0x46546C67 and version == 2 and length == len(data), "header of the container")
    at, chunks = 12, []
    while at < length:
        n, t = struct.unpack("<II", data[at:at + 8])
        c.check(n % 4 == 0 and at % 4 == 0, "chunks are aligned to 4 bytes")
        chunks.append((t, data[at + 8:at + 8 + n]))
        at += 8 + n
    c.check(at == length and [t for t, _ in chunks] == [0x4E4F534A, 0x004E4942], "a json chunk followed by a binary chunk")
    j, b = json.loads(chunks[0][1]), chunks[1][1]
    c.check(0 <= len(b) - j["buffers"][0]["byteLength"] < 4, "length of the buffer")
    sizes = {5121: 1, 5123: 2, 5125: 4, 5126: 4}
    for a in j["accessors"]:
        v = j["bufferViews"][a["bufferView"]]
        size = sizes[a["componentType"]]
        width = size * {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}[a["type"]]
        off = a.get("byteOffset", 0)
        c.check((v.get("byteOffset", 0) + off) % size == 0, "alignment of an accessor")
        c.check(off + (a["count"] - 1) * v.get("byteStride", width) + width <= v["byteLength"], "an accessor stays in its view")
        c.check(v.get("byteOffset", 0) + v["byteLength"] <= len(b), "a view stays in the buffer")
        if "min" in a and a["type"] != "SCALAR":
            x = np.frombuffer(b, "<f4", count=a["count"] * width // 4, offset=v.get("byteOffset", 0) + off).reshape(a["count"], -1)
            near(c, torch.tensor(x.min(0)), torch.tensor(a["min"]), 1e-5 * (1 + float(np.abs(x).max())), "declared minimum")
            near(c, torch.tensor(x.max(0)), torch.tensor(a["max"]), 1e-5 * (1 + float(np.abs(x).max())), "declared maximum")
    p = j["meshes"][0]["primitives"][0]
    n = {j["accessors"][k]["count"] for k in p["attributes"].values()}
    c.equal(len(n), 1, "all attributes have one value for every vertex")


@monitor(quick=1500, thorough=10000, need=("plain", "vertex", "uv", "split", "large", "odd faces", "float64", "four channels"))
def save_load(c):
    from pytorch3d.io import IO
    from pytorch3d.io.experimental_gltf_io import MeshGlbFormat
    from pytorch3d.renderer import TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes
    V, F = c.i(1, 40), c.i(1, 40)
    if c.p(0.03):
        V = c.pick(65535, 65536, 66000, 70001)
        c.count("large")
    v, f = c.randn(V, 3), c.randint(0, V, (F, 3))
    if V > 1000:
        f[-1] = torch.tensor([V - 1, 0, V - 2])
    dt = c.pick(torch.float32, torch.float32, torch.float64)
    v = v.to(dt)
    if c.p(0.2):
        v = torch.cat([v, v], 1)[:, :3]
        v = v.T.contiguous().T
    kind = c.pick("plain", "vertex", "uv", "uv")
    tex = col = None
    if kind == "vertex":
        C = c.pick(3, 3, 4)
        col = c.rand(V, C)
        tex = TexturesVertex([col])
        if C == 4:
            c.count("four channels")
    elif kind == "uv":
        mp = c.rand(c.i(1, 6), c.i(1, 6), 3)
        if c.p(0.5):
            mp = (mp * 255).round() / 255
        if c.p(0.5):
            T = c.i(1, 30)
            uv, fu = c.rand(T, 2), c.randint(0, T, (F, 3))
            c.count("split")
        else:
            uv, fu = c.rand(V, 2), f.clone()
        tex = TexturesUV([mp], [fu], [uv])
        keep = uv.clone(), fu.clone(), mp.clone()
    m = Meshes([v], [f], textures=tex)
    inc = c.p(0.85)
    o = IO()
    o.register_meshes_format(MeshGlbFormat())
    d = tempfile.mkdtemp(prefix="c33-")
    try:
        p = os.path.join(d, c.pick("m.glb", "M.GLB"))
        o.save_mesh(m, c.pick(p, Path(p)), include_textures=inc)
        with open(p, "rb") as fh:
            data = fh.read()
        container(c, data)
        g = o.load_mesh(c.pick(p, Path(p)), include_textures=inc)
        if kind == "uv":
            c.equal(m.textures.verts_uvs_list()[0], keep[0], "saving leaves the texture coordinates of the mesh alone")
            c.equal(m.textures.verts_uvs_padded()[0], keep[0], "saving leaves the texture coordinates of the mesh alone")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gv, gf = g.verts_list()[0], g.faces_list()[0]
    split = inc and kind == "uv" and not (uv.shape[0] == V and torch.equal(fu, f))
    near(c, gv[gf], v[f].float(), 0, "corners of the faces")
    if not split:
        near(c, gv, v.float(), 0, "vertices")
        c.equal(gf, f, "faces")
    c.equal(g.textures is not None, tex is not None and inc, "there is a texture iff one was saved")
    if g.textures is not None and kind == "vertex":
        near(c, g.textures.verts_features_list()[0], col, 0, "vertex colours")
    elif g.textures is not None:
        near(c, g.textures.verts_uvs_list()[0][g.textures.faces_uvs_list()[0]], uv[fu], 1e-6, "texture coordinates of the corners")
        got = g.textures.maps_padded()[0]
        c.check((got - mp).abs().max() < 1 / 255 + 1e-6, "map to 8 bits")
        exact = (mp * 255).round() / 255 == mp
        c.check(not exact.any() or (got - mp)[exact].abs().max() < 1e-6, "8 bit values of the map are kept")
    c.count(kind)
    if F % 2:
        c.count("odd faces")
    if dt == torch.float64:
        c.count("float64")
    c.sig(kind, inc, dt, F % 2, split, V > 1000, V % 4)
