"""Meshes: histories of operations on the real batch against a plain list of (verts, faces)."""
import torch
from lib import gen
from lib.harness import monitor

D = torch.float64
TECHNIQUE = "runtime monitoring: model-based operation histories, all views compared to a list-of-meshes model after every step"
RULE = ("random histories of up to 7 operations on batches of 1-4 meshes (solids, non-manifold soups, unused vertices, empty meshes, meshes without faces), "
        "built from lists or padded tensors, with a random subset of cached views computed before every operation; distinct = distinct (build, sizes, warmed views, operation sequence)")
ASSUMPTIONS = ["batches in which no mesh has a face are only checked for emptiness",
               "in-place operations are applied to objects that share no storage with others, as documented"]

WARM = ["verts_packed", "verts_padded", "faces_packed", "edges_packed", "verts_normals_packed", "faces_areas_packed",
        "faces_normals_packed", "laplacian_packed", "verts_padded_to_packed_idx", "faces_packed_to_edges_packed", "verts_list",
        "verts_normals_list", "num_edges_per_mesh", "faces_list"]


def ref_edges(f):
    """Sorted unique undirected edges of a face list."""
    s = set()
    for a, b, c in f.tolist():
        for e in ((a, b), (b, c), (c, a)):
            s.add((min(e), max(e)))
    return sorted(s)


def face_cross(v, f):
    v = v.double()
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    return torch.linalg.cross(b - a, c - a)


def verify(c, m, model, what, normals=None, loose=False):
    """Every public view of m against the model [(v, f)]."""
    N = len(model)
    c.check(len(m) == N, f"{what}: len {len(m)} != {N}")
    allempty = all(len(v) == 0 or len(f) == 0 for v, f in model)
    c.check(bool(m.isempty()) == allempty, f"{what}: isempty() is {m.isempty()}")
    c.equal(m.valid, torch.tensor([len(v) > 0 and len(f) > 0 for v, f in model], dtype=torch.bool), f"{what}: valid")
    if allempty:
        c.count("all_empty")
        c.equal(tuple(m.verts_packed().shape), (0, 3), f"{what}: packed verts of an empty batch")
        c.equal(tuple(m.faces_packed().shape), (0, 3), f"{what}: packed faces of an empty batch")
        c.equal(m.verts_padded().shape[0], N, f"{what}: padded verts of an empty batch")
        vl = m.verts_list()
        c.check(len(vl) == N and all(len(f) == 0 for f in m.faces_list()), f"{what}: lists of an empty batch")
        for i in range(N):
            c.close(vl[i], model[i][0], f"{what}: verts_list[{i}]", atol=1e-5, rtol=1e-5)
        fp = m.faces_padded()
        c.check(len(fp) == N and bool((fp == -1).all()), f"{what}: padded faces of an empty batch")
        c.equal(m.edges_packed().shape[0], 0, f"{what}: edges of an empty batch")
        return
    nv = [len(v) for v, _ in model]
    nf = [len(f) for _, f in model]
    V, F = max(nv), max(nf)
    voff = [sum(nv[:i]) for i in range(N)]
    foff = [sum(nf[:i]) for i in range(N)]
    atol = 1e-5
    views = list(range(8))
    for view in [views[i] for i in c.perm(8)]:
        if view == 0:
            vl, fl = m.verts_list(), m.faces_list()
            c.check(len(vl) == N and len(fl) == N, f"{what}: list lengths")
            for i, (v, f) in enumerate(model):
                c.close(vl[i], v, f"{what}: verts_list[{i}]", atol=atol, rtol=1e-5)
                c.equal(fl[i], f, f"{what}: faces_list[{i}]")
            i = c.i(0, N - 1)
            v, f = m.get_mesh_verts_faces(i)
            c.close(v, model[i][0], f"{what}: get_mesh_verts_faces({i})", atol=atol, rtol=1e-5)
            c.equal(f, model[i][1], f"{what}: get_mesh_verts_faces({i})")
        elif view == 1:
            c.close(m.verts_packed(), torch.cat([v for v, _ in model]), f"{what}: verts_packed", atol=atol, rtol=1e-5)
            c.equal(m.verts_packed_to_mesh_idx().tolist(), [i for i in range(N) for _ in range(nv[i])], f"{what}: verts_packed_to_mesh_idx")
            c.equal(m.mesh_to_verts_packed_first_idx().tolist(), voff, f"{what}: mesh_to_verts_packed_first_idx")
            c.equal(m.num_verts_per_mesh().tolist(), nv, f"{what}: num_verts_per_mesh")
        elif view == 2:
            c.equal(m.faces_packed(), torch.cat([f + voff[i] for i, (_, f) in enumerate(model)]), f"{what}: faces_packed")
            c.equal(m.faces_packed_to_mesh_idx().tolist(), [i for i in range(N) for _ in range(nf[i])], f"{what}: faces_packed_to_mesh_idx")
            c.equal(m.mesh_to_faces_packed_first_idx().tolist(), foff, f"{what}: mesh_to_faces_packed_first_idx")
            c.equal(m.num_faces_per_mesh().tolist(), nf, f"{what}: num_faces_per_mesh")
        elif view == 3:
            vp, fp = m.verts_padded(), m.faces_padded()
            c.equal(tuple(vp.shape), (N, V, 3), f"{what}: verts_padded shape")
            c.equal(tuple(fp.shape), (N, F, 3), f"{what}: faces_padded shape")
            for i, (v, f) in enumerate(model):
                c.close(vp[i, :nv[i]], v, f"{what}: verts_padded[{i}]", atol=atol, rtol=1e-5)
                if not loose:
                    c.equal(vp[i, nv[i]:], torch.zeros(V - nv[i], 3), f"{what}: padding of verts_padded[{i}]")
                c.equal(fp[i, :nf[i]], f, f"{what}: faces_padded[{i}]")
                c.equal(fp[i, nf[i]:], torch.full((F - nf[i], 3), -1), f"{what}: padding of faces_padded[{i}]")
            idx = m.verts_padded_to_packed_idx()
            c.equal(idx.tolist(), [i * V + k for i in range(N) for k in range(nv[i])], f"{what}: verts_padded_to_packed_idx")
        elif view == 4:
            e = [[(a + voff[i], b + voff[i]) for a, b in ref_edges(f)] for i, (_, f) in enumerate(model)]
            flat = [x for y in e for x in y]
            c.equal([tuple(x) for x in m.edges_packed().tolist()], flat, f"{what}: edges_packed")
            c.equal(m.edges_packed_to_mesh_idx().tolist(), [i for i in range(N) for _ in e[i]], f"{what}: edges_packed_to_mesh_idx")
            c.equal(m.num_edges_per_mesh().tolist(), [len(x) for x in e], f"{what}: num_edges_per_mesh")
            c.equal(m.mesh_to_edges_packed_first_idx().tolist(), [sum(len(x) for x in e[:i]) for i in range(N)], f"{what}: mesh_to_edges_packed_first_idx")
            fe = m.faces_packed_to_edges_packed()
            fp = m.faces_packed()
            pos = {x: k for k, x in enumerate(flat)}
            want = [[pos[tuple(sorted((b, cc)))], pos[tuple(sorted((cc, a)))], pos[tuple(sorted((a, b)))]] for a, b, cc in fp.tolist()]
            c.equal(fe.tolist(), want, f"{what}: faces_packed_to_edges_packed")
        elif view == 5:
            cr = [face_cross(v, f) for v, f in model]
            area = torch.cat([x.norm(dim=1) / 2 for x in cr])
            sc = max(1.0, float(torch.cat([v for v, _ in model]).abs().max()))
            c.close(m.faces_areas_packed(), area, f"{what}: faces_areas_packed", atol=2e-5 * sc * sc, rtol=1e-4)
            fn = m.faces_normals_packed()
            big = area > 1e-2 * sc * sc
            nrm = torch.cat([torch.nn.functional.normalize(x, dim=1) for x in cr])
            c.close(fn[big], nrm[big], f"{what}: faces_normals_packed", atol=3e-3, rtol=0)
            lst, pad = m.faces_normals_list(), m.faces_normals_padded()
            c.equal(tuple(pad.shape), (N, F, 3), f"{what}: faces_normals_padded shape")
            for i in range(N):
                c.equal(lst[i], fn[foff[i]:foff[i] + nf[i]], f"{what}: faces_normals_list[{i}]")
                c.equal(pad[i, :nf[i]], lst[i], f"{what}: faces_normals_padded[{i}]")
                c.equal(pad[i, nf[i]:], torch.zeros(F - nf[i], 3), f"{what}: padding of faces_normals_padded[{i}]")
        elif view == 6:
            vn = m.verts_normals_packed()
            if normals is None:
                for i, (v, f) in enumerate(model):
                    acc = torch.zeros(nv[i], 3, dtype=D)
                    cr = face_cross(v, f)
                    for k in range(3):
                        acc.index_add_(0, f[:, k], cr)
                    mag = acc.norm(dim=1)
                    sc = max(1.0, float(v.abs().max()) if len(v) else 1.0)
                    big = mag > 2e-2 * sc * sc
                    got = vn[voff[i]:voff[i] + nv[i]]
                    c.close(got[big], (acc / mag[:, None])[big], f"{what}: verts_normals_packed of mesh {i}", atol=5e-3, rtol=0)
            else:
                c.close(vn, torch.cat(normals), f"{what}: the given vertex normals", atol=1e-6, rtol=0)
            lst, pad = m.verts_normals_list(), m.verts_normals_padded()
            for i in range(N):
                c.equal(lst[i], vn[voff[i]:voff[i] + nv[i]], f"{what}: verts_normals_list[{i}]")
                c.equal(pad[i, :nv[i]], lst[i], f"{what}: verts_normals_padded[{i}]")
                c.equal(pad[i, nv[i]:], torch.zeros(V - nv[i], 3), f"{what}: padding of verts_normals_padded[{i}]")
        elif all(nv):
            if c.p(0.5):
                bb = m.get_bounding_boxes()
                want = torch.stack([torch.stack([v.min(0)[0], v.max(0)[0]], 1) for v, _ in model])
                c.close(bb, want, f"{what}: get_bounding_boxes", atol=atol, rtol=1e-5)
            if sum(nv) < 60:
                T = sum(nv)
                L = torch.zeros(T, T, dtype=D)
                for i, (_, f) in enumerate(model):
                    for a, b in ref_edges(f):
                        if a == b:
                            continue
                        L[a + voff[i], b + voff[i]] = 1
                        L[b + voff[i], a + voff[i]] = 1
                deg = L.sum(1, keepdim=True)
                L = torch.where(deg > 0, L / deg.clamp(min=1), L) - torch.eye(T, dtype=D)
                c.close(m.laplacian_packed().to_dense(), L, f"{what}: laplacian_packed", atol=1e-5, rtol=0)


def build(c, model, padded, normals=None):
    from pytorch3d.structures import Meshes
    if padded:
        V = max(len(v) for v, _ in model)
        F = max(len(f) for _, f in model)
        v = torch.stack([torch.cat([x, torch.zeros(V - len(x), 3)]) for x, _ in model])
        f = torch.stack([torch.cat([x, torch.full((F - len(x), 3), -1)]) for _, x in model])
        nn = None
        if normals is not None:
            nn = torch.stack([torch.cat([x, torch.zeros(V - len(x), 3)]) for x in normals]) if c.p(0.5) else [torch.cat([x, torch.zeros(V - len(x), 3)]) for x in normals]
        return Meshes(verts=v, faces=f, verts_normals=nn), [(v[i].clone(), f0) for i, (_, f0) in enumerate(model)], \
            None if normals is None else [torch.cat([x, torch.zeros(V - len(x), 3)]) for x in normals]
    fs = [f for _, f in model]
    if c.p(0.2):  # rows of -1 in the list form are padding
        fs = [torch.cat([f, torch.full((c.i(0, 2), 3), -1)]) for f in fs]
    if c.p(0.2) and any(len(f) for _, f in model):
        fs = [f.int() for f in fs]
    return Meshes(verts=[v.clone() for v, _ in model], faces=fs, verts_normals=None if normals is None else [x.clone() for x in normals]), model, normals


def warm(c, m):
    used = []
    for w in WARM:
        if c.p(0.25):
            if w in ("laplacian_packed", "verts_padded_to_packed_idx", "verts_normals_packed", "verts_normals_list") and m.isempty():
                continue
            getattr(m, w)()
            used.append(w)
    return used


def snapshot(model):
    return [(v.clone(), f.clone()) for v, f in model]


@monitor(quick=1500, need=("offset", "scale", "update_padded", "index", "join", "scene", "submeshes", "extend", "split", "all_empty", "clone"))
def histories(c):
    from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene
    model = gen.meshes(c, empty=0.12, nofaces=0.1)
    if c.p(0.25):
        model = [model[0]] * len(model)  # equal sizes
        model = [(v + 0.1 * c.randn(*v.shape), f) for v, f in model]
    padded = c.p(0.3)
    normals = None
    if c.p(0.2) and any(len(f) for _, f in model):
        normals = [torch.nn.functional.normalize(c.randn(*v.shape), dim=1) for v, _ in model]
    if padded and all(len(v) == 0 for v, _ in model):
        padded = False
    m, model, normals = build(c, model, padded, normals)
    hist = [f"{'padded' if padded else 'list'}{[(len(v), len(f)) for v, f in model]}"]
    trail = [tuple(warm(c, m))]
    if c.p(0.5):
        verify(c, m, model, "built", normals)
    for step in range(c.i(1, 6)):
        N = len(model)
        if N == 0:
            break
        empty = all(len(v) == 0 or len(f) == 0 for v, f in model)
        trail.append(tuple(warm(c, m)))
        op = c.pick("index", "clone", "detach", "offset", "offset_", "offset3", "scale", "scale_", "scalar_scale", "update_padded", "extend", "split", "submeshes", "join", "scene", "to")
        if empty and op not in ("index", "clone", "extend", "split", "to"):
            continue
        old, oldmodel, oldnormals = m, snapshot(model), normals
        loose = False
        inplace = False
        if op == "index":
            k, ix, sel = gen.index(c, N)
            if not sel:
                r = m[ix]
                c.check(len(r) == 0, f"indexing with {k} selecting nothing gives {len(r)} meshes")
                continue
            m = m[ix]
            model = [model[i] for i in sel]
            normals = None
            op = "index:" + k
            c.count("index")
            if c.p(0.5):
                m = m.clone()
        elif op in ("clone", "detach", "to"):
            m = m.clone() if op == "clone" else m.detach().clone() if op == "detach" else m.to("cpu", copy=True)
            c.count("clone")
        elif op in ("offset", "offset_"):
            o = [0.3 * c.randn(*v.shape) for v, _ in model]
            model = [(v + d, f) for (v, f), d in zip(model, o)]
            if op == "offset_":
                m = m.clone()
                warm(c, m)
                r = m.offset_verts_(torch.cat(o))
                c.check(r is m, "offset_verts_ does not return self")
            else:
                m = m.offset_verts(torch.cat(o))
            normals = None
            c.count("offset")
        elif op == "offset3":
            o = c.randn(3)
            model = [(v + o, f) for v, f in model]
            m = m.offset_verts(o)
            c.count("offset")
        elif op in ("scale", "scale_", "scalar_scale"):
            s = c.rand(N, lo=0.5, hi=1.6) * c.pick(1, 1, -1)
            if op == "scalar_scale":
                x = c.u(0.5, 1.6)
                s = torch.full((N,), x)
                m = m.scale_verts(x)
            elif op == "scale":
                m = m.scale_verts(s)
            else:
                m = m.clone()
                warm(c, m)
                m.scale_verts_(s)
            model = [(v * s[i], f) for i, (v, f) in enumerate(model)]
            c.count("scale")
        elif op == "update_padded":
            V = max(len(v) for v, _ in model)
            new = c.randn(N, V, 3)
            c.raises(ValueError, lambda: m.update_padded(c.randn(N + 1, V, 3)), "update_padded accepts another batch size")
            c.raises(ValueError, lambda: m.update_padded(c.randn(N, V + 1, 3)), "update_padded accepts another number of vertices")
            m = m.update_padded(new.clone())
            model = [(new[i, :len(v)].clone(), f) for i, (v, f) in enumerate(model)]
            normals = None
            loose = True
            c.count("update_padded")
        elif op == "extend":
            k = c.i(1, 3)
            m = m.extend(k)
            model = [x for x in model for _ in range(k)]
            normals = None
            c.count("extend")
        elif op == "split":
            cut = c.i(0, N)
            a, b = m.split([cut, N - cut])
            if cut:
                verify(c, a, model[:cut], f"first part of split after {hist}")
            c.check(len(a) == cut and len(b) == N - cut, "split sizes")
            if cut == N:
                continue
            m, model = b, model[cut:]
            normals = None
            c.count("split")
        elif op == "submeshes":
            idx, new = [], []
            equal = c.p(0.3)
            if equal:
                k, q = c.i(1, 2), c.i(1, 3)
                if any(len(f) == 0 for _, f in model):
                    continue
                idx = torch.stack([torch.stack([c.randint(0, len(f), (q,)) for _ in range(k)]) for _, f in model])
                sel = [[idx[i, j] for j in range(k)] for i in range(N)]
            else:
                sel = [[torch.tensor(c.perm(len(f))[:c.i(1, max(1, len(f)))], dtype=torch.int64) for _ in range(c.i(0, 2))] if len(f) else [] for _, f in model]
                idx = sel
            for (v, f), ss in zip(model, sel):
                for s in ss:
                    keep = sorted(set(f[s].flatten().tolist()))
                    mp = {x: i for i, x in enumerate(keep)}
                    new.append((v[keep], torch.tensor([[mp[x] for x in r] for r in f[s].tolist()], dtype=torch.int64).reshape(-1, 3)))
            m2 = m.submeshes(idx)
            c.check(len(m2) == len(new), "number of submeshes")
            if not new:
                continue
            m, model, normals = m2, new, None
            c.count("submeshes")
        elif op == "join":
            om = gen.meshes(c, hi=2, empty=0.1)
            o = Meshes(verts=[v for v, _ in om], faces=[f for _, f in om])
            warm(c, o)
            m = join_meshes_as_batch([m, o])
            model = model + om
            normals = None
            c.count("join")
        elif op == "scene":
            m = join_meshes_as_scene(m) if c.p(0.5) else join_meshes_as_scene([m[[i]] for i in range(N)])
            off, vs, fs = 0, [], []
            for v, f in model:
                vs.append(v)
                fs.append(f + off)
                off += len(v)
            model = [(torch.cat(vs), torch.cat(fs))]
            if N > 1:
                normals = None
            else:
                normals = None if m is not old else normals
            c.count("scene")
        hist.append(op)
        if len(model) > 8 or sum(len(v) for v, _ in model) > 250:
            m, model = m[[0, len(model) - 1]], [model[0], model[-1]]
            normals = None
            hist.append("trim")
        verify(c, m, model, f"after {hist}", normals, loose=loose)
        if m is not old and c.p(0.5):
            verify(c, old, oldmodel, f"the batch before {op} ({hist})", oldnormals, loose=True)
        c.count("steps")
        if loose:  # restart from clean padding
            m = Meshes(verts=[v for v, _ in model], faces=[f for _, f in model])
    c.sig("hist", *hist, *trail)


@monitor(quick=400)
def rejects(c):
    """Inputs that describe no batch of meshes; metadata of constructions."""
    from pytorch3d.structures import Meshes
    model = gen.meshes(c)
    N = len(model)
    c.sig(N, [(len(v), len(f)) for v, f in model])
    V, F = 4, 5
    vp, fp = c.randn(N, V, 3), c.randint(0, V, (N, F, 3))
    c.raises(ValueError, lambda: Meshes(verts=vp, faces=[fp[0]]), "mixed padded and list input is accepted")
    c.raises(ValueError, lambda: Meshes(verts=vp[..., :2], faces=fp), "2-D vertices are accepted")
    bad = fp.clone()
    bad[c.i(0, N - 1), c.i(0, F - 2)] = -1
    c.raises(ValueError, lambda: Meshes(verts=vp, faces=bad), "padding between faces is accepted")
    m = Meshes(verts=[v for v, _ in model], faces=[f for _, f in model])
    c.raises(ValueError, lambda: m.offset_verts(c.randn(len(m.verts_packed()) + 1, 3)), "offsets of the wrong shape are accepted")
    c.raises(ValueError, lambda: m.extend(0), "extend(0) is accepted")
    c.raises(ValueError, lambda: m.split([1.0]), "split by floats is accepted")
    c.raises(IndexError, lambda: m[torch.tensor([0.5])], "a float index is accepted")
    c.raises(ValueError, lambda: m.submeshes([[torch.tensor([0])]] * (N + 1)), "submeshes with the wrong batch size is accepted")
    c.raises(ValueError, lambda: Meshes(verts=[v for v, _ in model], faces=[f for _, f in model], verts_normals=[c.randn(len(v) + 1, 3) for v, _ in model]),
             "normals of the wrong size are accepted")
    e = Meshes(verts=[], faces=[])
    c.check(len(e) == 0 and bool(e.isempty()), "the empty batch is not empty")
    c.equal(tuple(e.verts_packed().shape), (0, 3), "verts_packed of the empty batch")


@monitor(quick=250, need=("grad",))
def gradients(c):
    """Gradients flow through views and operations to exactly the right vertices."""
    from pytorch3d.structures import Meshes
    model = gen.meshes(c, hi=3)
    N = len(model)
    vs = [v.clone().requires_grad_() for v, _ in model]
    m = Meshes(verts=vs, faces=[f for _, f in model])
    warm(c, m)
    w = c.pick("packed", "padded", "list", "clone", "offset", "index")
    c.sig(w, [len(v) for v in vs])
    wt = [c.randn(*v.shape) for v in vs]
    if w == "packed":
        out = [m.verts_packed() * torch.cat(wt)]
    elif w == "padded":
        out = [m.verts_padded()[i, :len(vs[i])] * wt[i] for i in range(N)]
    elif w == "clone":
        out = [m.clone().verts_packed() * torch.cat(wt)]
    elif w == "offset":
        out = [m.offset_verts(c.randn(3)).verts_packed() * torch.cat(wt)]
    elif w == "index":
        sel = c.perm(N)
        out = [m[sel].verts_packed() * torch.cat([wt[i] for i in sel])]
    else:
        out = [a * b for a, b in zip(m.verts_list(), wt)]
    g = torch.autograd.grad(sum(o.sum() for o in out), vs)
    for i in range(N):
        c.close(g[i], wt[i], f"gradient through {w} of mesh {i}", atol=1e-6, rtol=1e-6)
    c.count("grad")
    d = m.detach()
    c.check(not d.verts_packed().requires_grad and not d.verts_list()[0].requires_grad and not d.verts_padded().requires_grad, "detach keeps the graph")
