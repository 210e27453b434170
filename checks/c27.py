"""box3d_overlap against an independent float64 intersection of half spaces."""
import math
import numpy as np
import torch
from lib.harness import monitor

NATIVE = True
RULE = ("pairs of boxes, parallelepipeds and frusta: generic, rotated by 0..5 degrees against each other, identical, sharing faces, edges or "
        "corners, touching, nested, disjoint; aspect ratios to 20, sizes 0.05..20, far from the origin; reordered corners; batches N x M; "
        "distinct = distinct (relation, shapes)")
ASSUMPTIONS = ["boxes are convex with planar faces of area above 1e-4 (others are refused)",
               "faces of both boxes closer than 1e-4 of the box size count as coinciding, so if faces are within 3 degrees of parallel volumes are judged to 4e-3 x size x largest face"]
PL = [[0, 1, 2, 3], [3, 2, 6, 7], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [4, 5, 6, 7]]
UNIT = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float) - .5


def planes(b):
    c = b.mean(0)
    out = []
    for p in PL:
        q = b[p]
        n = np.cross(q[2] - q[0], q[3] - q[1]); n /= np.linalg.norm(n); o = q.mean(0)
        out.append((n if n @ (c - o) > 0 else -n, o))
    return out


def clip(poly, n, o):
    d = (poly - o) @ n
    out = []
    for i in range(len(poly)):
        j = (i + 1) % len(poly)
        if d[i] >= 0:
            out.append(poly[i])
        if (d[i] >= 0) != (d[j] >= 0):
            out.append(poly[i] + d[i] / (d[i] - d[j]) * (poly[j] - poly[i]))
    return np.array(out).reshape(-1, 3)


def volume(*boxes):
    """volume of the intersection of convex hexahedra"""
    ref = sum(b.mean(0) for b in boxes) / len(boxes)
    uniq = []
    for n, o in sum((planes(b) for b in boxes), []):
        if not any(n @ m > 1 - 1e-13 and abs(n @ (o - q)) < 1e-10 for m, q in uniq):
            uniq.append((n, o))
    R = 10 * max(np.abs(b - ref).max() for b in boxes)
    v = 0.0
    for k, (n, o) in enumerate(uniq):
        a = np.array([1., 0, 0]) if abs(n[0]) < .7 else np.array([0, 1., 0])
        e = np.cross(n, a); e /= np.linalg.norm(e); f = np.cross(n, e)
        P = np.array([o + R * (s * e + t * f) for s, t in ((-1, -1), (1, -1), (1, 1), (-1, 1))])
        for j, (m, q) in enumerate(uniq):
            if j != k and len(P):
                P = clip(P, m, q)
        if len(P) < 3:
            continue
        area = np.linalg.norm(sum(np.cross(P[i] - P[0], P[i + 1] - P[0]) for i in range(1, len(P) - 1))) / 2
        v += area * (n @ (ref - o)) / 3
    return v


def rot(c, deg):
    ax = c.randn(3).double().numpy(); ax /= np.linalg.norm(ax); a = math.radians(deg)
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def sizes(c):
    s = np.array([c.u(.4, 2) for _ in range(3)])
    if c.p(0.25):
        s[c.i(0, 2)] *= c.u(0.1, 0.5)
    return s


def shape(c):
    """a hexahedron around the origin, with the documented order of the corners"""
    kind = c.pick("box", "box", "box", "parallelepiped", "frustum")
    b = UNIT.copy()
    if kind == "parallelepiped":
        b = b @ (np.eye(3) + c.rand(3, 3, lo=-0.35, hi=0.35).double().numpy())
    elif kind == "frustum":
        b = b / (1 + c.u(-0.6, 0.6) * b[:, 2:] + c.u(-0.4, 0.4) * b[:, :1])
    return b * sizes(c), kind


def scene(c):
    A, kind = shape(c)
    rel = c.pick("generic", "generic", "tilted", "tilted tiny", "aligned", "identical", "shared", "touching", "nested", "disjoint", "corner")
    s = A.max(0) - A.min(0)
    if rel == "generic":
        B = shape(c)[0] @ rot(c, c.u(0, 180)).T + c.randn(3).numpy() * c.u(0.1, 0.8)
    elif rel == "tilted":
        B = (A if c.p(0.4) else shape(c)[0]) @ rot(c, c.u(0, 5)).T + c.randn(3).numpy() * c.pick(0, .05, .3)
    elif rel == "tilted tiny":
        B = (A if c.p(0.6) else shape(c)[0]) @ rot(c, 10 ** c.u(-4, 0)).T + c.randn(3).numpy() * c.pick(0, .001, .05)
    elif rel == "aligned":
        B = UNIT * sizes(c) + c.randn(3).numpy() * .4
    elif rel == "identical":
        B = A.copy()
    elif rel == "shared":  # slides along one or two axes: coplanar faces
        B = A.copy()
        for ax in c.perm([0, 1, 2])[:c.i(1, 2)]:
            B[:, ax] += c.pick(0.25, -0.5, 0.5, 0.9) * s[ax]
    elif rel == "touching":
        A = UNIT * s
        B = UNIT * sizes(c)
        ax = c.i(0, 2)
        B[:, ax] += c.pick(-1, 1) * (s[ax] + B[:, ax].max() - B[:, ax].min()) / 2
    elif rel == "nested":
        B = A * c.u(0.1, 0.8) @ (np.eye(3) if c.p(0.5) else rot(c, c.u(0, 180))).T * (1 if c.p(0.5) else 0.3)
    elif rel == "disjoint":
        d = c.randn(3).double().numpy()
        B = shape(c)[0] @ rot(c, c.u(0, 180)).T + d / np.linalg.norm(d) * c.u(3.6, 10)
    else:  # a corner in common
        A = UNIT * s
        B = UNIT * sizes(c)
        B = B - B[c.i(0, 7)] + A[c.i(0, 7)]
    if c.p(0.5):
        A, B = B, A
    if c.p(0.7):
        R = rot(c, c.u(0, 180))
        A, B = A @ R.T, B @ R.T
    k = c.pick(1, 1, 1, 0.1, 10)
    t = c.randn(3).double().numpy() * c.pick(0, 1, 1, 20)
    return [((x + t) * k).astype(np.float32) for x in (A, B)] + [rel, kind]


CYC = [[0, 1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 0, 5, 6, 7, 4], [4, 5, 6, 7, 0, 1, 2, 3], [3, 2, 1, 0, 7, 6, 5, 4], [1, 5, 6, 2, 0, 4, 7, 3]]


def area_ok(b):
    ar = min(np.linalg.norm(np.cross(b[t[1]] - b[t[0]], b[t[2]] - b[t[0]])) / 2 for q in PL for t in (q[:3], q[1:]))
    dev = max(abs((b[q[3]] - b[q[0]]) @ (lambda n: n / np.linalg.norm(n))(np.cross(b[q[1]] - b[q[0]], b[q[2]] - b[q[0]]))) for q in PL)
    return ar > 4e-4 and dev < 5e-5


@monitor(quick=1500, thorough=40000, need=("pairs", "tilted", "identical", "touching", "empty"))
def overlap(c):
    from pytorch3d.ops import box3d_overlap
    A, B, rel, kind = scene(c)
    if not (area_ok(A.astype(float)) and area_ok(B.astype(float))):
        return
    As, Bs = [A], [B]
    for _ in range(c.pick(0, 0, 1, 2)):
        A2, B2, _, _ = scene(c)
        if area_ok(A2.astype(float)) and area_ok(B2.astype(float)):
            As.append(A2)
            if c.p(0.5):
                Bs.insert(c.i(0, len(Bs)), B2)
    ta, tb = torch.tensor(np.stack(As)), torch.tensor(np.stack(Bs))
    pa, pb = c.pick(*CYC), c.pick(*CYC)
    ta, tb = ta[:, pa], tb[:, pb]
    if c.p(0.2):
        ta = ta.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    try:
        v, iou = box3d_overlap(ta, tb)
    except ValueError as e:
        # a face off its plane by rounding: refusing is fine
        c.check("coplanar" in str(e), "box3d_overlap refuses valid boxes", got=str(e))
        c.count("refused")
        return
    c.check(v.shape == iou.shape == (len(As), len(Bs)), "shape")
    v2, iou2 = box3d_overlap(tb, ta)
    c.check(torch.isfinite(v).all() and torch.isfinite(iou).all(), "not finite")
    vol = [volume(x.astype(float)) for x in As], [volume(x.astype(float)) for x in Bs]
    for i, a in enumerate(As):
        for j, b in enumerate(Bs):
            a, b = a.astype(float), b.astype(float)
            size = max(np.linalg.norm(x - x.mean(0), axis=1).max() for x in (a, b))
            far = max(np.abs(a).max(), np.abs(b).max())
            face = max(np.linalg.norm(np.cross(x[q[2]] - x[q[0]], x[q[3]] - x[q[1]])) / 2 for x in (a, b) for q in PL)
            near = any(abs(n @ m) > 0.9985 for n, _ in planes(a) for m, _ in planes(b))
            tol = (4e-3 if near else 3e-6) * size * face + (3e-4 if near else 3e-6) * far * face
            want = volume(a, b)
            got, gi = float(v[i, j]), float(iou[i, j])
            c.check(abs(got - want) < tol, "intersection volume", got=got, want=want, tol=tol, rel=rel, kind=kind)
            wi = want / (vol[0][i] + vol[1][j] - want)
            ti = 3 * tol / min(vol[0][i], vol[1][j])
            c.check(abs(gi - wi) < ti, "iou", got=gi, want=wi, tol=ti)
            c.check(-ti <= gi <= 1 + ti, "iou outside of 0..1", got=gi)
            c.check(abs(float(v2[j, i]) - want) < tol and abs(float(iou2[j, i]) - wi) < ti, "not symmetric", got=float(v2[j, i]), want=want, forward=got, tol=tol, rel=rel, kind=kind)
            if want == 0:
                c.count("empty")
            c.count("pairs")
    c.count("tilted", rel.startswith("tilted"))
    for k in ("identical", "touching", "nested", "shared"):
        c.count(k, rel == k)
    c.sig(rel, kind, len(As), len(Bs))


@monitor(quick=100, thorough=2000)
def invalid_boxes(c):
    from pytorch3d.ops import box3d_overlap
    b = UNIT * sizes(c)
    good = torch.tensor(UNIT[None]).float()
    x = b.copy()
    how = c.pick("flat", "bent", "shape")
    if how == "flat":
        x[:, c.i(0, 2)] *= 0
    elif how == "bent":
        k = c.i(0, 7)
        x[k] += 0.05 + c.rand(3).numpy()
    t = torch.tensor(x[None]).float()
    if how == "shape":
        t = t[:, :7]
    for p, q in ((t, good), (good, t)):
        c.raises(ValueError, lambda: box3d_overlap(p, q), f"box3d_overlap accepts an invalid box ({how})")
    c.sig(how)
