"""Float64 brute-force reference of the rasterizers, with margins for the float32 arithmetic of the code."""
import torch

D = torch.float64


def pixel_centres(H, W):
    """NDC of the pixel centres: the shorter side spans [-1, 1], +x left, +y up."""
    s = min(H, W)
    y = (H / 2 - (torch.arange(H, dtype=D) + 0.5)) * 2 / s
    x = (W / 2 - (torch.arange(W, dtype=D) + 0.5)) * 2 / s
    return x[None, :].expand(H, W), y[:, None].expand(H, W)


def cross2(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def seg_dist2(p, a, b):
    ab = b - a
    l2 = (ab * ab).sum(-1)
    t = (((p - a) * ab).sum(-1) / l2.clamp(min=1e-30)).clamp(0, 1)
    q = a + t[..., None] * ab
    d = ((p - q) ** 2).sum(-1)
    # a zero-length edge is a point
    return torch.where(l2 > 0, d, ((p - a) ** 2).sum(-1))


class Faces:
    """What each pixel sees of each face: arrays of shape (H, W, F)."""


def project_faces(tri, H, W, blur, persp, clip, cull, cerr=3e-7):
    """tri: (F,3,3) float64, x and y in NDC, z depth; no vertex near or behind the camera plane is expected to count.
    cerr: relative error of the input coordinates."""
    o = Faces()
    F = tri.shape[0]
    px, py = pixel_centres(H, W)
    p = torch.stack([px, py], -1)[:, :, None]  # H,W,1,2
    a, b, c = (tri[:, i, :2] for i in range(3))
    z = tri[..., 2]
    area = cross2(b - a, c - a)
    w = torch.stack([cross2(c - b, p - b), cross2(a - c, p - c), cross2(b - a, p - a)], -1)  # H,W,F,3
    ext = tri[..., :2].abs().amax((1, 2)) + max(float(px.abs().max()), float(py.abs().max()))  # coordinate magnitude
    span = torch.stack([(b - a).norm(dim=-1), (c - b).norm(dim=-1), (a - c).norm(dim=-1)], -1).amax(-1)
    areaerr = 4 * cerr * ext * (span + ext * cerr) + 1e-15
    o.area, o.areaerr = area, areaerr
    safe = torch.where(area.abs() < 1e-12, torch.full_like(area, 1e-12), area)
    bary = w / safe[:, None]
    dist_to = (p - tri[:, :, :2].mean(1)).norm(dim=-1) + span  # reach of the edge functions
    berr = (8 * cerr * ext * dist_to + 1e-8 * (bary.abs().sum(-1) + 1)) / safe.abs() + bary.abs().amax(-1) * areaerr / safe.abs() + 1e-6
    if persp:
        t = torch.stack([bary[..., 0] * z[:, 1] * z[:, 2], bary[..., 1] * z[:, 0] * z[:, 2], bary[..., 2] * z[:, 0] * z[:, 1]], -1)
        den = t.sum(-1, keepdim=True)
        zz = z.abs()
        m = torch.stack([zz[:, 1] * zz[:, 2], zz[:, 0] * zz[:, 2], zz[:, 0] * zz[:, 1]], -1).amax(-1)
        pos = den > 0
        sden = torch.where(den.abs() < 1e-12, torch.full_like(den, 1e-12), den)
        pb = t / sden
        err = berr * m * 4 / sden[..., 0].abs() * (1 + pb.abs().amax(-1))
        err = torch.where(pos[..., 0], err, torch.full_like(err, float("inf")))
        bary, berr = pb, err
    inside_margin = bary.amin(-1)
    used, uerr = bary, berr
    if clip:
        used = bary.clamp(min=0)
        s = used.sum(-1, keepdim=True).clamp(min=1e-5)
        used = used / s
        uerr = berr * 4 / s[..., 0]
    pz = (used * z).sum(-1)
    zerr = uerr * 3 * z.abs().amax(-1) + 1e-6 * z.abs().amax(-1)
    d2 = torch.stack([seg_dist2(p, a, b), seg_dist2(p, b, c), seg_dist2(p, c, a)], -1).amin(-1)
    derr = 4 * cerr * ext * d2.sqrt() + (2 * cerr * ext) ** 2 + 1e-9 + 1e-6 * d2
    l2 = torch.stack([((b - a) ** 2).sum(-1), ((c - b) ** 2).sum(-1), ((a - c) ** 2).sum(-1)], -1).amin(-1)
    derr = derr + torch.where(l2 < 4e-8, 6e-4 * d2.sqrt() + 4e-7, torch.zeros_like(d2))
    # three-valued verdicts
    in_yes, in_no = inside_margin > berr, inside_margin < -berr
    near_yes, near_no = d2 < blur - derr, d2 >= blur + derr
    if blur == 0:
        near_no = torch.ones_like(near_no)
        near_yes = ~near_no
    ok_yes, ok_no = in_yes | near_yes, in_no & near_no
    fr_yes, fr_no = pz > zerr, pz < -zerr
    a_yes, a_no = area.abs() > 1e-8 + areaerr, area.abs() < 1e-8 - areaerr
    exact = torch.zeros(F, dtype=torch.bool)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        exact |= (tri[:, i, :2] == tri[:, j, :2]).all(-1)
    a_no = a_no | exact
    a_yes = a_yes & ~exact
    if cull:
        # front faces are anti-clockwise in the image, where +x points left
        a_yes, a_no = a_yes & (area < -areaerr), a_no | (area > areaerr)
    zmin = z.amin(-1)  # a face with a vertex behind the camera plane is not drawn
    a_yes, a_no = a_yes & (zmin > 1e-7), a_no | (zmin < -1e-7)
    o.yes = ok_yes & fr_yes & a_yes
    o.no = ok_no | fr_no | a_no
    o.z, o.zerr, o.bary, o.berr, o.d2, o.derr = pz, zerr, used, uerr, d2, derr
    o.in_yes, o.in_no = in_yes, in_no
    o.unsure, o.unsure_d = None, torch.zeros_like(in_yes)
    return o


def judge(c, out, tris, first, H, W, K, blur, persp, clip, cull, what="", cerr=3e-7, info=None, oracle=None, split_key=None):
    """split_key: key of the known finding about faces cut in two, with blur and a full list."""
    info = info or {}
    p2f, zbuf, bary, dists = out
    N = len(tris)
    c.check(tuple(p2f.shape) == (N, H, W, K) and tuple(zbuf.shape) == (N, H, W, K) and tuple(bary.shape) == (N, H, W, K, 3) and tuple(dists.shape) == (N, H, W, K),
            f"{what}: output shapes {tuple(p2f.shape)} {tuple(zbuf.shape)} {tuple(bary.shape)} {tuple(dists.shape)}", **info)
    c.check(p2f.dtype == torch.int64, f"{what}: pix_to_face has dtype {p2f.dtype}", **info)
    full = 0
    for n in range(N):
        F = tris[n].shape[0]
        f = p2f[n]
        empty = f < 0
        c.check(bool((f[empty] == -1).all() and (zbuf[n][empty] == -1).all() and (bary[n][empty] == -1).all() and (dists[n][empty] == -1).all()),
                f"{what}: an empty slot is not -1", n=n, **info)
        c.check(not bool((empty[..., :-1] & ~empty[..., 1:]).any()), f"{what}: a filled slot after an empty one", n=n, **info)
        local = f - first[n]
        c.check(bool(((local >= 0) & (local < F) | empty).all()), f"{what}: image {n} shows a face of another mesh", faces=f.unique(), lo=first[n], hi=first[n] + F, **info)
        c.count("pixels", H * W)
        if F == 0:
            continue
        o = oracle(tris[n].double()) if oracle else project_faces(tris[n].double(), H, W, blur, persp, clip, cull, cerr)
        cnt = (~empty).sum(-1)
        seen = torch.zeros(H, W, F, dtype=torch.int64).scatter_add(2, local.clamp(min=0), (~empty).long())
        if bool((seen > 1).any()):
            c.fail(f"{what}: a face is listed twice for a pixel", n=n, at=torch.nonzero(seen > 1)[:3], **info)
        bad = (seen > 0) & o.no
        if bool(bad.any()):
            y, x, k = torch.nonzero(bad)[0].tolist()
            c.fail(f"{what}: image {n} pixel ({y},{x}) lists face {k}, which does not cover it or is not in front of the camera (area {float(o.area[k]):.3g}, "
                   f"depth {float(o.z[y, x, k]):.4g}, squared distance {float(o.d2[y, x, k]):.4g}, bary {o.bary[y, x, k].tolist()})", tri=tris[n][k], **info)
        # completeness: a face that surely covers the pixel is listed unless the list is full of faces at least as near
        zl = torch.where(cnt == K, zbuf[n][..., -1].double(), torch.full((H, W), float("inf"), dtype=D))
        miss = o.yes & (seen == 0) & (o.z < zl[..., None] - 2 * o.zerr - 1e-6 * zl.abs().clamp(max=1e9)[..., None])
        why = split_key is not None and blur > 0 and (cnt == K)[..., None] & o.crossing.any()
        for m, key in ((miss & why, split_key), (miss & ~why, None)) if split_key and blur > 0 else ((miss, None),):
            if not bool(m.any()):
                continue
            y, x, k = torch.nonzero(m)[0].tolist()
            c.fail(f"{what}: image {n} pixel ({y},{x}) does not list face {k} at depth {float(o.z[y, x, k]):.5g} (squared distance {float(o.d2[y, x, k]):.4g}, "
                   f"bary {o.bary[y, x, k].tolist()}); it lists {f[y, x].tolist()} at {zbuf[n, y, x].tolist()}", tri=tris[n][k], key=key, **info)
        zb = zbuf[n]
        c.check(bool(((zb[..., 1:] >= zb[..., :-1]) | empty[..., 1:]).all()), f"{what}: depths are not in ascending order", n=n, **info)
        # values
        v = ~empty
        ix = local.clamp(min=0)
        if o.unsure is not None:  # values the reference does not determine
            v = v & ~o.unsure.gather(2, ix)
        if split_key is not None and blur > 0:
            wrong = v & (cnt == K)[..., None] & o.crossing[ix] & o.in_yes.gather(2, ix) & (dists[n] > 0)
            if bool(wrong.any()):
                c.fail(f"{what}: image {n} shows the part of a cut face that does not contain the pixel, at {torch.nonzero(wrong)[0].tolist()}", key=split_key, **info)
                v = v & ~wrong
        g = lambda t: t.gather(2, ix)[v]
        gb = o.bary.gather(2, ix[..., None].expand(-1, -1, -1, 3))[v]
        m = ~g(o.no)
        good = g(o.berr) < 0.05
        m &= good
        if bool(m.any()):
            c.close(zb[v][m], g(o.z)[m], f"{what}: depth", atol=2 * g(o.zerr)[m] + 1e-6, rtol=1e-5, n=n, **info)
            c.close(bary[n][v][m], gb[m], f"{what}: barycentric coordinates", atol=(2 * g(o.berr)[m] + 1e-6)[:, None].expand(-1, 3), rtol=1e-5, n=n, **info)
        d = dists[n][v].double()
        kd = ~g(o.unsure_d)
        c.close(d.abs()[kd], g(o.d2)[kd], f"{what}: squared distance", atol=2 * g(o.derr)[kd] + 1e-8, rtol=1e-4, n=n, **info)
        sy, sn = g(o.in_yes), g(o.in_no)
        c.check(bool((d[sy] <= 0).all() and (d[sn] >= 0).all()), f"{what}: sign of the distance", n=n, **info)
        c.count("fragments", v.sum())
        c.count("inside", sy.sum())
        c.count("blurred", sn.sum())
        c.count("ambiguous", int((~o.yes & ~o.no).sum()))
        c.count("overfull", int((o.yes.sum(-1) > K).sum()))


def _clip_polygon(P, zc):
    """Camera-space polygon, the part with z >= zc."""
    out = []
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        ia, ib = a[2] >= zc, b[2] >= zc
        if ia:
            out.append(a)
        if ia != ib:
            t = (zc - a[2]) / (b[2] - a[2])
            q = a + t * (b - a)
            q[2] = zc
            out.append(q)
    return out


def clipped_faces(tri, H, W, blur, persp, clip, cull, zc, cerr=3e-7):
    """As project_faces, for faces that may cross the plane z = zc (tri in NDC with signed depth). The visible part of a
    crossing face is found by intersecting each pixel's ray with the plane of the whole face."""
    o = project_faces(tri, H, W, blur, persp, clip, cull, cerr)
    z = tri[..., 2]
    behind = z < zc
    crossing = behind.any(1) & ~behind.all(1)
    o.no = o.no | behind.all(1)
    o.yes = o.yes & ~behind.any(1)
    near = ((z - zc).abs() < 1e-6 * z.abs().amax(1, keepdim=True)).any(1) & ~crossing  # the plane touches a vertex
    o.unsure = torch.zeros_like(o.yes)
    px, py = pixel_centres(H, W)
    cam = tri.clone()
    if persp:
        cam[..., :2] *= z[..., None]
    o.crossing = crossing
    for f in torch.nonzero(crossing)[:, 0].tolist():
        poly = _clip_polygon(list(cam[f]), zc)
        q = torch.stack(poly)
        q2 = q[:, :2] / q[:, 2:] if persp else q[:, :2]
        ext = float(q2.abs().max()) + 2
        n = len(q2)
        nx = q2[[(i + 1) % n for i in range(n)]]
        area = 0.5 * float(cross2(q2, nx).sum())
        ok = abs(area) > 1e-3 * ext * ext
        # vertices that project through the other side have large coordinates; their rounding moves the cut
        cond = float(tri[f].abs().max() / (z[f].max() - z[f].min()).clamp(min=1e-9) * (1 + z[f].abs().max())) + float(z[f].abs().max())
        delta = 2e-6 * ext * (1 + cond)
        p = torch.stack([px, py], -1)
        d2 = torch.stack([seg_dist2(p, q2[i], nx[i]) for i in range(n)], -1).amin(-1)
        side = torch.stack([cross2(nx[i] - q2[i], p - q2[i]) for i in range(n)], -1) * (1 if area > 0 else -1)
        inside = (side >= 0).all(-1)
        d = d2.sqrt()
        sure_in, sure_out = inside & (d > delta), ~inside & (d > delta)

        def solve(px, py):
            if persp:
                M = cam[f].T  # columns are the vertices
                rhs = torch.stack([px, py, torch.ones_like(px)], -1)
            else:
                M = torch.stack([cam[f][:, 0], cam[f][:, 1], torch.ones(3, dtype=D)])
                rhs = torch.stack([px, py, torch.ones_like(px)], -1)
            if float(torch.linalg.det(M).abs()) < 1e-9:
                return None, None
            u = torch.linalg.solve(M, rhs[..., None])[..., 0]
            s = u.sum(-1, keepdim=True)
            return u / s, (1 / s[..., 0] if persp else (u * z[f]).sum(-1))

        b, dep = solve(px, py)
        if b is None:
            ok = False
        if ok:
            err = torch.zeros_like(dep)
            for dx, dy in ((delta, 0), (-delta, 0), (0, delta), (0, -delta)):
                b2, z2 = solve(px + dx, py + dy)
                err = torch.maximum(err, ((b2 - b).abs().amax(-1)))
            err = 2 * err + 1e-4
            zerr = err * (z[f].max() - z[f].min() + z[f].abs().max() * 1e-3) + 1e-5 * z[f].abs().max()
            vis = torch.tensor(not cull or area < -1e-3 * ext * ext)
            hid = torch.tensor(cull and area > 1e-3 * ext * ext)
            o.yes[..., f] = sure_in & vis
            r = blur ** 0.5
            o.no[..., f] = (sure_out & (d > r + delta)) | hid
            o.z[..., f], o.zerr[..., f], o.bary[..., f, :], o.berr[..., f] = dep, zerr, b, err
            o.in_yes[..., f], o.in_no[..., f] = sure_in, sure_out
            o.unsure[..., f] = ~sure_in & ~sure_out
            # beyond the edge only membership and sign are determined
            o.berr[..., f] = torch.where(sure_in, o.berr[..., f], torch.full_like(err, 1.0))
            o.unsure_d[..., f] = True
            o.z[..., f] = torch.where(sure_in, dep, torch.full_like(dep, float("inf")))
            o.zerr[..., f] = torch.where(sure_in, zerr, torch.zeros_like(zerr))
        else:
            o.yes[..., f] = False
            o.no[..., f] = False
            o.unsure[..., f] = True
            o.unsure_d[..., f] = True
            o.z[..., f] = float("inf")
            o.zerr[..., f] = 0
            o.in_yes[..., f] = o.in_no[..., f] = False
    if bool(near.any()):
        o.yes[..., near] = False
        o.unsure[..., near] = True
    return o
