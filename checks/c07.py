"""list / packed / padded conversions against explicit loops."""
import torch
from lib.harness import monitor

TECHNIQUE = "runtime monitoring: conversions on random ragged data, every element compared with an explicit loop, plus round trips"
RULE = ("random ragged lists (1-6 elements, sizes 0-7, 1-3 trailing dimensions, several dtypes), explicit and implicit pad sizes and split sizes; "
        "distinct = distinct (function, sizes, dims, dtype, options)")
DT = [torch.float32, torch.float64, torch.int64, torch.int32, torch.bool]


def ragged(c, dims=None, dt=None, n=None, lo=0):
    n = n or c.i(1, 6)
    same = c.p(0.2)
    s0 = c.i(lo, 6)
    sizes = [s0 if same else 0 if (lo == 0 and c.p(0.2)) else c.i(lo, 7) for _ in range(n)]
    dims = dims if dims is not None else [c.i(1, 3) for _ in range(c.i(0, 2))]
    dt = dt or c.pick(*DT)

    def mk(s):
        x = c.randn(s, *dims) * 10
        return x.to(dt)
    return [mk(s) for s in sizes], sizes, dims, dt


@monitor(quick=4000, need=("gap", "grad", "empty_element"))
def lists(c):
    from pytorch3d.structures.utils import list_to_padded, padded_to_list, list_to_packed, packed_to_list, padded_to_packed
    x, sizes, dims, dt = ragged(c)
    n = len(x)
    k = c.pick("padded", "padded_nd", "packed", "padded_to_packed", "to_list")
    c.count("empty_element", 0 in sizes)
    if k == "padded":
        extra = c.i(0, 3) if c.p(0.4) else None
        M = max(sizes) + (extra or 0)
        if extra is None and max(sizes) == 0:
            return
        pv = c.pick(0.0, -1.0, 7.0) if dt != torch.bool else 0.0
        eq = len(set(sizes)) == 1 and extra is None and c.p(0.5)
        kw = {}
        if extra is not None:
            kw["pad_size"] = (M, *dims)
        arg = [y.new_zeros(0) if len(y) == 0 and not eq and c.p(0.5) else y for y in x]
        if any(len(y) == 0 and y.ndim == 1 for y in arg) and max(y.ndim for y in arg) != 1 + len(dims):
            return
        c.sig(k, sizes, dims, str(dt), extra, pv, eq)
        p = list_to_padded(tuple(arg) if c.p(0.2) else arg, pad_value=pv, equisized=eq, **kw)
        want = torch.full((n, M, *dims), pv).to(dt)
        for i in range(n):
            want[i, :sizes[i]] = x[i]
        c.equal(p, want, "list_to_padded")
        c.check(p.dtype == dt, f"list_to_padded dtype {p.dtype}")
        back = padded_to_list(p, sizes)
        for i in range(n):
            c.equal(back[i], x[i], f"padded_to_list[{i}]")
        c.count("gap", M > min(sizes))
        if dt == torch.float32 and not eq and sum(sizes):
            y = [t.clone().requires_grad_() for t in x]
            w = c.randn(n, M, *dims)
            g = torch.autograd.grad((list_to_padded(y, pad_value=pv, **kw) * w).sum(), y, allow_unused=True)
            for i in range(n):
                if sizes[i]:
                    c.equal(g[i], w[i, :sizes[i]], f"gradient of list_to_padded[{i}]")
            c.count("grad")
    elif k == "padded_nd":
        D = c.i(1, 3)
        shp = [[c.i(0 if c.p(0.2) else 1, 4) for _ in range(D)] for _ in range(n)]
        y = [c.randn(*s) for s in shp]
        ex = c.i(0, 2)
        use = c.p(0.5)
        if not use and all(s[0] == 0 for s in shp):
            return
        live = [s for s in shp if s[0] > 0] or [[0] * D]
        M = [max(s[d] for s in (shp if use else live)) + (ex if use else 0) for d in range(D)]
        if not use and any(s[0] == 0 and any(a > b for a, b in zip(s, M)) for s in shp):
            return
        c.sig(k, shp, use, ex)
        p = list_to_padded(y, pad_size=M if use else None, pad_value=-2.0)
        want = torch.full((n, *M), -2.0)
        for i, s in enumerate(shp):
            want[(i, *[slice(0, a) for a in s])] = y[i]
        c.equal(p, want, "list_to_padded of tensors of different shapes")
        back = padded_to_list(p, shp)
        for i in range(n):
            c.equal(back[i], y[i], f"padded_to_list with 2-D split sizes [{i}]")
        if D > 1:
            c.raises(ValueError, lambda: list_to_padded(y, pad_size=M[:-1]), "a pad_size of the wrong length is accepted")
            c.raises(ValueError, lambda: list_to_padded(y + [c.randn(2)]), "elements of different dimensions are accepted")
    elif k == "packed":
        c.sig(k, sizes, dims, str(dt))
        p, num, first, idx = list_to_packed(x)
        c.equal(p, torch.cat(x), "list_to_packed")
        c.equal(num.tolist(), sizes, "number of items")
        c.equal(first.tolist(), [sum(sizes[:i]) for i in range(n)], "first indices")
        c.equal(idx.tolist(), [i for i in range(n) for _ in range(sizes[i])], "element-to-list indices")
        back = packed_to_list(p, sizes)
        c.check(len(back) == n, "packed_to_list length")
        for i in range(n):
            c.equal(back[i], x[i], f"packed_to_list[{i}]")
        if p.shape[0] % 2 == 0 and p.shape[0] and c.p(0.5):
            h = packed_to_list(p, p.shape[0] // 2)
            c.check(len(h) == 2 and bool((torch.cat(list(h)) == p).all()), "packed_to_list with an int")
        c.raises(ValueError, lambda: list_to_packed([]), "packing an empty list is accepted")
    elif k == "padded_to_packed":
        M, Dm = c.i(1, 6), c.i(1, 4)
        p = c.randn(n, M, Dm)
        ss = [c.i(0, M) for _ in range(n)]
        mode = c.pick("split", "pad", "all")
        c.sig(k, mode, n, M, Dm, ss)
        if mode == "split":
            c.equal(padded_to_packed(p, split_size=ss), torch.cat([p[i, :ss[i]] for i in range(n)]), "padded_to_packed by sizes")
            c.raises(ValueError, lambda: padded_to_packed(p, split_size=ss + [1]), "split sizes of the wrong length are accepted")
            c.raises(ValueError, lambda: padded_to_packed(p, split_size=[[s, 1] for s in ss]), "2-D split sizes are accepted")
        elif mode == "pad":
            pv = c.pick(0.0, -1.0)
            for i in range(n):
                p[i, ss[i]:] = pv
            # a row with only some values equal to the padding is data
            if ss[0] and Dm > 1:
                p[0, 0, 0] = pv
            c.equal(padded_to_packed(p, pad_value=pv), torch.cat([p[i, :ss[i]] for i in range(n)]), "padded_to_packed by padding value")
            c.raises(ValueError, lambda: padded_to_packed(p, pad_value=pv, split_size=ss), "both pad_value and split_size are accepted")
        else:
            c.equal(padded_to_packed(p), p.reshape(-1, Dm), "padded_to_packed without sizes")
        c.raises(ValueError, lambda: padded_to_packed(p[0]), "2-D input is accepted")
    else:
        M = c.i(0, 5)
        p = c.randn(n, M, *dims)
        c.sig(k, n, M, dims)
        b = padded_to_list(p)
        c.check(len(b) == n, "padded_to_list length")
        for i in range(n):
            c.equal(b[i], p[i], "padded_to_list without sizes")
        c.raises(ValueError, lambda: padded_to_list(p, [1] * (n + 1)), "split sizes of the wrong length are accepted")


@monitor(quick=3000, need=("grad", "empty_element"))
def native(c):
    """ops.packed_to_padded / padded_to_packed, values and gradients."""
    from pytorch3d.ops import packed_to_padded, padded_to_packed
    dims = [c.i(1, 3) for _ in range(c.i(0, 3))]
    x, sizes, _, _ = ragged(c, dims=dims, dt=torch.float32)
    n = len(x)
    total = sum(sizes)
    if total == 0 and dims:
        return
    c.count("empty_element", 0 in sizes)
    first = torch.tensor([sum(sizes[:i]) for i in range(n)])
    M = max(sizes) + c.pick(0, 0, 2)
    c.sig(sizes, dims, M)
    packed = torch.cat(x).requires_grad_()
    arg = packed
    if dims and c.p(0.3):  # not contiguous
        arg = packed.transpose(0, -1).contiguous().transpose(0, -1)
    pad = packed_to_padded(arg, first, M)
    want = torch.zeros(n, M, *dims)
    for i in range(n):
        want[i, :sizes[i]] = x[i]
    c.equal(pad, want, "packed_to_padded")
    if total:
        w = c.randn(n, M, *dims)
        g, = torch.autograd.grad((pad * w).sum(), packed)
        c.equal(g, torch.cat([w[i, :sizes[i]] for i in range(n)]), "gradient of packed_to_padded")
        c.count("grad")
    # back, also with the padded dimension elsewhere
    src = c.randn(n, M, *dims)
    dim = c.i(1, 1 + len(dims))
    inp = src.movedim(1, dim).clone().requires_grad_()
    if M == 0:
        return
    out = padded_to_packed(inp, first, total, max_size_dim=dim) if dim != 1 or c.p(0.5) else padded_to_packed(inp, first, total)
    c.equal(out, torch.cat([src[i, :sizes[i]] for i in range(n)]), f"padded_to_packed (dimension {dim})")
    if total:
        w = c.randn(total, *dims)
        g, = torch.autograd.grad((out * w).sum(), inp)
        wg = torch.zeros(n, M, *dims)
        for i in range(n):
            o = int(first[i])
            wg[i, :sizes[i]] = w[o:o + sizes[i]]
        c.equal(g, wg.movedim(1, dim), "gradient of padded_to_packed")


@monitor(quick=600)
def native_rejects(c):
    from pytorch3d.ops import packed_to_padded, padded_to_packed
    f = torch.tensor([0, 2])
    c.sig(c.index % 7)
    bad = [lambda: packed_to_padded(c.randn(4, 2, dtype=torch.float64), f, 2), lambda: packed_to_padded(c.randn(4, 2), f.int(), 2),
           lambda: packed_to_padded(c.randn(4, 2), f[None], 2), lambda: packed_to_padded(c.randn(4, 2), f, 2.0),
           lambda: padded_to_packed(c.randn(2, 2, 2, dtype=torch.float64), f, 4), lambda: padded_to_packed(c.randn(2, 2, 2), f.int(), 4),
           lambda: padded_to_packed(c.randn(2, 2, 2), f, 4.0)]
    c.raises(ValueError, bad[c.index % 7], f"bad input {c.index % 7} is accepted")


@monitor(quick=1500, need=("minus_one",))
def gather(c):
    """masked_gather, wmean, eyes, convert_pointclouds_to_tensor."""
    from pytorch3d.ops import utils as U
    from pytorch3d.structures import Pointclouds
    N, P, D, K = c.i(1, 3), c.i(1, 6), c.i(1, 4), c.i(1, 5)
    pts = c.randn(N, P, D).requires_grad_()
    three = c.p(0.5)
    shape = (N, c.i(1, 4), K) if three else (N, K)
    idx = c.randint(-1, P, shape)
    c.count("minus_one", bool((idx == -1).any()))
    c.sig("gather", N, P, D, shape)
    i0 = idx.clone()
    got = U.masked_gather(pts, idx)
    want = torch.zeros(*shape, D)
    flat = idx.reshape(N, -1)
    wf = want.view(N, -1, D)
    for n in range(N):
        for j, k in enumerate(flat[n].tolist()):
            if k >= 0:
                wf[n, j] = pts.detach()[n, k]
    c.equal(got, want, "masked_gather")
    c.equal(idx, i0, "masked_gather changed the index")
    w = c.randn(*got.shape)
    g, = torch.autograd.grad((got * w).sum(), pts)
    wg = torch.zeros(N, P, D)
    for n in range(N):
        for j, k in enumerate(flat[n].tolist()):
            if k >= 0:
                wg[n, k] += w.view(N, -1, D)[n, j]
    c.close(g, wg, "gradient of masked_gather", atol=1e-5, rtol=1e-5)
    c.raises(ValueError, lambda: U.masked_gather(pts, torch.zeros(N + 1, K, dtype=torch.int64)), "another batch size is accepted")
    # weighted mean
    x = c.randn(N, P, D)
    wt = c.rand(N, P)
    if c.p(0.3):
        wt[c.i(0, N - 1)] = 0
    kd = c.p(0.5)
    got = U.wmean(x, wt, keepdim=kd)
    num = (x.double() * wt.double()[..., None]).sum(-2, keepdim=kd)
    den = wt.double()[..., None].sum(-2, keepdim=kd).clamp(min=1e-9)
    c.close(got, num / den, "wmean", atol=1e-5, rtol=1e-4)
    c.close(U.wmean(x, keepdim=kd), x.double().mean(-2, keepdim=kd), "wmean without weights", atol=1e-5, rtol=1e-4)
    c.close(U.wmean(x, wt, dim=(0, 1), keepdim=kd), (x.double() * wt.double()[..., None]).sum((0, 1), keepdim=kd) / wt.double()[..., None].sum((0, 1), keepdim=kd).clamp(min=1e-9), "wmean over two dimensions", atol=1e-5, rtol=1e-4)
    if P > 1:
        c.raises(ValueError, lambda: U.wmean(x, c.rand(N, P + 1)), "incompatible weights are accepted")
    c.equal(U.eyes(D, N), torch.eye(D).expand(N, D, D), "eyes")
    ps = [c.randn(c.i(1, 4), 3) for _ in range(N)]
    X, num = U.convert_pointclouds_to_tensor(Pointclouds(points=ps))
    c.equal(num.tolist(), [len(p) for p in ps], "convert_pointclouds_to_tensor sizes")
    for n in range(N):
        c.equal(X[n, :len(ps[n])], ps[n], "convert_pointclouds_to_tensor points")
    X, num = U.convert_pointclouds_to_tensor(x)
    c.equal(X, x, "convert_pointclouds_to_tensor of a tensor")
    c.equal(num.tolist(), [P] * N, "convert_pointclouds_to_tensor sizes of a tensor")
