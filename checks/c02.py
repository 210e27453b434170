"""The operators that start threads, in a build of the extension instrumented by
ThreadSanitizer. A race report ends the worker with both stacks; besides, every
result is compared, bit by bit, with the one of a single thread.
"""
import threading

import torch

from lib import gen, ops
from lib.harness import monitor

SANITIZER = "tsan"
TECHNIQUE = "ThreadSanitizer on the thread-splitting operators over thread counts and sizes around the split boundaries, and bitwise comparison with one thread"
RULE = ("mesh rasterization and PDF sampling x threads 1..17 x image heights and batch sizes below, at, above and not a multiple of the thread count x settings, called directly, through the renderers and from several Python threads at once; "
        "distinct = distinct (operator, rows or batch, threads, settings)")
ASSUMPTIONS = ["libtorch is not instrumented; its own kernels are trusted",
               "a race that needs more threads than 17 or an interleaving that never happens on 8 cores is reported only if the happens-before relation of the observed run lacks an edge"]


def differ(a, b):
    return not (a.shape == b.shape and bool(((a == b) | (a.isnan() & b.isnan())).all()))


def with_threads(n, fn):
    torch.set_num_threads(n)
    try:
        return fn()
    finally:
        torch.set_num_threads(1)


def around(c, nt):
    """A size near a multiple of the thread count."""
    return max(1, c.pick(1, nt - 1, nt, nt + 1, 2 * nt - 1, 2 * nt, 2 * nt + 1, 3 * nt + 2, c.i(1, 4 * nt)))


def compare(c, what, fn, nt, *sig):
    want = with_threads(1, fn)
    got = with_threads(nt, fn)
    for k, (a, b) in enumerate(zip(want, got)):
        c.check(not differ(a, b), f"{what}: result {k} with {nt} threads differs from the one with a single thread", threads=nt, one=a, many=b)
    c.count("compared")
    c.sig(what, nt, *sig)


@monitor(quick=1200, thorough=30000, need=("compared", "fewer rows than threads", "hits"))
def rasterization(c):
    from pytorch3d.renderer.mesh import rasterize_meshes
    from pytorch3d.structures import Meshes
    nt = c.pick(2, 3, 4, 5, 7, 8, 16, 17)
    h, w = around(c, nt), c.i(1, 12)
    ms = [(v - v.mean(0) + torch.tensor([0, 0, 3.]), f) for v, f in gen.meshes(c, c.i(1, 3))]
    kw = dict(image_size=(h, w), blur_radius=c.pick(0.0, 0.01), faces_per_pixel=c.i(1, 5), bin_size=c.pick(0, None), perspective_correct=c.p(0.5),
              clip_barycentric_coords=c.p(0.5), cull_backfaces=c.p(0.2), z_clip_value=c.pick(None, None, 2.5))
    m = Meshes([v for v, _ in ms], [f for _, f in ms])

    def fn():
        return rasterize_meshes(m, **kw)
    c.count("fewer rows than threads", h < nt)
    compare(c, "rasterize_meshes", fn, nt, h, w, *map(str, kw.values()))
    c.count("hits", int((with_threads(nt, fn)[0] >= 0).sum()))


@monitor(quick=1500, thorough=40000, need=("compared", "fewer elements than threads", "empty chunk"))
def pdf_sampling(c):
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
    nt = c.pick(1, 2, 3, 4, 5, 8, 16)
    b = around(c, min(nt, 4))
    nb, ns, det = c.i(1, 9), c.i(1, 17), c.p(0.5)
    bins, w = c.rand(b, nb + 1).sort(-1)[0], c.rand(b, nb) * (c.rand(b, nb) < 0.8)
    if c.p(0.3):
        bins, w = bins.T.contiguous().T, w.T.contiguous().T
    seed = c.i(0, 2**30)

    def fn():
        torch.manual_seed(seed)
        return (sample_pdf(bins, w, ns, det=det),)
    t = min(nt, 4, b)
    per = 1 + (b - 1) // t
    c.count("fewer elements than threads", b < min(nt, 4))
    c.count("empty chunk", per * (t - 1) >= b and t > 1)
    compare(c, "sample_pdf", fn, nt, b, nb, ns, det)


@monitor(quick=150, thorough=4000, need=("compared",))
def through_renderers(c):
    call = ops.OPS[c.pick("render_mesh", "sample_pdf")](c, False)
    nt = c.pick(2, 4, 9)

    def fn():
        torch.manual_seed(c.seed)
        t = {k: v.clone().requires_grad_(k in call.diff) for k, v in call.t.items()}
        o = call.fn(**t)
        o = [x for x in (o if isinstance(o, tuple) else (o,))]
        if call.diff:
            (o[0].sum() * 1).backward()
        return [x.detach() for x in o] + [v.grad for v in t.values() if v.grad is not None]
    compare(c, "renderer", fn, nt, *call.sig)


@monitor(quick=120, thorough=3000, need=("calls",))
def concurrent_callers(c):
    """Several Python threads in the same operators, and in their backward passes, at once."""
    from pytorch3d.renderer.implicit.sample_pdf import sample_pdf
    jobs = []
    for _ in range(c.i(2, 4)):
        call = ops.OPS[c.pick("rasterize_meshes", "knn", "point_mesh", "splat_volume", "compositing", "rasterize_points", "sample_pdf", "pulsar")](c, False)
        jobs.append(call)

    def one(call):
        t = {k: v.clone().requires_grad_(k in call.diff) for k, v in call.t.items()}
        o = call.fn(**t)
        o = o if isinstance(o, tuple) else (o,)
        d = [x for x in o if isinstance(x, torch.Tensor) and x.requires_grad]
        if d:
            torch.autograd.backward(d, [torch.ones_like(x) for x in d])
        return [x.detach() for x in o if isinstance(x, torch.Tensor)] + [v.grad for v in t.values() if v.grad is not None]

    # (random draws are shared by the threads: only calls that draw nothing are compared)
    draws = [j for j in jobs if j.fn.__qualname__.startswith("sample_pdf")]
    want = [one(j) for j in jobs]
    got = [None] * len(jobs)
    err = []

    def body(i):
        try:
            for _ in range(3):
                got[i] = one(jobs[i])
        except BaseException as e:
            err.append(e)
    torch.set_num_threads(c.pick(1, 3))
    try:
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        torch.set_num_threads(1)
    if err:
        raise err[0]
    for j, a, b in zip(jobs, want, got):
        if j in draws:
            continue
        for x, y in zip(a, b):
            c.check(not differ(x, y), "a call beside other calls gives another result", alone=x, beside=y)
    c.count("calls", 3 * len(jobs))
    c.sig(*[j.fn.__qualname__.split(".")[0] for j in jobs])
