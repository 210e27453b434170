"""Voxel grids: evaluation, resizing, cropping, reloading, scaffolds, and camera-frame evaluation of implicit functions."""
import math
import warnings

import torch

from lib.harness import monitor

TECHNIQUE = "runtime monitoring: a float64 separable interpolation of the (factored) values judges every evaluation, before and after each resize, crop and reload of recorded histories"
RULE = ("grid types x resolutions x alignment x padding x modes x extents, histories of resizes, crops and reloads, implicit functions with scaffolds x chunk sizes x camera batches; "
        "distinct = distinct (component, options, resolutions)")
ASSUMPTIONS = ["resizing and cropping are judged at the centres of the new voxels (exactly represented there) inside the old grid; finer grids that contain the old nodes everywhere",
               "nearest-neighbour reads are judged away from ties", "pooling kernels of the scaffold are odd"]

M = None


def mods():
    global M
    if M is None:
        import logging
        import types
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        from pytorch3d.implicitron.models.implicit_function import decoding_functions as df
        from pytorch3d.implicitron.models.implicit_function import neural_radiance_field as nf
        from pytorch3d.implicitron.models.implicit_function import scene_representation_networks as sr
        from pytorch3d.implicitron.models.implicit_function import voxel_grid as vg
        from pytorch3d.implicitron.models.implicit_function import voxel_grid_implicit_function as vi
        from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
        from pytorch3d.implicitron.tools.config import expand_args_fields
        from pytorch3d.structures.volumes import VolumeLocator
        for k in (vg.FullResolutionVoxelGrid, vg.CPFactorizedVoxelGrid, vg.VMFactorizedVoxelGrid, vg.VoxelGridModule, vi.VoxelGridImplicitFunction,
                  nf.NeuralRadianceFieldImplicitFunction, nf.NeRFormerImplicitFunction, sr.SRNPixelGenerator, sr.SRNImplicitFunction):
            expand_args_fields(k)
        M = types.SimpleNamespace(vg=vg, vi=vi, df=df, nf=nf, sr=sr, B=ImplicitronRayBundle, L=VolumeLocator)
    return M


D = torch.float64


def weights(x, n, align, padding, mode):
    """(P, n) float64 weights of the n values of an axis at local coordinates x in [-1, 1]; and whether a nearest read is ambiguous."""
    x = x.double()
    pos = (x + 1) / 2 * (n - 1) if align else ((x + 1) * n - 1) / 2
    if padding == "border":
        pos = pos.clamp(0, n - 1)
    elif padding == "reflection":
        lo, hi = (0.0, n - 1.0) if align else (-0.5, n - 0.5)
        span = hi - lo
        if span == 0:
            pos = torch.zeros_like(pos)
        else:
            t = torch.remainder(pos - lo, 2 * span)
            pos = torch.where(t > span, 2 * span - t, t) + lo
        pos = pos.clamp(0, n - 1)
    idx = torch.arange(n, dtype=D)
    if mode == "nearest":
        frac = pos - torch.floor(pos)
        return (pos.round()[:, None] == idx).double(), (frac - 0.5).abs() < 1e-3
    return (1 - (pos[:, None] - idx).abs()).clamp(min=0), torch.zeros(len(x), dtype=torch.bool)


def field(kind, v, pts, align, padding, mode):
    """Float64 field of values v (dict without the batch dimension) at local points (P, 3)."""
    def w(i, n):
        a, b = weights(pts[:, i], n, align, padding, mode)
        amb.append(b)
        return a

    amb = []
    g = {k: t.detach().double() for k, t in v.items() if t is not None}
    if kind == "FullResolutionVoxelGrid":
        f = g["voxel_grid"]
        out = torch.einsum("pi,pj,pk,fijk->pf", w(0, f.shape[1]), w(1, f.shape[2]), w(2, f.shape[3]), f)
    else:
        X, Y, Z = g["vector_components_x"], g["vector_components_y"], g["vector_components_z"]
        wx, wy, wz = w(0, X.shape[1]), w(1, Y.shape[1]), w(2, Z.shape[1])
        x, y, z = wx @ X.T, wy @ Y.T, wz @ Z.T
        if kind == "CPFactorizedVoxelGrid":
            comp = x * y * z
        else:
            xy = torch.einsum("pi,pj,cij->pc", wx, wy, g["matrix_components_xy"])
            yz = torch.einsum("pi,pj,cij->pc", wy, wz, g["matrix_components_yz"])
            xz = torch.einsum("pi,pj,cij->pc", wx, wz, g["matrix_components_xz"])
            comp = torch.cat([xy * z, xz * y, yz * x], -1)
        out = comp @ g["basis_matrix"] if "basis_matrix" in g else comp.sum(-1, keepdim=True)
    return out, torch.stack(amb).any(0)


def options(c, small=False, mode=None):
    kind = c.pick("FullResolutionVoxelGrid", "CPFactorizedVoxelGrid", "VMFactorizedVoxelGrid")
    res = tuple(c.i(1 if c.p(0.2) else 2, 6 if small else 9) for _ in range(3))
    kw = dict(align_corners=c.p(0.6), padding=c.pick("zeros", "border", "reflection"), mode=mode or c.pick("bilinear", "bilinear", "nearest"), n_features=c.i(1, 4), resolution_changes={0: res})
    if kind == "FullResolutionVoxelGrid":
        if kw["mode"] == "bilinear" and c.p(0.3):
            kw["mode"] = "trilinear"
    else:
        if c.p(0.3):
            kw.update(basis_matrix=False, n_features=1)
        if kind == "CPFactorizedVoxelGrid":
            kw["n_components"] = c.i(1, 4)
        elif c.p(0.5):
            kw["n_components"] = 3 * c.i(1, 2)
        else:
            kw["distribution_of_components"] = (c.i(1, 3), c.i(1, 3), c.i(1, 3))
    return kind, res, kw


def points(c, n, lo=-1.3, hi=1.3):
    p = c.rand(n, 3, lo=lo, hi=hi)
    if c.p(0.3):
        p = torch.where(c.rand(n, 3) < 0.3, torch.tensor(float(c.pick(-1, 1, 0))), p)
    return p


def base_mode(kw):
    return "nearest" if kw["mode"] == "nearest" else "bilinear"


# --------------------------------------------------------------- plain grids
@monitor(quick=3000, thorough=100000, need=("full grids", "CP grids", "VM grids", "outside points", "aligned", "not aligned", "world queries"))
def grids(c):
    m = mods()
    kind, res, kw = options(c)
    grid = getattr(m.vg, kind)(**kw)
    n = c.i(1, 3)
    shapes = grid.get_shapes(epoch=c.i(0, 3))
    vals = {k: c.randn(n, *s) for k, s in shapes.items()}
    gv = grid.values_type(**vals)
    shape = c.pick((c.i(1, 12),), (c.i(1, 3), c.i(1, 4)), ())
    k = math.prod(shape)
    pts = torch.stack([points(c, k) for _ in range(n)])
    c.count({"F": "full grids", "C": "CP grids", "V": "VM grids"}[kind[0]])
    c.count("outside points", int((pts.abs() > 1).any(-1).sum()))
    c.count("aligned" if kw["align_corners"] else "not aligned")
    c.sig(kind, res, kw["align_corners"], kw["padding"], kw["mode"], n, shape)
    got = grid.evaluate_local(pts.view(n, *shape, 3), gv)
    c.equal(tuple(got.shape), (n, *shape, kw["n_features"]), "shape of an evaluation")
    got = got.reshape(n, k, -1)
    for i in range(n):
        want, amb = field(kind, {a: b[i] for a, b in vals.items()}, pts[i], kw["align_corners"], kw["padding"], base_mode(kw))
        c.close(got[i][~amb], want[~amb], f"{kind} evaluated at local points", atol=1e-4, rtol=1e-3)
    # world coordinates
    ext, cen = [c.u(0.3, 4) for _ in range(3)], [c.u(-2, 2) for _ in range(3)]
    loc = m.L(batch_size=n, grid_sizes=(2, 2, 2), voxel_size=tuple(ext), volume_translation=tuple(-t for t in cen), device=torch.device("cpu"))
    world = pts * torch.tensor(ext) / 2 + torch.tensor(cen)
    w = grid.evaluate_world(world.view(n, *shape, 3), gv, loc).reshape(n, k, -1)
    c.count("world queries")
    for i in range(n):
        want, amb = field(kind, {a: b[i] for a, b in vals.items()}, pts[i], kw["align_corners"], kw["padding"], base_mode(kw))
        near = amb | ((pts[i].abs() - 1).abs() < 1e-4).any(-1)   # on the border of the grid rounding decides about the padding
        c.close(w[i][~near], want[~near], f"{kind} evaluated at world points", atol=2e-3, rtol=2e-3)
    # crops in local coordinates keep every voxel needed inside of the box
    a, b = c.rand(3, lo=-1, hi=1), c.rand(3, lo=-1, hi=1)
    lo, hi = torch.minimum(a, b), torch.maximum(a, b) + 1e-3
    if c.p(0.3):
        lo = torch.where(c.rand(3) < 0.5, torch.tensor(-1.0), lo)
        hi = torch.where(c.rand(3) < 0.5, torch.tensor(1.0), hi)
    cv = vars(grid.crop_local(lo, hi, gv))
    axes = {"voxel_grid": (0, 1, 2), "vector_components_x": (0,), "vector_components_y": (1,), "vector_components_z": (2,), "matrix_components_xy": (0, 1), "matrix_components_yz": (1, 2), "matrix_components_xz": (0, 2), "basis_matrix": ()}
    first, last = [], []
    for i in range(3):
        pos = [((float(e[i]) + 1) / 2 * (res[i] - 1) if kw["align_corners"] else ((float(e[i]) + 1) * res[i] - 1) / 2) for e in (lo, hi)]
        first.append(max(math.floor(pos[0]), 0))
        last.append(min(math.ceil(pos[1]), res[i] - 1))
        if min(abs(pos[0] - round(pos[0])), abs(pos[1] - round(pos[1]))) < 1e-3 and 0 < pos[0] and pos[1] < res[i] - 1:
            return
    for name, t in vals.items():
        for d, ax in enumerate(axes[name]):
            t = t.narrow(2 + d, first[ax], last[ax] - first[ax] + 1)
        c.equal(cv[name], t, f"cropped {name}")


# ------------------------------------------------------------------- modules
def module(c, m, kind, kw, ext, cen, hold):
    return m.vg.VoxelGridModule(voxel_grid_class_type=kind, **{f"voxel_grid_{kind}_args": kw}, extents=tuple(ext), translation=tuple(cen), init_std=1.0, hold_voxel_grid_as_parameters=hold)


class Shadow:
    """Float64 account of what a module represents."""
    def __init__(self, kind, kw, mod):
        self.kind, self.kw = kind, kw
        self.read(mod)

    def read(self, mod):
        self.v = {k: t.detach().clone()[0] for k, t in mod.params.items() if t is not None}
        self.ext = torch.tensor([float(e) for e in mod.extents], dtype=D)
        self.cen = torch.tensor([float(t) for t in mod.translation], dtype=D)
        v = self.v
        self.res = tuple(v["voxel_grid"].shape[1:]) if "voxel_grid" in v else tuple(v[f"vector_components_{a}"].shape[1] for a in "xyz")

    def local(self, world):
        return (world.double() - self.cen) * 2 / self.ext

    def at(self, world):
        p = self.local(world)
        out, amb = field(self.kind, self.v, p, self.kw["align_corners"], self.kw["padding"], base_mode(self.kw))
        return out, amb | ((p.abs() - 1).abs() < 1e-4).any(-1)

    def nodes(self):
        ax = []
        for i in range(3):
            n = self.res[i]
            k = torch.arange(n, dtype=D)
            ax.append((2 * k / (n - 1) - 1 if n > 1 else k) if self.kw["align_corners"] else (2 * k + 1) / n - 1)
            ax[-1] = ax[-1] * self.ext[i] / 2 + self.cen[i]
        return torch.stack(torch.meshgrid(*ax, indexing="ij"), -1)

    def inner(self, world, margin=1e-6):
        """World points whose interpolation needs only voxels of the grid."""
        ok = torch.ones(len(world), dtype=torch.bool)
        p = self.local(world)
        for i in range(3):
            n = self.res[i]
            lim = 1.0 if self.kw["align_corners"] else 1 - 1 / n
            flat = n == 1 and (self.kw["align_corners"] or self.kw["padding"] != "zeros")
            ok &= (p[:, i].abs() <= lim + margin) | flat & (p[:, i].abs() <= 1)
        return ok


def judge(c, mod, sh, what):
    k = c.i(1, 12)
    w = (points(c, k).double() * sh.ext / 2 + sh.cen).float()
    want, amb = sh.at(w)
    c.close(mod(w)[~amb], want[~amb], f"{what}: field of the module", atol=3e-3, rtol=3e-3)


@monitor(quick=2500, thorough=60000, need=("finer aligned grids", "resizes", "crops", "crops of unaligned grids", "reloads", "reloads after crops", "buffers", "voxel centres", "crops beyond the grid"))
def histories(c):
    m = mods()
    kind, res, kw = options(c, small=True, mode="bilinear")
    hold = c.p(0.7)
    plan = [res]
    nested = c.p(0.5)
    epochs = [0]
    for _ in range(c.i(0, 3)):
        if nested:
            plan.append(tuple((r - 1) * c.i(1, 3) + 1 if r > 1 else c.i(1, 4) for r in plan[-1]))
        else:
            plan.append(tuple(c.i(1, 9) for _ in range(3)))
        epochs.append(epochs[-1] + c.i(1, 4))
    plan = [tuple(min(r, 25) for r in p) for p in plan]
    kw["resolution_changes"] = dict(zip(epochs, plan))
    ext, cen = [c.u(0.3, 4) for _ in range(3)], [c.u(-2, 2) for _ in range(3)]
    mod = module(c, m, kind, kw, ext, cen, hold)
    c.count("buffers", int(not hold))
    c.equal(len(list(mod.parameters())) > 0, hold, "the grid is held as parameters or as buffers as requested")
    c.sig(kind, tuple(plan), kw["align_corners"], kw["padding"], hold)
    sh = Shadow(kind, kw, mod)
    c.close(sh.ext, torch.tensor(ext, dtype=D), "extents", atol=1e-6)
    judge(c, mod, sh, "after construction")
    subs, fn = mod.subscribe_to_epochs()
    c.equal(sorted(subs), epochs, "epochs of resolution changes")
    log, cropped = [], False
    i = 1
    for _ in range(c.i(1, 5)):
        op = c.pick("resize", "crop", "reload", "centres")
        if op == "centres":
            if cropped:
                continue
            got = mod.get_grid_points(epoch=epochs[i - 1])
            c.count("voxel centres")
            c.close(got, sh.nodes(), "world positions of the voxel centres", atol=1e-4, rtol=1e-4)
            w = got.reshape(-1, 3)
            pick = c.randint(0, len(w), (min(len(w), 20),))
            inner = (w[pick].double() - sh.cen) * (1 - 1e-4) + sh.cen
            want, amb = sh.at(inner)
            c.close(mod(inner.float())[~amb], want[~amb], "field at voxel centres", atol=3e-3, rtol=3e-3)
            log.append(op)
            continue
        before = Shadow(kind, kw, mod)
        if op == "resize":
            if i >= len(epochs):
                continue
            e = epochs[i]
            quiet = [x for x in range(e) if x not in epochs]
            if quiet and c.p(0.3):
                c.equal(fn(c.pick(*quiet)), False, "epochs without a change report none")
            changed = fn(e)
            c.equal(changed, hold, "a resize reports changed parameters")
            i += 1
            sh = Shadow(kind, kw, mod)
            c.equal(sh.res, plan[i - 1], "resolution after a change")
            c.count("resizes")
            c.close(torch.cat([sh.ext, sh.cen]), torch.cat([before.ext, before.cen]), "location after a resize", atol=1e-6)
            finer = kw["align_corners"] and all((a - 1) % max(b - 1, 1) == 0 for a, b in zip(sh.res, before.res)) and all(a > 1 or b == 1 for a, b in zip(sh.res, before.res))
            if finer:
                w = (c.rand(12, 3, lo=-0.999, hi=0.999).double() * sh.ext / 2 + sh.cen).float()
                c.count("finer aligned grids")
                c.close(mod(w), before.at(w)[0], "field after a resize to a finer aligned grid", atol=3e-3, rtol=3e-3)
            pts = sh.nodes().reshape(-1, 3)
            if any(a == 1 and b > 1 for a, b in zip(sh.res, before.res)) and kw["align_corners"]:
                pts = pts[:0]
        elif op == "crop":
            a, b = c.rand(3, lo=-1, hi=1), c.rand(3, lo=-1, hi=1)
            lo, hi = torch.minimum(a, b), torch.maximum(a, b) + 0.02
            if c.p(0.3):
                lo = torch.where(c.rand(3) < 0.5, torch.tensor(-1.0), lo)
                hi = torch.where(c.rand(3) < 0.5, torch.tensor(1.0), hi)
            elif c.p(0.2):
                # on voxel centres
                n = before.res
                idx = [sorted((c.i(0, max(k - 1, 0)), c.i(0, max(k - 1, 0)))) for k in n]
                if kw["align_corners"] and all(x < y for x, y in idx):
                    lo = torch.tensor([2 * x / (k - 1) - 1 for (x, _), k in zip(idx, n)])
                    hi = torch.tensor([2 * y / (k - 1) - 1 for (_, y), k in zip(idx, n)])
            elif c.p(0.2):
                c.count("crops beyond the grid")
                lo = lo - c.rand(3, hi=0.5) * (c.rand(3) < 0.5)
                hi = hi + c.rand(3, hi=0.5) * (c.rand(3) < 0.5)
                if not bool((lo.clamp(-1, 1) < hi.clamp(-1, 1) - 1e-3).all()):
                    continue
            wlo, whi = (lo.double() * before.ext / 2 + before.cen).float(), (hi.double() * before.ext / 2 + before.cen).float()
            mod.crop_self(wlo, whi)
            cropped = True
            c.count("crops")
            c.count("crops of unaligned grids", int(not kw["align_corners"]))
            sh = Shadow(kind, kw, mod)
            c.equal(sh.res, before.res, "resolution after a crop")
            c.equal(len(list(mod.parameters())) > 0, hold, "a crop changes how the grid is held")
            nlo, nhi = sh.cen - sh.ext / 2, sh.cen + sh.ext / 2
            olo, ohi = before.cen - before.ext / 2, before.cen + before.ext / 2
            eps = 1e-4 * (1 + before.ext.max())
            c.check(bool((nlo <= torch.maximum(wlo.double(), olo) + eps).all() and (nhi >= torch.minimum(whi.double(), ohi) - eps).all()), "a cropped grid does not contain the requested box")
            cell = before.ext / torch.tensor([max(r - 1, 1) if kw["align_corners"] else r for r in before.res], dtype=D)
            big = 1.0 if kw["align_corners"] else 1.5
            many = torch.tensor([r > 1 for r in before.res])
            c.check(bool(((nlo >= wlo.double() - big * cell - eps) & (nhi <= whi.double() + big * cell + eps) | ~many).all()), "a cropped grid is larger than the requested box and one voxel around it")
            pts = sh.nodes().reshape(-1, 3)
            pts = pts[((pts >= wlo - eps) & (pts <= whi + eps)).all(-1)]
        else:
            new = module(c, m, kind, kw, ext, cen, hold)
            new.load_state_dict(mod.state_dict())
            c.count("reloads")
            c.count("reloads after crops", int(cropped))
            sh = Shadow(kind, kw, new)
            for k, t in before.v.items():
                c.equal(sh.v[k], t, f"reloaded {k}")
            c.close(torch.cat([sh.ext, sh.cen]), torch.cat([before.ext, before.cen]), "location after a reload", atol=1e-6)
            mod = new
            subs, fn = mod.subscribe_to_epochs()
            pts = (c.rand(10, 3, lo=-1.2, hi=1.2).double() * before.ext / 2 + before.cen)
            want, amb = before.at(pts.float())
            c.close(mod(pts.float())[~amb], want[~amb], "field after a reload", atol=3e-3, rtol=3e-3)
            pts = pts[:0]
        log.append(op)
        if len(pts):
            pts = pts[before.inner(pts)]
        if len(pts):
            pts = pts[c.randint(0, len(pts), (min(len(pts), 24),))]
            # stay inside of both grids
            q = (pts - sh.cen) * (1 - 1e-5) + sh.cen
            c.close(mod(q.float()), before.at(pts.float())[0], f"field after {log} at the centres of the new voxels", atol=6e-3, rtol=5e-3)
            c.count("preserved values", len(pts))
        judge(c, mod, sh, f"after {log}")


# ----------------------------------------------------------- implicit functions
def rotation(c):
    q, r = torch.linalg.qr(c.randn(3, 3, dtype=D))
    q = q * torch.sign(torch.diagonal(r))
    if torch.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def bundle(m, pts, dirs=None):
    """A ray bundle through world points (B, ..., P, 3): one ray per point list with zero-length steps when P is 1."""
    o = pts[..., 0, :]
    d = torch.zeros_like(o) if dirs is None else dirs
    return m.B(origins=o, directions=d, lengths=torch.zeros(*pts.shape[:-1]), xys=torch.zeros(*o.shape[:-1], 2), camera_ids=None, camera_counts=None)


def density_field(c, m, **kw):
    ext, cen = tuple(c.u(0.6, 3) for _ in range(3)), tuple(c.pick(0.0, c.u(-1, 1)) for _ in range(3))
    r = tuple(c.i(3, 7) for _ in range(3))
    rc = tuple(c.i(2, 5) for _ in range(3))
    emb = {"n_harmonic_functions": 0, "append_input": True}
    wide = tuple(e * 1.5 for e in ext)
    cfg = dict(voxel_grid_density_args=dict(extents=ext, translation=cen, init_std=1.0, voxel_grid_FullResolutionVoxelGrid_args=dict(n_features=1, resolution_changes={0: r}, align_corners=kw.pop("align", True))),
               voxel_grid_color_args=dict(extents=c.pick(ext, wide), translation=cen, init_std=1.0, voxel_grid_FullResolutionVoxelGrid_args=dict(n_features=c.i(1, 3), resolution_changes={0: rc})),
               harmonic_embedder_xyz_density_args=emb, harmonic_embedder_xyz_color_args=emb, harmonic_embedder_dir_color_args={"n_harmonic_functions": c.i(0, 1), "append_input": True},
               decoder_density_class_type="ElementwiseDecoder", decoder_density_ElementwiseDecoder_args=dict(operation=m.df.DecoderActivation.RELU),
               decoder_color_class_type="MLPDecoder", decoder_color_MLPDecoder_args=dict(network_args=dict(n_layers=1, output_dim=3, hidden_dim=4)), **kw)
    return cfg, ext, cen


def build(m, cfg):
    from omegaconf import DictConfig, OmegaConf
    from pytorch3d.implicitron.tools.config import get_default_args
    return m.vi.VoxelGridImplicitFunction(**OmegaConf.merge(DefaultArgs.get(get_default_args, m), DictConfig(cfg, flags={"allow_objects": True})))


class DefaultArgs:
    value = None

    @classmethod
    def get(cls, f, m):
        if cls.value is None:
            cls.value = f(m.vi.VoxelGridImplicitFunction)
        return cls.value


@monitor(quick=700, thorough=15000, need=("scaffolds", "filtered points", "kept points", "chunked scaffolds", "scaffold crops", "reloaded functions", "shifted grids", "empty scaffolds"))
def scaffolds(c):
    m = mods()
    sres = tuple(c.i(3, 8) for _ in range(3))
    kernel = c.pick(1, 3, 3, 5)
    thr = c.u(0.0, 0.8)
    chunk = c.pick(-1, 1, 2, 3, 5)
    cfg, ext, cen = density_field(c, m, scaffold_resolution=sres, scaffold_max_pool_kernel_size=kernel, scaffold_empty_space_threshold=thr, scaffold_occupancy_chunk_size=chunk,
                                  scaffold_calculating_epochs=(1, 3), volume_cropping_epochs=(2,), scaffold_filter_points=True, align=c.p(0.6))
    torch.manual_seed(c.i(0, 10**6))
    f = build(m, cfg)
    c.count("shifted grids", int(any(cen)))
    c.count("chunked scaffolds", int(chunk in (1, 2)))
    # an object inside of the volume
    d = f.voxel_grid_density.params["voxel_grid"]
    with torch.no_grad():
        keep = torch.zeros_like(d)
        lo = [c.i(0, s - 1) for s in d.shape[2:]]
        hi = [c.i(a, s - 1) for a, s in zip(lo, d.shape[2:])]
        keep[:, :, lo[0]:hi[0] + 1, lo[1]:hi[1] + 1, lo[2]:hi[2] + 1] = 1
        d.copy_(torch.where(keep > 0, d + 0.5, -d.abs() - 0.2))
    c.sig(sres, kernel, chunk, tuple(d.shape), tuple(lo), tuple(hi))
    E, C = torch.tensor(ext, dtype=D), torch.tensor(cen, dtype=D)
    axes = [torch.linspace(-1, 1, n, dtype=D) * E[i] / 2 + C[i] for i, n in enumerate(sres)]
    nodes = torch.stack(torch.meshgrid(*axes, indexing="ij"), -1)
    dirs = c.randn(1, 40, 3)
    pts = (c.rand(1, 40, 1, 3, lo=-1.1, hi=1.1).double() * E / 2 + C).float()

    def rays(p):
        return bundle(m, p, dirs)

    plain_d, plain_c, _ = f(rays(pts))
    sh = Shadow("FullResolutionVoxelGrid", dict(align_corners=cfg["voxel_grid_density_args"]["voxel_grid_FullResolutionVoxelGrid_args"]["align_corners"], padding="zeros", mode="bilinear"), f.voxel_grid_density)
    want, amb = sh.at(pts.reshape(-1, 3))
    c.close(plain_d.reshape(-1, 1)[~amb], want.clamp(min=0)[~amb], "density of points", atol=2e-3, rtol=2e-3)
    epochs, call = f.subscribe_to_epochs()
    c.equal(sorted(epochs), [1, 2, 3], "epochs of scaffolds and crops")
    try:
        c.equal(call(1), False, "a scaffold changes no parameters")
    except Exception as e:
        if chunk in (1, 2):
            c.fail(f"calculating the scaffold in chunks of planes raises {type(e).__name__}")
        raise
    c.count("scaffolds")
    val = sh.at(nodes.reshape(-1, 3))[0].clamp(min=0)[:, 0].reshape(sres)
    # nodes on the border of an unaligned grid are half inside: always representable
    pooled = torch.nn.functional.max_pool3d(val[None, None], kernel, stride=1, padding=kernel // 2)[0, 0]
    if bool(((pooled - thr).abs() < 2e-3).any()):
        return
    occ = (pooled > thr).double()
    w = [weights((pts.reshape(-1, 3)[:, i].double() - C[i]) * 2 / E[i], sres[i], True, "zeros", "bilinear")[0] for i in range(3)]
    s = torch.einsum("pi,pj,pk,ijk->p", *w, occ)
    local = ((pts.reshape(-1, 3).double() - C) * 2 / E).abs()
    sure = ((s > 1e-4) | (s == 0)) & ((local - 1).abs() > 1e-3).all(-1)
    # a zero weight may hide within rounding of a cell border
    for i in range(3):
        pos = (local[:, i] + 1) / 2 * (sres[i] - 1)
        sure &= (pos - pos.round()).abs() > 1e-4
    got_d, got_c, _ = f(rays(pts))
    full = s > 0
    zero = torch.zeros(len(s), 1)
    wd = torch.where(full[:, None], plain_d.reshape(-1, 1), zero)
    wc = torch.where(full[:, None], plain_c.reshape(-1, 3), zero)
    c.count("filtered points", int((~full).sum()))
    c.count("kept points", int(full.sum()))
    c.count("empty scaffolds", int(float(occ.sum()) == 0))
    c.close(got_d.reshape(-1, 1)[sure], wd[sure], "density with a scaffold: empty space is empty, the rest unchanged", atol=1e-5)
    c.close(got_c.reshape(-1, 3)[sure], wc[sure], "colour with a scaffold", atol=1e-5)
    if c.p(0.3):
        f.scaffold_filter_points = False
        c.close(f(rays(pts))[0], plain_d, "density when scaffold filtering is off", atol=1e-6)
        f.scaffold_filter_points = True
    if c.p(0.7):
        nz = torch.nonzero(occ)
        if len(nz):
            blo = torch.stack([axes[i][nz[:, i].min()] for i in range(3)])
            bhi = torch.stack([axes[i][nz[:, i].max()] for i in range(3)])
            if bool((bhi <= blo).any()):
                return
            old = {}
            for name in ("voxel_grid_density", "voxel_grid_color"):
                g = getattr(f, name)
                old[name] = Shadow("FullResolutionVoxelGrid", dict(align_corners=sh.kw["align_corners"] if name.endswith("density") else True, padding="zeros", mode="bilinear"), g)
            c.equal(call(2), True, "a crop changes parameters")
            c.count("scaffold crops")
            for name, o in old.items():
                g = getattr(f, name)
                new = Shadow(o.kind, o.kw, g)
                eps = 1e-3
                c.check(bool((new.cen - new.ext / 2 <= blo + eps).all() and (new.cen + new.ext / 2 >= bhi - eps).all()), f"the cropped {name} does not contain the object's bounding box")
                q = new.nodes().reshape(-1, 3)
                q = q[((q >= blo) & (q <= bhi)).all(-1)]
                q = q[o.inner(q)]
                if len(q):
                    q = q[c.randint(0, len(q), (min(len(q), 20),))]
                    c.close(g(q.float()), o.at(q.float())[0], f"{name} after cropping to the object", atol=6e-3, rtol=5e-3)
        else:
            c.equal(call(2), False, "cropping an empty scene changes nothing")
    if c.p(0.6):
        c.count("reloaded functions")
        want_d, want_c, _ = f(rays(pts))
        g = build(m, cfg)
        g.load_state_dict(f.state_dict())
        got_d, got_c, _ = g(rays(pts))
        c.close(got_d, want_d, "density of a reloaded function", atol=1e-5)
        c.close(got_c, want_c, "colour of a reloaded function", atol=1e-5)


def function(c, m, kind, cam):
    if kind == "voxels":
        cfg, ext, cen = density_field(c, m, xyz_ray_dir_in_camera_coords=cam)
        return build(m, cfg)
    kw = dict(xyz_ray_dir_in_camera_coords=cam, n_harmonic_functions_xyz=c.i(0, 2), n_harmonic_functions_dir=c.i(0, 2), n_hidden_neurons_dir=6, n_hidden_neurons_xyz=8, n_layers_xyz=2)
    if kind == "nerf":
        return m.nf.NeuralRadianceFieldImplicitFunction(append_xyz=(1,), **kw)
    if kind == "nerformer":
        return m.nf.NeRFormerImplicitFunction(append_xyz=(1,), **{**kw, "n_hidden_neurons_xyz": 16})
    return m.sr.SRNImplicitFunction(raymarch_function_args=dict(n_hidden_units=6, n_layers=2, n_harmonic_functions=1, xyz_in_camera_coords=cam, out_features=5),
                                    pixel_generator_args=dict(n_hidden_units=6, n_hidden_units_color=4, n_layers=2, in_features=5, out_features=3, n_harmonic_functions=1, ray_dir_in_camera_coords=cam))


@monitor(quick=900, thorough=20000, need=("camera coordinates", "world coordinates", "batches", "as many rows as cameras", "moved scenes", "voxels functions", "nerf functions", "srn functions"))
def functions(c):
    from pytorch3d.renderer import PerspectiveCameras
    m = mods()
    kind = c.pick("voxels", "nerf", "nerformer", "srn")
    cam = c.p(0.7)
    torch.manual_seed(c.i(0, 10**6))
    f = function(c, m, kind, cam)
    n = c.i(1, 4)
    rays = c.pick((c.i(1, 4), c.i(1, 4)), (c.i(1, 6), 1), (n, c.i(1, 4)), (c.i(1, 6),))
    c.count("as many rows as cameras", int(rays[0] == n and n > 1))
    c.count(f"{kind} functions")
    c.count("camera coordinates" if cam else "world coordinates")
    k = c.i(1, 4)
    o, d, L = c.randn(n, *rays, 3), c.randn(n, *rays, 3), c.rand(n, *rays, k, hi=2.0)
    if kind == "srn" and len(rays) == 1:
        rays = (*rays, 1)
        o, d, L = o[:, :, None], d[:, :, None], L[:, :, None]
    R = torch.stack([rotation(c) for _ in range(n)])
    T = c.randn(n, 3, dtype=D)
    c.sig(kind, cam, n, rays, k)

    def run_fn(R, T, o, d, L):
        b = m.B(origins=o, directions=d, lengths=L, xys=torch.zeros(*o.shape[:-1], 2), camera_ids=None, camera_counts=None)
        fn = f
        out = fn(ray_bundle=b, camera=PerspectiveCameras(R=R.float(), T=T.float()), global_code=None)
        if kind == "srn":
            dens, col = fn.pixel_generator(out[0], b, camera=PerspectiveCameras(R=R.float(), T=T.float())) if out[0].shape[-1] == 5 else out[:2]
            return dens, col
        return out[0], out[1]

    try:
        den, col = run_fn(R, T, o, d, L)
    except Exception as e:
        if cam:
            c.fail(f"{kind} function in camera coordinates raises {type(e).__name__} for a batch of {n} cameras", rays=rays, error=str(e)[:300])
        raise
    c.count("batches", int(n > 1))
    for i in range(n):
        a, b = run_fn(R[i:i + 1], T[i:i + 1], o[i:i + 1], d[i:i + 1], L[i:i + 1])
        c.close(a[0], den[i], f"{kind}: densities of one view depend on the batch", atol=1e-4, rtol=1e-3)
        c.close(b[0], col[i], f"{kind}: colours of one view depend on the batch", atol=1e-4, rtol=1e-3)
    if cam and kind != "voxels":
        # moving scene and cameras together changes nothing in camera coordinates
        Q, t = rotation(c), c.randn(3, dtype=D)
        R2 = Q.T @ R
        T2 = T - (t @ Q.T @ R if False else (t[None, None] @ R2)[:, 0])
        o2 = (o.double() @ Q + t).float()
        d2 = (d.double() @ Q).float()
        a, b = run_fn(R2, T2, o2, d2, L)
        c.count("moved scenes")
        c.close(a, den, f"{kind}: densities in camera coordinates change when scene and cameras move together", atol=2e-3, rtol=2e-2)
        c.close(b, col, f"{kind}: colours in camera coordinates change when scene and cameras move together", atol=2e-3, rtol=2e-2)
    elif cam:
        # the voxel grid stays in the world, the viewing direction is taken in the camera frame: a turned camera turns the direction
        d2 = torch.einsum("n...i,nij->n...j", d.double(), R).float()
        eye = torch.eye(3, dtype=D)[None].expand(n, 3, 3)
        # same points, directions already in the camera frame and the identity camera
        P = o[..., None, :] + L[..., None] * d[..., None, :]
        one = P[..., :1, :]
        a, b = run_fn(R, T, one[..., 0, :], d, torch.zeros_like(L[..., :1]))
        a2, b2 = run_fn(eye, T, one[..., 0, :], d2, torch.zeros_like(L[..., :1]))
        c.count("moved scenes")
        c.close(a2, a, "voxels: densities depend on the camera", atol=1e-4)
        c.close(b2, b, "voxels: colours do not depend on the viewing direction in the camera frame", atol=1e-3, rtol=1e-2)
