"""Shared input generators."""
import torch


def cube(dtype=torch.float32):
    v = torch.tensor([[x, y, z] for x in (-1., 1.) for y in (-1., 1.) for z in (-1., 1.)], dtype=dtype)
    f = torch.tensor([[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1],
                      [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])
    return v, f


def tetra(dtype=torch.float32):
    v = torch.tensor([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]], dtype=dtype)
    f = torch.tensor([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    return v, f


def ico(level=0):
    from pytorch3d.utils import ico_sphere
    m = ico_sphere(level)
    return m.verts_list()[0], m.faces_list()[0]


def soup(c, nv=None, nf=None, distinct=True):
    """Random faces over random vertices: non manifold, repeated edges."""
    nv = nv if nv is not None else c.i(3, 12)
    nf = nf if nf is not None else c.i(1, 15)
    v = c.randn(nv, 3)
    if distinct:
        f = torch.stack([torch.tensor(c.perm(nv)[:3]) for _ in range(nf)]) if nf else torch.zeros(0, 3, dtype=torch.int64)
    else:
        f = c.randint(0, nv, (nf, 3))
    return v, f


def mesh(c, kinds=("soup", "cube", "tetra", "ico", "tri", "unused"), empty=0.0, nofaces=0.0):
    """-> verts (V,3) float32, faces (F,3) int64 of one mesh"""
    if c.p(empty):
        return torch.zeros(0, 3), torch.zeros(0, 3, dtype=torch.int64)
    if c.p(nofaces):
        return c.randn(c.i(1, 5), 3), torch.zeros(0, 3, dtype=torch.int64)
    k = c.pick(*kinds)
    if k == "soup":
        return soup(c)
    if k == "tri":
        return c.randn(3, 3), torch.tensor([[0, 1, 2]])
    if k == "unused":  # vertices that no face uses
        v, f = soup(c, nv=c.i(6, 12), nf=c.i(1, 3))
        return v, f
    v, f = {"cube": cube, "tetra": tetra, "ico": ico}[k]()
    f = f[c.perm(len(f))]
    v = v + 0.2 * c.randn(*v.shape)
    return v * c.u(0.3, 2) + c.randn(3), f


def meshes(c, n=None, lo=1, hi=4, **kw):
    n = n or c.i(lo, hi)
    return [mesh(c, **kw) for _ in range(n)]


def index(c, n):
    """-> (kind, index object, list of selected positions)"""
    k = c.pick("int", "neg", "list", "slice", "mask", "long", "range")
    if k == "int":
        i = c.i(0, n - 1)
        return k, i, [i]
    if k == "neg":
        i = c.i(0, n - 1)
        return k, i - n, [i]
    if k == "list":
        ll = [c.i(0, n - 1) for _ in range(c.i(1, 4))]
        return k, ll, ll
    if k == "slice":
        s = slice(c.pick(None, c.i(0, n - 1)), c.pick(None, n, -1 if n > 1 else None), c.pick(None, 2))
        return k, s, list(range(n))[s]
    if k == "range":
        i = c.i(0, n - 1)
        s = slice(i, c.i(i + 1, n))
        return k, s, list(range(n))[s]
    if k == "mask":
        m = torch.tensor([c.p(0.6) for _ in range(n)])
        return k, m, [i for i in range(n) if m[i]]
    ll = [c.i(0, n - 1) for _ in range(c.i(1, 4))]
    return k, torch.tensor(ll), ll
