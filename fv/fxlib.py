"""Builders for real feax problems with arbitrary (uninterpreted) physics."""
import warnings
import numpy as np
import jax
import jax.numpy as jnp
from . import femlib as F
from . import uf
from .contract import Sx

warnings.filterwarnings("ignore")


def mesh(ele, ns, seed=0, distort=0.12, L=None):
    from feax.mesh import Mesh
    P, C = F.make_mesh(ele, ns, np.random.RandomState(seed), distort, L)
    return Mesh(P, C, ele_type=ele)


def make_problem(meshes, vec, dim, ele, maps, gauss_order=None, location_fns=None, matrix_view="FULL", hess=False):
    """maps: dict method name -> value returned"""
    from feax.problem import Problem
    ns = {}
    for k, v in maps.items():
        ns[k] = (lambda v: lambda self, *a: v)(v)
    cls = type("FvProblem", (Problem,), ns)
    kw = {}
    if gauss_order is not None:
        kw["gauss_order"] = gauss_order
    return cls(mesh=meshes, vec=vec, dim=dim, ele_type=ele, location_fns=location_fns, matrix_view=matrix_view,
               hess=hess, **kw)


def left(p):
    return jnp.isclose(p[0], 0.0, atol=1e-9)


def right(p):
    return jnp.isclose(p[0], 1.0, atol=1e-9)


def xlo(t=0.25):
    return lambda p: p[0] <= t


def xhi(t=0.75):
    return lambda p: p[0] >= t


def ts_of(problem):
    from feax.traced_structure import TracedStructure
    return TracedStructure.from_problem(problem, free_scratch=False)


GEO = ("physical_quad_points", "shape_grads", "JxW", "v_grads_JxW")


def sym_ts(problem, ts=None):
    """(dict of Sx geometry arrays, function geo-> ts with that geometry): geometry universally quantified;
    v_grads_JxW is tied to shape_grads*JxW (invariant proved under C05)."""
    import dataclasses
    ts = ts or ts_of(problem)
    g = {k: Sx(k, np.shape(getattr(ts, k)), 0.2, 1.0) for k in ("physical_quad_points", "shape_grads", "JxW")}
    nb = len(ts.nanson_scale)
    g["nanson"] = [Sx(f"nanson{i}", np.shape(ts.nanson_scale[i]), 0.2, 1.0) for i in range(nb)]
    g["psq"] = [Sx(f"psq{i}", np.shape(ts.physical_surface_quad_points[i]), 0.2, 1.0) for i in range(nb)]
    g["fsv"] = [Sx(f"fsv{i}", np.shape(ts.selected_face_shape_vals[i]), 0.2, 1.0) for i in range(nb)]

    nn = [fe.num_nodes for fe in problem.fes]

    def build(geo):
        # v_grads_JxW[c,q,a,0,d] = shape_grads[c,q,a,d]*JxW[c,var(a),q]
        var_of = np.repeat(np.arange(len(nn)), nn)
        J = jnp.transpose(geo["JxW"], (0, 2, 1))[:, :, var_of]
        v = geo["shape_grads"][:, :, :, None, :] * J[:, :, :, None, None]
        return dataclasses.replace(ts, physical_quad_points=geo["physical_quad_points"],
                                   shape_grads=geo["shape_grads"], JxW=geo["JxW"], v_grads_JxW=v,
                                   nanson_scale=tuple(geo["nanson"]), physical_surface_quad_points=tuple(geo["psq"]),
                                   selected_face_shape_vals=tuple(geo["fsv"]))
    return g, build


class small_batches:
    """Run the assembly with a tiny batch size so that the padded scan path is the one verified."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import feax.assembler as A
        from .contract import Skip
        if not hasattr(A, "_batching"):
            raise Skip("no _batching")
        self.orig = A._batching
        A._batching = lambda n_items, batch_size=None: self.orig(n_items, self.n)
        return self

    def __exit__(self, *a):
        import feax.assembler as A
        A._batching = self.orig


# ------------------------------------------------------------ specifications
def spec_volume_var(problem, v, kind, c, q):
    """value of internal variable v at quadrature point q of cell c, by its storage kind"""
    fe = problem.fes[0]
    if kind == "scalar":
        return v
    if kind == "cell":
        return v[c]
    if kind == "quad":
        return v[c, q]
    if kind.startswith("node"):
        fe = problem.fes[int(kind[4:]) if kind[4:].isdigit() else 0]
        cells = np.asarray(fe.cells)
        s = 0.0
        for a in range(fe.num_nodes):
            s = s + float(np.asarray(fe.shape_vals)[q, a]) * v[int(cells[c, a])]
        return s
    raise ValueError(kind)


def spec_residual(problem, sol_list, geo, vol_vars, kinds, surf_vars, phys):
    """sum over cells/faces/quadrature points, straight from the weak form.

    phys: dict with optional 'tensor','mass','weak','surface' (list), 'surface_weak' (list)."""
    dt = jnp.result_type(float)
    res = [jnp.zeros((fe.num_total_nodes, fe.vec), dt) for fe in problem.fes]
    nvar = len(problem.fes)
    nn = [fe.num_nodes for fe in problem.fes]
    off = np.concatenate([[0], np.cumsum(nn)])
    nc = problem.num_cells
    nq = problem.fes[0].num_quads
    for c in range(nc):
        for q in range(nq):
            vals, grads = [], []
            for i, fe in enumerate(problem.fes):
                cell = np.asarray(fe.cells)[c]
                u, g = 0.0, 0.0
                for a in range(nn[i]):
                    N = float(np.asarray(fe.shape_vals)[q, a])
                    B = geo["shape_grads"][c, q, off[i] + a]
                    ua = sol_list[i][int(cell[a])]
                    u = u + N * ua
                    g = g + ua[:, None] * B[None, :]
                vals.append(u)
                grads.append(g)
            x = geo["physical_quad_points"][c, q]
            vq = [spec_volume_var(problem, v, k, c, q) for v, k in zip(vol_vars, kinds)]
            if nvar == 1:
                m = phys["mass"](vals[0], x, *vq) if phys.get("mass") else None
                s = phys["tensor"](grads[0], *vq) if phys.get("tensor") else None
                ms, gs = [m], [s]
            else:
                ms, gs = phys["weak"](vals, grads, x, *vq)
            for i, fe in enumerate(problem.fes):
                cell = np.asarray(fe.cells)[c]
                W = geo["JxW"][c, i, q]
                for a in range(nn[i]):
                    N = float(np.asarray(fe.shape_vals)[q, a])
                    B = geo["shape_grads"][c, q, off[i] + a]
                    t = 0.0
                    if ms[i] is not None:
                        t = t + ms[i] * N * W
                    if gs[i] is not None:
                        t = t + (gs[i] @ B) * W
                    res[i] = res[i].at[int(cell[a])].add(t)
    for b, bi in enumerate(problem.boundary_inds_list):
        bi = np.asarray(bi)
        nfq = np.shape(problem.selected_face_shape_vals[b])[1]
        for f in range(len(bi)):
            c = int(bi[f, 0])
            for q in range(nfq):
                vals = []
                for i, fe in enumerate(problem.fes):
                    cell = np.asarray(fe.cells)[c]
                    u = 0.0
                    for a in range(nn[i]):
                        u = u + geo["fsv"][b][f, q, off[i] + a] * sol_list[i][int(cell[a])]
                    vals.append(u)
                x = geo["psq"][b][f, q]
                sv = [v[f, q] for v in (surf_vars[b] if b < len(surf_vars) else ())]
                if nvar == 1:
                    if not phys.get("surface"):
                        continue
                    ts = [phys["surface"][b](vals[0], x, *sv)]
                else:
                    if not phys.get("surface_weak"):
                        continue
                    ts = phys["surface_weak"][b](vals, x, *sv)
                for i, fe in enumerate(problem.fes):
                    cell = np.asarray(fe.cells)[c]
                    for a in range(nn[i]):
                        res[i] = res[i].at[int(cell[a])].add(
                            ts[i] * geo["fsv"][b][f, q, off[i] + a] * geo["nanson"][b][f, i, q])
    return res


def dense_of(data, indptr, indices, n, m=None):
    """dense matrix of a CSR triple (structure concrete)"""
    indptr, indices = np.asarray(indptr), np.asarray(indices)
    rows = np.repeat(np.arange(len(indptr) - 1), np.diff(indptr))
    return jnp.zeros((n, m or n), jnp.result_type(float)).at[rows, indices].add(data)
