import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from buglib import bug
FEM = '''
from feax.mesh import rectangle_mesh, Mesh
from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
def mesh(nx=2, ny=2):
    return rectangle_mesh(Nx=nx, Ny=ny, domain_x=1.0, domain_y=1.0)
'''
bug("c07-scale", "C07", [("feax/solvers/newton.py", "            not_converged = (rn > tol) & ((rn / np.maximum(res00, 1e-30)) > rel_tol)",
                          "            not_converged = (rn > tol) & ((rn / np.maximum(res00, 1.0)) > rel_tol)")],
    "a problem whose initial residual is far below one", "the relative test compares with one instead of the initial residual: Newton stops while the residual is still large relative to it",
    FEM + '''
S = 1e-6
class Small(fe.Problem):
    def get_tensor_map(self): return lambda g, k: S * (k * g + 0.5 * g ** 3)
    def get_mass_map(self): return lambda u, x, k: -S * jnp.array([8.0])
p = Small(mesh(4, 3), vec=1, dim=2, ele_type="QUAD4")
bc = DirichletBCConfig([DirichletBCSpec(lambda x: x[0] < 1e-6, "all", 0.0)]).create_bc(p)
tp = fe.TracedParams(volume_vars=(jnp.ones(12),)); n = p.num_total_dofs_all_vars
sv = fe.create_solver(p, bc, fe.DirectSolverOptions(solver="spsolve"), linear=False, newton_options=fe.NewtonOptions(tol=1e-16, rel_tol=1e-8, max_iter=40),
                      traced_params=tp, return_solution=False)
res = fe.create_res_bc_function(p, bc)
u = sv(tp, jnp.zeros(n))
r0, r1 = float(jnp.linalg.norm(res(jnp.zeros(n), tp))), float(jnp.linalg.norm(res(u, tp)))
check(r1 <= 1e-8 * r0 or r1 <= 1e-16, f"residual {r1:.2e} against the initial {r0:.2e}")
''')
bug("c05-predicates", "C05", [("feax/fe.py", "                    location_fn = lambda point, ind: location_fns[i](point)", "                    location_fn = lambda point, ind: location_fns[-1](point)")],
    "two boundary predicates on one problem", "every predicate selects the faces of the last one",
    FEM + '''
class P(fe.Problem):
    def get_tensor_map(self): return lambda g: g
    def get_surface_maps(self): return [lambda u, x: jnp.array([1.0]), lambda u, x: jnp.array([1.0])]
left, top = (lambda x: jnp.isclose(x[0], 0.0)), (lambda x: jnp.isclose(x[1], 1.0))
p = P(mesh(3, 2), vec=1, dim=2, ele_type="QUAD4", location_fns=[left, top])
check(len(p.boundary_inds_list[0]) == 2 and len(p.boundary_inds_list[1]) == 3, "each predicate selects its own faces: " + str([len(b) for b in p.boundary_inds_list]))
''')
bug("c10-view", "C10", [("feax/problem.py", "            matrix_view=static.get('matrix_view', MatrixView.FULL),  # Default for backward compatibility\n", "")],
    "a problem with a triangular matrix view that passes through a pytree operation", "the rebuilt problem assembles the full matrix",
    FEM + '''
@jax.tree_util.register_pytree_node_class
class P(fe.Problem):
    def get_tensor_map(self): return lambda g: g
for v in (fe.MatrixView.FULL, fe.MatrixView.UPPER, fe.MatrixView.LOWER):
    p = P(mesh(), vec=1, dim=2, ele_type="QUAD4", matrix_view=v)
    leaves, tree = jax.tree_util.tree_flatten(p)
    q = jax.tree_util.tree_unflatten(tree, leaves)
    check(q.matrix_view == p.matrix_view, "matrix view kept")
    check(np.array_equal(np.asarray(q.csr_indices), np.asarray(p.csr_indices)), "same stored pattern")
''')
bug("c08-partial", "C08", [("feax/solvers/reduced.py", "(bc_per_class[c] < class_size[c])]", "(bc_per_class[c] < min(2, class_size.max()))]")],
    "a support on two of the four corners of one periodic class", "the diluted support is accepted instead of rejected",
    FEM + '''
from feax.solvers.reduced import _validate_bc_pairing
from jax.experimental.sparse import BCOO
from types import SimpleNamespace
idx = jnp.asarray([[0, 0], [1, 0], [2, 0], [3, 0], [4, 1]])
P = BCOO((jnp.ones(5), idx), shape=(5, 2))
def rejected(rows):
    try: _validate_bc_pairing(P, SimpleNamespace(bc_rows=jnp.asarray(rows)))
    except ValueError: return True
    return False
check(not rejected([0, 1, 2, 3]) and not rejected([4]), "whole class or unpaired: accepted")
check(rejected([0]) and rejected([1, 3]) and rejected([0, 1, 2]), "part of a class: rejected")
''')
bug("c11-zero", "C11", [("feax/spgrid.py", "        hit = (pos < self.ids.size) & (self.ids[posc] == q)", "        hit = (pos < self.ids.size) & (self.ids[posc] == q) & (self.vals[posc] > 0)")],
    "a stored value that is not positive, gathered with a default other than it", "a stored value of zero (or below) reads as the default",
    '''
from feax.spgrid import SparseDesign
s = SparseDesign(np.array([7, 2, 4]), np.array([0.5, 0.0, -1.0]))
close(s.gather(np.array([2, 4, 7, 3]), default=0.25), [0.0, -1.0, 0.5, 0.25], "stored values come back, the rest is the default")
''')
bug("c04-keys", "C04", [("feax/asd.py", "    rows = onp.repeat(onp.arange(pat.shape[0], dtype=onp.int64),\n                      onp.diff(pat.indptr))\n    return rows * pat.shape[1] + pat.indices.astype(onp.int64)",
                         "    rows = onp.repeat(onp.arange(pat.shape[0], dtype=pat.indptr.dtype),\n                      onp.diff(pat.indptr))\n    return rows * pat.shape[1] + pat.indices")],
    "a matrix with more than 46340 rows", "the slot keys overflow 32 bits: entries are rejected or land in another slot",
    '''
import feax.asd as A
import scipy.sparse as sp
n = 60000
i = np.arange(n)
pat = sp.csr_matrix((np.ones(2 * n - 1, bool), (np.r_[i, i[:-1]], np.r_[i, i[1:]])), shape=(n, n)); pat.sort_indices()
rows = np.repeat(i, np.diff(pat.indptr))
try:
    s = A._csr_slots(pat, rows[::-1], pat.indices[::-1])
except AssertionError as e:
    print("FAIL:", e); sys.exit(1)
close(s, np.arange(pat.nnz)[::-1], "slot of every stored entry")
''')
