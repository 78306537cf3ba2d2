from buglib import bug
FEM = '''
from feax.mesh import rectangle_mesh, Mesh
from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
def mesh(nx=2, ny=2):
    return rectangle_mesh(Nx=nx, Ny=ny, domain_x=1.0, domain_y=1.0)
def central(f, x, i, h=1e-5):
    return (f(x.at[i].add(h)) - f(x.at[i].add(-h))) / (2 * h)
'''
bug("c06-symadj", "C06", [("feax/solvers/linear.py", "use_transpose = problem.matrix_view not in (MatrixView.UPPER, MatrixView.LOWER)\n        if _adj_direct:",
                           "use_transpose = (problem.matrix_view not in (MatrixView.UPPER, MatrixView.LOWER)\n                         and not symmetric_elimination)\n        if _adj_direct:")],
    "a non-symmetric operator with symmetric elimination and a direct adjoint", "the adjoint solves with J instead of its transpose: gradients of non-symmetric linear problems are wrong",
    FEM + '''
class Adv2(fe.Problem):
    def get_tensor_map(self): return lambda g, k: k * (g + jnp.array([[0., 1.5], [0., 0.]]) @ g)
    def get_mass_map(self): return lambda u, x, k: -jnp.array([1., 2.])
p = Adv2(mesh(3, 2), vec=2, dim=2, ele_type="QUAD4")
bc = DirichletBCConfig([DirichletBCSpec(lambda x: x[0] < 1e-6, "all", 0.3)]).create_bc(p)
k = jnp.asarray(np.random.RandomState(0).uniform(1, 2, 6))
sv = fe.create_solver(p, bc, fe.DirectSolverOptions(solver="spsolve"), linear=True, traced_params=fe.TracedParams(volume_vars=(k,)), return_solution=False)
w = jnp.asarray(np.random.RandomState(1).uniform(size=p.num_total_dofs_all_vars))
f = lambda k: jnp.vdot(w, sv(fe.TracedParams(volume_vars=(k,)), jnp.zeros(p.num_total_dofs_all_vars)))
g = jax.grad(f)(k)
for i in range(3): close(g[i], central(f, k, i), "gradient vs finite difference", 1e-5)
''')
bug("c07-symextra", "C07", [("feax/solvers/newton.py", "                Jtw_bulk = J_bulk.T @ w\n", "                Jtw_bulk = J_bulk @ w\n")],
    "an extra residual with a Krylov adjoint and a non-symmetric tangent", "the adjoint uses J instead of J^T for the bulk part: gradients are wrong for non-symmetric tangents",
    FEM + '''
class Adv2(fe.Problem):
    def get_tensor_map(self): return lambda g, k: k * (g + jnp.array([[0., 1.5], [0., 0.]]) @ g) + 0.1 * g ** 3
    def get_mass_map(self): return lambda u, x, k: -jnp.array([1., 2.])
p = Adv2(mesh(3, 2), vec=2, dim=2, ele_type="QUAD4")
bc = DirichletBCConfig([DirichletBCSpec(lambda x: x[0] < 1e-6, "all", 0.1)]).create_bc(p)
k = jnp.asarray(np.random.RandomState(0).uniform(1, 2, 6)); n = p.num_total_dofs_all_vars
extra = lambda u: 0.2 * u
sv = fe.create_solver(p, bc, fe.DirectSolverOptions(solver="spsolve"), linear=False, newton_options=fe.NewtonOptions(tol=1e-11, rel_tol=1e-13),
                      adjoint_solver_options=fe.KrylovSolverOptions(solver="gmres", tol=1e-12, atol=1e-13), extra_residual_fn=extra,
                      traced_params=fe.TracedParams(volume_vars=(k,)), return_solution=False)
w = jnp.asarray(np.random.RandomState(1).uniform(size=n))
f = lambda k: jnp.vdot(w, sv(fe.TracedParams(volume_vars=(k,)), jnp.zeros(n)))
g = jax.grad(f)(k)
for i in range(3): close(g[i], central(f, k, i), "gradient vs finite difference", 1e-4)
''')
bug("c08-cyclic", "C08", [("feax/flat/pbc.py", "                    if R[a, b] != 0.0:", "                    if abs(R[a, b]) > 1e-1:")],
    "a cyclic sector of a few degrees (small sine)", "small entries of the sector rotation are dropped from the coupling",
    FEM + '''
from feax.flat.pbc import cyclic_prolongation_matrix
t = np.deg2rad(4.0); R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
r = np.array([1., 1.5, 2.]); a = np.array([0., t / 2, t])
pts = np.array([[q * np.cos(s), q * np.sin(s)] for s in a for q in r])
cells = np.array([[i * 3 + j, i * 3 + j + 1, (i + 1) * 3 + j + 1, (i + 1) * 3 + j] for i in range(2) for j in range(2)])
m = Mesh(jnp.asarray(pts), jnp.asarray(cells), ele_type="QUAD4")
P = cyclic_prolongation_matrix(m, 2, lambda x: jnp.abs(x[1]) < 1e-9, lambda x: jnp.abs(x[1] - x[0] * np.tan(t)) < 1e-9, R, lambda x: R @ np.asarray(x))
u = P @ jnp.asarray(np.random.RandomState(0).uniform(size=P.shape[1])); u = np.asarray(u).reshape(-1, 2)
for j in range(3): close(u[6 + j], R @ u[j], "slave = R master")
''')
bug("c09-nodal", "C09", [("feax/flat/solver.py", "np.einsum('qn,cn->cq', shape_vals, var_cell_nodes)  # (num_cells, num_quads)",
                          "np.tile(np.mean(var_cell_nodes, axis=1)[:, None], (1, num_quads))")],
    "coefficients given per node that vary inside a cell", "the averaged stress uses the cell mean of a nodal coefficient, unlike the equilibrium it is averaged from",
    FEM + '''
from feax.flat.solver import average_stress
class El(fe.Problem):
    def get_tensor_map(self): return lambda g, E: E * (g + g.T)
p = El(mesh(3, 2), vec=2, dim=2, ele_type="QUAD4")
E = jnp.asarray(np.random.RandomState(0).uniform(1, 5, 12)); u = jnp.asarray(np.random.RandomState(1).uniform(size=24))
s = average_stress(p, u, fe.TracedParams(volume_vars=(E,)), 2)
f = p.fes[0]; G = np.asarray(f.shape_grads); W = np.asarray(f.JxW); U = np.asarray(u).reshape(-1, 2); S = 0
for c, cell in enumerate(np.asarray(f.cells)):
    for q in range(W.shape[1]):
        g = U[cell].T @ G[c, q]; S = S + W[c, q] * (np.asarray(f.shape_vals)[q] @ np.asarray(E)[cell]) * (g + g.T)
S = S / W.sum(); close(s, [S[0, 0], S[1, 1], S[0, 1]], "average stress")
''')
bug("c10-offset", "C10", [("feax/solution.py", "        start = sum(sizes[:var_index])", "        start = var_index * sizes[0]")],
    "three or more variables of different sizes", "field() of the third variable reads another variable's unknowns",
    '''
from feax.solution import Solution
s = Solution(jnp.arange(4 * 2 + 3 + 5 * 1.0), ((4, 2), (3, 1), (5, 1)))
close(s.field(2)[:, 0], np.arange(11., 16.), "third field")
''')
bug("c11-guard", "C11", [("feax/narrowband.py", "        for _ in range(self.guard):\n            guarded = _node_adjacent_cells(onp.asarray(self.mesh.cells),\n                                           self._num_nodes, guarded)",
                          "        if self.guard:\n            guarded = _node_adjacent_cells(onp.asarray(self.mesh.cells),\n                                           self._num_nodes, guarded)")],
    "a guard of two or more rings", "the band is not re-extracted although the guarded active set left it",
    FEM + '''
from feax.narrowband import SupersetBand
m = mesh(12, 1); b = SupersetBand(m, margin=2, guard=2); b.reextract(np.array([3]))
check(b.needs_reextract(np.array([4])), "guard 2 around cell 4 reaches cell 6, outside the superset 1..5")
check(not b.needs_reextract(np.array([3])), "still inside")
''')
bug("c12-selfadj", "C12", [("feax/solvers/cmg.py", "            lam = raw_solve(rho_cells, rhs)                 # adjoint (K symmetric)\n",
                            "            # self-adjoint: the load is its own adjoint load up to a factor\n            lam = u * (jnp.vdot(rhs, bp) / jnp.vdot(bp, bp))\n")],
    "the gradient of a functional other than the compliance", "gradients through the solver are only right for multiples of the compliance",
    '''
from feax.spgrid import StructuredGrid
from feax.solvers.cmg import NarrowBandCMG
g = StructuredGrid((3, 2, 2)); c = NarrowBandCMG(g, lambda i, j, k, nx, ny, nz: i == 0, n_levels=1, cg_tol=1e-12, bucket=8)
lv = c.build(np.arange(g.num_cells)); b = c.load_vector(lv, g.node_id(3, 0, 0).reshape(-1))
sv = c.create_solver(lv, b, fe.KrylovSolverOptions(solver="cg", tol=1e-12), return_solution=False)
w = jnp.asarray(np.random.RandomState(1).uniform(size=b.size)); r = jnp.asarray(np.random.RandomState(0).uniform(.4, 1, g.num_cells))
f = lambda r: jnp.vdot(w, sv(r)); gr = jax.grad(f)(r)
for i in (0, 5): close(gr[i], (f(r.at[i].add(1e-5)) - f(r.at[i].add(-1e-5))) / 2e-5, "gradient", 1e-4)
''')
bug("c13-window", "C13", [("feax/gene/filters.py", "        diff = batch_points[:, onp.newaxis, :] - points_np[onp.newaxis, :, :]\n        distances = onp.linalg.norm(diff, axis=2)\n",
                           "        # neighbours are numbered close to each other: search three batches only\n        lo = max(0, start_idx - batch_size)\n        window = points_np[lo:end_idx + batch_size]\n        diff = batch_points[:, onp.newaxis, :] - window[onp.newaxis, :, :]\n        distances = onp.linalg.norm(diff, axis=2)\n"),
                          ("feax/gene/filters.py", "                cols.extend(neighbors.tolist())", "                cols.extend((neighbors + lo).tolist())")],
    "a mesh of more than two preprocessing batches (over 1000 nodes) whose numbering is not banded", "density-filter neighbours more than two batches away in the numbering are lost",
    FEM + '''
from feax.gene.filters import create_density_filter
m = mesh(40, 30); n = len(m.points); r = np.random.RandomState(0); perm = r.permutation(n); inv = np.argsort(perm)
m2 = Mesh(jnp.asarray(np.asarray(m.points)[perm]), jnp.asarray(inv[np.asarray(m.cells)]), ele_type="QUAD4")
x = r.uniform(size=n); R = 0.06
P = np.asarray(m2.points); W = np.maximum(0, R - np.linalg.norm(P[:, None] - P[None], axis=2))
close(create_density_filter(m2, R)(jnp.asarray(x)), W @ x / W.sum(1), "cone-weighted mean over the radius")
''')
bug("c14-remesh", "C14", [("feax/gene/optimizer.py", "            pipeline.build(cur_mesh)\n            obj_and_grad, compiled_constraints = _compile(\n                pipeline, constraints, use_jit=jit)\n            n_adapts_done += 1",
                           "            pipeline.build(cur_mesh)\n            # the constraint functions are bound methods: only the objective needs recompiling\n            obj_and_grad, _ = _compile(\n                pipeline, constraints, use_jit=jit)\n            n_adapts_done += 1")],
    "an adaptive remesh that keeps the number of nodes, with compiled constraints that depend on the mesh", "the constraints (and their gradients) of the old mesh are enforced on the new one",
    FEM + '''
import contextlib, io
from feax.gene.optimizer import Pipeline, constraint, run, AdaptiveConfig
m1 = mesh(3, 2); m2 = Mesh(jnp.asarray(np.asarray(m1.points) * np.array([2.0, 1.0])), m1.cells, ele_type="QUAD4")
class P(Pipeline):
    def build(self, m): self.w = 1.0 + jnp.asarray(m.points)[:, 0]
    def objective(self, r): return jnp.sum((r - 0.6) ** 2)
    @constraint(target=0.45)
    def vol(self, r): return jnp.sum(self.w * r) / jnp.sum(self.w) * jnp.mean(self.w) / 2.0
with contextlib.redirect_stdout(io.StringIO()):
    r = run(P(), m1, max_iter=12, rho_init=np.full(12, 0.2), rho_bounds=(0.05, 1.0), jit=True,
            adaptive=AdaptiveConfig(remesh=lambda m, x: m2, adapt_every=4, n_adapts_max=1, transfer=lambda x, a, b: x))
w = 1.0 + np.asarray(m2.points)[:, 0]
close(r.final_constraints["vol"], (w * np.asarray(r.rho)).sum() / w.sum() * w.mean() / 2.0, "constraint value on the mesh of the returned design")
''')
bug("c15-shear", "C15", [("feax/mechanics/shell.py", "        Gr = rotate_shear_stiffness(G_k, theta_k)\n", "        Gr = 0.5 * (rotate_shear_stiffness(G_k, theta_k) + rotate_shear_stiffness(G_k, -theta_k))\n")],
    "off-axis plies with G13 != G23 that are not balanced", "the transverse-shear coupling of off-axis plies vanishes from the laminate stiffness",
    '''
import inspect
from feax.mechanics import shell as S
t = jnp.array([.1, .2]); th = jnp.array([.4, -.9]); G = jnp.array([[5., 0.], [0., 2.]])
C = jnp.zeros((2,) * 4).at[0, 0, 0, 0].set(10.).at[1, 1, 1, 1].set(3.).at[0, 1, 0, 1].set(1.).at[0, 1, 1, 0].set(1.).at[1, 0, 0, 1].set(1.).at[1, 0, 1, 0].set(1.)
out = S.laminate_stiffness(C, G, th, t)
A = 0
for tk, a in zip([.1, .2], [.4, -.9]):
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]); A = A + tk * R @ np.asarray(G) @ R.T
got = [np.asarray(o) for o in jax.tree_util.tree_leaves(out) if np.shape(o) == (2, 2)][0]
check(abs(got[0, 1] / got[0, 0] - A[0, 1] / A[0, 0]) < 1e-9 and abs(got[1, 1] / got[0, 0] - A[1, 1] / A[0, 0]) < 1e-9, "rotated transverse shear")
''')
bug("c16-detj", "C16", [("feax/mechanics/layered_solid_element.py", "            JxW = w * detJ                                       # (nq,)\n",
                         "            # cells are extruded: one Jacobian per cell\n            JxW = w * np.abs(np.mean(detJ))\n")],
    "tapered (non-parallelepiped) layered cells", "the quadrature weights of a tapered cell no longer follow its local volume",
    '''
from feax.mesh import Mesh
from feax.mechanics import layered_solid_element as L
from feax.assembler import get_res
x = np.array([[0,0,0],[1,0,0],[1,1,0],[0,1,0],[0.2,0.1,1],[.7,0.2,1],[.6,.7,1],[0.2,.8,1]], float)
m = Mesh(jnp.asarray(x), jnp.arange(8)[None], ele_type="HEX8"); C = L.isotropic_stiffness_3d(10., .3)
C = C if C.ndim == 4 else L.voigt_to_tensor(C)
pb, tp = L.create_layered_solid(m, C, [0., 0.], [.5, .5])
class El(fe.Problem):
    def get_tensor_map(self): return lambda g: jnp.einsum("ijkl,kl->ij", C, (g + g.T) / 2)
ref = El(m, vec=3, dim=3, ele_type="HEX8", gauss_order=2)
u = jnp.asarray(x @ np.array([[.1, .2, 0], [.05, -.1, .3], [0, .1, .2]]))
close(get_res(pb, [u], tp)[0], get_res(ref, [u], fe.TracedParams())[0], "nodal forces of a homogeneous linear field")
''')
bug("c17-beta", "C17", [("feax/mechanics/cohesive.py", "            delta = np.sqrt(delta_n_pos**2 + beta**2 * delta_t_sq + 1e-30)\n\n            phi", "            delta = np.sqrt(delta_n_pos**2 + beta * delta_t_sq + 1e-30)\n\n            phi")],
    "a mode-mixity factor beta other than 0 and 1 and a sliding opening", "the interface energy uses another effective opening than the history update",
    '''
from feax.mechanics.cohesive import CohesiveInterface, exponential_potential
I = CohesiveInterface.from_axis(jnp.array([2, 3]), jnp.array([0, 1]), jnp.array([.5, .5]), 1, 2, beta=0.5)
u = jnp.asarray(np.random.RandomState(0).uniform(0, .1, 8)); d = I.get_opening(u)
E = I.create_energy_fn(exponential_potential, Gamma=2., sigma_c=5.)(u, jnp.zeros(2))
close(E, jnp.sum(jnp.array([.5, .5]) * exponential_potential(d, jnp.zeros(2), Gamma=2., sigma_c=5.)), "energy of the reported opening")
''')
bug("c18-time", "C18", [("feax/solvers/time_solver.py", "        t += dt_eff\n", "        # avoid accumulating round-off while the step size is constant\n        t = time.t_start + step * dt if dt_eff == dt else t + dt_eff\n")],
    "a step size that changes during the run (adaptive dt)", "after the first change of the step size the reported time is not the integrated time: the end is reached early or late",
    '''
import contextlib, io
from feax.solvers import time_solver as T
log = []
class P(T.TimePipeline):
    def build(self, m): pass
    def initial_state(self): return 0.0
    def step(self, s, t, dt): log.append((t, dt)); return s + dt
    def adapt_dt(self, s, step, t, dt): return 1.5 * dt if step == 2 else dt
with contextlib.redirect_stdout(io.StringIO()):
    r = T.run(P(), None, T.TimeConfig(dt=0.125, t_end=2.0), adaptive_dt=T.AdaptiveDtConfig())
close(r.final_state, 2.0, "the steps cover the interval"); close(r.t_final, 2.0, "end time")
for (a, h), (b, _) in zip(log, log[1:]): close(a + h, b, "time advances by the step taken")
''')
bug("c19-cotangent", "C19", [("feax/solvers/eigen.py", "    ok = (rf >= 0) & (cf >= 0)\n    rf = jnp.where(ok, rf, 0); cf = jnp.where(ok, cf, 0)\n    contrib = jnp.sum(w[:, None] * phi[:, rf] * phi[:, cf], axis=0)",
                              "    ok = (rf >= 0) & (cf > 0)\n    rf = jnp.where(ok, rf, 0); cf = jnp.where(ok, cf, 0)\n    contrib = jnp.sum(w[:, None] * phi[:, rf] * phi[:, cf], axis=0)")],
    "a free first unknown that moves in the mode", "the sensitivity to matrix entries in the first free column is dropped",
    '''
from feax.solvers.eigen import create_linear_buckling_solver
from feax.csr import CSRMatrix
n = 6; r = np.random.RandomState(0); A = r.uniform(-1, 1, (n, n)); B = r.uniform(-1, 1, (n, n))
K0 = A @ A.T + n * np.eye(n); G0 = -(B @ B.T + .1 * np.eye(n)); ip = jnp.arange(0, n * n + 1, n); ix = jnp.tile(jnp.arange(n), n)
K, G = (CSRMatrix(jnp.asarray(M.reshape(-1)), ip, ix, (n, n)) for M in (K0, G0))
bf = create_linear_buckling_solver(np.array([1, 2, 4, 5]), 1, solver="dense"); bf(K, G)
S = r.uniform(-1, 1, (n, n)); S = S + S.T
f = lambda t: bf(K.with_data(K.data + t * S.reshape(-1)), G)[0][0]
close(jax.grad(f)(0.), (f(1e-5) - f(-1e-5)) / 2e-5, "sensitivity of the buckling factor", 1e-6)
''')
bug("c20-tensor", "C20", [("feax/utils.py", "                data = data.reshape(mesh.cells.shape[0], -1)\n", "                data = data.reshape(mesh.cells.shape[0], -1, order=\"F\")\n")],
    "a non-symmetric tensor field written per cell", "tensors are written transposed",
    FEM + '''
import tempfile, os, meshio
from feax.utils import save_sol
m = mesh(2, 2); T = np.arange(36, dtype=float).reshape(4, 3, 3)
with tempfile.TemporaryDirectory() as d:
    save_sol(m, os.path.join(d, "a.vtu"), cell_infos=[("T", T)]); r = meshio.read(os.path.join(d, "a.vtu"))
    close(np.asarray(r.cell_data["T"][0]).reshape(4, 9), T.reshape(4, 9), "tensor cell data")
''')
bug("c21-segment", "C21", [("feax/flat/graph.py", "np.clip(np.dot(w, v) / v_dot_v, 0.0, 1.0), 0.0)", "np.clip(np.dot(w, v) / v_dot_v, 0.0, np.sqrt(v_dot_v).clip(1.0)), 0.0)")],
    "a strut longer than one unit and a point beyond its second end", "struts longer than 1 extend beyond their second node",
    '''
from feax.flat.graph import universal_graph
n = jnp.array([[0., 0., 0.], [3., 0., 0.]]); e = jnp.array([[0, 1]])
check(float(universal_graph(jnp.array([3.3, 0., 0.]), n, e, .2)) == 0.0, "beyond the second end")
check(float(universal_graph(jnp.array([3.1, 0., 0.]), n, e, .2)) == 1.0, "within the cap")
''')
