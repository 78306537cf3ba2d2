from buglib import bug
DC = "feax/DCboundary.py"; AS = "feax/assembler.py"
FEM = '''
from feax.mesh import rectangle_mesh
def mesh(nx=2, ny=2):
    return rectangle_mesh(Nx=nx, Ny=ny, domain_x=1.0, domain_y=1.0)
class Lap(fe.Problem):
    def get_tensor_map(self): return lambda g, *a: g * (1.0 if not a else a[0])
'''
bug("c01-overlap", "C01", [(DC, "bc_rows = np.concatenate(bc_rows_list)", "bc_rows = np.concatenate(bc_rows_list[::-1])"),
                           (DC, "bc_vals = np.concatenate(bc_vals_list)", "bc_vals = np.concatenate(bc_vals_list[::-1])")],
    "two specifications that overlap with different values", "the later specification wins on overlapping unknowns",
    FEM + '''
from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
p = Lap(mesh(), vec=1, dim=2, ele_type="QUAD4")
bc = DirichletBCConfig([DirichletBCSpec(lambda x: x[0] < 1e-6, "all", 1.0), DirichletBCSpec(lambda x: x[1] < 1e-6, "all", 2.0)]).create_bc(p)
pts = np.asarray(p.fes[0].points)
for r, v in zip(np.asarray(bc.bc_rows), np.asarray(bc.bc_vals)):
    close(v, 1.0 if pts[r, 0] < 1e-6 else 2.0, "first specification must win")
''')
bug("c02-extra", "C02", [(AS, "        # --- extra additive kernel (always added on top of the base) ---\n        if _extra is not None:",
                          "        # --- extra additive kernel (added on top of the element base) ---\n        if _extra is not None and _weak_form_kernel is None:")],
    "a multi-variable problem with a weak form and an extra kernel", "the extra kernel is dropped for multi-variable weak forms",
    FEM + '''
m = mesh()
class P2(fe.Problem):
    def get_weak_form(self): return lambda v, g, x: ([v[0] * 0, v[1] * 0], [g[0], g[1]])
    def get_extra_kernel(self): return lambda s, x, sg, w, vg, *a: jnp.ones_like(s)
p = P2([m, m], vec=[1, 1], dim=2, ele_type=["QUAD4", "QUAD4"])
from feax.assembler import get_res
z = [jnp.zeros((9, 1)), jnp.zeros((9, 1))]
r = get_res(p, z, fe.TracedParams())
cnt = np.bincount(np.asarray(m.cells).ravel(), minlength=9)
close(np.asarray(r[0]).ravel(), cnt, "extra kernel contribution")
close(np.asarray(r[1]).ravel(), cnt, "extra kernel contribution")
''')
bug("c02-cellvec", "C02", [(AS, "            if var.shape[1] == problem.fes[0].num_quads:\n                return _VAR_QUAD, 0",
                            "            if var.shape[1] == problem.fes[-1].num_nodes:\n                return _VAR_QUAD, 0")],
    "a per-quadrature-point coefficient on an element with a different number of nodes and quadrature points",
    "quadrature-point coefficients are replaced by their first value in the cell",
    '''
from feax.mesh import Mesh
pts = jnp.array([[0., 0], [1, 0], [1, 1], [0, 1]]); m = Mesh(pts, jnp.array([[0, 1, 2], [0, 2, 3]]), ele_type="TRI3")
class Lap(fe.Problem):
    def get_mass_map(self): return lambda u, x, k: k * jnp.ones(1)
p = Lap(m, vec=1, dim=2, ele_type="TRI3", gauss_order=4)
nq = p.fes[0].num_quads
k = jnp.asarray(np.random.RandomState(0).uniform(size=(2, nq)))
from feax.assembler import get_res
r = get_res(p, [jnp.zeros((4, 1))], fe.TracedParams(volume_vars=(k,)))[0]
close(float(jnp.sum(r)), float(jnp.sum(k * p.fes[0].JxW)), "integral of the quadrature coefficient")
''')
bug("c03-batch", "C03", [(AS, "        perm = onp.argsort(vslots_batched, axis=1, kind='stable')\n        out = (perm.astype(onp.int32),",
                         "        perm = onp.argsort(vslots_batched, axis=1, kind='stable')\n        if pad:\n            vslots_batched = vslots_batched.copy()\n            vslots_batched[-1, (bs - pad - 1) * ndof2:(bs - pad) * ndof2] = nse\n            perm = onp.argsort(vslots_batched, axis=1, kind='stable')\n        out = (perm.astype(onp.int32),")],
    "more cells than one assembly batch and a partially filled last batch",
    "the last real cell of a padded batch is discarded from the tangent",
    FEM + '''
from feax.assembler import get_jacobian, get_res
p = Lap(mesh(20, 13), vec=1, dim=2, ele_type="QUAD4")
n = p.num_total_dofs_all_vars
J = get_jacobian(p, [jnp.zeros((n, 1))], fe.TracedParams())
v = jnp.asarray(np.random.RandomState(0).uniform(size=n))
r = get_res(p, [v[:, None]], fe.TracedParams())[0].ravel() - get_res(p, [jnp.zeros((n, 1))], fe.TracedParams())[0].ravel()
close(J @ v, r, "tangent times v")
''')
bug("c04-rect", "C04", [("feax/csr.py", "        m = self.shape[1]\n        rows", "        m = self.shape[0]\n        rows")],
    "transpose product of a rectangular matrix", "transpose products of rectangular matrices have the wrong length",
    '''
from feax.csr import CSRMatrix
A = CSRMatrix(jnp.array([1., 2, 3]), jnp.array([0, 2, 3]), jnp.array([0, 2, 1]), (2, 3))
close(A.T @ jnp.array([1., 10.]), np.array([[1., 0, 2], [0, 3, 0]]).T @ np.array([1., 10.]), "transpose product")
''')
bug("c05-nanson", "C05", [("feax/fe.py", "nanson_scale = np.linalg.norm((selected_f_normals[:, None, None, :] @ jacobian_deta_dx)[:, :, 0, :], axis=-1)",
                           "nanson_scale = np.linalg.norm((selected_f_normals[:, None, None, :] @ jacobian_deta_dx[:, :1])[:, :, 0, :], axis=-1)")],
    "a distorted quadrilateral or hexahedral boundary face", "the surface measure uses the mapping of the first face point for all of them",
    '''
from feax.mesh import Mesh
m = Mesh(jnp.array([[0., 0], [2, 0.3], [1.6, 1.5], [0.1, 0.8]]), jnp.array([[0, 1, 2, 3]]), ele_type="QUAD4")
from feax.fe import FiniteElement
f = FiniteElement(m, vec=1, dim=2, ele_type="QUAD4", gauss_order=2)
P = np.asarray(m.points)
fi = np.asarray(f.face_inds)
_, s = f.get_face_shape_grads(jnp.array([[0, k] for k in range(4)]))
for k in range(4):
    close(float(jnp.sum(s[k])), np.linalg.norm(P[fi[k, 0]] - P[fi[k, 1]]), "edge length")
    close(float(s[k, 0]) * 1.0, float(s[k, 1]), "uniform edge measure")
''')
bug("c05-hess", "C05", [("feax/basis.py", "            if i != j:\n                hess[:, :, j, i] = tab[idx, :, :]", "            if i != j and dim == 3:\n                hess[:, :, j, i] = tab[idx, :, :]")],
    "second derivatives on 2-D elements", "mixed second derivatives are not symmetric in 2-D",
    '''
from feax.mesh import rectangle_mesh
from feax.fe import FiniteElement
f = FiniteElement(rectangle_mesh(Nx=1, Ny=1, domain_x=1.0, domain_y=1.0), vec=1, dim=2, ele_type="QUAD4", hess=True)
h = np.asarray(f.shape_hessians)
close(h, np.swapaxes(h, -1, -2), "symmetric Hessian")
''')
