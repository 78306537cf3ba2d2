From 541fb65b39d33e50bf3b607a0e9bb3c02aed62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:31 +0000
Subject: [PATCH 01/36] fix: make QUAD8/HEX20 shape functions nodal

basix serendipity edge dofs are integral moments, so the tabulated functions
did not interpolate at mid-side nodes.
---
 feax/basis.py                           | 36 ++++++++++++++++++++++---
 feax/gene/sdf.py                        |  4 +--
 feax/mechanics/layered_solid_element.py |  7 +++--
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/feax/basis.py b/feax/basis.py
index de13f9b..c1f96a5 100644
--- a/feax/basis.py
+++ b/feax/basis.py
@@ -126,6 +126,36 @@ def get_elements(ele_type: str) -> Tuple[basix.ElementFamily, basix.CellType, ba
     return element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order
 
 
+class _NodalSerendipityElement:
+    """Nodal (interpolatory) basis of a degree-2 basix serendipity element.
+
+    The edge degrees of freedom of basix's serendipity family are integral
+    moments, so its tabulated functions do not interpolate at the mid-side
+    nodes. ``tabulate`` returns the same polynomial space in the basis that is
+    one at its own node (vertices, then edge midpoints, in basix entity order)
+    and zero at every other node.
+    """
+
+    def __init__(self, element, basix_ele: basix.CellType):
+        self._element = element
+        vertices = basix.geometry(basix_ele)
+        edges = [e[0] for e in basix.cell.sub_entity_connectivity(basix_ele)[1]]
+        nodes = onp.concatenate([vertices, [vertices[e].mean(axis=0) for e in edges]])
+        self._to_nodal = onp.linalg.inv(element.tabulate(0, nodes)[0, :, :, 0])
+
+    def tabulate(self, num_derivs: int, points) -> onp.ndarray:
+        tab = self._element.tabulate(num_derivs, points)
+        return onp.einsum('dpiv,ij->dpjv', tab, self._to_nodal)
+
+
+def create_nodal_element(element_family: basix.ElementFamily, basix_ele: basix.CellType, degree: int):
+    """Create an element whose ``tabulate`` returns nodal shape functions (basix node order)."""
+    element = basix.create_element(element_family, basix_ele, degree)
+    if element_family == basix.ElementFamily.serendipity:
+        return _NodalSerendipityElement(element, basix_ele)
+    return element
+
+
 def reorder_inds(inds: Array, re_order: List[int]) -> Array:
     """Apply node re-ordering transformation to match basix conventions.
     
@@ -189,7 +219,7 @@ def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -
         gauss_order = gauss_order_default
 
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     # Tabulate shape function values and gradients, shape: (derivative, point, basis fn index, value index)
     vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
@@ -219,7 +249,7 @@ def get_shape_hessians_ref(ele_type: str, gauss_order: Optional[int] = None) ->
         gauss_order = gauss_order_default
 
     quad_points, _ = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     tab = element.tabulate(2, quad_points)[:, :, re_order, 0]
     # tab shape: (num_derivs, num_quads, num_nodes)
 
@@ -317,7 +347,7 @@ def get_face_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = No
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..5de1488 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -29,7 +29,7 @@ import meshio
 import numpy as onp
 from scipy.spatial import cKDTree
 
-from feax.basis import get_elements
+from feax.basis import create_nodal_element, get_elements
 
 
 # ---------------------------------------------------------------------------
@@ -516,7 +516,7 @@ class DensityField(SDF):
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
         self._re_order = onp.array(re_order)
-        self._element = basix.create_element(family, basix_ele, degree)
+        self._element = create_nodal_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
         # Fast path flag: TET4 / TRI3 have linear maps → direct solve
diff --git a/feax/mechanics/layered_solid_element.py b/feax/mechanics/layered_solid_element.py
index 0ff1f16..1b09f54 100644
--- a/feax/mechanics/layered_solid_element.py
+++ b/feax/mechanics/layered_solid_element.py
@@ -40,11 +40,10 @@ from typing import Callable, Iterable, Optional, Sequence, Tuple, Union
 import jax
 import jax.numpy as np
 import numpy as onp
-import basix
 import jax.flatten_util
 
 import feax as fe
-from feax.basis import get_elements
+from feax.basis import create_nodal_element, get_elements
 from feax.traced_params import TracedParams
 
 
@@ -298,7 +297,7 @@ def _tabulate_reference(ele_type: str, ref_points: onp.ndarray) -> np.ndarray:
     given points (in feax node ordering). Returns ``(nq, num_nodes, dim)``.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
+    element = create_nodal_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
     tab = element.tabulate(1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
     dNdxi = onp.transpose(tab[1:, :, :, 0], axes=(1, 2, 0))  # (q, node, dim)
@@ -312,7 +311,7 @@ def _tabulate_reference_vals(ele_type: str, ref_points: onp.ndarray) -> np.ndarr
     ``(nq, num_nodes)`` in feax node ordering.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
+    element = create_nodal_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
     tab = element.tabulate(0, pts)[:, :, re_order, :]   # (1, q, node, val)
     return np.asarray(tab[0, :, :, 0])                  # (q, node)
-- 
2.43.0


From 845fa66dd9569503f11a4ad1e307706c3acd3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 02/36] fix: gather nodal coefficients as nodal when num_cells
 == num_nodes

classify_volume_var resolves such a field as nodal, but gather_internal_vars and
create_energy_fn treated it as per-cell, so assembly failed (e.g. a 2x3 TRI3 grid).
---
 feax/assembler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 4391556..261c880 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -340,7 +340,8 @@ class Operator:
             # share identical gather logic: cell-based arrays pass through,
             # node-based arrays are gathered to per-cell via element connectivity.
             if var.ndim in (1, 2):
-                if var.shape[0] == problem.num_cells:
+                if (var.shape[0] == problem.num_cells
+                        and classify_volume_var(problem, var)[0] != _VAR_NODE):
                     result.append(var)
                 else:
                     fe_idx = 0
@@ -1920,7 +1921,7 @@ def create_energy_fn(problem) -> Callable:
         result = []
         for var in traced_params.volume_vars:
             if var.ndim == 1:
-                if var.shape[0] == num_cells:
+                if classify_volume_var(problem, var)[0] == _VAR_CELL:
                     result.append(np.tile(var[:, None], (1, num_quads)))
                 else:
                     var_cell = var[cells]
-- 
2.43.0


From 934c60f04c0e247890c578b0e25a2110feb3783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 03/36] fix: do not drop the surface tangent of loads whose
 sample coefficient is zero

detect_zero_surface_jacobian only probed the sample surface_vars, so a Robin load
built with a zero coefficient lost its tangent for every later solve.
---
 feax/assembler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 261c880..45cb824 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1325,7 +1325,8 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     """Probe whether every surface load is u-independent (a 'dead' load), i.e.
     its contribution to the tangent stiffness is identically zero.
 
-    Returns ``True`` only when the assembled surface Jacobian is exactly zero at
+    Returns ``True`` only when the surface residual does not use ``u`` (a NaN
+    state leaves it finite) and the assembled surface Jacobian is exactly zero at
     two distinct nonzero displacement patterns — the usual case for Neumann
     tractions / pressures that do not follow the deformation. Configuration
     (``u``-)dependent 'follower' loads, or any probing error, return ``False``
@@ -1343,6 +1344,15 @@ def detect_zero_surface_jacobian(problem: 'Problem',
         return False
     try:
         n = problem.num_total_dofs_all_vars
+        # NaN propagates through any arithmetic use of u, also where the sample
+        # ``surface_vars`` (e.g. a zero Robin coefficient) hide the dependence.
+        cells_nan = np.concatenate(
+            [np.full((cells.shape[0], cells.shape[1] * fe.vec), np.nan)
+             for cells, fe in zip(src.cells_list, problem.fes)], axis=1)
+        for val in compute_face(problem, cells_nan, False,
+                                traced_params.surface_vars, ts):
+            if not bool(np.all(np.isfinite(val))):
+                return False
         # Two asymmetric nonzero patterns: a genuinely u-dependent map is
         # vanishingly unlikely to have an exactly-zero tangent at both.
         for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
-- 
2.43.0


From 7d80ef6058cdeaaaef5b26f9d3d173deac63c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 04/36] fix: linear solve honours boundary values the initial
 guess does not satisfy

Symmetric elimination drops the K_fb columns, so the single linear step is
only exact when the guess already holds the prescribed values. Impose the
effective bc (also a bc= override) on the guess before the step.
---
 feax/solvers/linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..a2f107a 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -373,10 +373,16 @@ def create_linear_solver(
         _dev_id = int(getattr(_cudss, "device_id", 0) or 0)
         _reuse_factor = _mtype_id in (1, 3)   # SYMMETRIC or SPD => J = Jᵀ
 
+    def _impose_bc(initial_guess, effective_bc):
+        """Start from the prescribed values: symmetric elimination drops the
+        K_fb columns, so the increment must vanish at the BC DOFs."""
+        return np.asarray(initial_guess).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
+
     if _reuse_factor:
         from spineax.cudss.factor_solve import factorize as _factorize, solve_with as _solve_with
 
         def _factor_and_solve(initial_guess, traced_params, effective_bc, ts):
+            initial_guess = _impose_bc(initial_guess, effective_bc)
             res = res_bc_parametric(initial_guess, traced_params, effective_bc, ts)
             op = J_bc_csr_parametric(initial_guess, traced_params, effective_bc, ts)
             token = _factorize(op.data, op.indptr, op.indices,
@@ -389,6 +395,7 @@ def create_linear_solver(
         if _reuse_factor:
             sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol
+        initial_guess = _impose_bc(initial_guess, effective_bc)
         # Operator follows the solve method: direct assembles a CSR matrix;
         # Krylov uses the matrix-free (residual JVP) matvec — no assembly.
         if _fwd_direct:
-- 
2.43.0


From be126f3d0dc553a9291088a7b8aba3438922d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 05/36] fix: exact adjoint of the symmetrically eliminated
 linear solve

Recover lambda_bc = v_bc - K_fb^T lambda_free (as the Newton adjoint does) so
gradients w.r.t. prescribed values include the coupling, and use K^T in the
matrix-free adjoint instead of assuming K is symmetric.
---
 feax/solvers/linear.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index a2f107a..4db418b 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -322,6 +323,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -378,6 +380,19 @@ def create_linear_solver(
         K_fb columns, so the increment must vanish at the BC DOFs."""
         return np.asarray(initial_guess).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
 
+    def _correct_adjoint_bc(adjoint_vec, v, sol, traced_params, effective_bc, ts):
+        """True adjoint at the BC DOFs under symmetric elimination.
+
+        The eliminated operator has no K_fb columns, so its adjoint solve gives
+        the right λ_free but λ_bc = v_bc; the discrete solution has
+        λ_bc = v_bc - K_fb^T λ_free (same correction as the Newton adjoint).
+        """
+        if not symmetric_elimination:
+            return adjoint_vec
+        rows = effective_bc.bc_rows
+        Kt_lambda = matfree_Kt_param(sol, traced_params, ts)(adjoint_vec.at[rows].set(0.0))
+        return adjoint_vec.at[rows].set(v[rows] - Kt_lambda[rows])
+
     if _reuse_factor:
         from spineax.cudss.factor_solve import factorize as _factorize, solve_with as _solve_with
 
@@ -435,6 +450,8 @@ def create_linear_solver(
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            adjoint_vec = _correct_adjoint_bc(
+                adjoint_vec, v, sol, traced_params, effective_bc, ts)
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -460,8 +477,11 @@ def create_linear_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Jᵀ of the symmetrically eliminated operator: Kᵀ on the free DOFs,
+            # identity on the BC DOFs (K itself need not be symmetric).
+            _Kt = matfree_Kt_param(sol, traced_params, ts)
+            _free = np.ones_like(sol).at[effective_bc.bc_rows].set(0.0)
+            J_adjoint = lambda w: _free * _Kt(_free * w) + (1.0 - _free) * w
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
@@ -472,6 +492,8 @@ def create_linear_solver(
             effective_bc,
             linear_solve_fn=adjoint_linear_solve_fn
         )
+        adjoint_vec = _correct_adjoint_bc(
+            adjoint_vec, v, sol, traced_params, effective_bc, ts)
 
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
-- 
2.43.0


From 7e7ab8df88316e6063382818b5bd502d59c50fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:51 +0000
Subject: [PATCH 06/36] fix: keep the GMRES restart length when the iterative
 solver is chosen automatically

---
 feax/solvers/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 74d7749..c7b265b 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -877,6 +877,7 @@ def resolve_iterative_solver(
         preconditioner=options.preconditioner,
         use_jacobi_preconditioner=options.use_jacobi_preconditioner,
         jacobi_shift=options.jacobi_shift,
+        restart=options.restart,
         x0_fn=options.x0_fn,
         check_convergence=options.check_convergence,
         convergence_threshold=options.convergence_threshold,
-- 
2.43.0


From 80946a67d8c3b76e18071413754ddee36a685369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 07/36] fix: matrix-free Newton adjoint solves with the
 transposed tangent

The symmetrically eliminated tangent is only symmetric when the physics is; use
K^T on the free DOFs (as the linear adjoint does).
---
 feax/solvers/newton.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..e35a0b7 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1042,8 +1042,11 @@ def create_callback_newton_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Jᵀ of the symmetrically eliminated operator: Kᵀ on the free DOFs,
+            # identity on the BC DOFs (K itself need not be symmetric).
+            _Kt = matfree_Kt_param(sol, traced_params, ts)
+            _free = np.ones_like(sol).at[effective_bc.bc_rows].set(0.0)
+            J_adjoint = lambda w: _free * _Kt(_free * w) + (1.0 - _free) * w
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
-- 
2.43.0


From c3a2a3228c92190bb96bdf23d7d308ad25f697d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:20 +0000
Subject: [PATCH 08/36] fix: Newton direction accounts for prescribed values
 not held yet

Symmetric elimination drops the K_fb columns; move K_fb du_bc to the right-hand
side so a guess that violates the (possibly overridden) prescribed values does
not yield a non-descent direction and a failed line search.
---
 feax/solvers/newton.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index e35a0b7..e5b9d75 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -65,6 +65,21 @@ def _ensure_verbose_logging():
             logger.addHandler(logging.StreamHandler())
 
 
+def _newton_rhs(res_fn, sol, res, bc, symmetric_elimination):
+    """Right-hand side of the Newton system ``J du = rhs``.
+
+    Symmetric elimination drops the K_fb columns from ``J``; when ``sol`` does
+    not hold the prescribed values yet (``du_bc != 0``), their contribution
+    ``K_fb du_bc`` moves to the right-hand side so that ``du`` stays the Newton
+    direction. Vanishes once the values hold.
+    """
+    if not symmetric_elimination:
+        return -res
+    du_bc = np.zeros_like(sol).at[bc.bc_rows].set(bc.bc_vals - sol[bc.bc_rows])
+    _, lift = jax.jvp(res_fn, (sol,), (du_bc,))
+    return -res - lift.at[bc.bc_rows].set(0.0)
+
+
 def _create_differentiable_newton_solver(
     problem,
     bc,
@@ -304,6 +319,9 @@ def _create_amg_rebuild_newton_solver(problem, bc, amg_options, newton_options,
     # PyAMG hierarchy (which can't be traced); the heavy work is jitted.
     res_jit = jax.jit(res_bc_param)
     J_jit = jax.jit(J_csr_param)
+    rhs_jit = jax.jit(lambda sol, res, tp, bc_arg, ts: _newton_rhs(
+        lambda s: res_bc_param(s, tp, bc_arg, ts), sol, res, bc_arg,
+        symmetric_elimination))
 
     def _make_solve(M):
         """A jitted Krylov solve bound to a fixed preconditioner ``M``.
@@ -335,7 +353,7 @@ def _create_amg_rebuild_newton_solver(problem, bc, amg_options, newton_options,
             if it > 0 and res_norm / (init_norm + 1e-30) < newton_options.rel_tol:
                 break
             J = J_jit(sol, traced_params, bc_arg, ts)
-            b = -res
+            b = rhs_jit(sol, res, traced_params, bc_arg, ts)
             bnorm = float(np.linalg.norm(b)) + 1e-30
 
             # Decide whether to (re)build the hierarchy this step.
@@ -472,6 +490,9 @@ def _create_assembled_extra_newton_solver(
     res_total_jit = jax.jit(
         lambda sol, tp, bc_arg, ts: res_bc_param(sol, tp, bc_arg, ts) + extra_res_bc(sol))
     J_jit = jax.jit(J_merged_param)
+    rhs_jit = jax.jit(lambda sol, res, tp, bc_arg, ts: _newton_rhs(
+        lambda s: res_bc_param(s, tp, bc_arg, ts) + extra_res_rows(s),
+        sol, res, bc_arg, symmetric_elimination))
 
     _verbose = linear_options.verbose
 
@@ -493,7 +514,8 @@ def _create_assembled_extra_newton_solver(
                 break
 
             J = J_jit(sol, traced_params, bc_arg, ts)
-            du = direct_solve_fn(J, -res_total, None)
+            rhs = rhs_jit(sol, res_total, traced_params, bc_arg, ts)
+            du = direct_solve_fn(J, rhs, None)
 
             # Backtracking line search (accept any residual decrease).
             alpha, _ls_success = 1.0, False
@@ -716,7 +738,11 @@ def create_newton_solver(
                 )
                 if linear_options.solver == 'gmres':
                     _kw['restart'] = linear_options.restart or min(200, sol.shape[0])
-                du, _ = _iterative_solver(matvec, -res_total, **_kw)
+                rhs = _newton_rhs(
+                    lambda s: (res_bc_param_jit(s, traced_params, bc_arg, ts)
+                               + extra_res_rows(s)),
+                    sol, res_total, bc_arg, symmetric_elimination)
+                du, _ = _iterative_solver(matvec, rhs, **_kw)
                 du_norm = float(np.linalg.norm(du))
 
                 # Early termination if linear solver stagnated
@@ -963,7 +989,9 @@ def create_callback_newton_solver(
         res, J = _fwd_res_J(sol, tp, bc_, ts)
         res_norm = np.linalg.norm(res)
         x0 = x0_param(sol, bc_)
-        du = linear_solve_fn(J, -res, x0)
+        rhs = _newton_rhs(lambda s: res_param(s, tp, bc_, ts), sol, res, bc_,
+                          symmetric_elimination)
+        du = linear_solve_fn(J, rhs, x0)
         new_sol, new_norm, _alpha, found = armijo(
             sol, du, res, res_norm, traced_params=(tp, bc_, ts))
         return new_sol, new_norm, found
-- 
2.43.0


From b1278608fe1a4feac5db0d59b8cc6e49196c0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:20 +0000
Subject: [PATCH 09/36] fix: prescribed-value gradients of Newton solves with
 triangular storage

The K_fb correction used the stored triangle as if it were the full matrix.
---
 feax/solvers/newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index e5b9d75..d9cb73a 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1091,13 +1091,14 @@ def create_callback_newton_solver(
         #   (assembled transpose for direct, matrix-free VJP for Krylov).
         if _needs_bc_correction:
             lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
+            if _adj_direct and use_transpose:
                 sol_list = problem.unflatten_fn_sol_list(sol)
                 kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                 K_bulk = CSRMatrix(kdata, kindptr, kindices,
                                    (problem.num_total_dofs_all_vars,) * 2)
                 ktw = K_bulk.rmatvec(lambda_free)
             else:
+                # Krylov, or triangular storage (which holds only half of K).
                 ktw = matfree_Kt_param(sol, traced_params, ts)(lambda_free)
             correction = ktw[effective_bc.bc_rows]
             adjoint_vec = adjoint_vec.at[effective_bc.bc_rows].set(
-- 
2.43.0


From 424e9d89518954a90b0a062b3a6b66545bd6f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:27 +0000
Subject: [PATCH 10/36] fix: periodic_bc_3D pairs faces and edges of cells
 whose lower corner is not the origin

---
 feax/flat/pbc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 1235a67..18459d9 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -337,12 +337,13 @@ def periodic_bc_3D(
         - Each geometric pairing is replicated for each DoF component
     """
 
-    L = unitcell.ub - unitcell.lb
+    lb, ub = unitcell.lb, unitcell.ub
+    L = ub - lb
 
     face_pairs = []
     for axis in range(dim):
-        master_fn = unitcell.face_function(axis, 0, excluding_edge=True)
-        slave_fn = unitcell.face_function(axis, L[axis], excluding_edge=True)
+        master_fn = unitcell.face_function(axis, lb[axis], excluding_edge=True)
+        slave_fn = unitcell.face_function(axis, ub[axis], excluding_edge=True)
         for i in range(vec):
             face_pairs.append(
                 PeriodicPairing(
@@ -352,8 +353,9 @@ def periodic_bc_3D(
 
     edge_pairs = []
     for axes in [[1, 2], [0, 2], [0, 1]]:
-        for values in [[L[axes[0]], 0], [L[axes[0]], L[axes[1]]], [0, L[axes[1]]]]:
-            master_fn = unitcell.edge_function(axes, [0, 0], excluding_corner=True)
+        a, b = axes
+        for values in [[ub[a], lb[b]], [ub[a], ub[b]], [lb[a], ub[b]]]:
+            master_fn = unitcell.edge_function(axes, [lb[a], lb[b]], excluding_corner=True)
             slave_fn = unitcell.edge_function(axes, values, excluding_corner=True)
             for i in range(vec):
                 edge_pairs.append(
-- 
2.43.0


From 3c4d06127aa24608a4c78ea06dc80f4f5d396c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:27 +0000
Subject: [PATCH 11/36] fix: prolongation_matrix follows chained pairings
 instead of emitting negative columns

---
 feax/flat/pbc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 18459d9..d770bd6 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -175,10 +175,13 @@ def prolongation_matrix(
     for i in range(num_total_dofs):
         I.append(i)
         V.append(1.0)
-        if reduced_inds_map[i] < 0:
-            J.append(reduced_inds_map[-reduced_inds_map[i] - 1])
-        else:
-            J.append(reduced_inds_map[i])
+        # A master may itself be the slave of another pairing: follow the chain.
+        j, steps = i, 0
+        while reduced_inds_map[j] < 0:
+            j, steps = -reduced_inds_map[j] - 1, steps + 1
+            if steps > num_total_dofs:
+                raise ValueError(f"Cyclic periodic pairing through DoF {i}.")
+        J.append(reduced_inds_map[j])
 
     # Create JAX BCOO sparse matrix for compatibility with FEAX ecosystem
     # BCOO format: (values, indices) where indices shape is (nnz, 2)
-- 
2.43.0


From b019c3d312fcfac9df8dcb36ce33f5cfdb938d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:27 +0000
Subject: [PATCH 12/36] fix: reduced solve keeps the K_fb coupling of
 prescribed values in the solution and its bc adjoint

---
 feax/solvers/reduced.py | 46 +++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 501fe7b..cf71c01 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -32,6 +32,7 @@ from .common import (
     create_iterative_solve_fn,
     create_linear_solve_fn,
 )
+from .newton import _newton_rhs
 from .options import (
     AMGSolverOptions,
     DirectSolverOptions,
@@ -77,6 +78,31 @@ def _validate_bc_pairing(P, bc):
             "paired faces/edges/corners of that dof).")
 
 
+def _reduced_rhs(P, res_bc_fn, sol, res, bc):
+    """Right-hand side of the reduced increment system ``PᵀJP dv = rhs``.
+
+    The symmetrically eliminated ``J`` has no K_fb columns; when ``sol`` (e.g. a
+    macroscopic displacement) does not hold the prescribed values, their
+    contribution moves to the right-hand side (as in the Newton solver).
+    """
+    return P.T @ _newton_rhs(res_bc_fn, sol, res, bc, True)
+
+
+def _reduced_bc_adjoint(P, res_bc_fn, sol, adjoint_full, bc):
+    """Adjoint values on the Dirichlet rows: ``λ_b -= K_fbᵀ λ_f`` per class.
+
+    The eliminated operator has no K_fb columns, the true residual does; only
+    the cotangent of the prescribed values is affected.
+    """
+    mask = np.zeros_like(adjoint_full).at[bc.bc_rows].set(1.0)
+    _, vjp = jax.vjp(res_bc_fn, sol)
+    coupling, = vjp(adjoint_full * (1.0 - mask))
+    weight = np.zeros(P.shape[1]).at[P.indices[:, 1]].add(
+        P.data ** 2 * mask[P.indices[:, 0]])
+    per_class = (P.T @ (coupling * mask)) / np.where(weight > 0, weight, 1.0)
+    return adjoint_full - mask * (P @ per_class)
+
+
 def _project_reduced_nullspace(P, B_full):
     """Project a full-space near-null-space onto the reduced space.
 
@@ -208,13 +234,15 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         res_full, J_matvec = matfree_res_J(
             initial_guess_full, traced_params, effective_bc, ts
         )
-        res_reduced = P.T @ res_full
+        rhs_reduced = _reduced_rhs(
+            P, lambda s: res_bc_parametric(s, traced_params, effective_bc, ts),
+            initial_guess_full, res_full, effective_bc)
 
         def J_reduced_matvec(v_reduced):
             return P.T @ J_matvec(P @ v_reduced)
 
         x0 = np.zeros(P.shape[1])
-        sol_reduced = fwd_linear_solve_fn(J_reduced_matvec, -res_reduced, x0)
+        sol_reduced = fwd_linear_solve_fn(J_reduced_matvec, rhs_reduced, x0)
         sol_full = initial_guess_full + P @ sol_reduced
         return sol_full, None
 
@@ -240,7 +268,9 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
 
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _reduced_bc_adjoint(
+            P, lambda s: res_bc_parametric(s, traced_params, effective_bc, ts),
+            sol, P @ adjoint_reduced, effective_bc)
 
         # VJP of residual w.r.t. traced_params and bc
         u_total_list = problem.unflatten_fn_sol_list(sol)
@@ -311,9 +341,11 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
         res_full, matvec = _operator(initial_guess_full, traced_params, effective_bc, ts)
-        res_reduced = P.T @ res_full
+        rhs_reduced = _reduced_rhs(
+            P, lambda s: res_bc_parametric(s, traced_params, effective_bc, ts),
+            initial_guess_full, res_full, effective_bc)
         op = assemble(matvec) if fwd_assembled else matvec
-        sol_reduced = fwd_solve(op, -res_reduced)
+        sol_reduced = fwd_solve(op, rhs_reduced)
         return initial_guess_full + P @ sol_reduced, None
 
     @jax.custom_vjp
@@ -333,7 +365,9 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _reduced_bc_adjoint(
+            P, lambda s: res_bc_parametric(s, traced_params, effective_bc, ts),
+            sol, P @ adjoint_reduced, effective_bc)
 
         u_total_list = problem.unflatten_fn_sol_list(sol)
         adjoint_list = problem.unflatten_fn_sol_list(adjoint_full)
-- 
2.43.0


From 16a491f5d6276081adff9d777570137bc6bde7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:01 +0000
Subject: [PATCH 13/36] fix: average_stress reads a volume variable as nodal
 where the assembler does

---
 feax/flat/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/feax/flat/solver.py b/feax/flat/solver.py
index 4446752..0ae38bb 100644
--- a/feax/flat/solver.py
+++ b/feax/flat/solver.py
@@ -127,7 +127,9 @@ def average_stress(problem, u_total: np.ndarray, traced_params, dim: int) -> np.
     vol_vars_quad = []
     for var in traced_params.volume_vars:
         if var.ndim == 1:
-            if var.shape[0] == num_cells:
+            # a node count wins over a cell count, as in the assembler
+            if (var.shape[0] == num_cells
+                    and num_cells != problem.fes[0].num_total_nodes):
                 # cell-based: same value at every quad point
                 vol_vars_quad.append(np.tile(var[:, None], (1, num_quads)))
             else:
-- 
2.43.0


From bb72cf9c09e4f3ba9517a6930ec07e817e6c7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:01 +0000
Subject: [PATCH 14/36] fix: create_cell_var_from_fn accepts meshes whose
 points are NumPy arrays

---
 feax/traced_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/traced_params.py b/feax/traced_params.py
index e577696..f6a7fc9 100644
--- a/feax/traced_params.py
+++ b/feax/traced_params.py
@@ -297,7 +297,7 @@ class TracedParams:
         """
         # Compute cell centroids
         cells = problem.fes[var_index].cells
-        points = problem.fes[var_index].points
+        points = np.asarray(problem.fes[var_index].points)
         centroids = jax.vmap(lambda cell: np.mean(points[cell], axis=0))(cells)
         return jax.vmap(var_fn)(centroids)
 
-- 
2.43.0


From 62d123cec4fa90fd65214a310220df5e1c948b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:51 +0000
Subject: [PATCH 15/36] fix: Continuation.value_at clamps between initial and
 final also for a step away from final

---
 feax/gene/optimizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index ab79b5e..d36c037 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -163,9 +163,8 @@ class Continuation:
         """Compute parameter value at a given iteration."""
         n = max(0, iteration // self.update_every)
         v = self.initial + self.step * n
-        if self.final >= self.initial:
-            return min(v, self.final)
-        return max(v, self.final)
+        lo, hi = min(self.initial, self.final), max(self.initial, self.final)
+        return min(max(v, lo), hi)
 
 
 @dataclass
-- 
2.43.0


From 5a4eefdd11256f0bc8c12a45cb2951e7da1d5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:39 +0000
Subject: [PATCH 16/36] fix: bilinear cohesive law uses the documented k0 and
 delta_0 (peak traction sigma_c, toughness Gamma)

---
 feax/mechanics/cohesive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/mechanics/cohesive.py b/feax/mechanics/cohesive.py
index dd4a77c..91a207c 100644
--- a/feax/mechanics/cohesive.py
+++ b/feax/mechanics/cohesive.py
@@ -130,9 +130,9 @@ def bilinear_potential(delta, delta_max, *, Gamma, sigma_c):
         Cohesive energy density per node, shape ``(n_nodes,)``.
     """
     delta_f = 2.0 * Gamma / sigma_c
-    delta_0 = 2.0 * Gamma / (sigma_c * delta_f)
+    k0 = sigma_c**2 / (2.0 * Gamma)
+    delta_0 = sigma_c / k0
 
-    k0 = sigma_c / delta_0
     phi_ascending = 0.5 * k0 * delta**2
     phi_descending = Gamma - 0.5 * sigma_c * (delta_f - delta)**2 / (delta_f - delta_0 + 1e-30)
     phi_full = Gamma * np.ones_like(delta)
-- 
2.43.0


From 19ea26348d1f6ba3f2f0c8450d9c0028ff889e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 17/36] fix: buckling gradients are NaN when fewer positive
 modes than requested exist

The host-callback backends pad missing modes with lambda = inf, phi = 0; the
backward pass then formed inf*0. Guard them out as the cudss backend does.
---
 feax/solvers/eigen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 57f395e..c669de4 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -857,8 +857,11 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     def _bwd(res, cts):
         K, Kg, lam, phi = res
         lam_bar, _modes_bar = cts                     # mode-shape cotangent ignored
-        K_cot = _outer_cotangent(K, phi, lam_bar * lam, free)
-        Kg_cot = _outer_cotangent(Kg, phi, lam_bar * lam * lam, free)
+        # guard the inf-padded (missing) modes out of the sensitivity
+        w = jnp.where(jnp.isfinite(lam), lam_bar * lam, 0.0)
+        w2 = jnp.where(jnp.isfinite(lam), lam_bar * lam * lam, 0.0)
+        K_cot = _outer_cotangent(K, phi, w, free)
+        Kg_cot = _outer_cotangent(Kg, phi, w2, free)
         return (K_cot, Kg_cot)
 
     bf.defvjp(_fwd, _bwd)
-- 
2.43.0


From fb6c433e6b22bffbf49c7d9791ba5c806fa49bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:50 +0000
Subject: [PATCH 18/36] fix: sparse buckling misses positive factors below
 larger negative ones

ARPACK was asked for the largest-magnitude mu = 1/lambda, so pencils with many
negative factors of smaller magnitude returned no (or fewer) positive modes than
exist, unlike the dense backend. Ask for the algebraically largest mu.
---
 feax/solvers/eigen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index c669de4..36e68bc 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -276,7 +276,7 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
 
         T = -K⁻¹ K_g ,   T φ = μ φ   with   μ = 1/λ,
 
-    and find the largest-magnitude ``μ`` (the smallest positive ``λ``) with ARPACK
+    and find the largest positive ``μ`` (the smallest positive ``λ``) with ARPACK
     (:func:`scipy.sparse.linalg.eigs`) driving a ``LinearOperator`` ``v ↦ -K⁻¹(K_g v)``.
     ``K⁻¹`` is one sparse factorization (CHOLMOD / SuperLU). Everything runs in plain
     SciPy/NumPy — **no** ``jax.pure_callback`` inside the eigensolve — so repeated calls
@@ -327,7 +327,7 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
         print(f"[buckling/sparse] ARPACK shift-invert (K⁻¹={backend}) | "
               f"N={N}, free={nf}, k={k}, ncv={ncv}")
     try:
-        vals, vecs = spla.eigs(T, k=k, which="LM", ncv=ncv, v0=v0)
+        vals, vecs = spla.eigs(T, k=k, which="LR", ncv=ncv, v0=v0)
     except spla.ArpackNoConvergence as e:            # use whatever converged
         vals, vecs = e.eigenvalues, e.eigenvectors
         if vals.size == 0:
-- 
2.43.0


From 24bdbb21986803d124c6b7570c87ee43b44e9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:45 +0000
Subject: [PATCH 19/36] fix: sparse buckling fails with few free DoFs

k is capped at nf - 2 but ncv at nf - 1, violating ARPACK's k + 1 < ncv <= n, so
every solve with nf <= num_modes + 6 raised ValueError.
---
 feax/solvers/eigen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 36e68bc..5aef6ae 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -321,7 +321,7 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
     if k < 1:
         raise BucklingConvergenceError(
             f"too few free DoFs ({nf}) for the sparse eigensolve; use solver='dense'.")
-    ncv = int(min(nf - 1, max(num_matvecs, 2 * k + 1)))
+    ncv = int(min(nf, max(num_matvecs, 2 * k + 1)))
     v0 = onp.random.RandomState(seed).randn(nf)
     if verbose:
         print(f"[buckling/sparse] ARPACK shift-invert (K⁻¹={backend}) | "
-- 
2.43.0


From db1be0538d4a5498f9031208e2ef06cea5e705c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:08 +0000
Subject: [PATCH 20/36] fix: Mesh.from_gmsh drops all but the last block of an
 element type

meshio keeps one cell block per Gmsh entity, so a model with several volumes
lost every volume except the last. Concatenate the blocks.
---
 feax/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index f0f8fbb..5801025 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -114,7 +114,7 @@ class Mesh():
             cell_type = cell_block.type
             if cell_type in meshio_to_feax:
                 feax_type = meshio_to_feax[cell_type]
-                available_types[feax_type] = cell_block.data
+                available_types.setdefault(feax_type, []).append(cell_block.data)
 
         if not available_types:
             raise ValueError(
@@ -141,7 +141,7 @@ class Mesh():
 
         # Extract points and cells
         points = gmsh_mesh.points
-        cells = available_types[element_type]
+        cells = onp.concatenate(available_types[element_type], axis=0)
 
         return Mesh(points, cells, ele_type=element_type)
 
-- 
2.43.0


From 87d5ae7e755770870b80bab0f49b6234bf0722bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:08 +0000
Subject: [PATCH 21/36] fix: cylinder_mesh ignores an axis along -z

The cross product with z vanishes, so the cylinder kept extending along +z.
---
 feax/mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feax/mesh.py b/feax/mesh.py
index 5801025..62b59c9 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -771,6 +771,8 @@ def cylinder_mesh(
                 angle = onp.arccos(onp.dot(z_axis, axis_norm))
                 gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
                                      rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
+            else:  # axis points along -z: no unique rotation axis, turn about x
+                gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0, 1, 0, 0, onp.pi)
 
         gmsh.model.occ.synchronize()
 
-- 
2.43.0


From 017bce393856b3e3a3ccc7ead84b80441b364d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:08 +0000
Subject: [PATCH 22/36] fix: gradient_refinement uses the transposed inverse
 Jacobian

J holds the element edges as rows, so grad(rho) = inv(J) @ drho_ref; a linear
field did not have a constant gradient magnitude.
---
 feax/gene/adaptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index a0c80c9..bdfc5e2 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -177,8 +177,8 @@ def gradient_refinement(rho, mesh):
     rho_e = rho[cells]  # (E, 4)
     drho_ref = rho_e[:, 1:] - rho_e[:, 0:1]  # (E, 3)
 
-    # Physical gradient: grad(rho) = inv(J)^T @ drho_ref
-    grad_rho = onp.einsum('eij,ej->ei', inv_J.transpose(0, 2, 1), drho_ref)
+    # Edges are the rows of J, so drho_ref = J @ grad(rho)
+    grad_rho = onp.einsum('eij,ej->ei', inv_J, drho_ref)
     grad_mag_elem = onp.linalg.norm(grad_rho, axis=1)  # (E,)
 
     # Scatter to nodes (average of surrounding elements)
-- 
2.43.0


From 8446a5cdd941bf2009f1428efb82c53991a1937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:08 +0000
Subject: [PATCH 23/36] fix: interpolate_field falls back to nearest node
 inside the mesh

Only the eight nearest centroids were tried; interior points whose tetrahedron
is not among them silently got a nearest-node value (box_mesh(1, mesh_size=.3):
error 0.15 for a linear field). Search all elements before falling back.
---
 feax/gene/adaptive.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index bdfc5e2..e46a5aa 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -116,7 +116,15 @@ def interpolate_field(values_old, mesh, points_new, clip=None):
                            + hit_lam[:, 1] * node_vals[:, 2]
                            + hit_lam[:, 2] * node_vals[:, 3])
 
-    # Nearest-node fallback for remaining points
+    # Containing element not among the nearest centroids: search all elements
+    for q in onp.where(onp.isnan(values_new))[0]:
+        lam = onp.einsum('eij,ej->ei', inv_T, points_new[q] - v0)   # (E, 3)
+        lam = onp.column_stack([1.0 - lam.sum(axis=1), lam])        # (E, 4)
+        e = onp.argmax(lam.min(axis=1))
+        if lam[e].min() >= -1e-8:
+            values_new[q] = lam[e] @ values_old[cells[e]]
+
+    # Nearest-node fallback for points outside the mesh
     remaining = onp.isnan(values_new)
     if remaining.any():
         node_tree = cKDTree(points_old)
-- 
2.43.0


From f52024974f59a0ac48cb04f39ce41ed35c941852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:57 +0000
Subject: [PATCH 24/36] fix: refine_mesh fails for every quadratic element type

Gmsh's refine() leaves first-order elements; the documented re-promotion was
missing, so TRI6/QUAD8/QUAD9/TET10/HEX20/HEX27 always raised RuntimeError.
---
 feax/mesh.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index 62b59c9..d8c289b 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -861,6 +861,14 @@ _ELE_INFO = {
     'HEX20':  (20, 3),
 }
 
+# Node order of Gmsh's quadratic elements -> meshio/FEAX order (where they differ).
+_GMSH_TO_FEAX_ORDER = {
+    'TET10': [0, 1, 2, 3, 4, 5, 6, 7, 9, 8],
+    'HEX20': [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 9, 16, 18, 19, 17, 10, 12, 14, 15],
+    'HEX27': [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 9, 16, 18, 19, 17, 10, 12, 14, 15,
+              22, 23, 21, 24, 20, 25, 26],
+}
+
 
 def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
     """Uniformly refine a mesh by edge subdivision via Gmsh.
@@ -908,9 +916,9 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
       ``gmsh.model.mesh.refine()`` ``levels`` times, then reads it back.
     * Higher-order elements (``TRI6``/``QUAD8``/``QUAD9``/``TET10``/
       ``HEX20``/``HEX27``) are accepted but Gmsh refines them as their
-      first-order counterpart and re-promotes; node ordering of the
-      newly inserted mid-edge / centre nodes follows Gmsh's convention,
-      which matches meshio.
+      first-order counterpart and re-promotes (mid-edge / centre nodes
+      are the straight midpoints); the node ordering is converted back
+      from Gmsh's to meshio's convention.
     """
     if levels < 0:
         raise ValueError(f"levels must be >= 0, got {levels}")
@@ -975,6 +983,11 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
 
         for _ in range(levels):
             gmsh.model.mesh.refine()
+        if ele_type in ('TRI6', 'QUAD8', 'QUAD9', 'TET10', 'HEX20', 'HEX27'):
+            # refine() leaves first-order elements: promote back.
+            gmsh.option.setNumber("Mesh.SecondOrderIncomplete",
+                                  int(ele_type in ('QUAD8', 'HEX20')))
+            gmsh.model.mesh.setOrder(2)
 
         # Read the refined mesh back.
         node_tags_new, node_coords_new, _ = gmsh.model.mesh.getNodes()
@@ -1003,6 +1016,8 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
             elem_node_tags_new[block_idx], dtype=onp.int64,
         ).reshape(-1, n_nodes_per_cell)
         new_cells = remap[new_cells_1b]
+        if ele_type in _GMSH_TO_FEAX_ORDER:
+            new_cells = new_cells[:, _GMSH_TO_FEAX_ORDER[ele_type]]
 
         # Trim z-padding for 2-D meshes.
         if pts.shape[1] == 2:
-- 
2.43.0


From b3c8423d34933239d6ecf597c3c4a8fa56d11a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:57 +0000
Subject: [PATCH 25/36] fix: save_sol and XDMFWriter write the wrong element
 type

The type was guessed from the node count: QUAD8 meshes were written as
hexahedra, QUAD4 surfaces in 3-D as tetrahedra, and QUAD9/HEX27 were rejected.
Use mesh.ele_type where it fits the mesh.
---
 feax/utils.py | 67 +++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..f1dcbf3 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -14,13 +14,35 @@ import meshio
 import numpy as onp
 
 from feax.DCboundary import DirichletBC
-from feax.mesh import Mesh, get_meshio_cell_type
+from feax.mesh import _ELE_INFO, Mesh, get_meshio_cell_type
 
 if TYPE_CHECKING:
     from feax.problem import Problem
 
 
 
+def _mesh_element_type(mesh: Mesh) -> str:
+    """Element type of ``mesh``: its ``ele_type`` where that fits the cells
+    and the dimension, otherwise (e.g. the default ``ele_type``) inferred
+    from the number of nodes per cell."""
+    n_nodes = mesh.cells.shape[1]
+    n_dim = mesh.points.shape[1]  # 2D or 3D
+
+    ele_type = getattr(mesh, 'ele_type', None)
+    if ele_type in _ELE_INFO:
+        ele_nodes, ele_dim = _ELE_INFO[ele_type]
+        if ele_nodes == n_nodes and ele_dim <= n_dim:
+            return ele_type
+
+    flat = n_dim == 2
+    inferred = {3: 'TRI3', 4: 'QUAD4' if flat else 'TET4', 6: 'TRI6',
+                8: 'QUAD8' if flat else 'HEX8', 9: 'QUAD9', 10: 'TET10',
+                20: 'HEX20', 27: 'HEX27'}
+    if n_nodes not in inferred:
+        raise ValueError(f"Unsupported element type with {n_nodes} nodes per element")
+    return inferred[n_nodes]
+
+
 def save_sol(
     mesh: Mesh,
     sol_file: str,
@@ -46,27 +68,7 @@ def save_sol(
     if cell_infos is None and point_infos is None:
         raise ValueError("At least one of cell_infos or point_infos must be provided.")
 
-    # Get meshio cell type from mesh element type
-    # We need to infer element type from the mesh structure
-    n_nodes_per_element = mesh.cells.shape[1]
-    n_dim = mesh.points.shape[1]  # 2D or 3D
-
-    if n_nodes_per_element == 3:
-        element_type = 'TRI3'
-    elif n_nodes_per_element == 4:
-        element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-    elif n_nodes_per_element == 6:
-        element_type = 'TRI6'
-    elif n_nodes_per_element == 8:
-        element_type = 'HEX8'
-    elif n_nodes_per_element == 10:
-        element_type = 'TET10'
-    elif n_nodes_per_element == 20:
-        element_type = 'HEX20'
-    else:
-        raise ValueError(f"Unsupported element type with {n_nodes_per_element} nodes per element")
-
-    cell_type = get_meshio_cell_type(element_type)
+    cell_type = get_meshio_cell_type(_mesh_element_type(mesh))
 
     # Create output directory if needed
     sol_dir = os.path.dirname(sol_file)
@@ -171,10 +173,13 @@ _XDMF_TOPOLOGY_TYPE = {
     'TRI3': 'Triangle',
     'TRI6': 'Triangle_6',
     'QUAD4': 'Quadrilateral',
+    'QUAD8': 'Quadrilateral_8',
+    'QUAD9': 'Quadrilateral_9',
     'TET4': 'Tetrahedron',
     'TET10': 'Tetrahedron_10',
     'HEX8': 'Hexahedron',
     'HEX20': 'Hexahedron_20',
+    'HEX27': 'Hexahedron_27',
 }
 
 _XDMF_ATTRIBUTE_TYPE = {
@@ -244,23 +249,7 @@ class XDMFWriter:
 
         n_nodes_per_element = mesh.cells.shape[1]
         n_dim = mesh.points.shape[1]
-        if n_nodes_per_element == 3:
-            element_type = 'TRI3'
-        elif n_nodes_per_element == 4:
-            element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-        elif n_nodes_per_element == 6:
-            element_type = 'TRI6'
-        elif n_nodes_per_element == 8:
-            element_type = 'HEX8'
-        elif n_nodes_per_element == 10:
-            element_type = 'TET10'
-        elif n_nodes_per_element == 20:
-            element_type = 'HEX20'
-        else:
-            raise ValueError(
-                f"Unsupported element type with {n_nodes_per_element} "
-                f"nodes per element"
-            )
+        element_type = _mesh_element_type(mesh)
         if element_type not in _XDMF_TOPOLOGY_TYPE:
             raise ValueError(
                 f"Element type {element_type!r} not yet supported in XDMF writer."
-- 
2.43.0


From b9d6855501d8cb092770205a89b58a88ae9c9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 26/36] fix: DensityField gathers element nodes with the
 inverse node permutation

re_order maps mesh order to basix order; gathering cells in basix order needs
its inverse. The two differ for every quadratic element, so densities of TRI6,
QUAD8, QUAD9, TET10 and HEX20 fields were interpolated with permuted nodes.
---
 feax/gene/sdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 5de1488..4ee7682 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -515,7 +515,9 @@ class DensityField(SDF):
         # --- basix element info ---
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
-        self._re_order = onp.array(re_order)
+        # re_order[i] is the basix index of mesh node i; cells are gathered in
+        # basix order, which takes the inverse permutation.
+        self._re_order = onp.argsort(re_order)
         self._element = create_nodal_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
@@ -526,7 +528,7 @@ class DensityField(SDF):
 
         # --- Precompute per-element data ---
         # Node coordinates per element: (E, nodes_per_elem, dim)
-        self._elem_nodes = points[cells[:, re_order]]
+        self._elem_nodes = points[cells[:, self._re_order]]
 
         if self._linear_simplex:
             # Direct barycentric: x = v0 + T @ lam
-- 
2.43.0


From a3ea042a1a40917f88e283def6a29fe93af133f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 27/36] fix: DensityField inverse map uses the transposed
 Jacobian

J[d, k] = dx_k/dxi_d, so the Newton step must solve J^T delta = residual. With
J the iteration fails on every element that is not axis-aligned.
---
 feax/gene/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 4ee7682..c8c86e5 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -627,7 +627,7 @@ class DensityField(SDF):
                 return xi
 
             try:
-                delta = onp.linalg.solve(J, residual)
+                delta = onp.linalg.solve(J.T, residual)
             except onp.linalg.LinAlgError:
                 return None
             xi = xi - delta
@@ -806,8 +806,8 @@ class DensityField(SDF):
                 break
 
             try:
-                # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
-                delta = onp.linalg.solve(J, residual[..., None])[..., 0]
+                # J[n,d,k] = dx_k/dxi_d, so the Newton step solves with J^T
+                delta = onp.linalg.solve(onp.swapaxes(J, 1, 2), residual[..., None])[..., 0]
             except onp.linalg.LinAlgError:
                 return None
             xi = onp.ascontiguousarray(xi - delta)
-- 
2.43.0


From 56ac0fc0fa3dd147ccbddb3f974f81007fca2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:06 +0000
Subject: [PATCH 28/36] fix: DensityField.evaluate accepts unconverged inverse
 maps

The batched Newton iteration returned its last iterate for every point, so a
diverged iterate that happened to land in the reference element produced a
wrong density, and one singular Jacobian dropped the candidate for all points.
Unconverged points are now treated as misses, as in the single-point path.
---
 feax/gene/sdf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index c8c86e5..5143b5b 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -701,8 +701,6 @@ class DensityField(SDF):
 
             # --- Batch inverse map ---
             xi_batch = self._inverse_map_batch(points[idx], ei)
-            if xi_batch is None:
-                continue
 
             # --- Containment check ---
             inside = _inside_ref_element_batch(xi_batch, self._basix_ele)
@@ -772,7 +770,8 @@ class DensityField(SDF):
     def _inverse_map_batch(self, pts, ei):
         """Batch inverse mapping for ``pts`` (N, dim) into elements ``ei``.
 
-        Returns reference coordinates ``(N, dim)`` or None.
+        Returns reference coordinates ``(N, dim)``; rows for which Newton
+        did not converge are NaN.
         Uses basix-ordered node coordinates and raw (basix-ordered)
         shape functions — no re-ordering needed since both match.
         """
@@ -801,17 +800,21 @@ class DensityField(SDF):
             J = onp.einsum('dnj,njk->ndk', dN, elem_pts)  # (N, dim, dim)
 
             residual = x_current - pts  # (N, dim)
-            max_res = onp.max(onp.linalg.norm(residual, axis=1))
-            if max_res < self._newton_tol:
+            res_norm = onp.linalg.norm(residual, axis=1)
+            if onp.max(res_norm) < self._newton_tol:
                 break
 
             try:
                 # J[n,d,k] = dx_k/dxi_d, so the Newton step solves with J^T
                 delta = onp.linalg.solve(onp.swapaxes(J, 1, 2), residual[..., None])[..., 0]
             except onp.linalg.LinAlgError:
-                return None
+                # A singular Jacobian at one point must not drop the others
+                single = [self._inverse_map_single(p, e) for p, e in zip(pts, ei)]
+                return onp.array([onp.full(self._dim, onp.nan) if x is None else x
+                                  for x in single])
             xi = onp.ascontiguousarray(xi - delta)
 
+        xi[~(res_norm < 1e-6)] = onp.nan  # not converged
         return xi
 
     def _shape_vals_batch(self, xi_batch):
-- 
2.43.0


From 2e757ec5f09295e4f031959cfd629f2d40bdaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 29/36] fix: DensityField misses the containing element on
 graded meshes

Only the 16 nearest centroids were tried; interior points of stretched or graded
meshes (already a uniform 30x2 TRI3 grid) got clamped or nearest-node densities.
Search the elements whose bounding box contains the point before falling back.
---
 feax/gene/sdf.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 5143b5b..a7729ae 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -548,6 +548,10 @@ class DensityField(SDF):
         self._centroid_tree = cKDTree(self._centroids)
         self._node_tree = cKDTree(points)
         self._n_candidates = min(16, len(cells))
+        box_lo = self._elem_nodes.min(axis=1)
+        box_hi = self._elem_nodes.max(axis=1)
+        pad = 0.25 * (box_hi - box_lo)  # curved sides bulge out of the nodal box
+        self._box_lo, self._box_hi = box_lo - pad, box_hi + pad
 
     # -- Single-point evaluation ---------------------------------------------
 
@@ -581,6 +585,10 @@ class DensityField(SDF):
                 best_xi = xi
                 best_ei = ei
 
+        density = self._search_boxes(p)
+        if density is not None:
+            return density
+
         # No exact hit — use the closest element if Newton converged nearby
         if best_xi is not None and best_dist < 0.5:
             xi_clamped = self._clamp_to_ref(best_xi)
@@ -596,6 +604,22 @@ class DensityField(SDF):
         _, ni = self._node_tree.query(p)
         return float(self._rho[ni])
 
+    def _search_boxes(self, p):
+        """Density at *p* from any element whose bounding box contains it.
+
+        The containing element need not be among the nearest centroids
+        (graded or stretched meshes).  Returns None outside the mesh.
+        """
+        ei = onp.where(onp.all((p >= self._box_lo) & (p <= self._box_hi), axis=1))[0]
+        if len(ei) == 0:
+            return None
+        xi = self._inverse_map_batch(onp.tile(p, (len(ei), 1)), ei)
+        hit = onp.where(_inside_ref_element_batch(xi, self._basix_ele))[0]
+        if len(hit) == 0:
+            return None
+        N = self._shape_vals_batch(xi[hit[:1]])[0]
+        return float(N @ self._rho[self._cells[ei[hit[0]]][self._re_order]])
+
     def _inverse_map_single(self, p, ei):
         """Map physical point *p* to reference coords for element *ei*.
 
@@ -730,6 +754,11 @@ class DensityField(SDF):
                 best_xi[upd] = miss_xi[better]
                 best_ei[upd] = miss_ei[better]
 
+        for q in onp.where(onp.isnan(densities))[0]:
+            density = self._search_boxes(points[q])
+            if density is not None:
+                densities[q] = density
+
         # Fallback: use clamped shape-function interpolation for near-misses
         remaining = onp.isnan(densities)
         if remaining.any():
-- 
2.43.0


From ecc646189e62200bc713463733362061aeba2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:22 +0000
Subject: [PATCH 30/36] fix: DensityField extends the solid half an element
 beyond the mesh

With close_boundary=True points outside the mesh are documented to be void, but
near-misses (reference distance < 0.5) were clamped to the boundary density
first: a 2x2x2 unit cube of density 1 closed at [-0.21, 1.21]. Apply the
bounding-box test before the near-miss fallback.
---
 feax/gene/sdf.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index a7729ae..2b61988 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -562,6 +562,9 @@ class DensityField(SDF):
 
     def _interpolate_single(self, p: onp.ndarray) -> float:
         """Interpolate density at a single point."""
+        if self._close_boundary and self._outside_domain(p[None])[0]:
+            return 0.0
+
         _, cands = self._centroid_tree.query(p, k=self._n_candidates)
         if self._n_candidates == 1:
             cands = [cands]
@@ -597,13 +600,15 @@ class DensityField(SDF):
             return float(N @ node_vals)
 
         # Truly outside the mesh
-        if self._close_boundary:
-            margin = (self._hi - self._lo) * 0.01
-            if onp.any(p < self._lo - margin) or onp.any(p > self._hi + margin):
-                return 0.0
         _, ni = self._node_tree.query(p)
         return float(self._rho[ni])
 
+    def _outside_domain(self, pts):
+        """Points beyond the bounding box of the mesh (with a 1 % margin)."""
+        margin = (self._hi - self._lo) * 0.01
+        return (onp.any(pts < self._lo - margin, axis=1)
+                | onp.any(pts > self._hi + margin, axis=1))
+
     def _search_boxes(self, p):
         """Density at *p* from any element whose bounding box contains it.
 
@@ -710,6 +715,8 @@ class DensityField(SDF):
             cand_all = cand_all[:, None]
 
         densities = onp.full(n_query, onp.nan)
+        if self._close_boundary:
+            densities[self._outside_domain(points)] = 0.0
         # Track best near-miss per point for fallback interpolation
         best_dist = onp.full(n_query, onp.inf)
         best_xi = onp.zeros((n_query, dim))
@@ -781,18 +788,8 @@ class DensityField(SDF):
                 densities[close_idx] = onp.einsum('hj,hj->h', N_batch, node_vals)
 
             if len(far_idx) > 0:
-                far_pts = points[far_idx]
-                if self._close_boundary:
-                    margin = (self._hi - self._lo) * 0.01
-                    outside = (onp.any(far_pts < self._lo - margin, axis=1)
-                               | onp.any(far_pts > self._hi + margin, axis=1))
-                    _, ni = self._node_tree.query(far_pts)
-                    vals = self._rho[ni]
-                    vals[outside] = 0.0
-                    densities[far_idx] = vals
-                else:
-                    _, ni = self._node_tree.query(far_pts)
-                    densities[far_idx] = self._rho[ni]
+                _, ni = self._node_tree.query(points[far_idx])
+                densities[far_idx] = self._rho[ni]
 
         return self._threshold - densities
 
-- 
2.43.0


From 4bd054fa86ea00f3f61f2ed82589892fcaa9916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:55 +0000
Subject: [PATCH 31/36] fix: from_vtk cannot read planar meshes

VTK files always carry three coordinates, so DensityField raised LinAlgError for
TRI3 and interpolated with singular maps for TRI6, QUAD4 and QUAD8.
---
 feax/gene/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 2b61988..b3d065b 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -975,6 +975,10 @@ def from_vtk(
             f"Supported: {list(_MESHIO_TO_FEAX.keys())}"
         )
 
+    # VTK stores planar meshes with a zero third coordinate
+    if ele_type in ('TRI3', 'TRI6', 'QUAD4', 'QUAD8'):
+        points = points[:, :2]
+
     from feax.mesh import Mesh
     mesh = Mesh(points, cells, ele_type=ele_type)
 
-- 
2.43.0


From 440c70939554e57c469cffc69d4313cfa53f0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:51 +0000
Subject: [PATCH 32/36] fix: SDF.to_volume_mesh always failed (not a gmsh
 keyword)

---
 feax/gene/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index b3d065b..55a466a 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -236,7 +236,7 @@ class SDF(ABC):
         gmsh.model.mesh.classifySurfaces(
             angle=40 * 3.14159265 / 180,
             boundary=True,
-            forceParametrizablePatches=True,
+            forReparametrization=True,
         )
         gmsh.model.mesh.createGeometry()
 
-- 
2.43.0


From 5d0011618f5e0e46433406df493470d184006d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:55 +0000
Subject: [PATCH 33/36] fix: constraints of the old mesh were evaluated after a
 remesh that kept the node count

---
 feax/gene/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index d36c037..08b7c57 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -29,6 +29,7 @@ result = run(MyPipeline(), mesh, max_iter=300)
 from __future__ import annotations
 
 import csv
+import functools
 import os
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
@@ -256,7 +257,9 @@ def _compile(pipeline, constraints, use_jit):
 
     compiled_constraints = []
     for name, method, target, ctype in constraints:
-        fn_jit = wrap(method)
+        # A new function each time: jit shares traces between equal bound
+        # methods, which would outlive a rebuild of the pipeline.
+        fn_jit = wrap(functools.partial(method))
         grad_fn = wrap(jax.grad(method))
         compiled_constraints.append((name, fn_jit, grad_fn, target, ctype))
 
-- 
2.43.0


From 090ab6ed4e026f9f18144dbcb4c1357e5e7d79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 34/36] fix: distributed.initialize ignored the coordinator
 port set by the launcher

---
 feax/distributed/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index c463e46..45e1d37 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -26,8 +26,8 @@ import jax
 def initialize():
     """Initialize JAX distributed runtime from environment variables.
 
-    Reads JAX_COORD_ADDR, JAX_NUM_PROCESSES, and JAX_PROCESS_ID from
-    the environment. If JAX_COORD_ADDR is not set, does nothing
+    Reads JAX_COORD_ADDR, JAX_COORD_PORT (default 1234), JAX_NUM_PROCESSES,
+    and JAX_PROCESS_ID from the environment. If JAX_COORD_ADDR is not set, does nothing
     (single-node mode).
 
     Returns:
@@ -36,7 +36,7 @@ def initialize():
     coord = os.environ.get("JAX_COORD_ADDR")
     if coord:
         jax.distributed.initialize(
-            coordinator_address=f"{coord}:1234",
+            coordinator_address=f"{coord}:{os.environ.get('JAX_COORD_PORT', '1234')}",
             num_processes=int(os.environ["JAX_NUM_PROCESSES"]),
             process_id=int(os.environ["JAX_PROCESS_ID"]),
         )
-- 
2.43.0


From 54131d2d0442eef4be7d748f915f2e22663c1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 35/36] fix: worker nodes were launched without the script's
 arguments

---
 feax/distributed/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 45e1d37..9fe072e 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -17,6 +17,7 @@ Usage as CLI launcher:
 """
 
 import os
+import shlex
 import subprocess
 import sys
 
@@ -141,7 +142,7 @@ def _launch(config_path, script, script_args):
             f" -e JAX_COORD_PORT={port}"
             f" -e JAX_NUM_PROCESSES={num_processes}"
             f" -e JAX_PROCESS_ID={i}"
-            f" {container} python3 -"
+            f" {container} python3 - {shlex.join(script_args)}"
         )
         ssh_cmd.append(docker_cmd)
 
-- 
2.43.0


From eaf6d649cd1f2ee10984a02f187a1edaa9e8aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 36/36] fix: the tangent of conditional surface loads was
 dropped when inactive at the probed states

---
 feax/assembler.py | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 45cb824..e078bd4 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1325,12 +1325,11 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     """Probe whether every surface load is u-independent (a 'dead' load), i.e.
     its contribution to the tangent stiffness is identically zero.
 
-    Returns ``True`` only when the surface residual does not use ``u`` (a NaN
-    state leaves it finite) and the assembled surface Jacobian is exactly zero at
-    two distinct nonzero displacement patterns — the usual case for Neumann
-    tractions / pressures that do not follow the deformation. Configuration
-    (``u``-)dependent 'follower' loads, or any probing error, return ``False``
-    (keep the surface term — correct, just not the fast path).
+    Returns ``True`` only when the surface residual does not use ``u`` — the
+    usual case for Neumann tractions / pressures that do not follow the
+    deformation. Configuration (``u``-)dependent 'follower' loads, or any probing
+    error, return ``False`` (keep the surface term — correct, just not the fast
+    path).
 
     When ``True``, :func:`_get_J_csr` drops the surface Jacobian term. Besides
     saving a zero assembly, this removes the operator's trace dependence on
@@ -1343,29 +1342,18 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     if not getattr(src, 'boundary_inds_list', None):
         return False
     try:
-        n = problem.num_total_dofs_all_vars
-        # NaN propagates through any arithmetic use of u, also where the sample
-        # ``surface_vars`` (e.g. a zero Robin coefficient) hide the dependence.
-        cells_nan = np.concatenate(
-            [np.full((cells.shape[0], cells.shape[1] * fe.vec), np.nan)
+        from jax.interpreters.partial_eval import dce_jaxpr
+
+        # Structural test: after dead-code elimination the surface residual must
+        # not read ``u`` at all, so no state or parameter value (a zero Robin
+        # coefficient, an inactive ``where`` branch) can hide a dependence.
+        cells_sol_flat = np.concatenate(
+            [np.zeros((cells.shape[0], cells.shape[1] * fe.vec))
              for cells, fe in zip(src.cells_list, problem.fes)], axis=1)
-        for val in compute_face(problem, cells_nan, False,
-                                traced_params.surface_vars, ts):
-            if not bool(np.all(np.isfinite(val))):
-                return False
-        # Two asymmetric nonzero patterns: a genuinely u-dependent map is
-        # vanishingly unlikely to have an exactly-zero tangent at both.
-        for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
-            sol_list = problem.unflatten_fn_sol_list(sol_flat)
-            cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
-            cells_sol_flat = jax.vmap(
-                lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
-            _, jacs = compute_face(problem, cells_sol_flat, True,
-                                   traced_params.surface_vars, ts)
-            for j in jacs:
-                if float(np.max(np.abs(j))) != 0.0:
-                    return False
-        return True
+        jaxpr = jax.make_jaxpr(lambda c: compute_face(
+            problem, c, False, traced_params.surface_vars, ts))(cells_sol_flat).jaxpr
+        _, used = dce_jaxpr(jaxpr, [True] * len(jaxpr.outvars))
+        return not any(used)
     except Exception:
         return False
 
-- 
2.43.0

