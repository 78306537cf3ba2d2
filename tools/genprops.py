import json
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p("C01", "Dirichlet conditions constrain exactly the selected unknowns",
  "Compiling a list of boundary-condition specifications constrains exactly the unknowns (selected nodes x selected "
  "components x selected variables) with the value given at each node's coordinates, the earliest specification winning "
  "on overlap. Applying them turns each constrained residual entry into current-minus-prescribed value and each "
  "constrained matrix row into an identity row (and, for symmetric elimination, its column too), and leaves every other "
  "residual and matrix entry untouched, for full and triangular storage.",
  ["inputs", "configurations"], "all meshes, variables, specs (overlapping, multi-variable, empty), all field values",
  "tests use a handful of plate/cube setups with one or two specs", ["feax/DCboundary.py"],
  [("row/column elimination on CSR data", "feax/DCboundary.py:apply_boundary_to_J_csr"),
   ("residual rows", "feax/DCboundary.py:apply_boundary_to_res"),
   ("specification compiler", "feax/DCboundary.py:DirichletBCConfig.create_bc")])
p("C02", "The assembled residual is the discrete weak form of the user's physics",
  "For every mesh, element type, number of variables and every user-supplied physics (stress/energy/source maps, "
  "multi-variable weak forms, boundary loads, custom kernels), each entry of the assembled residual equals the sum over "
  "cells and boundary faces of the quadrature of that physics against the corresponding test function. Coefficient "
  "fields stored per node, per cell or per quadrature point are evaluated at the quadrature points by interpolation, "
  "broadcast or directly (a length matching both counts is nodal), and boundary coefficients belong to their own boundary. The result does not depend on how "
  "many cells there are per internal batch or on whether structural arrays are baked in or passed in.",
  ["inputs", "programs", "configurations"],
  "all fields, coefficients, geometry values and all physics functions; enumerated element types/connectivities",
  "a test fixes one physics and one mesh; the user's physics is an arbitrary function",
  ["feax/assembler.py", "feax/problem.py", "feax/traced_structure.py"],
  [("element kernels", "feax/assembler.py:create_volume_kernel"), ("surface kernels", "feax/assembler.py:create_surface_kernel"),
   ("scatter", "feax/assembler.py:compute_residual_vars_helper"), ("batched scan", "feax/assembler.py:_scan_vmap_batched")])
p("C03", "The assembled tangent is the exact derivative of the residual on every path",
  "For every physics, the assembled tangent matrix equals the derivative of the assembled residual with respect to the "
  "unknowns at the given state, in full storage, and its upper/lower triangle in triangular storage. The fused "
  "residual-and-tangent assembly, the batched assembly, the matrix-free products and transpose products, the boundary-"
  "conditioned variants and the gradient of the total energy all agree with it.",
  ["inputs", "programs", "configurations"], "all states, coefficients and physics functions; enumerated meshes",
  "tests compare a few physics numerically at single states",
  ["feax/assembler.py", "feax/problem.py"],
  [("element tangents", "feax/assembler.py:_value_and_jacfwd"), ("CSR slots", "feax/problem.py:_build_csr_assembly_structure"),
   ("matrix-free operator", "feax/assembler.py:create_matfree_res_J_parametric"),
   ("energy", "feax/assembler.py:create_energy_fn")])
p("C04", "Sparse operators agree with dense linear algebra",
  "Products, transpose products, transposes, diagonals and dense conversion of the library's sparse matrices equal those "
  "of the dense matrix they represent, also under batching. Sparse assembly from a detected sparsity pattern and the "
  "transposition through precomputed maps reproduce the dense derivative / transpose entry by entry.",
  ["inputs", "configurations"], "all values; enumerated patterns incl. empty rows, duplicates-free, rectangular",
  "tests only touch FE-shaped symmetric patterns", ["feax/csr.py", "feax/asd.py", "feax/problem.py"],
  [("CSR algebra", "feax/csr.py:CSRMatrix"), ("transpose maps", "feax/csr.py:transpose_with_maps"),
   ("sparse differentiation", "feax/asd.py")])
p("C05", "Element interpolation, geometry and quadrature are exact",
  "For every supported element type the shape functions interpolate at the element's nodes (one at their own node, zero "
  "at the others), sum to one and reproduce their polynomial space; their physical gradients, volume weights and boundary "
  "weights are the true derivatives, volume and surface measures of the mapped element. Boundary selection returns "
  "exactly the faces all of whose vertices satisfy the location predicate, and a default quadrature rule integrates "
  "constants and linear fields exactly on affine elements.",
  ["inputs", "configurations"], "all vertex positions with positive volume; all element types",
  "tests use undistorted unit meshes and a few element types", ["feax/basis.py", "feax/fe.py"],
  [("tabulation and reordering", "feax/basis.py:get_shape_vals_and_grads"), ("face data", "feax/basis.py:get_face_shape_vals_and_grads"),
   ("geometry", "feax/fe.py:FiniteElement.get_shape_grads"), ("Nanson scale", "feax/fe.py:FiniteElement.get_face_shape_grads"),
   ("face selection", "feax/fe.py:FiniteElement.get_boundary_conditions_inds")])
p("C06", "Linear solves satisfy the discrete equations and differentiate exactly",
  "For a linear problem the returned field makes the boundary-conditioned residual vanish and takes the prescribed values, "
  "whatever starting guess, solver back end, matrix storage, sparse/matrix-free operator or boundary-value override is "
  "used. Derivatives of any functional of the solution with respect to coefficient fields, boundary loads and prescribed "
  "values equal the derivatives of the exact discrete solution.",
  ["inputs", "configurations"], "all coefficients/loads/boundary values/guesses; the enumerated back ends",
  "tests sample a few parameter values and mostly homogeneous boundary values",
  ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/common.py"],
  [("forward solve", "feax/solvers/linear.py"), ("adjoint", "feax/solvers/linear.py"), ("dispatch", "feax/solver.py:create_solver")])
p("C07", "Newton solves return a root and differentiate it exactly",
  "When a nonlinear solve reports convergence the boundary-conditioned residual norm is within the requested tolerance and "
  "the prescribed values hold, the iteration and line-search controls honour their options, and the same root is obtained "
  "from different admissible back ends and matrix storages. Gradients with respect to coefficients, boundary loads and "
  "prescribed values are those given by the implicit function theorem at that root.",
  ["inputs", "configurations"], "all coefficients and boundary values in the basin; enumerated options and physics",
  "tests check a few hyperelastic problems", ["feax/solvers/newton.py", "feax/solver.py"],
  [("Newton loop", "feax/solvers/newton.py"), ("line search", "feax/solvers/newton.py"), ("adjoint", "feax/solvers/newton.py")])
p("C08", "Periodic and cyclic reductions tie exactly the paired unknowns",
  "The prolongation built from periodic (or cyclic) pairings maps each reduced vector to a full vector in which every slave "
  "unknown equals its (rotated) master, independent unknowns are copied once, and chained pairings (edges, corners) resolve "
  "to one representative. Solving in the reduced space returns a full field that satisfies the pairing and whose residual is "
  "orthogonal to all admissible variations, differentiates exactly, and inconsistent prescribed values on paired unknowns "
  "are rejected.",
  ["inputs", "configurations"], "all pairings on box cells of any size/origin and all reduced vectors",
  "tests use a unit cell at the origin", ["feax/flat/pbc.py", "feax/solvers/reduced.py", "feax/flat/unitcell.py"],
  [("prolongation", "feax/flat/pbc.py:prolongation_matrix"), ("3-D pairing", "feax/flat/pbc.py:periodic_bc_3D"),
   ("reduced solve", "feax/solvers/reduced.py")])
p("C09", "Homogenization returns the effective stiffness of the unit cell",
  "For a macroscopic strain the affine displacement has exactly that strain, the averaged stress is the volume average of "
  "the point-wise stress, and the homogenized matrix maps Voigt strain to averaged Voigt stress with a consistent component "
  "order and shear factor. A homogeneous cell returns its own stiffness, and the result is symmetric, bounded by the "
  "arithmetic average and differentiable with respect to the coefficient field.",
  ["inputs", "configurations"], "all stiffness values and strains; enumerated cell meshes", "tests check one isotropic cell in 3-D",
  ["feax/flat/solver.py", "feax/flat/utils.py"],
  [("macro displacement", "feax/flat/solver.py"), ("average stress", "feax/flat/solver.py"), ("post-processing", "feax/flat/utils.py")])
p("C10", "Solution, parameter and structure containers are lossless views",
  "Splitting a flat solution into fields and components, packing fields back, and passing solutions, coefficient containers, "
  "boundary conditions or structure containers through JAX transformations preserves every value and its position (variable-"
  "major, node-major, component-minor). Coefficient constructors sample their function at the documented points, replacing "
  "one coefficient changes only that one, and batched containers behave element-wise.",
  ["inputs", "configurations"], "all values; enumerated layouts (variables, components, batch axes, surfaces)",
  "tests check one or two layouts", ["feax/solution.py", "feax/traced_params.py", "feax/traced_structure.py", "feax/utils.py"],
  [("Solution", "feax/solution.py"), ("TracedParams", "feax/traced_params.py"), ("zero-like guesses", "feax/utils.py")])
p("C11", "Structured-grid and narrow-band index maps are consistent bijections",
  "On a structured grid of any size, node and cell numbering, cell corners, active sets and their compressed numbering are "
  "mutually inverse, and gathering to / scattering from a narrow band or sparse design touches exactly the active entries "
  "and is the transpose of each other. Restricting an operator to the active band equals restricting the full operator, and "
  "band growth keeps every active cell and its values.",
  ["inputs", "configurations"], "all grid sizes (symbolic) and all active sets (enumerated/random), all values",
  "tests use a few cubes", ["feax/spgrid.py", "feax/narrowband.py", "feax/gene/narrowband.py"],
  [("numbering", "feax/spgrid.py:StructuredGrid"), ("sparse design", "feax/spgrid.py"), ("narrow band", "feax/narrowband.py")])
p("C12", "The structured multigrid solver solves the same elasticity problem",
  "The matrix-free structured elasticity operator equals the assembled stiffness of the same (sorted) active voxels, is symmetric, and "
  "respects fully fixed support nodes; restriction is the transpose of prolongation and prolongation preserves constant fields. The solver "
  "returns a field satisfying the equilibrium equations to tolerance and compliance sensitivities equal the true "
  "derivatives for every density field.",
  ["inputs", "configurations"], "all densities, loads, supports; small enumerated grids", "tests check a few voxel boxes",
  ["feax/solvers/cmg.py"], [("element stiffness", "feax/solvers/cmg.py"), ("transfers", "feax/solvers/cmg.py"), ("PCG", "feax/solvers/cmg.py")])
p("C13", "Design filters, projections and responses compute their definitions",
  "Density filters return, for every design, the normalized weighted average over the neighbourhood (bounds and constants "
  "preserved, linear in the design); projections map [0,1] monotonically into [0,1], are 1/2 at the threshold and tend to the step as the sharpness grows; volume, compliance and related "
  "responses equal their integrals for node-, cell- and quadrature-wise designs, with exact gradients. The "
  "Helmholtz filter (linear elements) preserves constants and total mass.",
  ["inputs", "configurations"], "all designs, radii, sharpness values; enumerated meshes", "tests barely cover filters and responses",
  ["feax/gene/filters.py", "feax/gene/responses.py"],
  [("density filter", "feax/gene/filters.py"), ("Heaviside", "feax/gene/filters.py"), ("responses", "feax/gene/responses.py")])
p("C14", "Design updates honour bounds, move limits, targets and schedules",
  "Every optimality-criteria style update keeps each design variable within its bounds and move limit, moves down the "
  "objective for negative sensitivities, and meets the volume target when it is attainable within those limits. Schedules return their start value "
  "before, their end value after and monotone values in between, constraint declarations are translated to equivalent "
  "inequalities, and Lagrangian formulations ascend in multipliers while descending in design.",
  ["inputs", "histories"], "all designs, sensitivities, limits and iteration counts", "no direct tests",
  ["feax/gene/optimizer.py", "feax/gene/mdmm.py", "feax/gene/narrowband.py"],
  [("OC bisection", "feax/gene/narrowband.py"), ("continuation", "feax/gene/optimizer.py"), ("multipliers", "feax/gene/mdmm.py")])
p("C15", "Anisotropic stiffness and laminate relations obey their tensor laws",
  "Stiffness tensors built from engineering constants invert to the compliance those constants define, have minor and major "
  "symmetries, and transform under rotation as fourth-order tensors (identity, composition and inverse rotations included). "
  "Laminate stiffnesses are the through-thickness integrals of the rotated plies, thermal loads vanish for zero temperature "
  "change, and plate kinematics return the stated strains for every displacement field.",
  ["inputs"], "all engineering constants, angles, stackings, strains", "no tests for composites or shells",
  ["feax/mechanics/copv.py", "feax/mechanics/shell.py", "feax/mechanics/__init__.py"],
  [("stiffness", "feax/mechanics/"), ("ABD", "feax/mechanics/shell.py")])
p("C16", "Orientation and layered-element maps preserve their invariants",
  "Orientation parameterizations always return directions of length at most one and symmetric orientation tensors with "
  "admissible diagonal and trace at most one that reproduce the intended direction; closures satisfy symmetry and trace contraction "
  "and are exact for aligned and (where designed) random states, and orientation averaging is linear in them. Layered "
  "elements integrate every ply of the through-thickness stack exactly, so that their residual is the sum over plies, and "
  "reduce to the ordinary solid for identical layers.",
  ["inputs"], "all angles/parameters/stackings", "no tests", ["feax/mechanics/orientation.py", "feax/mechanics/layered_solid_element.py"],
  [("orientation", "feax/mechanics/orientation.py"), ("layered", "feax/mechanics/layered_solid_element.py")])
p("C17", "Interface and contact energies have the stated strength, toughness and limits",
  "Cohesive potentials vanish at zero opening, have the stated peak traction and dissipate exactly the stated toughness at "
  "full separation, never decreasing with opening, irreversible under unloading (the remembered opening never decreases), and their interface forces are equal and "
  "opposite, the interface energy being the weighted sum over node pairs. The third-medium regularization vanishes for affine "
  "deformations and has the stated virtual work, linear in its coefficients.",
  ["inputs", "histories"], "all openings/histories and parameters", "no tests", ["feax/mechanics/cohesive.py", "feax/mechanics/tmc.py"],
  [("potential", "feax/mechanics/cohesive.py"), ("regularization", "feax/mechanics/tmc.py")])
p("C18", "Time integration follows its scheme over the whole requested interval",
  "Each explicit step equals its Runge-Kutta formula for every right-hand side, and each implicit step is one solve with the "
  "parameters the user prepared for that step, started from the previous state; a run covers the interval exactly to the end time, never overshoots, calls its callbacks "
  "and saves at the stated steps, and adaptive steps stay within their limits.",
  ["inputs", "histories"], "all right-hand sides, step sizes, end times", "two tests", ["feax/solvers/time_solver.py"],
  [("schemes", "feax/solvers/time_solver.py"), ("run loop", "feax/solvers/time_solver.py")])
p("C19", "Eigenvalue and buckling results satisfy their generalized eigenproblem",
  "Returned eigenpairs satisfy the generalized problem of the assembled matrices on the free unknowns with the stated "
  "normalization (unit modal stiffness), are the lowest positive load factors in ascending order (infinite with a zero mode when fewer exist), "
  "vanish on constrained unknowns, and the gradients with respect to coefficients are the derivatives of the load factors; "
  "the dense and sparse solvers agree.",
  ["inputs", "configurations"], "all coefficients; enumerated meshes/options", "four tests on one beam", ["feax/solvers/eigen.py"],
  [("eigen solve", "feax/solvers/eigen.py")])
p("C20", "Meshes are conforming and field transfer and output keep every value",
  "Mesh generators return positively oriented conforming cells that tile the requested domain with the stated counts, "
  "order and element type. Writing fields and meshes stores every node, cell and field value under the right element type, and transferring fields between tetrahedral meshes reproduces linear fields.",
  ["inputs", "configurations"], "all sizes and divisions, all fields", "nine tests on default sizes", ["feax/mesh.py", "feax/utils.py", "feax/gene/adaptive.py"],
  [("generators", "feax/mesh.py"), ("writers", "feax/utils.py"), ("transfer", "feax/gene/adaptive.py")])
p("C21", "Implicit geometry and lattice fields follow their set algebra",
  "Inside the mesh a density field evaluates to the threshold minus the finite element interpolant of the nodal densities, for "
  "every element type, mesh distortion and both evaluation paths, and to void outside when its boundary is closed; unions, intersections "
  "and differences of signed fields obey the set laws pointwise and extracted surfaces lie on the level set. A lattice function is one exactly at the points "
  "within the radius of some edge segment and lattice densities take the two stated values accordingly. Unit-cell corners, edges and faces are "
  "classified by the bounding planes they lie on, and the maps between opposite boundaries send each point to its periodic image.",
  ["inputs"], "all points, node positions, radii, operands and boxes; density fields on enumerated meshes with random densities", "no tests",
  ["feax/gene/sdf.py", "feax/flat/graph.py", "feax/flat/unitcell.py", "feax/flat/utils.py"],
  [("density field", "feax/gene/sdf.py:DensityField"), ("set algebra", "feax/gene/sdf.py:Union"), ("lattice", "feax/flat/graph.py:universal_graph"), ("unit cell", "feax/flat/unitcell.py:UnitCell.mapping")])
p("C22", "Instrumentation, switches and launch never change what is computed",
  "The profiling tools return exactly what the measured function returns: timing calls it the stated number of times and records each run, the "
  "step-by-step Newton profile performs Newton's method on the given residual and tangent, records the norm of every iterate and "
  "reports convergence exactly when the last norm is below the tolerance, and traced reports count the function's operations and captured constants. The precision, "
  "preallocation and constant-folding switches take the documented values, keep the user's own XLA flags and apply at import. The cluster launcher starts one process "
  "per node with a distinct rank and gives all of them the configured coordinator, port, process count, script and arguments, which initialisation uses; "
  "without a coordinator nothing is initialised.",
  ["inputs", "history"], "all residual maps, tangents and tolerances (unrolled iteration counts); switch spellings and cluster configurations enumerated", "no tests",
  ["feax/profiler.py", "feax/__init__.py", "feax/distributed/__init__.py"],
  [("Newton profile", "feax/profiler.py:profile_solver_py"), ("timing", "feax/profiler.py:time_fn"), ("precision", "feax/__init__.py:x64_enabled"), ("launcher", "feax/distributed/__init__.py:_launch")])
if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    have = [x["id"] for x in P if os.path.exists(os.path.join(here, "fv", "props", x["id"].lower() + ".py"))]
    meta = json.load(open(os.path.join(here, "fv", "props", "meta.json")))
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for x in P:
        if x["id"] in have:
            m = meta.get(x["id"], {})
            man["checks"].append({
                "property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough",
                "technique": m.get("technique", "contracts on the real functions; VCs from the traced jaxpr discharged by ring normal form and z3"),
                "level": m.get("level", "proof"),
                "level_note": m.get("note", "universal in values and physics; shapes/connectivities enumerated; machine arithmetic treated as real; bounded stand-ins labelled in the evidence")})
        else:
            man["not_applicable"].append({"property": x["id"], "reason": "no check built yet"})
    json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
