"""C06: linear solves satisfy the discrete equations and differentiate exactly."""
import dataclasses
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, solvlib as S
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

L = "feax/solvers/linear.py:"
CM = "feax/solvers/common.py:"
OP = "feax/solvers/options.py:"
DI = "feax/solvers/direct/"


class Case:
    """a small affine problem with symbolic coefficients; vars = (k per cell, source f, robin data per face)"""

    def __init__(self, ele, ns, vec=1, view="FULL", sym=False, seed=1, surface=True, nvar=1):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        self.view, self.vec = view, vec
        d = F.DIM[ele]
        m = X.mesh(ele, ns, seed=seed, distort=0.05)
        A = np.random.RandomState(3).uniform(-.3, .3, size=(vec * d, vec * d)) + np.eye(vec * d)
        A = jnp.asarray(A + A.T if sym else A)
        f_mass = lambda u, x, k, f: 0.3 * u + f * x[0]
        f_ten = lambda g, k, f: k * (A @ g.ravel()).reshape(vec, d)
        maps = {}
        if nvar == 1:
            maps["get_mass_map"] = f_mass
            maps["get_tensor_map"] = f_ten
            if surface:
                maps["get_surface_maps"] = [lambda u, x, t, beta: beta * u - t]
            self.p = X.make_problem(m, vec, d, ele, maps, matrix_view=view,
                                    location_fns=[lambda p: p[0] >= 0.85] if surface else None)
        else:
            def weak(v, g, x, k, f):
                return ([0.3 * v[0] + 0.2 * v[1] + f, v[1] * 0.5 + 0.1 * v[0]],
                        [k * g[0] + 0.1 * g[1], (1 + k) * g[1]])
            maps["get_weak_form"] = weak
            if surface:
                maps["get_surface_weak_forms"] = [lambda v, x, t, beta: [beta * v[0] - t * jnp.ones(1), 0.0 * v[1] + t * jnp.ones(1)]]
            self.p = X.make_problem([m, m], [1, 1], d, [ele, ele], maps, matrix_view=view,
                                    location_fns=[lambda p: p[0] >= 0.85] if surface else None)
        self.bc = DirichletBCConfig([DirichletBCSpec(lambda p: p[0] < 0.15, 0, 0.7)]).create_bc(self.p)
        if vec > 1:
            self.bc = DirichletBCConfig([DirichletBCSpec(lambda p: p[0] < 0.15, 0, 0.7),
                                         DirichletBCSpec(lambda p: p[0] < 0.15, 1, -0.2)]).create_bc(self.p)
        self.n = self.p.num_total_dofs_all_vars
        self.nc = self.p.num_cells
        self.sshape = np.shape(self.p.nanson_scale[0])[:1] + np.shape(self.p.nanson_scale[0])[-1:] if surface else None
        self.surface = surface
        self.rows = np.asarray(self.bc.bc_rows)

    def tp(self, k, f, t, beta):
        from feax.traced_params import TracedParams
        return TracedParams(volume_vars=(k, f), surface_vars=[(t, beta)] if self.surface else [])

    def args(self):
        s = self.sshape or (1, 1)
        return [Sx("k", (self.nc,), 0.5, 2.0), Sx("f", (self.p.fes[0].num_total_nodes,)), Sx("t", s), Sx("beta", s, 0.1, 1.0),
                Sx("vals", (len(self.rows),))]

    def R(self, u, tp, vals):
        from feax.assembler import create_res_bc_parametric
        return create_res_bc_parametric(self.p)(u, tp, dataclasses.replace(self.bc, bc_vals=vals), None)

    def bulk(self, u, tp):
        from feax.assembler import get_res
        import jax.flatten_util
        return jax.flatten_util.ravel_pytree(get_res(self.p, self.p.unflatten_fn_sol_list(u), tp))[0]

    def ref(self, tp, vals, bc=None):
        """exact discrete solution of the boundary-conditioned affine residual (concrete)"""
        z = jnp.zeros(self.n)
        rows = self.rows if bc is None else np.asarray(bc.bc_rows)
        r = self.bulk(z, tp)
        J = jax.jacfwd(lambda u: self.bulk(u, tp))(z).at[rows].set(jnp.eye(self.n)[rows])
        return jnp.linalg.solve(J, (-r).at[rows].set(vals))

    def other_bc(self, v):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        return DirichletBCConfig([DirichletBCSpec(lambda p: p[1] > 0.85, 0, float(v)), DirichletBCSpec(lambda p: p[0] < 0.15, 0, -.4)]).create_bc(self.p)


def opts(kind):
    import feax as fe
    if kind == "matfree":
        return fe.KrylovSolverOptions(solver="bicgstab", tol=1e-13, atol=1e-14)
    if kind == "cg":
        return fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14)
    if kind == "gmres":
        return fe.KrylovSolverOptions(solver="gmres", tol=1e-12, atol=1e-14)
    return fe.DirectSolverOptions(solver=kind)


def _proof(ctx, cases):
    for (label, mk, kind, se, use_ts, ig_mode) in cases:
        c = mk()
        from feax.solvers.linear import create_linear_solver
        n, rows = c.n, c.rows
        free = np.ones(n)
        free[rows] = 0.0
        ts = X.ts_of(c.p) if use_ts else None

        def run(be, tp, vals, ig):
            with S.patched("feax.solvers.linear", "create_linear_solve_fn", be.factory), S.custom_vjp_transparent() as V:
                solver = create_linear_solver(c.p, c.bc, opts(kind), symmetric_elimination=se)
                bc2 = dataclasses.replace(c.bc, bc_vals=vals)
                u = solver(tp, None if ig_mode == "default" else ig, bc=bc2, traced_structure=ts)
                return u, V.last

        def fwd(k, f, t, beta, vals, ig, x, lam, v):
            tp = c.tp(k, f, t, beta)
            be = S.Backend("sym", c.view)
            be.xs = [x]
            u, _ = run(be, tp, vals, ig)
            D, b, _, _ = be.calls[0]
            hyp = D @ x - b
            out = c.R(u, tp, vals) - hyp
            if se:
                _, Kb = jax.jvp(lambda s: c.bulk(s, tp), (jnp.zeros(n),), ((1 - free) * hyp,))
                out = out - free * Kb
            return out

        def bwd(k, f, t, beta, vals, ig, x, lam, v):
            tp = c.tp(k, f, t, beta)
            be = S.Backend("sym", c.view)
            be.xs = [x, x, lam]
            _, vj = run(be, tp, vals, ig)
            sol, res = vj.fwd(*vj.args)
            if len(be.calls) != 2:
                raise Skip("back end calls")
            ct = vj.bwd(res, v)
            D, b, _, _ = be.calls[2]
            hyp = D @ lam - b
            # true adjoint built from the solution of the adjoint system
            z = jnp.zeros(n)
            Kt = lambda w: jax.vjp(lambda s: c.bulk(s, tp), z)[1](w)[0]
            ls = (free * lam + (1 - free) * (v - Kt(free * lam))) if se else lam
            # lemma: it solves J^T ls = v under the hypothesis
            Jt = lambda w: jax.vjp(lambda s: c.R(s, tp, vals), z)[1](w)[0]
            lemma = Jt(ls) - v - (free * hyp if se else hyp)
            # the returned cotangents are -ls^T dR
            _, fv = jax.vjp(lambda tp_, vals_: c.R(sol, tp_, vals_), tp, vals)
            eiv, ebc = fv(-ls)
            d = [a - b for a, b in zip(jax.tree_util.tree_leaves(ct[0]), jax.tree_util.tree_leaves(eiv))]
            return lemma, d, ct[2].bc_vals - ebc

        zero = lambda *a: jnp.zeros(n)

        def zero_b(k, f, t, beta, vals, *a):
            z = jnp.zeros_like
            return jnp.zeros(n), [z(k), z(f)] + ([z(t), z(beta)] if c.surface else []), z(vals)

        def real(k, f, t, beta, vals, ig, x, lam, v):
            s = create_linear_solver(c.p, c.bc, opts(kind), symmetric_elimination=se)
            tp = c.tp(k, f, t, beta)
            return s(tp, None if ig_mode == "default" else ig, bc=dataclasses.replace(c.bc, bc_vals=vals), traced_structure=ts)

        def real_g(*a):
            return jax.grad(lambda k, f, t, beta, vals: a[8] @ real(k, f, t, beta, vals, *a[5:]), argnums=(0, 1, 2, 3, 4))(*a[:5])

        def spec(k, f, t, beta, vals, *a):
            return c.ref(c.tp(k, f, t, beta), vals)

        def spec_g(*a):
            return jax.grad(lambda k, f, t, beta, vals: a[8] @ spec(k, f, t, beta, vals), argnums=(0, 1, 2, 3, 4))(*a[:5])
        args = tuple(c.args() + [Sx("ig", (n,)), Sx("x", (n,)), Sx("lam", (n,)), Sx("v", (n,))])
        fns = [L + "create_linear_solver", L + "create_linear_solver.differentiable_solve", CM + "create_x0"]
        ctx.equal(f"solve {label} {kind} sym={se} ts={use_ts} guess={ig_mode}: A x = b implies residual(u) = 0", fwd, zero,
                  args, functions=fns, replay=(real, spec), tol=1e-6, n_replay=1)
        ctx.equal(f"adjoint {label} {kind} sym={se} ts={use_ts} guess={ig_mode}: A l = v implies exact cotangents", bwd, zero_b,
                  args, functions=fns + [L + "linear_solve_adjoint", CM + "_safe_negate", L + "create_linear_solver.f_bwd"],
                  replay=(real_g, spec_g), tol=1e-6, n_replay=1)


def proof_direct(ctx):
    Q = lambda: Case("QUAD4", (2, 1))
    T = lambda: Case("TRI3", (1, 1))
    E = lambda: Case("TRI3", (1, 1), vec=2)
    V = lambda: Case("TRI3", (1, 1), nvar=2)
    _proof(ctx, [("QUAD4", Q, "umfpack", True, False, "given"), ("TRI3", T, "umfpack", True, True, "given"),
                 ("TRI3", T, "spsolve", False, False, "given"), ("TRI3 vec2", E, "umfpack", True, False, "given"),
                 ("TRI3 2var", V, "umfpack", True, False, "default"), ("TRI3 vec2", E, "umfpack", False, True, "default")])


def proof_matfree(ctx):
    Q = lambda: Case("QUAD4", (2, 1))
    T = lambda: Case("TRI3", (1, 1))
    E = lambda: Case("TRI3", (1, 1), vec=2)
    V = lambda: Case("TRI3", (1, 1), nvar=2)
    _proof(ctx, [("QUAD4", Q, "matfree", True, False, "given"), ("TRI3", T, "matfree", False, True, "given"),
                 ("TRI3 vec2", E, "matfree", True, True, "default"), ("TRI3 2var", V, "matfree", True, False, "given"),
                 ("TRI3 2var", V, "matfree", False, False, "default")])


def proof_views(ctx):
    _proof(ctx, [(f"TRI3 {v} vec{k}", (lambda v, k: lambda: Case("TRI3", (1, 1), vec=k, view=v, sym=True))(v, k), kind, True, ts, g)
                 for v, k, kind, ts, g in (("UPPER", 1, "cholmod", False, "given"), ("LOWER", 1, "cholmod", True, "given"),
                                           ("UPPER", 2, "cholmod", True, "default"), ("LOWER", 2, "cholmod", False, "given"),
                                           ("UPPER", 1, "cg", False, "given"))])


def _e2e(ctx, label, c, kinds, seeds, views=True):
    """real back ends end to end against the dense reference: solution, override, guess, every gradient (bounded)"""
    import feax as fe
    for kind, kw in kinds:
        def chk():
            cnt = 0
            for sd in seeds:
                rng = ctx.rng(f"{label}{kind}", sd)
                k, f, t, beta, vals = [jnp.asarray(a.sample(rng)) for a in c.args()]
                tp = c.tp(k, f, t, beta)
                o = kind if not isinstance(kind, str) else opts(kind)
                ts = kw.get("ts")
                solver = fe.create_solver(c.p, c.bc, solver_options=o, linear=True, traced_params=tp, return_solution=False,
                                          traced_structure=ts, **{a: b for a, b in kw.items() if a not in ("ts",)})
                w = jnp.asarray(rng.uniform(size=c.n))
                ref = c.ref(tp, c.bc.bc_vals)
                for ig in (None, jnp.zeros(c.n), w):
                    expect_close(solver(tp, ig, traced_structure=ts), ref, f"{label} {kind}: solution", rtol=1e-6, atol=1e-7, k=k)
                bc2 = dataclasses.replace(c.bc, bc_vals=vals)
                expect_close(solver(tp, w, bc=bc2, traced_structure=ts), c.ref(tp, vals), f"{label} {kind}: overridden values", rtol=1e-6, atol=1e-7)

                # other unknowns constrained at call time than at construction
                bc3 = c.other_bc(k[0])
                f3 = lambda k, f, t, beta, q: solver(c.tp(k, f, t, beta), None, bc=dataclasses.replace(bc3, bc_vals=q), traced_structure=ts)
                r3 = lambda k, f, t, beta, q: c.ref(c.tp(k, f, t, beta), q, bc3)
                expect_close(f3(k, f, t, beta, bc3.bc_vals), r3(k, f, t, beta, bc3.bc_vals), f"{label} {kind}: other constrained unknowns", rtol=1e-6, atol=1e-7)
                g3, gr3 = [jax.grad(lambda *q: jnp.sum((w * h(*q)) ** 2), argnums=(0, 1, 2, 3, 4))(k, f, t, beta, bc3.bc_vals) for h in (f3, r3)]
                for a, b, nm in zip(g3, gr3, ("coefficient", "source", "traction", "Robin", "prescribed value")):
                    expect_close(a, b, f"{label} {kind}: gradient w.r.t. {nm}, other constrained unknowns", rtol=1e-5, atol=1e-6)

                def J(k, f, t, beta, vals):
                    return jnp.sum((w * solver(c.tp(k, f, t, beta), None, bc=dataclasses.replace(c.bc, bc_vals=vals), traced_structure=ts)) ** 2)

                def Jr(k, f, t, beta, vals):
                    return jnp.sum((w * c.ref(c.tp(k, f, t, beta), vals)) ** 2)
                g, gr = [jax.grad(h, argnums=(0, 1, 2, 3, 4))(k, f, t, beta, vals) for h in (J, Jr)]
                for a, b, nm in zip(g, gr, ("coefficient", "source", "traction", "Robin", "prescribed value")):
                    expect_close(a, b, f"{label} {kind}: gradient w.r.t. {nm}", rtol=1e-5, atol=1e-6)
                cnt += 9
            return cnt
        ctx.bounded(f"end to end {label} {kind if isinstance(kind, str) else type(kind).__name__ + ':' + kind.solver} "
                    f"{sorted(kw)}", chk, functions=["feax/solver.py:create_solver", L + "create_linear_solver",
                                                     CM + "create_direct_solve_fn", CM + "create_iterative_solve_fn"])


def backends1(ctx):
    seeds = range(3 if ctx.thorough else 1)
    c = Case("QUAD4", (2, 2))
    _e2e(ctx, "nonsymmetric QUAD4", c, [("umfpack", {}), ("spsolve", {"symmetric_elimination": False}), ("matfree", {}), ("gmres", {}),
                                        ("umfpack", {"ts": X.ts_of(c.p)}), ("auto", {})], seeds)
    import feax as fe
    _e2e(ctx, "nonsymmetric mixed forward/adjoint", Case("TRI3", (2, 1), vec=2),
         [("umfpack", {"adjoint_solver_options": opts("gmres")}), ("gmres", {"adjoint_solver_options": opts("spsolve")}),
          (fe.KrylovSolverOptions(tol=1e-13, atol=1e-14), {})], seeds)


def backends2(ctx):
    import feax as fe
    seeds = range(3 if ctx.thorough else 1)
    c = Case("QUAD4", (2, 2), sym=True)
    _e2e(ctx, "symmetric QUAD4", c, [("cholmod", {}), ("cg", {}), ("auto", {}),
                                     (fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-14, use_jacobi_preconditioner=True), {}),
                                     (fe.DirectSolverOptions(solver="umfpack", check_convergence=True, convergence_threshold=1e-6), {})], seeds)
    # (amjax cannot apply a one-level hierarchy, so the mesh is large enough to be coarsened)
    _e2e(ctx, "symmetric QUAD4 4x4", Case("QUAD4", (4, 4), sym=True), [(fe.AMGSolverOptions(tol=1e-12, atol=1e-14), {})], seeds)
    for view in ("UPPER", "LOWER"):
        c = Case("TRI3", (2, 2), vec=2, sym=True, view=view)
        kinds = [("auto", {}), ("cg", {})]
        if view == "UPPER":
            kinds.append(("cholmod", {}))
        _e2e(ctx, f"symmetric {view}", c, kinds, seeds)


def adjoint_choice(ctx):
    """the adjoint is solved with the adjoint options, the forward problem with the forward options"""
    import feax as fe
    c = Case("QUAD4", (2, 2), sym=True)
    bad = lambda: fe.KrylovSolverOptions(solver="cg", tol=1e-15, maxiter=1, check_convergence=True, convergence_threshold=1e-10)

    def one(fwd, adj, fwd_ok, adj_ok, linear):
        rng = ctx.rng("adj")
        k, f, t, beta, vals = [jnp.asarray(a.sample(rng)) for a in c.args()]
        kw = dict(linear=True) if linear else dict(newton_options=fe.NewtonOptions(max_iter=3))
        s = fe.create_solver(c.p, c.bc, solver_options=fwd, adjoint_solver_options=adj, traced_params=c.tp(k, f, t, beta), return_solution=False, **kw)
        y, g = jax.value_and_grad(lambda q: jnp.sum(s(c.tp(q, f, t, beta)) ** 2))(k)
        expect(bool(np.isfinite(y)) == fwd_ok, "forward options decide the forward solve", got=float(y))
        if fwd_ok:
            expect(bool(np.isfinite(np.asarray(g)).all()) == adj_ok, "adjoint options decide the adjoint solve", got=np.asarray(g))
    for nm, fwd, adj, a, b in (("direct / failing", lambda: fe.DirectSolverOptions(solver="umfpack"), bad, True, False), ("auto / failing", fe.DirectSolverOptions, bad, True, False),
                               ("default / failing", lambda: None, bad, True, False), ("auto iterative / failing", lambda: fe.KrylovSolverOptions(tol=1e-13), bad, True, False),
                               ("failing / direct", bad, fe.DirectSolverOptions, False, True), ("direct / good", fe.DirectSolverOptions, lambda: opts("cg"), True, True)):
        ctx.bounded(f"options of the two solves: {nm}", lambda: one(fwd(), adj(), a, b, True), functions=["feax/solver.py:create_solver", L + "create_linear_solver"], bound="one system")


def backends3(ctx):
    seeds = range(3 if ctx.thorough else 1)
    _e2e(ctx, "two variables", Case("TRI3", (2, 1), nvar=2), [("umfpack", {}), ("gmres", {})], seeds)
    _e2e(ctx, "TET4", Case("TET4", (1, 1, 1)), [("umfpack", {}), ("auto", {})], seeds)


def direct(ctx):
    """host back ends as functions of (values, b): single, batched in either or both, refactorization (bounded)"""
    import scipy.sparse as sp
    from feax.solvers.direct import cholmod_solve, spsolve, umfpack_solve
    from feax.csr import CSRMatrix
    from feax.solvers.common import create_linear_solve_fn
    import feax as fe

    def mats(rng, n, spd, B):
        pat = (rng.uniform(size=(n, n)) < 0.4)
        pat |= pat.T
        np.fill_diagonal(pat, True)
        out = []
        for _ in range(B):
            M = rng.uniform(-1, 1, size=(n, n)) * pat
            if spd:
                M = M + M.T
            M += np.eye(n) * (2 + np.abs(M).sum(1))
            out.append(M)
        A = sp.csr_matrix(pat.astype(float))
        A.sort_indices()
        r = np.repeat(np.arange(n), np.diff(A.indptr))
        return out, A.indptr.astype(np.int32), A.indices.astype(np.int32), np.stack([M[r, A.indices] for M in out])

    def chk(name, fn, spd):
        def go():
            cnt = 0
            for sd in range(6 if ctx.thorough else 3):
                rng = ctx.rng(name, sd)
                n, B = int(rng.randint(2, 9)), 3
                Ms, ip, ix, vals = mats(rng, n, spd, B)
                b = rng.uniform(-1, 1, size=(B, n))
                f = lambda b, v: fn(b, v, jnp.asarray(ip), jnp.asarray(ix))
                vals, b = jnp.asarray(vals), jnp.asarray(b)
                sol = lambda i, j: np.linalg.solve(Ms[i], np.asarray(b)[j])
                for i in range(B):  # same pattern, new values: the cached factor must be refreshed
                    expect_close(f(b[i], vals[i]), sol(i, i), f"{name}: single solve {i}")
                expect_close(jax.jit(f)(b[0], vals[1]), sol(1, 0), f"{name}: jit")
                expect_close(jax.vmap(f)(b, vals), [sol(i, i) for i in range(B)], f"{name}: batched operator and right-hand side")
                expect_close(jax.vmap(f, (0, None))(b, vals[1]), [sol(1, i) for i in range(B)], f"{name}: batched right-hand side")
                expect_close(jax.vmap(f, (None, 0))(b[2], vals), [sol(i, 2) for i in range(B)], f"{name}: batched operator")
                expect_close(jax.vmap(f)(b[::-1], vals), [sol(i, B - 1 - i) for i in range(B)], f"{name}: batched again")
                cnt += 8
            return cnt
        ctx.bounded(f"direct back end {name}", go, functions=[DI + "_callback_utils.py:assemble_batched_csr_arrays_np",
                                                            DI + "_callback_utils.py:prepare_solver_vmap_inputs",
                                                            DI + f"{name.split()[0]}.py"])
    chk("umfpack", lambda b, v, ip, ix: umfpack_solve(b, v, ip, ix), False)
    chk("umfpack namespace", lambda b, v, ip, ix: umfpack_solve(b, v, ip, ix, cache_namespace="adjoint"), False)
    chk("spsolve", lambda b, v, ip, ix: spsolve(b, v, ip, ix), False)
    for lower in (False, True):
        chk(f"cholmod lower={lower}", lambda b, v, ip, ix: cholmod_solve(b, v, ip, ix, lower=lower, order="amd"), True)

    def trans():
        rng = ctx.rng("trans")
        Ms, ip, ix, vals = mats(rng, 5, False, 2)
        b = rng.uniform(size=5)
        expect_close(umfpack_solve(jnp.asarray(b), jnp.asarray(vals[0]), jnp.asarray(ip), jnp.asarray(ix), trans="T"),
                     np.linalg.solve(Ms[0].T, b), "umfpack transpose solve")
    ctx.bounded("umfpack transposed solve", trans, functions=[DI + "umfpack.py"])

    def solve_fns():
        rng = ctx.rng("solvefn")
        n = 0
        for spd in (True, False):
            Ms, ip, ix, vals = mats(rng, 6, spd, 1)
            A = CSRMatrix(jnp.asarray(vals[0]), jnp.asarray(ip), jnp.asarray(ix), (6, 6))
            b = jnp.asarray(rng.uniform(size=6))
            kinds = [fe.DirectSolverOptions(solver=s) for s in (("umfpack", "spsolve", "cholmod") if spd else ("umfpack", "spsolve"))]
            kinds += [fe.KrylovSolverOptions(solver=s, tol=1e-13, atol=1e-14, use_jacobi_preconditioner=j)
                      for s in (("cg", "bicgstab", "gmres") if spd else ("bicgstab", "gmres")) for j in (False, True)]
            for o in kinds:
                f = create_linear_solve_fn(o)
                Aop = A if isinstance(o, fe.DirectSolverOptions) else A.__matmul__
                for x0 in (jnp.zeros(6), jnp.ones(6)):
                    expect_close(f(Aop, b, x0), np.linalg.solve(Ms[0], np.asarray(b)), f"{o.solver}", rtol=1e-6, atol=1e-8)
                    n += 1
        return n
    ctx.bounded("solve functions by option", solve_fns, functions=[CM + "create_linear_solve_fn"])

    # block-diagonal assembly: proved for all values (structure enumerated)
    from feax.solvers.direct._callback_utils import assemble_batched_csr_arrays_np as asm
    for B, (ip, ix, nc, extra) in [(2, ([0, 1, 3], [0, 0, 1], 2, 0)), (3, ([0, 2, 2, 4], [0, 2, 1, 2], 3, 2)), (1, ([0, 1], [0], 1, 1))]:
        ip, ix = np.array(ip, np.int32), np.array(ix + [0] * extra, np.int32)
        nr = len(ip) - 1

        def fn(d):
            data, idx, ptr = asm(np.asarray(d, object), ix, ip, nc)
            D = np.zeros((B * nr, B * nc), object)
            rows = np.repeat(np.arange(B * nr), np.diff(ptr))
            for r, c, v in zip(rows, idx, data):
                D[r, c] = D[r, c] + v
            return D

        def spec(d):
            D = np.zeros((B * nr, B * nc), object)
            for b in range(B):
                for r in range(nr):
                    for s in range(ip[r], ip[r + 1]):
                        D[b * nr + r, b * nc + ix[s]] = d[b, s]
            return D
        fl = lambda g: lambda d: np.asarray(g(np.asarray(d, object)), float)
        ctx.equal(f"block-diagonal assembly B={B} {ip.tolist()} is blockdiag(A_b)", fn, spec, (Sx("d", (B, len(ix))),), engine="host",
                  functions=[DI + "_callback_utils.py:assemble_batched_csr_arrays_np"], replay=(fl(fn), fl(spec)), private=True)


def helpers(ctx):
    """guess, diagonal, preconditioner, triangular matvec and convergence filter (proved)"""
    from feax.solvers import common as C
    from feax.csr import CSRMatrix
    from feax.problem import MatrixView
    import feax as fe
    n = 4
    rows = jnp.array([0, 3])
    ctx.equal("create_x0: prescribed minus current on constrained, zero elsewhere",
              lambda u, v: C.create_x0(bc_rows=rows, bc_vals=v)(u), lambda u, v: jnp.zeros(n).at[rows].set(v - u[rows]),
              (Sx("u", (n,)), Sx("v", (2,))), functions=[CM + "create_x0"], private=True)
    ctx.equal("create_x0: no conditions", lambda u: C.create_x0()(u), lambda u: jnp.zeros(n), (Sx("u", (n,)),), private=True)
    from feax.DCboundary import DirichletBC
    mask = jnp.zeros(n, bool).at[rows].set(True)
    ctx.equal("create_x0_parametric", lambda u, v: C.create_x0_parametric()(u, DirichletBC(rows, mask, v, n)),
              lambda u, v: jnp.zeros(n).at[rows].set(v - u[rows]), (Sx("u", (n,)), Sx("v", (2,))), functions=[CM + "create_x0_parametric"], private=True)
    pats = {"full": np.ones((4, 4), bool), "upper": np.triu(np.ones((4, 4), bool)), "lower": np.tril(np.ones((4, 4), bool))}
    for nm, view in (("full", MatrixView.FULL), ("upper", MatrixView.UPPER), ("lower", MatrixView.LOWER)):
        r, cidx = np.nonzero(pats[nm])
        ip = jnp.asarray(np.concatenate([[0], np.cumsum(np.bincount(r, minlength=4))]))
        mk = lambda d: CSRMatrix(d, ip, jnp.asarray(cidx), (4, 4))

        def full(d):
            D = jnp.zeros((4, 4)).at[r, cidx].set(d)
            return D if nm == "full" else D + D.T - jnp.diag(jnp.diagonal(D))
        d, x, b = Sx("d", (len(r),), 0.5, 2.0), Sx("x", (4,)), Sx("b", (4,))
        ctx.equal(f"matrix-vector product of {nm} storage", lambda d, x: C._matvec_with_matrix_view(mk(d), x, view),
                  lambda d, x: full(d) @ x, (d, x), functions=[CM + "_matvec_with_matrix_view", CM + "_extract_sparse_diagonal"], private=True)
        ctx.equal(f"Jacobi preconditioner ({nm})", lambda d, x: C.create_jacobi_preconditioner(mk(d), 0.0)(x),
                  lambda d, x: x / jnp.diagonal(full(d)), (d, x), functions=[CM + "create_jacobi_preconditioner"], private=True)
        o = fe.DirectSolverOptions(solver="umfpack", convergence_threshold=0.05)

        def conv(d, x, b):
            # x = A^-1 b + e: passes exactly when |A x - b| < threshold*|b|
            y = C.check_convergence(mk(d), x, full(d) @ x - 1e-3 * b, o, view, "t")
            return jnp.where(jnp.isnan(y), 7.0, y)

        def conv_spec(d, x, b):
            rhs = full(d) @ x - 1e-3 * b
            ok = jnp.linalg.norm(1e-3 * b) / (jnp.linalg.norm(rhs) + 1e-12) < 0.05
            return jnp.where(ok, x, 7.0)

        def scaled():
            rng = ctx.rng("conv" + nm)
            for sc in (1e-6, 1e-3, 1.0, 1e5):
                for th in (1e-3, .5):
                    for fac, ok in ((.9, True), (1.1, False)):
                        dd, xx, ee = rng.uniform(.5, 2, len(r)), rng.uniform(-1, 1, 4) * sc, rng.uniform(-1, 1, 4)
                        e0 = np.asarray(full(jnp.asarray(dd)) @ jnp.asarray(xx))
                        lo, hi = 0.0, 10.0              # |e| = fac * th * |A x - e|
                        ee = ee / np.linalg.norm(ee) * np.linalg.norm(e0)
                        for _ in range(200):
                            mid = (lo + hi) / 2
                            lo, hi = (mid, hi) if np.linalg.norm(mid * ee) < fac * th * np.linalg.norm(e0 - mid * ee) else (lo, mid)
                        y = C.check_convergence(mk(jnp.asarray(dd)), jnp.asarray(xx), jnp.asarray(e0 - lo * ee), fe.DirectSolverOptions(solver="umfpack", convergence_threshold=th), view, "t")
                        expect(bool(np.isnan(np.asarray(y)).all()) != ok, "the convergence filter is relative to the right-hand side", scale=sc, threshold=th, ratio=fac)
            return 16
        ctx.bounded(f"convergence filter is independent of scale ({nm})", scaled, functions=[CM + "check_convergence"], private=True, bound="4 scales x 2 thresholds")
        class NanTag:
            """the module's NumPy with the value that marks a rejected solution written as the constant 7"""
            nan = 7.0

            def __getattr__(self, k):
                return getattr(jnp, k)

        def tagged(d, x, b):
            old = C.np
            try:
                C.np = NanTag()
                return C.check_convergence(mk(d), x, b, o, view, "t")
            finally:
                C.np = old
        nz = lambda y: jnp.where(jnp.isnan(y), 7.0, y)
        sp = lambda d, x, b: jnp.where(jnp.linalg.norm(full(d) @ x - b) / (jnp.linalg.norm(b) + 1e-12) < 0.05, x, 7.0)
        ctx.equal(f"convergence filter ({nm}): the solution where the relative residual is below the threshold, rejected elsewhere", tagged, sp, (d, x, b), functions=[CM + "check_convergence"], private=True,
                  replay=(lambda d, x, b: nz(C.check_convergence(mk(d), x, b, o, view, "t")), sp), n_replay=6)
        ctx.bounded(f"convergence filter near the threshold ({nm})", lambda: [expect_close(conv(*q), conv_spec(*q), "filter") for k in range(6) for q in [tuple(jnp.asarray(v.sample(ctx.rng("cf" + nm, k))) for v in (d, x, b))]] and None,
                    functions=[CM + "check_convergence"], private=True, bound="6 samples")

        def nonconv():
            y = C.check_convergence(mk(jnp.ones(len(r))), jnp.ones(4), jnp.zeros(4) + 1.0, o, view, "t")
            expect(np.isnan(np.asarray(y)).all(), "a solution with a large residual passes the convergence check")
        ctx.bounded(f"convergence filter rejects ({nm})", nonconv, functions=[CM + "check_convergence"], private=True)


def options(ctx):
    """automatic back-end choice: complete tables (every enum value), other options preserved"""
    import itertools
    import feax as fe
    from feax.solvers import options as O
    from feax.problem import MatrixView
    MP, MV = O.MatrixProperty, MatrixView

    def direct_table():
        n = 0
        for mp, mv, lower, order, vm, cc, th, vb in itertools.product(MP, MV, (False, True), ("amd", "natural"),
                                                                     ("broadcast_all", "sequential"), (False, True), (0.1, 0.3), (False,)):
            sk = O.SKSPARSEOptions(lower=lower, order=order, vmap_method=vm)
            for solver in ("auto", "umfpack", "spsolve", "cholmod"):
                o = O.DirectSolverOptions(solver=solver, sksparse_options=sk, check_convergence=cc, convergence_threshold=th, verbose=vb)
                r = O.resolve_direct_solver(o, mp, matrix_view=mv)
                expect(r.solver != "auto", "unresolved")
                expect(r.check_convergence == cc and r.convergence_threshold == th and r.verbose == vb and
                       r.sksparse_options.order == order and r.sksparse_options.vmap_method == vm,
                       f"resolving {solver} drops options", got=repr(r))
                if solver != "auto":
                    expect(r.solver == solver and r.sksparse_options == sk, "explicit back end replaced")
                else:
                    expect(not (mp is MP.GENERAL and r.solver == "cholmod"), "Cholesky chosen for a non-symmetric operator")
                    expect(not (mp is MP.SYMMETRIC and r.solver == "cholmod"), "Cholesky chosen for an indefinite operator")
                    if r.solver == "cholmod":
                        if mv is MV.UPPER:
                            expect(r.sksparse_options.lower is False, "upper storage factorized as lower")
                        if mv is MV.LOWER:
                            expect(r.sksparse_options.lower is True, "lower storage factorized as upper")
                n += 1
        return n
    ctx.bounded("direct option table (exhaustive over enums)", direct_table, functions=[OP + "resolve_direct_solver"])

    def backends():
        """every combination of installed back ends: the chosen one is installed and suits the operator and its storage"""
        if not hasattr(O, "detect_available_solver_backends"):
            return 0
        names, n = ("cholmod", "cudss", "spsolve", "umfpack"), 0
        old = O.detect_available_solver_backends
        try:
            for k, mp, mv, lower, reuse in itertools.product(range(16), MP, MV, (False, True), (False, True)):
                have = tuple(x for i, x in enumerate(names) if k >> i & 1)
                O.detect_available_solver_backends = lambda s="auto": have
                cu = O.CUDSSOptions(matrix_view="LOWER" if lower else "FULL", device_id=3)
                o = O.DirectSolverOptions(cudss_options=cu, sksparse_options=O.SKSPARSEOptions(lower=lower, order="colamd"), reuse_factorization=reuse, check_convergence=True, convergence_threshold=.7, verbose=True)
                usable = set(have) - (set() if mp is MP.SPD else {"cholmod"})
                info = dict(have=have, prop=mp.name, view=mv.name)
                if not usable:
                    expect_raises(lambda: O.resolve_direct_solver(o, mp, matrix_view=mv), f"no back end usable {info}", RuntimeError)
                    continue
                r = O.resolve_direct_solver(o, mp, matrix_view=mv)
                expect(r.solver in usable, "the chosen back end is installed and suits the operator", got=r.solver, **info)
                expect(r.reuse_factorization == reuse and r.check_convergence and r.convergence_threshold == .7 and r.verbose and r.sksparse_options.order == "colamd" and r.cudss_options.device_id == 3, "options kept", got=repr(r), **info)
                if r.solver == "cudss":
                    c = r.cudss_options
                    expect(c.matrix_type.name == mp.name, "cuDSS factorization type follows the operator", got=c.matrix_type, **info)
                    expect(c.matrix_view.name == (mv.name if mv is not MV.FULL else cu.matrix_view.name), "cuDSS view follows the storage", got=c.matrix_view, **info)
                if r.solver == "cholmod" and mv is not MV.FULL:
                    expect(r.sksparse_options.lower is (mv is MV.LOWER), "stored triangle", **info)
                n += 1
        finally:
            O.detect_available_solver_backends = old
        return n
    ctx.bounded("back-end choice (exhaustive over installed back ends, operators and storage)", backends, functions=[OP + "resolve_direct_solver"])

    def spellings():
        T, V, n = O.CUDSSMatrixType, O.CUDSSMatrixView, 0
        for t, v in itertools.product(T, V):
            for tt, vv in itertools.product((t, t.value, t.name, t.name.lower()), (v, v.value, v.name, v.name.lower())):
                if t in (T.HERMITIAN, T.HPD):
                    expect_raises(lambda: O.CUDSSOptions(tt, vv), "complex factorization types are rejected", ValueError)
                else:
                    c = O.CUDSSOptions(tt, vv, 2)
                    expect(c.matrix_type is t and c.matrix_view is v and c.mtype_id == t.value and c.mview_id == v.value and c.device_id == 2, "cuDSS option spelling", given=[str(tt), str(vv)], got=repr(c))
                n += 1
        for bad in (dict(matrix_type="sym"), dict(matrix_type=5), dict(matrix_type=-1), dict(matrix_view="half"), dict(matrix_view=3)):
            expect_raises(lambda: O.CUDSSOptions(**bad), f"invalid {bad}", ValueError)
        for bad in (dict(order="x"), dict(vmap_method="x"), dict(lower=3)):
            expect_raises(lambda: O.SKSPARSEOptions(**bad), f"invalid {bad}", ValueError)
        for order in ("default", "best", "metis", "nesdis", "amd", "colamd", "postordered", "natural"):
            expect(O.SKSPARSEOptions(order=order).order == order, "ordering")
        expect_raises(lambda: O.DirectSolverOptions(solver="lu"), "invalid direct solver", ValueError)
        expect_raises(lambda: O.KrylovSolverOptions(solver="minres"), "invalid Krylov solver", ValueError)
        expect_raises(lambda: O.SolverOptions(), "removed options", RuntimeError)
        d = O.DirectSolverOptions()
        expect(d.solver == "auto" and d.cudss_options == O.CUDSSOptions() and d.sksparse_options == O.SKSPARSEOptions() and not d.uses_x0() and O.KrylovSolverOptions().uses_x0(), "defaults")
        expect(MP.SPD.view() is MV.UPPER and MP.SYMMETRIC.view() is MV.UPPER and MP.GENERAL.view() is MV.FULL, "a triangle suffices exactly for symmetric operators")
        return n
    ctx.bounded("option spellings (exhaustive over enums)", spellings, functions=[OP + x for x in ("CUDSSOptions.__post_init__", "SKSPARSEOptions.__post_init__", "DirectSolverOptions.__post_init__", "KrylovSolverOptions.__post_init__", "MatrixProperty.view")])

    def iter_table():
        n = 0
        M = lambda x: x
        for mp, tol, it, pre, jac, rs, cc in itertools.product(MP, (1e-10, 1e-5), (100, 7), (None, M), (False, True), (None, 33), (False, True)):
            for solver in ("auto", "cg", "bicgstab", "gmres"):
                o = O.KrylovSolverOptions(solver=solver, tol=tol, atol=2 * tol, maxiter=it, preconditioner=pre, use_jacobi_preconditioner=jac,
                                          jacobi_shift=1e-3, restart=rs, x0_fn=M, check_convergence=cc, convergence_threshold=0.2, verbose=False)
                r = O.resolve_iterative_solver(o, mp)
                for fld in dataclasses.fields(o):
                    if fld.name == "solver":
                        continue
                    expect(getattr(r, fld.name) == getattr(o, fld.name), f"resolving the iterative solver {solver} loses {fld.name}",
                           option=fld.name, given=repr(getattr(o, fld.name)), got=repr(getattr(r, fld.name)))
                if solver != "auto":
                    expect(r.solver == solver, "explicit solver replaced")
                else:
                    expect(r.solver in ("cg", "bicgstab", "gmres"), "unresolved")
                    expect(not (mp is not MP.SPD and r.solver == "cg"), "cg chosen for an operator that is not SPD")
                n += 1
        return n
    ctx.bounded("iterative option table (exhaustive over enums)", iter_table, functions=[OP + "resolve_iterative_solver"])

    def detect():
        from feax.csr import CSRMatrix
        n = 0
        for sd in range(20):
            rng = ctx.rng("detect", sd)
            m = int(rng.randint(2, 7))
            M = rng.uniform(-1, 1, size=(m, m))
            kind = sd % 3
            if kind:
                M = M + M.T
                M += (1 if kind == 1 else -1) * np.diag(np.abs(M).sum(1) + 1)
            r, c = np.nonzero(np.ones((m, m)))
            A = CSRMatrix(jnp.asarray(M[r, c]), jnp.arange(0, m * m + 1, m), jnp.asarray(c), (m, m))
            got = O.detect_matrix_property(A, matrix_view=MV.FULL)
            expect(got is (MP.GENERAL, MP.SPD, MP.SYMMETRIC)[kind], f"matrix property detection: {got}", M=M)
            U = np.triu(M)
            rr, cc = np.nonzero(np.triu(np.ones((m, m))))
            AU = CSRMatrix(jnp.asarray(U[rr, cc]), jnp.asarray(np.concatenate([[0], np.cumsum(np.bincount(rr, minlength=m))])), jnp.asarray(cc), (m, m))
            if kind:
                expect(O.detect_matrix_property(AU, matrix_view=MV.UPPER) is (MP.GENERAL, MP.SPD, MP.SYMMETRIC)[kind], "upper detection")
            n += 1
        return n
    ctx.bounded("matrix property detection", detect, functions=[OP + "detect_matrix_property"])

    def rejects():
        c = Case("TRI3", (1, 1))
        expect_raises(lambda: fe.create_solver(c.p, c.bc, linear=True), "automatic choice without sample parameters", ValueError)
        expect_raises(lambda: fe.create_solver(c.p, c.bc, solver_options=3, linear=True), "options of the wrong type", (TypeError, ValueError))
        expect_raises(lambda: fe.create_solver(c.p, c.bc, solver_options=opts("umfpack"), linear=True, extra_residual_fn=lambda u: u),
                      "extra residual with a linear solve", ValueError)
        expect_raises(lambda: fe.DirectSolverOptions(solver="nope"), "unknown solver", ValueError)
        expect_raises(lambda: fe.KrylovSolverOptions(solver="nope"), "unknown solver", ValueError)
        return 5
    ctx.bounded("misuse is rejected", rejects, functions=["feax/solver.py:create_solver"])

    def wrapper():
        c = Case("TRI3", (2, 1), vec=2)
        k, f, t, beta, vals = [jnp.asarray(a.sample(ctx.rng("w"))) for a in c.args()]
        tp = c.tp(k, f, t, beta)
        s = fe.create_solver(c.p, c.bc, solver_options=opts("umfpack"), linear=True, traced_params=tp)
        r = s(tp)
        expect_close(r.dofs, c.ref(tp, c.bc.bc_vals), "wrapped solution")
        expect_close(s(tp, r).dofs, r.dofs, "a previous Solution as the guess")
        batch = jax.vmap(lambda kk: s(c.tp(kk, f, t, beta)).dofs)(jnp.stack([k, 2 * k]))
        expect_close(batch[1], c.ref(c.tp(2 * k, f, t, beta), c.bc.bc_vals), "vmapped solve")
        jt = jax.jit(lambda kk: s(c.tp(kk, f, t, beta)).dofs)(2 * k)
        expect_close(jt, batch[1], "jitted solve")
        lb = jax.vmap(lambda tt: s(c.tp(k, f, tt, beta)).dofs)(jnp.stack([t, 3 * t]))
        expect_close(lb[1], c.ref(c.tp(k, f, 3 * t, beta), c.bc.bc_vals), "vmapped load")
        rb = jax.vmap(lambda bb: s(c.tp(k, f, t, bb)).dofs)(jnp.stack([beta, 3 * beta]))
        expect_close(rb[1], c.ref(c.tp(k, f, t, 3 * beta), c.bc.bc_vals), "vmapped Robin coefficient")
        return 6
    ctx.bounded("wrapped, jitted and vmapped solves", wrapper, functions=["feax/solver.py:create_solver"])


GROUPS = [proof_direct, proof_matfree, proof_views, backends1, backends2, backends3, adjoint_choice, direct, helpers, options]
