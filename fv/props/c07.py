"""C07: Newton solves return a root and differentiate it exactly."""
import dataclasses
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, solvlib as S, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip
from fv.props.c06 import opts

N = "feax/solvers/newton.py:"


class Case:
    """a small nonlinear problem; vars = (k per cell, source f nodal, boundary data t, beta per face point)"""

    def __init__(self, ele, ns, vec=1, view="FULL", sym=False, seed=1, nvar=1, poly=True):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        self.view, self.vec, self.nvar = view, vec, nvar
        d = F.DIM[ele]
        m = X.mesh(ele, ns, seed=seed, distort=0.05)
        A = np.random.RandomState(3).uniform(-.3, .3, size=(vec * d, vec * d)) + np.eye(vec * d)
        A = jnp.asarray(A + A.T if sym else A)
        nl = lambda u: u + (0.2 * u ** 3 if not poly else 0.2 * u * u)
        maps = {}
        if nvar == 1:
            maps["get_mass_map"] = lambda u, x, k, f: 0.4 * nl(u) + f * x[0]
            maps["get_tensor_map"] = lambda g, k, f: k * (A @ g.ravel()).reshape(vec, d) + 0.1 * (1 + k) * g * jnp.sum(g * g)
            if poly:
                maps["get_tensor_map"] = lambda g, k, f: k * (A @ g.ravel()).reshape(vec, d)
            maps["get_surface_maps"] = [lambda u, x, t, beta: beta * u + 0.1 * u * u - t]
            self.p = X.make_problem(m, vec, d, ele, maps, matrix_view=view, location_fns=[lambda p: p[0] >= 0.85])
        else:
            maps["get_weak_form"] = lambda v, g, x, k, f: (
                [0.3 * v[0] + 0.2 * v[1] * v[0] + f, nl(v[1]) * 0.5 + 0.1 * v[0]], [k * g[0] + 0.1 * g[1], (1 + k) * g[1]])
            maps["get_surface_weak_forms"] = [lambda v, x, t, beta: [beta * v[0] - t * jnp.ones(1), 0.1 * v[1] * v[0] + t * jnp.ones(1)]]
            self.p = X.make_problem([m, m], [1, 1], d, [ele, ele], maps, matrix_view=view, location_fns=[lambda p: p[0] >= 0.85])
        specs = [DirichletBCSpec(lambda p: p[0] < 0.15, 0, 0.3)]
        if vec > 1:
            specs.append(DirichletBCSpec(lambda p: p[0] < 0.15, 1, -0.1))
        self.bc = DirichletBCConfig(specs).create_bc(self.p)
        self.n, self.nc = self.p.num_total_dofs_all_vars, self.p.num_cells
        self.sshape = np.shape(self.p.nanson_scale[0])[:1] + np.shape(self.p.nanson_scale[0])[-1:]
        self.rows = np.asarray(self.bc.bc_rows)
        self.free = np.ones(self.n)
        self.free[self.rows] = 0
        self._roots = {}

    def tp(self, k, f, t, beta):
        from feax.traced_params import TracedParams
        return TracedParams(volume_vars=(k, f), surface_vars=[(t, beta)])

    def args(self):
        return [Sx("k", (self.nc,), 0.5, 2.0), Sx("f", (self.p.fes[0].num_total_nodes,), -.5, .5), Sx("t", self.sshape, -.5, .5),
                Sx("beta", self.sshape, 0.1, 1.0), Sx("vals", (len(self.rows),), -.3, .3)]

    def R(self, u, tp, vals, extra=None):
        r = self.bulk(u, tp)
        if extra is not None:
            r = r + extra(u)
        return r * self.free + jnp.zeros(self.n).at[self.rows].set(u[self.rows] - vals)

    def bulk(self, u, tp):
        from feax.assembler import get_res
        import jax.flatten_util
        return jax.flatten_util.ravel_pytree(get_res(self.p, self.p.unflatten_fn_sol_list(u), tp))[0]

    def ref(self, tp, vals, extra=None, ig=None):
        """root by dense Newton (independent of feax.solvers), differentiable through one exact implicit step"""
        r = lambda u, tp_, v_: self.R(u, tp_, v_, extra)
        stop = jax.lax.stop_gradient
        key = id(extra)
        if key not in self._roots:
            def root(u, tp, v):
                return jax.lax.fori_loop(0, 12, lambda i, u: u - jnp.linalg.solve(jax.jacfwd(r)(u, tp, v), r(u, tp, v)), u)
            self._roots[key] = jax.jit(root), jax.jit(lambda u, tp, v: jax.jacfwd(r)(u, tp, v)), jax.jit(r), extra
        root, jac, rj, _ = self._roots[key]
        tp0, v0 = jax.tree_util.tree_map(stop, tp), stop(vals)
        u = stop(root(jnp.zeros(self.n) if ig is None else ig, tp0, v0))
        return u - jnp.linalg.solve(stop(jac(u, tp0, v0)), rj(u, tp, vals))


@contextlib.contextmanager
def captured_loop(exit_sol):
    """jax.lax.while_loop -> records (cond, body, init) and returns the arbitrary exit state `exit_sol`"""
    old = jax.lax.while_loop
    rec = {}

    def wl(cond, body, init):
        if "cond" in rec:
            raise Skip("more than one loop")
        rec.update(cond=cond, body=body, init=init)
        if exit_sol is None:
            return init
        return (exit_sol,) + tuple(init[1:])
    jax.lax.while_loop = wl
    try:
        yield rec
    finally:
        jax.lax.while_loop = old


def _build(c, kind, se, be, nopt, ts=None, extra=None):
    from feax.solvers.newton import create_newton_solver
    o = opts(kind)
    return create_newton_solver(c.p, c.bc, o, o, nopt, symmetric_elimination=se, **({"extra_residual_fn": extra} if extra else {}))


def _proof(ctx, cases):
    import feax as fe
    for (label, mk, kind, se, use_ts, default) in cases:
        c = mk()
        n, rows, free = c.n, c.rows, c.free
        ts = X.ts_of(c.p) if use_ts else None
        nopt = fe.NewtonOptions(tol=1e-7, rel_tol=1e-9, max_iter=11, line_search_max_backtracks=2, line_search_c1=0.125,
                                line_search_rho=0.25, raise_on_line_search_failure=False)

        def run(be, tp, vals, ig, exit_sol):
            with S.patched("feax.solvers.newton", "create_linear_solve_fn", be.factory), S.custom_vjp_transparent() as V, \
                    captured_loop(exit_sol) as rec:
                solver = _build(c, kind, se, be, nopt)
                bc2 = dataclasses.replace(c.bc, bc_vals=vals)
                u = solver(tp, None if default else ig, bc=bc2, traced_structure=ts)
                return u, V.last, rec

        nrm = lambda v: jnp.sqrt(jnp.sum(v * v))

        # ---- the direction: under A x = b it is the Newton direction of the boundary-conditioned residual
        def direction(k, f, t, beta, vals, ig, x, lam, v, s):
            tp = c.tp(k, f, t, beta)
            be = S.Backend("sym", c.view)
            be.xs = [x]
            _, _, rec = run(be, tp, vals, ig, s)
            rec["body"]((s, nrm(c.R(s, tp, vals)), jnp.asarray(4, jnp.int32), jnp.asarray(True)))
            D, b, _, _ = be.calls[0]
            hyp = D @ x - b
            R = lambda w: c.R(w, tp, vals)
            r, Jx = jax.jvp(R, (s,), (x,))
            out = r + Jx - hyp
            if se:
                _, Kb = jax.jvp(R, (s,), ((1 - free) * hyp,))
                out = out - free * Kb
            return out

        # ---- the adjoint at an arbitrary returned state
        def bwd(k, f, t, beta, vals, ig, x, lam, v, s):
            tp = c.tp(k, f, t, beta)
            be = S.Backend("sym", c.view)
            be.xs = [lam]
            _, vj, rec = run(be, tp, vals, ig, s)
            with captured_loop(s):
                sol, res = vj.fwd(*vj.args)
            ct = vj.bwd(res, v)
            if len(be.calls) != 1:
                raise Skip("back end calls")
            D, b, _, _ = be.calls[0]
            hyp = D @ lam - b
            Kt = lambda w: jax.vjp(lambda q: c.bulk(q, tp), s)[1](w)[0]
            ls = (free * lam + (1 - free) * (v - Kt(free * lam))) if se else lam
            Jt = lambda w: jax.vjp(lambda q: c.R(q, tp, vals), s)[1](w)[0]
            lemma = Jt(ls) - v - (free * hyp if se else hyp)
            _, fv = jax.vjp(lambda tp_, vals_: c.R(s, tp_, vals_), tp, vals)
            eiv, ebc = fv(-ls)
            d = [a - b for a, b in zip(jax.tree_util.tree_leaves(ct[0]), jax.tree_util.tree_leaves(eiv))]
            return sol - s, lemma, d, ct[2].bc_vals - ebc

        zero = lambda *a: jnp.zeros(n)

        def zero_b(k, f, t, beta, vals, *a):
            z = jnp.zeros_like
            return jnp.zeros(n), jnp.zeros(n), [z(k), z(f), z(t), z(beta)], z(vals)

        full = fe.NewtonOptions(tol=1e-11, rel_tol=1e-13, max_iter=40)

        def real(k, f, t, beta, vals, ig, *a):
            o = opts(kind)
            from feax.solvers.newton import create_newton_solver
            sv = create_newton_solver(c.p, c.bc, o, o, full, symmetric_elimination=se)
            return sv(c.tp(k, f, t, beta), None if default else 0.1 * ig, bc=dataclasses.replace(c.bc, bc_vals=vals), traced_structure=ts)

        def real_g(*a):
            return jax.grad(lambda k, f, t, beta, vals: a[8] @ real(k, f, t, beta, vals, *a[5:]), argnums=(0, 1, 2, 3, 4))(*a[:5])

        spec = lambda k, f, t, beta, vals, *a: c.ref(c.tp(k, f, t, beta), vals)
        spec_g = lambda *a: jax.grad(lambda k, f, t, beta, vals: a[8] @ spec(k, f, t, beta, vals), argnums=(0, 1, 2, 3, 4))(*a[:5])
        args = tuple(c.args() + [Sx("ig", (n,)), Sx("x", (n,)), Sx("lam", (n,)), Sx("v", (n,)), Sx("s", (n,))])
        fns = [N + "create_callback_newton_solver", N + "create_callback_newton_solver.one_step",
               N + "create_callback_newton_solver._forward", N + "create_armijo_line_search_scan"]
        tag = f"{label} {kind} sym={se} ts={use_ts} guess={'default' if default else 'given'}"
        ctx.equal(f"Newton direction {tag}: A x = b implies R + R' x = 0", direction, zero, args, functions=fns,
                  replay=(real, spec), tol=1e-6, n_replay=1)
        ctx.equal(f"Newton adjoint {tag}: A l = v implies the implicit-function cotangents at the returned state", bwd, zero_b, args,
                  functions=fns + [N + "create_callback_newton_solver._adjoint", N + "create_callback_newton_solver.f_bwd",
                                   "feax/solvers/linear.py:linear_solve_adjoint"], replay=(real_g, spec_g), tol=1e-6, n_replay=1)


T = lambda: Case("TRI3", (1, 1))
E = lambda: Case("TRI3", (1, 1), vec=2)
V = lambda: Case("TRI3", (1, 1), nvar=2)


def proof_direct(ctx):
    _proof(ctx, [("TRI3", T, "umfpack", True, False, False), ("TRI3", T, "spsolve", False, True, False),
                 ("TRI3 vec2", E, "umfpack", True, True, True), ("TRI3 2var", V, "umfpack", True, False, False)])


def proof_matfree(ctx):
    _proof(ctx, [("TRI3", T, "gmres", True, False, False), ("TRI3", T, "gmres", False, True, True),
                 ("TRI3 vec2", E, "matfree", True, True, True), ("TRI3 2var", V, "gmres", True, False, False)])


def proof_views(ctx):
    _proof(ctx, [(f"TRI3 {v} vec{k}", (lambda v, k: lambda: Case("TRI3", (1, 1), vec=k, view=v, sym=True))(v, k), kind, True, ts, g)
                 for v, k, kind, ts, g in (("UPPER", 1, "cholmod", False, False), ("LOWER", 1, "cholmod", True, True),
                                           ("UPPER", 2, "cholmod", True, False), ("UPPER", 1, "cg", False, False))])


def proof_linesearch(ctx):
    """the line search over an arbitrary residual function: every backtrack, acceptance rule and fallback"""
    from feax.solvers.newton import create_armijo_line_search_scan
    for mb in (1, 2, 3):
        for withp in (False, True):
            n = 2
            R = uf.fun("residual", (n,))
            res_fn = (lambda u, p: R(u, p)) if withp else (lambda u: R(u))

            def fn(s, d, r, rn, p, c1, rho):
                ls = create_armijo_line_search_scan(res_fn, c1=c1, rho=rho, max_backtracks=mb)
                sol, nn, a, ok = ls(s, d, r, rn, **({"traced_params": p} if withp else {}))
                return sol, nn, jnp.where(ok, a, 1e-8), ok

            def spec(s, d, r, rn, p, c1, rho):
                Rf = (lambda u: R(u, p)) if withp else R
                nrm = lambda v: jnp.sqrt(jnp.sum(v * v))
                sol, al = s + 1e-8 * d, 1e-8
                nn, ok = nrm(Rf(sol)), False
                for j in reversed(range(mb)):
                    a = rho ** j if j else 1.0
                    tr = Rf(s + a * d)
                    acc = 0.5 * (jnp.sum(tr * tr) - rn * rn) <= -c1 * a * jnp.sum(r * r)
                    sol, nn, al, ok = jnp.where(acc, s + a * d, sol), jnp.where(acc, nrm(tr), nn), jnp.where(acc, a, al), acc | ok
                return sol, nn, al, ok
            ctx.equal(f"line search, {mb} backtracks, params={withp}", fn, spec,
                      (Sx("s", (n,)), Sx("d", (n,)), Sx("r", (n,)), Sx("rn", (), 0.1, 2.0), Sx("p", ()), Sx("c1", (), 1e-4, .5), Sx("rho", (), .1, .9)),
                      functions=[N + "create_armijo_line_search_scan"], n_replay=4)


def proof_loop(ctx):
    """loop control: initial state, one step from every state, stopping test"""
    import feax as fe

    c = T()
    n = c.n
    # the residual is replaced by an arbitrary function of the state: the loop logic does not depend on it
    for rs in (False, True):
        for tol, rtol, mi, sc in ((1e-7, 1e-9, 11, 1.0), (1e-3, 0.5, 3, 1.0), (1e-6, 1e-2, 5, 0.03125)):
            nopt = fe.NewtonOptions(tol=tol, rel_tol=rtol, max_iter=mi, raise_on_line_search_failure=rs, line_search_max_backtracks=2,
                                    line_search_c1=0.125, line_search_rho=0.5)
            tpc = c.tp(jnp.ones(c.nc), jnp.zeros(c.p.fes[0].num_total_nodes), jnp.zeros(c.sshape), jnp.ones(c.sshape))
            R0 = uf.fun("residual", (n,))
            R = lambda u: sc * R0(u)

            def grab(ig, s, x):
                be = S.Backend("sym")
                be.xs = [x]
                fake = lambda *a, **k: (lambda u, tp, bc, ts=None: R(u))
                fakeJ = lambda *a, **k: (lambda u, tp, bc, ts=None: (R(u), lambda w: w))
                with S.patched("feax.solvers.newton", "create_linear_solve_fn", be.factory), S.custom_vjp_transparent(), \
                        S.patched("feax.solvers.newton", "create_res_bc_parametric", fake), \
                        S.patched("feax.solvers.newton", "create_matfree_res_J_parametric", fakeJ), captured_loop(s) as rec:
                    u = _build(c, "gmres", True, be, nopt)(tpc, ig)
                    if "cond" not in rec:
                        raise Skip("no traced loop")
                    return u, rec

            def fn(ig, s, x, rn, itf, w):
                u, rec = grab(ig, s, x)
                i0 = rec["init"]
                outs = []
                for it in (0, 1, mi - 1, mi, mi + 3):
                    for found in (True, False):
                        outs.append(rec["cond"]((w, rn, jnp.asarray(it, jnp.int32), jnp.asarray(found))))
                return u, i0[0], i0[1], i0[2], i0[3], jnp.stack(outs)

            def spec(ig, s, x, rn, itf, w):
                r0 = jnp.sqrt(jnp.sum(R(ig) ** 2))
                go = (rn > tol) & (rn / jnp.maximum(r0, 1e-30) > rtol)
                outs = [go & bool(found and it < mi) for it in (0, 1, mi - 1, mi, mi + 3) for found in (True, False)]
                return s, ig, r0, jnp.asarray(0, jnp.int32), jnp.asarray(True), jnp.stack(outs)

            def step(ig, s, x, rn, itf, w):
                _, rec = grab(ig, s, x)
                o = rec["body"]((w, rn, jnp.asarray(2, jnp.int32), jnp.asarray(True)))
                return o[0], o[1], o[2], o[3]

            def step_spec(ig, s, x, rn, itf, w):
                nrm = lambda v: jnp.sqrt(jnp.sum(v * v))
                r2 = jnp.sum(R(w) ** 2)
                sol = w + 1e-8 * x
                nn, ok = nrm(R(sol)), False
                for a in (0.5, 1.0):
                    tr = R(w + a * x)
                    acc = 0.5 * (jnp.sum(tr * tr) - r2) <= -0.125 * a * r2
                    sol, nn, ok = jnp.where(acc, w + a * x, sol), jnp.where(acc, nrm(tr), nn), acc | ok
                return sol, nn, jnp.asarray(3, jnp.int32), ok
            args = (Sx("ig", (n,)), Sx("s", (n,)), Sx("x", (n,)), Sx("rn", (), sampler=lambda r: 10 ** r.uniform(-9, 0.5)), Sx("itf", ()), Sx("w", (n,)))
            fns = [N + "create_callback_newton_solver._forward", N + "create_callback_newton_solver.one_step"]
            ctx.equal(f"loop control tol={tol} rel={rtol} max_iter={mi} raise={rs}: start, stopping test, returned state", fn, spec, args,
                      functions=fns, n_replay=3)
            if not rs:
                ctx.equal(f"loop step max_iter={mi}: invariant norm = |R(sol)| and sufficient decrease", step, step_spec, args,
                          functions=fns, n_replay=3)


# ------------------------------------------------------------------ end to end (bounded)
def _e2e(ctx, label, c, kinds, extra=None, seeds=(0,), gbc=True):
    import feax as fe
    for kind, kw in kinds:
        def chk():
            cnt = 0
            for sd in seeds:
                rng = ctx.rng(f"{label}{kind}", sd)
                k, f, t, beta, vals = [jnp.asarray(a.sample(rng)) for a in c.args()]
                tp = c.tp(k, f, t, beta)
                o = kind if not isinstance(kind, str) else opts(kind)
                ts = kw.get("ts")
                extra_kw = {"extra_residual_fn": extra} if extra else {}
                solver = fe.create_solver(c.p, c.bc, solver_options=o, newton_options=fe.NewtonOptions(tol=1e-10, rel_tol=1e-13, max_iter=40),
                                          linear=False, traced_params=tp, return_solution=False, traced_structure=ts, **extra_kw,
                                          **{a: b for a, b in kw.items() if a != "ts"})
                w = jnp.asarray(rng.uniform(size=c.n))
                z = jnp.zeros(c.n)
                v0 = c.bc.bc_vals
                u = solver(tp, z, traced_structure=ts)
                expect_close(c.R(u, tp, v0, extra), jnp.zeros(c.n), f"{label}: residual of the returned state", rtol=0, atol=1e-8)
                expect_close(u, c.ref(tp, v0, extra), f"{label} {kind}: root", rtol=1e-6, atol=1e-8)
                if extra is None and not getattr(kind, 'rebuild_every', 0):
                    expect_close(solver(tp, traced_structure=ts), c.ref(tp, v0), f"{label} {kind}: root from the default guess", rtol=1e-6, atol=1e-8)
                bc2 = dataclasses.replace(c.bc, bc_vals=vals)
                expect_close(solver(tp, 0.1 * w, bc=bc2, traced_structure=ts), c.ref(tp, vals, extra), f"{label} {kind}: overridden values", rtol=1e-6, atol=1e-8)

                def J(k, f, t, beta, vals):
                    return jnp.sum((w * solver(c.tp(k, f, t, beta), z, bc=dataclasses.replace(c.bc, bc_vals=vals), traced_structure=ts)) ** 2)

                def Jr(k, f, t, beta, vals):
                    return jnp.sum((w * c.ref(c.tp(k, f, t, beta), vals, extra)) ** 2)
                g, gr = [jax.grad(h, argnums=(0, 1, 2, 3, 4))(k, f, t, beta, vals) for h in (J, Jr)]  # noqa
                for a, b, nm in zip(g, gr, ("coefficient", "source", "boundary load", "Robin", "prescribed value")):
                    expect_close(a, b, f"{label} {kind}: gradient w.r.t. {nm}", rtol=1e-5, atol=1e-7)
                # scaling the whole system must not change the root (stiff units, override, default guess)
                if extra is None and c.nvar == 1 and kind in ("umfpack", "gmres", "auto"):
                    sc = 1e4
                    tps = c.tp(k, f, t, beta)
                    ps = _scaled(c, sc)
                    s2 = fe.create_solver(ps, c.bc, solver_options=o, newton_options=fe.NewtonOptions(tol=1e-7, rel_tol=1e-13, max_iter=40),
                                          linear=False, traced_params=tps, return_solution=False,
                                          **{a: b for a, b in kw.items() if a != "ts"})
                    expect_close(s2(tps, bc=bc2), c.ref(tp, vals), f"{label} {kind}: root does not depend on the unit of force", rtol=1e-5, atol=1e-7)
                cnt += 10
            return cnt
        nm = kind if isinstance(kind, str) else type(kind).__name__ + ":" + kind.solver
        ctx.bounded(f"end to end {label} {nm} {sorted(kw)}", chk,
                    functions=["feax/solver.py:create_solver", N + "create_newton_solver"])


def _scaled(c, sc):
    p = c.p
    tm, mm, sm = p.get_tensor_map(), p.get_mass_map(), p.get_surface_maps()
    return X.make_problem(p.mesh[0] if isinstance(p.mesh, (list, tuple)) else p.mesh, c.vec, p.dim, "QUAD4", dict(
        get_tensor_map=lambda g, *a: sc * tm(g, *a), get_mass_map=lambda u, x, *a: sc * mm(u, x, *a),
        get_surface_maps=[lambda u, x, *a: sc * sm[0](u, x, *a)]), matrix_view=c.view, location_fns=[lambda q: q[0] >= 0.85])


def e2e_direct(ctx):
    c = Case("QUAD4", (2, 2), poly=False)
    _e2e(ctx, "nonsymmetric QUAD4", c, [("umfpack", {}), ("spsolve", {"symmetric_elimination": False}), ("umfpack", {"ts": X.ts_of(c.p)})])


def e2e_krylov(ctx):
    c = Case("QUAD4", (2, 2), poly=False)
    _e2e(ctx, "nonsymmetric QUAD4", c, [("gmres", {}), ("auto", {})])


def e2e_views(ctx):
    c = Case("QUAD4", (2, 1), vec=2, sym=True, view="UPPER", poly=False)
    _e2e(ctx, "symmetric UPPER", c, [("cholmod", {})])
    c = Case("QUAD4", (2, 1), sym=True, view="LOWER", poly=False)
    _e2e(ctx, "symmetric LOWER", c, [("cg", {}), ("auto", {})])


def e2e_multi(ctx):
    import feax as fe
    c = Case("TRI3", (2, 1), nvar=2, poly=False)
    _e2e(ctx, "two variables", c, [("umfpack", {}), ("umfpack", {"adjoint_solver_options": opts("gmres")})])


def _extra(c):
    P = np.random.RandomState(7).uniform(-.2, .2, size=(c.n,))
    i = np.arange(c.n)
    j = np.roll(i, 3)
    return lambda u: 0.3 * u ** 3 + jnp.asarray(P) * u[j] * u - 0.05


def e2e_extra(ctx):
    c = Case("QUAD4", (2, 1), poly=False)
    _e2e(ctx, "extra residual", c, [("umfpack", {}), ("gmres", {})], extra=_extra(c))


def e2e_extra2(ctx):
    c = Case("QUAD4", (2, 1), poly=False)
    _e2e(ctx, "extra residual", c, [("umfpack", {"symmetric_elimination": False}),
                                    ("umfpack", {"adjoint_solver_options": opts("gmres")})], extra=_extra(c))


def e2e_amg(ctx):
    import feax as fe
    c = Case("QUAD4", (4, 3), sym=True, poly=False)
    for kw in ([dict(rebuild_every=0), dict(rebuild_every=1)] + ([dict(), dict(rebuild_every=2)] if ctx.thorough else [])):
        _e2e(ctx, f"AMG {kw}", c, [(fe.AMGSolverOptions(tol=1e-12, atol=1e-14, **kw), {})])


def controls(ctx):
    """iteration controls of the real solver: tolerances, iteration cap, line-search failure (bounded)"""
    import feax as fe
    from feax.solvers.newton import NewtonLineSearchError
    c = Case("QUAD4", (2, 1), poly=False)
    rng = ctx.rng("ctl")
    k, f, t, beta, vals = [jnp.asarray(a.sample(rng)) for a in c.args()]
    tp = c.tp(k, 3 * f, t, beta)
    mk = lambda **kw: fe.create_solver(c.p, c.bc, solver_options=opts("umfpack"), newton_options=fe.NewtonOptions(**kw), linear=False,
                                       traced_params=tp, return_solution=False)
    z = jnp.zeros(c.n)
    rn = lambda u: float(jnp.linalg.norm(c.R(u, tp, c.bc.bc_vals)))

    def caps():
        u, seq = z, [z]
        for _ in range(6):   # reference: undamped Newton (full steps are accepted here)
            r = lambda q: c.R(q, tp, c.bc.bc_vals)
            u = u - jnp.linalg.solve(jax.jacfwd(r)(u), r(u))
            seq.append(u)
        nrm = [rn(x) for x in seq]
        expect(nrm[3] < nrm[2] < nrm[1] < nrm[0], "harness: Newton does not contract", norms=nrm)
        for m in range(4):
            expect_close(mk(tol=1e-14, rel_tol=1e-15, max_iter=m)(tp, z), seq[m], f"iterate after max_iter={m}", rtol=1e-8, atol=1e-11)
        for j in range(1, 4):
            tol = (nrm[j] * nrm[j - 1]) ** 0.5
            expect_close(mk(tol=tol, rel_tol=1e-16, max_iter=30)(tp, z), seq[j], f"absolute tolerance stops after step {j}", rtol=1e-8, atol=1e-11)
            expect_close(mk(tol=1e-16, rel_tol=tol / nrm[0], max_iter=30)(tp, z), seq[j], f"relative tolerance stops after step {j}", rtol=1e-8, atol=1e-11)
            expect_close(jax.jit(mk(tol=tol, rel_tol=1e-16, max_iter=30))(tp, z), seq[j], f"jit: stops after step {j}", rtol=1e-8, atol=1e-11)
        return 13
    ctx.bounded("max_iter, tol and rel_tol", caps, functions=[N + "create_callback_newton_solver"])

    def fail():
        # a residual with no root near the start: |R| cannot decrease along the Newton direction
        m = X.mesh("QUAD4", (1, 1), seed=0, distort=0.0)
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        p = X.make_problem(m, 1, 2, "QUAD4", dict(get_mass_map=lambda u, x: 1.0 + (u - 1.0) ** 2 + 0 * u))
        bc = DirichletBCConfig([DirichletBCSpec(lambda q: q[0] < 0.1, 0, 1.0)]).create_bc(p)
        start = jnp.ones(4) * 1.0 + 1e-9
        from feax.traced_params import TracedParams
        mk2 = lambda raise_: fe.create_solver(p, bc, solver_options=opts("umfpack"), linear=False, traced_params=TracedParams(),
                                              return_solution=False, newton_options=fe.NewtonOptions(
                                                  max_iter=50, line_search_max_backtracks=3, raise_on_line_search_failure=raise_))
        expect_raises(lambda: mk2(True)(TracedParams(), start), "line-search failure is reported", NewtonLineSearchError)
        u = mk2(False)(TracedParams(), start)
        expect(bool(jnp.all(jnp.isfinite(u))), "non-raising solve returns a finite state")
        return 2
    ctx.bounded("line-search failure is reported", fail, functions=[N + "create_callback_newton_solver"])

    def batch():
        s = mk(tol=1e-10, rel_tol=1e-13, max_iter=40)
        ks = jnp.stack([k, 1.5 * k, 0.7 * k])
        U = jax.vmap(lambda q: s(c.tp(q, f, t, beta), z))(ks)
        for i in range(3):
            expect_close(U[i], c.ref(c.tp(ks[i], f, t, beta), c.bc.bc_vals), f"vmap lane {i}", rtol=1e-6, atol=1e-8)
        G = jax.vmap(jax.grad(lambda q: jnp.sum(s(c.tp(q, f, t, beta), z) ** 2)))(ks)
        Gr = [jax.grad(lambda q: jnp.sum(c.ref(c.tp(q, f, t, beta), c.bc.bc_vals) ** 2))(q) for q in ks]
        expect_close(G, Gr, "vmap of the gradient", rtol=1e-5, atol=1e-7)
        return 4
    ctx.bounded("batched solves and gradients", batch, functions=[N + "create_callback_newton_solver"])


GROUPS = [proof_direct, proof_matfree, proof_views, proof_linesearch, proof_loop, e2e_direct, e2e_krylov, e2e_views, e2e_multi,
          e2e_extra, e2e_extra2, e2e_amg, controls]
