"""C01: Dirichlet conditions."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

D = "feax/DCboundary.py:"


def mkbc(rows, n, vals):
    from feax.DCboundary import DirichletBC
    rows = np.array(sorted(rows), dtype=np.int32)
    mask = np.zeros(n, bool)
    mask[rows] = True
    return DirichletBC(bc_rows=jnp.asarray(rows), bc_mask=jnp.asarray(mask), bc_vals=vals, total_dofs=n)


def residual(ctx):
    from feax.DCboundary import apply_boundary_to_res
    n = 5
    for k in range(n + 1):
        for rows in itertools.combinations(range(n), k):
            def fn(r, u, v, s, rows=rows):
                return apply_boundary_to_res(mkbc(rows, n, v), r, u, s)

            def spec(r, u, v, s, rows=rows):
                out = [r[i] for i in range(n)]
                for j, i in enumerate(rows):
                    out[i] = u[i] - v[j] * s
                return jnp.stack(out)
            ctx.equal(f"residual rows={rows}", fn, spec, (Sx("r", (n,)), Sx("u", (n,)), Sx("v", (k,)), Sx("s")),
                      functions=[D + "apply_boundary_to_res"])
    ctx.equal("residual default scale", lambda r, u, v: apply_boundary_to_res(mkbc((1, 3), n, v), r, u),
              lambda r, u, v: jnp.stack([r[0], u[1] - v[0], r[2], u[3] - v[1], r[4]]),
              (Sx("r", (n,)), Sx("u", (n,)), Sx("v", (2,))), functions=[D + "apply_boundary_to_res"])


def _spec_matrix(Kd, rows, n, symmetric, view):
    """Kd: dense of what is stored (upper/lower entries outside the view are 0)"""
    out = []
    S = set(rows)
    for i in range(n):
        row = []
        for j in range(n):
            if i in S:
                row.append(1.0 if i == j else 0.0)
            elif symmetric and j in S:
                row.append(0.0)
            else:
                row.append(Kd[i, j])
        out.append(jnp.stack([jnp.asarray(x, float) for x in row]))
    return jnp.stack(out)


def _matrix(ctx, ele, ns, vec, view, subsets, label):
    from feax.DCboundary import apply_boundary_to_J_csr
    m = X.mesh(ele, ns, seed=1)
    pb = X.make_problem(m, vec, F.DIM[ele], ele, {"get_tensor_map": uf.fun("t", (vec, F.DIM[ele]))}, matrix_view=view)
    ts = X.ts_of(pb)
    n = pb.num_total_dofs_all_vars
    for sym in (True, False):
        for use_ts in (False, True):
            for rows in subsets(n):
                bc = mkbc(rows, n, jnp.zeros(len(rows)))

                def fn(data):
                    d = apply_boundary_to_J_csr(bc, pb, data, symmetric=sym, ts=ts if use_ts else None)
                    return X.dense_of(d, pb.csr_indptr, pb.csr_indices, n)

                def spec(data):
                    return _spec_matrix(X.dense_of(data, pb.csr_indptr, pb.csr_indices, n), rows, n, sym, view)
                ctx.equal(f"matrix {label} {view} sym={sym} ts={use_ts} rows={tuple(int(r) for r in rows)}", fn, spec,
                          (Sx("K", (int(pb.csr_nse),)),), functions=[D + "apply_boundary_to_J_csr"], n_replay=1)


def all_subsets(n):
    return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def matrix_full(ctx):
    _matrix(ctx, "TRI3", (1, 1), 1, "FULL", all_subsets, "tri")


def matrix_upper(ctx):
    _matrix(ctx, "TRI3", (1, 1), 1, "UPPER", all_subsets, "tri")


def matrix_lower(ctx):
    _matrix(ctx, "TRI3", (1, 1), 1, "LOWER", all_subsets, "tri")


def matrix_vec(ctx):
    rng = ctx.rng("sub")

    def subs(n):
        return [tuple(sorted(rng.choice(n, size=k, replace=False))) for k in (1, 3, n // 2)]
    for view in ("FULL", "UPPER", "LOWER"):
        _matrix(ctx, "QUAD4", (2, 1), 2, view, subs, "quad vec2")


# ----------------------------------------------------------------- compile
def _spec_compile(problem, specs):
    """specs: (location predicate on (pt, idx), component, value fn, variable_index or None)"""
    out = {}
    off = 0
    for vi, fe in enumerate(problem.fes):
        pts = np.asarray(fe.points)
        for loc, comp, val, var in specs:
            if var is not None and var != vi:
                continue
            comps = range(fe.vec) if comp == "all" else ([comp] if comp < fe.vec else [])
            for c in comps:
                for i, p in enumerate(pts):
                    if loc(p, i):
                        out.setdefault(off + i * fe.vec + c, float(val(p)))
        off += fe.num_total_nodes * fe.vec
    return out, off


def _compile_case(problem, rng, ncases, label):
    from feax.DCboundary import DirichletBCSpec, DirichletBCConfig, DirichletBC, dirichlet_bc_config
    dim = problem.dim
    cnt = 0
    for case in range(ncases):
        nspec = rng.randint(0, 5)
        fs, ss = [], []
        for _ in range(nspec):
            a = rng.uniform(-1, 1, dim)
            t = rng.uniform(-0.6, 0.9)
            kind = rng.randint(3)
            if kind == 0:
                loc1 = (lambda a, t: lambda p: jnp.dot(p, jnp.asarray(a)) > t)(a, t)
                loc = (lambda a, t: lambda p, i: float(np.dot(p, a)) > t)(a, t)
            elif kind == 1:
                m = rng.randint(1, 4)
                loc1 = (lambda m: lambda p, i: i % (m + 1) == 0)(m)
                loc = (lambda m: lambda p, i: i % (m + 1) == 0)(m)
            else:
                loc1 = lambda p: jnp.ones((), bool)
                loc = lambda p, i: True
            names = ["x", "y", "z", "all", "All", "X"]
            maxvec = max(fe.vec for fe in problem.fes)
            if rng.rand() < 0.5:
                c = rng.randint(0, maxvec + 1)
                cs = int(c)
                comp = int(c)
            else:
                comp = names[rng.randint(len(names))]
                cs = {"x": 0, "y": 1, "z": 2, "all": "all"}[comp.lower()]
            if rng.rand() < 0.5:
                v = float(rng.uniform(-2, 2)) if rng.rand() < 0.7 else int(rng.randint(-3, 4))
                fv_, sv_ = v, (lambda v: lambda p: float(v))(v)
            else:
                w = rng.uniform(-1, 1, dim)
                fv_ = (lambda w: lambda p: jnp.dot(p, jnp.asarray(w)) + 0.25)(w)
                sv_ = (lambda w: lambda p: float(np.dot(p, w)) + 0.25)(w)
            var = None if rng.rand() < 0.5 else int(rng.randint(len(problem.fes)))
            fs.append(DirichletBCSpec(loc1, comp, fv_, var))
            ss.append((loc, cs, sv_, var))
        exp, n = _spec_compile(problem, ss)
        bcs = [DirichletBCConfig(list(fs)).create_bc(problem), DirichletBC.from_specs(problem, list(fs)),
               dirichlet_bc_config(*fs).create_bc(problem)]
        if all(s[3] is None for s in ss):
            cfg = DirichletBCConfig()
            for f in fs:
                cfg = cfg.add(f.location, f.component, f.value)
            bcs.append(cfg.create_bc(problem))
        rows = sorted(exp)
        for bc in bcs:
            got = np.asarray(bc.bc_rows)
            expect(list(got) == rows, f"{label}: constrained rows {list(got)[:20]} != {rows[:20]}", case=case)
            expect_close(np.asarray(bc.bc_vals), np.array([exp[r] for r in rows]), f"{label}: values case {case}")
            m = np.zeros(n, bool)
            m[rows] = True
            expect(np.array_equal(np.asarray(bc.bc_mask), m), f"{label}: mask", case=case)
            expect(bc.total_dofs == n, f"{label}: total_dofs")
        cnt += 1
    return cnt


def compile_single(ctx):
    N = 25 if not ctx.thorough else 200
    for ele, ns, vec in (("QUAD4", (3, 2), 2), ("TET4", (1, 1, 1), 3), ("TRI6", (1, 2), 1)):
        pb = X.make_problem(X.mesh(ele, ns, seed=5), vec, F.DIM[ele], ele,
                            {"get_tensor_map": uf.fun("t", (vec, F.DIM[ele]))})
        ctx.bounded(f"compile {ele} vec={vec}", lambda: _compile_case(pb, ctx.rng(f"cs{ele}"), N, ele),
                    functions=[D + "DirichletBCConfig.create_bc", D + "DirichletBC.from_specs", D + "DirichletBCSpec"],
                    bound="random specs on one mesh")


def compile_multi(ctx):
    N = 25 if not ctx.thorough else 200
    m = X.mesh("QUAD4", (2, 2), seed=6)
    m2 = X.mesh("QUAD9", (2, 2), seed=6)
    w = lambda vals, grads, x: ([v for v in vals], [g for g in grads])
    # the same corners under another numbering: every field's conditions are located on its own mesh
    from feax.mesh import Mesh
    P, C = np.asarray(m.points), np.asarray(m.cells)
    mr = Mesh(P[::-1].copy(), len(P) - 1 - C, ele_type="QUAD4")
    for meshes, vec, ele in (([m, m], [2, 1], ["QUAD4", "QUAD4"]), ([m2, mr, mr], [2, 3, 1], ["QUAD9", "QUAD4", "QUAD4"]),
                             ([mr, m2], [1, 2], ["QUAD4", "QUAD9"])):
        pb = X.make_problem(meshes, vec, 2, ele, {"get_weak_form": w}, gauss_order=[2] * len(vec))
        ctx.bounded(f"compile multi {ele} {vec}", lambda: _compile_case(pb, ctx.rng(f"cm{ele}"), N, str(ele)),
                    functions=[D + "DirichletBCConfig.create_bc"], bound="random specs on one mesh")


def misc(ctx):
    from feax.DCboundary import DirichletBCSpec, DirichletBC, DirichletBCConfig

    def bad():
        expect_raises(lambda: DirichletBCSpec(lambda p: True, "w", 0.0), "unknown component name", ValueError)
        expect_raises(lambda: DirichletBCSpec(lambda p: True, -1, 0.0), "negative component", ValueError)
        return 2
    ctx.bounded("invalid components are rejected", bad, functions=[D + "DirichletBCSpec"])

    def fn(v, w):
        bc = mkbc((0, 2, 3), 5, v)
        new = bc.replace_vals(w)
        l, t = jax.tree_util.tree_flatten(new)
        back = jax.tree_util.tree_unflatten(t, l)
        return [bc.bc_vals, back.bc_vals, back.bc_rows * 1.0, back.bc_mask * 1.0, jnp.asarray(back.total_dofs * 1.0)]
    ctx.equal("replace_vals and pytree round trip", fn,
              lambda v, w: [v, w, jnp.array([0., 2., 3.]), jnp.array([1., 0., 1., 1., 0.]), jnp.asarray(5.)],
              (Sx("v", (3,)), Sx("w", (3,))), functions=[D + "DirichletBC.replace_vals"])

    # the whole BC-conditioned residual / matrix of a real problem with arbitrary physics
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    for view in ("FULL", "UPPER"):
        pb = X.make_problem(X.mesh("TRI3", (2, 1), seed=2), 2, 2, "TRI3", {"get_tensor_map": uf.fun("t", (2, 2))},
                            matrix_view=view)
        n = pb.num_total_dofs_all_vars
        rows = (0, 3, 7)
        for sym in (True, False):
            def fn(u, v):
                bc = mkbc(rows, n, v)
                r, J = AS.create_res_J_bc_csr_parametric(pb, symmetric=sym)(u, TracedParams(), bc)
                r2 = AS.create_res_bc_parametric(pb)(u, TracedParams(), bc)
                r3 = AS.create_res_bc_function(pb, bc)(u, TracedParams())
                J2 = AS.create_J_bc_csr_parametric(pb, symmetric=sym)(u, TracedParams(), bc)
                J3 = AS.create_J_bc_csr_function(pb, bc, symmetric=sym)(u, TracedParams())
                return [r, r2, r3] + [X.dense_of(j.data, j.indptr, j.indices, n) for j in (J, J2, J3)]

            def spec(u, v):
                res = lambda s: jnp.concatenate([x.ravel() for x in AS.get_res(pb, pb.unflatten_fn_sol_list(s), TracedParams())])
                r = res(u)
                for j, i in enumerate(rows):
                    r = r.at[i].set(u[i] - v[j])
                K = jax.jacfwd(res)(u)
                if view == "UPPER":
                    pat = np.triu(np.ones((n, n)))
                    K = K * pat
                M = _spec_matrix(K, rows, n, sym, view)
                return [r, r, r, M, M, M]
            ctx.equal(f"BC-conditioned residual and matrix {view} sym={sym}", fn, spec, (Sx("u", (n,)), Sx("v", (3,))),
                      functions=["feax/assembler.py:" + f for f in
                                 ("create_res_J_bc_csr_parametric", "create_res_bc_parametric", "create_res_bc_function",
                                  "create_J_bc_csr_parametric", "create_J_bc_csr_function")])


GROUPS = [residual, matrix_full, matrix_upper, matrix_lower, matrix_vec, compile_single, compile_multi, misc]
