"""C10: solution, parameter and structure containers are lossless views."""
import dataclasses
import operator
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

SO = "feax/solution.py:Solution."
TP = "feax/traced_params.py:TracedParams."
LAYOUTS = [((3, 1),), ((4, 2),), ((2, 3),), ((3, 1), (2, 2)), ((2, 2), (3, 1), (1, 3))]


def pos(layout, i, node, comp):
    return sum(n * v for n, v in layout[:i]) + node * layout[i][1] + comp


def solution_views(ctx):
    from feax.solution import Solution
    for lay in LAYOUTS:
        n = sum(a * b for a, b in lay)
        for batch in [(), (2,), (2, 2)]:
            def fn(d):
                s = Solution(d, lay)
                out = [s.field(i) for i in range(len(lay))]
                out += [s.node_var(component=c, var_index=i) for i in range(len(lay)) for c in range(lay[i][1])]
                out += [s.node_var(var_index=i) for i in range(len(lay)) if lay[i][1] == 1]
                return out + [s.flat, s.dofs, s[..., 0], jnp.asarray(s.__jax_array__())]

            def spec(d):
                f = [jnp.stack([jnp.stack([d[..., pos(lay, i, a, c)] for c in range(lay[i][1])], -1) for a in range(lay[i][0])], -2) for i in range(len(lay))]
                out = list(f)
                out += [f[i][..., c] for i in range(len(lay)) for c in range(lay[i][1])]
                out += [f[i][..., 0] for i in range(len(lay)) if lay[i][1] == 1]
                return out + [d, d, d[..., 0], d]
            ctx.equal(f"Solution views, layout {lay}, batch {batch}", fn, spec, (Sx("d", batch + (n,)),),
                      functions=[SO + k for k in ("field", "node_var", "_offset", "__getitem__", "flat")], n_replay=1)

            def rt(d):
                s = Solution(d, lay)
                leaves, tree = jax.tree_util.tree_flatten(s)
                t = jax.tree_util.tree_unflatten(tree, leaves)
                u = jax.jit(lambda q: q)(s)
                w = jax.tree_util.tree_map(lambda x: 2 * x, s)
                outs = [t.field(i) for i in range(len(lay))] + [u.field(i) for i in range(len(lay))] + [w.field(i) / 2 for i in range(len(lay))]
                if batch:
                    v = jax.vmap(lambda q: q.field(len(lay) - 1))(s)
                    outs.append(v)
                return outs

            def rt_spec(d):
                f = [jnp.stack([jnp.stack([d[..., pos(lay, i, a, c)] for c in range(lay[i][1])], -1) for a in range(lay[i][0])], -2) for i in range(len(lay))]
                return f + f + f + ([f[-1]] if batch else [])
            ctx.equal(f"Solution through transformations, layout {lay}, batch {batch}", rt, rt_spec, (Sx("d", batch + (n,)),),
                      functions=[SO + "tree_flatten", SO + "tree_unflatten", SO + "field"], n_replay=1)
    s = Solution(jnp.arange(7.), ((3, 1), (2, 2)))
    ctx.bounded("Solution: out-of-range variable is rejected", lambda: [expect_raises(lambda i=i: s.field(i), "index", IndexError) for i in (2, -1, 7)] and None, functions=[SO + "_offset"])
    ctx.bounded("Solution: component must be named for vector fields", lambda: expect_raises(lambda: s.node_var(var_index=1), "component", ValueError), functions=[SO + "node_var"])


def solution_arith(ctx):
    from feax.solution import Solution
    lay = ((2, 1), (1, 2))
    ops = [("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("truediv", operator.truediv)]

    def fn(a, b, c):
        A, B = Solution(a, lay), Solution(b, lay)
        out = []
        for _, o in ops:
            out += [o(A, B), o(A, b), o(A, c), o(c, A), o(2.0, A), o(A, 3.0)]
        return out + [A ** 2, -A, A @ B, A @ b, jnp.stack([x for x in A[1:3]])]

    def spec(a, b, c):
        out = []
        for _, o in ops:
            out += [o(a, b), o(a, b), o(a, c), o(c, a), o(2.0, a), o(a, 3.0)]
        return out + [a ** 2, -a, jnp.sum(a * b), jnp.sum(a * b), a[1:3]]
    n = 4
    ctx.equal("Solution arithmetic is that of the flat vector", fn, spec, (Sx("a", (n,), .5, 2.), Sx("b", (n,), .5, 2.), Sx("c", (), .5, 2.)),
              functions=[SO + f"__{k}__" for k in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "neg", "matmul")], n_replay=2)

    def mm(a, M):
        A = Solution(a, lay)
        return [M @ A, A @ M]
    ctx.equal("Solution matrix products", lambda a, M: [Solution(a, lay).__rmatmul__(M), Solution(a, lay) @ M], lambda a, M: [M @ a, a @ M], (Sx("a", (n,)), Sx("M", (n, n))),
              functions=[SO + "__rmatmul__", SO + "__matmul__"], n_replay=1)


def _problem(kind):
    if kind == "scalar":
        return X.make_problem(X.mesh("TRI3", (2, 1), seed=1, distort=.05), 1, 2, "TRI3", {"get_tensor_map": lambda g, *a: g}, location_fns=[lambda p: p[0] <= .3, lambda p: p[1] >= .7])
    if kind == "vector":
        return X.make_problem(X.mesh("QUAD4", (1, 2), seed=2, distort=.05), 2, 2, "QUAD4", {"get_tensor_map": lambda g, *a: g}, location_fns=[lambda p: p[0] <= .3])
    if kind in ("upper", "lower"):
        return X.make_problem(X.mesh("TRI3", (2, 2), seed=1, distort=.05), 2, 2, "TRI3", {"get_tensor_map": lambda g, *a: g}, location_fns=[lambda p: p[0] <= .3], matrix_view=kind.upper())
    if kind == "3d":
        return X.make_problem(X.mesh("TET4", (1, 1, 1), seed=2, distort=.05), 3, 3, "TET4", {"get_tensor_map": lambda g, *a: g}, location_fns=[lambda p: p[0] <= .3])
    m1, m2 = X.mesh("QUAD8", (2, 1), distort=0.), X.mesh("QUAD4", (2, 1), distort=0.)
    return X.make_problem([m1, m2], [2, 1], 2, ["QUAD8", "QUAD4"], {"get_weak_form": lambda v, g, x, *a: (v, g)}, location_fns=[lambda p: p[0] <= .3])


def layout_of_problem(ctx):
    """problem.unflatten_fn_sol_list / ravel / Solution.from_problem / zero_like_initial_guess agree on one layout"""
    from feax.solution import Solution
    from feax.traced_params import TracedParams
    from feax.utils import zero_like_initial_guess
    from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
    import jax.flatten_util
    for kind in ("scalar", "vector", "multi", "3d"):
        pb = _problem(kind)
        lay = [(fe.num_total_nodes, fe.vec) for fe in pb.fes]
        n = sum(a * b for a, b in lay)

        def fn(d):
            L = pb.unflatten_fn_sol_list(d)
            s = Solution.from_problem(pb, d)
            back = jax.flatten_util.ravel_pytree(L)[0]
            nv = [TracedParams.node_var_from_solution(pb, d, component=c, var_index=i) for i in range(len(lay)) for c in range(lay[i][1])]
            nv += [TracedParams.node_var_from_solution(pb, s, component=c, var_index=i) for i in range(len(lay)) for c in range(lay[i][1])]
            return list(L), [s.field(i) for i in range(len(lay))], back, nv

        def spec(d):
            f = [jnp.stack([jnp.stack([d[pos(lay, i, a, c)] for c in range(lay[i][1])]) for a in range(lay[i][0])]) for i in range(len(lay))]
            nv = [f[i][:, c] for i in range(len(lay)) for c in range(lay[i][1])]
            return f, f, d, nv + nv
        ctx.equal(f"one unknown layout everywhere ({kind})", fn, spec, (Sx("d", (n,)),), n_replay=1,
                  functions=[SO + "from_problem", TP + "node_var_from_solution", "feax/problem.py:Problem.__post_init__"])
        loc = lambda p: p[0] <= .3
        bc = DirichletBCConfig([DirichletBCSpec(loc, 0, 1.5)]).create_bc(pb)
        rows = np.asarray(bc.bc_rows)

        def guess(v):
            return zero_like_initial_guess(pb, dataclasses.replace(bc, bc_vals=v))
        w = {int(r): k for k, r in enumerate(rows)}
        ctx.equal(f"zero guess holds the prescribed values and is zero elsewhere ({kind})", guess,
                  lambda v: jnp.stack([v[w[i]] if i in w else jnp.zeros(()) for i in range(n)]), (Sx("v", (len(rows),)),), functions=["feax/utils.py:zero_like_initial_guess"], n_replay=1)

        def bcrt(v, nv):
            b0 = dataclasses.replace(bc, bc_vals=v)
            l, t = jax.tree_util.tree_flatten(b0)
            b1 = jax.tree_util.tree_unflatten(t, l)
            b2 = b0.replace_vals(nv)
            b3 = jax.jit(lambda q: q)(b0)
            return [b1.bc_vals, b2.bc_vals, b3.bc_vals, b0.bc_vals] + [b.bc_rows * 1.0 for b in (b1, b2, b3)] + [b.bc_mask * 1.0 for b in (b1, b2, b3)] + [jnp.asarray(float(b.total_dofs)) for b in (b1, b2, b3)]

        def bcspec(v, nv):
            m = np.zeros(n)
            m[rows] = 1
            return [v, nv, v, v] + [jnp.asarray(rows * 1.0)] * 3 + [jnp.asarray(m)] * 3 + [jnp.asarray(float(n))] * 3
        ctx.equal(f"boundary-condition container keeps rows, mask and values ({kind})", bcrt, bcspec, (Sx("v", (len(rows),)), Sx("nv", (len(rows),))),
                  functions=["feax/DCboundary.py:_dirichletbc_flatten", "feax/DCboundary.py:_dirichletbc_unflatten", "feax/DCboundary.py:DirichletBC.replace_vals"], n_replay=1)


def params(ctx):
    from feax.traced_params import TracedParams
    for (nv, ns_) in [(0, []), (2, []), (1, [1]), (3, [2, 0, 1]), (0, [1, 3]), (1, [3, 1])]:
        vv = [Sx(f"v{i}", (2 + i,)) for i in range(nv)]
        sv = [[Sx(f"s{b}{i}", (2, 1 + i + b)) for i in range(k)] for b, k in enumerate(ns_)]

        def mkp(vv, sv):
            return TracedParams(tuple(vv), [tuple(s) for s in sv])

        def rt(vv, sv):
            t = mkp(vv, sv)
            l, d = jax.tree_util.tree_flatten(t)
            u = jax.tree_util.tree_unflatten(d, l)
            w = jax.jit(lambda q: q)(t)
            z = jax.tree_util.tree_map(lambda x: 3.0 * x, t)
            cnt = [jnp.asarray([1. * len(q.volume_vars)] + [1. * len(s) for s in q.surface_vars]) for q in (u, w, z)]
            return cnt + [[list(q.volume_vars), [list(s) for s in q.surface_vars]] for q in (u, w)] + [[[x / 3 for x in z.volume_vars], [[x / 3 for x in s] for s in z.surface_vars]]]
        if nv + sum(ns_):
            ctx.equal(f"coefficient container through transformations ({nv} volume, {ns_} surface)", rt,
                      lambda vv, sv: [jnp.asarray([1. * len(vv)] + [1. * len(s) for s in sv])] * 3 + [[list(vv), [list(s) for s in sv]]] * 3, (vv, sv),
                      functions=[TP + "tree_flatten", TP + "tree_unflatten"], n_replay=1)
        for i in range(nv):
            new = Sx("new", (7,))

            def rv(vv, sv, new, i=i):
                t = mkp(vv, sv)
                q = t.replace_volume_var(i, new)
                expect([len(s) for s in q.surface_vars] == ns_ and len(q.volume_vars) == nv, "number of coefficients")
                return [list(q.volume_vars), [list(s) for s in q.surface_vars], list(t.volume_vars)]
            ctx.equal(f"replacing volume coefficient {i} of ({nv}, {ns_}) changes only it", rv,
                      lambda vv, sv, new, i=i: [[new if j == i else v for j, v in enumerate(vv)], [list(s) for s in sv], list(vv)], (vv, sv, new), functions=[TP + "replace_volume_var"], n_replay=1)
        for b, k in enumerate(ns_):
            for i in range(k):
                def rs(vv, sv, new, b=b, i=i):
                    t = mkp(vv, sv)
                    q = t.replace_surface_var(b, i, new)
                    return [list(q.volume_vars), [list(s) for s in q.surface_vars], [list(s) for s in t.surface_vars]]
                ctx.equal(f"replacing surface coefficient {b},{i} of ({nv}, {ns_}) changes only it", rs,
                          lambda vv, sv, new, b=b, i=i: [list(vv), [[new if (j, m) == (b, i) else v for m, v in enumerate(s)] for j, s in enumerate(sv)], [list(s) for s in sv]],
                          (vv, sv, Sx("new", (5,))), functions=[TP + "replace_surface_var"], n_replay=1)
    # a Solution used directly as a coefficient is its nodal field
    from feax.solution import Solution

    def co(a, b, c):
        t = TracedParams((a, Solution(b, ((3, 1),)), Solution(c, ((2, 2),))))
        return list(t.volume_vars)
    ctx.equal("a solution passed as coefficient becomes its nodal field", co, lambda a, b, c: [a, b, c.reshape(2, 2)], (Sx("a", (2,)), Sx("b", (3,)), Sx("c", (4,))),
              functions=["feax/traced_params.py:_coerce_volume_var", TP + "__post_init__"], n_replay=1)
    ctx.bounded("a multi-field solution as coefficient is rejected", lambda: expect_raises(
        lambda: TracedParams((Solution(jnp.zeros(4), ((2, 1), (2, 1))),)), "ambiguous", ValueError), functions=["feax/traced_params.py:_coerce_volume_var"])


def constructors(ctx):
    """sampling constructors evaluate an arbitrary function at the documented points"""
    from feax.traced_params import TracedParams as T
    for kind in ("scalar", "vector", "multi", "3d"):
        pb = _problem(kind)
        d = pb.fes[0].dim
        f = uf.fun("coef", ())
        for vi in range(len(pb.fes)):
            fe = pb.fes[vi]
            P, C = np.asarray(fe.points), np.asarray(fe.cells)
            def fn(s, vi=vi):
                g = lambda x: f(x, s)
                return T.create_node_var_from_fn(pb, g, vi), T.create_cell_var_from_fn(pb, g, vi)

            def spec(s, P=P, C=C):
                g = lambda x: f(jnp.asarray(x), s)
                return jnp.stack([g(x) for x in P]), jnp.stack([g(P[c].mean(0)) for c in C])
            ctx.equal(f"node and cell sampling ({kind}, variable {vi})", fn, spec, (Sx("s", ()),), functions=[TP + "create_node_var_from_fn", TP + "create_cell_var_from_fn"], n_replay=1)

            def uni(s, vi=vi):
                return T.create_node_var(pb, s, vi), T.create_cell_var(pb, s, vi), T.create_uniform_volume_var(pb, s, vi)

            def unis(s, fe=fe):
                return jnp.ones(fe.num_total_nodes) * s, jnp.ones(pb.num_cells) * s, jnp.ones((pb.num_cells, fe.num_quads)) * s
            ctx.equal(f"uniform coefficients ({kind}, variable {vi})", uni, unis, (Sx("s", ()),), functions=[TP + "create_node_var", TP + "create_cell_var", TP + "create_uniform_volume_var"], n_replay=1)
        fe = pb.fes[0]
        q = np.asarray(fe.get_physical_quad_points()) if hasattr(fe, "get_physical_quad_points") else np.asarray(pb.physical_quad_points)
        P, C = np.asarray(fe.points), np.asarray(fe.cells)
        q = np.einsum("qa,cad->cqd", np.asarray(fe.shape_vals), P[C])
        ctx.equal(f"quadrature-point sampling ({kind})", lambda s: T.create_spatially_varying_volume_var(pb, lambda x: f(x, s)),
                  lambda s: jnp.stack([jnp.stack([f(jnp.asarray(x), s) for x in c]) for c in q]), (Sx("s", ()),), functions=[TP + "create_spatially_varying_volume_var"], n_replay=1)
        for b in range(len(pb.boundary_inds_list)):
            bi = np.asarray(pb.boundary_inds_list[b])
            fsv = np.asarray(fe.face_shape_vals)
            sq = np.stack([fsv[fc] @ P[C[c]] for c, fc in bi])
            ctx.equal(f"boundary sampling ({kind}, boundary {b})", lambda s, b=b: (T.create_spatially_varying_surface_var(pb, lambda x: f(x, s), b), T.create_uniform_surface_var(pb, s, b)),
                      lambda s, sq=sq: (jnp.stack([jnp.stack([f(jnp.asarray(x), s) for x in c]) for c in sq]), jnp.ones(sq.shape[:2]) * s), (Sx("s", ()),),
                      functions=[TP + "create_spatially_varying_surface_var", TP + "create_uniform_surface_var"], n_replay=1)


def structure(ctx):
    from feax.traced_structure import TracedStructure
    for kind in ("scalar", "vector", "multi", "3d", "upper", "lower"):
        def body(kind=kind):
            pb = _problem(kind)
            keep = {f.name: getattr(pb, f.name) for f in dataclasses.fields(TracedStructure) if hasattr(pb, f.name)}
            keep = {k: jax.tree_util.tree_map(np.array, list(v) if isinstance(v, (list, tuple)) else v) for k, v in keep.items()}
            for free in (False, True):
                ts = TracedStructure.from_problem(pb, free_scratch=free)
                l, t = jax.tree_util.tree_flatten(ts)
                u = jax.tree_util.tree_unflatten(t, l)
                w = jax.jit(lambda q: q)(ts)
                for q in (ts, u, w):
                    for k, v in keep.items():
                        a, b = jax.tree_util.tree_leaves(getattr(q, k)), jax.tree_util.tree_leaves(v)
                        expect(len(a) == len(b), k)
                        for x, y in zip(a, b):
                            expect_close(np.asarray(x), np.asarray(y), k)
        ctx.bounded(f"structure container holds the problem's arrays through transformations ({kind})", body,
                    functions=["feax/traced_structure.py:TracedStructure.from_problem", "feax/traced_structure.py:TracedStructure.tree_flatten"], bound="all fields of one problem")


def problem_container(ctx):
    """Problem is itself a container: flatten/unflatten gives an equivalent problem"""
    import feax.assembler as AS
    from feax.problem import Problem
    from feax.traced_params import TracedParams

    def one(kind, view, hess):
        maps = {"get_tensor_map": lambda g, *a: g + 0.1 * g ** 3} if kind != "multi" else \
            {"get_weak_form": lambda vals, grads, x: ([vals[0] ** 2, vals[1] ** 3], list(grads))}
        if kind == "info":
            class Pb(Problem):
                def custom_init(self, k, c):
                    self.k, self.c = k, c

                def get_tensor_map(self):
                    return lambda g: self.k * g + self.c * g ** 3
            pb = Pb(X.mesh("TRI3", (2, 2), seed=2), 2, 2, "TRI3", gauss_order=3, additional_info=(2.5, 0.5), matrix_view=view)
        elif kind == "multi":
            m = X.mesh("QUAD4", (2, 1), seed=1)
            pb = X.make_problem([m, m], [2, 1], 2, ["QUAD4"] * 2, maps, gauss_order=[3, 3], matrix_view=view, hess=hess)
        else:
            pb = X.make_problem(X.mesh("QUAD8" if kind == "quad" else "TET4", (2, 1) if kind == "quad" else (1, 1, 1), seed=3), 2,
                                F.DIM["QUAD8" if kind == "quad" else "TET4"], "QUAD8" if kind == "quad" else "TET4",
                                dict(maps, get_surface_maps=[lambda u, x: u * x[0] + 1.0]), gauss_order=2, location_fns=[X.xlo(0.3)],
                                matrix_view=view, hess=hess)
        dyn, static = pb.tree_flatten()
        expect(len(tuple(dyn)) == 0 or all(hasattr(d, "dtype") for d in jax.tree_util.tree_leaves(dyn)), "leaves of a problem")
        q = type(pb).tree_unflatten(static, dyn)
        expect(type(q) is type(pb) and q.num_total_dofs_all_vars == pb.num_total_dofs_all_vars, "type / size after the round trip")
        expect(q.matrix_view == pb.matrix_view, f"matrix view {q.matrix_view} instead of {pb.matrix_view}")
        expect(bool(q.hess) == bool(pb.hess), "second-derivative request lost")
        expect(len(q.fes) == len(pb.fes), "fields")
        for a, b in zip(q.fes, pb.fes):
            expect((a.vec, a.dim, a.ele_type, a.num_quads) == (b.vec, b.dim, b.ele_type, b.num_quads), "field description")
            for k in ("shape_vals", "shape_grads", "JxW", "cells", "points", "shape_hessians", "hess"):
                if isinstance(getattr(b, k, None), (np.ndarray, jax.Array)):
                    expect(isinstance(getattr(a, k, None), (np.ndarray, jax.Array)), k)
                    expect_close(np.asarray(getattr(a, k)), np.asarray(getattr(b, k)), k)
        rng = np.random.RandomState(0)
        u = jnp.asarray(rng.uniform(-1, 1, pb.num_total_dofs_all_vars))
        tp = TracedParams()
        for f in (lambda z: jnp.concatenate([r.ravel() for r in AS.get_res(z, z.unflatten_fn_sol_list(u), tp, X.ts_of(z))]),
                  lambda z: AS.get_jacobian(z, z.unflatten_fn_sol_list(u), tp, X.ts_of(z)).data):
            a, b = f(q), f(pb)
            expect(np.shape(a) == np.shape(b), "size of the assembled data")
            expect_close(np.asarray(a), np.asarray(b), "assembled data of the reconstructed problem")
    for kind in ("quad", "tet", "multi", "info"):
        for view, hess in (("FULL", False), ("UPPER", False), ("LOWER", False)) + ((("FULL", True),) if kind != "info" else ()):
            ctx.bounded(f"problem round trip {kind} {view} hess={hess}", lambda: one(kind, view, hess),
                        functions=["feax/problem.py:Problem.tree_flatten", "feax/problem.py:Problem.tree_unflatten"], bound="4 problems")


def batched(ctx):
    """batched containers behave element-wise"""
    from feax.traced_params import TracedParams
    from feax.assembler import get_res
    A = uf.fun("tensor_map", (1, 2))
    sm = uf.fun("surface_map", (1,))
    pb = X.make_problem(X.mesh("TRI3", (1, 1), seed=1, distort=.05), 1, 2, "TRI3", {"get_tensor_map": A, "get_surface_maps": [sm]}, location_fns=[lambda p: p[0] <= .3])
    n = pb.num_total_dofs_all_vars
    nf, nq = np.shape(pb.physical_surface_quad_points[0])[:2]

    def fn(u, k, s):
        return jax.vmap(lambda uu, tp: get_res(pb, pb.unflatten_fn_sol_list(uu), tp)[0])(u, TracedParams((k,), [(s,)]))

    def spec(u, k, s):
        return jnp.stack([get_res(pb, pb.unflatten_fn_sol_list(u[i]), TracedParams((k[i],), [(s[i],)]))[0] for i in range(3)])
    ctx.equal("a batch of coefficient containers is assembled element-wise", fn, spec, (Sx("u", (3, n)), Sx("k", (3, pb.num_cells)), Sx("s", (3, nf, nq))),
              functions=[TP + "tree_unflatten", "feax/assembler.py:get_res"], n_replay=1)

    def solver():
        import feax as fe
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        m = X.mesh("TRI3", (2, 2), distort=0.)
        p2 = X.make_problem(m, 2, 2, "TRI3", {"get_tensor_map": lambda g, k: k * g, "get_mass_map": lambda u, x, k: u - x})
        bc = DirichletBCConfig([DirichletBCSpec(lambda p: p[0] < .1, "all", .2)]).create_bc(p2)
        s = fe.create_solver(p2, bc, fe.KrylovSolverOptions(solver="cg", tol=1e-12), linear=True)
        raw = fe.create_solver(p2, bc, fe.KrylovSolverOptions(solver="cg", tol=1e-12), linear=True, return_solution=False)
        k = jnp.asarray(ctx.rng("s").uniform(.5, 2, (3, p2.num_cells)))
        B = jax.vmap(lambda kk: s(TracedParams((kk,))))(k)
        for i in range(3):
            one = s(TracedParams((k[i],)))
            expect_close(one.dofs, raw(TracedParams((k[i],))), "solution object wraps the raw vector", rtol=1e-9)
            expect_close(B.field(0)[i], one.field(0), "batched solution", rtol=1e-8, atol=1e-9)
            expect(one.layout == ((m.points.shape[0], 2),), "layout")
        return 3
    ctx.bounded("solver returns a solution whose batches are element-wise", solver, functions=["feax/solver.py:create_solver", SO + "from_problem"], bound="3 samples")


GROUPS = [solution_views, solution_arith, layout_of_problem, params, constructors, structure, problem_container, batched]
