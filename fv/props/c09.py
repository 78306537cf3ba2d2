"""C09: homogenization returns the effective stiffness of the unit cell."""
import contextlib
import sys
import types
import warnings
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, solvlib as S, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip
from fv.props.c08 import box, cell_of

H = "feax/flat/solver.py:"
U = "feax/flat/utils.py:"
V3 = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
V2 = [(0, 0), (1, 1), (0, 1)]


def strain(k, d):
    """tensor strain of the k-th unit Voigt strain (engineering shear)"""
    e = np.zeros((3, 3))
    i, j = (V3 if d == 3 else V2)[k]
    e[i, j] += .5
    e[j, i] += .5
    return e


def macro(ctx):
    from feax.flat.solver import macro_displacement
    for d in (2, 3):
        for n in (1, 5):
            def fn(x, e):
                return macro_displacement(types.SimpleNamespace(points=x), e)

            def spec(x, e):
                return jnp.concatenate([jnp.stack([sum(e[i, j] * x[a, j] for j in range(d)) for i in range(d)]) for a in range(n)])
            ctx.equal(f"affine displacement {d}-D, {n} nodes", fn, spec, (Sx("x", (n, d)), Sx("eps", (3, 3))), functions=[H + "macro_displacement"])


def unit_strains(ctx):
    from feax.flat import solver as M

    def body(d):
        P = np.asarray(M.UNIT_STRAINS_3D if d == 3 else M.UNIT_STRAINS_2D)
        expect_close(P, np.stack([strain(k, d) for k in range(len(P))]), "unit strains")
        expect(len(P) == (6 if d == 3 else 3), "count")
    for d in (2, 3):
        ctx.bounded(f"unit strain tensors {d}-D", lambda d=d: body(d), functions=[H + "UNIT_STRAINS"], bound="exhaustive")


def spec_average(pb, u, geo, vv, kinds, tensor, d):
    fe = pb.fes[0]
    cells = np.asarray(fe.cells)
    u = u.reshape(-1, fe.vec)
    tot, vol = 0.0, 0.0
    for c in range(pb.num_cells):
        for q in range(fe.num_quads):
            g = sum(jnp.outer(u[int(cells[c, a])], geo["shape_grads"][c, q, a]) for a in range(fe.num_nodes))
            w = geo["JxW"][c, 0, q]
            tot = tot + w * tensor(g, *[X.spec_volume_var(pb, v, k, c, q) for v, k in zip(vv, kinds)])
            vol = vol + w
    s = tot / vol
    return jnp.stack([s[i, j] for i, j in (V3 if d == 3 else V2)])


def _avg(ctx, items):
    from feax.flat.solver import average_stress
    from feax.traced_params import TracedParams
    for (ele, ns, kinds) in items:
        d = F.DIM[ele]
        t = uf.fun("tensor_map", (d, d))
        pb = X.make_problem(X.mesh(ele, ns, seed=2, distort=.1), d, d, ele, {"get_tensor_map": t})
        fe = pb.fes[0]
        geo = {"shape_grads": np.asarray(pb.shape_grads), "JxW": np.asarray(pb.JxW)}
        shp = {"cell": (pb.num_cells,), "node": (fe.num_total_nodes,), "quad": (pb.num_cells, fe.num_quads)}
        vv = [Sx(f"iv{k}", shp[kd], .5, 2.) for k, kd in enumerate(kinds)]
        ctx.equal(f"average stress {ele} {ns} coefficients {kinds}", lambda u, vv: average_stress(pb, u, TracedParams(tuple(vv)), d),
                  lambda u, vv: spec_average(pb, u, geo, vv, kinds, t, d), (Sx("u", (pb.num_total_dofs_all_vars,)), vv),
                  functions=[H + "average_stress"], n_replay=2)


def average(ctx):
    _avg(ctx, [("TRI3", (1, 1), ("cell",)), ("QUAD4", (2, 1), ("node", "cell")), ("TRI3", (2, 3), ("node",)), ("TET4", (1, 1, 1), ("cell", "quad"))])


def average_b(ctx):
    _avg(ctx, [("HEX8", (1, 1, 1), ("node",)), ("QUAD8", (1, 1), ("cell",)), ("TRI6", (1, 1), ("quad", "node"))]
         + ([("HEX8", (2, 1, 1), ("cell",)), ("TET10", (1, 1, 1), ("node",))] if ctx.thorough else []))


class HCase:
    """a unit cell with k * C : eps"""

    def __init__(self, ele, ns, lo=None, L=None, pin=None, C=None, seed=0):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        from feax.flat.pbc import periodic_bc_2D, periodic_bc_3D, prolongation_matrix
        d = len(ns)
        lo, L = lo or (0.,) * d, L or (1.,) * d
        self.m = m = box(ele, ns, lo, L)
        nv = 6 if d == 3 else 3
        if C is None:
            B = np.random.RandomState(seed).uniform(-.3, .3, (nv, nv))
            C = B @ B.T + np.eye(nv)
        self.C, self.d, self.nv = C, d, nv
        self.vm = V3 if d == 3 else V2
        vm = self.vm

        def sig(g, k):
            e = jnp.stack([g[i, j] if i == j else g[i, j] + g[j, i] for i, j in vm])
            s = k * (jnp.asarray(C) @ e)
            out = jnp.zeros((d, d))
            for a, (i, j) in enumerate(vm):
                out = out.at[i, j].set(s[a]).at[j, i].set(s[a])
            return out
        self.sig = sig
        self.p = X.make_problem(m, d, d, ele, {"get_tensor_map": sig})
        self.P = prolongation_matrix((periodic_bc_2D if d == 2 else periodic_bc_3D)(cell_of(m), vec=d), m, d)
        pts = np.asarray(m.points)
        specs = []
        if pin is not None:
            inner = [i for i in range(len(pts)) if not np.any(np.isclose(pts[i], lo) | np.isclose(pts[i], np.asarray(lo) + L))]
            q0 = jnp.asarray(pts[inner[pin]])
            specs = [DirichletBCSpec(lambda q: jnp.all(jnp.isclose(q, q0)), "all", 0.)]
        self.bc = DirichletBCConfig(specs).create_bc(self.p)
        self.n, self.nc = self.p.num_total_dofs_all_vars, self.p.num_cells

    def tp(self, k):
        from feax.traced_params import TracedParams
        return TracedParams(volume_vars=(k,))

    def R(self, u, tp):
        from feax.assembler import get_res
        import jax.flatten_util
        return jax.flatten_util.ravel_pytree(get_res(self.p, self.p.unflatten_fn_sol_list(u), tp))[0]

    def ref(self, k):
        """dense reference: minimum-norm periodic fluctuation, energy-consistent stiffness"""
        D = jnp.asarray(self.P.todense())
        tp = self.tp(k)
        K = jax.jacfwd(lambda u: self.R(u, tp))(jnp.zeros(self.n))
        A = D.T @ K @ D
        # remove the rigid translations by pinning one reduced node
        d = self.d
        keep = jnp.asarray(np.arange(d, A.shape[0]))
        x = np.asarray(self.m.points)
        vol = float(np.prod(x.max(0) - x.min(0)))
        us = []
        for c in range(self.nv):
            um = jnp.asarray((x @ strain(c, d)[:d, :d].T).ravel())
            f = jnp.linalg.solve(A[keep][:, keep], -(D.T @ K @ um)[keep])
            us.append(um + D @ jnp.zeros(A.shape[0]).at[keep].set(f))
        W = jnp.stack(us)
        return W @ K @ W.T / vol


@contextlib.contextmanager
def unrolled_map():
    """jax.lax.map(f, xs) = stack of f(x) (its documented meaning)"""
    old = jax.lax.map
    jax.lax.map = lambda f, xs, **k: jax.tree_util.tree_map(lambda *a: jnp.stack(a), *[f(x) for x in xs])
    try:
        yield
    finally:
        jax.lax.map = old


def assembly_of_columns(ctx):
    """given the fluctuation solver's contract (C08), the columns are the averaged stresses of the unit strains"""
    from feax.flat import solver as M
    for (ele, ns) in [("TRI3", (1, 1)), ("QUAD4", (2, 2)), ("TET4", (1, 1, 1)), ("HEX8", (1, 1, 1))]:
        c = HCase(ele, ns, lo=(.5, -1., 2.)[:len(ns)], L=(1., 2., .5)[:len(ns)])
        d = c.d
        geo = {"shape_grads": np.asarray(c.p.shape_grads), "JxW": np.asarray(c.p.JxW)}
        pts = np.asarray(c.m.points)
        opt = None

        def fn(us, k):
            rec = []

            def stub(problem, bc, options=None, *a, P=None, **kw):
                if problem is not c.p or P is not c.P or bc is not c.bc:
                    raise Skip("solver built differently")

                def solve(tp, ig=None, *a, **k_):
                    rec.append(ig)
                    return us[len(rec) - 1]
                return solve
            with S.patched("feax.flat.solver", "create_solver", stub), unrolled_map():
                r = M.create_homogenization_solver(c.p, c.bc, c.P, c.m, opt, dim=d)(c.tp(k))
            return r.C_hom, r.u_totals, r.u_macros, jnp.stack(rec)

        def spec(us, k):
            C = jnp.stack([spec_average(c.p, us[j], geo, [k], ["cell"], c.sig, d) for j in range(c.nv)], axis=1)
            um = jnp.stack([jnp.asarray((pts @ strain(j, d)[:d, :d].T).ravel()) for j in range(c.nv)])
            return C, us, um, um
        ctx.equal(f"homogenized matrix {ele} {ns}: column j is the averaged stress of the j-th unit strain", fn, spec,
                  (Sx("us", (c.nv, c.n)), Sx("k", (c.nc,), .5, 2.)), functions=[H + "create_homogenization_solver", H + "average_stress", H + "macro_displacement"],
                  replay=(lambda us, k: M.create_homogenization_solver(c.p, c.bc, c.P, c.m, _cg(), dim=d)(c.tp(k)).C_hom, lambda us, k: c.ref(k)), tol=1e-6, n_replay=1)


def _cg():
    import feax as fe
    return fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-15, maxiter=4000)


def homogeneous(ctx):
    """lemmas: in a homogeneous cell the affine field is in equilibrium with every periodic variation and its averaged
    stress is C eps, for every stiffness matrix C (so the effective stiffness is C)"""
    from feax.flat.solver import average_stress, macro_displacement
    from feax.assembler import get_res
    from feax.traced_params import TracedParams
    import jax.flatten_util
    for (ele, ns) in [("QUAD4", (2, 2)), ("TRI3", (2, 2)), ("HEX8", (2, 1, 1)), ("TET4", (1, 1, 1))] + ([("QUAD8", (2, 2)), ("HEX8", (2, 2, 2))] if ctx.thorough else []):
        d = len(ns)
        nv = 6 if d == 3 else 3
        vm = V3 if d == 3 else V2
        from feax.flat.pbc import periodic_bc_2D, periodic_bc_3D, prolongation_matrix
        m = box(ele, ns, (.5, -1., 2.)[:d], (1., 2., .5)[:d])

        def parts(C, e):
            def sig(g, k):
                v = jnp.stack([g[i, j] if i == j else g[i, j] + g[j, i] for i, j in vm])
                s = C @ v
                return jnp.stack([jnp.stack([s[[a for a, t in enumerate(vm) if t in ((i, j), (j, i))][0]] for j in range(d)]) for i in range(d)])
            pb = X.make_problem(m, d, d, ele, {"get_tensor_map": sig})
            with jax.ensure_compile_time_eval():
                P = prolongation_matrix((periodic_bc_2D if d == 2 else periodic_bc_3D)(cell_of(m), vec=d), m, d)
            E = jnp.zeros((3, 3))
            for a, (i, j) in enumerate(vm):
                E = E.at[i, j].set(e[a] if i == j else e[a] / 2).at[j, i].set(e[a] if i == j else e[a] / 2)
            u = macro_displacement(m, E)
            tp = TracedParams((jnp.ones(pb.num_cells),))
            r = jax.flatten_util.ravel_pytree(get_res(pb, pb.unflatten_fn_sol_list(u), tp))[0]
            return P.T @ r, average_stress(pb, u, tp, d)

        def spec(C, e):
            from feax.flat.pbc import periodic_bc_2D
            n = len(np.unique(np.round(np.mod((np.asarray(m.points) - np.asarray(m.points).min(0)) / np.asarray(np.ptp(np.asarray(m.points), axis=0)) + 1e-9, 1.0), 6), axis=0)) * d
            return jnp.zeros(n), C @ e
        ctx.equal(f"homogeneous cell {ele} {ns}: affine field is periodic equilibrium and its averaged stress is C eps", parts, spec,
                  (Sx("C", (nv, nv)), Sx("e", (nv,))), functions=[H + "average_stress", H + "macro_displacement", "feax/assembler.py:get_res", "feax/flat/pbc.py:prolongation_matrix"], n_replay=1)


def real_a(ctx):
    _real(ctx, 0)


def real_b(ctx):
    _real(ctx, 1)


def real_c(ctx):
    _real(ctx, 2)


def _real(ctx, part):
    """whole solver on sampled heterogeneous cells against a dense energy reference"""
    from feax.flat.solver import create_homogenization_solver
    items = [("QUAD4 origin", HCase("QUAD4", (3, 3)), "cg"), ("QUAD4 shifted, interior pin", HCase("QUAD4", (4, 3), lo=(-1., 2.), L=(2., 1.), pin=0, seed=1), "cg"),
             ("TRI3 pin far from origin", HCase("TRI3", (3, 3), lo=(3., 3.), pin=2, seed=2), "cg"),
             ("HEX8 centred", HCase("HEX8", (2, 2, 2), lo=(-.5, -.5, -.5), seed=3), "cg"), ("HEX8 interior pin", HCase("HEX8", (2, 2, 2), L=(1., 2., 1.), pin=0, seed=4), "cg"),
             ("QUAD4 direct options", HCase("QUAD4", (3, 2), seed=5), "direct"), ("default options", HCase("TRI3", (2, 2), seed=6), None)]
    import feax as fe
    for k0, (nm, c, kind) in list(enumerate(items))[part::3]:
        def body(c=c, kind=kind, k0=k0):
            o = {"cg": _cg(), "direct": fe.DirectSolverOptions(), None: None}[kind]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = create_homogenization_solver(c.p, c.bc, c.P, c.m, o, dim=c.d)
            for j in range(2):
                r = ctx.rng(nm, j)
                k = jnp.asarray(r.uniform(.2, 2., c.nc))
                tol = 1e-6 if kind else 1e-4
                Ch = s(c.tp(k)).C_hom
                expect_close(Ch, c.ref(k), "effective stiffness", rtol=tol, atol=tol)
                expect_close(Ch, Ch.T, "symmetry", rtol=tol, atol=10 * tol)
                vols = np.asarray(c.p.JxW)[:, 0].sum(1)
                voigt = float((vols * np.asarray(k)).sum() / vols.sum()) * c.C
                reuss = c.C / float((vols / np.asarray(k)).sum() / vols.sum())
                expect(np.linalg.eigvalsh(voigt - np.asarray(Ch + Ch.T) / 2).min() > -1e-5, "above the arithmetic average")
                expect(np.linalg.eigvalsh(np.asarray(Ch + Ch.T) / 2 - reuss).min() > -1e-5, "below the harmonic average")
                expect_close(s(c.tp(jnp.ones(c.nc) * 1.7)).C_hom, 1.7 * c.C, "homogeneous cell", rtol=tol, atol=10 * tol)
            if kind == "cg":
                W = jnp.asarray(ctx.rng(nm, 7).uniform(-1, 1, (c.nv, c.nv)))
                g = jax.grad(lambda k: jnp.sum(W * s(c.tp(k)).C_hom))(k)
                gr = jax.grad(lambda k: jnp.sum(W * c.ref(k)))(k)
                expect_close(g, gr, "gradient with respect to the coefficient field", rtol=1e-5, atol=1e-5)
                expect_close(jax.jit(s)(c.tp(k)).C_hom, c.ref(k), "jitted", rtol=1e-6, atol=1e-6)
            return 2
        ctx.bounded(f"effective stiffness {nm}", body, functions=[H + "create_homogenization_solver", "feax/solvers/reduced.py:create_reduced_solver"], bound="2 coefficient fields")


def layered(ctx):
    """layers normal to x: exact series/parallel laws for every direction"""
    from feax.flat.solver import create_homogenization_solver
    for (ele, ns, lo) in [("QUAD4", (4, 2), (0., 0.)), ("TRI3", (4, 2), (-1., 1.))]:
        c = HCase(ele, ns, lo=lo)

        def body(c=c):
            s = create_homogenization_solver(c.p, c.bc, c.P, c.m, _cg(), dim=2)
            x = np.asarray(c.m.points)[np.asarray(c.p.fes[0].cells)].mean(1)[:, 0]
            for j in range(2):
                vals = ctx.rng("lay" + ele, j).uniform(.3, 3, 8)
                n = ns[0]
                k = vals[np.clip(((x - lo[0]) * n).astype(int), 0, n - 1)]
                Ch = np.asarray(s(c.tp(jnp.asarray(k))).C_hom)
                C = c.C
                N, T = [0, 2], [1]          # continuous stresses (xx, xy) / continuous strain (yy)
                lay = vals[:n]
                h = np.mean(1 / lay) * np.linalg.inv(C[np.ix_(N, N)])
                NN = np.linalg.inv(h)
                NT = NN @ np.linalg.inv(C[np.ix_(N, N)]) @ C[np.ix_(N, T)]
                TT = np.mean(lay) * (C[np.ix_(T, T)] - C[np.ix_(T, N)] @ np.linalg.inv(C[np.ix_(N, N)]) @ C[np.ix_(N, T)]) + NT.T @ np.linalg.inv(NN) @ NT
                E = np.zeros((3, 3))
                E[np.ix_(N, N)], E[np.ix_(N, T)], E[np.ix_(T, N)], E[np.ix_(T, T)] = NN, NT, NT.T, TT
                expect_close(Ch, E, "layered cell", rtol=1e-6, atol=1e-6)
            return 2
        ctx.bounded(f"layered cell {ele} follows the exact lamination formula", body, functions=[H + "create_homogenization_solver"], bound="2 stackings")


def directional(ctx):
    from feax.flat.utils import compute_directional_youngs_modulus, visualize_stiffness_sphere

    def fn(Sm, n):
        old = jnp.linalg.inv
        jnp.linalg.inv = lambda C: Sm            # contract of the dependency: the compliance is the inverse stiffness
        try:
            return 1.0 / compute_directional_youngs_modulus(jnp.eye(6), n)
        finally:
            jnp.linalg.inv = old

    def spec(Sm, n):
        s = jnp.stack([n[i] * n[j] for i, j in V3])       # uniaxial unit stress n x n in Voigt form
        return s @ (Sm @ s)
    ctx.equal("directional modulus: 1/E(n) = s(n) : S : s(n)", fn, spec, (Sx("S", (6, 6)), Sx("n", (3,))), functions=[U + "compute_directional_youngs_modulus"])

    def num():
        for j in range(4):
            r = ctx.rng("dir", j)
            B = r.uniform(-.5, .5, (6, 6))
            C = B @ B.T + np.eye(6)
            n = r.normal(size=3)
            n /= np.linalg.norm(n)
            s = np.array([n[i] * n[k] for i, k in V3])
            expect_close(compute_directional_youngs_modulus(jnp.asarray(C), jnp.asarray(n)), 1 / (s @ np.linalg.inv(C) @ s), "E(n)")
        return 4
    ctx.bounded("directional modulus on sampled stiffness", num, functions=[U + "compute_directional_youngs_modulus"], bound="4 samples")

    def sphere(nt, nph):
        import tempfile, os, meshio
        C = np.diag([1., 2., 3., .5, .6, .7])
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "s.vtk")
            st = visualize_stiffness_sphere(jnp.asarray(C), f, n_theta=nt, n_phi=nph)
            m = meshio.read(f)
        # the cells are a covering of the whole sphere of directions (each once)
        u = m.points / np.linalg.norm(m.points, axis=1)[:, None]
        q = np.concatenate([b.data for b in m.cells if b.type == "quad"])
        tri = np.concatenate([q[:, [0, 1, 2]], q[:, [0, 2, 3]]])
        area = .5 * np.linalg.norm(np.cross(u[tri[:, 1]] - u[tri[:, 0]], u[tri[:, 2]] - u[tri[:, 0]]), axis=1).sum()
        expect(.85 * 4 * np.pi < area <= 4 * np.pi + 1e-6, "the cells cover every direction once", area=area, shape=(nt, nph))
        cen = u[q].mean(1)
        expect(np.abs(np.einsum("q,qi->i", np.ones(len(q)) * np.linalg.norm(np.cross(u[q[:, 2]] - u[q[:, 0]], u[q[:, 3]] - u[q[:, 1]]), axis=1), cen)).max() < .05 * area,
               "the covering is balanced", shape=(nt, nph))
        E = m.point_data["youngs_modulus"]
        expect_close(st["E_max"], E.max(), "max", rtol=1e-6)
        expect_close(st["E_min"], E.min(), "min", rtol=1e-6)
        expect_close(st["anisotropy_ratio"], E.max() / E.min(), "ratio", rtol=1e-6)
        nrm = np.linalg.norm(m.points, axis=1)
        expect_close(nrm, E / E.max(), "radius is the normalized modulus", rtol=1e-6, atol=1e-6)
        for p, e in zip(m.points, E):
            n = p / np.linalg.norm(p)
            s = np.array([n[i] * n[k] for i, k in V3])
            expect_close(e, 1 / (s @ np.linalg.inv(C) @ s), "modulus stored at its direction", rtol=1e-5, atol=1e-5)
    for nt, nph in ((9, 9), (13, 16), (14, 11)):
        ctx.bounded(f"stiffness sphere stores E(n) at direction n ({nt}x{nph})", lambda: sphere(nt, nph), functions=[U + "visualize_stiffness_sphere"],
                    bound="3 grids of directions")


def rejects(ctx):
    from feax.flat.solver import create_homogenization_solver
    c = HCase("TRI3", (2, 2))
    for d in (0, 1, 4):
        ctx.bounded(f"dim={d} is rejected", lambda d=d: expect_raises(lambda: create_homogenization_solver(c.p, c.bc, c.P, c.m, None, dim=d), "dim", ValueError),
                    functions=[H + "create_homogenization_solver"])


def factor_once(ctx):
    """the direct factor-once path with the sparse factorization replaced by its contract (a dense solve)"""
    def body():
        import feax as fe
        from feax.flat import solver as M
        fs = types.ModuleType("spineax.cudss.factor_solve")

        def factorize(data, indptr, indices, **k):
            n = indptr.shape[0] - 1
            rows = jnp.repeat(jnp.arange(n), jnp.diff(indptr), total_repeat_length=indices.shape[0])
            return jnp.zeros((n, n)).at[rows, indices].add(data)
        fs.factorize, fs.solve_with = factorize, lambda t, b: jnp.linalg.solve(t, b)
        mods = {"spineax": types.ModuleType("spineax"), "spineax.cudss": types.ModuleType("spineax.cudss"), "spineax.cudss.factor_solve": fs}
        old = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        try:
            with S.patched("feax.flat.solver", "has_cudss", lambda: True):
                for c in (HCase("QUAD4", (3, 3), seed=8), HCase("TRI3", (2, 2), lo=(1., 1.), seed=9), HCase("HEX8", (2, 2, 2), seed=2)):
                    s = M.create_homogenization_solver(c.p, c.bc, c.P, c.m, fe.DirectSolverOptions(), dim=c.d)
                    k = jnp.asarray(ctx.rng("fo").uniform(.3, 2, c.nc))
                    r = s(c.tp(k))
                    expect_close(r.C_hom, c.ref(k), "effective stiffness", rtol=1e-7, atol=1e-7)
                    W = jnp.asarray(ctx.rng("fo", 2).uniform(-1, 1, (c.nv, c.nv)))
                    expect_close(jax.grad(lambda k: jnp.sum(W * s(c.tp(k)).C_hom))(k), jax.grad(lambda k: jnp.sum(W * c.ref(k)))(k), "gradient", rtol=1e-6, atol=1e-6)
        finally:
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        return 3
    ctx.bounded("direct factor-once homogenization (sparse factorization replaced by its contract)", body, functions=[H + "_create_direct_homogenization_solve"],
                private=True, bound="3 cells, 1 coefficient field")


GROUPS = [macro, unit_strains, average, average_b, assembly_of_columns, homogeneous, real_a, real_b, real_c, layered, directional, rejects, factor_once]
