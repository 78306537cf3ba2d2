"""C12: structured multigrid elasticity."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symnp, solvlib as SL, ring
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

M = "feax/solvers/cmg.py:NarrowBandCMG."
CORN = list(itertools.product((0, 1), repeat=3))


def lame_parts():
    """(K_lambda, K_mu): the element stiffness of the unit cube is lam*K_lambda + mu*K_mu; exact integration of the
    trilinear element, corners with the last axis fastest"""
    x, w = F.gauss1(3)
    Kl, Km = np.zeros((24, 24)), np.zeros((24, 24))
    for (a, wa), (b, wb), (c, wc) in itertools.product(zip(x, w), repeat=3):
        p = (a, b, c)
        dN = np.zeros((8, 3))
        for n, s in enumerate(CORN):
            f = [p[d] if s[d] else 1 - p[d] for d in range(3)]
            g = [1. if s[d] else -1. for d in range(3)]
            for d in range(3):
                dN[n, d] = np.prod([g[e] if e == d else f[e] for e in range(3)])
        W = wa * wb * wc
        for i in range(24):
            gi = np.zeros((3, 3))
            gi[i % 3] = dN[i // 3]
            ei = (gi + gi.T) / 2
            for j in range(24):
                gj = np.zeros((3, 3))
                gj[j % 3] = dN[j // 3]
                ej = (gj + gj.T) / 2
                Kl[i, j] += W * np.trace(ei) * np.trace(ej)
                Km[i, j] += W * 2 * np.sum(ei * ej)
    return Kl, Km


_P = {}


def KE_ref(nu, E=1.0):
    if not _P:
        _P["p"] = lame_parts()
    Kl, Km = _P["p"]
    return Kl * (E * nu / ((1 + nu) * (1 - 2 * nu))) + Km * (E / (2 * (1 + nu)))


def edofs(dims, cells):
    """(edof, nodes) on the compact band: node numbering = sorted global ids"""
    nx, ny, nz = dims
    cells = np.asarray(cells)
    ex, ey, ez = cells // (ny * nz), cells // nz % ny, cells % nz
    cn = np.stack([((ex + a) * (ny + 1) + ey + b) * (nz + 1) + ez + c for a, b, c in CORN], 1)
    nodes = np.unique(cn)
    loc = np.searchsorted(nodes, cn)
    return (3 * loc[:, :, None] + np.arange(3)).reshape(len(cells), 24), nodes


def K_of(dims, cells, E, nu):
    ed, nodes = edofs(dims, cells)
    K = np.zeros((3 * len(nodes), 3 * len(nodes)))
    ke = KE_ref(nu)
    for e, m in zip(ed, E):
        K[np.ix_(e, e)] += m * ke
    return K, nodes


def ijk_of(dims, nodes):
    ny1, nz1 = dims[1] + 1, dims[2] + 1
    return nodes // (ny1 * nz1), nodes // nz1 % ny1, nodes % nz1


def element(ctx):
    def fn(nu, E):
        import feax.solvers.cmg as C

        class LA:
            det = staticmethod(lambda a: float(np.linalg.det(np.asarray(a, float))))
            solve = staticmethod(lambda a, b: np.linalg.solve(np.asarray(a, float), np.asarray(b, float)))
            inv = staticmethod(lambda a: np.linalg.inv(np.asarray(a, float)))
        with symnp.numpy_as_symbolic(C) as sh:
            sh.linalg = LA
            return np.asarray(C.make_KE_3d(nu.item() if hasattr(nu, "item") else nu, E.item() if hasattr(E, "item") else E), dtype=object)

    def rep(nu, E):
        import feax.solvers.cmg as C
        return C.make_KE_3d(float(nu), float(E))

    def spec(nu, E):
        nu, E = (v.item() if hasattr(v, "item") else v for v in (nu, E))
        KE_ref(.3)
        Kl, Km = _P["p"]
        a, b = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
        return np.array([[Kl[i, j] * a + Km[i, j] * b for j in range(24)] for i in range(24)], dtype=object)
    ctx.equal("element stiffness of the unit cube is the exact integral (all Poisson ratios and moduli)", fn, spec, (Sx("nu", (), .05, .45), Sx("E", (), .5, 3.)),
              engine="host", functions=["feax/solvers/cmg.py:make_KE_3d"], replay=(rep, lambda a, b: np.asarray(KE_ref(float(a), float(b)), float)))

    def blocks():
        import feax.solvers.cmg as C
        K = C.make_KE_3d(.27, 2.)
        expect_close(K, KE_ref(.27, 2.), "element stiffness")
        from feax.spgrid import StructuredGrid
        g = StructuredGrid((2, 2, 2))
        for nu in (0., .2, .4):
            c = C.NarrowBandCMG(g, lambda i, j, k, a, b, d: i == 0, nu=nu)
            expect_close(c.KE, KE_ref(nu), "stiffness used by the solver")
        return 4
    ctx.bounded("the solver uses the stiffness of its Poisson ratio", blocks, functions=[M + "__init__"])

    def levels():
        from feax.solvers.cmg import auto_levels
        k = 0
        for d in itertools.product((1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33), repeat=3):
            for floor in (1, 2, 4, 8):
                L = auto_levels(d, floor=floor)
                e, n = list(d), 1
                while min(e) > floor:
                    e, n = [-(-x // 2) for x in e], n + 1
                expect(L == n, "number of levels", dims=d, floor=floor)
                k += 1
        return k
    ctx.bounded("auto_levels halves (rounding up) to the floor", levels, functions=["feax/solvers/cmg.py:auto_levels"])


BANDS = [((2, 2, 2), None, 1), ((2, 3, 2), [0, 1, 4, 5, 7], 2), ((4, 2, 3), None, 2), ((5, 3, 3), "rand", 2), ((3, 4, 5), "rand", 3), ((4, 4, 4), "shell", 3)]


def band(dims, kind, seed=0):
    n = int(np.prod(dims))
    rng = np.random.RandomState(seed)
    if kind is None:
        return np.arange(n)
    if kind == "rand":  # connected to the support: keep a full column band
        keep = rng.uniform(size=n) < .7
        keep[: dims[1] * dims[2]] = True
        k = keep.reshape(dims)
        r = np.zeros(dims, bool)
        r[0] = True
        for _ in range(sum(dims)):  # cells attached to the support through faces (others would be mechanisms)
            s = r.copy()
            for ax in range(3):
                a = np.moveaxis(r, ax, 0)
                b = np.moveaxis(s, ax, 0)
                b[1:] |= a[:-1]
                b[:-1] |= a[1:]
            r = s & k
        return np.nonzero(r.ravel())[0]
    if kind == "shell":
        i, j, k = np.unravel_index(np.arange(n), dims)
        m = (i == 0) | (j == 0) | (k == dims[2] - 1)
        return np.nonzero(m)[0]
    return np.array(kind)


def structure(ctx):
    from feax.spgrid import StructuredGrid
    from feax.narrowband import NarrowBand
    from feax.solvers.cmg import NarrowBandCMG

    def build():
        k = 0
        for dims, kind, L in BANDS:
            for seed in range(3):
                g = StructuredGrid(dims)
                pred = [lambda i, j, l, a, b, c: i == 0, lambda i, j, l, a, b, c: l == c, lambda i, j, l, a, b, c: (j == 0) & (i == a)][seed]
                cells = band(dims, kind, seed)
                cmg = NarrowBandCMG(g, pred, n_levels=L)
                lv = cmg.build(np.random.RandomState(1).permutation(cells))
                expect(len(lv) == L, "levels")
                d, c = dims, cells
                for l in range(L):
                    ed, nodes = edofs(d, c)
                    expect(np.array_equal(lv[l]["cells"], c), "active cells of the level", dims=dims, level=l)
                    expect(np.array_equal(lv[l]["nodes"], nodes), "nodes of the level", dims=dims, level=l)
                    expect(np.array_equal(lv[l]["edof_c"], ed), "element unknowns", dims=dims, level=l)
                    ijk = ijk_of(d, nodes)
                    free = ~pred(*ijk, *d)
                    expect_close(lv[l]["free"], np.repeat(free.astype(float), 3), "free unknowns", dims=dims, level=l)
                    if l < L - 1:
                        cd = tuple(-(-x // 2) for x in d)
                        i, j, q = c // (d[1] * d[2]), c // d[2] % d[1], c % d[2]
                        cc = np.unique(((i // 2) * cd[1] + j // 2) * cd[2] + q // 2)
                        _, cn = edofs(cd, cc)
                        # prolongation: rows sum to one and reproduce every trilinear field of the coarse grid
                        Pi, Pw = lv[l]["P_idx"], lv[l]["P_w"]
                        ci = np.stack(ijk_of(cd, cn), 1).astype(float) * 2
                        fi = np.stack(ijk, 1).astype(float)
                        for f in (lambda x: np.ones(len(x)), lambda x: x[:, 0] - 2 * x[:, 1] + 3 * x[:, 2], lambda x: x[:, 0] * x[:, 1], lambda x: x[:, 0] * x[:, 1] * x[:, 2] + x[:, 2]):
                            cv = np.append(f(ci), 0.)
                            # multilinear interpolation of coarse nodal values at the fine nodes
                            lo = np.floor(fi / 2).astype(int)
                            t = fi / 2 - lo
                            tab = {tuple(x): v for x, v in zip((ci / 2).astype(int), f(ci))}
                            want = np.array([sum(np.prod([(t[a, b] if s[b] else 1 - t[a, b]) for b in range(3)]) * tab.get(tuple(lo[a] + s), 0.) for s in np.array(CORN)) for a in range(len(fi))])
                            expect_close((Pw * cv[Pi]).sum(1), want, "prolongation is multilinear interpolation", dims=dims, level=l)
                        d, c = cd, cc
                nb = NarrowBand(g, cells)
                expect(np.array_equal(lv[0]["nodes"], nb.node_map), "same node numbering as NarrowBand", dims=dims)
                ids = nb.node_map[:: 2]
                expect(np.array_equal(cmg.compact_nodes(lv, ids), np.arange(0, len(nb.node_map), 2)), "compact_nodes")
                pm = np.random.RandomState(len(cells)).permutation(len(nb.node_map))
                expect(np.array_equal(cmg.compact_nodes(lv, np.r_[nb.node_map[pm], nb.node_map[pm[:1]]]), np.r_[pm, pm[:1]]), "compact_nodes maps each given id, in the given order")
                for comp in range(3):
                    b = cmg.load_vector(lv, ids, comp=comp, value=1.5)
                    want = np.zeros((len(nb.node_map), 3))
                    want[::2, comp] = 1.5
                    expect_close(b, want.ravel(), "load vector")
                k += 1
        return k
    ctx.bounded("levels, numbering, supports, transfers and loads of enumerated bands", build, functions=[M + x for x in ("build", "_build_transfer", "compact_nodes", "load_vector")])


def setup(dims, kind, L, seed=0, **kw):
    from feax.spgrid import StructuredGrid
    from feax.solvers.cmg import NarrowBandCMG
    g = StructuredGrid(dims)
    pred = lambda i, j, k, a, b, c: i == 0
    cmg = NarrowBandCMG(g, pred, n_levels=L, **kw)
    cells = band(dims, kind, seed)
    lv = cmg.build(cells)
    return g, cmg, cells, lv, pred


def compliance(ctx):
    """the compliance and its sensitivity are those of the assembled stiffness, for every design and displacement"""
    for dims, cells, penal, Emin, E0, nu in [((1, 1, 1), [0], 3.0, 1e-3, 1.0, .3), ((2, 1, 1), [0, 1], 2.0, 1e-2, 2.0, .2), ((1, 2, 2), [0, 3], 3.0, 0.1, 1.5, .25)]:
        g, cmg, cells, lv, _ = setup(dims, cells, 1, nu=nu, penal=penal, Emin=Emin, E0=E0)
        ed, nodes = edofs(dims, cells)
        ke = KE_ref(nu)

        def fn(rho, u):
            import feax.solvers.cmg as C
            with symnp.numpy_as_symbolic(C):
                C.float = lambda x: x
                try:
                    c, dc = cmg.compliance_and_dc(lv, rho, u)
                finally:
                    del C.float
            return [np.asarray(c, dtype=object).reshape(()), np.asarray(dc, dtype=object)]

        def spec(rho, u, dt=object):
            c, dc = 0., []
            for e in range(len(cells)):
                ce = sum(u[ed[e, i]] * u[ed[e, j]] * ke[i, j] for i in range(24) for j in range(24))
                c = c + (Emin + rho[e] ** int(penal) * (E0 - Emin)) * ce
                dc.append(-(int(penal) * rho[e] ** (int(penal) - 1) * (E0 - Emin)) * ce)
            return [np.array(c, dtype=dt).reshape(()), np.array(dc, dtype=dt)]
        ctx.equal(f"compliance and sensitivity on {dims}, penal {penal}", fn, spec, (Sx("rho", (len(cells),), .2, 1.), Sx("u", (3 * len(nodes),))), engine="host",
                  functions=[M + "compliance_and_dc"], replay=(lambda r, u: [np.asarray(x, float) for x in cmg.compliance_and_dc(lv, r, u)], lambda r, u: spec(r, u, float)))


def K_jax(dims, cells, rho, nu, Emin, E0, penal, x):
    """K(rho) x of the reference element stiffness, without supports"""
    ed, nodes = edofs(dims, cells)
    ke = KE_ref(nu)
    out = jnp.zeros(3 * len(nodes))
    for e in range(len(cells)):
        m = Emin + rho[e] ** int(penal) * (E0 - Emin)
        out = out.at[ed[e]].add(m * (ke @ x[ed[e]]))
    return out


def adjoint(ctx):
    """contract of the iterative solve (returns some x with A x = b) assumed; operator, right-hand sides, padding and
    adjoint rule are the real code"""
    from feax.solver import KrylovSolverOptions
    for dims, kind, L, jit in [((2, 1, 1), None, 1, False), ((1, 2, 2), [0, 1, 2], 2, False), ((2, 2, 1), [3, 0, 2], 1, True)]:
        nu, Emin, E0, penal = .3, .05, 2.0, 3.0
        g, cmg, cells, lv, pred = setup(dims, kind, L, nu=nu, Emin=Emin, E0=E0, penal=penal, bucket=8)
        cells = np.sort(cells)
        nodes = lv[0]["nodes"]
        nd = 3 * len(nodes)
        free = np.repeat((~pred(*ijk_of(dims, nodes), *dims)).astype(float), 3)

        def fn(rho, b, u, lam, ubar, x):
            if not (hasattr(cmg, "_solve_j") and hasattr(cmg, "_mv_j")):
                raise Skip("private solve entry renamed")
            calls = []
            outs = [u, lam]

            def stub(P, rhs, u0, tok, c):
                v = outs[len(calls)]
                calls.append((P, rhs))
                return jnp.zeros(rhs.shape[0]).at[:nd].set(v * free), 0, 0.
            with SL.custom_vjp_transparent():
                cmg._solve_j = stub
                try:
                    s = cmg.create_solver(lv, b, KrylovSolverOptions(solver="cg"), jit=False, return_solution=False)
                    v = SL.VJP.made[-1]
                    uu, res = v.fwd(rho)
                    (gr,) = v.bwd(res, ubar)
                finally:
                    del cmg._solve_j
            out = [uu, gr]
            for P, rhs in calls:
                xp = jnp.zeros(rhs.shape[0]).at[:nd].set(x * free)
                out += [rhs[:nd] * P[0]["free"][:nd], cmg._mv_j(xp, P[0])[:nd], rhs[nd:], P[0]["free"][:nd]]
            return out

        def spec(rho, b, u, lam, ubar, x):
            def Kv(r, y):
                return K_jax(dims, cells, r, nu, Emin, E0, penal, y * free) * free
            gr = -jax.vjp(lambda r: Kv(r, u), rho)[1](lam * free)[0]
            pad = jnp.zeros(0)
            f = jnp.asarray(free)
            n = 3 * (-(-len(nodes) // 8) * 8) - nd
            return [u * free, gr, b * f, Kv(rho, x), jnp.zeros(n), f, ubar * f, Kv(rho, x), jnp.zeros(n), f]
        ctx.equal(f"forward/adjoint systems and design gradient on {dims} L={L}", fn, spec,
                  (Sx("rho", (len(cells),), .2, 1.), Sx("b", (nd,)), Sx("u", (nd,)), Sx("lam", (nd,)), Sx("ubar", (nd,)), Sx("x", (nd,))),
                  functions=[M + "create_solver", M + "_mv_j"], private=True, n_replay=1)


def pcg(ctx):
    """loop contract of the iterative solve, on the real loop (cond, body and initial state are captured from jax.lax.while_loop;
    the multigrid cycle is havocked: its result is arbitrary in every iteration).  Invariant: the residual carried by the loop is
    b - A u on the free unknowns and u vanishes on the supports.  It holds initially, is preserved by the body from EVERY state
    satisfying it, and the loop is left only when max|r| <= tol (max|r0|) or after cg_maxit iterations, so a return before cg_maxit
    is a solution to the stated tolerance.  Termination: the iteration counter starts at 0 and grows by 1."""
    from feax.solver import KrylovSolverOptions
    import feax.solvers.cmg as C
    nu, Emin, E0, penal, tol, maxit = .3, .05, 2.0, 3.0, 2.0 ** -20, 37
    for dims, kind, L, bucket in [((1, 1, 1), None, 1, 8), ((2, 1, 1), None, 2, 1)]:
        g, cmg, cells, lv, pred = setup(dims, kind, L, nu=nu, Emin=Emin, E0=E0, penal=penal, bucket=bucket, cg_tol=tol, cg_maxit=maxit)
        cells = np.sort(cells)
        nodes = lv[0]["nodes"]
        nd = 3 * len(nodes)
        N = 3 * (-(-len(nodes) // bucket) * bucket)
        free = np.repeat((~pred(*ijk_of(dims, nodes), *dims)).astype(float), 3)
        mask = np.zeros(N)
        mask[:nd] = free

        def run(rho, b, u0, zs, loop):
            """the real _solve_j on the operator of create_solver"""
            if not all(hasattr(cmg, x) for x in ("_solve_j", "_vcycle_j", "_dinv_j", "_mv_j")):
                raise Skip("private solve entry renamed")
            real, P = cmg._solve_j, []

            def stub(*a):
                if len(a) != 5:
                    raise Skip("private solve entry has another form")
                P.append(a)
                return jnp.zeros(a[1].shape[0]), 0, 0.
            calls = []

            def cyc(r, *a):
                calls.append(r)
                return zs[len(calls) - 1] * mask if len(calls) <= len(zs) else r
            old = jax.lax.while_loop
            cmg._solve_j = stub
            with SL.custom_vjp_transparent():
                try:
                    cmg.create_solver(lv, b, KrylovSolverOptions(solver="cg"), jit=False, return_solution=False)
                    SL.VJP.made[-1].fwd(rho)
                finally:
                    del cmg._solve_j
            (Ps, rhs, _, tok, c), = P
            cmg._vcycle_j, cmg._dinv_j, jax.lax.while_loop = cyc, lambda lev: None, loop
            try:
                return real(Ps, rhs, jnp.zeros(N).at[:nd].set(u0), tok, c)
            finally:
                del cmg._vcycle_j, cmg._dinv_j
                jax.lax.while_loop = old

        # which components of the loop state are the solution (what is returned) and the residual (what the exit test reads)
        def identify():
            rng = np.random.RandomState(3)
            box = {}

            def loop(cond, body, init):
                if box:
                    raise Skip("more than one loop")
                lf, td = jax.tree_util.tree_flatten(init)
                vec = [i for i, x in enumerate(lf) if jnp.shape(x) == (N,)]
                box["td"], box["shapes"] = td, [jnp.shape(x) for x in lf]
                ints = [i for i, x in enumerate(lf) if jnp.shape(x) == () and jnp.issubdtype(jnp.asarray(x).dtype, jnp.integer)]
                mark = [jnp.full(N, 7. + i) if i in vec else (jnp.asarray(0) if i in ints else jnp.asarray(1.)) for i in range(len(lf))]
                box["r"] = [i for i in vec if not bool(cond(td.unflatten([jnp.zeros(N) if j == i else m for j, m in enumerate(mark)])))]
                box["k"] = [i for i in ints if not bool(cond(td.unflatten([jnp.asarray(10 ** 6) if j == i else m for j, m in enumerate(mark)])))]
                return td.unflatten(mark)
            out = run(jnp.asarray(rng.uniform(.3, 1, len(cells))), rng.normal(size=nd), jnp.asarray(rng.normal(size=nd)), [jnp.ones(N)] * 2, loop)
            if not isinstance(out, tuple) or jnp.shape(out[0]) != (N,):
                raise Skip("private solve entry has another form")
            m = float(out[0][-1]) - 7
            if m not in range(len(box["shapes"])) or len(box["r"]) != 1 or len(box["k"]) != 1 or int(m) == box["r"][0]:
                raise Skip("loop state has another form")
            return int(m), box["r"][0], box["k"][0], box["td"], box["shapes"]
        cache = []

        def parts():
            if not cache:
                try:
                    cache.append(identify())
                except Exception as e:
                    cache.append(e)
            if isinstance(cache[0], Exception):
                raise Skip(f"loop not identified: {type(cache[0]).__name__}: {str(cache[0])[:100]}")
            return cache[0]
        try:
            parts()  # concretely, before any symbolic trace
        except Skip:
            pass

        def res(rho, b, u):
            x = jnp.zeros(N).at[:nd].set(b * free - K_jax(dims, cells, rho, nu, Emin, E0, penal, u * free) * free)
            return x

        def state(rho, b, u, p, sc, k):
            iu, ir, ik, td, shapes = parts()
            lf = []
            ex = jnp.zeros(N).at[:nd].set(p * free)
            for i, s in enumerate(shapes):
                lf.append(jnp.zeros(N).at[:nd].set(u * free) if i == iu else res(rho, b, u) if i == ir else k if i == ik else ex if s == (N,) else sc)
            return td.unflatten(lf)

        def init_fn(rho, b, u0, z):
            iu, ir, ik, td, shapes = parts()
            box = []

            def loop(cond, body, init):
                box.append(jax.tree_util.tree_leaves(init))
                return init
            run(rho, b, u0, [z], loop)
            lf = box[0]
            return [lf[iu], lf[ir], jnp.asarray(lf[ik]) * 1.]

        def init_spec(rho, b, u0, z):
            return [jnp.zeros(N).at[:nd].set(u0 * free), res(rho, b, u0), jnp.asarray(0.)]
        F = [M + "_solve_j", M + "_mv_j"]
        S0 = (Sx("rho", (len(cells),), .3, 1.), Sx("b", (nd,)), Sx("u0", (nd,)))
        ctx.equal(f"loop invariant of the solve holds initially on {dims} L={L}", init_fn, init_spec, S0 + (Sx("z", (N,)),), functions=F, private=True)

        def body_fn(rho, b, u0, z, u, p, sc, z1):
            iu, ir, ik, td, shapes = parts()
            box = []

            def loop(cond, body, init):
                box.append(body(state(rho, b, u, p, sc, jnp.asarray(5))))
                return init
            run(rho, b, u0, [z, z1], loop)
            lf = jax.tree_util.tree_leaves(box[0])
            un = lf[iu]
            r = jnp.zeros(N).at[:nd].set(b * free - K_jax(dims, cells, rho, nu, Emin, E0, penal, un[:nd]) * free)
            return [lf[ir] - r, un * (1 - mask), jnp.asarray(lf[ik]) * 1.]

        def body_spec(rho, b, u0, z, u, p, sc, z1):
            return [jnp.zeros(N), jnp.zeros(N), jnp.asarray(6.)]
        ctx.equal(f"loop body of the solve preserves the invariant on {dims} L={L}", body_fn, body_spec,
                  S0 + (Sx("z", (N,)), Sx("u", (nd,)), Sx("p", (nd,)), Sx("sc", (), .5, 2.), Sx("z1", (N,))), functions=F, private=True)

        def scaled(rho, b, u0, r):  # an arbitrary vector, written relative to the tolerance so that samples fall on both sides
            return r * (tol * jnp.max(jnp.abs(res(rho, b, u0))))

        def margin(rho, b, u0, r):  # distance from the threshold: a tie is not a difference
            return (jnp.max(jnp.abs(r)) - 1) * jnp.max(jnp.abs(res(rho, b, u0)))

        def exit_fn(rho, b, u0, z, r, p, sc):
            iu, ir, ik, td, shapes = parts()
            box = []

            def loop(cond, body, init):
                for k in (0, maxit - 1, maxit):
                    st = state(rho, b, u0, p, sc, jnp.asarray(k))
                    lf = jax.tree_util.tree_leaves(st)
                    lf[ir] = scaled(rho, b, u0, r)
                    box.append(jnp.where(cond(td.unflatten(lf)), margin(rho, b, u0, r), 0.))
                return init
            run(rho, b, u0, [z], loop)
            return box

        def exit_spec(rho, b, u0, z, r, p, sc):
            t = tol * (jnp.max(jnp.abs(res(rho, b, u0))) + 1e-30)
            go = jnp.where(jnp.max(jnp.abs(scaled(rho, b, u0, r))) > t, margin(rho, b, u0, r), 0.)
            return [go, go, jnp.asarray(0.)]
        around = lambda rng: rng.uniform(*((-1.2, .9), (-.9, 1.2), (-.9, .9), (-3., 3.))[rng.randint(4)], N)
        ctx.equal(f"the solve stops exactly at the stated residual or iteration limit on {dims} L={L}", exit_fn, exit_spec,
                  S0 + (Sx("z", (N,)), Sx("r", (N,), -3., 3., sampler=around), Sx("p", (nd,)), Sx("sc", (), .5, 2.)), functions=F, private=True, n_replay=12)


def solves(ctx, which):
    from feax.solver import KrylovSolverOptions
    from feax.traced_params import TracedParams

    def th():
        k = 0
        cfgs = [(0, "cg", True, 16), (1, "cg", False, 1), (2, "bicgstab", True, 512), (3, "gmres", True, 64), (4, "auto", True, 7), (5, "cg", True, 512)]
        for bi, name, jit, bucket in [cfgs[i] for i in which]:
            dims, kind, L = BANDS[bi]
            for seed in range(2):
                nu, Emin, E0, penal = [(.3, 1e-3, 1., 3.), (.2, .05, 2., 2.)][seed]
                g, cmg, cells, lv, pred = setup(dims, kind, L, seed, nu=nu, Emin=Emin, E0=E0, penal=penal, bucket=bucket, cg_tol=1e-11, cg_maxit=300)
                nodes = lv[0]["nodes"]
                rng = np.random.RandomState(seed)
                rho = rng.uniform(.3, 1., len(cells))
                free = np.repeat(~pred(*ijk_of(dims, nodes), *dims), 3)
                b = rng.normal(size=3 * len(nodes))
                opts = KrylovSolverOptions(solver=name, tol=1e-12, maxiter=2000)
                s = cmg.create_solver(lv, b, opts, jit=jit)
                sol = s(jnp.asarray(rho))
                u = np.asarray(sol.field(0)).ravel()
                K, _ = K_of(dims, cells, Emin + rho ** penal * (E0 - Emin), nu)
                expect((u[~free] == 0).all(), "supports hold", dims=dims)
                r = (K @ u - b)[free]
                expect(np.abs(r).max() < 1e-7 * np.abs(b).max(), f"equilibrium on the free unknowns ({np.abs(r).max():.2e})", dims=dims, solver=name, seed=seed)
                raw = cmg.create_solver(lv, b, opts, jit=jit, return_solution=False)
                expect_close(raw(TracedParams(volume_vars=(jnp.asarray(rho),))), u, "parameter container and raw vector", rtol=1e-6, atol=1e-8)
                w = rng.normal(size=3 * len(nodes))
                gr = np.asarray(jax.grad(lambda q: jnp.dot(jnp.asarray(w), raw(q)))(jnp.asarray(rho)))
                Kf = K[np.ix_(free, free)]
                lam = np.zeros_like(u)
                lam[free] = np.linalg.solve(Kf, w[free])
                ed, _ = edofs(dims, cells)
                want = np.array([-penal * rho[e] ** (penal - 1) * (E0 - Emin) * lam[ed[e]] @ KE_ref(nu) @ u[ed[e]] for e in range(len(cells))])
                expect_close(gr, want, "gradient of a linear functional", rtol=1e-4, atol=1e-6)
                c, dc = cmg.compliance_and_dc(lv, rho, u)
                expect_close(c, u @ K @ u, "compliance", rtol=1e-7)
                expect_close(c, (b * free) @ u, "compliance is the work of the load", rtol=1e-5)
                gc = np.asarray(jax.grad(lambda q: jnp.dot(jnp.asarray(b), raw(q)))(jnp.asarray(rho)))
                expect_close(dc, gc, "sensitivity is the derivative", rtol=1e-4, atol=1e-6)
                k += 1
        return k
    ctx.bounded(f"solves on bands {which}: equilibrium, supports, gradients", th, functions=[M + x for x in ("create_solver", "_solve_j", "_vcycle_j", "_smooth_j", "_coarse_solve_cg")], bound=f"bands {which}, 2 seeds")


def solves_a(ctx):
    solves(ctx, [0, 1])


def solves_b(ctx):
    solves(ctx, [2])


def solves_c(ctx):
    solves(ctx, [3])


def solves_d(ctx):
    solves(ctx, [4])


def solves_e(ctx):
    solves(ctx, [5])


def other(ctx):
    from feax.solver import KrylovSolverOptions, DirectSolverOptions

    def feaxK():
        """same system as the library's own assembly on the extracted band"""
        from feax.narrowband import NarrowBand
        import feax.assembler as AS
        for dims, kind in (((2, 2, 1), None), ((2, 1, 2), [0, 1, 3])):
            nu, Emin, E0, penal = .3, .05, 2.0, 3.0
            g, cmg, cells, lv, pred = setup(dims, kind, 1, nu=nu, Emin=Emin, E0=E0, penal=penal, bucket=4, cg_tol=1e-12)
            nb = NarrowBand(g, cells)
            lam, mu = nu / ((1 + nu) * (1 - 2 * nu)), 1 / (2 * (1 + nu))

            def stress(gu, r):
                e = (gu + gu.T) / 2
                return (Emin + r ** 3 * (E0 - Emin)) * (lam * jnp.trace(e) * jnp.eye(3) + 2 * mu * e)
            P = X.make_problem(nb.mesh, 3, 3, "HEX8", {"get_tensor_map": stress})
            from feax.traced_params import TracedParams
            rng = np.random.RandomState(0)
            rho = rng.uniform(.3, 1., len(cells))
            b = cmg.load_vector(lv, nb.node_map[-2:], comp=1, value=.7)
            u = np.asarray(cmg.create_solver(lv, b, KrylovSolverOptions(solver="cg", tol=1e-12), return_solution=False)(jnp.asarray(rho)))
            r = np.asarray(AS.get_res(P, P.unflatten_fn_sol_list(jnp.asarray(u)), TracedParams(volume_vars=(jnp.asarray(rho),)))[0]).ravel()
            free = np.repeat(~pred(*ijk_of(dims, nb.node_map), *dims), 3)
            expect(np.abs((r - b)[free]).max() < 1e-8, "equilibrium in the library's own assembly", dims=dims)
        return 2
    ctx.bounded("solution satisfies the library's assembled equations on the band", feaxK, functions=[M + "create_solver", "feax/narrowband.py:NarrowBand.__init__"])

    def vcycle():
        """coarse-grid correction alone is P A_c^-1 P^T: restriction is the transpose of prolongation"""
        import feax.solvers.cmg as C
        g, cmg, cells, lv, pred = setup((3, 2, 4), "rand", 2, bucket=1, Emin=.1, pre=0, post=0)
        if not hasattr(cmg, "_vcycle_j"):
            raise Skip("_vcycle_j")
        P = []

        def cap(Ps, rhs, u0, tok, c):
            P.append((Ps, c))
            return jnp.zeros(rhs.shape[0]), 0, 0.
        cmg._solve_j = cap
        cmg.create_solver(lv, np.ones(lv[0]["ndof"]), KrylovSolverOptions(solver="cg", tol=1e-13, maxiter=3000), jit=False, return_solution=False)(jnp.asarray(np.random.RandomState(0).uniform(.4, 1, len(cells))))
        del cmg._solve_j
        (Ps, c), = P
        n = Ps[0]["free"].shape[0]
        D = [cmg._dinv_j(p) for p in Ps]
        B = np.asarray(jax.jit(jax.vmap(lambda e: cmg._vcycle_j(e, Ps, D, None, c, 0)))(jnp.eye(n))).T
        expect_close(B, B.T, "coarse correction is symmetric", rtol=1e-6, atol=1e-7)
        Pm = np.zeros((n, Ps[1]["free"].shape[0]))
        for i in range(n // 3):
            for q in range(8):
                j, w = int(Ps[0]["Pidx"][i, q]), float(Ps[0]["Pw"][i, q])
                if w:
                    for d in range(3):
                        Pm[3 * i + d, 3 * j + d] += w
        f0, f1 = np.asarray(Ps[0]["free"]), np.asarray(Ps[1]["free"])
        Pm = f0[:, None] * Pm * f1[None]
        Ac = np.asarray(jax.vmap(lambda e: cmg._mv_j(e * f1, Ps[1]))(jnp.eye(len(f1)))).T + np.diag(1 - f1)
        # right-hand side is taken as given (the caller masks it): compare on free unknowns
        want = Pm @ np.linalg.solve(Ac, Pm.T)
        expect_close(B * f0[None], want * f0[None], "coarse correction", rtol=1e-6, atol=1e-7)
    ctx.bounded("coarse-grid correction uses the transpose transfer", vcycle, functions=[M + "_vcycle_j"], private=True)

    def cudss():
        """direct coarse path with the factorization replaced by its contract"""
        import feax.solvers.cmg as C
        if not hasattr(C, "_factorize"):
            raise Skip("_factorize")
        old = C._factorize, C._solve_with

        def fac(data, indptr, indices, **k):
            import scipy.sparse as sp
            n = len(indptr) - 1
            return jnp.asarray(sp.csr_matrix((np.asarray(data), np.asarray(indices), np.asarray(indptr)), shape=(n, n)).toarray())

        def sol(tok, b):
            n = tok.shape[0]
            return jnp.concatenate([jnp.linalg.solve(tok, b[:n]), jnp.zeros(b.shape[0] - n)])
        C._factorize, C._solve_with = fac, sol
        try:
            for opts in (None, DirectSolverOptions(solver="cudss") if False else None):
                g, cmg, cells, lv, pred = setup((3, 2, 4), "rand", 2, bucket=4, Emin=.1, cg_tol=1e-11)
                rng = np.random.RandomState(0)
                rho, b = rng.uniform(.4, 1, len(cells)), rng.normal(size=lv[0]["ndof"])
                u = np.asarray(cmg.create_solver(lv, b, opts, jit=False, return_solution=False)(jnp.asarray(rho)))
                K, nodes = K_of((3, 2, 4), cells, .1 + rho ** 3 * .9, .3)
                free = np.repeat(~pred(*ijk_of((3, 2, 4), nodes), 3, 2, 4), 3)
                expect(np.abs((K @ u - b)[free]).max() < 1e-7, "equilibrium with the direct coarse solve")
        finally:
            C._factorize, C._solve_with = old
    ctx.bounded("direct coarse path (factorization by contract)", cudss, functions=[M + "create_solver"], private=True)

    def options():
        g, cmg, cells, lv, pred = setup((2, 2, 2), None, 1)
        import feax.solvers.cmg as C
        expect_raises(lambda: cmg.create_solver(lv, np.zeros(lv[0]["ndof"]), "cg"), "unknown options", (ValueError, TypeError))
        if getattr(C, "_factorize", 1) is None:
            expect_raises(lambda: cmg.create_solver(lv, np.zeros(lv[0]["ndof"])), "missing back end", ImportError)
    ctx.bounded("unusable solver options are rejected", options, functions=[M + "_parse_coarse"])

    def reuse():
        """a second band / load on the same instance does not reuse the first one's data"""
        from feax.spgrid import StructuredGrid
        from feax.solvers.cmg import NarrowBandCMG
        dims, nu, Emin = (3, 2, 2), .3, .1
        g = StructuredGrid(dims)
        pred = lambda i, j, k, a, b, c: i == 0
        cmg = NarrowBandCMG(g, pred, n_levels=2, Emin=Emin, bucket=64, cg_tol=1e-11)
        rng = np.random.RandomState(0)
        opt = KrylovSolverOptions(solver="cg", tol=1e-12)
        for cells in (np.arange(12), np.array([0, 1, 2, 3, 4, 6]), np.array([0, 1, 2, 3, 7, 11]), np.arange(12)):
            lv = cmg.build(cells)
            b, rho = rng.normal(size=lv[0]["ndof"]), rng.uniform(.4, 1, len(cells))
            u = np.asarray(cmg.create_solver(lv, b, opt, return_solution=False)(jnp.asarray(rho)))
            K, nodes = K_of(dims, cells, Emin + rho ** 3 * (1 - Emin), nu)
            free = np.repeat(~pred(*ijk_of(dims, nodes), *dims), 3)
            expect(np.abs((K @ u - b)[free]).max() < 1e-7, "equilibrium on each band of the history", cells=cells)
        return 4
    ctx.bounded("histories of bands and loads on one instance", reuse, functions=[M + "create_solver", M + "build"])


GROUPS = [element, structure, compliance, adjoint, pcg, solves_a, solves_b, solves_c, solves_d, solves_e, other]
