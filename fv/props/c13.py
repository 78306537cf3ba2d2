"""C13: design filters, projections and responses."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symnp, uf, ring
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

FI = "feax/gene/filters.py:"
RE = "feax/gene/responses.py:"
MESHES = [("QUAD4", (3, 2)), ("TRI3", (2, 3)), ("HEX8", (2, 1, 1)), ("TET4", (1, 1, 1)), ("TRI6", (1, 1)), ("QUAD8", (1, 2))]


def weights(p, r, kind):
    d = np.linalg.norm(p[:, None] - p[None], axis=2)
    if kind == "cone":
        return np.maximum(0., r - d)
    return np.where(d <= r, np.exp(-(d / r) ** 2) if kind == "gaussian" else 1., 0.)


def density(ctx):
    from feax.gene.filters import create_density_filter, density_filter
    from feax.mesh import Mesh
    for ele, ns in MESHES:
        for distort in (0., .12):
            m = X.mesh(ele, ns, distort=distort)
            p = np.asarray(m.points)
            D = np.sort(np.unique(np.round(np.linalg.norm(p[:, None] - p[None], axis=2), 9)))
            radii = [D[1] * .5, (D[1] + D[2]) / 2, (D[len(D) // 2] + D[len(D) // 2 - 1]) / 2, D[-1] * 1.5]
            for r, kind in itertools.product(radii, ("cone", "gaussian", "constant")):
                W = weights(p, r, kind)
                W = W / W.sum(1, keepdims=True)

                def fn(x, w):
                    f = create_density_filter(m, r, kind)
                    y, pull = jax.vjp(f, x)
                    return [y, pull(w)[0], density_filter(x, m, r, kind)]
                ctx.equal(f"{kind} density filter r={r:.3f} on {ele} {ns} distort={distort}", fn, lambda x, w: [W @ x, W.T @ w, W @ x], (Sx("x", (len(p),)), Sx("w", (len(p),))),
                          functions=[FI + "create_density_filter", FI + "density_filter", FI + "_compute_density_filter_weights_sparse"], n_replay=1)

    def big():
        """more nodes than one preprocessing batch; design bounds and constants preserved; jit and vmap"""
        for seed, shape, ele in ((0, (52, 30), "QUAD4"), (1, (10, 10, 10), "HEX8")):
            m = X.mesh(ele, shape, distort=.1)
            p = np.asarray(m.points)
            expect(len(p) > 1000, "sample size")
            # an arbitrary numbering: neighbours lie in distant preprocessing batches
            perm = np.random.RandomState(seed + 7).permutation(len(p))
            m = Mesh(jnp.asarray(p[perm]), jnp.asarray(np.argsort(perm)[np.asarray(m.cells)]), ele_type=ele)
            p = p[perm]
            r = 1.7 / max(shape) * (1. if len(shape) == 2 else .9)
            rng = np.random.RandomState(seed)
            x = rng.uniform(size=len(p))
            for kind in ("cone", "gaussian", "constant"):
                f = create_density_filter(m, r, kind)
                W = weights(p, r, kind)
                y = np.asarray(f(jnp.asarray(x)))
                expect_close(y, W @ x / W.sum(1), "weighted average", rtol=1e-8)
                expect(y.min() >= x.min() - 1e-9 and y.max() <= x.max() + 1e-9, "range preserved")
                expect_close(f(jnp.full(len(p), .37)), np.full(len(p), .37), "constants preserved")
                z = jnp.asarray(rng.uniform(size=(2, len(p))))
                expect_close(jax.vmap(jax.jit(f))(z), np.stack([np.asarray(f(z[0])), np.asarray(f(z[1]))]), "batched and compiled")
        return 6
    ctx.bounded("density filters on meshes larger than a preprocessing batch", big, functions=[FI + "_compute_density_filter_weights_sparse"])

    def ties():
        """neighbours at exactly the radius (spacings exactly representable) belong to the stencil"""
        k = 0
        for ele, shape in (("QUAD4", (4, 4)), ("QUAD4", (8, 2)), ("HEX8", (2, 2, 4))):
            m = X.mesh(ele, shape, distort=0.)
            p = np.asarray(m.points)
            x = np.random.RandomState(3).uniform(size=len(p))
            for r, kind in itertools.product((.25, .5), ("cone", "gaussian", "constant")):
                W = weights(p, r, kind)
                expect_close(create_density_filter(m, r, kind)(jnp.asarray(x)), W @ x / W.sum(1), "weighted average", kind=kind, radius=r, shape=shape)
                k += 1
        return k
    ctx.bounded("density filters where nodes lie exactly at the radius", ties, functions=[FI + "_compute_density_filter_weights_sparse"])

    def bad():
        expect_raises(lambda: create_density_filter(X.mesh("QUAD4", (2, 2)), .6, "triangle"), "unknown weight", ValueError)
    ctx.bounded("unknown weights are rejected", bad, functions=[FI + "create_density_filter"])


def projection(ctx):
    from feax.gene.filters import heaviside_projection, compute_volume_fraction_threshold
    fn = [FI + "heaviside_projection"]
    ctx.equal("projection is the stated sigmoid", lambda x, b, t: [heaviside_projection(x, b, t), heaviside_projection(x, beta=b, threshold=t)],
              lambda x, b, t: [(jnp.tanh(b * (x - t)) + 1) / 2] * 2, (Sx("x", (3,), 0., 1.), Sx("b", (), 1., 20.), Sx("t", (), .2, .8)), functions=fn)
    ctx.equal("projection takes 1/2 at the threshold", lambda b, t: heaviside_projection(t, b, t), lambda b, t: jnp.asarray(.5) + 0 * b, (Sx("b", (), 1., 20.), Sx("t", (), .2, .8)), functions=fn)
    ctx.equal("default threshold is one half and sharpness ten", lambda x: heaviside_projection(x), lambda x: (jnp.tanh(10. * (x - .5)) + 1) / 2, (Sx("x", (), 0., 1.),), functions=fn)
    ctx.equal("projection slope is nonnegative: 2 dH/dx = beta (1 - tanh^2)", lambda x, b, t: 2 * jax.grad(heaviside_projection)(x, b, t), lambda x, b, t: b * (1 - jnp.tanh(b * (x - t)) ** 2),
              (Sx("x", (), 0., 1.), Sx("b", (), 1., 20.), Sx("t", (), .2, .8)), functions=fn)

    def sweep():
        x = np.linspace(0, 1, 201)
        k = 0
        for b, t in itertools.product((.5, 1., 8., 64., 1000.), (.1, .3, .5, .9)):
            y = np.asarray(heaviside_projection(jnp.asarray(x), b, t))
            expect((np.diff(y) >= 0).all() and y.min() >= 0 and y.max() <= 1, "monotone into [0,1]", beta=b, threshold=t)
            if b >= 64:
                expect((y[x > t + .1] > .999).all() and (y[x < t - .1] < .001).all(), "sharp limit is the step at the threshold", beta=b, threshold=t)
            k += 1
        return k
    ctx.bounded("projection sweep", sweep, functions=fn)

    def thr():
        k = 0
        for n in (5, 10, 37, 400):
            for seed in range(4):
                x = np.random.RandomState(seed).uniform(size=n)
                for v in (0., .1, .25, .5, .73, 1.):
                    t = float(compute_volume_fraction_threshold(jnp.asarray(x), v))
                    expect(abs((x >= t).sum() - v * n) <= 1 + 1e-9, "fraction at or above the threshold", n=n, target=v, got=float((x >= t).mean()))
                    expect(x.min() - 1e-12 <= t <= x.max() + 1e-12, "threshold within the range of the field")
                    k += 1
        return k
    ctx.bounded("volume-fraction threshold splits the field at the target fraction", thr, functions=[FI + "compute_volume_fraction_threshold"])


def sens_ref(dims, act, rho, dc, rmin):
    ny, nz = dims[1:]
    ijk = np.stack([act // (ny * nz), act // nz % ny, act % nz], 1)
    allc = np.array(list(itertools.product(*[range(d) for d in dims])))
    out = []
    for e in range(len(act)):
        num = 0.
        for n in range(len(act)):
            w = rmin - np.linalg.norm(ijk[e] - ijk[n])
            if w > 0:
                num = num + w * rho[n] * dc[n]
        d = np.linalg.norm(allc - ijk[e], axis=1)
        Hs = np.maximum(0., rmin - d).sum()
        mx = ring.pmax(ring.lift(1e-3), rho[e]) if isinstance(rho[e], ring.Poly) else max(1e-3, rho[e])
        out.append(num / (Hs * mx))
    return out


def sensitivity(ctx):
    from feax.spgrid import StructuredGrid
    from feax.gene.filters import create_sensitivity_filter
    rng = np.random.RandomState(0)
    cases = []
    for dims in ((3, 2, 2), (2, 3, 1), (1, 1, 4), (2, 2, 2)):
        n = int(np.prod(dims))
        for rmin in (1., 1.5, 2., 2.3):
            cases.append((dims, rmin, np.arange(n)))
            cases.append((dims, rmin, np.sort(rng.choice(n, max(1, n // 2), replace=False))))
    for dims, rmin, act in cases:
        g = StructuredGrid(dims)

        def fn(rho, dc):
            with symnp.numpy_as_symbolic(local=True):
                return np.asarray(create_sensitivity_filter(g, rmin)(act, rho, dc), dtype=object)

        ctx.equal(f"sensitivity filter on {dims}, r={rmin}, {len(act)} active", fn, lambda r, d: np.array(sens_ref(dims, act, r, d, rmin), dtype=object),
                  (Sx("rho", (len(act),), .1, 1.), Sx("dc", (len(act),), -2., 0.)), engine="host", functions=[FI + "create_sensitivity_filter"],
                  replay=(lambda r, d: create_sensitivity_filter(g, rmin)(act, r, d), lambda r, d: np.array(sens_ref(dims, act, r, d, rmin), float)), n_replay=2,
                  assume=lambda r, d: [x > 1e-3 for x in r])

    def execd():
        k = 0
        for dims in ((4, 3, 2), (5, 1, 3), (3, 3, 3)):
            g = StructuredGrid(dims)
            n = g.num_cells
            for seed in range(4):
                r = np.random.RandomState(seed)
                act = np.sort(r.choice(n, r.randint(1, n + 1), replace=False))
                rho, dc = r.uniform(0, 1, len(act)), -r.uniform(0, 2, len(act))
                rho[0] = 0.  # the 1e-3 floor
                for rmin in (.9, 1., 1.5, 2., 3.2):
                    expect_close(create_sensitivity_filter(g, rmin)(act, rho, dc), sens_ref(dims, act, rho, dc, rmin), "filtered sensitivity", rtol=1e-9, dims=dims, rmin=rmin, active=act)
                    k += 1
        return k
    ctx.bounded("sensitivity filter on random active sets including void cells", execd, functions=[FI + "create_sensitivity_filter"])


def matrices(ele, m):
    """mass and Laplace matrices with the element's quadrature rule (numpy; the rule itself is under C05)"""
    P, C = np.asarray(m.points), np.asarray(m.cells)
    f = X.make_problem(m, 1, P.shape[1], ele, {"get_tensor_map": lambda g: g}).fes[0]
    B, N = np.asarray(f.shape_grads), np.asarray(f.shape_vals)
    dJ, W = np.asarray(f.JxW), np.ones(f.num_quads)
    n = len(P)
    Mm, K = np.zeros((n, n)), np.zeros((n, n))
    for c in range(len(C)):
        Mm[np.ix_(C[c], C[c])] += np.einsum("q,qa,qb->ab", W * dJ[c], N, N)
        K[np.ix_(C[c], C[c])] += np.einsum("q,qai,qbi->ab", W * dJ[c], B[c], B[c])
    return Mm, K


def helmholtz(ctx):
    from feax.gene.filters import create_helmholtz_filter, helmholtz_filter
    import feax.gene.filters as FF
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    for ele, ns in (("TRI3", (2, 2)), ("TET4", (1, 1, 1)), ("QUAD4", (2, 1)), ("HEX8", (1, 1, 1))):
        m = X.mesh(ele, ns, distort=0.)
        d = np.shape(m.points)[1]
        Mm, K = matrices(ele, m)
        n = len(m.points)

        def fn(x, s, r2):
            P = getattr(FF, "HelmholtzFilterProblem")(mesh=m, vec=1, dim=d, ele_type=ele, location_fns=[])
            return AS.get_res(P, P.unflatten_fn_sol_list(x), TracedParams(volume_vars=(s, jnp.full(n, 1.) * r2)))[0][:, 0]
        ctx.equal(f"Helmholtz weak form on {ele} is (M + r^2 K) x - M s", fn, lambda x, s, r2: (Mm @ x) + r2 * (K @ x) - Mm @ s,
                  (Sx("x", (n,)), Sx("s", (n,)), Sx("r2", (), .01, 1.)), functions=[FI + "HelmholtzFilterProblem.get_tensor_map", FI + "HelmholtzFilterProblem.get_mass_map"], n_replay=1)


def helm_solve(ctx, which):
    from feax.gene.filters import create_helmholtz_filter, helmholtz_filter
    import feax as fe

    def th():
        k = 0
        for ele, ns in which:
            m = X.mesh(ele, ns, distort=.0 if ele in ("QUAD4", "HEX8") else .1)
            Mm, K = matrices(ele, m)
            n = len(m.points)
            rng = np.random.RandomState(0)
            for r in (.05, .3, 1.5):
                A = np.linalg.solve(Mm + r * r * K, Mm)
                f = create_helmholtz_filter(m, r) if r != .3 else create_helmholtz_filter(m, r, solver_options=fe.KrylovSolverOptions(solver="bicgstab", tol=1e-11))
                x, w = rng.uniform(size=n), rng.normal(size=n)
                y = np.asarray(f(jnp.asarray(x))).ravel()
                expect_close(y, A @ x, "filtered field solves the Helmholtz equation", rtol=1e-5, atol=1e-6, radius=r, mesh=ele)
                expect_close(np.asarray(f(jnp.full(n, .4))).ravel(), np.full(n, .4), "constants preserved", rtol=1e-5, atol=1e-6)
                expect_close(Mm.sum(0) @ y, Mm.sum(0) @ x, "total mass preserved", rtol=1e-5, atol=1e-6)
                g = jax.grad(lambda v: jnp.dot(jnp.asarray(w), jnp.ravel(f(v))))(jnp.asarray(x))
                expect_close(g, A.T @ w, "gradient", rtol=1e-4, atol=1e-5)
                if r == .05:
                    expect_close(np.asarray(jax.jit(f)(jnp.asarray(x))).ravel(), y, "compiled", rtol=1e-6, atol=1e-7)
                    expect_close(np.asarray(helmholtz_filter(jnp.asarray(x), m, r)).ravel(), y, "one-shot form", rtol=1e-6, atol=1e-7)
                k += 1
        return k
    ctx.bounded(f"Helmholtz filter solves on {which}", th, functions=[FI + "create_helmholtz_filter", FI + "helmholtz_filter"], bound="3 radii")


def helm_a(ctx):
    helm_solve(ctx, [("TRI3", (3, 3)), ("QUAD4", (3, 2))])


def helm_b(ctx):
    helm_solve(ctx, [("TET4", (2, 1, 1)), ("HEX8", (2, 2, 1))])


def helm_p(ctx):
    from feax.gene.filters import create_helmholtz_filter

    def th():
        from feax.flat.pbc import periodic_bc_2D, periodic_bc_3D, prolongation_matrix
        from feax.flat.unitcell import UnitCell
        k = 0
        for ele, ns in (("QUAD4", (3, 3)), ("HEX8", (2, 2, 2))):
            m = X.mesh(ele, ns, distort=0.)
            d = len(ns)

            class C(UnitCell):
                def mesh_build(self, **kw):
                    return m
            uc = C()
            P = prolongation_matrix((periodic_bc_2D if d == 2 else periodic_bc_3D)(uc, vec=1, dim=d), m, 1)
            Pd = np.asarray(P.todense())
            Mm, K = matrices(ele, m)
            rng = np.random.RandomState(0)
            x = rng.uniform(size=len(m.points))
            for r in (.1, .6):
                f = create_helmholtz_filter(m, r, P=P)
                y = np.asarray(f(jnp.asarray(x))).ravel()
                want = Pd @ np.linalg.solve(Pd.T @ (Mm + r * r * K) @ Pd, Pd.T @ Mm @ x)
                expect_close(y, want, "periodic filtered field", rtol=1e-5, atol=1e-6, mesh=ele, radius=r)
                k += 1
        return k
    ctx.bounded("periodic Helmholtz filter solves", th, functions=[FI + "create_helmholtz_filter"], bound="2 meshes x 2 radii")


def volume(ctx):
    from feax.gene.responses import create_volume_fn
    for ele, ns in [("QUAD4", (3, 2)), ("TRI3", (2, 2)), ("TET4", (1, 1, 1)), ("HEX8", (2, 1, 1)), ("TRI6", (2, 1)), ("QUAD8", (2, 1))]:
        m = X.mesh(ele, ns)
        d = len(ns)
        P = X.make_problem(m, d, d, ele, {"get_tensor_map": lambda g, r: r * g})
        fe = P.fes[0]
        J = np.asarray(fe.JxW)
        N = np.asarray(fe.shape_vals)
        C = np.asarray(fe.cells)
        nc, nq, nn = J.shape[0], J.shape[1], len(m.points)
        if nn in (nc, nc * nq):
            continue
        wn = np.zeros(nn)
        for c in range(nc):
            for q in range(nq):
                wn[C[c]] += J[c, q] * N[q]
        # geometry: exact measure of the cells
        Xq, W = F.exact_rule(F.LINEAR[ele], 5)
        _, _, dJ, _ = F.cell_geometry(ele, np.asarray(m.points), C, Xq)
        vol = float((dJ * W).sum())

        def fn(a, b, q):
            with jax.ensure_compile_time_eval():
                v = create_volume_fn(P)
            return [v(a), v(b), v(q), v(q.ravel()), v(jnp.full(nn, 1.)), jax.grad(v)(a), jax.grad(v)(b)]

        def spec(a, b, q):
            t = J.sum()
            return [wn @ a / t, jnp.sum(b * J.sum(1)) / t, jnp.sum(q * J) / t, jnp.sum(q * J) / t, jnp.asarray(1.), jnp.asarray(wn / t) + 0 * a, jnp.asarray(J.sum(1) / t) + 0 * b]
        ctx.equal(f"volume fraction of node-, cell- and quadrature-wise designs on {ele}", fn, spec, (Sx("a", (nn,), 0., 1.), Sx("b", (nc,), 0., 1.), Sx("q", (nc, nq), 0., 1.)),
                  functions=[RE + "create_volume_fn"], n_replay=1)

        def ex():
            v = create_volume_fn(P)
            rng = np.random.RandomState(0)
            b = rng.uniform(size=nc)
            expect_close(float(v(jnp.asarray(b))), float((b * (dJ * W).sum(1)).sum() / vol), "volume fraction of the mesh", rtol=1e-8)
        ctx.bounded(f"volume fraction equals the measured volumes on {ele}", ex, functions=[RE + "create_volume_fn"])


def face2(P, u):
    """|u|^2 times the area weight at the quadrature points of the first surface"""
    bi = np.asarray(P.boundary_inds_list[0])
    fe = P.fes[0]
    _, js = fe.get_face_shape_grads(P.boundary_inds_list[0])
    uf_ = np.einsum("fqa,fav->fqv", np.asarray(fe.face_shape_vals)[bi[:, 1]], np.asarray(u).reshape(-1, 2)[np.asarray(fe.cells)[bi[:, 0]]])
    return (uf_ ** 2).sum(-1) * np.asarray(js)


def compliance(ctx):
    from feax.gene.responses import create_compliance_fn, create_dynamic_compliance_fn
    for ele, ns, vec in [("QUAD4", (2, 2), 2), ("TRI3", (2, 2), 2), ("TET4", (1, 1, 1), 3), ("HEX8", (1, 1, 2), 3), ("TRI6", (1, 1), 1), ("QUAD8", (1, 2), 2)]:
        m = X.mesh(ele, ns, distort=0.)
        d = len(ns)
        locs = [X.left, X.right]
        S = [uf.fun(f"traction{b}", (vec,)) for b in range(2)]
        T = [lambda u, x, p: S[0](u, x, p), lambda u, x, p: S[1](u, x, p)]
        P = X.make_problem(m, vec, d, ele, {"get_tensor_map": lambda g: g, "get_surface_maps": T}, location_fns=locs)
        n = len(m.points)
        fe = P.fes[0]
        C = np.asarray(fe.cells)
        nf = [len(b) for b in P.boundary_inds_list]
        data = []
        for b in range(2):
            bi = np.asarray(P.boundary_inds_list[b])
            _, ns_ = fe.get_face_shape_grads(P.boundary_inds_list[b])
            data.append((bi, np.asarray(fe.face_shape_vals)[bi[:, 1]], np.asarray(ns_), np.asarray(P.physical_surface_quad_points[b])))
        nfq = [x[1].shape[1] for x in data]

        def work(u, params, dyn):
            U = u[: n * vec].reshape(n, vec)
            tot = 0.
            for b, (bi, sv, ns_, xq) in enumerate(data):
                for f in range(len(bi)):
                    for q in range(nfq[b]):
                        uq = sum(sv[f, q, a] * U[int(C[bi[f, 0], a])] for a in range(C.shape[1]))
                        p = params[b][f, q] if dyn else params[b]
                        tot = tot - jnp.sum(S[b](uq, xq[f, q], p) * uq) * ns_[f, q]
            return tot

        def fn(u, p0, p1, s0, s1):
            from feax.solution import Solution

            def create(f, *a):  # the mesh data are constants, not inputs
                with jax.ensure_compile_time_eval():
                    return f(P, *a)
            c = [create(create_compliance_fn, [p0, p1])(u), create(create_compliance_fn, 2.)(u), create(create_compliance_fn)(u), create(create_compliance_fn, (p1, p0))(Solution(u, ((n, vec),)))]
            return c + [create(create_dynamic_compliance_fn)(u, [(s0,), (s1,)])]

        def spec(u, p0, p1, s0, s1):
            p = [p0, p1]
            return [work(u, p, False), work(u, [2., 2.], False), work(u, [1., 1.], False), work(u, [p[1], p[0]], False), work(u, [s0, s1], True)]
        ctx.equal(f"compliance on {ele}: work of arbitrary tractions on both surfaces", fn, spec, (Sx("u", (n * vec,)), Sx("p0", ()), Sx("p1", ()), Sx("s0", (nf[0], nfq[0])), Sx("s1", (nf[1], nfq[1]))),
                  functions=[RE + "create_compliance_fn", RE + "create_dynamic_compliance_fn"], n_replay=1)

    def exact():
        """constant and linear tractions against exact integration, and twice the strain energy at equilibrium"""
        k = 0
        for ele, ns in (("QUAD4", (2, 3)), ("TRI3", (3, 2)), ("HEX8", (2, 1, 2)), ("TET4", (1, 2, 1))):
            m = X.mesh(ele, ns, distort=0.)
            d = len(ns)
            t0 = np.arange(1., d + 1)
            c1 = 1. if ele in ("QUAD4", "HEX8") else 0.  # the facet rule of simplices is exact for linear integrands

            def trac(u, x, p):
                return -p * (jnp.asarray(t0) * (1. + c1 * x[1]))
            P = X.make_problem(m, d, d, ele, {"get_tensor_map": lambda g: g + g.T, "get_surface_maps": [trac]}, location_fns=[X.right])
            pts = np.asarray(m.points)
            U = np.stack([pts @ np.arange(1., d + 1) + .3 * a for a in range(d)], 1)
            got = float(create_compliance_fn(P, .7)(jnp.asarray(U.ravel())))
            # exact: integral over x=1 of .7*(1+y) t0 . u
            g, w = F.gauss1(5)
            tot = 0.
            for pt in itertools.product(range(5), repeat=d - 1):
                x = np.array([1.] + [g[i] for i in pt])
                ww = np.prod([w[i] for i in pt])
                u = np.array([x @ np.arange(1., d + 1) + .3 * a for a in range(d)])
                tot += ww * .7 * (1 + c1 * x[1]) * (t0 @ u)
            expect_close(got, tot, "work of a linear traction on a linear field", rtol=1e-9, mesh=ele)
            dyn = create_dynamic_compliance_fn(P)
            q = np.shape(P.physical_surface_quad_points[0])[:2]
            expect_close(float(dyn(jnp.asarray(U.ravel()), [(jnp.full(q, .7),)])), tot, "dynamic form", rtol=1e-9, mesh=ele)
            k += 1
        P = X.make_problem(X.mesh("QUAD4", (2, 2)), 2, 2, "QUAD4", {"get_tensor_map": lambda g: g})
        expect(float(create_compliance_fn(P)(jnp.ones(18))) == 0. and float(create_dynamic_compliance_fn(P)(jnp.ones(18), [])) == 0., "no surfaces: zero compliance")
        P = X.make_problem(X.mesh("QUAD4", (2, 2), distort=0.), 2, 2, "QUAD4", {"get_tensor_map": lambda g: g, "get_surface_maps": [lambda u, x, p: u * p]}, location_fns=[X.left])
        u = jnp.asarray(np.random.RandomState(0).uniform(size=18))
        two = lambda maps: X.make_problem(X.mesh("QUAD4", (2, 2), distort=0.), 2, 2, "QUAD4", {"get_tensor_map": lambda g: g, "get_surface_maps": maps}, location_fns=[X.left, X.right])
        one_ = lambda u, x, p: u * p
        Q, Q2 = two([one_]), two([one_, lambda u, x, p: 3. * u * p])
        ref = lambda p: -p * float(np.sum(np.asarray(face2(P, u))))
        expect_close(create_compliance_fn(Q, [2., 5.])(u), ref(2.), "a surface without a map carries no load")
        sv = [tuple(jnp.full(np.shape(Q.physical_surface_quad_points[b])[:2], v) for _ in range(1)) for b, v in ((0, 2.), (1, 5.))]
        expect_close(create_dynamic_compliance_fn(Q)(u, sv), ref(2.), "a surface without a map carries no load (dynamic)")
        lists = [float(create_compliance_fn(Q2, t([2., 5.]))(u)) for t in (list, tuple, jnp.asarray)]
        expect_close(lists, [lists[0]] * 3, "load parameters as list, tuple or array")
        expect(abs(lists[0] - ref(2.)) > 1e-3, "second surface loaded")
        R = two([lambda u, x, a, b, c: (a - 2 * b) * u + c * x[:2], lambda u, x, a, b, c: (b + c) * u - a])
        rng = np.random.RandomState(4)
        sv = [tuple(jnp.asarray(rng.uniform(size=np.shape(R.physical_surface_quad_points[b])[:2])) for _ in range(3)) for b in (0, 1)]
        tot = 0.
        for b in (0, 1):
            bi = np.asarray(R.boundary_inds_list[b])
            fe = R.fes[0]
            _, js = fe.get_face_shape_grads(R.boundary_inds_list[b])
            uf_ = np.einsum("fqa,fav->fqv", np.asarray(fe.face_shape_vals)[bi[:, 1]], np.asarray(u).reshape(-1, 2)[np.asarray(fe.cells)[bi[:, 0]]])
            a, bb, c = (np.asarray(v)[..., None] for v in sv[b])
            x = np.asarray(R.physical_surface_quad_points[b])
            t = (a - 2 * bb) * uf_ + c * x if b == 0 else (bb + c) * uf_ - a
            tot -= (t * uf_ * np.asarray(js)[..., None]).sum()
        expect_close(create_dynamic_compliance_fn(R)(u, sv), tot, "several variables per surface")
        expect_raises(lambda: create_compliance_fn(P, [1., 2.]), "wrong number of load parameters", ValueError)
        return k
    ctx.bounded("compliance of polynomial tractions equals the exact integral", exact, functions=[RE + "create_compliance_fn", RE + "create_dynamic_compliance_fn"])


GROUPS = [density, projection, sensitivity, helmholtz, helm_a, helm_b, helm_p, volume, compliance]
