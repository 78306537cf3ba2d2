"""C17: cohesive potentials and interfaces; third-medium contact."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, ring, symnp, uf
from fv.contract import Sx, expect, expect_close, expect_raises

CO = "feax/mechanics/cohesive.py:"
TM = "feax/mechanics/tmc.py:"

GA, SC = Sx("Ga", (), .5, 3.), Sx("sc", (), .5, 4.)
pos = lambda *xs: [x.item() > 1e-3 for x in xs]


def potentials(ctx):
    from feax.mechanics import cohesive as K
    d, m = Sx("d", (), .05, 3.), Sx("m", (), .05, 3.)
    fe, fb = [CO + "exponential_potential"], [CO + "bilinear_potential"]
    W = lambda phi: (lambda d, m, G, s: phi(jnp.stack([d]), jnp.stack([m]), Gamma=G, sigma_c=s)[0])

    def ex(x, G, s):
        dc = G / (np.e * s)
        return G * (1 - (1 + x / dc) * jnp.exp(-x / dc))
    below = lambda c: (c[0], c[0] + np.abs(c[1]) + .05) + tuple(c[2:])
    above = lambda c: (c[1] + np.abs(c[0]), c[1]) + tuple(c[2:])
    ctx.equal("exponential potential on first loading", lambda d, m, G, s: W(K.exponential_potential)(d, m, G, s), lambda d, m, G, s: ex(d, G, s), (d, m, GA, SC),
              assume=lambda d, m, G, s: pos(d, m, G, s) + [d.item() >= m.item()], constraint=above, functions=fe)
    ctx.equal("exponential potential unloads and reloads along the secant of the history maximum", lambda d, m, G, s: W(K.exponential_potential)(d, m, G, s), lambda d, m, G, s: ex(m, G, s) / (m ** 2 + 1e-30) * d ** 2, (d, m, GA, SC),
              assume=lambda d, m, G, s: pos(d, m, G, s) + [d.item() < m.item() - 1e-6], constraint=below, functions=fe)
    ctx.equal("exponential traction on loading is Gamma delta / delta_c^2 exp(-delta/delta_c)", lambda d, G, s: jax.grad(lambda x: W(K.exponential_potential)(x, 0. * d, G, s))(d), lambda d, G, s: (lambda dc: G * d / dc ** 2 * jnp.exp(-d / dc))(G / (np.e * s)), (d, GA, SC),
              assume=lambda d, G, s: pos(d, G, s), functions=fe)
    ctx.equal("exponential potential and traction vanish at zero opening", lambda m, G, s: [W(K.exponential_potential)(0. * m, m, G, s), jax.grad(lambda x: W(K.exponential_potential)(x, m, G, s))(0. * m), W(K.exponential_potential)(0. * m, 0. * m, G, s), W(K.bilinear_potential)(0. * m, m, G, s), W(K.bilinear_potential)(0. * m, 0. * m, G, s)],
              lambda m, G, s: [0. * m] * 5, (m, GA, SC), assume=lambda m, G, s: pos(m, G, s), functions=fe + fb)

    def bi(x, G, s):
        """linear rise to the strength at 2 Gamma / sigma_c, nothing beyond"""
        return jnp.where(x < 2 * G / s, s * s / (4 * G) * x * x, G)
    ctx.equal("bilinear potential on first loading", lambda d, m, G, s: W(K.bilinear_potential)(d, m, G, s), lambda d, m, G, s: bi(d, G, s), (d, m, GA, SC), assume=lambda d, m, G, s: pos(d, m, G, s) + [d.item() >= m.item()], constraint=above, functions=fb, n_replay=8)
    ctx.equal("bilinear potential unloads along the secant", lambda d, m, G, s: W(K.bilinear_potential)(d, m, G, s), lambda d, m, G, s: bi(m, G, s) / (m ** 2 + 1e-30) * d ** 2, (d, m, GA, SC), assume=lambda d, m, G, s: pos(d, m, G, s) + [d.item() < m.item() - 1e-6], constraint=below, functions=fb, n_replay=8)
    ctx.nonneg("bilinear potential stays between zero and the toughness", lambda d, G, s: [W(K.bilinear_potential)(d, 0. * d, G, s), G - W(K.bilinear_potential)(d, 0. * d, G, s)], (d, GA, SC), assume=lambda d, G, s: pos(d, G, s), functions=fb)
    ctx.nonneg("bilinear traction on loading stays between zero and the strength", lambda d, G, s: (lambda t: [t, s - t])(jax.grad(lambda x: W(K.bilinear_potential)(x, 0. * d, G, s))(d)), (d, GA, SC), assume=lambda d, G, s: pos(d, G, s), functions=fb)

    def limits():
        n = 0
        for G, s in ((1., 1.), (15., 20000.), (3., .5), (.2, 7.)):
            dc, df = G / (np.e * s), 2 * G / s
            for phi, dpk, dend in ((K.exponential_potential, dc, 60 * dc), (K.bilinear_potential, df * (1 - 1e-9), df * (1 + 1e-9))):
                f = lambda x, m=0.: phi(jnp.asarray([x]), jnp.asarray([m]), Gamma=G, sigma_c=s)[0]
                T = jax.vmap(jax.grad(f))
                xs = jnp.asarray(np.concatenate([np.linspace(1e-3, 4, 400) * df, [dpk]]))
                t = np.asarray(T(xs))
                expect_close(float(jax.grad(f)(dpk)), s, "peak traction is the strength", rtol=1e-6, G=G, s=s, law=phi.__name__)
                expect((t <= s * (1 + 1e-9)).all() and (t >= -1e-9 * s).all(), "traction never exceeds the strength", G=G, s=s, law=phi.__name__)
                expect_close(float(f(dend)), G, "full separation dissipates the toughness", rtol=1e-6, law=phi.__name__, G=G, s=s)
                v = np.asarray(jax.vmap(f)(jnp.sort(xs)))
                expect((np.diff(v) >= -1e-9 * G).all() and v.max() <= G * (1 + 1e-9), "energy grows monotonically to the toughness", law=phi.__name__, G=G, s=s)
                # vectorised over nodes, histories
                ds = np.linspace(.01, 2.5, 40) * df
                secant = []
                for mx in ds:
                    un = np.asarray(phi(jnp.asarray(ds), jnp.full(40, mx), Gamma=G, sigma_c=s))
                    expect_close(un, np.where(ds >= mx, np.asarray(jax.vmap(f)(jnp.asarray(ds))), float(f(mx)) * (ds / mx) ** 2), "history at every node", law=phi.__name__, rtol=1e-6, atol=1e-9 * G)
                    secant.append(float(f(mx)) / mx ** 2)
                expect((np.diff(secant) <= 1e-9 * secant[0]).all(), "damage never recovers stiffness", law=phi.__name__)
                n += 40
        return n
    ctx.bounded("strength, toughness, irreversibility of both laws", limits, functions=fe + fb)


def interface(ctx):
    from feax.mechanics import cohesive as K
    CI = CO + "CohesiveInterface."
    for vec, top, bot, nn in ((2, [3, 1], [0, 4], 5), (3, [2, 5, 0], [1, 4, 3], 6), (2, [4], [2], 5)):
        n = len(top)
        u, nr, w, be, dm = Sx("u", (nn * vec,)), Sx("nr", (n, vec)), Sx("w", (n,), .1, 1.), Sx("be", (), .2, 2.), Sx("dm", (n,), 0., .5)
        T, B = np.array(top), np.array(bot)

        def parts(u, nr):
            U = u.reshape(nn, vec)
            out = []
            for i in range(n):
                j = U[top[i]] - U[bot[i]]
                dn = sum(j[k] * nr[i, k] for k in range(vec))
                out.append((j, dn, j - dn * nr[i]))
            return out

        def delta(u, nr, be):
            return jnp.stack([jnp.sqrt(jnp.maximum(dn, 0.) ** 2 + be ** 2 * sum(t[k] * t[k] for k in range(vec)) + 1e-30) for _, dn, t in parts(u, nr)])
        mk = lambda nr, w, be: K.CohesiveInterface(T, B, w, nr, vec, beta=be)
        ctx.equal(f"jump and opening components (vec={vec}, pairs={n})", lambda u, nr, w: [mk(nr, w, 1.7).get_jump(u), *mk(nr, w, 1.7).get_opening_components(u)],
                  lambda u, nr, w: [jnp.stack([j for j, _, _ in parts(u, nr)]), jnp.stack([x for _, x, _ in parts(u, nr)]), jnp.stack([jnp.sqrt(jnp.sum(t * t)) for _, _, t in parts(u, nr)])], (u, nr, w), functions=[CI + "get_jump", CI + "get_opening_components"])
        ctx.equal(f"effective opening (vec={vec}, pairs={n})", lambda u, nr, w, be: mk(nr, w, be).get_opening(u), lambda u, nr, w, be: delta(u, nr, be), (u, nr, w, be), functions=[CI + "get_opening"])
        pot = uf.fun("potential", ())
        phi = lambda d, m, k: jax.vmap(lambda a, b: pot(jnp.stack([a, b, k])))(d, m)
        kk = Sx("kk")
        ctx.equal(f"interface energy is the weighted sum of any potential (vec={vec}, pairs={n})", lambda u, nr, w, be, dm, k: mk(nr, w, be).create_energy_fn(phi, k=k)(u, dm),
                  lambda u, nr, w, be, dm, k: sum(w[i] * pot(jnp.stack([delta(u, nr, be)[i], dm[i], k])) for i in range(n)), (u, nr, w, be, dm, kk), functions=[CI + "create_energy_fn"])

        def forces(u, nr, w, be, dm, k):
            g = jax.grad(lambda u: mk(nr, w, be).create_energy_fn(phi, k=k)(u, dm))(u).reshape(nn, vec)
            rest = [i for i in range(nn) if i not in top + bot]
            return [g[T] + g[B]] + [g[i] for i in rest]
        ctx.equal(f"interface forces are equal and opposite pair by pair and act nowhere else (vec={vec}, pairs={n})", forces, lambda *a: [jnp.zeros((n, vec))] + [jnp.zeros(vec)] * (nn - len(set(top + bot))), (u, nr, w, be, dm, kk), functions=[CI + "create_energy_fn"])
        ctx.equal(f"rigid translation leaves the interface energy (vec={vec}, pairs={n})", lambda u, nr, w, be, dm, k, t: mk(nr, w, be).create_energy_fn(phi, k=k)(u + jnp.tile(t, nn), dm), lambda u, nr, w, be, dm, k, t: mk(nr, w, be).create_energy_fn(phi, k=k)(u, dm),
                  (u, nr, w, be, dm, kk, Sx("t", (vec,))), functions=[CI + "create_energy_fn"])
        for ax in range(vec):
            def fa(u, w, be):
                I = K.CohesiveInterface.from_axis(T, B, w, ax, vec, beta=be)
                return [I.get_opening(u), I.normals]
            e = np.zeros((n, vec))
            e[:, ax] = 1
            ctx.equal(f"axis-aligned interface, axis {ax} (vec={vec}, pairs={n})", fa, lambda u, w, be: [delta(u, jnp.asarray(e), be), jnp.asarray(e)], (u, w, be), functions=[CI + "from_axis"])
        ctx.equal(f"default mode mixity is one (vec={vec}, pairs={n})", lambda u, nr, w: [K.CohesiveInterface(T, B, w, nr, vec).get_opening(u), K.CohesiveInterface.from_axis(T, B, w, 0, vec).get_opening(u)],
                  lambda u, nr, w: [delta(u, nr, 1.), delta(u, jnp.asarray(np.eye(vec)[[0] * n]), 1.)], (u, nr, w), functions=[CI + "__init__"])

    def compress():
        I = K.CohesiveInterface.from_axis([1], [0], jnp.ones(1), 1, 2)
        e = I.create_energy_fn(K.exponential_potential, Gamma=2., sigma_c=3.)
        expect_close(e(jnp.array([0., 0., 0., -.3]), jnp.zeros(1)), 0., "no energy in compression", atol=1e-12)
        g = jax.grad(e)(jnp.array([0., 0., 0., -.3]), jnp.zeros(1))
        expect(np.isfinite(np.asarray(g)).all() and abs(np.asarray(g)).max() < 1e-6, "no force in compression")
        g = jax.grad(e)(jnp.zeros(4), jnp.zeros(1))
        expect(np.isfinite(np.asarray(g)).all(), "finite force at rest")
        H = jax.hessian(e)(jnp.zeros(4), jnp.zeros(1))
        expect(np.isfinite(np.asarray(H)).all(), "finite stiffness at rest")
        expect_raises(lambda: K.CohesiveInterface([0], [1], jnp.ones(1), jnp.ones((1, 3)), 2), "normal shape", ValueError)
        expect_raises(lambda: K.CohesiveInterface([0], [1], jnp.ones(1), jnp.ones((2, 2)), 2), "normal count", ValueError)
        expect_close(e(jnp.array([0., 0., 0., .4]), jnp.zeros(1)), K.exponential_potential(jnp.array([.4]), jnp.zeros(1), Gamma=2., sigma_c=3.)[0], "mode I energy")
    ctx.bounded("compression, rest state and shape errors", compress, functions=[CI + "create_energy_fn", CI + "__init__"])

    def sym_trap(x):
        with symnp.numpy_as_symbolic(K, jax_too=True):
            return np.asarray(K.compute_trapezoidal_weights(x), dtype=object)
    for n in (1, 2, 3, 5):
        def sp(x):
            w = [0. * x[0] for _ in range(n)]
            for i in range(n - 1):
                h = (x[i + 1] - x[i]) / 2
                w[i], w[i + 1] = w[i] + h, w[i + 1] + h
            return np.array(w, dtype=object if x.dtype == object else float)
        ctx.equal(f"trapezoidal weights of {n} nodes", sym_trap, sp, (Sx("x", (n,), sampler=lambda r, n=n: np.sort(r.uniform(0, 3, n))),), engine="host", functions=[CO + "compute_trapezoidal_weights"], replay=(lambda x: np.asarray(K.compute_trapezoidal_weights(x)), sp))

    def area():
        rng = ctx.rng("area")
        k = 0
        for trial in range(6):
            nx, ny = rng.randint(1, 4, 2)
            gx, gy = np.sort(rng.uniform(0, 2, nx + 1)), np.sort(rng.uniform(0, 2, ny + 1))
            P = np.array([[a, b, 0] for a in gx for b in gy])
            if trial % 2:       # general quadrilaterals, not parallelograms
                gx, gy = np.linspace(0, 2, nx + 1), np.linspace(0, 3, ny + 1)
                P = np.array([[a, b, 0] for a in gx for b in gy])
                P[:, :2] += rng.uniform(-.12, .12, size=(len(P), 2))
            Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
            P = P @ Q.T + rng.normal(size=3)
            nid = lambda i, j: i * (ny + 1) + j
            quads = np.array([[nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1)] for i in range(nx) for j in range(ny)])
            coords = np.concatenate([rng.normal(size=(4, 3)), P])
            quads = quads + 4
            ids = np.arange(4, len(coords))
            rng.shuffle(ids)
            ids = ids[: max(2, len(ids) - trial % 3)]
            w = np.asarray(K.compute_lumped_area_weights(ids, coords, quads))
            want = np.zeros(len(coords))
            for q in quads:
                p = coords[q]
                A = (np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])) + np.linalg.norm(np.cross(p[2] - p[0], p[3] - p[0]))) / 2
                want[q] += A / 4
            expect_close(w, want[ids], "lumped area weights", trial=trial)
            k += 1
        return k
    ctx.bounded("lumped area weights are a quarter of each adjacent quad's area", area, functions=[CO + "compute_lumped_area_weights"])


def tmc(ctx):
    from feax.mechanics import tmc as M
    from feax import assembler as AS
    from feax.traced_params import TracedParams
    TC = TM + "ThirdMediumContact."

    def lnj(J):
        s = (J - 1e-4) / 1e-4
        return jnp.where(J > 1e-4, jnp.log(J), np.log(1e-4) + s - s * s / 2)

    def det(A):
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0] if A.shape[0] == 2 else A[0] @ jnp.cross(A[1], A[2])
    for ele, ns, ps in (("QUAD9", (1, 1), True), ("QUAD9", (1, 1), False), ("QUAD8", (2, 1), True), ("TRI6", (1, 1), True), ("HEX20", (1, 1, 1), True)):
        m = X.mesh(ele, ns)
        P, C = np.asarray(m.points), np.asarray(m.cells)
        d = P.shape[1]
        nc = len(C)
        for med in (np.ones(nc), np.array([(c + 1) % 2 for c in range(nc)], float), np.zeros(nc))[::2 if nc == 1 else 1]:
            mu0, la0, g0, kr, L = 1.3, 2.1, .01, .3, 1.7
            pb, tp = M.ThirdMediumContact.create(m, jnp.asarray(med), mu0, la0, gamma0=g0, kr=kr, ele_type=ele, ref_length=L, plane_strain=ps)

            def mats():
                expect_close(tp.volume_vars[0], np.where(med, mu0 * g0, mu0), "shear modulus scaled in the medium only")
                expect_close(tp.volume_vars[1], np.where(med, la0 * g0, la0), "Lame parameter scaled in the medium only")
            ctx.bounded(f"medium material, {ele} {ns} {med.tolist()} plane strain {ps}", mats, functions=[TC + "create"])
            # the elastic density replaced by an arbitrary function: elastic part of the right material + regularization
            en = uf.fun("psi", ())

            class Any(M.ThirdMediumContact):
                def get_energy_density(self):
                    return lambda g, mu, la, *_: en(jnp.concatenate([g.ravel(), jnp.stack([mu, la])]))
            pa, ta = Any.create(m, jnp.asarray(med), mu0, la0, gamma0=g0, kr=kr, ele_type=ele, ref_length=L, plane_strain=ps)
            fe0 = pa.fes[0]
            H, J, SG = np.asarray(fe0.shape_hessians), np.asarray(fe0.JxW), np.asarray(fe0.shape_grads)

            def Er(u):
                e = 0.
                for c in range(nc):
                    sc = g0 if med[c] else 1.
                    for q in range(H.shape[1]):
                        h = jnp.einsum("av,akl->vkl", u[C[c]], H[c, q])
                        lap = h[:, 0, 0] + h[:, 1, 1] + (h[:, 2, 2] if d == 3 else 0)
                        g = jnp.einsum("av,aj->vj", u[C[c]], SG[c, q])
                        e = e + J[c, q] * en(jnp.concatenate([g.ravel(), jnp.array([mu0 * sc, la0 * sc])])) + med[c] * kr * la0 * L ** 2 / 2 * J[c, q] * (jnp.sum(h * h) - jnp.sum(lap * lap) / d)
                return e
            ctx.equal(f"contact residual on {ele} {ns}, medium {med.tolist()}, plane strain {ps}: any elastic density with the scaled moduli + kr lambda L^2 int (H u:::H v - L u.L v / d) over the medium only", lambda u: AS.get_res(pa, [u], ta), lambda u: [jax.grad(Er)(u)], (Sx("u", (len(P), d), -.02, .02),),
                      functions=[TC + "get_extra_kernel", TC + "create"], n_replay=1)
        psi = pb.get_energy_density()

        def spec(g, mu, la):
            Fd = jnp.eye(d) + g
            tr = jnp.sum(Fd * Fd) + (1. if (ps and d == 2) else 0.)
            l = lnj(det(Fd))
            return mu / 2 * tr - mu * l + la / 2 * l * l
        g, mu, la = Sx("g", (d, d), -.3, .3), Sx("mu", (), .5, 2.), Sx("la", (), .5, 2.)
        ctx.equal(f"neo-Hookean density {ele}, plane strain {ps}", lambda g, a, b: psi(g, a, b), spec, (g, mu, la), functions=[TC + "get_energy_density"], n_replay=6)

        def affine():
            r = ctx.rng("aff")
            A, b = r.uniform(-.2, .2, (d, d)), r.normal(size=d)
            pb, tp = M.ThirdMediumContact.create(X.mesh(ele, ns, distort=0.), jnp.ones(nc), 1., 1., kr=1., ele_type=ele)
            Pa = np.asarray(pb.mesh[0].points if isinstance(pb.mesh, (list, tuple)) else pb.mesh.points)
            z = jnp.zeros(nc)
            R = AS.get_res(pb, [jnp.asarray(Pa @ A.T + b)], TracedParams(volume_vars=(z, z) + tuple(tp.volume_vars[2:])))[0]
            expect_close(R, 0 * R, "no regularization force for affine deformation", atol=1e-9)
            # a pure-twist quadratic field has energy
            R = AS.get_res(pb, [jnp.asarray((Pa[:, :1] * Pa[:, 1:2]) * np.ones((1, d)))], TracedParams(volume_vars=(z, z) + tuple(tp.volume_vars[2:])))[0]
            expect(abs(np.asarray(R)).max() > 1e-3, "bending fields are penalised")
            I = jax.grad(psi)(jnp.zeros((d, d)), 1.3, 2.1)
            expect_close(I, np.zeros((d, d)), "stress free reference state")
            f = lambda J: psi(jnp.diag(jnp.concatenate([jnp.stack([J - 1]), jnp.zeros(d - 1)])), 1., 1.)
            lo, hi = 1e-4 * (1 - 1e-9), 1e-4 * (1 + 1e-9)
            expect_close(jax.grad(f)(lo), jax.grad(f)(hi), "stress continuous across the log extension", rtol=1e-5)
            expect(np.isfinite(float(f(-.5))) and np.isfinite(float(jax.grad(f)(-.5))), "finite energy for inverted states")
            # full residual: elastic + regularization
            med = np.arange(nc) % 2 == 0
            pb, tp = M.ThirdMediumContact.create(X.mesh(ele, ns), jnp.asarray(med * 1.), 1.3, 2.1, gamma0=.01, kr=.3, ele_type=ele, plane_strain=ps)
            fe0 = pb.fes[0]
            SG, H, Jw = np.asarray(fe0.shape_grads), np.asarray(fe0.shape_hessians), np.asarray(fe0.JxW)
            u0 = jnp.asarray(.05 * r.normal(size=(len(P), d)))

            def tot(u):
                e = 0.
                for c in range(nc):
                    sc = .01 if med[c] else 1.
                    for q in range(SG.shape[1]):
                        G_ = jnp.einsum("av,aj->vj", u[C[c]], SG[c, q])
                        h = jnp.einsum("av,akl->vkl", u[C[c]], H[c, q])
                        lap = jnp.trace(h, axis1=1, axis2=2)
                        e = e + Jw[c, q] * (spec(G_, 1.3 * sc, 2.1 * sc) + (.5 * .3 * 2.1 * (jnp.sum(h * h) - jnp.sum(lap * lap) / d) if med[c] else 0.))
                return e
            expect_close(AS.get_res(pb, [u0], tp)[0], jax.grad(tot)(u0), "total residual", rtol=1e-6, atol=1e-8)
        ctx.bounded(f"affine deformations, reference state, log extension and total residual on {ele} plane strain {ps}", affine, functions=[TC + "create", TC + "get_energy_density", TC + "get_extra_kernel"])

    def classify():
        r = ctx.rng("cls")
        k = 0
        for ele, ns, nc in (("QUAD4", (4, 3), None), ("QUAD9", (3, 2), None), ("HEX8", (2, 2, 2), 8), ("TRI6", (3, 2), 3), ("HEX20", (2, 1, 1), 8)):
            m = X.mesh(ele, ns)
            P, C = np.array(m.points), np.asarray(m.cells)
            mid = np.setdiff1d(C, C[:, :nc or 4])      # curved edges: only the corners decide
            P[mid] += r.uniform(-.3, .3, size=(len(mid), P.shape[1])) / max(ns)
            m = type(m)(jnp.asarray(P), m.cells, ele_type=ele)
            cen = P[C[:, :nc or 4]].mean(1)
            for _ in range(12):
                n, o = r.normal(size=cen.shape[1]), r.uniform(.2, .8)
                f = lambda *x: float(np.dot(x, n)) > o * n.sum()
                v = np.asarray(M.classify_medium_cells(m, f, **({} if nc is None else dict(n_corner_nodes=nc))))
                expect(np.array_equal(v, [1. if f(*c) else 0. for c in cen]), "centroid classification", ele=ele)
                k += 1
        return k
    ctx.bounded("cells are classified by their corner centroid", classify, functions=[TM + "classify_medium_cells"])


GROUPS = [potentials, interface, tmc]
