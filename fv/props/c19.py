"""C19: linear buckling eigenpairs and their sensitivities."""
import contextlib
import sys
import types
import itertools
import numpy as np
import scipy.linalg as sla
import scipy.sparse as sp
import jax
import jax.numpy as jnp
from fv import fxlib as X, solvlib as SL
from fv.contract import Sx, Skip, expect, expect_close, expect_raises

E = "feax/solvers/eigen.py:"


@contextlib.contextmanager
def swapped(obj, name, val):
    old = getattr(obj, name)
    setattr(obj, name, val)
    try:
        yield
    finally:
        setattr(obj, name, old)


def csr(A, pattern=None):
    from feax.csr import CSRMatrix
    A = np.asarray(A)
    P = sp.csr_matrix(np.ones(A.shape) if pattern is None else np.asarray(pattern, float))
    P.sort_indices()
    r = np.repeat(np.arange(A.shape[0]), np.diff(P.indptr))
    return CSRMatrix(jnp.asarray(A[r, P.indices]), jnp.asarray(P.indptr), jnp.asarray(P.indices), A.shape)


# ------------------------------------------------------------------ generalized_eigh
def tri(n, x):
    k, rows = 0, []
    for i in range(n):
        rows.append(jnp.stack([x[k + j] if j <= i else jnp.zeros(()) for j in range(n)]))
        k += i + 1
    return jnp.stack(rows)


def solve_tri(L, B, lower=False, trans=0, unit_diagonal=False, **k):
    """assumed contract on jax.scipy.linalg.solve_triangular: substitution"""
    if trans in (1, "T"):
        L, lower = L.T, not lower
    n = L.shape[0]
    x = [None] * n
    for i in (range(n) if lower else reversed(range(n))):
        acc = B[i]
        for j in (range(i) if lower else range(i + 1, n)):
            acc = acc - L[i, j] * x[j]
        x[i] = acc if unit_diagonal else acc / L[i, i]
    return jnp.stack(x)


def eigh(ctx):
    from feax.solvers import eigen as M
    for n in (1, 2, 3):
        nl = n * (n + 1) // 2

        def orth(n, v):
            if n == 1:
                return jnp.ones((1, 1))
            if n == 2:
                return jnp.array([[1., 0], [0, 1]]) * jnp.cos(v[0]) + jnp.array([[0., -1], [1, 0]]) * jnp.sin(v[0])
            return jnp.eye(n) - 2 * jnp.outer(v, v) / jnp.sum(v * v)

        def code(x, w, v, skew):
            L = tri(n, x)
            B = L @ L.T
            U = orth(n, v)
            S = L @ U @ jnp.diag(w) @ U.T @ L.T
            Wk = skew * (jnp.triu(jnp.ones((n, n)), 1) - jnp.tril(jnp.ones((n, n)), -1))
            obl = []

            def chol(b, *a, **k):
                obl.append(jnp.asarray(b) - B)
                return L

            def eigh_(c, *a, **k):
                obl.append(jnp.asarray(c) - U @ jnp.diag(w) @ U.T)
                return w, U
            sym = isinstance(x, jax.core.Tracer)
            with contextlib.ExitStack() as st:
                if sym:
                    st.enter_context(swapped(jnp.linalg, "cholesky", chol))
                    st.enter_context(swapped(jnp.linalg, "eigh", eigh_))
                    if hasattr(M, "solve_triangular"):
                        st.enter_context(swapped(M, "solve_triangular", solve_tri))
                ww, Xv = M.generalized_eigh(S + Wk, B)
            z = jnp.zeros((n, n))
            obl = (obl + [z, z])[:2] if sym else [z, z]
            return jnp.stack([S @ Xv - B @ Xv * ww[None, :], Xv.T @ B @ Xv] + obl), ww
        spec = lambda x, w, v, skew: (jnp.stack([jnp.zeros((n, n)), jnp.eye(n), jnp.zeros((n, n)), jnp.zeros((n, n))]), jnp.sort(w) if not isinstance(w, jax.core.Tracer) else w)
        ctx.equal(f"generalized_eigh: A X = B X diag(w), X'BX = I ({n}x{n}; Cholesky, substitution and standard eigh by contract)", code, spec,
                  (Sx("l", (nl,), .5, 1.5), Sx("w", (n,)), Sx("v", (max(n, 1),), .2, 1.), Sx("k")), functions=[E + "generalized_eigh"],
                  assume=lambda l, w, v, k: [l[i * (i + 3) // 2] > 1e-3 for i in range(n)] + [v[0] > 1e-3])

    def sweep():
        for s in range(12):
            rng = ctx.rng("ge", s)
            n = rng.randint(1, 25)
            A = rng.randn(n, n)
            B = rng.randn(n, n)
            B = B @ B.T + .5 * np.eye(n)
            w, V = map(np.asarray, M.generalized_eigh(jnp.asarray(A), jnp.asarray(B)))
            A = (A + A.T) / 2
            expect_close(w, sla.eigh(A, B, eigvals_only=True), "eigenvalues, ascending", rtol=1e-7, atol=1e-7)
            expect_close(A @ V, B @ V * w, "eigenpairs", rtol=1e-6, atol=1e-7)
            expect_close(V.T @ B @ V, np.eye(n), "B-orthonormal", atol=1e-7)
        return 12
    ctx.bounded("generalized_eigh on random pencils", sweep, functions=[E + "generalized_eigh"], bound="12 pencils up to 24x24")


# ------------------------------------------------------------------ sensitivities
class Eig:
    """contract of the eigensolve inside bf: returns the given pairs"""

    def __init__(self, lam, phi, free, N):
        self.lam, self.phi, self.free, self.N = lam, phi, np.asarray(free), N
        self.called = 0

    def __call__(self, f, shapes, *a, **k):
        self.called += 1
        out = []
        flat, td = jax.tree_util.tree_flatten(shapes)
        m = self.lam.shape[0]
        for s in flat:
            if s.shape == (m,):
                out.append(self.lam)
            elif s.shape == (m, self.N):
                out.append(jnp.zeros((m, self.N)).at[:, self.free].set(self.phi))
            elif s.shape == (m, len(self.free)):
                out.append(self.phi)
            else:
                raise Skip("eigensolve callback shape")
        return jax.tree_util.tree_unflatten(td, out)


def sens_code(M, free, pat, m, Kd, Gd, lam, phi, bar, solver="dense"):
    """cotangents of (K.data, Kg.data) through the real bf, with the eigensolve by contract"""
    N = pat.shape[0]
    with jax.ensure_compile_time_eval():
        K0 = csr(np.zeros((N, N)), pat)
    eig = Eig(lam, phi, free, N)
    with swapped(jax, "pure_callback", eig), SL.custom_vjp_transparent():
        bf = M.create_linear_buckling_solver(np.asarray(free), num_modes=m, solver=solver)
        if not isinstance(bf, SL.VJP):
            raise Skip("no custom rule")
        A, B = K0.with_data(Kd), K0.with_data(Gd)
        p = bf(A, B)
        (l, modes), res = bf.fwd(A, B)
        if not eig.called:
            raise Skip("no host eigensolve")
        ga, gb = bf.bwd(res, (bar, jnp.ones_like(modes)))
    return l, modes, ga.data, gb.data, p[0] - l, p[1] - modes


def sensitivity(ctx):
    from feax.solvers import eigen as M
    cases = [((0, 1, 2), 3, 2), ((2, 0, 3), 5, 2), ((1,), 3, 1), ((4, 1, 2, 0), 5, 3)]
    for free, N, m in cases:
        rng = np.random.RandomState(N + m)
        for dense in (True, False):
            pat = np.ones((N, N)) if dense else ((rng.uniform(size=(N, N)) < .5) | np.eye(N, dtype=bool)).astype(float)
            r, c = np.nonzero(pat)
            nnz = len(r)
            nf = len(free)
            mask = np.isin(r, free) & np.isin(c, free)

            def code(Kd, Gd, lam, phi, bar):
                return sens_code(M, free, pat, m, Kd, Gd, lam, phi, bar)

            def spec(Kd, Gd, lam, phi, bar):
                modes = jnp.zeros((m, N)).at[:, np.asarray(free)].set(phi)
                o = modes[:, r] * modes[:, c] * mask
                return lam, modes, (bar * lam) @ o, (bar * lam ** 2) @ o, 0 * lam, 0 * modes
            ctx.equal(f"cotangents are lambda phi phi' and lambda^2 phi phi' on the free slots, mode cotangents ignored (free {list(free)} of {N}, {m} modes, {'dense' if dense else 'sparse'} pattern)",
                      code, spec, (Sx("K", (nnz,)), Sx("G", (nnz,)), Sx("lam", (m,), .5, 2.), Sx("phi", (m, nf)), Sx("bar", (m,))), functions=[E + "create_linear_buckling_solver", E + "_outer_cotangent"])

    # they are the derivative: every smooth family of 2x2 pencils with a simple factor
    from feax.csr import CSRMatrix

    def family(phi, lam, g, p):
        G = jnp.stack([jnp.stack([g[0], g[1]]), jnp.stack([g[1], g[2]])])
        q = jnp.stack([-phi[1], phi[0]])
        return -lam * G + p * jnp.outer(q, q), G

    def code(phi, lam, g, p, dphi, dlam, dg, dp):
        (K, G), (dK, dG) = jax.jvp(family, (phi, lam, g, p), (dphi, dlam, dg, dp))
        ph = phi / jnp.sqrt(phi @ (K @ phi))
        _, _, a, b, _, _ = sens_code(M, (0, 1), np.ones((2, 2)), 1, K.ravel(), G.ravel(), lam[None], ph[None], jnp.ones(1))
        return a @ dK.ravel() + b @ dG.ravel()

    def neg(phi, lam, g):  # phi'G phi < 0: positive modal stiffness
        return phi[0] * phi[0] * g[0] + 2 * phi[0] * phi[1] * g[1] + phi[1] * phi[1] * g[2]

    def samp(r):
        return np.array([-r.uniform(.5, 1), r.uniform(-.2, .2), -r.uniform(.5, 1)])
    ctx.equal("the gradient is the derivative of the buckling factor along every smooth 2x2 family", code, lambda phi, lam, g, p, dphi, dlam, dg, dp: dlam,
              (Sx("phi", (2,), .3, 1), Sx("lam", (), .5, 2), Sx("g", (3,), sampler=samp), Sx("p", (), .5, 1), Sx("dphi", (2,)), Sx("dlam"), Sx("dg", (3,)), Sx("dp")),
              functions=[E + "create_linear_buckling_solver"], assume=lambda phi, lam, g, p, *a: [lam.item() > 1e-3, neg(phi, lam.item(), g) < -1e-3])

    def missing():
        for k, (pos, m) in enumerate(((1, 3), (2, 2), (2, 4))):
            n = 7
            rng = ctx.rng("mi", k)
            K = np.diag(rng.uniform(1, 2, n))
            g = np.where(np.arange(n) < pos, -1, 1) * rng.uniform(.5, 1, n)
            G = np.diag(g)
            for s in ("dense", "sparse"):
                bf = M.create_linear_buckling_solver(np.arange(n), m, s)
                lam, modes = bf(csr(K), csr(G))
                ref = np.sort([-K[i, i] / g[i] for i in range(pos)])[:m]
                expect_close(lam, np.concatenate([ref, np.full(m - len(ref), np.inf)]), f"{s}: missing factors are inf", rtol=1e-6)
                expect_close(np.asarray(modes)[pos:], 0 * np.asarray(modes)[pos:], f"{s}: missing modes are zero")
                gk = jax.grad(lambda d: bf(csr(K).with_data(d), csr(G))[0][0])(csr(K).data)
                i = int(np.argmin([-K[j, j] / g[j] for j in range(pos)]))
                e = np.zeros((n, n))
                e[i, i] = -1 / g[i]
                expect_close(np.asarray(gk), e.ravel(), f"{s}: gradient of an existing factor", rtol=1e-5, atol=1e-6)
        return 6
    ctx.bounded("missing positive modes are padded and do not spoil the gradients", missing, functions=[E + "create_linear_buckling_solver"], bound="3 pencils x 2 solvers")


# ------------------------------------------------------------------ eigenpairs
def pencil(rng, n, neg=.5):
    """SPD K, symmetric Kg of mixed sign on a shared sparse symmetric pattern"""
    P = (rng.uniform(size=(n, n)) < .25)
    P = P | P.T | np.eye(n, dtype=bool)
    K = rng.uniform(-1, 1, (n, n)) * P
    K = (K + K.T) / 2
    K += np.diag(np.abs(K).sum(1) + rng.uniform(.2, 1, n))
    Q = (rng.uniform(size=(n, n)) < .2)
    Q = Q | Q.T | np.eye(n, dtype=bool)
    G = rng.uniform(-1, 1, (n, n)) * Q
    G = (G + G.T) / 2 + np.diag(rng.uniform(-1, 1, n) + neg)
    return csr(K, P), csr(G, Q), K, G


def reference(K, G, free, m):
    Kf, Gf = K[np.ix_(free, free)], G[np.ix_(free, free)]
    mu = sla.eigh(-Gf, Kf, eigvals_only=True)
    lam = np.sort(1 / mu[mu > 1e-9])
    return np.concatenate([lam, np.full(max(0, m - len(lam)), np.inf)])[:m]


def check(tag, bf, k, g, K, G, free, m, tol=1e-6):
    lam, modes = map(np.asarray, bf(k, g))
    expect_close(lam, reference(K, G, free, m), f"{tag}: lowest positive factors, ascending", rtol=tol, atol=tol)
    fixed = np.setdiff1d(np.arange(K.shape[0]), free)
    expect(np.all(modes[:, fixed] == 0), f"{tag}: modes vanish on constrained unknowns")
    Kf, Gf = K[np.ix_(free, free)], G[np.ix_(free, free)]
    for i in range(m):
        p = modes[i][free]
        if not np.isfinite(lam[i]):
            expect_close(p, 0 * p, f"{tag}: missing mode is zero")
            continue
        expect_close(p @ Kf @ p, 1., f"{tag}: unit modal stiffness", rtol=tol, atol=tol)
        expect_close(Kf @ p + lam[i] * (Gf @ p), 0 * p, f"{tag}: eigenpair", atol=1e-5 * np.abs(Kf @ p).max() / max(1, 1))
    return lam, modes


def fd_check(tag, bf, k, g, K, G, free, m, rng):
    """gradient against differences of the reference along a symmetric direction"""
    A = rng.uniform(-1, 1, K.shape)
    A = (A + A.T) / 2
    B = rng.uniform(-1, 1, K.shape)
    B = (B + B.T) / 2
    r1 = np.repeat(np.arange(K.shape[0]), np.diff(np.asarray(k.indptr)))
    r2 = np.repeat(np.arange(K.shape[0]), np.diff(np.asarray(g.indptr)))
    dk, dg = A[r1, np.asarray(k.indices)], B[r2, np.asarray(g.indices)]
    Ak, Bk = 0 * K, 0 * K
    np.add.at(Ak, (r1, np.asarray(k.indices)), dk)
    np.add.at(Bk, (r2, np.asarray(g.indices)), dg)
    lam0 = reference(K, G, free, m + 1)
    gaps = np.diff(lam0[np.isfinite(lam0)] ** -1.)
    ok = [i for i in range(m) if np.isfinite(lam0[i]) and (i >= len(gaps) or abs(gaps[i]) > 1e-2) and (i == 0 or i - 1 >= len(gaps) or abs(gaps[i - 1]) > 1e-2) and lam0[i] < 50]
    if not ok:
        return
    h = 1e-6
    fd = (reference(K + h * Ak, G + h * Bk, free, m) - reference(K - h * Ak, G - h * Bk, free, m)) / (2 * h)
    for i in ok[:2]:
        gk, gg = jax.grad(lambda a, b: bf(k.with_data(a), g.with_data(b))[0][i], argnums=(0, 1))(k.data, g.data)
        expect_close(np.asarray(gk) @ dk + np.asarray(gg) @ dg, fd[i], f"{tag}: gradient of factor {i}", rtol=2e-4, atol=2e-4)


def eigenpairs(ctx):
    from feax.solvers import eigen as M

    def run(solver, seeds, **kw):
        for s in seeds:
            rng = ctx.rng("ep" + solver, s)
            n = rng.randint(8, 40)
            k, g, K, G = pencil(rng, n, neg=[0., -1.5, 1.0][s % 3])
            free = rng.permutation(n)[:rng.randint(max(6, n // 2), n + 1)]
            if s % 2:
                free = np.sort(free)
            m = int(rng.randint(1, min(6, len(free) - 2)))
            if not np.isfinite(reference(K, G, free, 1)[0]):
                continue
            bf = M.create_linear_buckling_solver(free, num_modes=m, solver=solver, **kw)
            lam, _ = check(f"{solver}, pencil {s}", bf, k, g, K, G, free, m)
            fd_check(f"{solver}, pencil {s}", bf, k, g, K, G, free, m, rng)
            if s % 3 == 0:
                expect_close(jax.jit(bf)(k, g)[0], lam, f"{solver}: compiled call", rtol=1e-6)
                k2 = k.with_data(1.3 * k.data)
                expect_close(jax.jit(bf)(k2, g)[0], 1.3 * lam, f"{solver}: compiled call with new values", rtol=1e-6)
                k3, g3, K3, G3 = pencil(ctx.rng("ep2" + solver, s), n, neg=-1.)
                bf(k3, g3)
                check(f"{solver}: another structure through the same solver", bf, k3, g3, K3, G3, free, m)
        return len(seeds)
    nd, ns = (24, 24) if ctx.thorough else (10, 10)
    ctx.bounded("dense eigenpairs, gradients, compiled calls", lambda: run("dense", range(nd)), functions=[E + "_dense_buckling", E + "create_linear_buckling_solver"], bound=f"{nd} random pencils, 8-40 unknowns")
    ctx.bounded("sparse eigenpairs, gradients, compiled calls", lambda: run("sparse", range(ns)), functions=[E + "_sparse_buckling", E + "_make_host_solve", E + "create_linear_buckling_solver"], bound=f"{ns} random pencils, 8-40 unknowns")
    def few():
        n = 0
        for nf, m in itertools.product((3, 4, 5, 7, 9), (1, 2, 3)):
            if m > nf - 2:
                continue
            rng = ctx.rng("few", nf)
            k, g, K, G = pencil(rng, nf + 2, neg=-1.5)
            free = rng.permutation(nf + 2)[:nf]
            check(f"sparse, {nf} free unknowns", M.create_linear_buckling_solver(free, m, "sparse"), k, g, K, G, free, m)
            n += 1
        return n
    ctx.bounded("sparse eigenpairs with few free unknowns", few, functions=[E + "_sparse_buckling"], bound="3 to 9 free unknowns, up to nf-2 modes")
    ctx.bounded("sparse eigenpairs with options", lambda: run("sparse", range(3), num_matvecs=60, seed=3, conv_tol=1e-4), functions=[E + "_sparse_buckling"], bound="3 random pencils")

    def dominated():  # many negative factors of smaller magnitude than the positive ones
        rng = ctx.rng("dom")
        n = 40
        K = np.diag(rng.uniform(1, 2, n))
        for npos in (1, 2, 6):
            gd = np.where(np.arange(n) >= n - npos, -rng.uniform(.3, .6, n), rng.uniform(1, 3, n))
            for s in ("dense", "sparse"):
                bf = M.create_linear_buckling_solver(np.arange(n), 3, s)
                check(f"{s}, {npos} positive", bf, csr(K, np.eye(n)), csr(np.diag(gd), np.eye(n)), K, np.diag(gd), np.arange(n), 3)
        return 6
    ctx.bounded("positive factors are found below larger negative ones", dominated, functions=[E + "_sparse_buckling", E + "_dense_buckling"], bound="3 pencils x 2 solvers")

    def units():  # a change of units scales both matrices: factors stay, gradients scale inversely
        for solver, q in itertools.product(("dense", "sparse"), range(2)):
            rng = ctx.rng("units", q)
            n = 14
            k, g, K, G = pencil(rng, n, neg=-1.5)
            free = np.sort(rng.permutation(n)[:11])
            out = []
            for sc in (1., 1e-9, 1e9):
                bf = M.create_linear_buckling_solver(free, 2, solver)
                ks, gs = k.with_data(sc * k.data), g.with_data(sc * g.data)
                lam, modes = map(np.asarray, bf(ks, gs))
                gk, gg = jax.grad(lambda a, b: bf(ks.with_data(a), gs.with_data(b))[0][0], argnums=(0, 1))(ks.data, gs.data)
                out.append((lam, np.abs(modes) * np.sqrt(sc), np.asarray(gk) * sc, np.asarray(gg) * sc))
            for f in (1e-5, 1e8):  # factors proportional to the stiffness, small or large
                bf = M.create_linear_buckling_solver(free, 2, solver)
                ks = k.with_data(f * k.data)
                expect_close(np.asarray(bf(ks, g)[0]) / f, out[0][0], f"{solver}: factors are proportional to the stiffness", rtol=1e-5, factor=f)
                expect_close(jax.grad(lambda a: bf(ks.with_data(a), g)[0][0])(ks.data), out[0][2], f"{solver}: gradient when the stiffness is scaled", rtol=1e-5, atol=1e-6, factor=f)
            for a, sc in zip(out[1:], (1e-9, 1e9)):
                for x, y, what in zip(a, out[0], ("factors", "modes", "gradient by stiffness", "gradient by geometric stiffness")):
                    expect_close(x, y, f"{solver}: {what} after a change of units", rtol=1e-5, atol=1e-6, scale=sc)
        return 4
    ctx.bounded("change of units", units, functions=[E + "_dense_buckling", E + "_sparse_buckling", E + "create_linear_buckling_solver"], bound="2 pencils x 2 solvers x 2 scales")

    def errors():
        expect_raises(lambda: M.create_linear_buckling_solver(np.arange(4), solver="lanczos"), "unknown solver", ValueError)
        rng = ctx.rng("er")
        k, g, K, G = pencil(rng, 12)
        for s in ("dense", "sparse"):
            bf = M.create_linear_buckling_solver(np.arange(12), 2, s)
            expect_raises(lambda: jax.jit(lambda a, b: bf(a, b)[0])(k, g), "jit before an eager call", ValueError)
        bf = M.create_linear_buckling_solver(np.arange(12), 2, "sparse")
        expect_raises(lambda: jax.block_until_ready(bf(k, k)), "no positive factor (sparse)")  # Kg positive definite
        lam, modes = M.create_linear_buckling_solver(np.arange(12), 2, "dense")(k, k)
        expect(np.all(np.isinf(lam)) and np.all(np.asarray(modes) == 0), "dense: no positive factor")
        expect_raises(lambda: jax.block_until_ready(M.create_linear_buckling_solver(np.arange(2), 1, "sparse")(k, g)), "too few unknowns for the sparse solver")
        Z = csr(np.zeros((12, 12)), np.eye(12))
        expect_raises(lambda: jax.block_until_ready(bf(Z, g)), "singular stiffness (sparse)")
        return 6
    ctx.bounded("invalid requests and non-convergence are reported", errors, functions=[E + "create_linear_buckling_solver", E + "_sparse_buckling"])


def cudss(ctx):
    """the device back end with the sparse factorization replaced by its contract"""
    from feax.solvers import eigen as M

    def body():
        fs = types.ModuleType("spineax.cudss.factor_solve")

        def factorize(data, indptr, indices, **k):
            n = indptr.shape[0] - 1
            rows = jnp.repeat(jnp.arange(n), jnp.diff(indptr), total_repeat_length=indices.shape[0])
            return jnp.zeros((n, n)).at[rows, indices].add(data)
        fs.factorize, fs.solve_with = factorize, lambda t, b, **k: jnp.linalg.solve(t, b)
        mods = {"spineax": types.ModuleType("spineax"), "spineax.cudss": types.ModuleType("spineax.cudss"), "spineax.cudss.factor_solve": fs}
        old = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        try:
            for s in range(5):
                rng = ctx.rng("cu", s)
                n = rng.randint(10, 26)
                k, g, K, G = pencil(rng, n, neg=[0., -1.5, .8][s % 3])
                free = rng.permutation(n)[:rng.randint(8, n + 1)]
                m = int(rng.randint(1, 5))
                if not np.isfinite(reference(K, G, free, 1)[0]):
                    continue
                bf = M.create_linear_buckling_solver(free, num_modes=m, solver="cudss", matrix_type=("spd", "symmetric")[s % 2])
                check(f"cudss, pencil {s}", bf, k, g, K, G, free, m)
                fd_check(f"cudss, pencil {s}", bf, k, g, K, G, free, m, rng)
                expect_close(jax.jit(bf)(k.with_data(1.3 * k.data), g)[0], 1.3 * reference(K, G, free, m), "compiled call", rtol=1e-6, atol=1e-6)
            expect_raises(lambda: M.create_linear_buckling_solver(free, 2, "cudss", matrix_type="lu"), "unknown matrix type", ValueError)
            bf = M.create_linear_buckling_solver(free, 2, "cudss")
            expect_raises(lambda: jax.jit(lambda a, b: bf(a, b)[0])(k, g), "jit before an eager call", ValueError)
            expect_raises(lambda: jax.block_until_ready(bf(k, k)[0]), "no positive factor")
        finally:
            for k_, v in old.items():
                if v is None:
                    sys.modules.pop(k_, None)
                else:
                    sys.modules[k_] = v
        return 5
    ctx.bounded("device shift-invert eigenpairs and gradients (sparse factorization replaced by its contract)", body, functions=[E + "_create_cudss_bf"], private=True, bound="5 random pencils, 10-25 unknowns")


def structure(ctx):
    """Assembled matrices: a bar of solid elements under axial pre-stress, factors and design gradients."""
    from feax.solvers import eigen as M
    import feax as fe

    def body():
        m = X.mesh("HEX8", (4, 2, 1), distort=0.)
        pts = np.asarray(m.points)
        fixed = np.where(pts[:, 0] < 1e-9)[0]
        N = 3 * len(pts)
        fd = np.concatenate([3 * fixed + i for i in range(3)])
        free = np.setdiff1d(np.arange(N), fd)

        class El(fe.Problem):
            def get_tensor_map(self):
                def s(g, e):
                    ep = .5 * (g + g.T)
                    return e * (ep + .4 * jnp.trace(ep) * jnp.eye(3))
                return s

        class Geo(fe.Problem):
            def get_tensor_map(self):
                S0 = jnp.diag(jnp.array([-1., 0., 0.]))
                return lambda g, e: e * (g @ S0)
        out = []
        for C in (El, Geo):
            pb = C(m, vec=3, dim=3, ele_type="HEX8")
            out.append(pb)

        def mats(e):
            r = []
            for pb in out:
                tp = fe.TracedParams(volume_vars=(e,))
                r.append(fe.assembler.get_jacobian(pb, pb.unflatten_fn_sol_list(jnp.zeros(N)), tp))
            return r
        e0 = jnp.asarray(ctx.rng("st").uniform(.5, 1.5, len(m.cells)))
        K, G = mats(e0)
        for s in ("sparse", "dense"):
            bf = M.create_linear_buckling_solver(free, 2, s)
            Kd, Gd = np.asarray(K.todense()), np.asarray(G.todense())
            lam, _ = check(f"bar, {s}", bf, K, G, Kd, Gd, free, 2)
            gr = jax.grad(lambda e: bf(*mats(e))[0][0])(e0)
            d = ctx.rng("st", 1).uniform(-1, 1, len(e0))
            h = 1e-5
            f = lambda t: reference(*[np.asarray(A.todense()) for A in mats(e0 + t * d)], free, 2)[0]
            expect_close(np.asarray(gr) @ d, (f(h) - f(-h)) / (2 * h), f"{s}: derivative with respect to element moduli", rtol=1e-3, atol=1e-3)
        return 2
    ctx.bounded("assembled bar: factors and derivatives with respect to element coefficients", body, functions=[E + "create_linear_buckling_solver"], bound="one mesh")


GROUPS = [eigh, sensitivity, eigenpairs, cudss, structure]
