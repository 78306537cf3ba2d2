"""C04: sparse operators agree with dense linear algebra."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

C = "feax/csr.py:"
AD = "feax/asd.py:"


def csr_struct(pat):
    """pat: bool array -> (indptr, indices, rows)"""
    rows, cols = np.nonzero(pat)
    indptr = np.zeros(pat.shape[0] + 1, np.int32)
    np.add.at(indptr, rows + 1, 1)
    return np.cumsum(indptr).astype(np.int32), cols.astype(np.int32), rows


def dense(pat, data):
    rows, cols = np.nonzero(pat)
    return jnp.zeros(pat.shape).at[rows, cols].set(data)


def patterns(ctx, k):
    shapes = [(2, 2), (2, 3), (3, 2)]
    out = []
    for s in shapes:
        for bits in itertools.product([0, 1], repeat=s[0] * s[1]):
            p = np.array(bits, bool).reshape(s)
            if p.any():
                out.append(p)
    rng = np.random.RandomState(5)
    for s in ((4, 4), (5, 3), (3, 6), (4, 4), (1, 4), (4, 1)):
        p = rng.uniform(size=s) < 0.45
        p[0, 0] = True
        out.append(p)
    return out[k::4]


def _algebra(ctx, k):
    from feax.csr import CSRMatrix
    for pat in patterns(ctx, k):
        n, m = pat.shape
        ip, ix, _ = csr_struct(pat)
        nse = len(ix)
        mk = lambda d: CSRMatrix(d, jnp.asarray(ip), jnp.asarray(ix), (n, m))
        name = "".join("1" if b else "0" for b in pat.ravel())
        d, v, w = Sx("d", (nse,)), Sx("v", (m,)), Sx("w", (n,))

        def fn(d, v, w):
            M = mk(d)
            out = [M @ v, M.rmatvec(w), M.T @ w, M.transpose() @ w, M.todense(), M.T.todense(), M.diagonal(),
                   M.with_data(2 * d) @ v]
            leaves, td = jax.tree_util.tree_flatten(M)
            M2 = jax.tree_util.tree_unflatten(td, leaves)
            out.append(M2 @ v)
            T2 = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(M.T)))
            out.append(T2 @ w)
            return out

        def spec(d, v, w):
            D = dense(pat, d)
            dg = jnp.concatenate([jnp.diagonal(D), jnp.zeros(n - min(n, m))])
            return [D @ v, D.T @ w, D.T @ w, D.T @ w, D, D.T, dg, 2 * (D @ v), D @ v, D.T @ w]
        ctx.equal(f"algebra {n}x{m} {name}", fn, spec, (d, v, w),
                  functions=[C + f for f in ("CSRMatrix.__matmul__", "CSRMatrix.rmatvec", "CSRMatrix.todense",
                                             "CSRMatrix.diagonal", "CSRMatrix.transpose", "CSRTranspose.__matmul__",
                                             "CSRMatrix.tree_flatten", "CSRMatrix._row_of_slot")], n_replay=1)
        if nse % 3 == 0:
            B = 2

            def fb(d, v, w):
                f = jax.vmap(lambda d, v, w: (mk(d) @ v, mk(d).rmatvec(w), mk(d).diagonal(), mk(d).todense()))
                g = jax.vmap(lambda d: mk(d) @ v[0])
                return f(d, v, w), g(d), jax.vmap(lambda M, x: M @ x, in_axes=(CSRMatrix(0, None, None, (n, m)), 0))(mk(d), v)

            def sb(d, v, w):
                D = [dense(pat, d[b]) for b in range(B)]
                dg = [jnp.concatenate([jnp.diagonal(x), jnp.zeros(n - min(n, m))]) for x in D]
                return ((jnp.stack([D[b] @ v[b] for b in range(B)]), jnp.stack([D[b].T @ w[b] for b in range(B)]),
                         jnp.stack(dg), jnp.stack(D)), jnp.stack([D[b] @ v[0] for b in range(B)]),
                        jnp.stack([D[b] @ v[b] for b in range(B)]))
            ctx.equal(f"algebra batched {n}x{m} {name}", fb, sb, (Sx("d", (B, nse)), Sx("v", (B, m)), Sx("w", (B, n))),
                      functions=[C + "CSRMatrix.__matmul__", C + "CSRMatrix.rmatvec"], n_replay=1)


def algebra0(ctx):
    _algebra(ctx, 0)


def algebra1(ctx):
    _algebra(ctx, 1)


def algebra2(ctx):
    _algebra(ctx, 2)


def algebra3(ctx):
    _algebra(ctx, 3)


def fe_maps(ctx):
    """static maps of the FE matrix: transpose, diagonal, rows"""
    from feax.csr import CSRMatrix, transpose_with_maps
    cases = []
    for view in ("FULL", "UPPER", "LOWER"):
        cases += [("TRI3", (1, 1), [1], view), ("QUAD4", (2, 1), [2], view), ("TRI3", (2, 1), [2, 1], view)]
    cases += [("TET4", (1, 1, 1), [1], "FULL"), ("TRI6", (1, 1), [1], "UPPER")]
    for ele, ns, vecs, view in cases:
        m = X.mesh(ele, ns, distort=0.0)
        d = F.DIM[ele]
        if len(vecs) == 1:
            pb = X.make_problem(m, vecs[0], d, ele, {"get_tensor_map": lambda g: g}, matrix_view=view)
        else:
            pb = X.make_problem([m] * len(vecs), vecs, d, [ele] * len(vecs),
                                {"get_weak_form": lambda v, g, x: (v, g)}, matrix_view=view)
        n = pb.num_total_dofs_all_vars
        nse = int(pb.csr_nse)
        ts = X.ts_of(pb)
        # expected pattern: dof pairs sharing a cell, restricted to the view
        pat = np.zeros((n, n), bool)
        off = 0
        dofs = [[] for _ in range(pb.num_cells)]
        for fe in pb.fes:
            for c, cell in enumerate(np.asarray(fe.cells)):
                dofs[c] += [off + int(a) * fe.vec + k for a in cell for k in range(fe.vec)]
            off += fe.num_total_nodes * fe.vec
        for ds in dofs:
            pat[np.ix_(ds, ds)] = True
        pat &= {"FULL": np.ones((n, n), bool), "UPPER": np.triu(np.ones((n, n), bool)), "LOWER": np.tril(np.ones((n, n), bool))}[view]
        ip, ix, rows = csr_struct(pat)

        def chk():
            expect(np.array_equal(np.asarray(pb.csr_indptr), ip) and np.array_equal(np.asarray(pb.csr_indices), ix),
                   f"CSR pattern of {ele}{ns} {vecs} {view} is not the set of coupled dof pairs in sorted row order")
            expect(nse == len(ix), "nse")
            expect(np.array_equal(np.asarray(ts.csr_row_of_slot), rows), "row of slot")
        ctx.bounded(f"FE pattern {ele}{ns} {vecs} {view}", chk, functions=["feax/problem.py:Problem._build_csr_assembly_structure"],
                    bound="enumerated meshes")
        if nse > 400:
            continue
        for lab, src in (("problem", pb), ("ts", ts)):
            def fn(data):
                J = CSRMatrix(data, jnp.asarray(ip), jnp.asarray(ix), (n, n))
                T = transpose_with_maps(J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices)
                return T.todense(), data[src.csr_diag_slots]
            ctx.equal(f"transpose/diagonal maps {ele}{ns} {vecs} {view} ({lab})", fn,
                      lambda data: (dense(pat, data).T, jnp.diagonal(dense(pat, data))), (Sx("K", (nse,)),),
                      functions=[C + "transpose_with_maps", "feax/problem.py:Problem._build_csr_assembly_structure"], n_replay=1)


def merge(ctx):
    from feax import asd
    from feax.csr import CSRMatrix, transpose_with_maps
    import scipy.sparse as sp
    rng = np.random.RandomState(3)
    pairs = []
    for s in ((3, 3), (4, 4), (2, 4), (5, 3)):
        for _ in range(3):
            pairs.append((rng.uniform(size=s) < 0.5, rng.uniform(size=s) < 0.4))
    pairs.append((np.eye(3, dtype=bool), np.ones((3, 3), bool)))
    pairs.append((np.eye(3, dtype=bool), np.zeros((3, 3), bool)))
    for k, (a, b) in enumerate(pairs):
        if not a.any():
            a[0, 0] = True
        na, nb = int(a.sum()), int(b.sum())

        def fn(x, y):
            M = asd.merge_csr_patterns(sp.csr_matrix(a), sp.csr_matrix(b))
            data = jnp.zeros(M["nnz"]).at[M["slots_a"]].add(x).at[M["slots_b"]].add(y)
            J = CSRMatrix(data, M["indptr"], M["indices"], M["shape"])
            return J.todense(), transpose_with_maps(J, M["T_perm"], M["T_indptr"], M["T_indices"]).todense()

        def spec(x, y):
            D = dense(a, x) + (dense(b, y) if nb else 0.0)
            return D, D.T
        ctx.equal(f"merge patterns #{k} {a.shape}", fn, spec, (Sx("x", (na,)), Sx("y", (nb,))),
                  functions=[AD + "merge_csr_patterns", AD + "_csr_slots", AD + "_to_scipy_pattern"], n_replay=1)

        def nnz():
            M = asd.merge_csr_patterns(a, b)
            expect(M["nnz"] == int((a | b).sum()), "merged pattern size")
        ctx.bounded(f"merge size #{k}", nnz, functions=[AD + "merge_csr_patterns"])
    ctx.bounded("merge rejects different shapes", lambda: expect_raises(
        lambda: asd.merge_csr_patterns(np.eye(2, dtype=bool), np.eye(3, dtype=bool)), "merge shapes", (AssertionError, ValueError)))


def _as(pat, how, rng):
    import scipy.sparse as sp
    from jax.experimental.sparse import BCOO
    import asdex
    from feax.csr import CSRMatrix
    r, c = np.nonzero(pat)
    p = rng.permutation(len(r))
    if how == "dense":
        return pat.astype(float) * 2
    if how == "scipy-coo-shuffled":
        r2, c2 = np.concatenate([r[p], r[p][:1]]), np.concatenate([c[p], c[p][:1]])
        return sp.coo_matrix((np.ones(len(r2), bool), (r2, c2)), shape=pat.shape)
    if how == "scipy-csr-repeated":            # two stored entries for one position
        ip, ix, _ = csr_struct(pat)
        r0 = int(np.nonzero(np.diff(ip))[0][0])
        ix = np.insert(ix, ip[r0], ix[ip[r0]])
        ip = ip + (np.arange(len(ip)) > r0)
        return sp.csr_matrix((np.ones(len(ix), bool), ix, ip), shape=pat.shape)
    if how == "bcoo":
        return BCOO((jnp.ones(len(r)), jnp.asarray(np.stack([r[p], c[p]], 1))), shape=pat.shape)
    if how == "asdex":
        return asdex.SparsityPattern(r[p].astype(np.int32), c[p].astype(np.int32), pat.shape)
    if how == "csr":
        ip, ix, _ = csr_struct(pat)
        return CSRMatrix(jnp.ones(len(ix)), ip, ix, pat.shape)
    return sp.csr_matrix(pat)


def sparse_ad(ctx):
    """sparse derivatives of arbitrary functions with a given sparsity"""
    from feax import asd
    rng = np.random.RandomState(11)
    pats = [rng.uniform(size=s) < p for s, p in (((4, 4), .4), ((5, 3), .5), ((3, 5), .4), ((4, 4), 1.1), ((4, 4), .2))]
    pats.append(np.eye(4, dtype=bool))
    pats[4][2] = False
    hows = ["dense", "scipy-coo-shuffled", "bcoo", "asdex", "csr", "scipy", "scipy-csr-repeated"]
    for k, pat in enumerate(pats):
        if not pat.any():
            pat[0, 0] = True
        n, m = pat.shape
        fs = [uf.fun(f"f{i}", ()) for i in range(n)]
        f = lambda x: jnp.stack([fs[i](x[np.nonzero(pat[i])[0]]) if pat[i].any() else jnp.asarray(1.5) for i in range(n)])
        for how in (hows if k < 2 else hows[k % 3:k % 3 + 2]):
            for mode in ((None, "fwd", "rev") if how == "scipy" or k == 2 else (None,)):
                given = _as(pat, how, rng)

                def fn(x):
                    J, p = asd.sparse_jacobian_fn(f, pattern=given, mode=mode)
                    return J(x).todense(), J(x) @ jnp.arange(1.0, m + 1), J(x).rmatvec(jnp.arange(1.0, n + 1))

                def spec(x):
                    D = jax.jacfwd(f)(x)
                    return D, D @ jnp.arange(1.0, m + 1), D.T @ jnp.arange(1.0, n + 1)
                ctx.equal(f"sparse jacobian #{k} {n}x{m} from {how} mode={mode}", fn, spec, (Sx("x", (m,)),),
                          functions=[AD + "sparse_jacobian_fn", AD + "_csr_producer", AD + "_to_scipy_pattern", AD + "_sparsity_from_scipy"],
                          n_replay=2)
    # linear operators known through their matvec
    for k, pat in enumerate(pats):
        r, c = np.nonzero(pat)
        if not len(r):
            continue
        for mode in ("fwd", "rev"):
            ctx.equal(f"operator assembler #{k} mode={mode}",
                      lambda a: asd.operator_assembler(pat, mode=mode)(lambda v: dense(pat, a) @ v).todense(),
                      lambda a: dense(pat, a), (Sx("a", (len(r),)),), functions=[AD + "operator_assembler"], n_replay=2)


def sparse_hess(ctx):
    from feax import asd
    rng = np.random.RandomState(2)
    for k, cl in enumerate([[(0, 1), (1, 2), (2, 3)], [(0,), (1, 3), (2, 3)], [(0, 1, 2), (3,)], [(0, 3), (1, 2)]]):
        n = 4
        fs = [uf.fun(f"e{k}{i}", ()) for i in range(len(cl))]
        f = lambda x: sum(e(x[np.array(c)]) for e, c in zip(fs, cl))
        pat = np.zeros((n, n), bool)
        for c in cl:
            pat[np.ix_(c, c)] = True
        for sym in (True, False):
            ctx.equal(f"sparse hessian #{k} symmetric={sym}",
                      lambda x: asd.sparse_hessian_fn(f, pattern=pat, symmetric=sym)[0](x).todense(),
                      lambda x: jax.jacfwd(jax.jacfwd(f))(x), (Sx("x", (n,)),), functions=[AD + "sparse_hessian_fn"], n_replay=2)


def detection(ctx):
    from feax import asd
    from feax.traced_params import TracedParams

    def detect():
        rng = ctx.rng("det")
        cnt = 0
        for t in range(6):
            n, m = rng.randint(2, 6), rng.randint(2, 6)
            A = rng.uniform(-1, 1, (n, m)) * (rng.uniform(size=(n, m)) < 0.5)
            Bm = rng.randint(0, m, (n, 2))
            Aj = jnp.asarray(A)
            rr, cc = np.nonzero(A)
            f = lambda x: jnp.zeros(n).at[rr].add(A[rr, cc] * jnp.sin(x[cc])) + x[Bm[:, 0]] * x[Bm[:, 1]]
            P = asd.detect_jacobian_pattern(f, jnp.zeros(m)).toarray()
            J, pat = asd.sparse_jacobian_fn(f, jnp.zeros(m))
            e = lambda x: jnp.sum(jnp.sin(x[Bm[:, 0]] * x[Bm[:, 1]])) + jnp.sum(x ** 3)
            H, hp = asd.sparse_hessian_fn(e, jnp.zeros(m))
            HP = asd.detect_hessian_pattern(e, jnp.zeros(m)).toarray()
            for _ in range(3):
                x = jnp.asarray(rng.uniform(-2, 2, m))
                D = np.asarray(jax.jacfwd(f)(x))
                expect(not (D.astype(bool) & ~P).any(), "detected pattern misses a nonzero derivative")
                expect_close(J(x).todense(), D, "sparse jacobian")
                expect_close(jax.jit(J)(x).todense(), D, "jitted sparse jacobian")
                Hd = np.asarray(jax.hessian(e)(x))
                expect(not (Hd.astype(bool) & ~HP).any(), "detected hessian pattern misses an entry")
                expect_close(H(x).todense(), Hd, "sparse hessian")
                cnt += 1
        expect_raises(lambda: asd.sparse_jacobian_fn(lambda x: x), "no sample and no pattern", ValueError)
        return cnt
    ctx.bounded("detected patterns", detect, functions=[AD + "detect_jacobian_pattern", AD + "detect_hessian_pattern"], bound="18 random functions")

    def reduced():
        import scipy.sparse as sp
        from jax.experimental.sparse import BCOO
        rng = ctx.rng("red")
        for _ in range(12):
            n, r = rng.randint(3, 8), rng.randint(2, 5)
            P = rng.randint(-1, 2, (n, r))
            K = rng.randint(-1, 2, (n, n))
            want = (np.abs(P).T @ np.abs(K) @ np.abs(P)) > 0
            for a in (P, sp.csr_matrix(P), BCOO.fromdense(jnp.asarray(P))):
                for b in (K, sp.csr_matrix(K), sp.coo_matrix(K)):
                    got = asd.reduced_operator_pattern(a, b).toarray()
                    expect(np.array_equal(got, want), f"pattern of P^T K P ({type(a).__name__}, {type(b).__name__})", P=P, K=K)
        return 12
    ctx.bounded("reduced operator pattern", reduced, functions=[AD + "reduced_operator_pattern"], bound="12 random integer P, K (cancellations included)")

    def conn():
        for ele, ns, vec in (("TRI3", (2, 2), 2), ("QUAD4", (2, 1), 1), ("TET4", (1, 1, 1), 3)):
            d = F.DIM[ele]
            pb = X.make_problem(X.mesh(ele, ns), vec, d, ele, {"get_tensor_map": lambda g: g + g ** 3})
            n = pb.num_total_dofs_all_vars
            pat = np.zeros((n, n), bool)
            for cell in np.asarray(pb.fes[0].cells):
                ds = [int(a) * vec + k for a in cell for k in range(vec)]
                pat[np.ix_(ds, ds)] = True
            expect(np.array_equal(asd.connectivity_pattern(pb).toarray(), pat), "connectivity pattern")
            out = asd.verify_jacobian_pattern(pb, TracedParams((), []), X.ts_of(pb))
            expect(out["ok"] and out["num_missing"] == 0 and out["num_pattern"] == int(pat.sum()), f"pattern verification rejects the right pattern {out}")
            # a pattern that misses couplings must be reported

            class Shim:
                def __getattr__(self, k):
                    return getattr(pb, k)
            sh = Shim()
            sh.csr_indptr = np.arange(n + 1, dtype=np.int32)
            sh.csr_indices = np.arange(n, dtype=np.int32)
            bad = asd.verify_jacobian_pattern(sh, TracedParams((), []))
            expect(not bad["ok"] and bad["num_missing"] > 0, f"missing couplings not reported {bad}")
            # a single missing entry, on either side of the diagonal or on it
            i, j = np.nonzero(pat)
            i, j = i[i % vec == j % vec], j[i % vec == j % vec]      # the material above couples equal components
            for e in [int(np.where(i < j)[0][0]), int(np.where(i > j)[0][-1]), int(np.where(i == j)[0][1])]:
                q = pat.copy()
                q[i[e], j[e]] = False
                sh.csr_indptr, sh.csr_indices, _ = csr_struct(q)
                bad = asd.verify_jacobian_pattern(sh, TracedParams((), []))
                expect(not bad["ok"] and bad["num_missing"] == 1, f"one missing coupling ({i[e]},{j[e]}) of {ele}: {bad}")
        up = X.make_problem(X.mesh("TRI3", (1, 1)), 1, 2, "TRI3", {"get_tensor_map": lambda g: g}, matrix_view="UPPER")
        expect_raises(lambda: asd.connectivity_pattern(up), "triangular pattern", ValueError)
        return 4
    ctx.bounded("connectivity pattern", conn, functions=[AD + "connectivity_pattern", AD + "verify_jacobian_pattern"], bound="3 meshes")


def large(ctx):
    """systems whose row*columns products leave the 32-bit range (more than 46341 unknowns)"""
    import scipy.sparse as sp
    from feax import asd
    from feax.csr import CSRMatrix, transpose_with_maps

    def fe(view):
        m = X.mesh("TRI3", (217, 217), distort=0.0)
        pb = X.make_problem(m, 1, 2, "TRI3", {"get_tensor_map": lambda g: g}, matrix_view=view)
        n = pb.num_total_dofs_all_vars
        expect(n == 218 * 218, "dof count")
        cells = np.asarray(m.cells).astype(np.int64)
        i = np.repeat(cells, 3, axis=1).ravel()
        j = np.tile(cells, (1, 3)).ravel()
        if view != "FULL":
            keep = j >= i if view == "UPPER" else j <= i
            i, j = i[keep], j[keep]
        M = sp.coo_matrix((np.ones(len(i)), (i, j)), shape=(n, n)).tocsr()
        M.sum_duplicates()
        M.sort_indices()
        expect(int(pb.csr_nse) == M.nnz, f"{view}: {int(pb.csr_nse)} stored entries, {M.nnz} coupled pairs")
        expect(np.array_equal(np.asarray(pb.csr_indptr), M.indptr) and np.array_equal(np.asarray(pb.csr_indices), M.indices),
               f"{view}: CSR pattern of a mesh with {n} dofs")
        d = np.random.RandomState(0).uniform(-1, 1, M.nnz)
        D = sp.csr_matrix((d, M.indices, M.indptr), shape=(n, n))
        x = np.random.RandomState(1).uniform(-1, 1, n)
        J = CSRMatrix(jnp.asarray(d), jnp.asarray(pb.csr_indptr), jnp.asarray(pb.csr_indices), (n, n))
        T = transpose_with_maps(J, pb.csr_T_perm, pb.csr_T_indptr, pb.csr_T_indices)
        for got, want, lab in ((J, D, "A x"), (T, D.T.tocsr(), "A^T x")):
            g = sp.csr_matrix((np.asarray(got.data), np.asarray(got.indices), np.asarray(got.indptr)), shape=(n, n))
            expect_close(g @ x, want @ x, f"{view}: {lab}")
        expect_close(np.asarray(J @ jnp.asarray(x)), D @ x, f"{view}: product")
        expect_close(d[np.asarray(pb.csr_diag_slots)], D.diagonal(), f"{view}: diagonal")
    for view in ("FULL", "LOWER"):
        ctx.bounded(f"FE pattern beyond 46341 dofs {view}", lambda: fe(view),
                    functions=["feax/problem.py:Problem._build_csr_assembly_structure", C + "transpose_with_maps"],
                    bound="one triangle mesh of 47524 dofs")

    def mg():
        n, m = 70001, 65003
        r = np.random.RandomState(4)

        def pat(k):
            i = r.randint(0, n, k)
            j = r.randint(0, m, k)
            i[:3], j[:3] = [n - 1, 0, n - 1], [m - 1, m - 1, 0]
            M = sp.csr_matrix((np.ones(k, bool), (i, j)), shape=(n, m))
            M.sum_duplicates()
            M.sort_indices()
            return M
        A, B = pat(9000), pat(7000)
        M = asd.merge_csr_patterns(A, B)
        xa, xb = r.uniform(-1, 1, A.nnz), r.uniform(-1, 1, B.nnz)
        d = np.zeros(M["nnz"])
        np.add.at(d, np.asarray(M["slots_a"]), xa)
        np.add.at(d, np.asarray(M["slots_b"]), xb)
        S = sp.csr_matrix((xa, A.indices, A.indptr), (n, m)) + sp.csr_matrix((xb, B.indices, B.indptr), (n, m))
        G = sp.csr_matrix((d, np.asarray(M["indices"]), np.asarray(M["indptr"])), (n, m))
        expect(abs(G - S).max() < 1e-12, "merged large pattern: values land in the wrong entries")
        GT = sp.csr_matrix((d[np.asarray(M["T_perm"])], np.asarray(M["T_indices"]), np.asarray(M["T_indptr"])), (m, n))
        expect(abs(GT - S.T).max() < 1e-12, "merged large pattern: transposition")
    ctx.bounded("merge of large patterns", mg, functions=[AD + "merge_csr_patterns", AD + "_csr_slots", AD + "_slot_keys"],
                bound="one random 70001x65003 pair")


GROUPS = [large, algebra0, algebra1, algebra2, algebra3, fe_maps, merge, sparse_ad, sparse_hess, detection]
