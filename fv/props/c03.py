"""C03: tangent = derivative of the residual, on every assembly path."""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, Skip
from fv.props.c02 import multi_problem

A = "feax/assembler.py:"
PB = "feax/problem.py:"
FN = [A + f for f in ("get_jacobian", "_get_J_csr", "_assemble_volume_csr_data", "_value_and_jacfwd", "compute_face",
                      "create_volume_kernel", "create_surface_kernel", "_vol_slot_sort")] + \
     [PB + "Problem._build_csr_assembly_structure", PB + "Problem.__post_init__"]


def single_problem(ele, ns, vec, kinds, maps, surface, view):
    d = F.DIM[ele]
    meth = {}
    if "tensor" in maps:
        meth["get_tensor_map"] = uf.fun("tensor_map", (vec, d))
    if "energy" in maps:
        meth["get_energy_density"] = uf.fun("energy_density", ())
    if "mass" in maps:
        meth["get_mass_map"] = uf.fun("mass_map", (vec,))
    locs = None
    if surface:
        meth["get_surface_maps"] = [uf.fun(f"surface_map{b}", (vec,)) for b in range(surface)]
        locs = [lambda p: p[0] <= 0.3, lambda p: p[1] >= 0.7][:surface]
    m = X.mesh(ele, ns, seed=3, distort=0.1)
    pb = X.make_problem(m, vec, d, ele, meth, location_fns=locs, matrix_view=view)
    nt, nc, nq = pb.fes[0].num_total_nodes, pb.num_cells, pb.fes[0].num_quads
    shp = {"cell": (nc,), "node": (nt,), "quad": (nc, nq)}
    vv = [Sx(f"iv{k}_{kind}", shp[kind]) for k, kind in enumerate(kinds)]
    sv = [(Sx(f"sv{b}", np.shape(pb.physical_surface_quad_points[b])[:2]),) for b in range(surface)]
    return pb, vv, sv


def tri(D, view):
    """part of the dense matrix that a view stores"""
    n = D.shape[0]
    if view == "UPPER":
        return D * np.triu(np.ones((n, n)))
    if view == "LOWER":
        return D * np.tril(np.ones((n, n)))
    return D


class Setup:
    def __init__(self, pb, vv, sv, view="FULL"):
        from feax.traced_params import TracedParams
        self.pb, self.vv, self.sv, self.view = pb, vv, sv, view
        self.n = pb.num_total_dofs_all_vars
        self.u = Sx("u", (self.n,))
        self.g, self.build = X.sym_ts(pb)
        self.TP = lambda vv, sv: TracedParams(tuple(vv), [tuple(x) for x in sv])
        self.args = (self.u, self.g, vv, sv)

    def res(self, u, geo, vv, sv):
        import feax.assembler as AS
        r = AS.get_res(self.pb, self.split(u), self.TP(vv, sv), self.build(geo))
        return jnp.concatenate([x.ravel() for x in r])

    def split(self, u):
        out, k = [], 0
        for fe in self.pb.fes:
            m = fe.num_total_nodes * fe.vec
            out.append(u[k:k + m].reshape(fe.num_total_nodes, fe.vec))
            k += m
        return out

    def jac(self, u, geo, vv, sv):
        return jax.jacfwd(self.res)(u, geo, vv, sv)

    def dense(self, M):
        return X.dense_of(M.data, self.pb.csr_indptr, self.pb.csr_indices, self.n)


def paths(ctx, label, S, bc=True, light=False, fused=True):
    import feax.assembler as AS
    pb, view = S.pb, S.view
    ctx.equal(f"{label}: get_jacobian", lambda u, g, v, s: S.dense(AS.get_jacobian(pb, S.split(u), S.TP(v, s), S.build(g))),
              lambda u, g, v, s: tri(S.jac(u, g, v, s), view), S.args, functions=FN, n_replay=2)
    if fused:
        def fz(u, g, v, s):
            r, data, ip, ix = AS._get_res_J_csr(pb, S.split(u), S.TP(v, s), S.build(g))
            return jnp.concatenate([x.ravel() for x in r]), X.dense_of(data, pb.csr_indptr, pb.csr_indices, S.n)
        ctx.equal(f"{label}: fused residual+tangent", fz,
                  lambda u, g, v, s: (S.res(u, g, v, s), tri(S.jac(u, g, v, s), view)), S.args,
                  functions=[A + "_get_res_J_csr", A + "_assemble_volume_res_and_J", A + "_res_vol_slot_sort"],
                  private=not hasattr(AS, "_get_res_J_csr"), n_replay=2)
    if not bc:
        return
    from feax.DCboundary import DirichletBC
    rows = np.array(sorted({0, S.n // 2, S.n - 1}), np.int32)
    mask = np.zeros(S.n, bool)
    mask[rows] = True
    val = Sx("bcv", (len(rows),))
    mk = lambda v: DirichletBC(bc_rows=jnp.asarray(rows), bc_mask=jnp.asarray(mask), bc_vals=v, total_dofs=S.n)

    def elim(D, sym):
        D = jnp.asarray(D)
        I = np.eye(S.n)
        keep = (~mask[:, None] & (~mask[None, :] if sym else np.ones((1, S.n), bool))).astype(float)
        return D * keep + I * mask[:, None]

    def rbc(u, r, v):
        e = jnp.zeros(S.n)
        for k, i in enumerate(rows):
            e = e.at[int(i)].set(u[int(i)] - v[k])
        return r * (~mask) + e
    for sym in (True, False):
        if view != "FULL" and not sym:
            continue
        ctx.equal(f"{label}: BC tangent sym={sym}",
                  lambda u, g, v, s, b: S.dense(AS.create_J_bc_csr_parametric(pb, symmetric=sym)(u, S.TP(v, s), mk(b), S.build(g))),
                  lambda u, g, v, s, b: elim(tri(S.jac(u, g, v, s), view), sym), S.args + (val,),
                  functions=[A + "create_J_bc_csr_parametric"], n_replay=2)

        def fz2(u, g, v, s, b):
            r, M = AS.create_res_J_bc_csr_parametric(pb, symmetric=sym)(u, S.TP(v, s), mk(b), S.build(g))
            return r, S.dense(M)
        ctx.equal(f"{label}: fused BC residual+tangent sym={sym}", fz2,
                  lambda u, g, v, s, b: (rbc(u, S.res(u, g, v, s), b), elim(tri(S.jac(u, g, v, s), view), sym)),
                  S.args + (val,), functions=[A + "create_res_J_bc_csr_parametric"], n_replay=2)
        if view != "FULL":
            continue
        w = Sx("w", (S.n,))

        def mf(u, g, v, s, b, w):
            r, mv = AS.create_matfree_res_J_parametric(pb, symmetric=sym)(u, S.TP(v, s), mk(b), S.build(g))
            return r, mv(w)
        ctx.equal(f"{label}: matrix-free sym={sym}", mf,
                  lambda u, g, v, s, b, w: (rbc(u, S.res(u, g, v, s), b), elim(S.jac(u, g, v, s), sym) @ w),
                  S.args + (val, w), functions=[A + "create_matfree_res_J_parametric", A + "_residual_flat"], n_replay=2)
    ctx.equal(f"{label}: BC residual", lambda u, g, v, s, b: AS.create_res_bc_parametric(pb)(u, S.TP(v, s), mk(b), S.build(g)),
              lambda u, g, v, s, b: rbc(u, S.res(u, g, v, s), b), S.args + (val,), functions=[A + "create_res_bc_parametric"],
              n_replay=2)
    if view == "FULL":
        w = Sx("w", (S.n,))
        ctx.equal(f"{label}: matrix-free transpose",
                  lambda u, g, v, s, w: AS.create_matfree_Kt_parametric(pb)(u, S.TP(v, s), S.build(g))(w),
                  lambda u, g, v, s, w: S.jac(u, g, v, s).T @ w, S.args + (w,),
                  functions=[A + "create_matfree_Kt_parametric"], n_replay=2)


def tri_full(ctx):
    S = Setup(*single_problem("TRI3", (1, 1), 1, ["cell", "node"], ["tensor", "mass"], 2, "FULL"))
    paths(ctx, "TRI3 tensor+mass, 2 surfaces", S)


def tri_views(ctx):
    for view in ("UPPER", "LOWER"):
        S = Setup(*single_problem("TRI3", (1, 1), 2, ["quad"], ["energy"], 1, view), view=view)
        paths(ctx, f"TRI3 vec2 energy, {view}", S)


def quad_batched(ctx):
    for bs in (2, 1):
        with _sb(ctx, bs):
            S = Setup(*single_problem("QUAD4", (3, 1), 1, ["node"], ["tensor"], 1, "FULL"))
            paths(ctx, f"QUAD4 batched {bs} of 3", S, bc=False)


def quad_batched_views(ctx):
    with _sb(ctx, 2):
        for view in ("UPPER", "LOWER"):
            S = Setup(*single_problem("QUAD4", (3, 1), 1, ["cell"], ["tensor"], 1, view), view=view)
            paths(ctx, f"QUAD4 batched {view}", S, bc=False)


def tet(ctx):
    S = Setup(*single_problem("TET4", (1, 1, 1), 1, ["node"], ["tensor"], 1, "FULL"))
    paths(ctx, "TET4 tensor + surface", S, bc=False)


def multi(ctx):
    pb, phys, vv, sv = multi_problem(["TRI3", "TRI3"], (1, 1), (2, 1), ["cell"], 1)
    paths(ctx, "2-variable TRI3 weak form + surface", Setup(pb, vv, sv))


def multi_mixed(ctx):
    with _sb(ctx, 1):
        pb, phys, vv, sv = multi_problem(["TRI6", "TRI3"], (1, 1), (1, 1), ["node1"], 0, gauss=2)
        paths(ctx, "mixed TRI6/TRI3 weak form, batched", Setup(pb, vv, sv), bc=False)


def _sb(ctx, n):
    try:
        import feax.assembler as AS
        AS._batching
        return X.small_batches(n)
    except AttributeError:
        return contextlib.nullcontext()


def closure(ctx):
    """no TracedStructure: arrays stored on the problem; factory variants"""
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    from feax.DCboundary import DirichletBC
    for view in ("FULL", "UPPER", "LOWER"):
        pb, vv, sv = single_problem("TRI3", (2, 1), 1, ["cell"], ["tensor"], 1, view)
        n = pb.num_total_dofs_all_vars
        u = Sx("u", (n,))
        TP = lambda v, s: TracedParams(tuple(v), [tuple(x) for x in s])
        res = lambda x, v, s: AS.get_res(pb, [x.reshape(-1, 1)], TP(v, s))[0].ravel()
        ctx.equal(f"closure get_jacobian {view}",
                  lambda x, v, s: X.dense_of(AS.get_jacobian(pb, [x.reshape(-1, 1)], TP(v, s)).data, pb.csr_indptr, pb.csr_indices, n),
                  lambda x, v, s: tri(jax.jacfwd(res)(x, v, s), view), (u, vv, sv), functions=FN)
        rows = np.array([1, n - 1], np.int32)
        mask = np.zeros(n, bool)
        mask[rows] = True
        bc = DirichletBC(bc_rows=jnp.asarray(rows), bc_mask=jnp.asarray(mask), bc_vals=jnp.asarray([0.5, -1.0]), total_dofs=n)
        keep = (~mask[:, None] & ~mask[None, :]).astype(float)
        ctx.equal(f"closure create_J_bc_csr_function {view}",
                  lambda x, v, s: X.dense_of(AS.create_J_bc_csr_function(pb, bc)(x, TP(v, s)).data, pb.csr_indptr, pb.csr_indices, n),
                  lambda x, v, s: tri(jax.jacfwd(res)(x, v, s), view) * keep + np.diag(mask.astype(float)),
                  (u, vv, sv), functions=[A + "create_J_bc_csr_function"])
        vals = np.zeros(n)
        vals[rows] = [0.5, -1.0]
        ctx.equal(f"closure create_res_bc_function {view}",
                  lambda x, v, s: AS.create_res_bc_function(pb, bc)(x, TP(v, s)),
                  lambda x, v, s: res(x, v, s) * (~mask) + (x - vals) * mask, (u, vv, sv), functions=[A + "create_res_bc_function"])
        # legacy raw-value assembly
        if all(hasattr(AS, f) for f in ("_assemble_jacobian_values", "_csr_data_from_values")):
            ctx.equal(f"closure raw-value assembly {view}",
                      lambda x, v, s: X.dense_of(AS._csr_data_from_values(pb, AS._assemble_jacobian_values(pb, [x.reshape(-1, 1)], TP(v, s))),
                                                 pb.csr_indptr, pb.csr_indices, n),
                      lambda x, v, s: tri(jax.jacfwd(res)(x, v, s), view), (u, vv, sv), private=True,
                      functions=[A + "_assemble_jacobian_values", A + "_csr_data_from_values"])


def energy(ctx):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    for ele, ns, vec, kinds in (("TRI3", (1, 1), 2, ["cell", "node", "quad"]), ("QUAD4", (2, 1), 1, ["node", "cell"]),
                                ("TRI3", (2, 3), 1, ["node"]), ("TRI3", (1, 2), 1, [])):
        pb, vv, sv = single_problem(ele, ns, vec, kinds, ["energy"], 0, "FULL")
        n = pb.num_total_dofs_all_vars
        psi = pb.get_energy_density()
        fe = pb.fes[0]
        JW, SG = np.asarray(fe.JxW), np.asarray(fe.shape_grads)

        def total(u, v):
            U = u.reshape(-1, vec)
            cells = np.asarray(fe.cells)
            e = 0.0
            for c in range(pb.num_cells):
                for q in range(fe.num_quads):
                    g = sum(U[int(cells[c, a])][:, None] * SG[c, q, a][None, :] for a in range(fe.num_nodes))
                    e = e + psi(g, *[X.spec_volume_var(pb, x, k, c, q) for x, k in zip(v, kinds)]) * float(JW[c, q])
            return e
        E = lambda u, v: AS.create_energy_fn(pb)(u, TracedParams(tuple(v), [])) if kinds else AS.create_energy_fn(pb)(u)
        ctx.equal(f"energy {ele}{ns} {kinds}", E, total, (Sx("u", (n,)), vv), functions=[A + "create_energy_fn"])
        ctx.equal(f"energy gradient is the residual {ele}{ns} {kinds}", lambda u, v: jax.grad(E)(u, v),
                  lambda u, v: AS.get_res(pb, [u.reshape(-1, vec)], TracedParams(tuple(v), []), X.ts_of(pb))[0].ravel(),
                  (Sx("u", (n,)), vv), functions=[A + "create_energy_fn"])


def dead_loads(ctx):
    """dropping the surface tangent must not change the tangent"""
    import feax.assembler as AS
    from feax.traced_params import TracedParams

    def one(name, sf, nsv, sample):
        m = X.mesh("QUAD4", (2, 2), seed=3, distort=0.0)
        pb = X.make_problem(m, 1, 2, "QUAD4", {"get_tensor_map": lambda g: g, "get_surface_maps": [sf]},
                            location_fns=[lambda p: p[0] <= 1e-6])
        nf, nq = np.shape(pb.physical_surface_quad_points[0])[:2]
        tp0 = TracedParams((), [tuple(jnp.full((nf, nq), sample) for _ in range(nsv))])
        flag = AS.detect_zero_surface_jacobian(pb, tp0, X.ts_of(pb))
        pb._surface_jac_zero = flag
        rng = np.random.RandomState(0)
        for k in range(4):
            u = jnp.asarray(rng.uniform(-2, 2, pb.num_total_dofs_all_vars))
            tp = TracedParams((), [tuple(jnp.asarray(rng.uniform(0.5, 2, (nf, nq))) for _ in range(nsv))])
            J = AS.get_jacobian(pb, [u.reshape(-1, 1)], tp, X.ts_of(pb))
            D = X.dense_of(J.data, pb.csr_indptr, pb.csr_indices, len(u))
            R = jax.jacfwd(lambda x: AS.get_res(pb, [x.reshape(-1, 1)], tp)[0].ravel())(u)
            if name.startswith("faint"):       # volume part is far larger: compare the surface part alone
                R0 = jax.jacfwd(lambda x: AS.get_res(pb, [x.reshape(-1, 1)], TracedParams((), [(jnp.zeros((nf, nq)),)]))[0].ravel())(u)
                J0 = X.dense_of(AS.get_jacobian(pb, [u.reshape(-1, 1)], TracedParams((), [(jnp.zeros((nf, nq)),)]), X.ts_of(pb)).data,
                                pb.csr_indptr, pb.csr_indices, len(u))
                expect_close((D - J0) * 1e10, (R - R0) * 1e10, "faint surface stiffness", rtol=1e-3, atol=1e-4)
            expect_close(D, R, f"tangent with surface load '{name}' (coefficient at setup {sample})", state=np.asarray(u))
        return 4
    for name, sf, nsv in (("dead", lambda u, x, t: t * jnp.ones(1), 1), ("robin", lambda u, x, h: h * u, 1),
                          ("robin offset", lambda u, x, h, t: h * (u - t), 2), ("quadratic", lambda u, x, h: h * u * u, 1),
                          ("faint robin", lambda u, x, h: 1e-10 * h * u, 1),
                          ("stop below -1.2", lambda u, x, h: jnp.where(u < -1.2, h * (u + 1.2), 0.0), 1),
                          ("stop above 1.5", lambda u, x, h: jnp.where(u > 1.5, h * (u - 1.5), 0.0), 1),
                          ("spring in tension", lambda u, x, h: jnp.where(u > 0, h * u, 0.0), 1)):
        for sample in (0.0, 1.0):
            ctx.bounded(f"surface tangent kept: {name} sample={sample}", lambda: one(name, sf, nsv, sample),
                        functions=[A + "detect_zero_surface_jacobian", A + "_get_J_csr"], bound="4 states x 8 load types")


def big(ctx):
    """real batch size: more cells/faces than one batch, numeric"""
    import feax.assembler as AS
    from feax.traced_params import TracedParams

    def one(ele, ns, vec, view, nl=0.3):
        d = F.DIM[ele]
        rng = np.random.RandomState(1)
        m = X.mesh(ele, ns, seed=1, distort=0.1)
        M = jnp.asarray(rng.uniform(-1, 1, (vec, vec)))
        M = M @ M.T + jnp.eye(vec)
        pb = X.make_problem(m, vec, d, ele, {"get_tensor_map": lambda g, k: k * (M @ g) + nl * g * jnp.sum(g * g),
                                             "get_mass_map": lambda u, x, k: u * jnp.sum(u * u) + x[0],
                                             "get_surface_maps": [lambda u, x: u * jnp.sum(u * u) + x[1]]},
                            location_fns=[lambda p: p[1] <= 0.1 / max(ns)], matrix_view=view)
        n = pb.num_total_dofs_all_vars
        u = jnp.asarray(rng.uniform(-1, 1, n))
        tp = TracedParams((jnp.asarray(rng.uniform(0.5, 1, pb.num_cells)),), [])
        ts = X.ts_of(pb)
        split = lambda x: [x.reshape(-1, vec)]
        f = lambda x: AS.get_res(pb, split(x), tp, ts)[0].ravel()
        import scipy.sparse as sp
        for label, (data, ip, ix) in (("ts", AS._get_J_csr(pb, split(u), tp, ts)), ("closure", AS._get_J_csr(pb, split(u), tp)),
                                      ("fused", AS._get_res_J_csr(pb, split(u), tp, ts)[1:]),
                                      ("fused closure", AS._get_res_J_csr(pb, split(u), tp)[1:])):
            K = sp.csr_matrix((np.asarray(data), np.asarray(ix), np.asarray(ip)), shape=(n, n))
            if view != "FULL":
                expect(abs(sp.tril(K, -1) if view == "UPPER" else sp.triu(K, 1)).max() == 0, "entries outside the stored triangle")
                K = K + K.T - sp.diags(K.diagonal())
            for k in range(3):
                w = rng.uniform(-1, 1, n)
                expect_close(K @ w, jax.jvp(f, (u,), (jnp.asarray(w),))[1], f"{label} tangent {ele}{ns} {view}", atol=1e-8)
        r = AS._get_res_J_csr(pb, split(u), tp, ts)[0][0].ravel()
        expect_close(r, f(u), "fused residual", atol=1e-9)
        return 12
    for ele, ns, vec, view in (("QUAD4", (19, 16), 2, "FULL"), ("HEX8", (17, 1, 16), 1, "UPPER"), ("TRI3", (16, 16), 1, "LOWER"),
                              ("TRI3", (217, 217), 1, "FULL"), ("TRI3", (217, 217), 1, "UPPER")):
        ctx.bounded(f"tangent beyond one batch {ele}{ns} {view}", lambda: one(ele, ns, vec, view), functions=FN,
                    private=not (hasattr(AS, "_get_J_csr") and hasattr(AS, "_get_res_J_csr")), bound="real batch size 256")


GROUPS = [tri_full, tri_views, quad_batched, quad_batched_views, tet, multi, multi_mixed, closure, energy, dead_loads, big]
