"""C02: the assembled residual is the weak form, for every physics."""
import numpy as np
import jax
import jax.numpy as jnp
import jax.flatten_util
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, Skip

A = "feax/assembler.py:"
FN = [A + f for f in ("get_res", "split_and_compute_cell", "compute_face", "create_volume_kernel", "get_laplace_kernel",
                      "get_mass_kernel", "Operator.eval", "Operator.grad", "Operator.interpolate_vars",
                      "Operator.integrate_grad", "Operator.integrate_val", "Operator.gather_internal_vars",
                      "classify_volume_var", "compute_residual_vars_helper")]


def single(ele, ns, vec, kinds, maps, batch=None, surface=0, seed=3, gauss=None):
    """returns (fn, spec, args) for a single-variable problem with arbitrary physics"""
    d = F.DIM[ele]
    phys, meth = {}, {}
    if "tensor" in maps:
        phys["tensor"] = uf.fun("tensor_map", (vec, d))
        meth["get_tensor_map"] = phys["tensor"]
    if "energy" in maps:
        e = uf.fun("energy_density", ())
        phys["tensor"] = jax.grad(e)
        meth["get_energy_density"] = e
    if "mass" in maps:
        phys["mass"] = uf.fun("mass_map", (vec,))
        meth["get_mass_map"] = phys["mass"]
    locs = None
    if surface:
        phys["surface"] = [uf.fun(f"surface_map{b}", (vec,)) for b in range(surface)]
        meth["get_surface_maps"] = phys["surface"]
        locs = [lambda p: p[0] <= 0.3, lambda p: p[1] >= 0.7][:surface]
    m = X.mesh(ele, ns, seed=seed, distort=0.1)
    pb = X.make_problem(m, vec, d, ele, meth, location_fns=locs, gauss_order=gauss)
    ts = X.ts_of(pb) if batch is None else None
    nt, ncell, nq = pb.fes[0].num_total_nodes, pb.num_cells, pb.fes[0].num_quads
    shp = {"cell": (ncell,), "node": (nt,), "quad": (ncell, nq), "nodevec": (nt, 2)}
    vv = [Sx(f"iv{k}_{kind}", shp[kind]) for k, kind in enumerate(kinds)]
    sv = []
    for b in range(surface):
        nf, nfq = np.shape(pb.physical_surface_quad_points[b])[:2]
        expect(nf > 0, "no boundary faces in the harness mesh")
        sv.append((Sx(f"sv{b}", (nf, nfq)),))
    return pb, phys, vv, sv


def mk(ctx, label, ele, ns, vec, kinds, maps, surface=0, batch=None, gauss=None):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    if batch:
        with X.small_batches(batch):
            _mk(ctx, label, ele, ns, vec, kinds, maps, surface, batch, gauss)
    else:
        _mk(ctx, label, ele, ns, vec, kinds, maps, surface, None, gauss)


def _mk(ctx, label, ele, ns, vec, kinds, maps, surface, batch, gauss=None):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    pb, phys, vv, sv = single(ele, ns, vec, kinds, maps, None, surface, gauss=gauss)
    g, build = X.sym_ts(pb, X.ts_of(pb))
    sol = Sx("u", (pb.fes[0].num_total_nodes, vec))

    def fn(sol, geo, vv, sv):
        return AS.get_res(pb, [sol], TracedParams(tuple(vv), [tuple(s) for s in sv]), build(geo))

    def spec(sol, geo, vv, sv):
        return X.spec_residual(pb, [sol], geo, vv, kinds, sv, phys)
    ctx.equal(label, fn, spec, (sol, g, vv, sv), functions=FN, n_replay=2)
    # the closure path (geometry stored on the problem)
    if label.endswith("+closure"):
        geo0 = {k: np.asarray(getattr(pb, k)) for k in ("physical_quad_points", "shape_grads", "JxW")}
        geo0["nanson"] = [np.asarray(x) for x in pb.nanson_scale]
        geo0["psq"] = [np.asarray(x) for x in pb.physical_surface_quad_points]
        geo0["fsv"] = [np.asarray(x) for x in pb.selected_face_shape_vals]
        ctx.equal(label + ":no-ts", lambda s, vv, sv: AS.get_res(pb, [s], TracedParams(tuple(vv), [tuple(x) for x in sv])),
                  lambda s, vv, sv: X.spec_residual(pb, [s], geo0, vv, kinds, sv, phys), (sol, vv, sv), functions=FN)


def tri(ctx):
    mk(ctx, "res TRI3 tensor(cell,node)+surface +closure", "TRI3", (1, 1), 2, ["cell", "node"], ["tensor"], 1)
    mk(ctx, "res TRI3 batched tensor+mass(quad)", "TRI3", (2, 1), 1, ["quad", "node"], ["tensor", "mass"], 1, batch=3)


def quad(ctx):
    mk(ctx, "res QUAD4 tensor+mass(node,cell)+2 surfaces", "QUAD4", (2, 1), 2, ["node", "cell"], ["tensor", "mass"], 2)
    mk(ctx, "res QUAD4 energy(quad) +closure", "QUAD4", (2, 1), 2, ["quad"], ["energy"], 0)


def quad2(ctx):
    mk(ctx, "res QUAD4 batched energy+mass(cell)+surface", "QUAD4", (3, 1), 1, ["cell"], ["energy", "mass"], 1, batch=2)
    mk(ctx, "res QUAD4 mass only vec3", "QUAD4", (1, 2), 3, [], ["mass"], 0)


def quad3(ctx):
    mk(ctx, "res TRI3 gauss 4 mass(quad)+tensor(node vector)", "TRI3", (1, 1), 1, ["quad", "nodevec"], ["tensor", "mass"], 0, gauss=4)
    mk(ctx, "res QUAD4 one-point rule tensor(quad, node)", "QUAD4", (2, 1), 1, ["quad", "node"], ["tensor"], 0, gauss=1)


def tet(ctx):
    mk(ctx, "res TET4 tensor(node)+surface", "TET4", (1, 1, 1), 3, ["node"], ["tensor"], 1)



# ------------------------------------------------------------- multi-variable weak forms
def _weak(nv, vecs, d, name):
    m = sum(vecs) + sum(v * d for v in vecs)
    f = uf.fun(name, (m,))

    def weak(vals, grads, x, *iv):
        y = f(*vals, *grads, x, *iv)
        ms, gs, k = [], [], 0
        for v in vecs:
            ms.append(y[k:k + v])
            k += v
        for v in vecs:
            gs.append(y[k:k + v * d].reshape(v, d))
            k += v * d
        return ms, gs
    return weak


def _sweak(vecs, name):
    f = uf.fun(name, (sum(vecs),))

    def weak(vals, x, *sv):
        y = f(*vals, x, *sv)
        out, k = [], 0
        for v in vecs:
            out.append(y[k:k + v])
            k += v
        return out
    return weak


def multi_problem(ele, ns, vecs, kinds, surface, gauss=None):
    d = F.DIM[ele[0]]
    ms = [X.mesh(e, ns, seed=4, distort=0.0) for e in ele]
    for k in range(1, len(ele)):
        if ele[k] == ele[0] and k % 2 == 1:
            ms[k] = ms[0]
    phys = {"weak": _weak(len(vecs), vecs, d, "weak_form")}
    meth = {"get_weak_form": phys["weak"]}
    locs = None
    if surface:
        phys["surface_weak"] = [_sweak(vecs, f"surface_weak{b}") for b in range(surface)]
        meth["get_surface_weak_forms"] = phys["surface_weak"]
        locs = [lambda p: p[0] <= 0.1, lambda p: p[1] >= 0.9][:surface]
    g = [gauss] * len(ele) if gauss is not None else None
    pb = X.make_problem(ms, list(vecs), d, list(ele), meth, location_fns=locs, gauss_order=g)
    nq = pb.fes[0].num_quads
    shp = {"cell": (pb.num_cells,), "quad": (pb.num_cells, nq)}
    for i, fe in enumerate(pb.fes):
        shp[f"node{i}"] = (fe.num_total_nodes,)
    vv = [Sx(f"iv{k}_{kind}", shp[kind]) for k, kind in enumerate(kinds)]
    sv = []
    for b in range(surface):
        nf, nfq = np.shape(pb.physical_surface_quad_points[b])[:2]
        expect(nf > 0, "harness: no faces")
        sv.append((Sx(f"sv{b}", (nf, nfq)),))
    return pb, phys, vv, sv


def _multi(ctx, label, ele, ns, vecs, kinds, surface, batch=None, gauss=None):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    import contextlib
    with (X.small_batches(batch) if batch else contextlib.nullcontext()):
        pb, phys, vv, sv = multi_problem(ele, ns, vecs, kinds, surface, gauss)
        g, build = X.sym_ts(pb)
        sols = [Sx(f"u{i}", (fe.num_total_nodes, fe.vec)) for i, fe in enumerate(pb.fes)]
        fn = lambda s, geo, vv, sv: AS.get_res(pb, list(s), TracedParams(tuple(vv), [tuple(x) for x in sv]), build(geo))
        spec = lambda s, geo, vv, sv: X.spec_residual(pb, list(s), geo, vv, kinds, sv, phys)
        ctx.equal(label, fn, spec, (sols, g, vv, sv), functions=FN + [A + "_build_kernel_from_weak_form",
                  A + "_build_surface_kernel_from_weak_form", A + "create_surface_kernel"], n_replay=2)


def multi1(ctx):
    _multi(ctx, "weak form TRI3 2 vars (2,1) cell,node,quad + 2 surfaces", ["TRI3", "TRI3"], (1, 1), (2, 1),
           ["cell", "node0", "quad"], 2)
    _multi(ctx, "weak form QUAD4 3 vars (1,2,1), batched", ["QUAD4"] * 3, (2, 1), (1, 2, 1), ["node0", "cell"], 1, batch=1)


def multi2(ctx):
    _multi(ctx, "mixed element weak form TRI6/TRI3", ["TRI6", "TRI3"], (1, 1), (1, 1), ["node1", "node0"], 1, gauss=2)


# ------------------------------------------------------------- custom kernels
def kernels(ctx):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    m = X.mesh("TRI3", (1, 1), seed=2, distort=0.1)
    d, vec = 2, 2
    nd = 3 * vec
    K = {k: uf.fun(k, (nd,)) for k in ("universal", "extra", "surfu0", "surfu1")}
    T = uf.fun("tensor_map", (vec, d))
    M = uf.fun("mass_map", (vec,))
    S0 = uf.fun("surface_map0", (vec,))
    locs = [lambda p: p[0] <= 0.3, lambda p: p[1] >= 0.7]
    cases = {
        "universal replaces maps": dict(get_universal_kernel=K["universal"], get_tensor_map=T),
        "universal + extra": dict(get_universal_kernel=K["universal"], get_extra_kernel=K["extra"]),
        "tensor + mass + extra": dict(get_tensor_map=T, get_mass_map=M, get_extra_kernel=K["extra"]),
        "surface map + surface universal": dict(get_tensor_map=T, get_surface_maps=[S0],
                                                get_universal_kernels_surface=[K["surfu0"], K["surfu1"]]),
    }
    for label, meth in cases.items():
        surf = "get_surface_maps" in meth or "get_universal_kernels_surface" in meth
        pb = X.make_problem(m, vec, d, "TRI3", meth, location_fns=locs if surf else None)
        g, build = X.sym_ts(pb)
        nt = pb.fes[0].num_total_nodes
        iv = Sx("iv", (pb.num_cells,))
        sv = [(Sx(f"sv{b}", np.shape(pb.physical_surface_quad_points[b])[:2]),) for b in range(2)] if surf else []

        def fn(u, geo, iv, sv):
            return AS.get_res(pb, [u], TracedParams((iv,), [tuple(x) for x in sv]), build(geo))

        def spec(u, geo, iv, sv):
            cells = np.asarray(pb.fes[0].cells)
            phys = {}
            if "get_universal_kernel" not in meth:
                phys = {"tensor": meth.get("get_tensor_map"), "mass": meth.get("get_mass_map")}
            ms = meth.get("get_surface_maps")
            r = X.spec_residual(_NoSurf(pb), [u], geo, [iv], ["cell"], [], phys)[0] if phys else jnp.zeros((nt, vec))
            ts = build(geo)

            def scat(r, c, y):
                y = y.reshape(3, vec)
                for a in range(3):
                    r = r.at[int(cells[c, a])].add(y[a])
                return r
            for c in range(pb.num_cells):
                uc = jnp.concatenate([u[int(n)] for n in cells[c]])
                args = (uc, geo["physical_quad_points"][c], geo["shape_grads"][c], geo["JxW"][c], ts.v_grads_JxW[c], iv[c])
                for k in ("get_universal_kernel", "get_extra_kernel"):
                    if k in meth:
                        r = scat(r, c, meth[k](*args))
            if surf:
                for b, bi in enumerate(pb.boundary_inds_list):
                    for f, (c, _) in enumerate(np.asarray(bi)):
                        uc = jnp.concatenate([u[int(n)] for n in cells[int(c)]])
                        fg = jnp.asarray(pb.selected_face_shape_grads[b][f])
                        y = meth["get_universal_kernels_surface"][b](uc, geo["psq"][b][f], geo["fsv"][b][f], fg,
                                                                     geo["nanson"][b][f], sv[b][0][f])
                        r = scat(r, int(c), y)
                        if b < len(ms):
                            for q in range(np.shape(pb.selected_face_shape_vals[b])[1]):
                                N = geo["fsv"][b][f, q]
                                uq = sum(N[a] * u[int(cells[int(c), a])] for a in range(3))
                                t = ms[b](uq, geo["psq"][b][f, q], sv[b][0][f, q]) * geo["nanson"][b][f, 0, q]
                                r = scat(r, int(c), jnp.concatenate([t * N[a] for a in range(3)]))
            return [r]
        ctx.equal(f"kernels: {label}", fn, spec, (Sx("u", (nt, vec)), g, iv, sv),
                  functions=[A + "create_volume_kernel", A + "create_surface_kernel", A + "get_res"], n_replay=2)

    # the stand-alone interpolation helper (per cell): cell value, nodal values, quadrature values
    nq = 3
    N = Sx("N", (nq, 2))
    H = [A + "interpolate_to_quad_points"]
    it = lambda v, N, nc: AS.interpolate_to_quad_points(v, N, nc, nq)
    ctx.equal("interpolate_to_quad_points: cell value", lambda v, N: it(v, N, 1), lambda v, N: jnp.stack([v[0]] * nq),
              (Sx("v", (1,)), N), functions=H, n_replay=2)
    ctx.equal("interpolate_to_quad_points: nodal values", lambda v, N: it(v, N, 1),
              lambda v, N: jnp.stack([sum(N[q, a] * v[a] for a in range(2)) for q in range(nq)]),
              (Sx("v", (2,)), N), functions=H, n_replay=2)
    ctx.equal("interpolate_to_quad_points: quadrature values", lambda v, N: it(v, N, 1), lambda v, N: v[0],
              (Sx("v", (1, nq)), N), functions=H, n_replay=2)


def kernels_multi(ctx):
    """custom kernels of multi-variable problems: a universal kernel replaces the weak form (per boundary too),
    the extra kernel adds, a boundary with neither contributes nothing"""
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    vecs, d, nn = (2, 1), 2, 3
    nd = nn * sum(vecs)
    K = {k: uf.fun(k, (nd,)) for k in ("universal", "extra", "surfu0", "surfu1")}
    weak = _weak(2, vecs, d, "weak_form")
    sweak = _sweak(vecs, "surface_weak0")
    m = X.mesh("TRI3", (1, 1), seed=4, distort=0.0)
    locs = [lambda p: p[0] <= 0.1, lambda p: p[1] >= 0.9]
    cases = {
        "weak form + extra": dict(get_weak_form=weak, get_extra_kernel=K["extra"]),
        "universal + extra": dict(get_universal_kernel=K["universal"], get_weak_form=weak, get_extra_kernel=K["extra"]),
        "weak form + surface universal, surface weak": dict(get_weak_form=weak, get_surface_weak_forms=[sweak, sweak],
                                                             get_universal_kernels_surface=[K["surfu0"]]),
        "weak form + one boundary without physics": dict(get_weak_form=weak, get_surface_weak_forms=[sweak]),
    }
    for label, meth in cases.items():
        surf = "get_surface_weak_forms" in meth
        uni, sw = meth.get("get_universal_kernels_surface", []), meth.get("get_surface_weak_forms", [])
        pb = X.make_problem([m, m], list(vecs), d, ["TRI3", "TRI3"], meth, location_fns=locs if surf else None)
        g, build = X.sym_ts(pb)
        iv = Sx("iv", (pb.num_cells,))
        sv = [(Sx(f"sv{b}", np.shape(pb.physical_surface_quad_points[b])[:2]),) for b in range(2)] if surf else []
        us = [Sx(f"u{i}", (fe.num_total_nodes, fe.vec)) for i, fe in enumerate(pb.fes)]

        def fn(us, geo, iv, sv):
            return AS.get_res(pb, list(us), TracedParams((iv,), [tuple(x) for x in sv]), build(geo))

        def spec(us, geo, iv, sv):
            cells = [np.asarray(fe.cells) for fe in pb.fes]
            res = [jnp.zeros((fe.num_total_nodes, fe.vec)) for fe in pb.fes]
            if "get_universal_kernel" not in meth:
                res = X.spec_residual(_NoSurf(pb), list(us), geo, [iv], ["cell"], [], {"weak": weak})
            ts = build(geo)

            def local(c):
                return jnp.concatenate([us[i][int(n)] for i in range(2) for n in cells[i][c]])

            def scat(res, c, y):
                k = 0
                res = list(res)
                for i, v in enumerate(vecs):
                    for a in range(nn):
                        res[i] = res[i].at[int(cells[i][c, a])].add(y[k:k + v])
                        k += v
                return res
            for c in range(pb.num_cells):
                args = (local(c), geo["physical_quad_points"][c], geo["shape_grads"][c], geo["JxW"][c], ts.v_grads_JxW[c], iv[c])
                for k in ("get_universal_kernel", "get_extra_kernel"):
                    if k in meth:
                        res = scat(res, c, meth[k](*args))
            if surf:
                for b, bi in enumerate(pb.boundary_inds_list):
                    for f, (c, _) in enumerate(np.asarray(bi)):
                        c = int(c)
                        if b < len(uni):
                            res = scat(res, c, uni[b](local(c), geo["psq"][b][f], geo["fsv"][b][f],
                                                      jnp.asarray(pb.selected_face_shape_grads[b][f]),
                                                      geo["nanson"][b][f], sv[b][0][f]))
                        elif b < len(sw):
                            for q in range(np.shape(pb.selected_face_shape_vals[b])[1]):
                                N = geo["fsv"][b][f, q]
                                vals = [sum(N[i * nn + a] * us[i][int(cells[i][c, a])] for a in range(nn)) for i in range(2)]
                                ts_ = sw[b](vals, geo["psq"][b][f, q], sv[b][0][f, q])
                                res = list(res)
                                for i in range(2):
                                    for a in range(nn):
                                        res[i] = res[i].at[int(cells[i][c, a])].add(ts_[i] * N[i * nn + a] * geo["nanson"][b][f, i, q])
            return res
        ctx.equal(f"multi-variable kernels: {label}", fn, spec, (us, g, iv, sv),
                  functions=[A + "create_volume_kernel", A + "create_surface_kernel", A + "get_res"], n_replay=2)


class _NoSurf:
    def __init__(self, pb):
        self._pb = pb
        self.boundary_inds_list = []

    def __getattr__(self, k):
        return getattr(self._pb, k)


# ------------------------------------------------------------- nodal vector fields, ambiguous sizes
def storage(ctx):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    # nodal vector field (num_nodes, 2): every component interpolated
    m = X.mesh("TRI3", (1, 1), seed=2, distort=0.1)
    T = uf.fun("tensor_map", (1, 2))
    pb = X.make_problem(m, 1, 2, "TRI3", {"get_tensor_map": T})
    g, build = X.sym_ts(pb)
    nt = pb.fes[0].num_total_nodes
    for label, use in (("ts", True), ("closure", False)):
        fn = lambda u, geo, iv: AS.get_res(pb, [u], TracedParams((iv,), []), build(geo) if use else None)
        geo0 = {k: np.asarray(getattr(pb, k)) for k in ("physical_quad_points", "shape_grads", "JxW")}
        spec = lambda u, geo, iv: X.spec_residual(pb, [u], geo if use else geo0, [iv], ["node"], [], {"tensor": T})
        ctx.equal(f"nodal vector coefficient ({label})", fn, spec, (Sx("u", (nt, 1)), g, Sx("iv", (nt, 2))), functions=FN)
    # as many cells as nodes: a nodal coefficient is still nodal
    m2 = X.mesh("TRI3", (2, 3), seed=5, distort=0.1)
    pb2 = X.make_problem(m2, 1, 2, "TRI3", {"get_tensor_map": T})
    expect(pb2.num_cells == pb2.fes[0].num_total_nodes, "harness")
    g2, build2 = X.sym_ts(pb2)
    n2 = pb2.num_cells
    ctx.equal("nodal coefficient with num_cells == num_nodes",
              lambda u, geo, iv: AS.get_res(pb2, [u], TracedParams((iv,), []), build2(geo)),
              lambda u, geo, iv: X.spec_residual(pb2, [u], geo, [iv], ["node"], [], {"tensor": T}),
              (Sx("u", (n2, 1)), g2, Sx("iv", (n2,))), functions=FN)
    batching(ctx)


def batching(ctx):
    from fv import symint as S
    import z3

    def thunk():
        import feax.assembler as AS
        f = getattr(AS, "_batching", None)
        if f is None:
            raise Skip("no _batching")

        def run(mk):
            n, b = mk("n", 0), mk("b", 1)
            return n, b, f(n, b)

        def post(v):
            n, b, (bs, k, p) = v
            e = S.ix
            return [z3.Implies(e(n) > 0, z3.And(e(bs) >= 1, e(k) * e(bs) == e(p))),
                    z3.Implies(e(n) > 0, e(p) >= e(n)), z3.Implies(e(n) > 0, e(p) - e(n) < e(bs)),
                    z3.Implies(e(n) <= 0, e(k) == 0)]
        return S.prove(run, post)
    ctx.valid("batching covers every item exactly once (all n, all batch sizes)", thunk, functions=[A + "_batching"])


# ------------------------------------------------------------- whole pipeline from the raw mesh
def _sweep_one(ele, ns, rng, vec, gauss, ts_mode, both=False):
    import feax.assembler as AS
    from feax.traced_params import TracedParams
    from feax.mesh import Mesh
    d = F.DIM[ele]
    P, C = F.make_mesh(ele, ns)
    Aff = np.eye(d) + 0.25 * rng.uniform(-1, 1, (d, d))
    Pp = P @ Aff.T
    inv = np.linalg.inv(Aff)
    locs = [lambda p: (jnp.asarray(inv) @ p)[0] < 1e-6, lambda p: (jnp.asarray(inv) @ p)[1] > 1 - 1e-6]
    on = [lambda p: (inv @ p)[0] < 1e-6, lambda p: (inv @ p)[1] > 1 - 1e-6]
    if both:                                   # the second boundary has more faces than the mesh has cells
        locs[1] = lambda p: jnp.abs((jnp.asarray(inv) @ p)[1] - 0.5) > 0.5 - 1e-6
        on[1] = lambda p: abs((inv @ p)[1] - 0.5) > 0.5 - 1e-6
    kn, kc = rng.uniform(0.5, 1.5, len(P)), rng.uniform(0.5, 1.5, len(C))
    U = rng.uniform(-1, 1, (len(P), vec))
    M = rng.uniform(-1, 1, (vec, vec))
    tens = lambda g, k, c: k * g + c * (jnp.asarray(M) @ g)
    mass = lambda u, x, k, c: c * u * (1 + x[0]) - jnp.asarray(M[0]) * x[1]
    sf = [lambda u, x: u * x[0] + 0.5, lambda u, x: x[1] * jnp.ones(vec) - 0.3 * (jnp.asarray(M) @ u)]
    pb = X.make_problem(Mesh(Pp, C, ele_type=ele), vec, d, ele,
                        {"get_tensor_map": tens, "get_mass_map": mass, "get_surface_maps": sf}, gauss_order=gauss,
                        location_fns=locs)
    ts = X.ts_of(pb) if ts_mode else None
    got = AS.get_res(pb, [jnp.asarray(U)], TracedParams((jnp.asarray(kn), jnp.asarray(kc)), []), ts)[0]
    knc = kn[C]
    ref = F.ref_residual(
        ele, Pp, C, U,
        lambda g, N, x: np.einsum("qa,ca->cq", N, knc)[..., None, None] * g + kc[:, None, None, None] * np.einsum("vw,cqwi->cqvi", M, g),
        lambda u, N, x: kc[:, None, None] * u * (1 + x[..., :1]) - M[0] * x[..., 1:2],
        [(on[0], lambda u, x: u * x[:, :1] + 0.5),
         (on[1], lambda u, x: x[:, 1:2] * np.ones(vec) - 0.3 * u @ M.T)])
    expect_close(got, ref, f"residual {ele} {ns}", rtol=1e-7, atol=1e-8, mesh=ele, ns=list(ns))


def sweep2(ctx):
    for ele in ("TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9"):
        for k in range(3 if ctx.thorough else 1):
            ctx.bounded(f"raw-mesh residual {ele} #{k}", lambda: _sweep_one(ele, (4, 2), ctx.rng(ele, k), 1 + k % 2, 7, k % 2 == 0),
                        functions=FN, bound="affine meshes 3x2, polynomial physics")
    ctx.bounded("raw-mesh residual QUAD4 304 cells (batched)", lambda: _sweep_one("QUAD4", (19, 16), ctx.rng("q"), 2, 5, True),
                functions=FN, bound="304 cells, padded last batch")
    ctx.bounded("raw-mesh residual TRI3 512 cells closure", lambda: _sweep_one("TRI3", (16, 16), ctx.rng("t"), 1, 4, False),
                functions=FN, bound="512 cells, two full batches")


def sweep3(ctx):
    for ele in ("TET4", "TET10", "HEX8", "HEX20"):
        ctx.bounded(f"raw-mesh residual {ele}", lambda: _sweep_one(ele, (2, 1, 1) if ele != "TET4" else (2, 2, 1), ctx.rng(ele), 3, 7 if ele != "TET10" else 7, True),
                    functions=FN, bound="affine meshes 2x1x1, polynomial physics")


def sweep4(ctx):
    ctx.bounded("raw-mesh residual HEX8 288 cells, 288-face boundary", lambda: _sweep_one("HEX8", (16, 1, 18), ctx.rng("h"), 1, 5, True),
                functions=FN, bound="288 cells/faces: both loops batched")
    ctx.bounded("raw-mesh residual HEX8 288 cells, 576-face boundary",
                lambda: _sweep_one("HEX8", (16, 1, 18), ctx.rng("h2"), 2, 5, True, True),
                functions=FN, bound="288 cells, 576 faces on one boundary")


GROUPS = [kernels_multi, quad3, tri, quad, quad2, tet, multi1, multi2, kernels, storage, sweep2, sweep3, sweep4]
