"""C05: element interpolation, geometry, quadrature and boundary faces."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip, Violation

B = "feax/basis.py:"
E = "feax/fe.py:FiniteElement."
ORD = [None, 0, 1, 2, 3, 4, 5]
NS = {2: (2, 1), 3: (1, 1, 1)}


def fe_of(ele, P, C, go=None, vec=1, hess=False):
    from feax.mesh import Mesh
    from feax.fe import FiniteElement
    return FiniteElement(Mesh(P, np.asarray(C), ele_type=ele), vec=vec, dim=F.DIM[ele], ele_type=ele,
                         gauss_order=go, hess=hess)


def ref_fe(ele, go=None, **k):
    n = F.ref_nodes(ele)
    return fe_of(ele, n, np.arange(len(n))[None], go, **k)


def qpoints(ele, go):
    """quadrature points the code uses, from the linear element on its reference cell (isoparametric identity)"""
    return np.asarray(ref_fe(F.LINEAR[ele], go).get_physical_quad_points())[0]


def default_order(ele):
    from feax.basis import get_elements
    return get_elements(ele)[3]


def poly(d, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]


def exact_mom(base, e):
    P, W = F.exact_rule(base)
    return float(np.sum(W * F._mono(P, e)))


# ---------------------------------------------------------------- tabulation
def tabulation(ctx):
    from feax import basis
    for ele in F.ELES:
        def orders():
            k = 0
            for go in ORD:
                o = default_order(ele) if go is None else go
                N, G, w = (np.asarray(v) for v in basis.get_shape_vals_and_grads(ele, go))
                lin = F.LINEAR[ele]
                # points used by the rule: the linear element of the same cell at the same order
                Nl = np.asarray(basis.get_shape_vals_and_grads(lin, o)[0])
                x = Nl @ F.ref_nodes(lin)
                expect(len(x) == len(w) == len(N), f"{ele} rule size")
                expect_close(N, F.shape(ele, x), f"{ele} order {go}: shape values at the rule's points", order=go)
                expect_close(G, F.shape_grad(ele, x), f"{ele} order {go}: shape gradients", order=go)
                for e in poly(F.DIM[ele], max(o, 1)):
                    if sum(e) > o and o == 0 and len(w) > 1:
                        continue
                    expect_close(np.sum(w * F._mono(x, e)), exact_mom(lin, e), f"{ele} order {go}: moment {e}", order=go)
                H = np.asarray(basis.get_shape_hessians_ref(ele, go))
                expect_close(H, F.shape_hess(ele, x), f"{ele} order {go}: second derivatives", order=go)
                k += 1
            return k
        ctx.bounded(f"tabulated values, gradients, second derivatives and weights of {ele}", orders,
                    functions=[B + "get_shape_vals_and_grads", B + "get_shape_hessians_ref", B + "get_elements"],
                    bound="rule orders default,0..5; every point of each rule (values are constants: exact evaluation)")

        def default_rule():
            fe = ref_fe(ele)
            g, w = np.asarray(fe.shape_grads)[0], np.asarray(fe.JxW)[0]
            ev = np.linalg.eigvalsh(np.einsum("qai,qbi,q->ab", g, g, w))
            expect(int(np.sum(ev > 1e-9 * ev.max())) == len(ev) - 1,
                   f"{ele}: with the default quadrature only constants may have zero gradient energy", spectrum=ev)
        ctx.bounded(f"default quadrature of {ele} is stable", default_rule, functions=[B + "get_elements"], bound="reference cell")

        def space():
            fe = ref_fe(ele)
            n = F.ref_nodes(ele)
            expect(fe.num_nodes == len(n), "nodes")
            # nodality: interpolating nodal values of each polynomial of the space returns it at the points
            for go in (4, 6):
                f = ref_fe(ele, go)
                x = np.asarray(f.get_physical_quad_points())[0]
                for e in F.monomials(ele):
                    v = F._mono(n, e)[:, None]
                    expect_close(np.asarray(f.convert_from_dof_to_quad(v))[0, :, 0], F._mono(x, e), f"{ele} reproduces x^{e}")
                    g = np.asarray(f.sol_to_grad(v))[0, :, 0]
                    gx = F.shape_grad(ele, x)
                    expect_close(g, np.einsum("qak,a->qk", gx, F._mono(n, e)), f"{ele} gradient of x^{e}")
            return 2 * len(F.monomials(ele))
        ctx.bounded(f"{ele} reproduces its polynomial space", space, functions=[E + "convert_from_dof_to_quad", E + "sol_to_grad"])
    ctx.bounded("unknown element types are rejected", lambda: expect_raises(lambda: basis.get_elements("HEX9000"), "unknown element"))


# ---------------------------------------------------------------- face data
def faces(ctx):
    from feax import basis
    for ele in F.ELES:
        base = F.LINEAR[ele]
        V = F.ref_nodes(base)

        def one():
            k = 0
            for go in ORD:
                o = default_order(ele) if go is None else go
                N, G, w, nrm, inds = (np.asarray(v) for v in basis.get_face_shape_vals_and_grads(ele, go))
                expect(sorted(map(lambda r: tuple(sorted(r)), inds.tolist())) == sorted(tuple(sorted(f)) for f in F.FACES[base]),
                       f"{ele}: the faces are the element's faces")
                Nl = np.asarray(basis.get_face_shape_vals_and_grads(base, o)[0])
                for f in range(len(inds)):
                    x = Nl[f] @ V
                    v = V[inds[f]]
                    vn = np.asarray(nrm[f], float)
                    expect_close(np.linalg.norm(vn), 1.0, f"{ele} face {f}: unit normal")
                    expect_close((x - v[0]) @ vn, np.zeros(len(x)), f"{ele} face {f}: points on the face")
                    expect(np.all((V @ vn - v[0] @ vn) <= 1e-12), f"{ele} face {f}: normal is outward")
                    expect_close(N[f], F.shape(ele, x), f"{ele} order {go} face {f}: values", order=go)
                    expect_close(G[f], F.shape_grad(ele, x), f"{ele} order {go} face {f}: gradients", order=go)
                    lf = [i for i, t in enumerate(F.FACES[base]) if set(t) == set(inds[f].tolist())][0]
                    Xf, Wf = F.face_rule(base)
                    pts, T = F.face_points(base, lf, Xf)
                    ds = np.linalg.norm(T[0], axis=1) if len(T) == 1 else np.linalg.norm(np.cross(T[0], T[1]), axis=1)
                    for e in poly(F.DIM[ele], max(o, 1)):
                        if sum(e) > o and o == 0 and len(x) > 1:
                            continue
                        expect_close(np.sum(w[f] * F._mono(x, e)), np.sum(Wf * ds * F._mono(pts, e)),
                                     f"{ele} order {go} face {f}: surface moment {e}", order=go)
                    k += 1
            return k
        ctx.bounded(f"face tabulation of {ele}", one, functions=[B + "get_face_shape_vals_and_grads", B + "reorder_inds"],
                    bound="rule orders default,0..5, every face and point (constants)")


# ---------------------------------------------------------------- mapped geometry, all vertex positions
def _adj_inv(J):
    """(...,d,d) -> inverse and det by the textbook formula"""
    d = J.shape[-1]
    if d == 2:
        det = J[..., 0, 0] * J[..., 1, 1] - J[..., 0, 1] * J[..., 1, 0]
        adj = jnp.stack([jnp.stack([J[..., 1, 1], -J[..., 0, 1]], -1), jnp.stack([-J[..., 1, 0], J[..., 0, 0]], -1)], -2)
    else:
        r0, r1, r2 = J[..., 0, :], J[..., 1, :], J[..., 2, :]
        cr = lambda a, b: jnp.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)
        adj = jnp.stack([cr(r1, r2), cr(r2, r0), cr(r0, r1)], -1)
        det = r0[..., 0] * adj[..., 0, 0] + r0[..., 1] * adj[..., 1, 0] + r0[..., 2] * adj[..., 2, 0]
    return adj, det


def _spec_geo(ele, go, C, sel=None):
    x = qpoints(ele, default_order(ele) if go is None else go)
    N, G = F.shape(ele, x), F.shape_grad(ele, x)
    w = np.asarray(ref_fe(F.LINEAR[ele], default_order(ele) if go is None else go).quad_weights)

    def spec(P):
        xc = P[C]
        J = jnp.einsum("cai,qak->cqik", xc, G)
        adj, det = _adj_inv(J)
        g = jnp.einsum("qak,cqki->cqai", G, adj) / det[:, :, None, None]
        return g, det * w[None], jnp.einsum("qa,cai->cqi", N, xc)
    return spec


def _mesh1(ele, k=0):
    d = F.DIM[ele]
    n = F.ref_nodes(ele)
    C = np.arange(len(n))[None]
    return n, C


def _geo_general(ctx, cases):
    for ele, go in cases:
        n, C = _mesh1(ele)
        s = _spec_geo(ele, go, C)

        def fn(P):
            fe = fe_of(ele, P, C, go)
            return fe.shape_grads, fe.JxW, fe.get_physical_quad_points()
        ctx.equal(f"gradients, volume weights and points for all vertex positions, {ele} order {go}", fn, s,
                  (Sx("P", n.shape, sampler=lambda r: n + r.uniform(-.12, .12, n.shape)),),
                  functions=[E + "get_shape_grads", E + "get_physical_quad_points", E + "__post_init__"])


def geo_gen1(ctx):
    _geo_general(ctx, [("TRI3", None), ("QUAD4", None), ("TET4", None), ("TRI6", None), ("QUAD8", None), ("QUAD9", 2)])


def geo_gen2(ctx):
    _geo_general(ctx, [("HEX8", None)])


def geo_gen3(ctx):
    _geo_general(ctx, [("TET10", None)])


def _geo_affine(ctx, eles):
    for ele in eles:
        d = F.DIM[ele]
        n, C = _mesh1(ele)
        for go in (None, 3) if d == 2 else (None,):
            fe = fe_of(ele, n, C, go, hess=True)
            x = qpoints(ele, default_order(ele) if go is None else go)
            G = F.shape_grad(ele, x)
            H = F.shape_hess(ele, x)
            w = np.asarray(fe.quad_weights)

            def fn(A, b):
                fe = fe_of(ele, n @ A.T + b, C, go, hess=True)
                return fe.shape_grads, fe.JxW, fe.get_physical_quad_points(), fe.shape_hessians

            def spec(A, b):
                adj, det = _adj_inv(A)
                Ai = adj / det
                g = jnp.einsum("qak,ki->qai", G, Ai)[None]
                h = jnp.einsum("qakl,ki,lj->qaij", H, Ai, Ai)[None]
                return g, (det * w)[None], (x @ A.T + b)[None], h
            ctx.equal(f"affine images of {ele} order {go}: gradients, weights, points, second gradients", fn, spec,
                      (Sx("A", (d, d), sampler=lambda r: np.eye(d) + r.uniform(-.3, .3, (d, d))), Sx("b", (d,))),
                      functions=[E + "get_shape_grads", E + "_compute_shape_hessians", E + "get_physical_quad_points"])


def geo_aff1(ctx):
    _geo_affine(ctx, ["TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4"])


def geo_aff2(ctx):
    _geo_affine(ctx, ["TET10", "HEX8"])


def geo_aff3(ctx):
    _geo_affine(ctx, ["HEX20"])


def geo_sweep(ctx):
    for ele in F.ELES:
        def run():
            k = 0
            for seed in range(3 if not ctx.thorough else 12):
                for go in (None, 1, 4):
                    ns = NS[F.DIM[ele]] if seed == 0 else ((1, 2) if F.DIM[ele] == 2 else (2, 1, 1))
                    P, C = F.make_mesh(ele, ns, ctx.rng(ele, seed), 0.15)
                    if seed == 2:  # curved: mid nodes moved too
                        P = P + ctx.rng(ele, 77).uniform(-.02, .02, P.shape)
                    fe = fe_of(ele, P, C, go, vec=2)
                    x = qpoints(ele, default_order(ele) if go is None else go)
                    px, g, dj, N = F.cell_geometry(ele, P, C, x)
                    expect_close(fe.shape_grads, g, f"{ele} gradients", P=P, C=C, order=go)
                    expect_close(fe.JxW, dj * np.asarray(fe.quad_weights)[None], f"{ele} JxW", P=P, C=C, order=go)
                    expect_close(fe.get_physical_quad_points(), px, f"{ele} points", P=P, C=C)
                    expect_close(fe.v_grads_JxW, g[:, :, :, None, :] * np.asarray(fe.JxW)[:, :, None, None, None], f"{ele} v_grads_JxW")
                    u = ctx.rng(ele, 5).uniform(-1, 1, (len(P), 2))
                    expect_close(fe.convert_from_dof_to_quad(u), np.einsum("qa,cav->cqv", N, u[C]), f"{ele} interpolation")
                    expect_close(fe.sol_to_grad(u), np.einsum("cqai,cav->cqvi", g, u[C]), f"{ele} field gradient")
                    bi = np.array([[c, f] for c in range(len(C)) for f in range(fe.num_faces)])
                    gs, na = fe.get_face_shape_grads(bi)
                    xs = np.asarray(fe.get_physical_surface_quad_points(bi))
                    us = np.asarray(fe.convert_from_dof_to_face_quad(u, bi))
                    base = F.LINEAR[ele]
                    for i, (c, f) in enumerate(bi):
                        fp = np.asarray(fe.face_shape_vals)[f]
                        # reference coordinates of the surface points via the linear element of the cell
                        xr = _face_ref_points(ele, default_order(ele) if go is None else go)[f]
                        Nf, Gf = F.shape(ele, xr), F.shape_grad(ele, xr)
                        J = np.einsum("qak,ai->qik", Gf, P[C[c]])
                        Ji = np.linalg.inv(J)
                        expect_close(gs[i], np.einsum("qak,qki->qai", Gf, Ji), f"{ele} face gradients", cell=c, face=f)
                        nr = np.asarray(fe.face_normals)[f]
                        cof = np.einsum("qki,k->qi", Ji, nr) * np.linalg.det(J)[:, None]
                        expect_close(na[i], np.linalg.norm(cof, axis=1) * np.asarray(fe.face_quad_weights)[f], f"{ele} face weights",
                                     cell=c, face=f)
                        expect_close(xs[i], Nf @ P[C[c]], f"{ele} face points", cell=c, face=f)
                        expect_close(us[i], Nf @ u[C[c]], f"{ele} face interpolation", cell=c, face=f)
                    # closed-surface identities: sum of face areas equals the area of each polygonal face
                    k += 1
            return k
        ctx.bounded(f"distorted and curved meshes of {ele}", run, functions=[
            E + m for m in ("get_shape_grads", "get_face_shape_grads", "get_physical_surface_quad_points", "convert_from_dof_to_quad",
                            "convert_from_dof_to_face_quad", "sol_to_grad")], bound="3 random meshes x 3 rules")


_FR = {}


def _face_ref_points(ele, o):
    from feax import basis
    base = F.LINEAR[ele]
    if (base, o) not in _FR:
        _FR[base, o] = np.asarray(basis.get_face_shape_vals_and_grads(base, o)[0]) @ F.ref_nodes(base)
    return _FR[base, o]


# ---------------------------------------------------------------- surface measure
def surface(ctx):
    for ele in F.ELES:
        d = F.DIM[ele]
        base = F.LINEAR[ele]
        n, C = _mesh1(ele)
        fe = fe_of(ele, n, C, 1 if ele == "HEX20" else None)
        o = 1 if ele == "HEX20" else default_order(ele)
        nf = fe.num_faces
        bi = np.array([[0, f] for f in range(nf)])
        xr = _face_ref_points(ele, o)
        w = np.asarray(fe.face_quad_weights)
        inds = np.asarray(fe.face_inds)
        V = F.ref_nodes(base)
        refarea = [np.linalg.norm(V[i[1]] - V[i[0]]) if d == 2 else
                   np.linalg.norm(np.cross(V[i[1]] - V[i[0]], V[i[2]] - V[i[0]])) for i in inds]

        def fn(A, b):
            f2 = fe_of(ele, n @ A.T + b, C, 1 if ele == "HEX20" else None)
            g, s = f2.get_face_shape_grads(bi)
            return s * s, f2.get_physical_surface_quad_points(bi), g

        def spec(A, b):
            adj, det = _adj_inv(A)
            out = []
            for f in range(nf):
                i = inds[f]
                e1 = A @ (V[i[1]] - V[i[0]])
                if d == 2:
                    a2 = jnp.sum(e1 * e1)
                else:
                    e2 = A @ (V[i[2]] - V[i[0]])
                    cr = jnp.stack([e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]])
                    a2 = jnp.sum(cr * cr)
                out.append(a2 * (w[f] / refarea[f]) ** 2)
            g = jnp.einsum("fqak,ki->fqai", F.shape_grad(ele, xr), adj / det)
            return jnp.stack(out), jnp.asarray(xr) @ A.T + b, g
        ctx.equal(f"squared surface weights, points and gradients on all affine images of {ele}", fn, spec,
                  (Sx("A", (d, d), sampler=lambda r: np.eye(d) + r.uniform(-.3, .3, (d, d))), Sx("b", (d,))),
                  functions=[E + "get_face_shape_grads", E + "get_physical_surface_quad_points"])

        def positive():
            for k in range(5):
                r = ctx.rng(ele + "s", k)
                A = np.eye(d) + r.uniform(-.3, .3, (d, d))
                if np.linalg.det(A) <= 0.1:
                    continue
                s = np.asarray(fe_of(ele, n @ A.T, C, 1 if ele == "HEX20" else None).get_face_shape_grads(bi)[1])
                expect(np.all(np.sign(s) == np.sign(w)), f"{ele}: surface weights positive", A=A)
            return 5
        ctx.bounded(f"surface weights positive on positively oriented {ele}", positive, functions=[E + "get_face_shape_grads"])


# ---------------------------------------------------------------- interpolation of all fields
def fields(ctx):
    for ele in F.ELES:
        d = F.DIM[ele]
        P, C = F.make_mesh(ele, NS[d], np.random.RandomState(3), 0.1)
        if ele == "HEX20":
            P, C = F.make_mesh(ele, (1, 1, 1), np.random.RandomState(3), 0.1)
        fe = fe_of(ele, P, C, None, vec=2)
        x = qpoints(ele, default_order(ele))
        px, g, dj, N = F.cell_geometry(ele, P, C, x)
        bi = np.array([[c, f] for c in range(len(C)) for f in range(0, fe.num_faces, 2)])
        xr = _face_ref_points(ele, default_order(ele))
        Nf = np.stack([F.shape(ele, xr[f]) for _, f in bi])
        ctx.equal(f"field values and gradients at all points for every nodal field, {ele}",
                  lambda u: (fe.convert_from_dof_to_quad(u), fe.sol_to_grad(u), fe.convert_from_dof_to_face_quad(u, bi)),
                  lambda u: (jnp.einsum("qa,cav->cqv", N, u[C]), jnp.einsum("cqai,cav->cqvi", g, u[C]),
                             jnp.einsum("iqa,iav->iqv", Nf, u[C[bi[:, 0]]])),
                  (Sx("u", (len(P), 2)),),
                  functions=[E + "convert_from_dof_to_quad", E + "sol_to_grad", E + "convert_from_dof_to_face_quad"])


# ---------------------------------------------------------------- selection of boundary faces
class _flags:
    """assumed contract on the dependency: argwhere(flags) lists the indices of the true flags; here it returns the flags"""

    def __enter__(self):
        self.save = jnp.argwhere
        jnp.argwhere = lambda a, **k: a
        return self

    def __exit__(self, *a):
        jnp.argwhere = self.save


def selection(ctx):
    for ele in F.ELES:
        d = F.DIM[ele]
        base = F.LINEAR[ele]
        P, C = F.make_mesh(ele, NS[d], np.random.RandomState(1), 0.1)
        fe = fe_of(ele, P, C)
        inds = np.asarray(fe.face_inds)
        nP = len(P)

        def run(flags, thr):
            f1 = lambda point, ind: flags[ind]
            f2 = lambda point: point[0] + point[1] * thr[0] <= thr[1]
            f3 = lambda point, ind: flags[ind] & (point[0] >= thr[1])
            with _flags():
                r = fe.get_boundary_conditions_inds([f1, f2, f3])
            if len(r) != 3 or any(np.shape(a) != (len(C), len(inds)) for a in r):
                raise Skip("faces not selected through argwhere of per-face flags")
            return r

        def spec(flags, thr):
            out = []
            for which in range(3):
                rows = []
                for c in C:
                    row = []
                    for f in inds:
                        t = jnp.asarray(True)
                        for a in f:
                            node = int(c[a])
                            p = P[node]
                            k = [flags[node], p[0] + p[1] * thr[0] <= thr[1], flags[node] & (p[0] >= thr[1])][which]
                            t = t & k
                        row.append(t)
                    rows.append(jnp.stack(row))
                out.append(jnp.stack(rows))
            return out
        ctx.equal(f"selected faces for every predicate, {ele}", run, spec, (Sx("in", (nP,), boolean=True), Sx("thr", (2,))),
                  functions=[E + "get_boundary_conditions_inds"], n_replay=3, private=True)

        def exhaustive():
            V = np.unique(C[:, :len(F.ref_nodes(base))])
            k = 0
            r = ctx.rng(ele)
            sub = list(itertools.product([False, True], repeat=len(V))) if len(V) <= 6 else [r.uniform(size=len(V)) < q for q in
                                                                                         np.linspace(.3, 1, 24)]
            for bits in sub:
                fl = np.zeros(nP, bool)
                fl[V] = bits
                got = np.asarray(fe.get_boundary_conditions_inds([lambda p, i: jnp.asarray(fl)[i]])[0])
                want = {(c, frozenset(C[c][list(f)])) for c in range(len(C)) for f in F.FACES[base] if fl[C[c][list(f)]].all()}
                expect({(int(c), frozenset(C[c][inds[f]])) for c, f in got} == want and len(got) == len(want),
                       f"{ele}: selected faces are those with all vertices selected", flags=fl)
                k += 1
            return k
        ctx.bounded(f"face selection on vertex subsets, {ele}", exhaustive, functions=[E + "get_boundary_conditions_inds"],
                    bound="all vertex subsets of small meshes, or 24 random subsets")

        def several():
            r = np.random.RandomState(7)
            fl = r.uniform(size=nP) < .8
            F1 = [lambda p: p[0] <= .4, lambda p: p[1] >= .6, lambda p: p[0] + p[1] >= .9]
            F2 = [lambda p, i: jnp.asarray(fl)[i], lambda p, i: jnp.asarray(fl)[i] & (p[0] >= .4)]
            k = 0
            for fs in (F1, F1[::-1], F2, [F1[0], F2[0], F1[1]], [F2[1], F1[2], F2[0], F1[0]]):
                keep = [np.array([bool(f(P[i], i) if f in F2 else f(P[i])) for i in range(nP)]) for f in fs]
                try:
                    got = fe.get_boundary_conditions_inds(fs)
                except TypeError as e:
                    raise Violation(f"{ele}: each predicate is called with the arguments it takes: {e}")
                expect(len(got) == len(fs), f"{ele}: one face list per predicate", got=len(got))
                for n, (g, ok) in enumerate(zip(got, keep)):
                    want = {(c, frozenset(C[c][list(f)])) for c in range(len(C)) for f in F.FACES[base] if ok[C[c][list(f)]].all()}
                    g = np.asarray(g)
                    expect({(int(c), frozenset(C[c][inds[f]])) for c, f in g} == want and len(g) == len(want),
                           f"{ele}: predicate {n} of {len(fs)} selects its own faces")
                    k += 1
            return k
        ctx.bounded(f"several predicates at once, {ele}", several, functions=[E + "get_boundary_conditions_inds"],
                    bound="5 lists of 2-4 predicates of one and two arguments")
    fe = fe_of("QUAD4", *F.make_mesh("QUAD4", (1, 1)))
    ctx.bounded("no predicates select nothing", lambda: expect(fe.get_boundary_conditions_inds(None) == [], "none"))
    ctx.bounded("predicates of wrong arity are rejected", lambda: expect_raises(
        lambda: fe.get_boundary_conditions_inds([lambda a, b, c: True]), "arity", ValueError))


GROUPS = [tabulation, faces, geo_gen1, geo_gen2, geo_gen3, geo_aff1, geo_aff2, geo_aff3, geo_sweep, surface, fields, selection]
