"""C15: anisotropic stiffness, laminates, plates, filament winding."""
import dataclasses
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, ring, symnp
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

SH = "feax/mechanics/shell.py:"
LS = "feax/mechanics/layered_solid_element.py:"
CO = "feax/mechanics/copv.py:"
G2 = 0.5773502691896257


def sym2(s):
    return jnp.array([[s[0], s[2]], [s[2], s[1]]])


def sym3(s):
    return jnp.array([[s[0], s[5], s[4]], [s[5], s[1], s[3]], [s[4], s[3], s[2]]])


def dd(C, e):
    return jnp.tensordot(C, e, 2)


def rot2(t):
    return jnp.array([[jnp.cos(t), -jnp.sin(t)], [jnp.sin(t), jnp.cos(t)]])


def gauss2(a, b):
    """two-point Gauss rule on [a, b]: exact for cubics"""
    m, h = (a + b) / 2, (b - a) / 2
    return [(m - h * G2, h), (m + h * G2, h)]


E_, NU, G_ = Sx("E", (), 1., 5.), Sx("nu", (), .1, .35), Sx("G", (), .5, 2.)
E1, E2 = Sx("E1", (), 3., 6.), Sx("E2", (), 1., 2.)


def inplane(ctx):
    from feax.mechanics import shell as S
    sg = Sx("s", (3,))

    def iso(E, nu, s):
        s = sym2(s)
        eps = (1 + nu) / E * s - nu / E * jnp.trace(s) * jnp.eye(2)
        C = S.isotropic_in_plane_stiffness(E, nu)
        return [dd(C, eps), dd(S.orthotropic_in_plane_stiffness(E, E, E / (2 * (1 + nu)), nu), eps)]
    ctx.equal("plane-stress isotropic stiffness inverts the compliance of (E, nu)", iso, lambda E, nu, s: [sym2(s)] * 2, (E_, NU, sg),
              functions=[SH + "isotropic_in_plane_stiffness", SH + "orthotropic_in_plane_stiffness"])

    def ortho(a, b, g, nu, s):
        s = sym2(s)
        eps = jnp.array([[s[0, 0] / a - nu / a * s[1, 1], s[0, 1] / (2 * g)], [s[0, 1] / (2 * g), s[1, 1] / b - nu / a * s[0, 0]]])
        return dd(S.orthotropic_in_plane_stiffness(a, b, g, nu), eps)
    ctx.equal("plane-stress orthotropic stiffness inverts the compliance of (E1, E2, G12, nu12)", ortho, lambda a, b, g, nu, s: sym2(s), (E1, E2, G_, NU, sg), functions=[SH + "orthotropic_in_plane_stiffness"])

    def symm(a, b, g, nu, E):
        out = []
        for C in (S.orthotropic_in_plane_stiffness(a, b, g, nu), S.isotropic_in_plane_stiffness(E, nu)):
            out += [C - jnp.transpose(C, p) for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1))]
        return out
    ctx.equal("in-plane stiffness has minor and major symmetries", symm, lambda *a: [jnp.zeros((2,) * 4)] * 6, (E1, E2, G_, NU, E_), functions=[SH + "orthotropic_in_plane_stiffness", SH + "isotropic_in_plane_stiffness"])

    C4, t, u, e = Sx("C", (2,) * 4), Sx("t", (), -3., 3.), Sx("u", (), -3., 3.), Sx("e", (2, 2))
    ctx.equal("rotating the stiffness = rotating strain in and stress out", lambda C, t, e: dd(S.rotate_in_plane_stiffness(C, t), rot2(t) @ e @ rot2(t).T),
              lambda C, t, e: rot2(t) @ dd(C, e) @ rot2(t).T, (C4, t, e), functions=[SH + "rotate_in_plane_stiffness"])
    ctx.equal("inverse rotation restores the stiffness; zero angle is the identity", lambda C, t: [S.rotate_in_plane_stiffness(S.rotate_in_plane_stiffness(C, t), -t), S.rotate_in_plane_stiffness(C, 0.)],
              lambda C, t: [C, C], (C4, t), functions=[SH + "rotate_in_plane_stiffness"])
    ctx.equal("isotropic stiffness is rotation invariant", lambda E, nu, t: S.rotate_in_plane_stiffness(S.isotropic_in_plane_stiffness(E, nu), t), lambda E, nu, t: S.isotropic_in_plane_stiffness(E, nu), (E_, NU, t), functions=[SH + "rotate_in_plane_stiffness"])
    A2 = Sx("A", (2, 2))
    ctx.equal("shear and expansion tensors rotate as second-order tensors", lambda A, t: [S.rotate_shear_stiffness(A, t), S.rotate_thermal_expansion(A, t), S.rotate_thermal_expansion(S.rotate_thermal_expansion(A, t), -t)],
              lambda A, t: [rot2(t) @ A @ rot2(t).T] * 2 + [A], (A2, t), functions=[SH + "rotate_shear_stiffness", SH + "rotate_thermal_expansion"])
    ctx.equal("expansion from orientation: aligned p has alpha_f along p and alpha_t across", lambda t, a, b: [S.thermal_expansion_from_orientation(jnp.outer(rot2(t)[:, 0], rot2(t)[:, 0]), a, b) @ rot2(t)[:, 0],
                                                                                                      S.thermal_expansion_from_orientation(jnp.outer(rot2(t)[:, 0], rot2(t)[:, 0]), a, b) @ rot2(t)[:, 1]],
              lambda t, a, b: [a * rot2(t)[:, 0], b * rot2(t)[:, 1]], (t, Sx("a"), Sx("b")), functions=[SH + "thermal_expansion_from_orientation"])
    ctx.equal("expansion from orientation: linear interpolation", lambda A, a, b: S.thermal_expansion_from_orientation(A, a, b), lambda A, a, b: b * jnp.eye(2) + (a - b) * A, (A2, Sx("a"), Sx("b")), functions=[SH + "thermal_expansion_from_orientation"])

    def comp():
        rng = np.random.RandomState(0)
        for _ in range(20):
            C = jnp.asarray(rng.normal(size=(2,) * 4))
            a, b = rng.uniform(-4, 4, 2)
            expect_close(S.rotate_in_plane_stiffness(S.rotate_in_plane_stiffness(C, a), b), S.rotate_in_plane_stiffness(C, a + b), "composition", a=a, b=b)
        C = S.orthotropic_in_plane_stiffness(10., 2., 1., .3)
        expect_close(S.rotate_in_plane_stiffness(C, np.pi / 2)[1, 1, 1, 1], C[0, 0, 0, 0], "quarter turn puts the fibre on the second axis")
        return 21
    ctx.bounded("rotations compose", comp, functions=[SH + "rotate_in_plane_stiffness"])


def laminate(ctx):
    from feax.mechanics import shell as S
    for n in (1, 2, 3, 4):
        ctx.equal(f"interface coordinates of {n} layers", lambda t: S.z_layer_coordinates(t), lambda t: jnp.stack([sum([t[i] for i in range(k)], 0 * t[0]) - sum([t[i] for i in range(n)], 0 * t[0]) / 2 for k in range(n + 1)]),
                  (Sx("t", (n,), .1, 1.),), functions=[SH + "z_layer_coordinates"])

    def zs(t):
        z = [-jnp.sum(t) / 2]
        for i in range(len(t)):
            z.append(z[-1] + t[i])
        return z

    def spec(C, G, th, t, per, ks):
        n = len(t)
        z = zs(t)
        A = B = D = 0
        Gs = 0
        for k in range(n):
            R = rot2(th[k])
            Ck, Gk = (C[k], G[k]) if per else (C, G)
            Cr = jnp.einsum("ip,jq,kr,ls,pqrs->ijkl", R, R, R, R, Ck)
            for zz, w in gauss2(z[k], z[k + 1]):
                A, B, D = A + w * Cr, B + w * zz * Cr, D + w * zz * zz * Cr
                Gs = Gs + ks * w * (R @ Gk @ R.T)
        return A, B, D, Gs
    for n, per in ((1, False), (2, False), (2, True), (3, True)):
        sh = (n,) if per else ()
        args = (Sx("C", sh + (2,) * 4), Sx("G", sh + (2, 2)), Sx("th", (n,), -1.5, 1.5), Sx("t", (n,), .1, 1.))
        ctx.equal(f"laminate stiffness of {n} {'different' if per else 'equal'} plies is the through-thickness integral", lambda C, G, th, t: S.laminate_stiffness(C, G, th, t),
                  lambda C, G, th, t: spec(C, G, th, t, per, 5 / 6), args, functions=[SH + "laminate_stiffness", SH + "rotate_in_plane_stiffness", SH + "rotate_shear_stiffness"], n_replay=2)
        ctx.equal(f"shear correction of {n} plies", lambda C, G, th, t, k: S.laminate_stiffness(C, G, th, t, kappa_s=k)[3], lambda C, G, th, t, k: spec(C, G, th, t, per, k)[3], args + (Sx("k"),), functions=[SH + "laminate_stiffness"], n_replay=2)

        def tspec(C, a, th, t, d0, d1):
            z = zs(t)
            N = M = 0
            for k in range(n):
                R = rot2(th[k])
                Ck, ak = (C[k], a[k]) if per else (C, a)
                s = R @ dd(Ck, ak) @ R.T
                for zz, w in gauss2(z[k], z[k + 1]):
                    N, M = N + w * (d0 + d1 * zz) * s, M + w * zz * (d0 + d1 * zz) * s
            return N, M
        args = (Sx("C", sh + (2,) * 4), Sx("a", sh + (2, 2)), Sx("th", (n,), -1.5, 1.5), Sx("t", (n,), .1, 1.))
        ctx.equal(f"thermal resultants of {n} {'different' if per else 'equal'} plies", lambda C, a, th, t, d0, d1: S.laminate_thermal_loads(C, a, th, t, dT_avg=d0, dT_grad=d1), tspec,
                  args + (Sx("d0"), Sx("d1")), functions=[SH + "laminate_thermal_loads", SH + "rotate_thermal_expansion"], n_replay=2)
        ctx.equal(f"default temperature change is one, uniform; none gives no load ({n} plies)", lambda C, a, th, t: [S.laminate_thermal_loads(C, a, th, t), S.laminate_thermal_loads(C, a, th, t, dT_avg=0.)],
                  lambda C, a, th, t: [tspec(C, a, th, t, 1., 0.), (jnp.zeros((2, 2)), jnp.zeros((2, 2)))], args, functions=[SH + "laminate_thermal_loads"], n_replay=1)
    c2 = (2,) * 4
    ctx.equal("one ply at zero angle is the homogeneous plate", lambda C, g, h: [S.laminate_stiffness(C, g * jnp.eye(2), jnp.zeros(1), jnp.stack([h])), S.plate_stiffness(C, h, g), S.plate_stiffness(C, h, g * jnp.eye(2))],
              lambda C, g, h: [(h * C, 0 * C, h ** 3 / 12 * C, 5 / 6 * h * g * jnp.eye(2))] + [(h * C, h ** 3 / 12 * C, 5 / 6 * h * g * jnp.eye(2))] * 2, (Sx("C", c2), Sx("g"), Sx("h", (), .1, 1.)), functions=[SH + "plate_stiffness", SH + "laminate_stiffness"])
    ctx.equal("anisotropic transverse shear and correction factor", lambda C, G, h, k: S.plate_stiffness(C, h, G, k)[2], lambda C, G, h, k: k * h * G, (Sx("C", c2), Sx("G", (2, 2)), Sx("h"), Sx("k")), functions=[SH + "plate_stiffness"])
    ctx.equal("symmetric stacking has no coupling and no thermal moment", lambda C, G, a, th, t: [S.laminate_stiffness(C, G, jnp.stack([th[0], th[1], th[0]]), jnp.stack([t[0], t[1], t[0]]))[1], S.laminate_thermal_loads(C, a, jnp.stack([th[0], th[1], th[0]]), jnp.stack([t[0], t[1], t[0]]))[1]],
              lambda C, G, a, th, t: [jnp.zeros(c2), jnp.zeros((2, 2))], (Sx("C", c2), Sx("G", (2, 2)), Sx("a", (2, 2)), Sx("th", (2,)), Sx("t", (2,), .1, 1.)), functions=[SH + "laminate_stiffness", SH + "laminate_thermal_loads"])

    def bad():
        C, G = jnp.ones(c2), jnp.eye(2)
        expect_raises(lambda: S.laminate_stiffness(C, G, jnp.zeros(2), jnp.ones(3)), "length mismatch", ValueError)
        expect_raises(lambda: S.laminate_thermal_loads(C, G, jnp.zeros(2), jnp.ones(3)), "length mismatch", ValueError)
        expect_raises(lambda: S.mindlin_strains(jnp.zeros((3, 2)), jnp.zeros((2, 2)), jnp.zeros(2), nonlinear="other"), "unknown kinematics", ValueError)
    ctx.bounded("inconsistent stackings and unknown kinematics are rejected", bad, functions=[SH + "laminate_stiffness", SH + "mindlin_strains"])


def plate(ctx):
    from feax.mechanics import shell as S
    gu, gt, th = Sx("gu", (3, 2)), Sx("gt", (2, 2)), Sx("th", (2,))
    sy = lambda a: (a + a.T) / 2
    ctx.equal("Mindlin strains (linear)", lambda u, t, r: S.mindlin_strains(u, t, r), lambda u, t, r: (sy(u[:2]), sy(t), u[2] + r), (gu, gt, th), functions=[SH + "mindlin_strains"])
    ctx.equal("Mindlin strains (von Karman)", lambda u, t, r: S.mindlin_strains(u, t, r, nonlinear="von_karman"), lambda u, t, r: (sy(u[:2]) + jnp.stack([u[2] * u[2, 0], u[2] * u[2, 1]]) / 2, sy(t), u[2] + r), (gu, gt, th), functions=[SH + "mindlin_strains"])
    e, k, g = Sx("e", (2, 2)), Sx("k", (2, 2)), Sx("g", (2,))
    A, B, D, Gs, NT, MT = [Sx(n, (2,) * 4) for n in "ABD"] + [Sx("Gs", (2, 2)), Sx("NT", (2, 2)), Sx("MT", (2, 2))]
    for b, nt, mt in itertools.product((0, 1), repeat=3):
        ctx.equal(f"plate resultants (B={b}, N_T={nt}, M_T={mt})", lambda e, k, g, A, B, D, G, N, M: S.mindlin_resultants(e, k, g, A, D, G, B=B if b else None, N_T=N if nt else None, M_T=M if mt else None),
                  lambda e, k, g, A, B, D, G, N, M: (dd(A, e) + b * dd(B, k) - nt * N, b * dd(B, e) + dd(D, k) - mt * M, G @ g), (e, k, g, A, B, D, Gs, NT, MT), functions=[SH + "mindlin_resultants"], n_replay=2)

    def major(C):  # symmetrize
        C = (C + jnp.transpose(C, (1, 0, 2, 3))) / 2
        C = (C + jnp.transpose(C, (0, 1, 3, 2))) / 2
        return (C + jnp.transpose(C, (2, 3, 0, 1))) / 2

    def energy(u, t, r, A, B, D, G, N, M, nl):
        eps = sy(u[:2]) + (jnp.outer(u[2], u[2]) / 2 if nl else 0)
        kap, gam = sy(t), u[2] + r
        return .5 * jnp.sum(eps * dd(A, eps)) + jnp.sum(eps * dd(B, kap)) + .5 * jnp.sum(kap * dd(D, kap)) + .5 * gam @ G @ gam - jnp.sum(N * eps) - jnp.sum(M * kap)
    for nl in (False, True):
        def wf(u, t, r, v, A, B, D, G, N, M):
            w = S.mindlin_weak_form(major(A), major(D), sy(G), B=major(B), N_T=sy(N), M_T=sy(M), nonlinear="von_karman" if nl else "linear")
            (m0, m1), (g0, g1) = w([v, r], [u, t], None)
            return m0, m1, g0, g1

        def ws(u, t, r, v, A, B, D, G, N, M):
            d = jax.grad(energy, argnums=(0, 1, 2))(u, t, r, major(A), major(B), major(D), sy(G), sy(N), sy(M), nl)
            return jnp.zeros(3), d[2], d[0], d[1]
        ctx.equal(f"plate weak form is the variation of the strain energy ({'von Karman' if nl else 'linear'})", wf, ws, (gu, gt, th, Sx("v", (3,)), A, B, D, Gs, NT, MT), functions=[SH + "mindlin_weak_form", SH + "mindlin_strains", SH + "mindlin_resultants"], n_replay=2)

    from feax import assembler as AS
    from feax.traced_params import TracedParams
    rng = np.random.RandomState(1)
    raw = [jnp.asarray(rng.normal(size=(2,) * 4)) for _ in range(3)]
    An, Bn, Dn = [major(r) for r in raw]
    Gn, Nn, Mn = [sy(jnp.asarray(rng.normal(size=(2, 2)))) for _ in range(3)]
    full = dict(B=Bn, N_T=Nn, M_T=Mn)
    for ele, ns, go, opt, nl in (("QUAD4", (2, 1), 2, "B N_T M_T", False), ("QUAD4", (1, 1), None, "B N_T M_T", True), ("TRI3", (1, 1), None, "", False), ("QUAD4", (1, 1), 1, "", False), ("QUAD8", (1, 1), None, "B N_T M_T", False),
                                 ("TRI3", (1, 1), None, "M_T", False), ("TRI3", (1, 1), None, "N_T", True), ("TRI3", (1, 1), None, "B", False), ("TRI3", (1, 1), None, "N_T M_T", True)):
        m = X.mesh(ele, ns)
        opt = {k: full[k] for k in opt.split()}
        pb = S.make_mindlin_plate(m, An, Dn, Gn, ele_type=ele, gauss_order=go, nonlinear="von_karman" if nl else "linear", **opt)
        nn = len(m.points)
        fe0 = pb.fes[0]
        SV, SG, J = np.asarray(fe0.shape_vals), np.asarray(fe0.shape_grads), np.asarray(fe0.JxW)
        C = np.asarray(m.cells)
        if go is not None:
            expect(SV.shape[0] == {2: 4, 1: 1}[go], "requested quadrature order used", got=SV.shape)

        def tot(uu):
            u, r = uu
            E = 0.
            for c in range(len(C)):
                for q in range(SV.shape[0]):
                    gu_ = jnp.einsum("av,ad->vd", u[C[c]], SG[c, q])
                    gt_ = jnp.einsum("av,ad->vd", r[C[c]], SG[c, q])
                    z = jnp.zeros((2, 2))
                    E = E + J[c, q] * energy(gu_, gt_, SV[q] @ r[C[c]], An, opt.get("B", jnp.zeros((2,) * 4)), Dn, Gn, opt.get("N_T", z), opt.get("M_T", z), nl)
            return E
        ctx.equal(f"plate problem on {ele} {ns} with {'+'.join(opt) or 'no'} coupling: residual is the gradient of the plate energy", lambda u, r: tuple(AS.get_res(pb, [u, r], TracedParams())), lambda u, r: jax.grad(tot)((u, r)),
                  (Sx("u", (nn, 3)), Sx("r", (nn, 2))), functions=[SH + "make_mindlin_plate", SH + "MindlinPlate.get_weak_form"], n_replay=1)


def solid(ctx):
    from feax.mechanics import layered_solid_element as L
    s6 = Sx("s", (6,))

    def iso(E, nu, s):
        s = sym3(s)
        return dd(L.isotropic_stiffness_3d(E, nu), (1 + nu) / E * s - nu / E * jnp.trace(s) * jnp.eye(3))
    ctx.equal("isotropic 3-D stiffness inverts the compliance of (E, nu)", iso, lambda E, nu, s: sym3(s), (E_, NU, s6), functions=[LS + "isotropic_stiffness_3d"])
    PAIRS = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))
    slot = {p: k for k, p in enumerate(PAIRS)}
    slot.update({(j, i): k for (i, j), k in list(slot.items())})
    ctx.equal("Voigt expansion puts slot (ij),(kl) everywhere it belongs, and contracts back", lambda C: [L.voigt_to_tensor(C), L.tensor_to_voigt(L.voigt_to_tensor(C))],
              lambda C: [jnp.stack([C[slot[i, j], slot[k, l]] for i, j, k, l in itertools.product(range(3), repeat=4)]).reshape((3,) * 4), C], (Sx("C", (6, 6)),), functions=[LS + "voigt_to_tensor", LS + "tensor_to_voigt"])
    ctx.equal("Voigt contraction reads the representative pairs", lambda C: L.tensor_to_voigt(C), lambda C: jnp.stack([jnp.stack([C[a + b] for b in PAIRS]) for a in PAIRS]), (Sx("C", (3,) * 4),), functions=[LS + "tensor_to_voigt"])

    NAMES = ("E1", "E2", "E3", "G12", "G13", "G23", "nu12", "nu13", "nu23")
    CONST = tuple(Sx(n, (), *((2., 4.) if n[0] in "EG" else (.1, .3))) for n in NAMES)

    def comp_eps(c, s):
        """strain of the stress s (6) by the engineering definitions"""
        e11 = s[0] / c["E1"] - c["nu12"] / c["E1"] * s[1] - c["nu13"] / c["E1"] * s[2]
        e22 = s[1] / c["E2"] - c["nu12"] / c["E1"] * s[0] - c["nu23"] / c["E2"] * s[2]
        e33 = s[2] / c["E3"] - c["nu13"] / c["E1"] * s[0] - c["nu23"] / c["E2"] * s[1]
        return [e11, e22, e33, s[3] / (2 * c["G23"]), s[4] / (2 * c["G13"]), s[5] / (2 * c["G12"])]

    def contract(C, e6):
        C = np.asarray(C, dtype=object) if not isinstance(C, np.ndarray) else C
        e = lambda i, j: e6[slot[i, j]]
        out = []
        for i, j in PAIRS:
            t = 0.
            for k, l in itertools.product(range(3), repeat=2):
                t = t + C[i, j, k, l] * e(k, l)
            out.append(t)
        return np.array(out, dtype=object)

    def real_ortho(*a):
        c = dict(zip(NAMES, a[:9]))
        C = np.asarray(L.orthotropic_stiffness_3d(**{k: float(v) for k, v in c.items()}))
        return contract(C, comp_eps(c, a[9])).astype(float)

    def sym_ortho(*a):
        c = dict(zip(NAMES, a[:9]))
        with symnp.numpy_as_symbolic(L, jax_too=True):
            C = L.orthotropic_stiffness_3d(**{k: v[()] if isinstance(v, np.ndarray) else v for k, v in c.items()})
        return contract(np.asarray(C, dtype=object), comp_eps({k: v[()] if isinstance(v, np.ndarray) else v for k, v in c.items()}, a[9]))
    ctx.equal("orthotropic 3-D stiffness inverts the compliance of the nine constants", sym_ortho, lambda *a: np.array([x for x in a[9]], dtype=object), CONST + (s6,), engine="host",
              functions=[LS + "orthotropic_stiffness_3d"], replay=(real_ortho, lambda *a: np.asarray(a[9], float)), n_replay=6)
    TN = ("E1", "E2", "G12", "nu12", "nu23")
    TC = tuple(Sx(n, (), *((2., 4.) if n[0] in "EG" else (.1, .3))) for n in TN)

    def full(d):
        return dict(E1=d["E1"], E2=d["E2"], E3=d["E2"], G12=d["G12"], G13=d["G12"], G23=d["E2"] / (2 * (1 + d["nu23"])), nu12=d["nu12"], nu13=d["nu12"], nu23=d["nu23"])

    def sym_ti(*a):
        d = {k: v[()] if isinstance(v, np.ndarray) else v for k, v in zip(TN, a)}
        with symnp.numpy_as_symbolic(L, jax_too=True):
            C = L.transverse_isotropic_stiffness_3d(**d)
        return contract(np.asarray(C, dtype=object), comp_eps(full(d), a[5]))

    def real_ti(*a):
        d = {k: float(v) for k, v in zip(TN, a)}
        return contract(np.asarray(L.transverse_isotropic_stiffness_3d(**d)), comp_eps(full(d), a[5])).astype(float)
    ctx.equal("transversely isotropic stiffness inverts its compliance", sym_ti, lambda *a: np.array([x for x in a[5]], dtype=object), TC + (s6,), engine="host",
              functions=[LS + "transverse_isotropic_stiffness_3d"], replay=(real_ti, lambda *a: np.asarray(a[5], float)), n_replay=6)

    def inv23():
        rng = np.random.RandomState(0)
        for _ in range(10):
            d = {k: s.sample(rng) for k, s in zip(TN, TC)}
            C = L.transverse_isotropic_stiffness_3d(**{k: float(v) for k, v in d.items()})
            expect_close(L.rotate_stiffness_3d(C, L.rotation_matrix_axis(rng.uniform(-3, 3), (1., 0, 0))), C, "invariant about the fibre")
            for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
                expect_close(jnp.transpose(C, p), C, "symmetries")
        return 10
    ctx.bounded("unidirectional ply is invariant about its fibre and symmetric", inv23, functions=[LS + "transverse_isotropic_stiffness_3d"])
    ctx.equal("expansion tensors", lambda a, b: [L.isotropic_cte_3d(a), L.transverse_isotropic_cte_3d(a, b)], lambda a, b: [a * jnp.eye(3), jnp.diag(jnp.stack([a, b, b]))], (Sx("a"), Sx("b")), functions=[LS + "isotropic_cte_3d", LS + "transverse_isotropic_cte_3d"])
    ax, t, v = Sx("ax", (3,), .3, 1.), Sx("t", (), -3., 3.), Sx("v", (3,))

    def rod(t, a, v):
        a = a / jnp.sqrt(jnp.sum(a * a))
        return jnp.cos(t) * v + jnp.sin(t) * jnp.cross(a, v) + (1 - jnp.cos(t)) * a * (a @ v)
    ctx.equal("rotation about an axis is Rodrigues' rotation for every (unnormalized) axis", lambda t, a, v: L.rotation_matrix_axis(t, a) @ v, rod, (t, ax, v), functions=[LS + "rotation_matrix_axis"])
    ctx.equal("rotation matrix is orthogonal and fixes its axis", lambda t, a: [L.rotation_matrix_axis(t, a).T @ L.rotation_matrix_axis(t, a), L.rotation_matrix_axis(t, a) @ a], lambda t, a: [jnp.eye(3), a], (t, ax), functions=[LS + "rotation_matrix_axis"])
    ctx.equal("default axis is z", lambda t: L.rotation_matrix_axis(t), lambda t: jnp.stack([jnp.stack([jnp.cos(t), -jnp.sin(t), 0 * t]), jnp.stack([jnp.sin(t), jnp.cos(t), 0 * t]), jnp.array([0., 0., 1.])]), (t,), functions=[LS + "rotation_matrix_axis"])
    R, e = Sx("R", (3, 3)), Sx("e", (3, 3))
    rng = np.random.RandomState(3)
    Cn = jnp.asarray(rng.normal(size=(3,) * 4))
    ctx.equal("rotating a 3-D stiffness = rotating strain in and stress out", lambda R, e: dd(L.rotate_stiffness_3d(Cn, R), e), lambda R, e: R @ dd(Cn, R.T @ e @ R) @ R.T, (R, e), functions=[LS + "rotate_stiffness_3d"])
    Rn = jnp.asarray(rng.normal(size=(3, 3)))
    ctx.equal("3-D stiffness rotation is the fourth-order tensor law in every component", lambda C: L.rotate_stiffness_3d(C, Rn), lambda C: jnp.einsum("ip,pjkl->ijkl", Rn, jnp.einsum("jq,pqkl->pjkl", Rn, jnp.einsum("kr,pqrl->pqkl", Rn, jnp.einsum("ls,pqrs->pqrl", Rn, C)))),
              (Sx("C", (3,) * 4),), functions=[LS + "rotate_stiffness_3d"])
    ctx.equal("3-D expansion rotates as a second-order tensor", lambda A, R: L.rotate_cte_3d(A, R), lambda A, R: R @ A @ R.T, (Sx("A", (3, 3)), R), functions=[LS + "rotate_cte_3d"])


def winding(ctx):
    from feax.mechanics import copv as K, layered_solid_element as L
    geoms = [K.DoubleWallCopvGeometry(a=10., shell_t=1., gap=3., cyl_len=12., polar_radius=3., n_circum=9, n_merid_cyl=3, n_merid_dome=3, n_fill=2),
             K.DoubleWallCopvGeometry(a=20., shell_t=.5, gap=2., cyl_len=5., polar_radius=8., n_circum=6, n_merid_cyl=2, n_merid_dome=4, n_fill=1),
             K.DoubleWallCopvGeometry(a=10., shell_t=.05, gap=.1, cyl_len=4., polar_radius=9.7, n_circum=24, n_merid_cyl=1, n_merid_dome=2, n_fill=1)]
    LAY = [("helical", 1.), ("helical", -1.), ("hoop", 1.), ("hoop", 1.)]

    def frames():
        k = 0
        for g in geoms:
            cm = K.create_double_wall_copv_mesh(g)
            P, C = np.asarray(cm.points), np.asarray(cm.cells)
            cen = P[C].mean(1)
            r = np.linalg.norm(cen[:, :2], axis=1)
            tm, th, en = K.cell_triads(cm)
            Q = np.stack([tm, th, en], 2)
            expect_close(np.einsum("cia,cib->cab", Q, Q), np.broadcast_to(np.eye(3), Q.shape), "orthonormal wall triad")
            expect_close(np.linalg.det(Q), np.ones(len(Q)), "right-handed (meridian, hoop, normal)")
            hoop = np.stack([-cen[:, 1], cen[:, 0], 0 * r], 1) / r[:, None]
            expect_close(np.einsum("ci,ci->c", th, hoop), np.ones(len(r)), "hoop direction is circumferential", atol=1e-6)
            expect((np.einsum("ci,ci->c", en, cen - np.array([0, 0, 1.]) * np.minimum(cen[:, 2], g.cyl_len)[:, None]) > 0).all(), "normal points outwards")
            al = np.arcsin(np.clip(g.polar_radius / r, 0, 1))
            expect_close(K.cell_winding_angle_deg(cm), np.degrees(al), "Clairaut angle")
            dome = cm.dome_cell_mask()
            # dome cells are those built above the cylinder
            expect(np.array_equal(dome, (P[C][:, :, 2].min(1) >= g.cyl_len - 1e-9)), "dome cells")
            shell = cm.cell_zone != K.ZONE_FILL
            for drop, so in itertools.product((True, False), repeat=2):
                fd = np.asarray(K.cell_fiber_directions(cm, LAY, drop_dome_hoop=drop, shell_only=so))
                for c in range(len(C)):
                    hc = 0
                    for p, (kind, sign) in enumerate(LAY):
                        if kind == "hoop":
                            ang = np.pi / 2 if not (drop and dome[c]) else (1 if hc % 2 == 0 else -1) * al[c]
                            hc += 1
                        else:
                            ang = sign * al[c]
                        want = np.cos(ang) * tm[c] + np.sin(ang) * th[c]
                        if so and not shell[c]:
                            want = 0 * want
                        expect_close(fd[c, p], want, "fibre direction", cell=c, ply=p, kind=kind, drop=drop, dome=bool(dome[c]), atol=1e-6)
                k += 1
            plyC = L.transverse_isotropic_stiffness_3d(100., 8., 4., .3, .4)
            fillC = L.isotropic_stiffness_3d(2., .3)
            pa, fa = L.transverse_isotropic_cte_3d(-1., 20.), L.isotropic_cte_3d(5.)
            for drop in (True, False):
                fd = np.asarray(K.cell_fiber_directions(cm, LAY, drop_dome_hoop=drop, shell_only=False))
                for fC, fA in ((None, None), (fillC, fa)):
                    W = np.asarray(K.create_winding_ply_stiffness(cm, plyC, LAY, fill_C=fC, drop_dome_hoop=drop))
                    Al = np.asarray(K.create_winding_cte(cm, pa, LAY, fill_alpha=fA, drop_dome_hoop=drop))
                    expect(W.shape == (len(C), 4, 3, 3, 3, 3) and Al.shape == (len(C), 4, 3, 3), "shapes")
                    for c in range(0, len(C), 3):
                        for p in range(4):
                            if fC is not None and not shell[c]:
                                expect_close(W[c, p], fillC, "fill stiffness")
                                expect_close(Al[c, p], fa, "fill expansion")
                                continue
                            f1 = fd[c, p]
                            f2 = np.cross(en[c], f1)
                            R = np.stack([f1, f2, en[c]], 1)
                            expect_close(W[c, p], np.einsum("ip,jq,kr,ls,pqrs->ijkl", R, R, R, R, np.asarray(plyC)), "ply stiffness in the wall frame", cell=c, ply=p, rtol=1e-6, atol=1e-6)
                            expect_close(Al[c, p], R @ np.asarray(pa) @ R.T, "ply expansion in the wall frame", cell=c, ply=p, rtol=1e-6, atol=1e-6)
                            k += 1
        return k
    ctx.bounded("winding frames: orthonormal triads, Clairaut angle, hoop and helical fibres, fill cells", frames, functions=[CO + f for f in ("cell_triads", "cell_winding_angle_deg", "cell_fiber_directions", "create_winding_ply_stiffness", "create_winding_cte")])

    def moved():
        """an imperfect (perturbed) wall, and a vessel turned in space with its axis"""
        from feax.mesh import Mesh
        k = 0
        for g, seed in itertools.product(geoms, range(3)):
            cm = K.create_double_wall_copv_mesh(g)
            rng = np.random.RandomState(seed)
            P = np.asarray(cm.points) + rng.normal(size=np.shape(cm.points)) * .1 * g.shell_t
            Q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if seed else np.eye(3)
            if np.linalg.det(Q) < 0:
                Q = -Q
            m2 = Mesh(jnp.asarray(P @ Q.T), cm.mesh.cells, ele_type="HEX8")
            c2 = dataclasses.replace(cm, mesh=m2, geom=dataclasses.replace(g, axis=tuple(Q[:, 2])))
            tm, th, en = K.cell_triads(c2)
            F = np.stack([tm, th, en], 2)
            expect_close(np.einsum("cia,cib->cab", F, F), np.broadcast_to(np.eye(3), F.shape), "orthonormal wall triad", seed=seed)
            expect_close(np.linalg.det(F), np.ones(len(F)), "right-handed", seed=seed)
            V = P[np.asarray(cm.cells)]
            n = V[:, 4:].mean(1) - V[:, :4].mean(1)
            n /= np.linalg.norm(n, axis=1)[:, None]
            c = V.mean(1)
            r = np.hypot(c[:, 0], c[:, 1])
            h = np.stack([-c[:, 1], c[:, 0], 0 * r], 1) / r[:, None]
            h = h - (h * n).sum(1)[:, None] * n
            h /= np.linalg.norm(h, axis=1)[:, None]
            expect_close(en, n @ Q.T, "normal direction turns with the vessel", seed=seed)
            expect_close(th, h @ Q.T, "hoop direction is the circumferential tangent", seed=seed)
            expect_close(K.cell_winding_angle_deg(c2), np.degrees(np.arcsin(np.clip(g.polar_radius / r, 0, 1))), "Clairaut angle from the distance to the axis", seed=seed)
            k += 1
        return k
    ctx.bounded("winding frames of imperfect and turned vessels", moved, functions=[CO + f for f in ("cell_triads", "cell_winding_angle_deg")])

    # one cell with symbolic ply constants: stiffness is linear in the ply stiffness and follows its frame
    g = geoms[1]
    cm = K.create_double_wall_copv_mesh(g)
    fd = np.asarray(K.cell_fiber_directions(cm, LAY, shell_only=False))
    _, _, en = K.cell_triads(cm)
    sel = [0, len(cm.cells) - 1]

    def wspec(a):
        out = []
        for c in sel:
            for p in range(4):
                R = np.stack([fd[c, p], np.cross(en[c], fd[c, p]), en[c]], 1)
                out.append(R @ a @ R.T)
        return jnp.stack(out).reshape(len(sel), 4, 3, 3)
    ctx.equal("winding expansion for every ply tensor", lambda a: K.create_winding_cte(cm, a, LAY)[jnp.asarray(sel)], wspec, (Sx("a", (3, 3)),), functions=[CO + "create_winding_cte"])


GROUPS = [inplane, laminate, plate, solid, winding]
