"""C16: fibre-orientation tensors, closures, layered solid elements."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, ring
from fv.contract import Sx, expect, expect_close, expect_raises

OR = "feax/mechanics/orientation.py:"
LS = "feax/mechanics/layered_solid_element.py:"
G2 = 0.5773502691896257


def box(*xs):
    return [c for x in xs for c in (x.item() >= -1.0, x.item() <= 1.0)]


def sx(n):
    return Sx(n, (), -1., 1.)


def dd(C, e):
    return jnp.tensordot(C, e, 2)


def symm4(C):
    """differences to every index permutation"""
    return [jnp.transpose(C, p) - C for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1), (0, 2, 1, 3))]


def symm_stiff(C):
    return [jnp.transpose(C, p) - C for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1))]


def symt(s, d):
    idx = {2: [[0, 2], [2, 1]], 3: [[0, 5, 4], [5, 1, 3], [4, 3, 2]]}[d]
    return jnp.stack([jnp.stack([s[k] for k in r]) for r in idx])


def unit(d, t, p=None):
    if d == 2:
        return jnp.stack([jnp.cos(t), jnp.sin(t)])
    return jnp.stack([jnp.cos(t) * jnp.cos(p), jnp.sin(t) * jnp.cos(p), jnp.sin(p)])


def four(n):
    return jnp.einsum("i,j,k,l->ijkl", n, n, n, n)


TRI = [((-1, -1), (0, 0)), ((0, -1), (.5, 0)), ((1, -1), (1, 0)), ((1, 0), (.75, .25)), ((1, 1), (.5, .5)), ((0, 1), (.25, .75)), ((-1, 1), (0, 1)), ((-1, 0), (0, .5))]
TET = [((-1, -1, -1), (0, 0, 0)), ((1, -1, -1), (1, 0, 0)), ((1, 1, -1), (.5, .5, 0)), ((-1, 1, -1), (0, 1, 0)), ((-1, -1, 1), (0, 0, 1)), ((1, -1, 1), (.5, 0, .5)),
       ((1, 1, 1), (1 / 3, 1 / 3, 1 / 3)), ((-1, 1, 1), (0, .5, .5))]


def maps(ctx):
    from feax.mechanics import orientation as O
    x, y, z = sx("x"), sx("y"), sx("z")

    def nodes():
        for p, a in TRI:
            expect_close(jnp.stack(O.box_to_triangle(*map(float, p))), np.array(a, float), "node image", node=p, atol=3e-6)
        for p, a in TET:
            expect_close(jnp.stack(O.box_to_tetrahedron(*map(float, p))), np.array(a, float), "node image", node=p, atol=3e-6)
        return len(TRI) + len(TET)
    ctx.bounded("design box nodes map to the listed triangle / tetrahedron points", nodes, functions=[OR + "box_to_triangle", OR + "box_to_tetrahedron"])
    ctx.nonneg("box_to_triangle stays in the orientation triangle for every point of the box", lambda x, y: (lambda a, b: [a, b, 1 + 5e-6 - a - b])(*O.box_to_triangle(x, y)), (x, y), assume=box, functions=[OR + "box_to_triangle"])
    ctx.nonneg("box_to_tetrahedron stays in the orientation tetrahedron for every point of the box", lambda x, y, z: (lambda a, b, c: [a, b, c, 1 + 5e-6 - a - b - c])(*O.box_to_tetrahedron(x, y, z)), (x, y, z), assume=box, functions=[OR + "box_to_tetrahedron"])
    # the map is the serendipity interpolant of its nodal values
    qn = F.ref_nodes("QUAD8") * 2 - 1
    vals = np.array([[float(v) for v in O.box_to_triangle(float(a), float(b))] for a, b in qn])
    cf = F.coeffs("QUAD8") @ vals
    mono = F.monomials("QUAD8")
    ctx.equal("triangle map is the quadratic serendipity interpolant of its node images", lambda x, y: jnp.stack(O.box_to_triangle(x, y)),
              lambda x, y: sum(((x + 1) / 2) ** e[0] * ((y + 1) / 2) ** e[1] * cf[k] for k, e in enumerate(mono)), (x, y), functions=[OR + "box_to_triangle"])
    ctx.equal("tetrahedron map is affine in each parameter", lambda a, b, x, y: [jax.grad(jax.grad(lambda u: O.box_to_tetrahedron(*f(u))[k]))(a) for k in range(3) for f in ((lambda u: (u, x, y)), (lambda u: (x, u, y)), (lambda u: (x, y, u)))],
              lambda a, b, x, y: [jnp.zeros(())] * 9, (sx("a"), sx("b"), x, y), functions=[OR + "box_to_tetrahedron"])
    be = Sx("be", (), .5, 12.)
    ctx.equal("smooth sign is tanh(beta x)/tanh(beta)", lambda x, b: O.smooth_sgn(x, b), lambda x, b: jnp.tanh(b * x) / jnp.tanh(b), (x, be), functions=[OR + "smooth_sgn"])

    def sgn():
        for b in (.5, 3., 10., 40.):
            expect_close(O.smooth_sgn(jnp.array([-1., 0., 1.]), b), [-1., 0., 1.], "reaches +-1 at the box bounds", beta=b)
            v = np.asarray(O.smooth_sgn(jnp.linspace(-1, 1, 41), b))
            expect((np.diff(v) >= 0).all() and (abs(v) <= 1 + 1e-12).all(), "monotone, bounded")
        expect_close(O.smooth_sgn(.3), np.tanh(3.) / np.tanh(10.), "default sharpness 10")
    ctx.bounded("smooth sign end values", sgn, functions=[OR + "smooth_sgn"])

    def off(a, b, s, be):
        return jnp.sqrt(jnp.maximum(a * b, 0.)) * jnp.tanh(be * s) / jnp.tanh(be)

    def spec2(x, y, z, b):
        a, c = O.box_to_triangle(x, y)
        o = off(a, c, z, b)
        return jnp.stack([jnp.stack([a, o]), jnp.stack([o, c])]), a, c
    ctx.equal("2-D orientation tensor is symmetric, with the mapped diagonal and off-diagonal sqrt(a11 a22) sgn(x3)", lambda x, y, z, b: O.orientation_tensor_2d(x, y, z, b), spec2, (x, y, z, be), functions=[OR + "orientation_tensor_2d"])

    def spec3(x, y, z, p, q, r, b):
        a = O.box_to_tetrahedron(x, y, z)
        o12, o13, o23 = off(a[0], a[1], p, b), off(a[0], a[2], q, b), off(a[1], a[2], r, b)
        return (jnp.stack([jnp.stack([a[0], o12, o13]), jnp.stack([o12, a[1], o23]), jnp.stack([o13, o23, a[2]])]),) + tuple(a)
    ctx.equal("3-D orientation tensor", lambda *a: O.orientation_tensor_3d(*a), spec3, (x, y, z, sx("p"), sx("q"), sx("r"), be), functions=[OR + "orientation_tensor_3d"])

    def admissible():
        rng = ctx.rng("adm")
        for k in range(60):
            xs = rng.uniform(-1, 1, 6)
            if k % 3 == 0:
                xs = np.sign(xs)
            a2 = np.asarray(O.orientation_tensor_2d(*xs[:3])[0])
            expect(np.linalg.eigvalsh(a2).min() > -1e-9 and np.trace(a2) < 1 + 1e-5, "2-D tensor is positive semidefinite with trace at most one", x=xs)
            a3 = np.asarray(O.orientation_tensor_3d(*xs)[0])
            expect(np.array_equal(a3, a3.T) and np.trace(a3) < 1 + 1e-5 and np.diag(a3).min() >= 0, "3-D tensor is symmetric with admissible diagonal", x=xs)
            for i, j in ((0, 1), (0, 2), (1, 2)):
                expect(a3[i, j] ** 2 <= a3[i, i] * a3[j, j] * (1 + 1e-9), "2x2 minors", x=xs)
        for s in (1., -1.):  # fully aligned states
            a2 = np.asarray(O.orientation_tensor_2d(1., 1., s)[0])
            expect_close(a2, .5 * np.array([[1, s], [s, 1]]), "aligned at 45 degrees")
        return 60
    ctx.bounded("orientation tensors are admissible", admissible, functions=[OR + "orientation_tensor_2d", OR + "orientation_tensor_3d"])

    def princ():
        rng = ctx.rng("pd")
        for d, batch, tr in itertools.product((2, 3), ((), (4,), (2, 3)), (1., .35)):
            A = rng.normal(size=batch + (d, d))
            A = A @ np.swapaxes(A, -1, -2)
            A = tr * A / np.trace(A, axis1=-2, axis2=-1)[..., None, None]
            w = np.linalg.eigvalsh(A)[..., -1]
            for sc in (True, False):
                v = np.asarray(O.principal_direction(jnp.asarray(A), sc))
                expect(v.shape == batch + (d,), "shape")
                expect_close(np.einsum("...ij,...j->...i", A, v), w[..., None] * v, "eigenvector of the largest eigenvalue", d=d, batch=batch)
                expect_close(np.linalg.norm(v, axis=-1), w if sc else np.ones(batch), "length", scale=sc)
            expect_close(abs(np.asarray(O.principal_direction(jnp.asarray(A)))), abs(v) * w[..., None], "scaled by alignment by default")
    ctx.bounded("principal direction is the leading eigenvector", princ, functions=[OR + "principal_direction"])


def closures(ctx):
    from feax.mechanics import orientation as O
    for d in (2, 3):
        n = {2: 3, 3: 6}[d]
        I = jnp.eye(d)
        fn = [OR + "linear_closure", OR + "quadratic_closure", OR + "hybrid_closure"]
        A = Sx("s", (n,), .05, .4)

        def a1(s):  # symmetric, unit trace
            a = symt(s, d)
            return a.at[d - 1, d - 1].set(1 - sum(a[i, i] for i in range(d - 1)))
        ang = (Sx("t", (), -3., 3.), Sx("p", (), -1.5, 1.5))[:d - 1]
        ctx.equal(f"{d}-D quadratic closure is a2 x a2", lambda a: O.quadratic_closure(a), lambda a: jnp.einsum("ij,kl->ijkl", a, a), (Sx("a", (d, d)),), functions=fn[1:2])
        ctx.equal(f"{d}-D linear closure is fully symmetric", lambda s: symm4(O.linear_closure(symt(s, d))), lambda s: [jnp.zeros((d,) * 4)] * 4, (A,), functions=fn[:1])
        ctx.equal(f"{d}-D hybrid closure has minor and major symmetries", lambda s: symm_stiff(O.hybrid_closure(symt(s, d))), lambda s: [jnp.zeros((d,) * 4)] * 3, (A,), functions=fn[2:])
        ctx.equal(f"{d}-D closures contract back to a2 for unit trace", lambda s: [jnp.einsum("ijkk->ij", c(a1(s))) for c in (O.linear_closure, O.quadratic_closure, O.hybrid_closure)], lambda s: [a1(s)] * 3, (A,), functions=fn)
        ctx.equal(f"{d}-D quadratic and hybrid closures are exact for aligned fibres", lambda *t: [c(jnp.outer(unit(d, *t), unit(d, *t))) for c in (O.quadratic_closure, O.hybrid_closure)], lambda *t: [four(unit(d, *t))] * 2, ang, functions=fn[1:])
        iso = (jnp.einsum("ij,kl->ijkl", I, I) + jnp.einsum("ik,jl->ijkl", I, I) + jnp.einsum("il,jk->ijkl", I, I)) / (d * (d + 2))
        ctx.equal(f"{d}-D linear and hybrid closures are exact for random fibres", lambda z: [c(I / d + 0 * z) for c in (O.linear_closure, O.hybrid_closure)], lambda z: [iso] * 2, (Sx("z"),), functions=[fn[0], fn[2]])
        det = (lambda a: a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]) if d == 2 else (lambda a: a[0] @ jnp.cross(a[1], a[2]))
        ctx.equal(f"{d}-D hybrid closure blends by the determinant", lambda s: O.hybrid_closure(symt(s, d)), lambda s: (lambda a, f: f * O.quadratic_closure(a) + (1 - f) * O.linear_closure(a))(symt(s, d), 1 - d ** d * det(symt(s, d))), (A,), functions=fn)
        ctx.equal(f"{d}-D linear closure is isotropic in its argument (covariance)", lambda s, *t: O.linear_closure(rot(d, *t) @ symt(s, d) @ rot(d, *t).T), lambda s, *t: rot4(O.linear_closure(symt(s, d)), rot(d, *t)), (A, Sx("t", (), -3., 3.)), functions=fn[:1], n_replay=2)
        # orthotropic d-dim: linear closure formula
        c1, c2 = {2: (-1 / 24, 1 / 6), 3: (-1 / 35, 1 / 7)}[d]

        def lin(s):
            a = symt(s, d)
            out = []
            for i, j, k, l in itertools.product(range(d), repeat=4):
                D = np.eye(d)
                out.append(c1 * (D[i, j] * D[k, l] + D[i, k] * D[j, l] + D[i, l] * D[j, k]) + c2 * (a[i, j] * D[k, l] + a[k, l] * D[i, j] + a[i, k] * D[j, l] + a[i, l] * D[j, k] + a[j, k] * D[i, l] + a[j, l] * D[i, k]))
            return jnp.stack(out).reshape((d,) * 4)
        ctx.equal(f"{d}-D linear closure coefficients", lambda s: O.linear_closure(symt(s, d)), lin, (A,), functions=fn[:1])

    def bad():
        for d in (1, 4):
            expect_raises(lambda: O.linear_closure(jnp.eye(d)), "unsupported dimension", ValueError)
            expect_raises(lambda: O.hybrid_closure(jnp.eye(d)), "unsupported dimension", ValueError)
    ctx.bounded("closures reject other dimensions", bad, functions=[OR + "linear_closure", OR + "hybrid_closure"])

    s, y1, y2 = Sx("s", (3,), .1, .4), sx("y1"), sx("y2")
    B = [OR + "build_a4_2d"]
    ctx.equal("closure-free a4 is fully symmetric", lambda s, a, b: symm4(O.build_a4_2d(symt(s, 2), a, b)), lambda *a: [jnp.zeros((2,) * 4)] * 4, (s, y1, y2), functions=B)
    ctx.equal("closure-free a4 contracts to a2 for every trace", lambda s, a, b: jnp.einsum("ijkk->ij", O.build_a4_2d(symt(s, 2), a, b, eps=0.)), lambda s, a, b: symt(s, 2), (s, y1, y2), functions=B)
    t, tau = Sx("t", (), -3., 3.), Sx("tau", (), .2, 1.)
    ctx.equal("closure-free a4 of aligned fibres is tau n^4 whatever the extra parameters", lambda t, tau, a, b: O.build_a4_2d(tau * jnp.outer(unit(2, t), unit(2, t)), a, b, eps=0.), lambda t, tau, a, b: tau * four(unit(2, t)), (t, tau, y1, y2), functions=B)

    def schur(s, a, b):
        A = symt(s, 2)
        tau = A[0, 0] + A[1, 1]
        n1 = ((A[0, 0] - A[1, 1]) / tau, 2 * A[0, 1] / tau)
        m = 1 - n1[0] ** 2 - n1[1] ** 2
        n2 = (n1[0] ** 2 - n1[1] ** 2 + a * m, 2 * n1[0] * n1[1] + b * m)
        # moments of the returned tensor
        return jnp.stack([tau * n2[0], tau * n2[1]])
    ctx.equal("fourth trigonometric moment is nu1^2 + rho2 (1 - |nu1|^2)", lambda s, a, b: (lambda A: jnp.stack([A[0, 0, 0, 0] - 6 * A[0, 0, 1, 1] + A[1, 1, 1, 1], 4 * (A[0, 0, 0, 1] - A[0, 1, 1, 1])]))(O.build_a4_2d(symt(s, 2), a, b, eps=0.)), schur, (s, y1, y2), functions=B)

    def adm():
        rng = ctx.rng("a4")
        for _ in range(60):
            th, w = rng.uniform(0, np.pi, 3), rng.dirichlet(np.ones(3)) * rng.uniform(.1, 1)
            n = np.stack([np.cos(th), np.sin(th)], 1)
            a2 = np.einsum("k,ki,kj->ij", w, n, n)
            r, ph = np.sqrt(rng.uniform()), rng.uniform(0, 2 * np.pi)
            a4 = np.asarray(O.build_a4_2d(jnp.asarray(a2), r * np.cos(ph), r * np.sin(ph)))
            M = a4.reshape(4, 4)
            expect(np.linalg.eigvalsh((M + M.T) / 2).min() > -1e-9, "fourth-order moment matrix is positive semidefinite", a2=a2)
            expect_close(np.einsum("ijkk->ij", a4), a2, "contraction with the default floor", atol=1e-8)
        expect_close(O.build_a4_2d(jnp.zeros((2, 2)), .3, .4), np.zeros((2,) * 4), "empty element gives zero")
        # density is differentiable there
        g = jax.jacobian(lambda a: O.build_a4_2d(a, .1, .2))(jnp.zeros((2, 2)))
        expect(np.isfinite(np.asarray(g)).all(), "finite derivative at the empty element")
        return 61
    ctx.bounded("closure-free a4 is admissible inside the unit disk", adm, functions=B)


def rot(d, t):
    c, s = jnp.cos(t), jnp.sin(t)
    if d == 2:
        return jnp.stack([jnp.stack([c, -s]), jnp.stack([s, c])])
    z = 0 * t
    # rotation about (1,2,2)/3
    a = np.array([1., 2., 2.]) / 3
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return jnp.asarray(np.eye(3)) + s * K + (1 - c) * (K @ K) + z


def rot4(C, R):
    for ax in range(4):
        C = jnp.moveaxis(jnp.tensordot(R, C, (1, ax)), 0, ax)
    return C


def averaged(ctx):
    from feax.mechanics import orientation as O, shell as S
    E1, E2, G, nu, nu23 = Sx("E1", (), 3., 6.), Sx("E2", (), 1., 2.), Sx("G", (), .5, 2.), Sx("nu", (), .1, .3), Sx("nu23", (), .1, .4)
    t, p = Sx("t", (), -3., 3.), Sx("p", (), -1.5, 1.5)
    f2, f3 = [OR + "orientation_averaged_stiffness"], [OR + "orientation_averaged_stiffness_3d"]
    nn = lambda n: (jnp.outer(n, n), four(n))
    ctx.equal("aligned 2-D orientation gives the rotated unidirectional ply", lambda t, a, b, g, v: O.orientation_averaged_stiffness(*nn(unit(2, t)), a, b, g, v),
              lambda t, a, b, g, v: S.rotate_in_plane_stiffness(S.orthotropic_in_plane_stiffness(a, b, g, v), t), (t, E1, E2, G, nu), functions=f2)

    def strain3(n, m, s, E1, E2, G, v, w):
        """stress of the fibre frame (n, m, n x m), compliance of the constants"""
        e = [s[0] / E1 - v / E1 * (s[1] + s[2]), s[1] / E2 - v / E1 * s[0] - w / E2 * s[2], s[2] / E2 - v / E1 * s[0] - w / E2 * s[1], s[3] * (1 + w) / E2, s[4] / (2 * G), s[5] / (2 * G)]
        return symt(s, 3), symt(e, 3)

    def real(s, *c):
        sg, e = strain3(None, None, s, *c)
        n = jnp.array([1., 0, 0])
        return dd(O.orientation_averaged_stiffness_3d(*nn(n), *c), e)
    ctx.equal("aligned 3-D orientation inverts the transversely isotropic compliance", real, lambda s, *c: symt(s, 3), (Sx("s", (6,)), E1, E2, G, nu, nu23), functions=f3)
    for d, f, cs in ((2, O.orientation_averaged_stiffness, (E1, E2, G, nu)), (3, O.orientation_averaged_stiffness_3d, (E1, E2, G, nu, nu23))):
        fn = f2 if d == 2 else f3
        a2, a4 = Sx("a2", (d, d)), Sx("a4", (d,) * 4)
        b2, b4, l = Sx("b2", (d, d)), Sx("b4", (d,) * 4), Sx("l")
        con = tuple({"E1": 5., "E2": 1.5, "G": .8, "nu": .25, "nu23": .35}[s.name] for s in cs)
        ctx.equal(f"{d}-D averaged stiffness is affine in (a2, a4)", lambda a2, a4, b2, b4, l: f(l * a2 + (1 - l) * b2, l * a4 + (1 - l) * b4, *con), lambda a2, a4, b2, b4, l: l * f(a2, a4, *con) + (1 - l) * f(b2, b4, *con), (a2, a4, b2, b4, l), functions=fn, n_replay=1)
        sy = Sx("sy", ({2: 3, 3: 6}[d],))
        ctx.equal(f"{d}-D averaged stiffness has minor and major symmetries for symmetric orientation tensors", lambda s, *c: symm_stiff(f(symt(s, d), jnp.einsum("ij,kl->ijkl", symt(s, d), symt(s, d)), *c)), lambda s, *c: [jnp.zeros((d,) * 4)] * 3, (sy,) + cs, functions=fn, n_replay=1)
        ctx.equal(f"{d}-D averaged stiffness rotates with the orientation state", lambda s, t: f(rot(d, t) @ symt(s, d) @ rot(d, t).T, rot4(jnp.einsum("ij,kl->ijkl", symt(s, d), symt(s, d)), rot(d, t)), *con),
                  lambda s, t: rot4(f(symt(s, d), jnp.einsum("ij,kl->ijkl", symt(s, d), symt(s, d)), *con), rot(d, t)), (sy, t), functions=fn, n_replay=2)

    def avg():
        rng = ctx.rng("avg")
        from feax.mechanics import layered_solid_element as L
        for _ in range(8):
            w = rng.dirichlet(np.ones(4))
            n = rng.normal(size=(4, 3))
            n /= np.linalg.norm(n, axis=1)[:, None]
            c = (5., 1.5, .8, .25, .35)
            ply = L.transverse_isotropic_stiffness_3d(*c)
            want = 0
            for k in range(4):
                m = np.cross(n[k], [1., 0, 0]) + 0
                m /= np.linalg.norm(m)
                R = jnp.asarray(np.stack([n[k], m, np.cross(n[k], m)], 1))
                want = want + w[k] * L.rotate_stiffness_3d(ply, R)
            a2, a4 = np.einsum("k,ki,kj->ij", w, n, n), np.einsum("k,ki,kj,kl,km->ijlm", w, n, n, n, n)
            expect_close(O.orientation_averaged_stiffness_3d(jnp.asarray(a2), jnp.asarray(a4), *c), want, "fibre average of rotated plies", rtol=1e-6)
        return 8
    ctx.bounded("3-D averaged stiffness is the distribution average of rotated plies", avg, functions=f3)


def g1(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def quadrature(ctx):
    from feax.mechanics import layered_solid_element as L

    def run():
        k = 0
        for t, ni, nt in itertools.product(((1.,), (1., 2.), (.5, .25, 3.), (1., 1., 1., 1.), (1., 1.05), (.001, 1.)), (1, 2, 3), (1, 2, 3)):
            P, W, own = map(np.asarray, L.layered_reference_quadrature(t, n_inplane=ni, n_thick_per_ply=nt))
            zi = np.concatenate([[0], np.cumsum(t) / np.sum(t)])
            expect(P.shape == (len(t) * nt * ni * ni, 3) and W.shape == own.shape == (len(P),), "counts", t=t, ni=ni, nt=nt)
            expect((np.diff(own) >= 0).all(), "plies bottom to top")
            for q in range(len(t)):
                s = own == q
                expect(s.sum() == nt * ni * ni and (P[s, 2] > zi[q]).all() and (P[s, 2] < zi[q + 1]).all(), "points inside their ply", ply=q, t=t)
                for a, b, c in itertools.product(range(2 * ni), range(2 * ni), range(2 * nt)):
                    want = (zi[q + 1] ** (c + 1) - zi[q] ** (c + 1)) / (c + 1) / (a + 1) / (b + 1)
                    expect_close((W[s] * P[s, 0] ** a * P[s, 1] ** b * P[s, 2] ** c).sum(), want, "exact ply moment", t=t, ply=q, powers=(a, b, c))
                    k += 1
        P, W, own = L.layered_reference_quadrature((1., 2.))
        expect(len(W) == 16, "default 2x2x2 per ply")
        return k
    ctx.bounded("layered quadrature integrates every ply exactly to its degree", run, functions=[LS + "layered_reference_quadrature"])

    for t, ni, nt in (((1., 2.), 2, 2), ((.5, 1., .25), 1, 2), ((1.,), 2, 1), ((1., .9), 1, 3), ((1., 1.), 3, 1), ((.2, .3), 1, 4)):
        P, W, own = map(np.asarray, L.layered_reference_quadrature(t, n_inplane=ni, n_thick_per_ply=nt))
        N = np.stack([F.shape("HEX8", p) for p in P])
        ctx.equal(f"nodal fields interpolate to the layered points (plies {t})", lambda T: L.interpolate_nodal_to_layered_quad(T, t, n_inplane=ni, n_thick_per_ply=nt), lambda T: jnp.einsum("qa,ca->cq", N, T), (Sx("T", (3, 8)),), functions=[LS + "interpolate_nodal_to_layered_quad"])
        ctx.equal(f"per-ply expansion is repeated on its ply's points (plies {t})", lambda A: L.expand_cte_to_quad(A, t, n_inplane=ni, n_thick_per_ply=nt), lambda A: jnp.stack([A[:, int(k)] for k in own], 1), (Sx("A", (2, len(t), 3, 3)),), functions=[LS + "expand_cte_to_quad"])


def stiff(rng, *sh):
    """random stiffness with minor and major symmetry"""
    M = rng.normal(size=sh + (6, 6))
    M = M + np.swapaxes(M, -1, -2) + 4 * np.eye(6)
    V = np.array([[0, 5, 4], [5, 1, 3], [4, 3, 2]])
    return M[..., V[:, :, None, None], V[None, None]]


def kin(P, C, t, ni, nt):
    """per cell, ply and point: (gradients dN/dx, weight * detJ) by the harness's own quadrature and shape functions"""
    x, w = g1(ni)
    z, wz = g1(nt)
    zi = np.concatenate([[0], np.cumsum(t) / np.sum(t)])
    out = []
    for c in range(len(C)):
        for k in range(len(t)):
            for (a, wa), (b, wb), (d, wd) in itertools.product(zip(z, wz), zip(x, w), zip(x, w)):
                X_ = np.array([b, d, zi[k] + a * (zi[k + 1] - zi[k])])
                g = np.asarray(F.shape_grad("HEX8", X_))  # (8, 3)
                J = P[C[c]].T @ g
                out.append((c, k, g @ np.linalg.inv(J), wa * wb * wd * (zi[k + 1] - zi[k]) * np.linalg.det(J)))
    return out


def layered(ctx):
    from feax.mechanics import layered_solid_element as L
    from feax import assembler as AS
    from feax.traced_params import TracedParams
    rng = np.random.RandomState(4)
    cases = [((1, 1, 1), (1., 2.), (.4, -1.1), (0, 0, 1.), 2, 2), ((2, 1, 1), (1.,), (.7,), (0, 0, 1.), 2, 2), ((1, 1, 1), (.5, 1., .25), (0., .9, -.3), (1., 2., 2.), 2, 1), ((1, 1, 2), (1., 1.), (.2, -.2), (0, 1., 0), 1, 2), ((1, 1, 1), (1., .97), (.6, -.3), (-1., 2., -.5), 2, 1), ((1, 1, 1), (1., .2), (.6, -.3), (0, 0, -1.), 1, 3)]
    if ctx.thorough:
        cases += [((2, 2, 1), (1., .3, 2., .7), (.1, .2, .3, .4), (0, 0, 2.), 3, 3), ((2, 1, 2), (1., .3), (.1, 1.2), (0, 3., 4.), 2, 3)]
    for ns, t, ang, nrm, ni, nt in cases:
        m = X.mesh("HEX8", ns)
        P, C = np.asarray(m.points), np.asarray(m.cells)
        K = kin(P, C, t, ni, nt)
        nn = len(P)
        for per in (False, True):
            Cp = stiff(rng, len(t)) if per else stiff(rng)
            pb, tp = L.create_layered_solid(m, jnp.asarray(Cp), ang, t, n_inplane=ni, n_thick_per_ply=nt, normal=nrm)
            a = np.array(nrm) / np.linalg.norm(nrm)
            Kx = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
            rots = [np.eye(3) + np.sin(th) * Kx + (1 - np.cos(th)) * Kx @ Kx for th in ang]
            Cr = [np.einsum("ip,jq,kr,ls,pqrs->ijkl", R, R, R, R, Cp[k] if per else Cp) for k, R in enumerate(rots)]

            def E(u):
                e = 0.
                for c, k, g, w in K:
                    gu = jnp.einsum("ai,aj->ij", u[C[c]], g)
                    eps = (gu + gu.T) / 2
                    e = e + w / 2 * jnp.sum(eps * dd(Cr[k], eps))
                return e
            ctx.equal(f"layered solid {ns}, plies {t}{' per ply' if per else ''}: residual is the gradient of the layer-wise strain energy", lambda u: AS.get_res(pb, [u], tp), lambda u: [jax.grad(E)(u)], (Sx("u", (nn, 3)),), functions=[LS + "create_layered_solid", LS + "LayeredSolid.get_universal_kernel"], n_replay=1)
        # oriented, per cell
        Cc = stiff(rng, len(C), len(t))
        al = rng.normal(size=(len(C), len(t), 3, 3))
        al = al + np.swapaxes(al, -1, -2)
        for th in (None, "zero", "cte"):
            pb, tp = L.create_oriented_layered_solid(m, jnp.asarray(Cc), t, n_inplane=ni, n_thick_per_ply=nt, **({} if th is None else dict(with_thermal=True, cte_cell_ply=jnp.asarray(al) if th == "cte" else None)))

            def E(u):
                e = 0.
                for c, k, g, w in K:
                    gu = jnp.einsum("ai,aj->ij", u[C[c]], g)
                    eps = (gu + gu.T) / 2 - (al[c, k] if th == "cte" else 0)
                    e = e + w / 2 * jnp.sum(eps * dd(Cc[c, k], eps))
                return e
            ctx.equal(f"oriented layered solid {ns}, plies {t}, thermal={th}: residual is the gradient of the layer-wise energy of elastic strain", lambda u: AS.get_res(pb, [u], tp), lambda u: [jax.grad(E)(u)], (Sx("u", (nn, 3)),),
                      functions=[LS + "create_oriented_layered_solid", LS + "OrientedLayeredSolid.get_universal_kernel"], n_replay=1)
        # geometric stiffness with per-point prestress, and stress recovery
        nq = len(K) // len(C)
        S0 = rng.normal(size=(len(C), nq, 3, 3))
        S0 = S0 + np.swapaxes(S0, -1, -2)
        pb, tp = L.create_layered_solid_geometric_stiffness(m, jnp.asarray(S0), t, n_inplane=ni, n_thick_per_ply=nt)

        def Eg(u):
            e = 0.
            for n_, (c, k, g, w) in enumerate(K):
                gu = jnp.einsum("ai,aj->ij", u[C[c]], g)
                e = e + w / 2 * jnp.einsum("ij,ci,cj->", S0[c, n_ % nq], gu, gu)
            return e
        ctx.equal(f"geometric stiffness {ns}, plies {t}: residual is the gradient of 1/2 int sigma0 grad u grad u", lambda u: AS.get_res(pb, [u], tp), lambda u: [jax.grad(Eg)(u)], (Sx("u", (nn, 3)),), functions=[LS + "create_layered_solid_geometric_stiffness", LS + "GeometricStiffnessSolid.get_universal_kernel"], n_replay=1)
        dN = jnp.asarray(np.stack([F.shape_grad("HEX8", p) for p in np.asarray(L.layered_reference_quadrature(t, n_inplane=ni, n_thick_per_ply=nt)[0])]))
        Cq = jnp.asarray(np.stack([np.stack([Cc[c, k] for cc, k, _, _ in K if cc == c]) for c in range(len(C))]))
        et = rng.normal(size=(len(C), nq, 3, 3))

        def str_spec(u, withth):
            out = []
            for n_, (c, k, g, w) in enumerate(K):
                gu = jnp.einsum("ai,aj->ij", u[C[c]], g)
                out.append(dd(Cc[c, k], (gu + gu.T) / 2 - (et[c, n_ % nq] if withth else 0)))
            return jnp.stack(out).reshape(len(C), nq, 3, 3)
        ctx.equal(f"layered stress recovery {ns}, plies {t}", lambda u: [L.layered_quad_stress(dN, jnp.asarray(P[C]), u[C], Cq), L.layered_quad_stress(dN, jnp.asarray(P[C]), u[C], Cq, jnp.asarray(et))], lambda u: [str_spec(u, False), str_spec(u, True)], (Sx("u", (nn, 3)),),
                  functions=[LS + "layered_quad_stress"], n_replay=1)

    # identical layers = the ordinary solid
    import feax as fe
    for ns, t in (((1, 1, 1), (1., 2., .5)), ((2, 1, 1), (1., 1.))):
        m = X.mesh("HEX8", ns, distort=0.)
        Cn = stiff(rng)

        class Solid(fe.Problem):
            def get_tensor_map(self):
                return lambda g: dd(jnp.asarray(Cn), (g + g.T) / 2)
        ref = Solid(m, vec=3, dim=3, ele_type="HEX8", gauss_order=3)
        pb, tp = L.create_layered_solid(m, jnp.asarray(Cn), [0.] * len(t), t)
        ctx.equal(f"identical unrotated layers {t} on {ns} = homogeneous solid", lambda u: AS.get_res(pb, [u], tp), lambda u: AS.get_res(ref, [u], TracedParams()), (Sx("u", (len(m.points), 3)),), functions=[LS + "create_layered_solid"], n_replay=1)

    # geometry (node positions) and stiffness as traced parameters
    m = X.mesh("HEX8", (1, 1, 1))
    t = (1., 2.)
    pb, tp = L.create_oriented_layered_solid(m, jnp.asarray(stiff(rng, 1, 2)), t, with_thermal=True, n_inplane=1, n_thick_per_ply=1)
    P, C = np.asarray(m.points), np.asarray(m.cells)
    u0 = jnp.asarray(rng.normal(size=(8, 3)))
    K = kin(P, C, t, 1, 1)


    def Rs(Cq, et):
        R = jnp.zeros((8, 3))
        for n_, (c, k, g, w) in enumerate(K):
            gu = jnp.einsum("ai,aj->ij", u0[C[c]], g)
            s = dd(Cq[c, n_], (gu + gu.T) / 2 - et[c, n_])
            R = R + w * jnp.einsum("ij,aj->ai", s, g)[jnp.asarray(np.argsort(C[c]))]
        return [R]
    ctx.equal("oriented layered solid: every per-point stiffness and eigenstrain entry enters at its point", lambda Cq, et: AS.get_res(pb, [u0], TracedParams(volume_vars=(tp.volume_vars[0], Cq, et))), Rs, (Sx("Cq", (1, 2) + (3,) * 4), Sx("et", (1, 2, 3, 3))), functions=[LS + "OrientedLayeredSolid.get_universal_kernel"], n_replay=1)

    def bad():
        m = X.mesh("HEX8", (1, 1, 1))
        C1 = jnp.asarray(stiff(rng))
        expect_raises(lambda: L.create_layered_solid(m, C1, [0.], [1.], ele_type="TET4"), "element type", NotImplementedError)
        expect_raises(lambda: L.create_layered_solid(m, C1, [0., 1.], [1.]), "length mismatch", ValueError)
        expect_raises(lambda: L.create_layered_solid(m, jnp.stack([C1, C1, C1]), [0., 1.], [1., 1.]), "ply count mismatch", ValueError)
        Cc = C1[None, None]
        expect_raises(lambda: L.create_oriented_layered_solid(m, Cc, [1.], ele_type="TET4"), "element type", NotImplementedError)
        expect_raises(lambda: L.create_oriented_layered_solid(m, Cc, [1., 2.]), "length mismatch", ValueError)
        expect_raises(lambda: L.create_oriented_layered_solid(m, Cc, [1.], with_thermal=True, cte_cell_ply=jnp.zeros((1, 2, 3, 3))), "cte shape", ValueError)
        expect_raises(lambda: L.create_layered_solid_geometric_stiffness(m, jnp.zeros((1, 8, 3, 3)), [1.], ele_type="TET4"), "element type", NotImplementedError)
    ctx.bounded("inconsistent layered input is rejected", bad, functions=[LS + "create_layered_solid", LS + "create_oriented_layered_solid"])


GROUPS = [maps, closures, averaged, quadrature, layered]
