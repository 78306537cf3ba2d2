"""C08: periodic and cyclic reductions tie exactly the paired unknowns."""
import dataclasses
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, solvlib as S
from fv.contract import Sx, expect, expect_close, expect_raises, Skip
from fv.props.c06 import opts

PB = "feax/flat/pbc.py:"
UC = "feax/flat/unitcell.py:"
RD = "feax/solvers/reduced.py:"


def box(ele, ns, lo, L):
    from feax.mesh import Mesh
    p, c = F.make_mesh(ele, ns, L=list(L))
    return Mesh(jnp.asarray(p + np.asarray(lo)), jnp.asarray(c), ele_type=ele)


def cell_of(mesh):
    from feax.flat.unitcell import UnitCell

    class U(UnitCell):
        def mesh_build(self, **k):
            return mesh
    return U()


def shuffled(mesh, seed):
    """same cell, nodes renumbered"""
    from feax.mesh import Mesh
    r = np.random.RandomState(seed)
    p, c = np.asarray(mesh.points), np.asarray(mesh.cells)
    perm = r.permutation(len(p))          # new -> old
    inv = np.argsort(perm)
    return Mesh(jnp.asarray(p[perm]), jnp.asarray(inv[c]), ele_type=mesh.ele_type)


def wrap(points, lo, L):
    """representative position of a node: coordinates on the upper side move to the lower side"""
    q = np.array(points, float)
    for a in range(q.shape[1]):
        up = np.abs(q[:, a] - (lo[a] + L[a])) < 1e-7
        q[up, a] = lo[a]
    return np.round(q, 6)


def classes(points, lo, L):
    q = wrap(points, lo, L)
    rep = {}
    ids = np.empty(len(q), int)
    base = np.round(np.asarray(points, float), 6)
    for i in range(len(q)):
        key = tuple(q[i])
        if key not in rep:
            m = np.where((np.abs(base - q[i]) < 1e-5).all(1))[0]
            rep[key] = int(m[0])
        ids[i] = rep[key]
    return ids


def tie(P, ids, vec, lo=None):
    """contract of P on a reduced vector v: every class takes one value, and the independent unknowns (the class
    representatives) in increasing order are v"""
    reps = np.unique(ids)
    dof = (reps[:, None] * vec + np.arange(vec)).ravel()
    where = np.full(len(ids) * vec, -1)
    where[dof] = np.arange(len(dof))
    full = (ids[:, None] * vec + np.arange(vec)).ravel()
    return where[full], len(dof)


def _perms(P, ids, vec):
    """which reduced unknown carries each class representative (the numbering of reduced unknowns is internal)"""
    reps = np.unique(ids)
    dof = (reps[:, None] * vec + np.arange(vec)).ravel()
    D = np.asarray(P.todense())
    sel = D[dof]
    if D.shape[1] != len(dof):
        return None, f"{D.shape[1]} reduced unknowns, expected {len(dof)}"
    order = np.argmax(sel, axis=1)
    if len(set(order.tolist())) != len(order):
        return None, "two representatives share a reduced unknown"
    return order, ""


def prolongation(ctx, items):
    from feax.flat.pbc import periodic_bc_2D, periodic_bc_3D, prolongation_matrix
    for (ele, ns, lo, L, vec, sh) in items:
        name = f"{ele} {ns} lower corner {lo} size {L} vec {vec}" + (" renumbered" if sh else "")
        d = len(ns)
        m = box(ele, ns, lo, L)
        if sh:
            m = shuffled(m, sh)
        ids = classes(np.asarray(m.points), lo, L)
        nred = len(np.unique(ids)) * vec

        def build():
            cell = cell_of(m)
            pairs = (periodic_bc_2D if d == 2 else periodic_bc_3D)(cell, vec=vec)
            return prolongation_matrix(pairs, m, vec)

        def fn(v):
            with jax.ensure_compile_time_eval():
                P = build()
                order, why = _perms(P, ids, vec)
            if order is None:
                return jnp.full(len(ids) * vec, jnp.nan)
            return P @ jnp.zeros(nred).at[order].set(v)

        def spec(v):
            w, _ = tie(None, ids, vec)
            return v[w]
        ctx.equal(f"every slave equals its master, every independent unknown appears once: {name}", fn, spec, (Sx("v", (nred,)),),
                  functions=[PB + "prolongation_matrix", PB + ("periodic_bc_2D" if d == 2 else "periodic_bc_3D"), UC + "UnitCell.face_function",
                             UC + "UnitCell.edge_function", UC + "UnitCell.corner_function", UC + "UnitCell.mapping"], n_replay=1)


def prolong_2d(ctx):
    it = [("QUAD4", (2, 3), (0., 0.), (1., 1.), 2, 0), ("QUAD4", (4, 4), (0., .01), (.008, .01), 1, 1), ("TRI3", (2, 2), (-300., 50.), (600., 400.), 1, 0), ("QUAD4", (3, 2), (-.5, 2.), (1.5, .5), 1, 3), ("TRI3", (2, 2), (1., 1.), (2., 1.), 2, 0),
          ("TRI6", (2, 2), (0., -1.), (1., 3.), 2, 5), ("QUAD8", (2, 2), (-1., -1.), (2., 2.), 1, 0), ("QUAD9", (1, 2), (.25, 0.), (1., 1.), 2, 2)]
    if ctx.thorough:
        it += [("QUAD4", (4, 3), (-2., 5.), (4., 7.), 3, k) for k in range(4)] + [("TRI3", (5, 4), (-.1, .3), (1.1, .7), 2, 1)]
    prolongation(ctx, it)


def prolong_3d(ctx):
    it = [("HEX8", (2, 2, 2), (0., 0., 0.), (1., 1., 1.), 1, 0), ("HEX8", (2, 3, 2), (-.5, 1., 2.), (1., 2., .5), 3, 0)]
    if ctx.thorough:
        it += [("HEX8", (3, 2, 2), (-.5, -.5, -.5), (1., 1., 1.), 3, 4), ("TET4", (2, 2, 2), (1., 0., -2.), (2., 1., 1.), 2, 0),
               ("HEX20", (1, 2, 2), (0., -1., .5), (1., 1., 2.), 1, 0)]
    prolongation(ctx, it)


def prolong_3d_b(ctx):
    prolongation(ctx, [("TET4", (2, 2, 2), (.5, 0., -1.), (1., 1., 3.), 2, 3), ("HEX20", (1, 2, 2), (0., -1., .5), (1., 1., 2.), 1, 0)])


def custom_pairings(ctx):
    """pairings given by the user: per-component pairing, chains resolve to one representative, invalid ones are rejected"""
    from feax.flat.pbc import PeriodicPairing, prolongation_matrix
    m = box("QUAD4", (3, 2), (0., 0.), (3., 2.))
    p = np.asarray(m.points)
    at = lambda x, y: int(np.where((np.abs(p - np.array([x, y])) < 1e-9).all(1))[0][0])
    sel = lambda i: (lambda q: jnp.all(jnp.isclose(q, p[i])))
    pair = lambda a, b, c: PeriodicPairing(sel(a), sel(b), lambda q, t=p[b] - p[a]: q + t, c)
    A, B, C, D = at(0, 0), at(3, 0), at(3, 2), at(0, 2)

    def check(name, pairs, ties, vec):
        n = len(p) * vec
        par = np.arange(n)
        for s, t in ties:
            par[par == par[s]] = par[t]
        reps = np.unique(par)

        def fn(v):
            with jax.ensure_compile_time_eval():
                P = prolongation_matrix(pairs, m, vec)
                Dn = np.asarray(P.todense())
                if Dn.shape != (n, len(reps)):
                    raise Skip("shape")
                order = np.argmax(Dn[reps], axis=1)
            return P @ jnp.zeros(len(reps)).at[order].set(v)
        w = np.searchsorted(reps, par)
        ctx.equal(f"user pairings: {name}", fn, lambda v: v[w], (Sx("v", (len(reps),)),), functions=[PB + "prolongation_matrix"], n_replay=1)
    check("one component only", [pair(A, B, 1)], [(B * 2 + 1, A * 2 + 1)], 2)
    check("different components to different masters", [pair(A, B, 0), pair(D, B, 1)], [(B * 2, A * 2), (B * 2 + 1, D * 2 + 1)], 2)
    check("chain of two", [pair(A, B, 0), pair(B, C, 0)], [(B, A), (C, A)], 1)
    check("chain of two, reversed order", [pair(B, C, 0), pair(A, B, 0)], [(C, B), (B, A)], 1)
    check("chain of three", [pair(A, B, 1), pair(B, C, 1), pair(C, D, 1)], [(B * 2 + 1, A * 2 + 1), (C * 2 + 1, A * 2 + 1), (D * 2 + 1, A * 2 + 1)], 2)
    ctx.bounded("an unknown with two masters is rejected", lambda: expect_raises(
        lambda: prolongation_matrix([pair(A, C, 0), pair(B, C, 0)], m, 1), "two masters", ValueError), functions=[PB + "prolongation_matrix"])
    ctx.bounded("a master whose image is no slave node is rejected", lambda: expect_raises(
        lambda: prolongation_matrix([PeriodicPairing(lambda q: q[0] < .1, lambda q: q[0] > 2.9, lambda q: q + jnp.array([3., .5]), 0)], m, 1),
        "unmatched", (AssertionError, ValueError)), functions=[PB + "prolongation_matrix"])
    cell = cell_of(m)
    ctx.bounded("mapping between boundaries of different size is rejected", lambda: expect_raises(
        lambda: cell.mapping(cell.face_function(0, 0.0), cell.face_function(1, 0.0)), "sizes", ValueError), functions=[UC + "UnitCell.mapping"])


def cyclic(ctx):
    from feax.flat.pbc import cyclic_prolongation_matrix
    for k, (ang, ns, vec) in enumerate([(np.pi / 3, (2, 2, 1), 3), (np.pi / 2, (1, 3, 2), 3), (np.pi / 5, (3, 2), 2), (-np.pi / 4, (2, 2), 2)]):
        d = len(ns)
        r0, r1 = .5, 1.5
        pts, cells = F.make_mesh("QUAD4" if d == 2 else "HEX8", ns)
        rad, th = r0 + (r1 - r0) * pts[:, 0], ang * pts[:, 1]
        q = np.stack([rad * np.cos(th), rad * np.sin(th)] + ([pts[:, 2]] if d == 3 else []), 1)
        perm = np.random.RandomState(k).permutation(len(q))
        q, lo, hi = q[perm], (pts[:, 1] < 1e-9)[perm], (pts[:, 1] > 1 - 1e-9)[perm]
        from feax.mesh import Mesh
        mesh = Mesh(jnp.asarray(q), jnp.asarray(np.argsort(perm)[cells]), ele_type="QUAD4" if d == 2 else "HEX8")
        R = np.eye(d)
        R[:2, :2] = [[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]]
        # the coupling of the unknowns is the given matrix, whatever it is (not only the geometric rotation)
        G = R if k % 2 == 0 else np.random.RandomState(9).uniform(-1, 1, (vec, vec))
        Rj = jnp.asarray(R)
        angle = lambda x: jnp.arctan2(x[1], x[0])
        isl = lambda x: jnp.abs(angle(x)) < 1e-6
        ish = lambda x, a=ang: jnp.abs(angle(x) - a) < 1e-6
        master = {}
        for i in np.where(lo)[0]:
            j = int(np.argmin(np.linalg.norm(q - R @ q[i], axis=1)))
            master[j] = int(i)
        indep = [i for i in range(len(q)) if i not in master]
        pos = {i: r for r, i in enumerate(indep)}
        nred = len(indep) * vec

        def fn(v):
            with jax.ensure_compile_time_eval():
                P = cyclic_prolongation_matrix(mesh, vec, isl, ish2, G, lambda x: np.asarray(R) @ np.asarray(x))
                Dn = np.asarray(P.todense())
                dof = (np.array(indep)[:, None] * vec + np.arange(vec)).ravel()
                if Dn.shape[1] != nred:
                    raise Skip("shape")
                order = np.argmax(Dn[dof], axis=1)
            return P @ jnp.zeros(nred).at[order].set(v)

        def ish2(x):
            return jnp.abs(angle(x) - ang) < 1e-6

        def spec(v):
            u = v.reshape(-1, vec)
            out = []
            for i in range(len(q)):
                out.append(u[pos[i]] if i not in master else jnp.asarray(G) @ u[pos[master[i]]])
            return jnp.stack(out).ravel()
        ctx.equal(f"cyclic prolongation: slave = matrix x master (sector {ang:.3f}, {ns}, {'rotation' if G is R else 'general matrix'})", fn, spec,
                  (Sx("v", (nred,)),), functions=[PB + "cyclic_prolongation_matrix"], n_replay=1)
    ctx.bounded("cyclic: matrix of the wrong size is rejected", lambda: expect_raises(
        lambda: cyclic_prolongation_matrix(mesh, 2, isl, ish2, np.eye(3), lambda x: x), "size", ValueError), functions=[PB + "cyclic_prolongation_matrix"])
    ctx.bounded("cyclic: unmatched master is rejected", lambda: expect_raises(
        lambda: cyclic_prolongation_matrix(mesh, 2, isl, ish2, np.eye(2), lambda x: np.asarray(x) + .3), "unmatched", (AssertionError, ValueError)),
        functions=[PB + "cyclic_prolongation_matrix"])


def predicates(ctx):
    """corner / edge / face membership of an arbitrary point of an arbitrary box"""
    for d in (2, 3):
        base = cell_of(box("QUAD4" if d == 2 else "HEX8", (1,) * d, (0.,) * d, (1.,) * d))
        tol = base.atol

        def near(a, b):
            return jnp.abs(a - b) <= tol + 1e-5 * jnp.abs(b)

        def cell(lb, ub):
            c = cell_of(base.mesh)
            c.lb, c.ub = lb, ub
            return c

        def hit(x, lb, ub):
            return [jnp.logical_or(near(x[i], lb[i]), near(x[i], ub[i])) for i in range(d)]

        def exactly(h, k):
            """exactly k of the d coordinates lie on the box boundary"""
            out = jnp.asarray(False)
            for on in itertools.combinations(range(d), k):
                t = jnp.asarray(True)
                for i in range(d):
                    t = t & (h[i] if i in on else ~h[i])
                out = out | t
            return out
        b = lambda t: jnp.where(t, 1.0, 0.0)

        def snap(args):
            x, lb, ub, v = [np.array(a) for a in args]
            r = np.random.RandomState(int(abs(x[0]) * 1e6) % 99999)
            for i in range(d):
                t = r.randint(4)
                x[i] = (lb[i], ub[i], x[i], v[0])[t]
            return x, lb, ub, v
        args = (Sx("x", (d,), -2, 2), Sx("lb", (d,), -2, -1), Sx("ub", (d,), 1, 2), Sx("val", (d,), -2, 2))
        ctx.equal(f"corner/edge/face classification {d}-D", lambda x, lb, ub, v: [b(cell(lb, ub).is_corner(x)), b(cell(lb, ub).is_edge(x)), b(cell(lb, ub).is_face(x))],
                  lambda x, lb, ub, v: [b(exactly(hit(x, lb, ub), d - j)) for j in range(3)],
                  args, functions=[UC + "UnitCell.is_corner", UC + "UnitCell.is_edge", UC + "UnitCell.is_face"], constraint=snap, n_replay=20)
        for ax in range(d):
            for (ee, ec) in itertools.product((False, True), repeat=2):
                def fn(x, lb, ub, v, ax=ax, ee=ee, ec=ec):
                    return b(cell(lb, ub).face_function(ax, v[0], excluding_edge=ee, excluding_corner=ec)(x))

                def spec(x, lb, ub, v, ax=ax, ee=ee, ec=ec):
                    h, t = hit(x, lb, ub), near(x[ax], v[0])
                    if ee or ec:
                        t = t & ~exactly(h, d)
                    if ee:
                        t = t & ~exactly(h, d - 1)
                    return b(t)
                ctx.equal(f"face selection {d}-D axis {ax} excluding edge={ee} corner={ec}", fn, spec, args,
                          functions=[UC + "UnitCell.face_function"], constraint=snap, n_replay=20)
        for ec in (False, True):
            axes = [0, d - 1]
            ctx.equal(f"edge selection {d}-D excluding corner={ec}", lambda x, lb, ub, v, ec=ec: b(cell(lb, ub).edge_function(axes, [v[0], ub[d - 1]], excluding_corner=ec)(x)),
                      lambda x, lb, ub, v, ec=ec: b(near(x[0], v[0]) & near(x[d - 1], ub[d - 1]) & (~exactly(hit(x, lb, ub), d) if ec else True)),
                      args, functions=[UC + "UnitCell.edge_function"], constraint=snap, n_replay=20)
        ctx.equal(f"corner selection {d}-D", lambda x, lb, ub, v: b(cell(lb, ub).corner_function(v)(x)),
                  lambda x, lb, ub, v: jnp.prod(jnp.stack([jnp.where(near(x[i], v[i]), 1.0, 0.0) for i in range(d)])),
                  args, functions=[UC + "UnitCell.corner_function"], constraint=snap, n_replay=20)


# ------------------------------------------------------------------ the reduced solve
class RCase:
    """a small affine problem on a box with a periodic reduction. `pins`: 'interior' | 'class' | 'none'"""

    def __init__(self, ele, ns, vec, pins="interior", mass=0.3, lo=None, L=None, cyc=False):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        from feax.flat.pbc import periodic_bc_2D, periodic_bc_3D, prolongation_matrix
        d = len(ns)
        lo, L = lo or (0.,) * d, L or (1.,) * d
        m = box(ele, ns, lo, L)
        A = np.random.RandomState(3).uniform(-.3, .3, size=(vec * d, vec * d)) + np.eye(vec * d)
        A = jnp.asarray(A + A.T)
        maps = {"get_tensor_map": lambda g, k, f: k * (A @ g.ravel()).reshape(vec, d), "get_mass_map": lambda u, x, k, f: mass * u + f * (x[0] + .2)}
        self.p = X.make_problem(m, vec, d, ele, maps)
        cell = cell_of(m)
        self.P = prolongation_matrix((periodic_bc_2D if d == 2 else periodic_bc_3D)(cell, vec=vec), m, vec)
        pts = np.asarray(m.points)
        ctr = np.asarray(lo) + np.asarray(L) * 0.5
        inner = [i for i in range(len(pts)) if not np.any(np.isclose(pts[i], lo) | np.isclose(pts[i], np.asarray(lo) + L))]
        pin = pts[inner[0]] if inner else None
        lo_, up_ = np.asarray(lo), np.asarray(lo) + np.asarray(L)
        if pins == "interior":
            specs = [DirichletBCSpec(lambda q: jnp.all(jnp.isclose(q, jnp.asarray(pin))), c, 0.2) for c in range(vec)]
        elif pins == "class":
            specs = [DirichletBCSpec(lambda q: jnp.isclose(q[0], lo_[0]) | jnp.isclose(q[0], up_[0]), 0, 0.3)]
        else:
            specs = []
        self.bc = DirichletBCConfig(specs).create_bc(self.p)
        self.n, self.nc, self.m, self.vec = self.p.num_total_dofs_all_vars, self.p.num_cells, m, vec
        self.nred = self.P.shape[1]
        self.D = np.asarray(self.P.todense())
        self.rows = np.asarray(self.bc.bc_rows).astype(int)
        self.free = np.ones(self.n)
        self.free[self.rows] = 0
        cols = np.unique(np.argmax(self.D[self.rows], axis=1)) if len(self.rows) else np.zeros(0, int)
        self.bcols = cols
        self.pins = pins
        self.cls = np.argmax(self.D[self.rows], axis=1) if len(self.rows) else np.zeros(0, int)

    def tp(self, k, f):
        from feax.traced_params import TracedParams
        return TracedParams(volume_vars=(k, f))

    def bulk(self, u, tp):
        from feax.assembler import get_res
        import jax.flatten_util
        return jax.flatten_util.ravel_pytree(get_res(self.p, self.p.unflatten_fn_sol_list(u), tp))[0]

    def G(self, u, tp, vals):
        """admissible variations' residual and the prescribed values (one equation per reduced unknown)"""
        D = jnp.asarray(self.D)
        r = D.T @ self.bulk(u, tp)
        if len(self.rows):
            w = jnp.zeros(self.n).at[self.rows].set(u[self.rows] - vals)
            mask = np.zeros(self.nred)
            mask[self.bcols] = 1
            r = r * (1 - mask) + mask * (D.T @ w)
        return r

    def vals(self, w):
        """prescribed values: one per class"""
        if not len(self.rows):
            return jnp.zeros(0)
        return w[np.searchsorted(self.bcols, self.cls)]

    def guess(self, ig, g):
        """guesses: arbitrary full vector for isolated pins, periodic on constrained classes otherwise"""
        if self.pins != "class":
            return ig
        D = jnp.asarray(self.D)
        return ig * self.free * (1 - np.isin(np.argmax(self.D, 1), self.bcols)) + (1 - self.free) * (D @ g)

    def solve_ref(self, tp, vals, ig):
        D = jnp.asarray(self.D)
        h = lambda y: self.G(ig + D @ y, tp, vals)
        z = jnp.zeros(self.nred)
        J = jax.jacfwd(h)(z)
        return ig + D @ jnp.linalg.solve(J, -h(z))


class CCase(RCase):
    """sector of a ring tied by a rotation; the inner arc (whole classes, all components) is prescribed"""

    def __init__(self, ang, ns):
        from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
        from feax.flat.pbc import cyclic_prolongation_matrix
        from feax.mesh import Mesh
        pts, cells = F.make_mesh("QUAD4", ns)
        rad, th = 1 + pts[:, 0], ang * pts[:, 1]
        m = Mesh(jnp.asarray(np.stack([rad * np.cos(th), rad * np.sin(th)], 1)), jnp.asarray(cells), ele_type="QUAD4")
        A = np.random.RandomState(3).uniform(-.3, .3, size=(4, 4)) + np.eye(4)
        A = jnp.asarray(A + A.T)
        maps = {"get_tensor_map": lambda g, k, f: k * (A @ g.ravel()).reshape(2, 2), "get_mass_map": lambda u, x, k, f: .3 * u + f * (x[0] + .2)}
        self.p = X.make_problem(m, 2, 2, "QUAD4", maps)
        R = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
        at = lambda a: (lambda x: jnp.abs(jnp.arctan2(x[1], x[0]) - a) < 1e-6)
        self.P = cyclic_prolongation_matrix(m, 2, at(0.), at(ang), R, lambda x: R @ np.asarray(x))
        self.bc = DirichletBCConfig([DirichletBCSpec(lambda q: jnp.abs(jnp.linalg.norm(q) - 1) < 1e-6, "all", 0.0)]).create_bc(self.p)
        self.n, self.nc, self.m, self.vec = self.p.num_total_dofs_all_vars, self.p.num_cells, m, 2
        self.nred, self.D, self.pins = self.P.shape[1], np.asarray(self.P.todense()), "class"
        self.rows = np.asarray(self.bc.bc_rows).astype(int)
        self.bcols = np.where(np.abs(self.D[self.rows]).sum(0) > 0)[0]

    def vals(self, w):
        return jnp.asarray(self.D[self.rows][:, self.bcols]) @ w

    def guess(self, ig, g):
        return jnp.asarray(self.D) @ g


def _reduced(ctx, cases):
    from feax.solvers.reduced import create_reduced_solver
    for (label, mk, kind, adj, use_ts) in cases:
        c = mk()
        ts = X.ts_of(c.p) if use_ts else None
        D = jnp.asarray(c.D)
        nB = max(1, len(c.bcols))
        mask = np.zeros(c.nred)
        mask[c.bcols] = 1
        size = np.maximum((c.D ** 2).T @ (1 - c.free), 1.0)

        def build(be=None):
            return create_reduced_solver(c.p, c.bc, c.P, opts(kind), opts(adj))

        def run(be, tp, vals, ig):
            with S.patched("feax.solvers.reduced", "create_linear_solve_fn", be.factory), \
                    S.patched("feax.solvers.reduced", "create_iterative_solve_fn", be.factory), S.custom_vjp_transparent() as V:
                s = build()
                u = s(tp, ig, bc=dataclasses.replace(c.bc, bc_vals=vals), traced_structure=ts)
                return u, V.last

        def fwd(k, f, w, ig, g, x, lam, v):
            tp, vals, ig = c.tp(k, f), c.vals(w), c.guess(ig, g)
            be = S.Backend("sym")
            be.xs = [x]
            u, _ = run(be, tp, vals, ig)
            if len(be.calls) != 1:
                raise Skip("back end calls")
            A, b, _, _ = be.calls[0]
            hyp = A @ x - b
            out = c.G(u, tp, vals) - hyp
            _, Kb = jax.jvp(lambda s: c.bulk(s, tp), (jnp.zeros(c.n),), (D @ (mask * hyp / size),))
            out = out - (1 - mask) * (D.T @ Kb)
            return out, u - ig - D @ x

        def bwd(k, f, w, ig, g, x, lam, v):
            tp, vals, ig = c.tp(k, f), c.vals(w), c.guess(ig, g)
            be = S.Backend("sym")
            be.xs = [x, x, lam]
            _, vj = run(be, tp, vals, ig)
            sol, res = vj.fwd(*vj.args)
            ct = vj.bwd(res, v)
            if len(be.calls) != 3:
                raise Skip("back end calls")
            A, b, _, _ = be.calls[2]
            hyp = A @ lam - b
            z = jnp.zeros(c.nred)
            lamF = (1 - mask) * lam
            Kt = jax.vjp(lambda s: c.bulk(s, tp), jnp.zeros(c.n))[1](D @ lamF)[0]
            ls = lamF + mask * (D.T @ v - D.T @ Kt) / size
            Jt = jax.vjp(lambda y: c.G(ig + D @ y, tp, vals), z)[1](ls)[0]
            lemma = Jt - D.T @ v - (1 - mask) * hyp
            _, fv = jax.vjp(lambda tp_, w_: c.G(sol, tp_, c.vals(w_)), tp, w)
            eiv, ew = fv(-ls)
            dw = jax.vjp(c.vals, w)[1](ct[2].bc_vals)[0] if len(c.rows) else jnp.zeros(nB)
            # under the hypothesis only: mask*hyp enters the class value, removed here
            corr = jax.vjp(lambda w_: c.G(sol, tp, c.vals(w_)), w)[1](-(mask * hyp / size))[0]
            d = [a - b_ for a, b_ in zip(jax.tree_util.tree_leaves(ct[0]), jax.tree_util.tree_leaves(eiv))]
            return lemma, d, dw - ew - corr

        def zf(k, f, w, ig, g, x, lam, v):
            return jnp.zeros(c.nred), jnp.zeros(c.n)

        def zb(k, f, w, *a):
            return jnp.zeros(c.nred), [jnp.zeros_like(k), jnp.zeros_like(f)], jnp.zeros_like(w)

        def real(k, f, w, ig, g, *a):
            return build()(c.tp(k, f), c.guess(ig, g), bc=dataclasses.replace(c.bc, bc_vals=c.vals(w)), traced_structure=ts)

        def real_g(*a):
            return jax.grad(lambda k, f, w: a[7] @ real(k, f, w, *a[3:]), argnums=(0, 1, 2))(*a[:3])

        spec = lambda k, f, w, ig, g, *a: c.solve_ref(c.tp(k, f), c.vals(w), c.guess(ig, g))
        spec_g = lambda *a: jax.grad(lambda k, f, w: a[7] @ spec(k, f, w, *a[3:]), argnums=(0, 1, 2))(*a[:3])
        args = (Sx("k", (c.nc,), .5, 2.), Sx("f", (c.p.fes[0].num_total_nodes,)), Sx("w", (nB,)), Sx("ig", (c.n,)), Sx("g", (c.nred,)),
                Sx("x", (c.nred,)), Sx("lam", (c.nred,)), Sx("v", (c.n,)))
        tag = f"{label} {kind}/{adj} ts={use_ts}"
        fns = [RD + "create_reduced_solver", RD + "_create_assembled_reduced_solver", RD + "_reduced_rhs", "feax/asd.py:operator_assembler",
               "feax/asd.py:reduced_operator_pattern"]
        ctx.equal(f"reduced solve {tag}: A x = b implies pairing kept, equilibrium against admissible variations, values held", fwd, zf, args,
                  functions=fns, replay=(lambda *a: (real(*a), 0.0), lambda *a: (spec(*a), 0.0)), tol=1e-6, n_replay=1)
        ctx.equal(f"reduced adjoint {tag}: A l = v implies the exact cotangents", bwd, zb, args, functions=fns + [RD + "_reduced_bc_adjoint"],
                  replay=(real_g, spec_g), tol=1e-6, n_replay=1)


def reduced_krylov(ctx):
    _reduced(ctx, [("QUAD4 2x2 interior pin", lambda: RCase("QUAD4", (2, 2), 1), "cg", "cg", False),
                   ("TRI3 2x2 vec2 interior pin", lambda: RCase("TRI3", (2, 2), 2, lo=(-1., .5), L=(2., 1.)), "cg", "cg", True),
                   ("QUAD4 3x2 constrained class", lambda: RCase("QUAD4", (3, 2), 1, pins="class"), "cg", "cg", False)])


def reduced_direct(ctx):
    _reduced(ctx, [("QUAD4 2x2 interior pin", lambda: RCase("QUAD4", (2, 2), 1), "spsolve", "spsolve", False),
                   ("TRI3 2x2 vec2 no pin", lambda: RCase("TRI3", (2, 2), 2, pins="none"), "cholmod", "umfpack", True),
                   ("QUAD4 3x2 constrained class", lambda: RCase("QUAD4", (3, 2), 1, pins="class"), "umfpack", "cg", False),
                   ("QUAD4 2x2 mixed", lambda: RCase("QUAD4", (2, 2), 1), "cg", "spsolve", False)])


def reduced_real(ctx):
    """the whole path with real back ends (concrete): solution, gradients, default guess, batching, public entry"""
    import feax as fe
    rng = ctx.rng("reduced")
    cases = [("2-D", RCase("QUAD4", (3, 3), 2, lo=(-1., 2.), L=(2., 1.)), ["cg", "spsolve", "umfpack", "amg"]),
             ("3-D", RCase("HEX8", (2, 2, 2), 1, lo=(.5, 0., 0.), L=(1., 2., 1.)), ["cg", "cholmod"]),
             ("class", RCase("TRI3", (3, 3), 1, pins="class"), ["cg", "umfpack"]),
             ("cyclic sector", CCase(np.pi / 3, (2, 3)), ["cg", "spsolve"]), ("cyclic sector", CCase(-2.2, (1, 4)), ["umfpack"])]
    for (nm, c, kinds) in cases:
        for kind in kinds:
            o = fe.AMGSolverOptions(tol=1e-12) if kind == "amg" else opts(kind)
            k, f = rng.uniform(.5, 2, c.nc), rng.uniform(-1, 1, c.p.fes[0].num_total_nodes)
            w, ig, g = rng.uniform(-1, 1, max(1, len(c.bcols))), rng.uniform(-1, 1, c.n), rng.uniform(-1, 1, c.nred)
            v = rng.uniform(-1, 1, c.n)
            k, f, w, ig, g, v = map(jnp.asarray, (k, f, w, ig, g, v))

            def body(kind=kind, o=o, c=c, args=(k, f, w, ig, g, v)):
                k, f, w, ig, g, v = args
                s = fe.create_solver(c.p, c.bc, o, P=c.P, linear=True, return_solution=False)
                gu = c.guess(ig, g)

                def sol(k, f, w):
                    return s(c.tp(k, f), gu, bc=dataclasses.replace(c.bc, bc_vals=c.vals(w)))
                ref = lambda k, f, w: c.solve_ref(c.tp(k, f), c.vals(w), gu)
                expect_close(sol(k, f, w), ref(k, f, w), "solution", rtol=1e-6, atol=1e-7)
                for a, b in zip(jax.grad(lambda *q: v @ sol(*q), argnums=(0, 1, 2))(k, f, w), jax.grad(lambda *q: v @ ref(*q), argnums=(0, 1, 2))(k, f, w)):
                    expect_close(a, b, "gradient", rtol=1e-5, atol=1e-6)
                d = s(c.tp(k, f))
                z = jnp.zeros(c.n).at[c.rows].set(c.bc.bc_vals)
                expect_close(d, c.solve_ref(c.tp(k, f), c.bc.bc_vals, z), "default guess and default values", rtol=1e-6, atol=1e-7)
                if kind == "cg":
                    kb = jnp.stack([k, 2 * k, k[::-1]])
                    ub = jax.jit(jax.vmap(lambda kk: sol(kk, f, w)))(kb)
                    expect_close(ub, jnp.stack([ref(kk, f, w) for kk in kb]), "batched and jitted", rtol=1e-6, atol=1e-7)
            ctx.bounded(f"reduced solve {nm} with {kind}: solution, gradients, default guess", body,
                        functions=[RD + "create_reduced_solver", RD + "_make_reduced_side_solve", "feax/solver.py:create_solver", RD + "_reduced_amg_options"], bound="1 random coefficient/guess sample")


def rejection(ctx):
    import feax as fe
    from feax.DCboundary import DirichletBCConfig, DirichletBCSpec
    c = RCase("QUAD4", (3, 3), 2)
    c3 = RCase("HEX8", (2, 2, 2), 1)

    def mk(cc, loc, comp, kind):
        bc = DirichletBCConfig([DirichletBCSpec(loc, comp, 0.0)]).create_bc(cc.p)
        return fe.create_solver(cc.p, bc, opts(kind), P=cc.P, linear=True)
    near = lambda *x: (lambda q: jnp.all(jnp.isclose(q, jnp.asarray(x))))
    for kind in ("cg", "spsolve"):
        for nm, cc, loc in [("one corner", c, near(0., 0.)), ("slave corner", c, near(1., 1.)), ("one edge node", c, near(0., 1 / 3)),
                            ("slave edge node", c, near(1., 1 / 3)), ("one face", c, lambda q: jnp.isclose(q[0], 0.)),
                            ("two of four corners", c, lambda q: near(0., 0.)(q) | near(1., 0.)(q)), ("three of four corners", c, lambda q: near(0., 1.)(q) | near(1., 0.)(q) | near(1., 1.)(q)),
                            ("three of four 3-D edges", c3, lambda q: jnp.isclose(q[0], .5) & (near(.5, 0., 1.)(q) | near(.5, 1., 1.)(q) | near(.5, 0., 0.)(q))),
                            ("seven of eight 3-D corners", c3, lambda q: jnp.all(jnp.isclose(q, 0.) | jnp.isclose(q, 1.)) & ~near(0., 0., 1.)(q)),
                            ("3-D face node", c3, near(0., .5, .5)), ("3-D edge node", c3, near(1., .5, 1.)), ("3-D one face", c3, lambda q: jnp.isclose(q[2], 1.))]:
            ctx.bounded(f"prescribed values on part of a periodic class are rejected: {nm} ({kind})", lambda cc=cc, loc=loc, kind=kind: expect_raises(
                lambda: mk(cc, loc, 0, kind), "partial class", ValueError), functions=[RD + "_validate_bc_pairing"])
        for nm, cc, loc in [("interior", c, near(1 / 3, 2 / 3)), ("both faces", c, lambda q: jnp.isclose(q[1], 0.) | jnp.isclose(q[1], 1.)),
                            ("all corners", c, lambda q: jnp.all(jnp.isclose(q, 0.) | jnp.isclose(q, 1.)))]:
            ctx.bounded(f"whole classes and unpaired nodes are accepted: {nm} ({kind})", lambda cc=cc, loc=loc, kind=kind: mk(cc, loc, 1, kind) and None,
                        functions=[RD + "_validate_bc_pairing"])


GROUPS = [prolong_2d, prolong_3d, prolong_3d_b, custom_pairings, cyclic, predicates, reduced_krylov, reduced_direct, reduced_real, rejection]
