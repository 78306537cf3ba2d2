"""C21: implicit geometry (density fields as signed fields, set algebra, surface extraction), lattice densities, unit-cell
point classes and maps, directional stiffness."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import types
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symint as S, symnp, uf
from fv.contract import Sx, expect, expect_close, expect_raises, Skip
from fv.solvlib import patched

D = "feax/gene/sdf.py:"
G = "feax/flat/graph.py:"
U = "feax/flat/unitcell.py:"
T = "feax/flat/utils.py:"


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


# ------------------------------------------------------------------ host versions of jax.vmap / jnp used by the flat modules
class HostJax:
    """vmap as its defining loop"""

    @staticmethod
    def vmap(f, *a, **k):
        if a or k:
            raise Skip("vmap axes")

        def g(*xs):
            rows = [f(*r) for r in zip(*xs)]
            return symnp.arr([r if isinstance(r, (list, tuple, np.ndarray)) else r for r in rows])
        return g

    @staticmethod
    def jit(f, *a, **k):
        return f

    def __getattr__(self, k):
        return getattr(jax, k)


class Vec:
    """vector of an arbitrary inner-product space: linear combination of named vectors; inner products are Gram symbols"""

    _fv_vector = True

    def __init__(self, c):
        self.c = c

    def _lin(s, o, f):
        if not isinstance(o, Vec):
            return NotImplemented
        return Vec({k: f(s.c.get(k, 0), o.c.get(k, 0)) for k in {**s.c, **o.c}})

    def __add__(s, o): return s._lin(o, lambda a, b: a + b)
    def __sub__(s, o): return s._lin(o, lambda a, b: a - b)
    def __neg__(s): return Vec({k: -v for k, v in s.c.items()})
    def __mul__(s, o): return NotImplemented if isinstance(o, Vec) else Vec({k: o * v for k, v in s.c.items()})
    __rmul__ = __mul__
    def __truediv__(s, o): return Vec({k: v / o for k, v in s.c.items()})

    @property
    def T(self):
        return self


def gram(mk, cache):
    def g(a, b):
        k = tuple(sorted((a, b)))
        if k not in cache:
            cache[k] = mk("G_" + "_".join(k), real=True)
        return cache[k]
    return g


class GeoNp(symnp.SymNp):
    """jnp shim with inner products of Vec"""

    def __init__(self, dot, sqrt):
        super().__init__(True)
        self._dot, self._sqrt = dot, sqrt
        outer = self

        class L:
            def norm(self, v, *a, **k):
                if not isinstance(v, Vec):
                    raise Skip("norm of a non-vector")
                return outer._sqrt(outer._dot(v, v))

            def __getattr__(self, k):
                raise Skip(f"linalg.{k}")
        self.linalg = L()

    def dot(self, a, b):
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self._dot(a, b)
        raise Skip("dot of non-vectors")

    vdot = inner = dot

    def any(self, a, *r, **k):
        out = S.B(z3.BoolVal(False))
        for x in np.asarray(a, dtype=object).ravel():
            out = out | x
        return out

    def all(self, a, *r, **k):
        out = S.B(z3.BoolVal(True))
        for x in np.asarray(a, dtype=object).ravel():
            out = out & x
        return out

    def logical_and(self, a, b):
        return S.B(z3.And(S.bx(a), S.bx(b)))

    def logical_or(self, a, b):
        return S.B(z3.Or(S.bx(a), S.bx(b)))

    def logical_not(self, a):
        return S.B(z3.Not(S.bx(a)))

    def sqrt(self, a):
        return self._sqrt(a)


def seg_dist(x, a, b):
    v = b - a
    t = np.clip(np.dot(x - a, v) / max(np.dot(v, v), 1e-300), 0, 1)
    return np.linalg.norm(x - a - t * v)


# ------------------------------------------------------------------ lattices
def lattice(ctx):
    import feax.flat.graph as g

    def symbolic(run):
        """run(mk, x, node vectors, shim, gram dot) with the module's jax.numpy and jax replaced by their meaning on Vec"""
        def go(mk):
            S._State.cur.total = 1
            cache = {}
            gm = gram(mk, cache)

            def dot(a, b):
                out = 0
                for (i, ci), (j, cj) in itertools.product(a.c.items(), b.c.items()):
                    out = out + ci * cj * gm(i, j)
                return out

            def sqrt(e):
                r = mk(f"sqrt{next(cnt)}", real=True)
                mk("", pre=S.B(z3.And(r.e >= 0, r.e * r.e == S.real(S.ix(e)))))
                return r
            cnt = itertools.count()
            shim = GeoNp(dot, sqrt)
            saved = {k: getattr(g, k) for k in ("np", "jax") if hasattr(g, k)}
            if len(saved) < 2:
                raise Skip("module layout")
            try:
                g.np, g.jax = shim, HostJax()
                return run(mk, dot)
            finally:
                for k, v in saved.items():
                    setattr(g, k, v)
        return go

    def inside(mk, dot, x, a, b, r):
        """(some point of segment ab is within r of x, for some of the candidates 0, 1, foot) and the general member p(s)"""
        v, w = b - a, x - a
        vv, wv, ww = (S.real(S.ix(q)) for q in (dot(v, v), dot(w, v), dot(w, w)))
        r = S.ix(r)
        mk("", pre=S.B(z3.And(vv >= 0, ww >= 0, ww - 2 * wv + vv >= 0, z3.Implies(vv == 0, wv == 0))))  # inner-product axioms
        foot = z3.Real(f"foot_{id(a)}_{id(b)}")
        mk("", pre=S.B(foot * vv == wv))
        q = lambda s: ww - 2 * s * wv + s * s * vv
        cand = z3.Or(q(z3.RealVal(0)) <= r * r, q(z3.RealVal(1)) <= r * r, z3.And(foot >= 0, foot <= 1, q(foot) <= r * r))
        s = z3.Real(f"s_{id(a)}_{id(b)}")
        member = z3.And(s >= 0, s <= 1, q(s) <= r * r)
        return cand, member

    class Nodes(list):
        shape = property(lambda s: (len(s), "d"))

        def __getitem__(s, i):
            return list.__getitem__(s, int(i))

    def nodes_of(n):
        return Nodes(Vec({f"p{i}": 1}) for i in range(n))

    def sweep_points(rng, d, nodes, r):
        e = rng.randint(0, len(nodes), 2)
        return nodes[e[0]] + rng.uniform(-.2, 1.2) * (nodes[e[1]] - nodes[e[0]]) + rng.normal(size=d) * r * rng.uniform(0, 1.5)

    def rep_edges(_m=None):
        n = 0
        for k in range(40):
            rng = np.random.RandomState(k)
            d, m = rng.choice([2, 3]), rng.randint(1, 6)
            nodes, r = rng.uniform(-1, 2, (m, d)), rng.choice([0.05, .2, .7])
            edges = rng.randint(0, m, (rng.randint(0, 7), 2))
            fs = [g.create_lattice_function(jnp.array(nodes), jnp.array(edges), r)]
            A = np.zeros((m, m))
            for i, j in edges:
                A[i, j] = A[j, i] = rng.choice([1., 1., .3, -1., 1e-3, 40.])
            proper = edges[edges[:, 0] != edges[:, 1]] if len(edges) else edges
            fa = g.create_lattice_function_from_adjmat(jnp.array(nodes), jnp.array(A), r)
            for _ in range(12):
                x = sweep_points(rng, d, nodes, r)
                for f, es in ((fs[0], edges), (fa, proper)):
                    ds = [seg_dist(x, nodes[i], nodes[j]) for i, j in es]
                    if ds and min(abs(q - r) for q in ds) < 1e-9:
                        continue
                    expect(float(f(jnp.array(x))) == (1.0 if ds and min(ds) <= r else 0.0), "lattice function is 1 exactly within the radius of an edge",
                           x=x, nodes=nodes, edges=es, radius=r)
                    n += 1
        # exactly representable geometry: the boundary of the tube belongs to it
        for sc in (1., 4., .25):
            nodes, E = sc * np.array([[0., 0.], [4., 0.], [4., 8.]]), np.array([[0, 1], [1, 2]])
            A = np.array([[0., 1, 0], [1, 0, 1], [0, 1, 0]])
            for r in (.5, 1., 0.):
                for f in (g.create_lattice_function(jnp.array(nodes), jnp.array(E), sc * r), g.create_lattice_function_from_adjmat(jnp.array(nodes), jnp.array(A), sc * r)):
                    for x, inn in (([2., r], 1), ([2., -r], 1), ([1., r + .125], 0), ([4 + r, 4.], 1), ([4 - r, 2.], 1), ([4 + r + .125, 4.], 0), ([-r, 0.], 1), ([-r - .125, 0.], 0), ([4., 8. + r], 1), ([4., 8.125 + r], 0)):
                        expect(float(f(sc * jnp.array(x))) == inn, "points exactly at the radius belong to the lattice", x=x, radius=r, scale=sc)
                        n += 1
        expect_raises(lambda: g.universal_graph(jnp.zeros(2), jnp.zeros((2, 2)), jnp.zeros((1, 2), int), -1.), "negative radius", ValueError)
        expect_raises(lambda: g.universal_graph_from_adjmat(jnp.zeros(2), jnp.zeros((2, 2)), jnp.ones((2, 2)), -1.), "negative radius", ValueError)
        return n

    for name, n, edges in [("one strut", 2, [(0, 1)]), ("reversed strut", 2, [(1, 0)]), ("degenerate strut", 1, [(0, 0)])]:
        def run(mk, dot, n=n, edges=edges):
            x, P = Vec({"x": 1}), nodes_of(n)
            r = mk("r", lo=0, real=True)
            cm = [inside(mk, dot, x, P[i], P[j], r) for i, j in edges]
            v = g.create_lattice_function(P, np.array(edges), r)(x)
            return S.ix(v), cm
        post = lambda v: [z3.Or(v[0] == 1, v[0] == 0), z3.Implies(v[0] == 1, z3.Or(*[c for c, _ in v[1]]))] + [z3.Implies(m, v[0] == 1) for _, m in v[1]]
        ctx.valid(f"lattice function ({name}), every dimension, node position, radius and point: 1 iff some point of a strut is within the radius",
                  lambda run=run: S.prove(symbolic(run), post), functions=[G + "universal_graph", G + "_segment_distance", G + "create_lattice_function"], replay=rep_edges, private=False)

    def run0(mk, dot):
        x, P = Vec({"x": 1}), nodes_of(2)
        r = mk("r", lo=0, real=True)
        c, m = inside(mk, dot, x, P[0], P[1], r)
        d = S.ix(g._segment_distance(x, P[0], P[1]))
        return [d >= 0, z3.Implies(d <= r.e, c), z3.Implies(m, d <= r.e)]
    ctx.valid("segment distance: nonnegative, at most r iff some point of the segment is within r, every dimension and r", lambda: S.prove(symbolic(run0), lambda v: v), functions=[G + "_segment_distance"], replay=lambda m: rep_edges())

    # callers against the contract of the distance: an arbitrary nonnegative number per node pair
    def by_contract(build):
        def run(mk, dot):
            memo = {}

            def dist(x, a, b, *r, **k):
                key = []
                for q in (x, a, b):
                    if not isinstance(q, Vec) or len(q.c) != 1 or list(q.c.values()) != [1]:
                        raise Skip("distance of something else than the point and two nodes")
                    key += list(q.c)
                if key[0] != "x":
                    raise Skip("argument order")
                key = tuple(sorted(key[1:]))
                if key not in memo:
                    memo[key] = mk("d_" + "_".join(key), lo=0, real=True)
                return memo[key]
            with patched("feax.flat.graph", "_segment_distance", dist):
                r = mk("r", lo=0, real=True)
                return build(mk, Vec({"x": 1}), r, dist)
        return run
    allg = [(3, [(0, 1), (2, 1)]), (3, [(0, 1), (1, 2), (2, 0)]), (4, [(0, 1), (3, 2), (1, 3), (0, 2), (2, 2)]), (5, [(4, 0), (1, 4), (4, 2), (3, 4), (0, 1), (2, 3), (1, 1)]), (2, [])]
    for n, edges in allg:
        def build(mk, x, r, dist, n=n, edges=edges):
            P = nodes_of(n)
            v = S.ix(g.create_lattice_function(P, np.array(edges, int).reshape(-1, 2), r)(x))
            near = z3.Or(*[S.ix(dist(x, P[i], P[j])) <= r.e for i, j in edges]) if edges else z3.BoolVal(False)
            return [v == z3.If(near, 1, 0)]
        ctx.valid(f"lattice function of {len(edges)} edges: 1 iff some edge's distance is at most the radius", lambda build=build: S.prove(symbolic(by_contract(build)), lambda v: v), functions=[G + "universal_graph", G + "create_lattice_function"], replay=rep_edges, private=False)
    for n in (2, 3, 4):
        def build(mk, x, r, dist, n=n):
            P = nodes_of(n)
            A = symnp.arr([[mk(f"A{min(i, j)}{max(i, j)}", real=True) for j in range(n)] for i in range(n)])
            v = S.ix(g.create_lattice_function_from_adjmat(P, A, r)(x))
            near = z3.Or(*[z3.And(S.ix(A[i, j]) != 0, S.ix(dist(x, P[i], P[j])) <= r.e) for i in range(n) for j in range(i + 1, n)])
            return [v == z3.If(near, 1, 0)]
        ctx.valid(f"lattice function of a symmetric adjacency matrix on {n} nodes: 1 iff within the radius of a connected pair", lambda build=build: S.prove(symbolic(by_contract(build)), lambda v: v),
                  functions=[G + "universal_graph_from_adjmat", G + "create_lattice_function_from_adjmat"], replay=rep_edges, private=False)
    ctx.bounded("lattice functions against brute-force distances", rep_edges, functions=[G + "universal_graph", G + "universal_graph_from_adjmat"], bound="40 random graphs, 12 points each, 2-D and 3-D")

    # density fields: the two stated values, chosen by the function at the centroid / node, for an arbitrary function
    for ele, ns in (("TRI3", (1, 1)), ("QUAD4", (2, 1)), ("TET4", (1, 1, 1)), ("HEX8", (1, 1, 1)), ("TRI6", (1, 1))):
        m = X.mesh(ele, ns, seed=3)
        P0 = np.asarray(m.points)
        f = lambda p: uf.fun("latt", ())(p)
        args = (Sx("P", P0.shape), Sx("solid"), Sx("void"))

        def pb(P):
            mm = types.SimpleNamespace(points=P, cells=jnp.asarray(m.cells), ele_type=ele)
            return types.SimpleNamespace(mesh=mm, fes=[types.SimpleNamespace(points=P, mesh=mm), types.SimpleNamespace(points=2 * P, mesh=mm)])

        def spec(P, s, v):
            out = []
            for c in np.asarray(m.cells):
                q = sum(P[i] for i in c) / len(c)
                out.append(jnp.where(f(q) > .5, s, v))
            return jnp.stack(out)
        nt = lambda sp: types.SimpleNamespace(mesh=[sp.mesh], fes=sp.fes)
        ctx.equal(f"lattice density {ele}: solid where the function exceeds 1/2 at the centroid, void elsewhere", lambda P, s, v: g.create_lattice_density_field(pb(P), f, s, v), spec, args,
                  functions=[G + "create_lattice_density_field"])
        ctx.equal(f"lattice density {ele}: list of meshes", lambda P, s, v: g.create_lattice_density_field(nt(pb(P)), f, density_solid=s, density_void=v), spec, args,
                  functions=[G + "create_lattice_density_field"])
        ctx.equal(f"nodal lattice density {ele}", lambda P, s, v: (g.create_lattice_density_field_nodal(pb(P), f, s, v), g.create_lattice_density_field_nodal(pb(P), f, s, v, var_index=1)),
                  lambda P, s, v: (jnp.stack([jnp.where(f(q) > .5, s, v) for q in P]), jnp.stack([jnp.where(f(2 * q) > .5, s, v) for q in P])), args, functions=[G + "create_lattice_density_field_nodal"])

    def defaults():
        from feax.problem import Problem
        m = X.mesh("QUAD4", (4, 3), distort=0)

        class Pb(Problem):
            def get_tensor_map(self):
                return lambda gr, *a: gr
        p = Pb(mesh=m, vec=1, dim=2, ele_type="QUAD4")
        fn = g.create_lattice_function(jnp.array([[0., 0.], [1., 1.]]), jnp.array([[0, 1]]), .2)
        P, C = np.asarray(m.points), np.asarray(m.cells)
        d = lambda q: 1. if seg_dist(q, np.zeros(2), np.ones(2)) <= .2 else 1e-5
        expect_close(g.create_lattice_density_field(p, fn), [d(P[c].mean(0)) for c in C], "default densities")
        expect_close(g.create_lattice_density_field_nodal(p, fn), [d(q) for q in P], "default nodal densities")
        return 2
    ctx.bounded("densities of a real problem with the default values", defaults, functions=[G + "create_lattice_density_field", G + "create_lattice_density_field_nodal"], bound="one problem")

    def adjacency():
        n = 0
        for N in (1, 2, 3, 4):
            pairs = list(itertools.combinations(range(N), 2))
            for bits in itertools.product((0, 1), repeat=len(pairs)):
                es = [p for p, b in zip(pairs, bits) if b]
                A = np.zeros((N, N))
                for i, j in es:
                    A[i, j] = A[j, i] = 1
                rng = np.random.RandomState(n)
                shuf = [p if rng.uniform() < .5 else p[::-1] for p in es]
                rng.shuffle(shuf)
                expect_close(g.edges2adjcentMat(jnp.array(shuf, int).reshape(-1, 2), N), A, "adjacency of an edge list", edges=shuf)
                back = g.adjcentMat2edges(jnp.array(A * 2.5)) if N > 1 else np.zeros((0, 2))
                expect(sorted(map(tuple, np.asarray(back).astype(int).tolist())) == sorted(es), "edge list of an adjacency matrix", A=A)
                n += 1
        expect_close(g.edges2adjcentMat(jnp.array([[0, 3], [1, 1]])), [[0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 0, 0], [1, 0, 0, 0]], "inferred node count")
        expect(np.shape(g.edges2adjcentMat(jnp.zeros((0, 2), int), 3)) == (3, 3) and np.shape(g.edges2adjcentMat(jnp.zeros((0, 2), int))) == (0, 0), "no edges")
        return n
    ctx.bounded("edge list <-> adjacency matrix, every graph on up to 4 nodes", adjacency, functions=[G + "edges2adjcentMat", G + "adjcentMat2edges"], bound="all 75 graphs on 1..4 nodes")


# ------------------------------------------------------------------ unit cell
class CellNp(GeoNp):
    """jnp shim for the unit-cell module: isclose with NumPy's documented tolerance"""

    def __init__(self):
        super().__init__(None, None)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        def one(x, y):
            x, y = S.real(S.ix(x)), S.real(S.ix(y))
            ab = lambda e: z3.If(e >= 0, e, -e)
            return S.B(ab(x - y) <= S.real(S.ix(atol)) + S.real(S.ix(rtol)) * ab(y))
        return symnp._lift2(one)(a, b)

    def _lb(f):
        def g(self, *a):
            out = symnp._lift2(lambda *z: S.B(f(*[S.bx(q) for q in z])))(*a)
            return out
        return g
    logical_and, logical_or, logical_not = _lb(lambda a, b: z3.And(a, b)), _lb(lambda a, b: z3.Or(a, b)), _lb(lambda a: z3.Not(a))

    def sum(self, a, axis=None, **k):
        a = np.asarray(a, dtype=object)
        if axis is not None or k:
            raise Skip("sum axis")
        out = 0
        for x in a.ravel():
            out = x + out if not isinstance(x, S.B) else x + out
        return out

    count_nonzero = sum

    def equal(self, a, b):
        return S.B(S.ix(a) == S.ix(b))

    def mean(self, a, axis=None, **k):
        a = np.asarray(a, dtype=object)
        if axis != 0:
            raise Skip("mean axis")
        return symnp.arr([sum(c[1:], c[0]) / len(c) for c in a.T])

    def ones(self, shape=(), dtype=None, **k):
        return S.B(z3.BoolVal(True)) if dtype in (bool, np.bool_) and shape == () else super().ones(shape, dtype)

    def min(self, a, axis=None):
        return symnp.arr([symnp.arr([_fold(symnp._min, c)])[0] for c in np.asarray(a, dtype=object).T]) if axis == 0 else _fold(symnp._min, np.ravel(a))

    def max(self, a, axis=None):
        return symnp.arr([symnp.arr([_fold(symnp._max, c)])[0] for c in np.asarray(a, dtype=object).T]) if axis == 0 else _fold(symnp._max, np.ravel(a))


def _fold(f, xs):
    out = xs[0]
    for x in xs[1:]:
        out = f(out, x)
    return out


def unitcell(ctx):
    import feax.flat.unitcell as uc

    def make(points, cells=None, ele="QUAD4", atol=None):
        class C(uc.UnitCell):
            def mesh_build(self, **kw):
                return types.SimpleNamespace(points=points, cells=cells if cells is not None else np.zeros((0, 4), int), ele_type=ele, kw=kw)
        return C() if atol is None else C(atol=atol)

    @contextlib.contextmanager
    def shim():
        saved = {k: getattr(uc, k) for k in ("np", "jax") if hasattr(uc, k)}
        if len(saved) < 2:
            raise Skip("module layout")
        try:
            uc.np, uc.jax = CellNp(), HostJax()
            yield
        finally:
            for k, v in saved.items():
                setattr(uc, k, v)

    def close(a, b, tol):
        a, b, tol = (S.real(S.ix(q)) for q in (a, b, tol))
        ab = lambda e: z3.If(e >= 0, e, -e)
        return ab(a - b) <= tol + S.real(S.ix(1e-5)) * ab(b)

    def grid(rng, d, n=3):
        ax = [np.sort(rng.uniform(-1, 2, n)) for _ in range(d)]
        P = np.stack([q.ravel() for q in np.meshgrid(*ax, indexing="ij")], 1)
        return ax, P[rng.permutation(len(P))]

    def rep(_m=None):
        n = 0
        for k in range(12):
            rng = np.random.RandomState(k)
            d = 2 + k % 2
            ax, P = grid(rng, d)
            c = make(jnp.array(P), atol=1e-7)
            lb, ub = P.min(0), P.max(0)
            expect_close(np.stack(c.bounds), np.stack([lb, ub]), "bounds")
            expect_close(np.array(sorted(map(tuple, np.asarray(c.corners)))), np.array(sorted(itertools.product(*zip(lb, ub)))), "corners")
            hits = ((P == lb) | (P == ub)).sum(1)
            for nm, h in (("corner", d), ("edge", d - 1), ("face", d - 2)):
                expect_close(np.asarray(getattr(c, nm + "_mask")).astype(int), (hits == h).astype(int), nm + " nodes")
                expect_close([int(getattr(c, "is_" + nm)(jnp.array(q))) for q in P], (hits == h).astype(int), "is_" + nm)
            for a in range(d):
                for val in (lb[a], ub[a], ax[a][1]):
                    on = P[:, a] == val
                    for ee, ec in itertools.product((False, True), repeat=2):
                        want = on & ~((hits == d - 1) & ee) & ~((hits == d) & (ee or ec))
                        got = [bool(c.face_function(a, val, ee, ec)(jnp.array(q))) for q in P]
                        expect(got == want.tolist(), "face filter", axis=a, value=val, excluding_edge=ee, excluding_corner=ec, P=P)
                mp = c.mapping(c.face_function(a, lb[a]), c.face_function(a, ub[a]))
                for q in P[P[:, a] == lb[a]]:
                    t = q.copy()
                    t[a] = ub[a]
                    expect_close(mp(jnp.array(q)), t, "face map sends a node to its periodic image")
            for axes in itertools.combinations(range(d), d - 1):
                for vals in itertools.product(*[(lb[i], ub[i]) for i in axes]):
                    on = np.all([P[:, i] == v for i, v in zip(axes, vals)], 0)
                    for ec in (False, True):
                        got = [bool(c.edge_function(axes, vals, ec)(jnp.array(q))) for q in P]
                        expect(got == (on & ~(ec & (hits == d))).tolist(), "edge filter", axes=axes, values=vals)
                    lo = [lb[i] for i in axes]
                    mp = c.mapping(c.edge_function(axes, lo), c.edge_function(axes, vals))
                    for q in P[np.all([P[:, i] == v for i, v in zip(axes, lo)], 0)]:
                        t = q.copy()
                        t[list(axes)] = vals
                        expect_close(mp(jnp.array(q)), t, "edge map sends a node to its periodic image")
            for vals in itertools.product(*zip(lb, ub)):
                got = [bool(c.corner_function(vals)(jnp.array(q))) for q in P]
                expect(got == np.all(P == np.array(vals), 1).tolist(), "corner filter")
                expect_close(c.mapping(c.corner_function(lb), c.corner_function(vals))(jnp.array(lb)), vals, "corner map")
            for bad in (-1, d):
                expect_raises(lambda: c.face_function(bad, 0.), "axis out of range", ValueError)
            expect_raises(lambda: c.corner_function([0.] * (d + 1)), "corner of another dimension", ValueError)
            expect_raises(lambda: c.mapping(c.face_function(0, lb[0]), c.corner_function(lb)), "different sizes", ValueError)
            n += 1
        for d in (2, 3):  # the tolerance is small against the cell, also far from the origin
            for off, L in ((0., 1.), (100., 1.), (-30., 5.)):
                P = np.array(list(itertools.product((off, off + .5 * L, off + L), repeat=d)))
                c = make(jnp.array(P), atol=1e-6)
                for base in itertools.product((off, off + L), repeat=d):
                    q = np.array(base)
                    q[0] += .02 * L * (1 if base[0] == off else -1)
                    on = lambda f: bool(f(jnp.array(q)))
                    expect(not on(c.corner_function(base)) and not on(c.is_corner) and on(c.is_edge), "a point two percent of the cell away from a corner is on an edge, not the corner", q=q)
                    expect(not on(c.face_function(0, base[0])) and on(c.face_function(1, base[1])) and not on(c.edge_function([0, 1], base[:2])), "and on the faces of its other coordinates only", q=q)
                    if d == 3:
                        z = jnp.array(base)
                        expect(bool(c.edge_function([0, 1, 2], base)(z)) and not on(c.edge_function([1, 2, 0], [base[1], base[2], base[0]])), "edge filter with three planes", q=q)
                n += 1
        m = X.mesh("HEX8", (2, 1, 1))
        c = make(m.points, m.cells, "HEX8")
        expect_close(c.cell_centers, np.asarray(m.points)[np.asarray(m.cells)].mean(1), "cell centres")
        expect(c.num_dims == 3 and c.ele_type == "HEX8", "attributes")
        return n

    for d in (2, 3):
        def run(mk, d=d):
            lo = [mk(f"l{i}", lo=-10, hi=10, real=True) for i in range(d)]
            hi = [mk(f"h{i}", lo=-10, hi=10, real=True) for i in range(d)]
            p = symnp.arr([mk(f"p{i}", lo=-20, hi=20, real=True) for i in range(d)])
            tol = mk("atol", lo=0, real=True)
            for a, b in zip(lo, hi):
                mk("", pre=S.B(a.e < b.e))
            with shim():
                c = make(symnp.arr([hi, lo]), atol=tol)
                got = [c.is_corner(p), c.is_edge(p), c.is_face(p)]
                b = [S.ix(x) for x in np.concatenate([np.asarray(v, dtype=object).ravel() for v in c.bounds])]
            return [S.bx(np.asarray(x, dtype=object).ravel()[0]) for x in got], b, lo, hi, p, tol

        def post(v, d=d):
            got, b, lo, hi, p, tol = v
            h = sum(z3.If(z3.Or(close(q, l, tol), close(q, u, tol)), 1, 0) for q, l, u in zip(p, lo, hi))
            return [got[0] == (h == d), got[1] == (h == d - 1), got[2] == (h == d - 2)] + [x == S.ix(y) for x, y in zip(b, lo + hi)]
        ctx.valid(f"unit cell in {d}-D: corner / edge / face points are those on d, d-1, d-2 bounding planes, every box, point and tolerance", lambda run=run, post=post: S.prove(run, post),
                  functions=[U + "UnitCell.is_corner", U + "UnitCell.is_edge", U + "UnitCell.is_face", U + "UnitCell.bounds"], replay=rep, private=False)

        def run2(mk, d=d):
            lo = [mk(f"l{i}", lo=-10, hi=10, real=True) for i in range(d)]
            hi = [mk(f"h{i}", lo=-10, hi=10, real=True) for i in range(d)]
            p = symnp.arr([mk(f"p{i}", lo=-20, hi=20, real=True) for i in range(d)])
            tol, val = mk("atol", lo=0, real=True), mk("value", real=True)
            val2 = mk("value2", real=True)
            for a, b in zip(lo, hi):
                mk("", pre=S.B(a.e < b.e))
            out = []
            with shim():
                c = make(symnp.arr([hi, lo]), atol=tol)
                h = sum(z3.If(z3.Or(close(q, l, tol), close(q, u, tol)), 1, 0) for q, l, u in zip(p, lo, hi))
                one = lambda x: S.bx(np.asarray(x, dtype=object).ravel()[0])
                for a in range(d):
                    for ee, ec in itertools.product((False, True), repeat=2):
                        got = one(c.face_function(a, val, excluding_edge=ee, excluding_corner=ec)(p))
                        want = z3.And(close(p[a], val, tol), z3.Not(z3.And(h == d - 1, ee)), z3.Not(z3.And(h == d, ee or ec)))
                        out.append(got == want)
                for a, b in itertools.permutations(range(d), 2):
                    for ec in (False, True):
                        got = one(c.edge_function([a, b], [val, val2], excluding_corner=ec)(p))
                        out.append(got == z3.And(close(p[a], val, tol), close(p[b], val2, tol), z3.Not(z3.And(h == d, ec))))
                vals = [val, val2, val][:d]
                out.append(one(c.corner_function(vals)(p)) == z3.And(*[close(q, v, tol) for q, v in zip(p, vals)]))
            return out
        ctx.valid(f"unit cell in {d}-D: face, edge and corner filters select exactly the stated points, every box, point, value and tolerance", lambda run2=run2: S.prove(run2, lambda v: v),
                  functions=[U + "UnitCell.face_function", U + "UnitCell.edge_function", U + "UnitCell.corner_function"], replay=rep, private=False)

    # periodic maps on a grid with arbitrary lines (nodes in an arbitrary fixed order)
    for d, ns, perm_seed in ((2, (3, 2), 0), (2, (2, 3), 1), (3, (2, 2, 2), 2)):
        def run3(mk, d=d, ns=ns, seed=perm_seed):
            ax = [[mk(f"x{i}_{j}", lo=-5, hi=5, real=True) for j in range(n)] for i, n in enumerate(ns)]
            for line in ax:
                for a, b in zip(line, line[1:]):
                    mk("", pre=S.B(b.e - a.e >= z3.RealVal("1/100")))
            P = [list(q) for q in itertools.product(*ax)]
            order = np.random.RandomState(seed).permutation(len(P))
            P = symnp.arr([P[i] for i in order])
            out = []
            with shim():
                c = make(P, atol=1e-6)
                lb, ub = c.bounds
                for a in range(d):
                    mp = c.mapping(c.face_function(a, lb[a]), c.face_function(a, ub[a]))
                    q = [ax[i][1 % len(ax[i])] for i in range(d)]
                    q[a] = ax[a][0]
                    img = mp(symnp.arr(q))
                    out += [S.ix(img[i]) == S.ix(ax[a][-1] if i == a else q[i]) for i in range(d)]
            return out
        ctx.valid(f"periodic map of opposite faces on a {'x'.join(map(str, ns))} grid with arbitrary lines sends each point to its image", lambda run3=run3: S.prove(run3, lambda v: v),
                  functions=[U + "UnitCell.mapping"], replay=rep, private=False)
    ctx.bounded("unit-cell classes, filters and maps on random permuted grids", rep, functions=[U + "UnitCell.mapping", U + "UnitCell.corner_mask", U + "UnitCell.edge_mask", U + "UnitCell.face_mask", U + "UnitCell.corners", U + "UnitCell.cell_centers"],
                bound="12 random grids in 2-D and 3-D, every node and filter")


# ------------------------------------------------------------------ directional stiffness
def directional(ctx):
    import feax.flat.utils as fu
    pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]

    def spec(Sm, n):
        v = [n[i] * n[j] for i, j in pairs]
        return 1.0 / sum(Sm[a][b] * v[a] * v[b] for a in range(6) for b in range(6))

    def code(Sm, n):
        # assumed contract of the dependency: inv(C) is the compliance matrix (arbitrary symmetric here)
        Sm = (Sm + Sm.T) / 2

        class L:
            def __getattr__(self, k):
                if k == "inv":
                    return lambda C: Sm
                raise Skip(f"linalg.{k}")

        class J:
            linalg = L()

            def __getattr__(self, k):
                return getattr(jnp, k)
        with patched("feax.flat.utils", "np", J()):
            return fu.compute_directional_youngs_modulus(jnp.eye(6), n)

    def spd(Sm):
        Sm = jnp.asarray(Sm)
        return Sm @ Sm.T + jnp.eye(6)
    ctx.equal("directional Young's modulus: E(n) = 1 / (S_ijkl n_i n_j n_k n_l), every compliance and direction", code, lambda Sm, n: spec((Sm + Sm.T) / 2, n), (Sx("S", (6, 6)), Sx("n", (3,))),
              functions=[T + "compute_directional_youngs_modulus"], private=True,
              replay=(lambda Sm, n: fu.compute_directional_youngs_modulus(jnp.linalg.inv(spd(Sm)), n), lambda Sm, n: spec(spd(Sm), n)))

    def iso():
        k = 0
        for E, nu in ((1., .3), (210., .25), (3., 0.), (2., -.4)):
            Sm = np.zeros((6, 6))
            Sm[:3, :3] = -nu / E
            Sm[range(3), range(3)] = 1 / E
            Sm[range(3, 6), range(3, 6)] = 2 * (1 + nu) / E
            C = np.linalg.inv(Sm)
            rng = np.random.RandomState(1)
            for _ in range(6):
                n = rng.normal(size=3)
                n /= np.linalg.norm(n)
                expect_close(fu.compute_directional_youngs_modulus(jnp.array(C), jnp.array(n)), E, "isotropic: E in every direction", E=E, nu=nu, n=n)
                k += 1
        return k
    ctx.bounded("isotropic stiffness has the same modulus in every direction", iso, functions=[T + "compute_directional_youngs_modulus"], bound="4 materials x 6 directions")

    def sphere():
        import meshio
        rng = np.random.RandomState(0)
        A = rng.normal(size=(6, 6))
        Sm = A @ A.T / 6 + np.eye(6)
        C = np.linalg.inv(Sm)
        tmp = tempfile.mkdtemp(prefix="fv_c21_")
        try:
            f = os.path.join(tmp, "s.vtu")
            st = fu.visualize_stiffness_sphere(jnp.array(C), f, n_theta=7, n_phi=9)
            r = meshio.read(f)
            E = r.point_data["youngs_modulus"].ravel()
            expect(len(E) == 63 and len(r.cells_dict["quad"]) == 48, "grid size", n=len(E))
            rad = np.linalg.norm(r.points, axis=1)
            n = r.points / rad[:, None]
            expect_close(E, [float(spec(Sm, q)) for q in n], "modulus at each point is that of its direction", rtol=1e-5, atol=1e-7)
            expect_close(rad, E / E.max(), "radius is the normalised modulus", rtol=1e-6)
            expect_close([st["E_max"], st["E_min"], st["anisotropy_ratio"]], [E.max(), E.min(), E.max() / E.min()], "statistics", rtol=1e-6)
            q = r.cells_dict["quad"]
            d = max(np.max(np.arccos(np.clip(np.sum(n[q[:, i]] * n[q[:, (i + 1) % 4]], 1), -1, 1))) for i in range(4))
            expect(d < 2 * np.pi / 8 + 1e-6, "cells join neighbouring directions", d=d)
        finally:
            shutil.rmtree(tmp)
        return 63
    ctx.bounded("stiffness sphere file and statistics", sphere, functions=[T + "visualize_stiffness_sphere"], bound="one random stiffness, 63 directions")


# ------------------------------------------------------------------ set algebra of signed fields
def csg(ctx):
    import feax.gene.sdf as sd

    def trees():
        """(name, build(leaves), value(a, b, c), inside(a<0, b<0, c<0 as sets))"""
        mn, mx = (lambda *v: _fold(lambda p, q: z3.If(p <= q, p, q), v)), (lambda *v: _fold(lambda p, q: z3.If(p >= q, p, q), v))
        return [("a|b", lambda a, b, c: a | b, lambda a, b, c: mn(a, b)), ("a&b", lambda a, b, c: a & b, lambda a, b, c: mx(a, b)), ("a-b", lambda a, b, c: a - b, lambda a, b, c: mx(a, -b)),
                ("(a|b)&c", lambda a, b, c: (a | b) & c, lambda a, b, c: mx(mn(a, b), c)), ("a-(b&c)", lambda a, b, c: a - (b & c), lambda a, b, c: mx(a, -mx(b, c))),
                ("(a-b)|c", lambda a, b, c: (a - b) | c, lambda a, b, c: mn(mx(a, -b), c)), ("a-b-c", lambda a, b, c: a - b - c, lambda a, b, c: mx(mx(a, -b), -c)),
                ("Union(a,b)", lambda a, b, c: sd.Union(a, b), lambda a, b, c: mn(a, b)), ("Intersection(a,b)", lambda a, b, c: sd.Intersection(a, b), lambda a, b, c: mx(a, b)),
                ("Difference(a,b)", lambda a, b, c: sd.Difference(a, b), lambda a, b, c: mx(a, -b))]

    def leaf(vals, batch):
        class L(sd.SDF):
            def __call__(self, p):
                return vals[int(p[0])]

            def _default_bounds(self):
                return self.lo, self.hi
        if batch:
            L.evaluate = lambda self, pts: symnp.arr([vals[int(p[0])] for p in pts])
        return L()

    class Ball(sd.SDF):
        def __init__(self, c, r):
            self.c, self.r = np.asarray(c, float), r

        def __call__(self, p):
            return float(np.linalg.norm(np.asarray(p) - self.c) - self.r)

        def _default_bounds(self):
            return self.c - self.r, self.c + self.r

    def rep(_m=None):
        rng = np.random.RandomState(0)
        a, b, c = (Ball(rng.uniform(-.5, .5, 3), r) for r in (.8, .6, .7))
        pts = rng.uniform(-1.5, 1.5, (200, 3))
        va, vb, vc = (np.array([s(p) for p in pts]) for s in (a, b, c))
        n = 0
        for nm, build, val in trees():
            s = build(a, b, c)
            want = {"a|b": np.minimum(va, vb), "a&b": np.maximum(va, vb), "a-b": np.maximum(va, -vb), "(a|b)&c": np.maximum(np.minimum(va, vb), vc), "a-(b&c)": np.maximum(va, -np.maximum(vb, vc)),
                    "(a-b)|c": np.minimum(np.maximum(va, -vb), vc), "a-b-c": np.maximum(np.maximum(va, -vb), -vc)}
            want["Union(a,b)"], want["Intersection(a,b)"], want["Difference(a,b)"] = want["a|b"], want["a&b"], want["a-b"]
            expect_close(s.evaluate(pts), want[nm], nm + " on an array of points")
            expect_close([s(p) for p in pts], want[nm], nm + " at each point")
            n += len(pts)
        lo, hi = (a | b)._default_bounds()
        expect_close(np.stack([lo, hi]), np.stack([np.minimum(a.c - .8, b.c - .6), np.maximum(a.c + .8, b.c + .6)]), "union box")
        lo, hi = (a & b)._default_bounds()
        expect_close(np.stack([lo, hi]), np.stack([np.maximum(a.c - .8, b.c - .6), np.minimum(a.c + .8, b.c + .6)]), "intersection box")
        expect_close(np.stack((a - b)._default_bounds()), np.stack([a.c - .8, a.c + .8]), "difference box")
        return n
    for nm, build, val in trees():
        for batch in (False, True):
            def run(mk, build=build, val=val, batch=batch):
                K = 3
                v = [[mk(f"{s}{k}", real=True) for k in range(K)] for s in "abc"]
                tree = build(*[leaf(x, batch) for x in v])
                pts = np.arange(K, dtype=float)[:, None]
                with symnp.numpy_as_symbolic(sd, force=False):
                    ev = tree.evaluate(pts)
                    one = [tree(p) for p in pts]
                out = []
                for k in range(K):
                    a, b, c = (S.ix(x[k]) for x in v)
                    w = val(a, b, c)
                    out += [S.ix(ev[k]) == w, S.ix(one[k]) == w]
                return out
            ctx.valid(f"{nm} ({'vectorised' if batch else 'pointwise'} operands): value of the set operation at every point, for arbitrary operands", lambda run=run: S.prove(run, lambda v: v, max_paths=3000),
                      functions=[D + "Union", D + "Intersection", D + "Difference", D + "SDF.evaluate"], replay=rep, private=False)

    # consequence: sign = membership (over the value contracts)
    def laws():
        a, b = z3.Reals("a b")
        mn, mx = z3.If(a <= b, a, b), z3.If(a >= b, a, b)
        df = z3.If(a >= -b, a, -b)
        n = 0
        for gl in [(mn < 0) == z3.Or(a < 0, b < 0), (mx < 0) == z3.And(a < 0, b < 0), (df < 0) == z3.And(a < 0, b > 0), (mn > 0) == z3.And(a > 0, b > 0), (mx > 0) == z3.Or(a > 0, b > 0), (df > 0) == z3.Or(a > 0, b < 0)]:
            s = z3.Solver()
            s.add(z3.Not(gl))
            n += 1
            if s.check() != z3.unsat:
                return None, n, "law"
        return True, n, "z3"
    ctx.valid("the sign of the values is membership in the union, intersection, difference", laws)

    def boxes(mk):
        v = {k: [mk(f"{k}{i}", real=True) for i in range(3)] for k in ("la", "ha", "lb", "hb")}
        mkleaf = lambda l, h: (lambda q: (setattr(q, "lo", symnp.arr(v[l])), setattr(q, "hi", symnp.arr(v[h])), q)[2])(leaf([0.], False))
        a, b = mkleaf("la", "ha"), mkleaf("lb", "hb")
        x = [mk(f"x{i}", real=True) for i in range(3)]
        inb = lambda l, h, k: z3.And(*[z3.And(S.ix(p) <= q.e, q.e <= S.ix(r)) for p, q, r in zip(l, x, h)])
        A, B_ = inb(v["la"], v["ha"], 0), inb(v["lb"], v["hb"], 0)
        with symnp.numpy_as_symbolic(sd, force=False):
            bx_ = [(a | b)._default_bounds(), (a & b)._default_bounds(), (a - b)._default_bounds()]
        u, i, d = (inb(l, h, 0) for l, h in bx_)
        return [z3.Implies(z3.Or(A, B_), u), z3.Implies(z3.And(A, B_), i), z3.Implies(A, d), z3.Implies(i, z3.And(A, B_)), z3.Implies(d, A)]
    ctx.valid("default bounds of a set operation contain the operation's set (union, intersection, difference of boxes)", lambda: S.prove(boxes, lambda v: v, max_paths=3000),
              functions=[D + "Union", D + "Intersection", D + "Difference"], replay=rep)
    ctx.bounded("set operations of balls", rep, functions=[D + "Union", D + "Intersection", D + "Difference", D + "SDF.evaluate"], bound="10 expressions x 200 points")

    def surface():
        import meshio
        if not hasattr(sd.SDF, "_default_bounds"):
            raise Skip("default bounds hook renamed")
        b = Ball([.2, -.1, .3], .7)
        n = 0
        for level, padding, bounds in ((0., .1, None), (-.1, .05, None), (.2, .5, None), (0., 0., (np.full(3, -1.), np.full(3, 1.5)))):
            with quiet():
                v, f = b.to_mesh(resolution=40, bounds=bounds, level=level, padding=padding)
            h = 1.6 / 39 if bounds is None else 2.5 / 39
            r = np.linalg.norm(v - b.c, axis=1)
            expect(np.abs(r - (.7 + level)).max() < h ** 2, "extracted vertices lie on the level set", level=level, err=np.abs(r - (.7 + level)).max())
            expect(f.min() >= 0 and f.max() < len(v) and set(f.ravel()) == set(range(len(v))), "faces index the vertices")
            e = np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), 1)
            expect(np.all(np.unique(e, axis=0, return_counts=True)[1] == 2), "closed surface")
            vol = abs(np.einsum("ij,ij->i", v[f[:, 0]], np.cross(v[f[:, 1]], v[f[:, 2]])).sum()) / 6
            expect(abs(vol - 4 / 3 * np.pi * (.7 + level) ** 3) < .02 * vol + .01, "enclosed volume", vol=vol)
            n += len(v)
        # anisotropic box: spacing per axis
        with quiet():
            v, f = b.to_mesh(resolution=30, bounds=(np.array([-2., -1., -.6]), np.array([1.5, 1.2, 1.3])))
        expect(np.abs(np.linalg.norm(v - b.c, axis=1) - .7).max() < .02, "anisotropic sampling box")
        tmp = tempfile.mkdtemp(prefix="fv_c21_")
        try:
            p = os.path.join(tmp, "b.stl")
            with quiet():
                b.to_stl(p, resolution=20, padding=.1)
            r = meshio.read(p)
            expect(np.abs(np.linalg.norm(r.points - b.c, axis=1) - .7).max() < .01 and len(r.cells_dict["triangle"]) > 50, "STL file holds the surface")
            for kw in ({"resolution": 18, "padding": .2, "level": .1}, {"resolution": 16, "bounds": (np.full(3, -1.), np.full(3, 1.5)), "level": -.1}, {"resolution": 14, "padding": .1, "watertight": True, "smooth_iterations": 0},
                       {"resolution": 14, "padding": .1, "watertight": True, "smooth_iterations": 3}):
                try:
                    with quiet():
                        v, f = b.to_mesh(**kw)
                        b.to_stl(p, **kw)
                except ImportError:
                    continue
                r = meshio.read(p)
                tri = lambda P, C: sorted(np.round(np.asarray(P, float)[np.asarray(C)].mean(1), 4).tolist())
                expect(len(f) == len(r.cells_dict["triangle"]), "the file holds every face of the surface", options=kw)
                expect_close(np.asarray(tri(r.points, r.cells_dict["triangle"])), np.asarray(tri(v, f)), "the file holds the surface of the same options", atol=5e-4, options=kw)
        finally:
            shutil.rmtree(tmp)
        return n
    ctx.bounded("surface extraction of a ball", surface, functions=[D + "SDF.to_mesh", D + "SDF.to_stl"], bound="5 sampling boxes")

    def volume():
        if not hasattr(sd.SDF, "_default_bounds"):
            raise Skip("default bounds hook renamed")
        try:
            import trimesh  # noqa: F401
        except ImportError as e:
            raise Skip(str(e))
        b = Ball([.2, -.1, .3], .7)
        with quiet():
            v, f = b.to_mesh(resolution=30, padding=.1, watertight=True, smooth_iterations=2)
        e = np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), 1)
        expect(np.all(np.unique(e, axis=0, return_counts=True)[1] == 2), "watertight repair gives a closed surface")
        expect(np.abs(np.linalg.norm(v - b.c, axis=1) - .7).max() < .03, "repair stays near the level set")
        with quiet():
            m = b.to_volume_mesh(resolution=24, padding=.1)
        P, C = np.asarray(m.points), np.asarray(m.cells)
        vol = np.linalg.det(P[C[:, 1:]] - P[C[:, :1]]) / 6
        expect(m.ele_type == "TET4" and (vol > 0).all(), "volume mesh: positively oriented tetrahedra")
        expect(abs(vol.sum() - 4 / 3 * np.pi * .343) < .15, "volume mesh fills the solid", vol=vol.sum())
        return len(C)
    ctx.bounded("watertight repair and volume mesh of a ball", volume, functions=[D + "_repair_watertight", D + "SDF.to_volume_mesh"], bound="one ball")


# ------------------------------------------------------------------ density fields
def ref_tab(ele, xi):
    return F.shape_ref(ele, xi) if hasattr(F, "shape_ref") else None


def density(ctx):
    import feax.gene.sdf as sd
    from feax.mesh import Mesh
    cases = [("TRI3", (3, 2)), ("QUAD4", (3, 2)), ("TRI6", (3, 2)), ("QUAD8", (3, 2)), ("QUAD9", (3, 2)), ("TET4", (2, 1, 2)), ("HEX8", (2, 1, 2)), ("TET10", (2, 1, 1)), ("HEX20", (2, 1, 1))]
    graded = [("TRI3", (20, 2)), ("QUAD4", (20, 2)), ("TET4", (10, 2, 1)), ("HEX8", (10, 2, 1))]

    def simplex(ele):
        return ele[:2] in ("TR", "TE")

    def inner(m, ele, rng, n):
        """points x = sum N_i(xi) x_i of random elements (N: this repository's C01-verified basis), element and N"""
        from feax.basis import get_elements, create_nodal_element
        fam, bx, _, _, deg, ro = get_elements(ele)
        d = np.asarray(m.points).shape[1]
        xi = rng.dirichlet(np.ones(d + 1), n)[:, 1:] if simplex(ele) else rng.uniform(0, 1, (n, d))
        N = create_nodal_element(fam, bx, deg).tabulate(0, np.ascontiguousarray(xi))[0, :, :, 0][:, ro]
        e = rng.randint(0, len(m.cells), n)
        return np.einsum("nj,njk->nk", N, np.asarray(m.points)[np.asarray(m.cells)[e]]), e, N

    def make(ele, ns, shear, grad, seed=0):
        m = X.mesh(ele, ns, seed=seed, distort=.1 if shear else 0.)
        P = np.array(m.points, float)
        if grad:
            P[:, 0] = P[:, 0] ** 3
        if shear:
            d = P.shape[1]
            P = P @ (np.eye(d) + .35 * np.triu(np.ones((d, d)), 1)).T
        return Mesh(P, m.cells, ele_type=ele)

    def sweep(ele, ns, grad):
        def body():
            n = 0
            for shear, seed in itertools.product((0, 1), (0, 1)):
                rng = np.random.RandomState(seed)
                m = make(ele, ns, shear, grad, seed)
                P, C = np.asarray(m.points), np.asarray(m.cells)
                rho, th = rng.uniform(0, 1, len(P)), rng.choice([.5, .3])
                f = sd.DensityField(rho, m, threshold=th)
                pts, e, N = inner(m, ele, rng, 40)
                want = th - np.einsum("nj,nj->n", N, rho[C[e]])
                got = f.evaluate(pts)
                expect_close(got, want, "inside an element: threshold minus the finite element interpolant", rtol=1e-6, atol=1e-6, ele=ele)
                expect_close([f(p) for p in pts[:12]], want[:12], "single-point evaluation agrees", rtol=1e-6, atol=1e-6, ele=ele)
                k = rng.permutation(len(P))[:15]
                expect_close(f.evaluate(P[k]), th - rho[k], "at a node: threshold minus the nodal density", rtol=1e-5, atol=1e-5, ele=ele)
                # linear densities are reproduced everywhere inside
                gl = rng.normal(size=P.shape[1])
                fl = sd.DensityField(P @ gl + .2, m)
                expect_close(fl.evaluate(pts), .5 - (pts @ gl + .2), "linear density is exact", rtol=1e-6, atol=1e-6, ele=ele)
                lo, hi = P.min(0), P.max(0)
                expect_close(np.stack(f.bounds), np.stack([lo, hi]), "bounds of the mesh")
                expect_close(np.stack(f._default_bounds()), np.stack([lo, hi]), "default bounds")
                # outside: void when closed
                q = pts.copy()
                for j in range(len(q)):
                    a = j % P.shape[1]
                    q[j, a] = (hi + .05 * (1 + j / 10) * (hi - lo))[a] if j % 3 else (lo - .05 * (1 + j / 10) * (hi - lo))[a]
                expect_close(f.evaluate(q), np.full(len(q), th), "outside the domain: void", ele=ele)
                expect_close([f(x) for x in q[:6]], np.full(6, th), "outside the domain: void (single point)", ele=ele)
                g = sd.DensityField(rho, m, threshold=th, close_boundary=False)
                far = q + 50. * np.sign(q - (lo + hi) / 2) * (hi - lo)
                near = np.argmin(np.linalg.norm(far[:, None] - P[None], axis=2), 1)
                ex = [x for x in range(len(far)) if np.sort(np.linalg.norm(far[x] - P, axis=1))[1] - np.linalg.norm(far[x] - P[near[x]]) > 1e-6]
                expect_close(g.evaluate(far)[ex], th - rho[near[ex]], "open boundary, far away: nearest node", ele=ele)
                expect_close([g(far[x]) for x in ex[:4]], th - rho[near[ex[:4]]], "open boundary, far away: nearest node (single point)", ele=ele)
                expect_close(g.evaluate(pts), want, "open boundary inside", rtol=1e-6, atol=1e-6, ele=ele)
                n += 4 * len(pts)
            return n
        return body
    class Obj:
        """NumPy with value arrays that may hold symbols: only the containers of densities are object arrays"""

        def __getattr__(self, k):
            return getattr(np, k)

        def full(self, n, v, *a, **k):
            return np.full(n, v, dtype=object if isinstance(v, float) and v != v else None)

        def isnan(self, a):
            a = np.asarray(a)
            return np.isnan(a) if a.dtype != object else np.array([isinstance(x, float) and x != x for x in a.ravel()], bool).reshape(a.shape)

        def asarray(self, a, *r, **k):
            return a if symnp.is_sym(a) else np.asarray(a, *r, **k)
        array = asarray

        def einsum(self, sub, *ops):
            if not any(symnp.is_sym(o) for o in ops):
                return np.einsum(sub, *ops)
            ins, out = sub.replace(" ", "").split("->")
            ins = ins.split(",")
            ops = [np.asarray(o, dtype=object) for o in ops]
            dim = {c: o.shape[i] for t, o in zip(ins, ops) for i, c in enumerate(t)}
            con = [c for c in dim if c not in out]
            res = np.empty([dim[c] for c in out], dtype=object)
            for ix in np.ndindex(*res.shape):
                e = dict(zip(out, ix))
                tot = 0
                for jx in itertools.product(*[range(dim[c]) for c in con]):
                    e.update(zip(con, jx))
                    t = 1
                    for q, o in zip(ins, ops):
                        t = t * o[tuple(e[c] for c in q)]
                    tot = tot + t
                res[ix] = tot
            return res

    def every_density(ele, ns, grad):
        m = make(ele, ns, 1, grad, 2)
        P, C = np.asarray(m.points), np.asarray(m.cells)
        rng = np.random.RandomState(11)
        pts, e, N = inner(m, ele, rng, 12)
        q = np.vstack([pts, P.max(0) + .3, P.min(0) - .2])

        def code(rho, th):
            if not symnp.is_sym(rho):
                f = sd.DensityField(np.asarray(rho, float), m, threshold=float(th))
                return f.evaluate(q), np.array([f(x) for x in q])
            old, had = sd.onp, "float" in vars(sd)
            try:
                sd.onp, sd.float = Obj(), lambda x: x
                f = sd.DensityField(symnp.arr(list(rho)), m, threshold=th)
                return np.asarray(f.evaluate(q), dtype=object), np.array([f(x) for x in q], dtype=object)
            finally:
                sd.onp = old
                if not had:
                    del sd.float

        def spec(rho, th):
            w = [th - sum(N[k, i] * rho[C[e[k], i]] for i in range(C.shape[1])) for k in range(len(pts))] + [th, th]
            w = np.array(w, dtype=object if symnp.is_sym(rho) else float)
            return w, w
        ctx.equal(f"density field {ele}{' (graded mesh)' if grad else ''}: threshold minus the finite element interpolant for every nodal density and threshold, both evaluation paths, void outside", code, spec, (Sx("rho", (len(P),)), Sx("th")),
                  functions=[D + "DensityField"], engine="host", tol=1e-6)
    for ele, ns in cases:
        every_density(ele, ns, False)
    for ele, ns in graded[:2]:
        every_density(ele, (6, 2), True)
    for ele, ns in cases:
        ctx.bounded(f"density field {ele}: interpolant inside, void outside", sweep(ele, ns, False), functions=[D + "DensityField"], bound="4 meshes (aligned and sheared) x 40 points per clause, random densities")
    for ele, ns in graded:
        ctx.bounded(f"density field {ele} on a graded mesh", sweep(ele, ns, True), functions=[D + "DensityField"], bound="4 meshes x 40 points per clause, random densities")

    def distorted():
        """strongly tapered and curved elements with a positive Jacobian: the inverse map is far from affine"""
        from feax.basis import get_elements, create_nodal_element
        n = 0
        quad = np.array([[0., 0.], [1., 0.], [.56, .5], [0., 1.]])
        hexa = np.array([[0., 0, 0], [1, 0, 0], [.58, .55, 0], [0, 1, 0], [0, 0, 1], [.8, 0, .9], [.6, .6, .8], [0, .8, 1.1]])
        for ele, V in (("QUAD4", quad), ("QUAD4", quad * [1e-2, 40.]), ("HEX8", hexa), ("QUAD8", quad + np.outer([0, 0, 1, 0], [.15, .15])), ("QUAD9", quad + np.outer([0, 0, 1, 0], [.15, .15])), ("HEX20", hexa + np.outer([0, 0, 1, 0, 0, 0, 1, 0], [.15, .15, .1]))):
            m0 = X.mesh(ele, (1,) * V.shape[1], distort=0.)
            fam, bx, _, _, deg, ro = get_elements(ele)
            el = create_nodal_element(fam, bx, deg)
            R = np.asarray(m0.points)  # unit square / cube: reference positions of the nodes
            base = "QUAD4" if V.shape[1] == 2 else "HEX8"
            P = np.stack([F.shape(base, x) for x in R]) @ V
            if ele != base:  # bend the sides a little
                P = P + .03 * np.abs(V).max(0) * np.sin(np.pi * R[:, ::-1]) * R
            m = Mesh(P, m0.cells, ele_type=ele)
            C = np.asarray(m.cells)
            rng = np.random.RandomState(7)
            xi = np.vstack([rng.uniform(0, 1, (40, V.shape[1])), rng.beta(.3, .3, (40, V.shape[1]))])
            T = el.tabulate(1, np.ascontiguousarray(xi))
            N = T[0, :, :, 0][:, ro]
            J = np.einsum("aqn,ni->qia", T[1:, :, :, 0][:, :, ro], P[C[0]])
            if (np.linalg.det(J) <= 0).any():
                raise Skip("test geometry is folded")
            rho = rng.uniform(0, 1, len(P))
            f = sd.DensityField(rho, m)
            want = .5 - N @ rho[C[0]]
            pts = N @ P[C[0]]
            expect_close(f.evaluate(pts), want, "strongly distorted element", rtol=1e-5, atol=1e-5, ele=ele)
            expect_close([f(p) for p in pts[::4]], want[::4], "strongly distorted element, single points", rtol=1e-5, atol=1e-5, ele=ele)
            n += len(pts)
        return n
    ctx.bounded("density field on strongly tapered and curved elements", distorted, functions=[D + "DensityField"], bound="6 elements x 80 points")

    def single_element():
        n = 0
        for ele, d in (("TRI3", 2), ("QUAD4", 2), ("TET4", 3), ("HEX8", 3)):
            m = make(ele, (1,) * d, 0, False)
            m = Mesh(np.asarray(m.points), np.asarray(m.cells)[:1], ele_type=ele)
            keep = np.unique(np.asarray(m.cells))
            mp = {int(k): i for i, k in enumerate(keep)}
            m = Mesh(np.asarray(m.points)[keep], np.array([[mp[int(i)] for i in np.asarray(m.cells)[0]]]), ele_type=ele)
            rng = np.random.RandomState(3)
            rho = rng.uniform(0, 1, len(keep))
            f = sd.DensityField(rho, m)
            pts, e, N = inner(m, ele, rng, 10)
            want = .5 - N @ rho[np.asarray(m.cells)[0]]
            expect_close(f.evaluate(pts), want, "one-element mesh", rtol=1e-6, atol=1e-6, ele=ele)
            expect_close([f(p) for p in pts], want, "one-element mesh, single points", rtol=1e-6, atol=1e-6, ele=ele)
            n += 10
        return n
    ctx.bounded("density field on one element", single_element, functions=[D + "DensityField"], bound="4 element types")

    # reference containment: exact for every point
    import basix
    for cell, nm in ((basix.CellType.triangle, "triangle"), (basix.CellType.tetrahedron, "tetrahedron"), (basix.CellType.quadrilateral, "quadrilateral"), (basix.CellType.hexahedron, "hexahedron")):
        d = 2 if nm in ("triangle", "quadrilateral") else 3

        def run(mk, cell=cell, d=d, nm=nm):
            x = [symnp.arr([mk(f"x{k}{i}", real=True) for i in range(d)]) for k in range(2)]
            tol = mk("tol", lo=0, real=True)
            shim = types.SimpleNamespace()

            class N(symnp.SymNp):
                def all(self, a, axis=None):
                    a = np.asarray(a, dtype=object)
                    if axis is None:
                        return S.B(z3.And(*[S.bx(q) for q in a.ravel()]))
                    return symnp.arr([S.B(z3.And(*[S.bx(q) for q in r])) for r in a])
            if not hasattr(sd, "onp"):
                raise Skip("module layout")
            old = sd.onp
            try:
                sd.onp = N()
                one = sd._inside_ref_element(x[0], cell, tol)
                two = sd._inside_ref_element_batch(symnp.arr([list(x[0]), list(x[1])]), cell, tol)
            finally:
                sd.onp = old
            one = S.bx(one)

            def ref(v):
                v = [S.ix(q) for q in v]
                t = S.ix(tol)
                base = z3.And(*[q >= -t for q in v])
                return z3.And(base, sum(v) <= 1 + t) if nm in ("triangle", "tetrahedron") else z3.And(base, *[q <= 1 + t for q in v])
            return [one == ref(x[0]), S.bx(two[0]) == ref(x[0]), S.bx(two[1]) == ref(x[1])]
        ctx.valid(f"reference {nm} containment, every point and tolerance", lambda run=run: S.prove(run, lambda v: v, max_paths=4000), functions=[D + "_inside_ref_element", D + "_inside_ref_element_batch"],
                  replay=lambda _m: None)

    def files():
        import meshio
        from feax.utils import save_sol
        tmp = tempfile.mkdtemp(prefix="fv_c21_")
        n = 0
        try:
            for ele, ns in cases:
                if ele == "QUAD9":
                    continue
                m = make(ele, ns, 1, False)
                P = np.asarray(m.points)
                rng = np.random.RandomState(n)
                rho = rng.uniform(0, 1, len(P))
                fl = os.path.join(tmp, ele + ".vtu")
                with quiet():
                    save_sol(m, fl, point_infos=[("rho", rho)])
                    f = sd.from_vtk(fl, "rho", threshold=.4)
                pts, e, N = inner(m, ele, rng, 20)
                expect_close(f.evaluate(pts), .4 - np.einsum("nj,nj->n", N, rho[np.asarray(m.cells)[e]]), "field read from a file", rtol=1e-4, atol=1e-5, ele=ele)
                with quiet():
                    expect_raises(lambda: sd.from_vtk(fl), "missing field", KeyError)
                n += 1
            fl = os.path.join(tmp, "line.vtu")
            meshio.Mesh(np.zeros((2, 3)), [("line", np.array([[0, 1]]))], point_data={"density": np.zeros(2)}).write(fl)
            expect_raises(lambda: sd.from_vtk(fl), "unsupported cells", ValueError)
            m = make("QUAD4", (2, 2), 1, False)
            rho = np.random.RandomState(5).uniform(0, 1, len(m.points))
            f = sd.from_opt_result(types.SimpleNamespace(rho_filtered=rho, mesh=m, rho=rho * 0 + .9), threshold=.6)
            expect_close(f.evaluate(np.asarray(m.points)), .6 - rho, "field of an optimisation result (filtered density)", rtol=1e-5, atol=1e-5)
        finally:
            shutil.rmtree(tmp)
        return n
    ctx.bounded("density fields from files and optimisation results", files, functions=[D + "from_vtk", D + "from_opt_result"], bound="8 element types")

    def closes():
        m = make("HEX8", (2, 2, 2), 0, False)
        f = sd.DensityField(np.ones(len(m.points)), m)
        with quiet():
            v, _ = f.to_mesh(resolution=41, padding=.5)
        expect(np.abs(v.min(0)).max() < .06 and np.abs(v.max(0) - 1).max() < .06, "solid closes at the domain boundary", lo=v.min(0), hi=v.max(0))
        P = np.asarray(m.points)
        f = sd.DensityField(P[:, 0], m)
        with quiet():
            v, _ = f.to_mesh(resolution=31)
        expect(np.abs(v[:, 0] - .5).max() < 1e-6, "iso-surface at the threshold")
        return 2
    ctx.bounded("surface of a density field", closes, functions=[D + "DensityField", D + "SDF.to_mesh"], bound="two fields")


GROUPS = [lattice, unitcell, directional, csg, density]
