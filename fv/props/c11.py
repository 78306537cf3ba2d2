"""C11: structured-grid and narrow-band index maps."""
import itertools
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symint as S, symnp
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

G = "feax/spgrid.py:StructuredGrid."
D = "feax/spgrid.py:SparseDesign."
N = "feax/narrowband.py:NarrowBand."
U = "feax/narrowband.py:SupersetBand."
# corner k of a cell sits at these offsets (the library's HEX8 local order)
CORNERS = [(0, 1, 1), (0, 0, 1), (0, 0, 0), (0, 1, 0), (1, 1, 1), (1, 0, 1), (1, 0, 0), (1, 1, 0)]
DIMS = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (3, 1, 2), (1, 3, 2), (2, 2, 2), (3, 2, 4), (2, 3, 4), (4, 3, 2), (5, 2, 3)]


def sym_grid(mk, spacing=False):
    import feax.spgrid as SG
    g = SG.StructuredGrid.__new__(SG.StructuredGrid)
    for n in ("nx", "ny", "nz"):
        setattr(g, n, mk(n, 1))
    return g


def cell_of(g, mk):
    c = [mk(n, 0) for n in ("cx", "cy", "cz")]
    for v, n in zip(c, (g.nx, g.ny, g.nz)):
        mk("", pre=v < n)
    mk("", hint=(c[0], c[1] * g.nz + c[2]))
    mk("", hint=(c[1], c[2]))
    mk("", lemma=(g.ny - 1 - c[1]) * g.nz >= 0)
    mk("", lemma=c[1] * g.nz >= 0)
    return c, (c[0] * g.ny + c[1]) * g.nz + c[2]


def node_of(g, mk):
    c = [mk(n, 0) for n in ("i", "j", "k")]
    for v, n in zip(c, (g.nx, g.ny, g.nz)):
        mk("", pre=v <= n)
    mk("", hint=(c[0], c[1] * (g.nz + 1) + c[2]))
    mk("", hint=(c[1], c[2]))
    mk("", lemma=(g.ny - c[1]) * (g.nz + 1) >= 0)
    mk("", lemma=c[1] * (g.nz + 1) >= 0)
    return c, (c[0] * (g.ny + 1) + c[1]) * (g.nz + 1) + c[2]


def one(*v):
    return symnp.arr([*v])


def el(a, i=0):
    a = np.asarray(a, dtype=object).ravel()
    return S.ix(a[i])


def with_shim(run):
    def r(mk):
        import feax.spgrid as SG
        with symnp.numpy_as_symbolic(SG, force=False):
            return run(mk)
    return r


# ------------------------------------------------------------------ numbering, every grid size
def numbering(ctx):
    ctx.valid("division theorem used below", S.euclid_uniqueness)
    def th(run, post):
        return lambda: S.prove(with_shim(run), post)

    def r1(mk):
        g = sym_grid(mk)
        c, e = cell_of(g, mk)
        return g, c, e, g.cell_id(one(c[0]), one(c[1]), one(c[2])), g.num_cells
    ctx.valid("cell_id is the documented row-major number and lies in range (all sizes)",
              th(r1, lambda v: [el(v[3]) == S.ix(v[2]), el(v[3]) >= 0, el(v[3]) < S.ix(v[4])]), functions=[G + "cell_id", G + "num_cells"],
              replay=lambda m: rep_numbering(m))

    def r2(mk):
        g = sym_grid(mk)
        c, e = cell_of(g, mk)
        return c, g.cell_ijk(one(e))
    ctx.valid("cell_ijk inverts cell_id (all sizes)", th(r2, lambda v: [el(a) == S.ix(b) for a, b in zip(v[1], v[0])]), functions=[G + "cell_ijk"],
              replay=lambda m: rep_numbering(m))

    def r3(mk):
        g = sym_grid(mk)
        e = mk("e", 0)
        mk("", pre=e < g.nx * g.ny * g.nz)
        return g, e, g.cell_ijk(one(e))

    def p3(v):
        g, e, (a, b, c) = v
        a, b, c = el(a), el(b), el(c)
        ny, nz = S.ix(g.ny), S.ix(g.nz)
        return [a >= 0, b >= 0, c >= 0, b < ny, c < nz, (a * ny + b) * nz + c == S.ix(e)]
    ctx.valid("cell_id inverts cell_ijk and indices are in range (all sizes)", th(r3, p3), functions=[G + "cell_ijk"], replay=lambda m: rep_numbering(m))

    def r4(mk):
        g = sym_grid(mk)
        c, n = node_of(g, mk)
        return n, g.node_id(one(c[0]), one(c[1]), one(c[2])), g.num_nodes
    ctx.valid("node_id is the documented row-major number and lies in range (all sizes)",
              th(r4, lambda v: [el(v[1]) == S.ix(v[0]), el(v[1]) >= 0, el(v[1]) < S.ix(v[2])]), functions=[G + "node_id", G + "num_nodes"],
              replay=lambda m: rep_numbering(m))

    def r5(mk):
        g = sym_grid(mk)
        c, e = cell_of(g, mk)
        g.cell_ijk = lambda ids: tuple(one(x) for x in c)  # the contract of cell_ijk, discharged above
        return g, c, g.cell_to_nodes(one(e))

    def p5(v):
        g, c, nodes = v
        out = []
        for k, o in enumerate(CORNERS):
            i, j, l = (S.ix(x) + d for x, d in zip(c, o))
            out.append(el(nodes, k) == (i * (S.ix(g.ny) + 1) + j) * (S.ix(g.nz) + 1) + l)
        return out
    ctx.valid("cell_to_nodes lists the eight corners in HEX8 order (all sizes)", th(r5, p5), functions=[G + "cell_to_nodes"], replay=lambda m: rep_numbering(m))

    def r6(mk):
        g = sym_grid(mk)
        c, n = node_of(g, mk)
        o = [mk(f"o{a}", real=True) for a in range(3)]
        h = [mk(f"h{a}", real=True) for a in range(3)]
        g.origin, g.spacing = one(*o), one(*h)
        return c, o, h, g.node_coords(one(n))
    ctx.valid("node_coords places node (i,j,k) at origin + (i,j,k)*spacing (all sizes, spacings, origins)",
              th(r6, lambda v: [el(v[3], a) == S.ix(v[1][a]) + z3.ToReal(S.ix(v[0][a])) * S.ix(v[2][a]) for a in range(3)]),
              functions=[G + "node_coords"], replay=lambda m: rep_numbering(m))

    def r7(mk):
        g = sym_grid(mk)
        c, e = cell_of(g, mk)
        o = [mk(f"o{a}", real=True) for a in range(3)]
        h = [mk(f"h{a}", real=True) for a in range(3)]
        g.origin, g.spacing = one(*o), one(*h)
        return c, o, h, g.cell_centroids(one(e))
    ctx.valid("cell_centroids are the midpoints of the cells (all sizes, spacings, origins)",
              th(r7, lambda v: [el(v[3], a) == S.ix(v[1][a]) + (z3.ToReal(S.ix(v[0][a])) + z3.RealVal("1/2")) * S.ix(v[2][a]) for a in range(3)]),
              functions=[G + "cell_centroids"], replay=lambda m: rep_numbering(m))

    def r8(mk):
        g = sym_grid(mk)
        o = [mk(f"o{a}", real=True) for a in range(3)]
        g.origin, g.spacing = one(*o), one(1, 1, 1)
        p = [mk(f"p{a}", real=True) for a in range(3)]
        return g, [a - b for a, b in zip(p, o)], g.point_cells(symnp.arr([p]))

    def p8(v):
        g, d, cid = v
        ny, nz = S.ix(g.ny), S.ix(g.nz)
        f = [z3.ToInt(S.ix(x)) for x in d]
        inb = z3.And(*[z3.And(S.ix(x) >= 0, S.ix(x) < z3.ToReal(S.ix(n))) for x, n in zip(d, (g.nx, g.ny, g.nz))])
        return [z3.Implies(inb, el(cid) == (f[0] * ny + f[1]) * nz + f[2]), z3.Implies(z3.Not(inb), el(cid) == -1)]
    ctx.valid("point_cells: the containing cell or -1 outside (all sizes, points, origins; unit spacing)", th(r8, p8), functions=[G + "point_cells"],
              replay=lambda m: rep_points())


def rep_numbering(model=None):
    from feax.spgrid import StructuredGrid
    dims = list(DIMS)
    if isinstance(model, dict) and all(k in model for k in ("nx", "ny", "nz")) and all(0 < model[k] < 60 for k in ("nx", "ny", "nz")):
        dims.insert(0, (model["nx"], model["ny"], model["nz"]))
    for dm in dims:
        h, o = np.array([.5, 1.25, 2.]), np.array([-1., 3., .5])
        g = StructuredGrid(dm, spacing=h, origin=o)
        nx, ny, nz = dm
        expect((g.num_cells, g.num_nodes) == (nx * ny * nz, (nx + 1) * (ny + 1) * (nz + 1)), "counts", dims=dm)
        ijk = np.array(list(itertools.product(range(nx), range(ny), range(nz))))
        e = g.cell_id(ijk[:, 0], ijk[:, 1], ijk[:, 2])
        expect(np.array_equal(e, np.arange(g.num_cells)), "cell_id is row-major", dims=dm)
        expect(np.array_equal(np.stack(g.cell_ijk(e), 1), ijk), "cell_ijk inverts cell_id", dims=dm)
        n = np.array(list(itertools.product(range(nx + 1), range(ny + 1), range(nz + 1))))
        nid = g.node_id(n[:, 0], n[:, 1], n[:, 2])
        expect(np.array_equal(nid, np.arange(g.num_nodes)), "node_id is row-major", dims=dm)
        expect_close(g.node_coords(nid), o + n * h, "node_coords")
        expect_close(g.cell_centroids(e), o + (ijk + .5) * h, "cell_centroids")
        cn = g.cell_to_nodes(e)
        want = np.stack([((ijk[:, 0] + a) * (ny + 1) + ijk[:, 1] + b) * (nz + 1) + ijk[:, 2] + c for a, b, c in CORNERS], 1)
        expect(np.array_equal(cn, want), "cell_to_nodes", dims=dm)
    return len(dims)


def grid_exec(ctx):
    from feax.spgrid import StructuredGrid
    ctx.bounded("numbering on enumerated grids (anisotropic sizes and spacings)", rep_numbering, functions=[G + k for k in ("cell_id", "cell_ijk", "node_id", "node_coords", "cell_to_nodes", "cell_centroids")])

    def to_mesh():
        k = 0
        for dm in DIMS:
            g = StructuredGrid(dm, spacing=(.5, 1.25, 2.), origin=(-1., 3., .5))
            rng = np.random.RandomState(3)
            subs = [None, np.arange(g.num_cells)] + [np.sort(rng.choice(g.num_cells, rng.randint(1, g.num_cells + 1), replace=False)) for _ in range(4)] + [rng.permutation(g.num_cells)[: max(1, g.num_cells // 2)]]
            for s in subs:
                m = g.to_mesh(s)
                ids = np.arange(g.num_cells) if s is None else s
                full = g.cell_to_nodes(ids)
                used = np.unique(full)
                expect(m.ele_type == "HEX8", "element type")
                expect(len(m.points) == len(used), "exactly the used nodes", dims=dm, cells=s)
                expect_close(np.asarray(m.points)[np.asarray(m.cells)], g.node_coords(full), "corner coordinates of every cell", dims=dm, cells=s)
                k += 1
        return k
    ctx.bounded("to_mesh materializes exactly the chosen cells", to_mesh, functions=[G + "to_mesh"])

    def where():
        for dm in DIMS:
            h, o = np.array([.5, 1.25, 2.]), np.array([-1., 3., .5])
            g = StructuredGrid(dm, spacing=h, origin=o)
            c = g.cell_centroids(np.arange(g.num_cells))
            rng = np.random.RandomState(4)
            w = rng.normal(size=3)
            t = float(np.median(c @ w))
            got = np.sort(g.cells_where(lambda q: q @ w <= t))
            expect(np.array_equal(got, np.nonzero(c @ w <= t)[0]), "cells_where", dims=dm)
            nx, ny, nz = dm
            sel = np.sort(np.ravel(g.nodes_where(lambda i, j, k: (i == nx) & (j <= ny // 2) | (k == 0) & (j == ny))))
            n = np.array(list(itertools.product(range(nx + 1), range(ny + 1), range(nz + 1))))
            want = np.nonzero((n[:, 0] == nx) & (n[:, 1] <= ny // 2) | (n[:, 2] == 0) & (n[:, 1] == ny))[0]
            expect(np.array_equal(sel, want), "nodes_where", dims=dm)
        return len(DIMS)
    ctx.bounded("cells_where / nodes_where select exactly the satisfying cells / nodes", where, functions=[G + "cells_where", G + "nodes_where"])
    ctx.bounded("point_cells and voxelize on points, faces and outside", rep_points, functions=[G + "point_cells", G + "voxelize"])
    ctx.bounded("dilate_cells is the clipped box neighbourhood", rep_dilate, functions=[G + "dilate_cells"])

    def fit():
        rng = np.random.RandomState(5)
        k = 0
        for trial in range(40):
            p = rng.normal(size=(rng.randint(2, 12), 3)) * rng.uniform(.5, 5, 3) + rng.normal(size=3)
            lo, hi = p.min(0), p.max(0)
            h = rng.uniform(.2, 1., 3) if trial % 2 else float(rng.uniform(.2, 1.))
            pad = int(rng.randint(1, 3))
            g = StructuredGrid.fit(p, h=h, pad_cells=pad, align=[None, 2, 4][trial % 3])
            c = g.point_cells(p)
            expect((c >= 0).all(), "every point lies inside the fitted grid", trial=trial)
            expect_close(g.spacing, np.broadcast_to(h, 3), "spacing")
            top = g.origin + np.array([g.nx, g.ny, g.nz]) * g.spacing
            expect((g.origin <= lo - pad * g.spacing + 1e-9).all() and (top >= hi + pad * g.spacing - 1e-9).all(), "margin of pad cells on every side", trial=trial)
            al = [None, 2, 4][trial % 3]
            if al:
                expect(g.nx % al == 0 and g.ny % al == 0 and g.nz % al == 0, "aligned", trial=trial)
                slack = np.array([g.nx, g.ny, g.nz]) - np.ceil((hi + pad * g.spacing - g.origin) / g.spacing)
                expect((slack < al).all(), "rounded up to the next multiple only", trial=trial)
            else:
                expect((top < hi + (pad + 1) * g.spacing + 1e-9).all(), "no more cells than needed", trial=trial)
            org = lo - rng.uniform(pad + .1, 3., 3) * np.broadcast_to(h, 3) * 1.5
            g = StructuredGrid.fit(p, h=h, pad_cells=pad, origin=tuple(org))
            expect_close(g.origin, org, "given origin kept")
            top = org + np.array([g.nx, g.ny, g.nz]) * g.spacing
            expect((top >= hi + pad * g.spacing - 1e-9).all() and (top < hi + (pad + 1) * g.spacing + 1e-9).all(), "grid from a given origin reaches past the points by the margin", trial=trial)
            expect((g.point_cells(p) >= 0).all(), "every point lies inside the grid placed at a given origin", trial=trial)
            d = rng.randint(1, 6, 3)
            g = StructuredGrid.fit(p, dims=tuple(d))
            expect((g.nx, g.ny, g.nz) == tuple(d), "dims kept")
            expect_close(g.origin, lo, "origin")
            expect_close(g.origin + d * g.spacing, hi, "exactly spans the bounding box")
            k += 2
        expect_raises(lambda: StructuredGrid.fit(np.zeros((2, 3))), "neither h nor dims", ValueError)
        return k
    ctx.bounded("fit encloses the points with the requested cells and margin", fit, functions=[G + "fit"])

    def vox():
        from feax.spgrid import voxelize_mesh
        rng = np.random.RandomState(6)
        k = 0
        for size, h in (((2., 1., 1.), .5), ((1., 1., 1.), .4), ((1., 1., 1.), .09)):
            for et in ("HEX8", "TET4", "TET10"):
                mesh = X.mesh(et, (2, 1, 2), L=size)
                g = StructuredGrid.fit(np.asarray(mesh.points), h=h, pad_cells=1)
                for sub in (0, 2, 3):
                    act = voxelize_mesh(g, mesh, subsamples=sub)
                    expect(np.array_equal(act, np.unique(act)) and (act >= 0).all() and (act < g.num_cells).all(), "sorted unique valid ids")
                    pts, cells = np.asarray(mesh.points), np.asarray(mesh.cells)
                    expect(np.isin(g.point_cells(pts), act).all(), "cells of all nodes are active")
                    expect(np.isin(g.point_cells(pts[cells].mean(1)), act).all(), "cells of all centroids are active")
                    cen = pts[cells].mean(1)[:, None]  # the documented samples: `sub` points between centroid and each node
                    smp = [(cen + f * (pts[cells] - cen)).reshape(-1, 3) for f in np.linspace(.25, .75, sub)]
                    smp = [q_[(np.abs((q_ - g.origin) / g.spacing - np.round((q_ - g.origin) / g.spacing)) > 1e-7).all(1)] for q_ in smp]  # off the cell faces
                    expect(all(np.isin(g.point_cells(q_), act).all() for q_ in smp), "cells of the interior samples are active", sub=sub, ele=et)
                    c = g.cell_centroids(act)
                    expect(((c > pts.min(0) - h) & (c < pts.max(0) + h)).all(), "no cell away from the mesh")
                    k += 1
        return k
    ctx.bounded("voxelize_mesh marks the cells the mesh occupies", vox, functions=["feax/spgrid.py:voxelize_mesh"])


def rep_points():
    from feax.spgrid import StructuredGrid
    for dm in DIMS:
        h, o = np.array([.5, .25, 2.]), np.array([-1., 3., .5])
        g = StructuredGrid(dm, spacing=h, origin=o)
        rng = np.random.RandomState(7)
        t = np.concatenate([rng.uniform(-1, np.array(dm) + 1, size=(200, 3)), rng.randint(-1, np.array(dm) + 2, size=(100, 3)).astype(float)])
        ijk = np.floor(t).astype(int)
        inb = ((ijk >= 0) & (ijk < np.array(dm))).all(1)
        want = np.where(inb, (ijk[:, 0] * dm[1] + ijk[:, 1]) * dm[2] + ijk[:, 2], -1)
        got = g.point_cells(o + t * h)
        frac = np.abs(t - np.round(t)).min(1) > 1e-9
        keep = frac | (t == np.round(t)).all(1)
        bad = np.nonzero((got != want) & keep)[0]
        expect(bad.size == 0, "containing cell or -1", dims=dm, point=(o + t * h)[bad[:1]])
        expect(np.array_equal(np.sort(g.voxelize(o + t[:20] * h)), np.unique(want[:20][want[:20] >= 0])), "voxelize", dims=dm)
    return len(DIMS)


def box_nbrs(dm, cells, m):
    nx, ny, nz = dm
    out = set()
    for e in cells:
        i, j, k = e // (ny * nz), e // nz % ny, e % nz
        for a in range(max(0, i - m), min(nx, i + m + 1)):
            for b in range(max(0, j - m), min(ny, j + m + 1)):
                for c in range(max(0, k - m), min(nz, k + m + 1)):
                    out.add((a * ny + b) * nz + c)
    return np.array(sorted(out), int)


def rep_dilate(model=None):
    from feax.spgrid import StructuredGrid
    k = 0
    for dm in DIMS + [(5, 4, 6)]:
        g = StructuredGrid(dm)
        n = g.num_cells
        rng = np.random.RandomState(8)
        sets = [[e] for e in range(n)] + [rng.choice(n, rng.randint(1, n + 1), replace=False) for _ in range(10)]
        for s in sets:
            for m in (0, 1, 2, 3):
                got = g.dilate_cells(np.array(s), margin=m)
                expect(np.array_equal(got, box_nbrs(dm, s, m)), "clipped box neighbourhood", dims=dm, cells=np.array(s), margin=m, got=got)
                k += 1
    return k


def dilation(ctx):
    """one active cell at any position of a grid of any size: the result is exactly the in-range neighbours"""
    def run(mk):
        g = sym_grid(mk)
        c, e = cell_of(g, mk)
        g.cell_ijk = lambda ids: tuple(one(x) for x in c)
        import feax.spgrid as SG
        if getattr(SG.onp, "concatenate", None) is None:
            raise Skip("numpy alias")
        for v, n in zip(c, (g.nx, g.ny, g.nz)):  # case split: at the lower / upper face of the grid or not
            bool(v - 1 >= 0), bool(v + 1 < n)
        out = g.dilate_cells(one(e), margin=1)
        return g, c, [S.ix(x) for x in np.asarray(out, dtype=object).ravel()]

    def post(v):
        g, c, out = v
        nx, ny, nz = (S.ix(x) for x in (g.nx, g.ny, g.nz))
        c = [S.ix(x) for x in c]
        pc = S._State.cur.pc
        goals, cnt = [], 0
        for d in itertools.product((-1, 0, 1), repeat=3):
            i, j, k = (a + b for a, b in zip(c, d))
            inside = z3.And(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz)
            s = z3.Solver()
            s.add(*pc, z3.Not(inside))
            if s.check() == z3.unsat:  # in range on this path: listed
                cnt += 1
                goals.append(z3.Or(*[o == (i * ny + j) * nz + k for o in out]) if out else z3.BoolVal(False))
            else:
                goals.append(z3.Not(inside))
        goals.append(z3.BoolVal(len(out) == cnt))  # and nothing else (ids are injective on in-range triples)
        return goals
    ctx.valid("dilate_cells of one cell, margin 1: exactly the in-range neighbours (all sizes and positions)",
              lambda: S.prove(with_shim(run), post, max_paths=600), functions=[G + "dilate_cells"], replay=rep_dilate)


# ------------------------------------------------------------------ sparse design: all values
def sparse(ctx):
    import feax.spgrid as SG

    def hosted(f):
        def g(*a):
            with symnp.numpy_as_symbolic(SG):
                return np.asarray(f(*a), dtype=object)
        return g
    cases = [([3, 0, 7], [7, 0, 1, 3, 99]), ([5], [5, 4, 6]), ([9, 2, 4, 1], [1, 2, 3, 4, 9, 9]), ([1, 2, 3], [0]), ([100, 50], [50, 100, 2147483647])]
    for ids, q in cases:
        def gat(v, d):
            return SG.SparseDesign(np.array(ids), v).gather(np.array(q), default=d)

        def gat_s(v, d):
            return np.array([v[ids.index(k)] if k in ids else np.asarray(d, dtype=object)[()] for k in q], dtype=object)
        ctx.equal(f"gather from store {ids} at {q}: stored value or default", hosted(gat), gat_s, (Sx("v", (len(ids),), zeros=True), Sx("d", ())), engine="host",
                  functions=[D + "gather", D + "__init__"], replay=(gat, lambda v, d: np.array([v[ids.index(k)] if k in ids else d for k in q], float)))
        for new in ([ids[0], 11], [12, 13], ids[::-1], [0]):
            def upd(v, w):
                s = SG.SparseDesign(np.array(ids), v).update(np.array(new), w)
                allid = sorted(set(ids) | set(new))
                return np.concatenate([s.gather(np.array(allid), default=-5.0), np.asarray(s.vals)])

            def upd_s(v, w):
                allid = sorted(set(ids) | set(new))
                x = [w[new.index(k)] if k in new else v[ids.index(k)] for k in allid]
                return np.array(x + x, dtype=object)
            ctx.equal(f"update of store {ids} with {new}: new overwrites, old kept, keys sorted", hosted(upd), upd_s, (Sx("v", (len(ids),), zeros=True), Sx("w", (len(new),), zeros=True)),
                      engine="host", functions=[D + "update", D + "gather"], replay=(upd, lambda v, w: np.asarray(upd_s(v, w), float)))

    def exec_():
        from feax.spgrid import SparseDesign, StructuredGrid
        from feax.traced_params import TracedParams
        k = 0
        for trial in range(60):
            rng = np.random.RandomState(trial)
            dm = DIMS[trial % len(DIMS)]
            g = StructuredGrid(dm)
            n = g.num_cells
            ref = {}
            s = SparseDesign(np.array([], int), np.array([]))
            for step in range(5):  # a history of updates against a dictionary
                ids = rng.permutation(n)[: rng.randint(1, n + 1)]
                vals = rng.uniform(size=len(ids)) if trial % 2 else rng.choice([0., .25, .5, 1.], size=len(ids))
                s2 = (s.update if step % 2 else s.updated)(ids, vals) if trial % 3 else s.updated(ids, TracedParams(volume_vars=(jnp.asarray(vals),)))
                before = {int(a): float(b) for a, b in zip(s.ids, s.vals)}
                expect(before == ref, "update must not change the old store", trial=trial)
                ref = {**ref, **{int(a): float(b) for a, b in zip(ids, vals)}}
                s = s2
                q = rng.randint(0, n + 3, size=12)
                expect_close(s.gather(q, default=-2.), [ref.get(int(a), -2.) for a in q], "gather after history", trial=trial)
                expect(np.array_equal(s.ids, np.sort(s.ids)) and len(s.ids) == len(ref), "sorted unique keys", trial=trial)
                thr = float(rng.uniform()) if trial % 2 else float(rng.choice([0., .25, .5]))  # even trials: values equal to the threshold and stored zeros
                act = np.array(sorted(a for a, b in ref.items() if b > thr), int)
                expect(np.array_equal(np.sort(s.active_ids(thr)), act), "active_ids", trial=trial)
                if act.size:
                    for m in (0, 1, 2):
                        keep = rng.choice(n, min(2, n), replace=False) if step % 2 else None
                        want = box_nbrs(dm, act, m)
                        want = want if keep is None else np.union1d(want, keep)
                        got = s.band_cells(g, thr, margin=m, keep_ids=keep)
                        expect(np.array_equal(np.sort(got), want), "band = dilated active cells and the kept ones", trial=trial, margin=m)
                        tp = s.traced_params(got, default=.25, extra_vars=(jnp.arange(3.),))
                        expect_close(tp.volume_vars[0], [ref.get(int(a), .25) for a in got], "traced_params", trial=trial)
                        expect(len(tp.volume_vars) == 2, "extra vars appended")
                k += 1
            u = SparseDesign.uniform(np.arange(n)[::-1], .3)
            expect_close(u.gather(np.arange(n)), np.full(n, .3), "uniform")
        big = SparseDesign(np.array([4, 2 ** 31 - 1]), np.array([1., 2.]))
        expect_close(big.gather(np.array([2 ** 31 - 1, 4, 5])), [2., 1., 0.], "largest id")
        expect_raises(lambda: SparseDesign(np.array([2 ** 31]), np.array([1.])), "id beyond int32", AssertionError)
        return k
    ctx.bounded("store histories, thresholds and bands agree with a dictionary", exec_, functions=[D + x for x in ("update", "gather", "active_ids", "band_cells", "traced_params", "updated", "uniform")])


# ------------------------------------------------------------------ narrow bands
def band_sets(n, rng, k):
    yield np.arange(n)
    for e in (0, n - 1, n // 2):
        yield np.array([e])
    for _ in range(k):
        yield np.sort(rng.choice(n, rng.randint(1, n + 1), replace=False))
    yield rng.permutation(n)[: max(1, n // 2)]


def domains():
    from feax.spgrid import StructuredGrid
    for dm in [(2, 3, 2), (1, 1, 4), (3, 2, 1)]:
        yield f"grid {dm}", StructuredGrid(dm, spacing=(.5, 1.25, 2.), origin=(-1., 3., .5))
    for ele, ns in [("QUAD4", (3, 2)), ("TRI3", (2, 2)), ("TRI6", (2, 1)), ("QUAD8", (2, 2)), ("HEX8", (2, 2, 1)), ("TET4", (1, 1, 2)), ("TET10", (1, 1, 1)), ("HEX20", (2, 1, 1))]:
        yield ele, X.mesh(ele, ns)


def narrow(ctx):
    from feax.narrowband import NarrowBand
    from feax.spgrid import StructuredGrid

    def maps():
        k = 0
        for name, dom in domains():
            grid = isinstance(dom, StructuredGrid)
            n = dom.num_cells if grid else len(dom.cells)
            nn = dom.num_nodes if grid else len(dom.points)
            full = dom.cell_to_nodes(np.arange(n)) if grid else np.asarray(dom.cells)
            pts = dom.node_coords(np.arange(nn)) if grid else np.asarray(dom.points)
            for a in band_sets(n, np.random.RandomState(2), 12 if not ctx.thorough else 60):
                b = NarrowBand(dom, a)
                expect(np.array_equal(b.active_cells, a), "active_cells kept in order", domain=name, active=a)
                expect(np.array_equal(np.sort(b.node_map), np.unique(full[a])), "exactly the touched nodes, once each", domain=name, active=a)
                expect(np.array_equal(b.node_map[np.asarray(b.mesh.cells)], full[a]), "band connectivity is the full connectivity", domain=name, active=a)
                expect_close(b.mesh.points, pts[b.node_map], "band node coordinates", domain=name, active=a)
                expect(b.mesh.ele_type == dom.ele_type, "element type", domain=name)
                expect((b.num_full_cells, b.num_full_nodes, b.num_active_cells, b.num_band_nodes) == (n, nn, len(a), len(np.unique(full[a]))), "counts", domain=name, active=a)
                k += 1
        return k
    ctx.bounded("band sub-mesh and its maps on enumerated active sets", maps, functions=[N + "__init__", N + "num_active_cells", N + "num_band_nodes"])

    import feax.narrowband as NB
    doms = [("grid", StructuredGrid((2, 2, 1)), np.array([3, 0])), ("QUAD4", X.mesh("QUAD4", (3, 2)), np.array([1, 4, 5])),
            ("TET4", X.mesh("TET4", (1, 1, 1)), np.array([2, 0])), ("all", X.mesh("TRI3", (2, 1)), np.arange(4))]
    for name, dom, act in doms:
        b = NarrowBand(dom, act)
        nc, nn = b.num_full_cells, b.num_full_nodes
        cells = np.asarray(b.mesh.cells)
        nm, na, nb = b.node_map, b.num_active_cells, b.num_band_nodes

        def hosted(f):
            def g(*a):
                with symnp.numpy_as_symbolic(NB):
                    return [np.asarray(x, dtype=object) for x in f(*a)]
            return g

        def fl(x):
            return np.asarray(x, float)

        def ops(fc, bc, fill, us, uf):
            out = [b.gather_cells(fc), b.scatter_cells(bc, fill=fill), b.gather_cells(b.scatter_cells(bc, fill=fill))]
            for v, s, u in zip((1, 2, 3), us, uf):
                out += [b.scatter_sol(s, v), b.gather_sol(u, v), b.gather_sol(b.scatter_sol(s, v), v)]
            return out

        def ops_s(fc, bc, fill, us, uf, dt=object):
            fill = np.asarray(fill, dtype=dt)[()]
            sc = np.array([bc[list(act).index(e)] if e in act else fill for e in range(nc)], dtype=dt)
            out = [np.array([fc[e] for e in act], dtype=dt), sc, np.array(list(bc), dtype=dt)]
            for v, s, u in zip((1, 2, 3), us, uf):
                pos = {int(g): i for i, g in enumerate(nm)}
                out += [np.array([s[pos[g] * v + c] if g in pos else 0.0 for g in range(nn) for c in range(v)], dtype=dt),
                        np.array([u[g * v + c] for g in nm for c in range(v)], dtype=dt), np.array(list(s), dtype=dt)]
            return out
        args = (Sx("fc", (nc,)), Sx("bc", (na,)), Sx("fill", ()), tuple(Sx(f"s{v}", (nb * v,)) for v in (1, 2, 3)), tuple(Sx(f"u{v}", (nn * v,)) for v in (1, 2, 3)))
        ctx.equal(f"{name}: gather/scatter of cell and nodal fields touch exactly the active entries", hosted(ops), ops_s, args, engine="host",
                  functions=[N + x for x in ("gather_cells", "scatter_cells", "scatter_sol", "gather_sol")],
                  replay=(lambda *a: [fl(x) for x in ops(*a)], lambda *a: ops_s(*a, dt=float)))
        if nc != nn and na != nb:
            from feax.traced_params import TracedParams

            def tp(c, p, q, bc, bp):
                g = b.gather_params(TracedParams(volume_vars=(c, p, q)))
                s = b.scatter_params(TracedParams(volume_vars=(bc, bp)), fill=.5)
                r = b.gather_params(s)
                return list(g.volume_vars) + list(s.volume_vars) + list(r.volume_vars)

            def tp_s(c, p, q, bc, bp):
                sc = jnp.stack([bc[list(act).index(e)] if e in act else jnp.full_like(bc[0], .5) for e in range(nc)])
                pos = {int(g): i for i, g in enumerate(nm)}
                sp = jnp.stack([bp[pos[g]] if g in pos else jnp.asarray(.5) for g in range(nn)])
                return [jnp.stack([c[e] for e in act]), jnp.stack([p[g] for g in nm]), jnp.stack([q[e] for e in act]), sc, sp, bc, bp]
            ctx.equal(f"{name}: parameter bridge gathers/scatters by cell or node", tp, tp_s,
                      (Sx("c", (nc,)), Sx("p", (nn,)), Sx("q", (nc, 2)), Sx("bc", (na, 2)), Sx("bp", (nb,))),
                      functions=[N + "gather_params", N + "scatter_params"])
            ctx.equal(f"{name}: the bridge is its own transpose", lambda c, w: jax.vjp(lambda v: b.gather_params(TracedParams(volume_vars=(v,))).volume_vars[0], c)[1](w)[0],
                      lambda c, w: b.scatter_params(TracedParams(volume_vars=(w,)), fill=0.0).volume_vars[0], (Sx("c", (nc,)), Sx("w", (na,))),
                      functions=[N + "gather_params", N + "scatter_params"])

    def rejects():
        from feax.traced_params import TracedParams
        b = NarrowBand(X.mesh("QUAD4", (3, 2)), np.array([1, 2]))
        expect_raises(lambda: b.gather_params(TracedParams(volume_vars=(jnp.zeros(5),))), "foreign leading dimension", ValueError)
        expect_raises(lambda: b.scatter_params(TracedParams(volume_vars=(jnp.zeros(50),))), "foreign leading dimension", ValueError)
        expect_raises(lambda: b.gather_params(TracedParams(volume_vars=(jnp.zeros(6),), surface_vars=((jnp.zeros(2),),))), "surface variables", ValueError)
    ctx.bounded("parameters that belong to neither cells nor nodes are rejected", rejects, functions=[N + "gather_params", N + "scatter_params"])

    def alias():
        g = StructuredGrid((2, 2, 1), spacing=(.5, 1., 2.))
        a, b = NarrowBand(g, [3, 1]), NarrowBand.from_structured_grid(g, [3, 1])
        c = NarrowBand(g.to_mesh(), [3, 1])
        for o in (b, c):
            expect(np.array_equal(a.node_map, o.node_map) and np.array_equal(np.asarray(a.mesh.cells), np.asarray(o.mesh.cells)), "same band from grid, alias and explicit mesh")
            expect_close(a.mesh.points, o.mesh.points, "same points")
    ctx.bounded("grid, alias and explicit mesh give the same band", alias, functions=[N + "from_structured_grid"])


def ring_of(cells, seed, m):
    act = set(int(s) for s in seed)
    for _ in range(m):
        nodes = set(cells[sorted(act)].ravel().tolist()) if act else set()
        act = {e for e in range(len(cells)) if nodes & set(cells[e].tolist())}
    return np.array(sorted(act), int)


def fields(ctx):
    from feax.narrowband import NarrowBand, SupersetBand

    def from_field():
        k = 0
        for name, mesh in domains():
            if not hasattr(mesh, "cells"):
                continue
            cells, nn = np.asarray(mesh.cells), len(mesh.points)
            for trial in range(6):
                rng = np.random.RandomState(trial)
                f, g = rng.uniform(size=len(cells)), rng.uniform(size=nn)
                f[rng.randint(len(cells))] = 1.
                g[cells[0, 0]] = 1.
                t = float(np.sort(f)[len(f) // 2])  # equality with the threshold occurs: strictly greater is active
                keep = rng.choice(len(cells), 2) if trial % 2 else None
                for m in (0, 1, 2):
                    for cf in (True, False):
                        fld = f if cf else g
                        tt = t if cf else (.8 if m else float(np.sort(g[cells].max(1))[len(cells) // 2]))
                        b = NarrowBand.from_field(mesh, fld, tt, margin=m, keep_cells=keep, cell_field=cf)
                        seed = np.nonzero(f > tt)[0] if cf else np.array([e for e in range(len(cells)) if (g[cells[e]] > tt).any()])
                        want = ring_of(cells, seed, m)
                        want = want if keep is None else np.union1d(want, keep)
                        expect(np.array_equal(np.sort(b.active_cells), want), "band = dilated seed and kept cells", domain=name, trial=trial, margin=m, cell_field=cf)
                        k += 1
        return k
    ctx.bounded("from_field: strictly above threshold, dilated ring by ring, kept cells added", from_field, functions=[N + "from_field", "feax/narrowband.py:_node_adjacent_cells"])

    def superset():
        k = 0
        for name, mesh in domains():
            if not hasattr(mesh, "cells"):
                continue
            cells = np.asarray(mesh.cells)
            n = len(cells)
            for margin, guard in ((2, 1), (1, 0), (1, 1), (0, 0), (2, 2), (1, 2)):
                sb = SupersetBand(mesh, margin=margin, guard=guard)
                rng = np.random.RandomState(margin * 7 + guard)
                expect(sb.needs_reextract(np.array([0])) is True or bool(sb.needs_reextract(np.array([0]))), "no superset yet", domain=name)
                sup = None
                for step in range(10):
                    act = rng.choice(n, rng.randint(1, max(2, n // 4) + 1), replace=False)
                    if sup is not None:
                        want = not set(ring_of(cells, act, guard)) <= sup
                        expect(bool(sb.needs_reextract(act)) == want, "re-extract exactly when the guarded band leaves the superset", domain=name, margin=margin, guard=guard, active=act, superset=sorted(sup))
                    if sup is None or step % 3 == 0:
                        b = sb.reextract(act)
                        sup = set(ring_of(cells, act, margin).tolist())
                        expect(set(np.asarray(b.active_cells).tolist()) == sup, "superset = dilated active set", domain=name, margin=margin)
                        expect(sb.band is b or np.array_equal(sb.band.active_cells, b.active_cells), "current band")
                    f = rng.uniform(size=n)
                    ac = sb.band.active_cells
                    expect_close(sb.map_cells(f), f[ac], "map_cells")
                    full = np.full(n, -3.)
                    full[ac] = f[ac]
                    expect_close(sb.scatter_cells(f[ac], fill=-3.), full, "scatter_cells")
                    u = rng.uniform(size=(len(mesh.points), 2))
                    z = np.zeros_like(u)
                    z[sb.band.node_map] = u[sb.band.node_map]
                    expect_close(sb.scatter_sol(u[sb.band.node_map].ravel(), 2), z.ravel(), "scatter_sol")
                    k += 1
        return k
    ctx.bounded("superset-band histories", superset, functions=[U + x for x in ("reextract", "needs_reextract", "map_cells", "scatter_cells", "scatter_sol")])


def operators(ctx):
    """the operator assembled on the band is the full operator of the active cells, restricted"""
    from feax.narrowband import NarrowBand
    from feax.spgrid import StructuredGrid
    from feax.traced_params import TracedParams
    import feax.assembler as AS
    for name, dom, act in [("QUAD4", X.mesh("QUAD4", (2, 2)), np.array([3, 0, 1])), ("TRI6", X.mesh("TRI6", (2, 1)), np.array([1, 2])),
                           ("grid", StructuredGrid((2, 1, 1), spacing=(.5, 1.25, 2.), origin=(-1., 3., .5)), np.array([1]))]:
        full_mesh = dom.to_mesh() if isinstance(dom, StructuredGrid) else dom
        b = NarrowBand(dom, act)
        if b.num_full_cells == b.num_full_nodes or b.num_active_cells == b.num_band_nodes:
            continue
        dim = np.shape(full_mesh.points)[1]
        maps = {"get_tensor_map": lambda g, k: k * g, "get_mass_map": lambda u, x, k: k * (u + x[0])}
        Pf, Pb = (X.make_problem(m, 1, dim, dom.ele_type, maps) for m in (full_mesh, b.mesh))

        def res(P):
            return lambda u, tp: AS.get_res(P, P.unflatten_fn_sol_list(u), tp)[0][:, 0]
        resf, resb = res(Pf), res(Pb)
        nm = b.node_map

        def fn(u, r):
            return resb(u[nm], b.gather_params(TracedParams(volume_vars=(r,))))

        def spec(u, r):
            mask = np.zeros(b.num_full_cells)
            mask[act] = 1.
            z = jnp.zeros_like(u).at[nm].set(u[nm])
            return resf(z, TracedParams(volume_vars=(r * mask,)))[nm]
        ctx.equal(f"{name}: band operator is the restricted full operator", fn, spec, (Sx("u", (b.num_full_nodes,)), Sx("r", (b.num_full_cells,))),
                  functions=[N + "__init__", N + "gather_params", G + "to_mesh"])


GROUPS = [numbering, grid_exec, dilation, sparse, narrow, fields, operators]
