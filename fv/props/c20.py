"""C20: mesh generators, mesh and field output, field transfer."""
import itertools
import math
import os
import shutil
import tempfile
import contextlib
import io
import xml.etree.ElementTree as ET
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symint as S, symnp, gridfn
from fv.contract import Sx, Skip, expect, expect_close, expect_raises

M_ = "feax/mesh.py:"
U_ = "feax/utils.py:"
A_ = "feax/gene/adaptive.py:"
C_ = "feax/mechanics/copv.py:"
OFF = {"QUAD4": [(0, 0), (2, 0), (2, 2), (0, 2)]}
OFF["QUAD8"] = OFF["QUAD4"] + [(1, 0), (2, 1), (1, 2), (0, 1)]
OFF["QUAD9"] = OFF["QUAD8"] + [(1, 1)]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


# ------------------------------------------------------------------ generic mesh contract
FACES = {"TRI3": [(0, 1), (1, 2), (2, 0)], "QUAD4": [(0, 1), (1, 2), (2, 3), (3, 0)],
         "TET4": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)],
         "HEX8": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]}
LIN = {"TRI6": "TRI3", "QUAD8": "QUAD4", "QUAD9": "QUAD4", "TET10": "TET4", "HEX20": "HEX8"}
NN = {"TRI3": 3, "QUAD4": 4, "TET4": 4, "HEX8": 8, "TRI6": 6, "QUAD8": 8, "QUAD9": 9, "TET10": 10, "HEX20": 20}


def cell_volumes(m):
    """(min over sample points of det J, volume) per cell, from the reference shape functions of femlib"""
    e = m.ele_type
    d = F.DIM[e]
    P, C = np.asarray(m.points)[:, :d], np.asarray(m.cells)
    n = 3
    g, w = np.polynomial.legendre.leggauss(n)
    g, w = (g + 1) / 2, w / 2
    pts, ws = [], []
    for t in itertools.product(range(n), repeat=d):
        x = np.array([g[k] for k in t])
        wt = np.prod([w[k] for k in t])
        if e[:3] in ("TRI", "TET"):  # collapsed coordinates
            y = x.copy()
            f = 1.0
            for k in range(1, d):
                f *= np.prod([1 - x[j] for j in range(k)]) / 1.0
                y[k] = x[k] * np.prod([1 - x[j] for j in range(k)])
            x, wt = y, wt * f
        pts.append(x)
        ws.append(wt)
    dN = np.stack([F.shape_grad(e, x) for x in pts])  # (q, n, d)
    J = np.einsum("cni,qnj->cqij", P[C], dN)
    det = np.linalg.det(J)
    return det.min(1), det @ np.array(ws)


def contract(tag, m, ele, volume=None, boundary=None, tol=1e-8):
    P, C = np.asarray(m.points), np.asarray(m.cells)
    expect(m.ele_type == ele and C.shape[1] == NN[ele], f"{tag}: element type", got=(m.ele_type, C.shape))
    expect(C.min() >= 0 and C.max() < len(P), f"{tag}: node ids in range")
    expect(len(np.unique(C)) == len(P), f"{tag}: every node is used")
    expect(len(np.unique(np.round(P, 9), axis=0)) == len(P), f"{tag}: nodes are distinct points")
    expect(all(len(set(c)) == len(c) for c in C.tolist()), f"{tag}: cells have distinct nodes")
    mn, vol = cell_volumes(m)
    expect(np.all(mn > 0), f"{tag}: positively oriented cells", worst=mn.min())
    if volume is not None:
        expect_close(vol.sum(), volume, f"{tag}: total volume", rtol=tol, atol=tol)
    # conforming: every facet belongs to one or two cells; the once-used facets form a closed boundary
    base = LIN.get(ele, ele)
    cnt = {}
    for c in C.tolist():
        for f in FACES[base]:
            k = tuple(sorted(c[i] for i in f))
            cnt[k] = cnt.get(k, 0) + 1
    expect(max(cnt.values()) <= 2, f"{tag}: a facet is shared by at most two cells")
    bd = [k for k, v in cnt.items() if v == 1]
    if boundary is not None:
        for k in bd:
            expect(boundary(P[list(k)]), f"{tag}: unmatched facet inside the domain", facet=P[list(k)])
    return bd


# ------------------------------------------------------------------ rectangle
def rectangle(ctx):
    from feax import mesh as M
    fn = [M_ + "rectangle_mesh", M_ + "_rectangle_mesh_quad9"]
    for ele in ("QUAD4", "QUAD8", "QUAD9"):
        def sweep(_=None, ele=ele):
            n = 0
            for Nx, Ny in itertools.chain(itertools.product((1, 2, 3, 5), (1, 2, 4)), [(7, 1), (1, 7)]):
                rng = ctx.rng(f"rm{ele}", 10 * Nx + Ny)
                Lx, Ly, x0, y0 = rng.uniform(.2, 3), rng.uniform(.2, 3), rng.uniform(-2, 2), rng.uniform(-2, 2)
                if (Nx, Ny) == (1, 7):
                    Lx = Ly = 1.
                    x0 = y0 = 0.
                    m = M.rectangle_mesh(Nx, Ny, ele_type=ele)
                else:
                    m = M.rectangle_mesh(Nx, Ny, Lx, Ly, (x0, y0), ele_type=ele)
                P, C = np.asarray(m.points), np.asarray(m.cells)
                expect(len(C) == Nx * Ny, f"{ele}: number of cells", got=len(C), want=Nx * Ny)
                nn = {"QUAD4": (Nx + 1) * (Ny + 1), "QUAD9": (2 * Nx + 1) * (2 * Ny + 1), "QUAD8": (2 * Nx + 1) * (2 * Ny + 1) - Nx * Ny}[ele]
                expect(len(P) == nn, f"{ele}: number of nodes", got=len(P), want=nn)
                h = np.array([Lx / Nx, Ly / Ny])
                lo = P[C[:, 0]]
                ij = np.round((lo - [x0, y0]) / h).astype(int)
                expect(sorted(map(tuple, ij.tolist())) == sorted(itertools.product(range(Nx), range(Ny))), f"{ele}: cells tile the rectangle")
                for k, o in enumerate(OFF[ele]):
                    expect_close(P[C[:, k]], np.array([x0, y0]) + (ij + np.array(o) / 2) * h, f"{ele}: node {k} of every cell", rtol=1e-9, atol=1e-9)
                if NN[ele] <= 9:
                    contract(f"{ele} {Nx}x{Ny}", m, ele, Lx * Ly, lambda q: np.any(np.all(np.abs(q - [x0, y0]) < 1e-9, 0)) or np.any(np.all(np.abs(q - [x0 + Lx, y0 + Ly]) < 1e-9, 0)))
                n += 1
            return n

        def run(mk, ele=ele):
            Nx, Ny = mk("Nx", 1), mk("Ny", 1)
            x0, y0, Lx, Ly = (mk(k, real=True) for k in ("x0", "y0", "Lx", "Ly"))
            with gridfn.generic(M, mk) as its:
                def hints():
                    (i, bi), (j, bj) = its
                    return i, j
                m = M.rectangle_mesh(Nx, Ny, Lx, Ly, (x0, y0), ele_type=ele)
            if len(its) != 2 or len(m.cells.rows if isinstance(m.cells, gridfn.Cells) else m.cells) != 1:
                raise NotImplementedError("loop structure")
            (a, ba), (b, bb) = its
            if z3.eq(ba.e, Nx.e) and z3.eq(bb.e, Ny.e):
                i, j = a, b
            elif z3.eq(ba.e, Ny.e) and z3.eq(bb.e, Nx.e):
                i, j = b, a
            else:
                raise NotImplementedError("loop bounds")
            row = (m.cells.rows if isinstance(m.cells, gridfn.Cells) else m.cells)[0]
            s = 1 if ele == "QUAD4" else 2
            out = []
            for k, o in enumerate(OFF[ele]):
                gi, gj = s * i + o[0] * s // 2, s * j + o[1] * s // 2
                mk("", hint=(gi, gj))
                mk("", hint=(gj, gi))
            for k, o in enumerate(OFF[ele]):
                gi, gj = s * i + o[0] * s // 2, s * j + o[1] * s // 2
                px, py = m.points.at(row[k])
                out.append((px, x0 + Lx * (gi / (s * Nx))))
                out.append((py, y0 + Ly * (gj / (s * Ny))))
            ids = [r.n.e if isinstance(r, gridfn.Rank) else S.ix(r) for r in row]
            sub = lambda e, di, dj: z3.substitute(e, (i.e, i.e + di), (j.e, j.e + dj))
            pos = {o: k for k, o in enumerate(OFF[ele])}
            share = []
            for o, k in pos.items():  # a node on the right/top side is the same node of the neighbouring cell
                if o[0] == 2:
                    share.append(ids[k] == sub(ids[pos[(0, o[1])]], 1, 0))
                if o[1] == 2:
                    share.append(ids[k] == sub(ids[pos[(o[0], 0)]], 0, 1))
            mask = m.points.mask
            if mask is not None:  # exactly the cells' nodes are kept
                share += [z3.BoolVal(len(mask.marks) == len(ids))] + [z3.Or(*[S.ix(q) == e for q in mask.marks]) for e in ids]
            return out, share
        ctx.valid(f"rectangle_mesh {ele}, every Nx, Ny, size and origin: cell (i,j) has its nodes at the grid points in order; neighbours share them",
                  lambda run=run: S.prove(run, lambda v: [S.ix(a) == S.ix(b) for a, b in v[0]] + list(v[1])), functions=fn, replay=sweep, private=False)
        ctx.bounded(f"rectangle_mesh {ele}: counts, tiling, orientation, conformity", sweep, functions=fn, bound="14 division pairs, random size and origin")
    ctx.valid("division theorem used above", S.euclid_uniqueness)
    ctx.bounded("rectangle_mesh rejects other elements", lambda: [expect_raises(lambda e=e: M.rectangle_mesh(2, 2, ele_type=e), e, ValueError) for e in ("TRI3", "HEX8", "quad4")] and None, functions=fn)


# ------------------------------------------------------------------ Gmsh generators
def gmsh_boxes(ctx):
    from feax import mesh as M

    def body():
        n = 0
        for k, (size, org, h, ele) in enumerate([((1., 1., 1.), (0., 0., 0.), .34, "HEX8"), ((2., .7, .4), (-1., .3, 2.), .21, "HEX8"), ((.5, 1.5, 1.), (0., 0., 0.), .25, "HEX8"), ((.3, .3, .9), (1., 1., 1.), .3, "HEX8"),
                                                 ((1., 1., 1.), (0., 0., 0.), .4, "TET4"), ((2., .7, .4), (-1., .3, 2.), .35, "TET4")]):
            m = M.box_mesh(size, org, h, ele)
            lo, hi = np.array(org), np.array(org) + size
            contract(f"box_mesh {ele} {size}", m, ele, np.prod(size), lambda q: np.any(np.all(np.abs(q - lo) < 1e-8, 0)) or np.any(np.all(np.abs(q - hi) < 1e-8, 0)))
            P = np.asarray(m.points)
            expect_close(np.stack([P.min(0), P.max(0)]), np.stack([lo, hi]), "box_mesh: corners of the domain", atol=1e-9)
            if ele == "HEX8":  # structured: tensor grid of uniform steps
                g = [np.unique(np.round(P[:, d], 9)) for d in range(3)]
                expect(len(P) == np.prod([len(x) for x in g]) and len(m.cells) == np.prod([len(x) - 1 for x in g]), "box_mesh: structured grid")
                for d in range(3):
                    expect_close(np.diff(g[d]), np.full(len(g[d]) - 1, size[d] / (len(g[d]) - 1)), "box_mesh: uniform steps", rtol=1e-6)
                    e = size[d] / (len(g[d]) - 1)
                    expect(e < 2 * h and (len(g[d]) == 2 or e >= h * .999), "box_mesh: steps follow the target size", step=e, target=h)
            n += 1
        m = M.box_mesh(.8, mesh_size=.4)
        contract("box_mesh, scalar size", m, "HEX8", .8 ** 3)
        expect_close(np.asarray(m.points).max(0), np.full(3, .8), "cube")
        for f in (M.box_mesh, M.sphere_mesh):
            expect_raises(lambda: f(1., element_type="TET10"), "unsupported element", ValueError)
        expect_raises(lambda: M.cylinder_mesh(1., 1., element_type="TET10"), "unsupported element", ValueError)
        return n
    ctx.bounded("box_mesh tiles the box with positive conforming cells", body, functions=[M_ + "box_mesh"], bound="7 boxes")

    def round_():
        for r, c, h in ((1., (0., 0., 0.), .45), (.5, (1., -2., .5), .2)):
            m = M.sphere_mesh(r, c, h)
            P = np.asarray(m.points) - np.array(c)
            rr = np.linalg.norm(P, axis=1)
            bd = contract("sphere_mesh", m, "TET4")
            ids = np.unique(np.array(bd))
            expect(rr.max() <= r * (1 + 1e-6), "sphere_mesh: inside the sphere")
            expect_close(rr[ids], np.full(len(ids), r), "sphere_mesh: boundary nodes on the sphere", rtol=1e-6)
            v = cell_volumes(m)[1].sum()
            expect(.75 < v / (4 / 3 * np.pi * r ** 3) <= 1, "sphere_mesh: volume", got=v)
        for r, hgt, c, ax in ((.5, 1., (0., 0., 0.), (0., 0., 1.)), (.4, 1.2, (1., 2., 3.), (0., 0., -2.)), (.4, .8, (0., 1., 0.), (1., 0., 0.)), (.3, 1., (.2, 0., -1.), (1., -2., .5)),
                              (.3, 1., (.2, 0., -1.), (1., -2., -.5)), (.5, 1.5, (0., 0., 0.), (.05, 0., 1.)), (.4, 1., (0., 0., 1.), (0., .3, -1.)), (.4, 1., (0., 0., 0.), (0., 1e-3, -1.)), (.4, 1., (0., 0., 0.), (0., -3., 0.))):
            m = M.cylinder_mesh(r, hgt, c, ax, .25)
            a = np.array(ax) / np.linalg.norm(ax)
            P = np.asarray(m.points) - np.array(c)
            z = P @ a
            rr = np.linalg.norm(P - z[:, None] * a, axis=1)
            expect(abs(z.min()) < 1e-7 and abs(z.max() - hgt) < 1e-7, "cylinder_mesh: from the base centre along the axis", axis=ax, got=(z.min(), z.max()))
            expect(abs(rr.max() - r) < 1e-6, "cylinder_mesh: radius")
            ids = np.unique(np.array(contract("cylinder_mesh", m, "TET4")))
            expect(np.all((np.abs(rr[ids] - r) < 1e-6) | (np.abs(z[ids]) < 1e-7) | (np.abs(z[ids] - hgt) < 1e-7)), "cylinder_mesh: boundary on the surface")
            v = cell_volumes(m)[1].sum()
            expect(.8 < v / (np.pi * r * r * hgt) <= 1 + 1e-9, "cylinder_mesh: volume")
        return 11
    ctx.bounded("sphere and cylinder meshes fill the stated solids", round_, functions=[M_ + "sphere_mesh", M_ + "cylinder_mesh"], bound="2 spheres, 9 cylinders")


def refine(ctx):
    from feax import mesh as M
    mult = {2: 4, 3: 8}

    def body(ele, ns):
        m = X.mesh(ele, ns)
        d = F.DIM[ele]
        v = cell_volumes(m)[1].sum()
        expect(M.refine_mesh(m, 0) is m, "zero levels")
        for lv in (1, 2, 3) if d == 2 else (1, 2) if ele == "TET4" else (1,):
            r = M.refine_mesh(m, lv)
            expect(np.asarray(r.points).shape[1] == d, "dimension kept")
            expect(len(r.cells) == mult[d] ** lv * len(m.cells), f"{ele}: number of cells", got=len(r.cells))
            bd = contract(f"refine_mesh {ele} x{lv}", r, ele, v)
            # same boundary: the refined boundary facets tile the original ones
            b0 = contract(f"{ele}", m, ele)
            expect(len(bd) == len(b0) * {2: 2, 3: 4}[d] ** lv, "boundary facets")
            base = LIN.get(ele, ele)
            nv = NN[base]
            old = np.asarray(m.points)[np.unique(np.asarray(m.cells)[:, :nv])]
            new = {tuple(p) for p in np.round(np.asarray(r.points), 8).tolist()}
            expect(all(tuple(p) in new for p in np.round(old, 8).tolist()), "the original vertices remain")
            if ele in LIN:  # mid nodes in the element's own order
                ref = F.ref_nodes(ele)
                N = np.stack([F.shape(base, x) for x in ref])
                lin = np.einsum("qn,cni->cqi", N, np.asarray(r.points)[np.asarray(r.cells)[:, :nv]])
                expect_close(np.asarray(r.points)[np.asarray(r.cells)], lin, f"{ele}: mid nodes in order", atol=1e-8)
        return 2
    for ele, ns in (("TRI3", (2, 2)), ("QUAD4", (2, 3)), ("TET4", (1, 1, 1)), ("HEX8", (2, 1, 1)), ("TRI6", (2, 1)), ("QUAD8", (2, 1)), ("QUAD9", (1, 2)), ("TET10", (1, 1, 1)), ("HEX20", (1, 1, 2))):
        ctx.bounded(f"refine_mesh {ele}: same domain, element type, conforming children", lambda ele=ele, ns=ns: body(ele, ns), functions=[M_ + "refine_mesh"], bound="one distorted mesh, 1-2 levels")

    def surf():
        for ele, ns in (("TRI3", (2, 1)), ("QUAD4", (2, 1)), ("TRI6", (1, 1))):
            m = X.mesh(ele, ns, distort=0.)
            q = np.asarray(m.points)
            lift = lambda q: np.column_stack([q[:, :2], 2 * q[:, 0] - q[:, 1] + .7])
            r = M.refine_mesh(M.Mesh(lift(q), m.cells, ele_type=ele), 1)
            R = np.asarray(r.points)
            expect(R.shape[1] == 3 and r.ele_type == ele and len(r.cells) == 4 * len(m.cells), f"{ele} surface in space: dimension, type, count", got=R.shape)
            expect_close(R, lift(R), f"{ele}: the refined surface stays on the original plane", atol=1e-9)
            f = M.Mesh(R[:, :2], r.cells, ele_type=ele)
            contract(f"{ele} surface refined", f, ele, cell_volumes(m)[1].sum())
        return 3
    ctx.bounded("refine_mesh keeps surfaces in space", surf, functions=[M_ + "refine_mesh"], bound="3 planes")

    def bad():
        expect_raises(lambda: M.refine_mesh(X.mesh("TRI3", (1, 1)), -1), "negative levels", ValueError)
        m = X.mesh("TRI3", (1, 1))
        expect_raises(lambda: M.refine_mesh(M.Mesh(m.points, m.cells, "QUAD4"), 1), "cells do not match the type", ValueError)
        expect_raises(lambda: M.refine_mesh(M.Mesh(m.points, m.cells, "HEX64"), 1), "unknown type", NotImplementedError)
    ctx.bounded("refine_mesh rejects invalid requests", bad, functions=[M_ + "refine_mesh"])


def from_gmsh(ctx):
    from feax import mesh as M
    import meshio
    names = {"TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20", "HEX27": "hexahedron27", "TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9"}

    def types():
        for k, v in names.items():
            expect(M.get_meshio_cell_type(k) == v, "cell type name", ele=k)
        expect_raises(lambda: M.get_meshio_cell_type("HEX64"), "unknown type")
        return 10
    ctx.bounded("meshio cell type of every element (whole domain enumerated)", types, functions=[M_ + "get_meshio_cell_type"], bound="complete: 10 types")

    def conv():
        n = 0
        for s, (ele, nm) in enumerate(names.items()):
            rng = ctx.rng("fg", s)
            nn = {**NN, "HEX27": 27}[ele]
            P = rng.uniform(-1, 1, (40, 3))
            blocks = [rng.randint(0, 40, (k, nn)) for k in (3, 1, 2)]
            noise = [("line", rng.randint(0, 40, (4, 2))), ("vertex", rng.randint(0, 40, (2, 1)))]
            for cells in ([noise[0], (nm, blocks[0]), noise[1], (nm, blocks[1]), (nm, blocks[2])], [(nm, blocks[0])]):
                g = meshio.Mesh(P, cells)
                want = np.concatenate([c for t, c in cells if t == nm])
                for kw in ({}, {"element_type": ele}):
                    m = M.Mesh.from_gmsh(g, **kw)
                    expect(m.ele_type == ele, "element type")
                    expect_close(m.points, P, "every node")
                    expect(sorted(np.asarray(m.cells).tolist()) == sorted(want.tolist()), f"{ele}: every cell of every block", got=len(m.cells), want=len(want))
                    n += 1
        g = meshio.Mesh(P, [("triangle", rng.randint(0, 40, (3, 3))), ("tetra", rng.randint(0, 40, (2, 4)))])
        expect(M.Mesh.from_gmsh(g).ele_type == "TET4", "volume cells preferred")
        full = {**NN, "HEX27": 27}
        for a, b in itertools.product([e for e in names if e[0] in "TH" and e[:3] in ("TET", "HEX")], [e for e in names if e[:3] in ("TRI", "QUA")]):
            both = [(names[a], rng.randint(0, 40, (2, full[a]))), (names[b], rng.randint(0, 40, (3, full[b])))]
            for cells in (both, both[::-1]):
                m = M.Mesh.from_gmsh(meshio.Mesh(P, cells))
                expect(m.ele_type == a and np.array_equal(m.cells, both[0][1]), "volume cells preferred to surface cells", volume=a, surface=b, got=m.ele_type)
                n += 1
        m = M.Mesh.from_gmsh(g, element_type="TRI3")
        expect(m.ele_type == "TRI3" and len(m.cells) == 3, "requested type")
        expect_raises(lambda: M.Mesh.from_gmsh(g, element_type="HEX8"), "absent type", ValueError)
        expect_raises(lambda: M.Mesh.from_gmsh(meshio.Mesh(P, [("line", [[0, 1]])])), "no supported cells", ValueError)
        return n
    ctx.bounded("from_gmsh keeps every node and every cell of the chosen type", conv, functions=[M_ + "Mesh.from_gmsh"], bound="10 types, one and several blocks")

    def twovol():
        import gmsh
        with scratch() as d:
            gmsh.initialize()
            try:
                gmsh.option.setNumber("General.Terminal", 0)
                a, b = gmsh.model.occ.addBox(0, 0, 0, 1, 1, 1), gmsh.model.occ.addBox(1, 0, 0, .5, 1, 1)
                gmsh.model.occ.fragment([(3, a)], [(3, b)])
                gmsh.model.occ.synchronize()
                gmsh.option.setNumber("Mesh.CharacteristicLengthMax", .7)
                gmsh.model.mesh.generate(3)
                gmsh.write(os.path.join(d, "a.msh"))
            finally:
                gmsh.finalize()
            m = quiet(M.Mesh.from_gmsh, quiet(meshio.read, os.path.join(d, "a.msh")))
        mn, v = cell_volumes(m)
        expect(mn.min() > 0, "orientation")
        expect_close(v.sum(), 1.5, "volume of a two-body model", rtol=1e-8)
    ctx.bounded("from_gmsh keeps all bodies of a model file", twovol, functions=[M_ + "Mesh.from_gmsh"], bound="one model")

    P = Sx("p", (4, 3))
    C = np.array([[0, 1, 2, 3], [3, 1, 0, 2]])

    def spec(p):
        det = lambda a: jnp.sum(jnp.cross(a[1] - a[0], a[2] - a[0]) * (a[3] - a[0]))
        return jnp.stack([det(p[c]) for c in C])
    ctx.equal("check_mesh_TET4 is six times the signed volume for every geometry", lambda p: M.check_mesh_TET4(p, C), spec, (P,), functions=[M_ + "check_mesh_TET4"])

    def faces():
        for ele, ns in (("TRI3", (2, 3)), ("QUAD4", (3, 2)), ("QUAD8", (2, 2)), ("TET4", (2, 1, 1)), ("HEX8", (2, 2, 1)), ("TET10", (1, 1, 1)), ("HEX20", (1, 1, 1)), ("TRI6", (2, 2))):
            m = X.mesh(ele, ns, distort=0.)
            P, C = np.asarray(m.points), np.asarray(m.cells)
            d = F.DIM[ele]
            hi = P.max(0)
            for ax in range(d):
                for side in (0., hi[ax]):
                    got = m.count_selected_faces(lambda p, ax=ax, side=side: jnp.isclose(p[ax], side))
                    base = LIN.get(ele, ele)
                    want = sum(all(abs(P[c[i], ax] - side) < 1e-9 for i in f) for c in C for f in FACES[base])
                    expect(got == want, f"{ele}: selected faces", got=int(got), want=want)
        return 8
    ctx.bounded("count_selected_faces counts the facets on a plane", faces, functions=[M_ + "Mesh.count_selected_faces"], bound="8 element types")


# ------------------------------------------------------------------ output
VT = {"TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9", "TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20"}
NSX = {"TRI3": (2, 2), "TRI6": (2, 1), "QUAD4": (2, 2), "QUAD8": (2, 1), "QUAD9": (1, 2), "TET4": (1, 1, 1), "TET10": (1, 1, 1), "HEX8": (1, 2, 1), "HEX20": (1, 1, 2)}


def out_meshes():
    from feax.mesh import Mesh
    for ele, ns in NSX.items():
        yield ele, ele, X.mesh(ele, ns)
    for ele in ("QUAD4", "TRI3", "QUAD8"):  # surfaces in space
        m = X.mesh(ele, NSX[ele])
        P = np.asarray(m.points)
        yield f"{ele} surface in 3-D", ele, Mesh(np.column_stack([P, P[:, 0] * P[:, 1]]), m.cells, ele_type=ele)
    for ele in ("QUAD4", "TRI3", "HEX8"):  # default ele_type attribute
        m = X.mesh(ele, NSX[ele])
        yield f"{ele} without stated type", ele, Mesh(m.points, m.cells)


def writers(ctx):
    import meshio
    import feax as fe
    from feax import utils as U

    def vtk(ext):
        def body():
            n = 0
            with scratch() as d:
                for tag, ele, m in out_meshes():
                    rng = ctx.rng("vt" + tag)
                    P, C = np.asarray(m.points), np.asarray(m.cells)
                    pi = [("u", rng.randn(len(P), 3)), ("s", rng.randn(len(P))), ("w", rng.randn(len(P), 1))]
                    ci = [("rho", rng.randn(len(C))), ("vec", rng.randn(len(C), 3)), ("sig", rng.randn(len(C), 3, 3)), ("k", rng.randn(len(C), 2, 3))]
                    f = os.path.join(d, "sub", tag.replace(" ", "_"), "a." + ext)
                    U.save_sol(m, f, cell_infos=[(a, jnp.asarray(b)) for a, b in ci], point_infos=pi)
                    r = quiet(meshio.read, f)
                    expect(len(r.cells) == 1 and r.cells[0].type == VT[ele], f"{tag}: element type", got=[c.type for c in r.cells])
                    expect_close(r.points[:, :P.shape[1]], P, f"{tag}: nodes", rtol=1e-6, atol=1e-6)
                    expect(np.array_equal(r.cells[0].data, C), f"{tag}: cells")
                    for a, b in pi:
                        expect_close(np.asarray(r.point_data[a]).ravel(), b.astype(np.float32).ravel(), f"{tag}: point field {a}", rtol=1e-6, atol=1e-6)
                    for a, b in ci:
                        expect_close(np.asarray(r.cell_data[a][0]).ravel(), b.astype(np.float32).ravel(), f"{tag}: cell field {a}", rtol=1e-6, atol=1e-6)
                    n += 1
                m = X.mesh("QUAD4", (2, 3))
                U.save_sol(m, os.path.join(d, "only." + ext), point_infos=[("u", np.ones((12, 3)))])
                U.save_sol(m, os.path.join(d, "only." + ext), cell_infos=[("c", np.arange(6.))])
                expect_close(np.ravel(quiet(meshio.read, os.path.join(d, "only." + ext)).cell_data["c"][0]), np.arange(6.), "cell fields alone; overwriting")
                expect_raises(lambda: U.save_sol(m, os.path.join(d, "x." + ext)), "no field", ValueError)
                expect_raises(lambda: U.save_sol(m, os.path.join(d, "x." + ext), cell_infos=[("c", np.ones(12))]), "cell field of the wrong length", ValueError)
                expect_raises(lambda: U.save_sol(m, os.path.join(d, "x." + ext), point_infos=[("c", np.ones(6))]), "point field of the wrong length", ValueError)
                for k in (11, 13, 24, 36, 1):
                    expect_raises(lambda: U.save_sol(m, os.path.join(d, "x." + ext), point_infos=[("u", np.ones((12, 2))), ("c", np.ones(k))]), "point field of the wrong length", ValueError)
                for k in (5, 7, 12, 18, 1):
                    expect_raises(lambda: U.save_sol(m, os.path.join(d, "x." + ext), point_infos=[("u", np.ones((12, 2)))], cell_infos=[("c", np.ones((k, 3)))]), "cell field of the wrong length", ValueError)
                expect(not os.path.exists(os.path.join(d, "x." + ext)), "rejected fields write nothing")
            return n
        return body
    for ext in ("vtu", "vtk"):
        ctx.bounded(f"save_sol (.{ext}) stores every node, cell and field value under the mesh's element type", vtk(ext), functions=[U_ + "save_sol"], bound="15 meshes, 7 fields each")
    topo = {"TRI3": "Triangle", "TRI6": "Triangle_6", "QUAD4": "Quadrilateral", "QUAD8": "Quadrilateral_8", "QUAD9": "Quadrilateral_9", "TET4": "Tetrahedron", "TET10": "Tetrahedron_10", "HEX8": "Hexahedron", "HEX20": "Hexahedron_20"}

    def xdmf():
        import h5py
        n = 0
        with scratch() as d:
            for tag, ele, m in out_meshes():
                rng = ctx.rng("xd" + tag)
                P, C = np.asarray(m.points), np.asarray(m.cells)
                f = os.path.join(d, tag.replace(" ", "_"), "run.v2.xdmf")
                frames = []
                with fe.XDMFWriter(m, f) as w:
                    for t in (0., .125, 3.7, 1234.56789012):
                        pi = [("u", rng.randn(len(P), P.shape[1])), ("s", rng.randn(len(P))), ("F", rng.randn(len(P), 2, 2))]
                        ci = [("rho", rng.randn(len(C))), ("sig", rng.randn(len(C), 3, 3)), ("v6", rng.randn(len(C), 6)), ("u", rng.randn(len(C)))]
                        w.write_iteration(t, cell_infos=[(a, jnp.asarray(b)) for a, b in ci], point_infos=pi)
                        frames.append((t, pi, ci))
                root = ET.parse(f).getroot()
                grids = root.findall("./Domain/Grid/Grid")
                coll = root.find("./Domain/Grid")
                expect(coll.get("GridType") == "Collection" and coll.get("CollectionType") == "Temporal", "temporal collection")
                expect(len(grids) == len(frames), f"{tag}: one grid per frame", got=len(grids))

                def item(e):
                    it = e.find("DataItem")
                    fn, path = it.text.strip().split(":")
                    with h5py.File(os.path.join(os.path.dirname(f), fn)) as h:
                        a = np.array(h[path])
                    dims = [int(x) for x in it.get("Dimensions").split()]
                    expect(int(np.prod(dims)) == a.size, f"{tag}: stated dimensions", dims=dims, shape=a.shape)
                    expect(it.get("NumberType") == ("Int" if a.dtype.kind in "iu" else "Float"), "number type")
                    if it.get("Precision"):
                        expect(int(it.get("Precision")) == a.dtype.itemsize, f"{tag}: stated precision", got=a.dtype)
                    return a
                for g, (t, pi, ci) in zip(grids, frames):
                    expect(float(g.find("Time").get("Value")) == t, "time")
                    tp = g.find("Topology")
                    expect(tp.get("TopologyType") == topo[ele] and int(tp.get("NumberOfElements")) == len(C), f"{tag}: element type", got=tp.get("TopologyType"))
                    expect(np.array_equal(item(tp), C), f"{tag}: cells")
                    ge = g.find("Geometry")
                    expect(ge.get("GeometryType") == ("XY" if P.shape[1] == 2 else "XYZ"), "geometry type")
                    expect_close(item(ge), P, f"{tag}: nodes", rtol=1e-12)
                    at = {(a.get("Center"), a.get("Name")): a for a in g.findall("Attribute")}
                    expect(len(at) == len(pi) + len(ci), f"{tag}: every field once", got=list(at))
                    for cen, infos in (("Node", pi), ("Cell", ci)):
                        for a, b in infos:
                            if (cen, a) not in at:
                                expect(False, f"{tag}: field {a} missing at {cen}")
                            got = item(at[(cen, a)])
                            if b.shape[1:] == (2, 2):
                                q = np.zeros((len(b), 3, 3))
                                q[:, :2, :2] = b
                                b = q
                            expect_close(got.reshape(b.shape), b.astype(np.float32), f"{tag}: field {a} at time {t}", rtol=1e-6, atol=1e-6)
                            nc = b.size // len(b)
                            expect(at[(cen, a)].get("AttributeType") == {1: "Scalar", 2: "Vector", 3: "Vector", 6: "Tensor6", 9: "Tensor"}[nc], "attribute type", field=a)
                n += 1
            m = X.mesh("QUAD4", (2, 3))
            f = os.path.join(d, "e.xdmf")
            expect_raises(lambda: fe.XDMFWriter(m, os.path.join(d, "e.vtu")), "wrong extension", ValueError)
            expect_raises(lambda: fe.XDMFWriter(m, f).write_iteration(0.), "outside the context", RuntimeError)
            with fe.XDMFWriter(m, f) as w:
                w.write_iteration(0., point_infos=[("u", np.ones(12))])
                expect_raises(lambda: w.write_iteration(1., point_infos=[("v", np.ones(12))]), "changed field set", ValueError)
            with fe.XDMFWriter(m, f) as w:
                expect_raises(lambda: w.write_iteration(1., point_infos=[("v", np.ones(6))]), "wrong length", ValueError)
            for k in (11, 13, 24, 36, 1):
                with fe.XDMFWriter(m, f) as w:
                    expect_raises(lambda: w.write_iteration(1., point_infos=[("v", np.ones((k, 2)))]), "point field of the wrong length", ValueError)
            for k in (5, 7, 12, 18, 1):
                with fe.XDMFWriter(m, f) as w:
                    expect_raises(lambda: w.write_iteration(1., cell_infos=[("v", np.ones(k))]), "cell field of the wrong length", ValueError)
            with fe.XDMFWriter(m, f) as w:
                w.write_iteration(0., point_infos=[("u", np.ones(12))], cell_infos=[("c", np.ones(6))])
                expect_raises(lambda: w.write_iteration(1., point_infos=[("u", np.ones(12))]), "a cell field left out of a later frame", ValueError)
            with fe.XDMFWriter(m, f) as w:
                w.write_iteration(0., point_infos=[("u", np.ones(12))], cell_infos=[("c", np.ones(6))])
                expect_raises(lambda: w.write_iteration(1., point_infos=[("u", np.ones(12))], cell_infos=[("d", np.ones(6))]), "another cell field in a later frame", ValueError)

            def index():  # a field the format cannot describe is reported, not dropped
                with fe.XDMFWriter(m, f) as w:
                    w.write_iteration(0., point_infos=[("q", np.ones((12, 4)))])
            expect_raises(index, "a field without an attribute type")
            read = lambda f: meshio.xdmf.TimeSeriesReader(f)
            names = [os.path.join(d, "pair", x) for x in ("run.v1.xdmf", "run.v2.xdmf", "run.xdmf")]
            with fe.XDMFWriter(m, names[0]) as w0, fe.XDMFWriter(m, names[1]) as w1, fe.XDMFWriter(m, names[2]) as w2:
                for j in range(2):
                    for k, w in enumerate((w0, w1, w2)):
                        w.write_iteration(float(j), point_infos=[("u", np.full(12, 10. * j + k))])
            for k, fn in enumerate(names):
                with read(fn) as r:
                    r.read_points_cells()
                    expect(r.num_steps == 2, "frames of a series written beside another")
                    for j in range(2):
                        t, pd, _ = r.read_data(j)
                        expect_close(np.ravel(pd["u"]), np.full(12, 10. * j + k), "series with similar names keep their own values")
            m1 = X.mesh("TRI3", (1, 1))
            with fe.XDMFWriter(m1, f) as w:
                for j in range(1030):
                    w.write_iteration(j * .1, point_infos=[("u", np.full(4, float(j)))])
            with read(f) as r:
                r.read_points_cells()
                expect(r.num_steps == 1030, "long series", got=r.num_steps)
                for j in (0, 9, 10, 99, 100, 999, 1000, 1009, 1029):
                    t, pd, _ = r.read_data(j)
                    expect(t == j * .1, "time of the frame", got=t)
                    expect_close(np.ravel(pd["u"]), np.full(4, float(j)), "long series: frame values")
            big = fe.mesh.rectangle_mesh(260, 260)
            for wr in (lambda: U.save_sol(big, os.path.join(d, "big.vtu"), point_infos=[("u", np.arange(261. ** 2))]), lambda: fe.XDMFWriter(big, f)):
                w = wr()
                if w is not None:
                    with w:
                        w.write_iteration(0., point_infos=[("u", np.arange(261. ** 2))])
            r = quiet(meshio.read, os.path.join(d, "big.vtu"))
            expect(np.array_equal(r.cells[0].data, np.asarray(big.cells)), "save_sol: cells of a mesh with many nodes")
            expect_close(np.ravel(r.point_data["u"]), np.arange(261. ** 2), "save_sol: values of a mesh with many nodes")
            with read(f) as r:
                expect(np.array_equal(r.read_points_cells()[1][0].data, np.asarray(big.cells)), "XDMF: cells of a mesh with many nodes")
            with fe.XDMFWriter(m, f) as w:
                expect_raises(lambda: w.write_iteration(1., cell_infos=[("v", np.ones((6, 4, 3)))]), "unsupported tensor", ValueError)
            try:
                with fe.XDMFWriter(m, f) as w:
                    w.write_iteration(0.5, point_infos=[("u", np.arange(12.))])
                    raise KeyError("run aborted")
            except KeyError:
                pass
            expect(len(ET.parse(f).getroot().findall("./Domain/Grid/Grid")) == 1, "frames written before an abort stay readable")
        return n
    ctx.bounded("XDMFWriter stores every frame, node, cell and field value under the mesh's element type", xdmf, functions=[U_ + "XDMFWriter"], bound="15 meshes, 4 frames, 7 fields")

    def orient():
        from feax.mechanics import copv as K
        cm = K.create_double_wall_copv_mesh(K.DoubleWallCopvGeometry(n_circum=8, n_merid_cyl=2, n_merid_dome=2, n_fill=1))
        lay = [("hoop", 1.), ("helical", 1.), ("helical", -1.)]
        with scratch() as d:
            K.save_orientation_vtk(cm, os.path.join(d, "o.vtu"), lay)
            r = quiet(meshio.read, os.path.join(d, "o.vtu"))
        fib = K.cell_fiber_directions(cm, lay)
        for k in range(3):
            expect_close(r.cell_data[f"fiber_ply{k}"][0], fib[:, k], "fibre directions", rtol=1e-5, atol=1e-5)
        for nm, a in zip(("dir_meridian", "dir_hoop", "dir_normal"), K.cell_triads(cm)):
            expect_close(r.cell_data[nm][0], a, nm, rtol=1e-5, atol=1e-5)
        expect_close(np.ravel(r.cell_data["zone"][0]), cm.cell_zone, "zone")
        expect_close(np.ravel(r.cell_data["is_dome"][0]), cm.dome_cell_mask(), "dome")
        expect_close(np.ravel(r.cell_data["winding_angle_deg"][0]), K.cell_winding_angle_deg(cm), "winding angle", rtol=1e-5)
    ctx.bounded("vessel orientation output stores its fields", orient, functions=[C_ + "save_orientation_vtk"], bound="one vessel")


# ------------------------------------------------------------------ transfer
def tet_meshes(ctx):
    from feax.mesh import Mesh
    yield "1x1x1", X.mesh("TET4", (1, 1, 1))
    yield "3x2x2", X.mesh("TET4", (3, 2, 2))
    m = X.mesh("TET4", (4, 3, 3), distort=0.)
    P = np.asarray(m.points)
    yield "graded", Mesh(P ** 3 * [1., 2., .5], m.cells, ele_type="TET4")
    yield "flat", Mesh(P * [1., 1., .02], m.cells, ele_type="TET4")
    yield "single", Mesh(np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]), np.array([[0, 1, 2, 3]]), ele_type="TET4")


def inside_points(m, rng, n):
    P, C = np.asarray(m.points), np.asarray(m.cells)
    e = rng.randint(len(C), size=n)
    w = rng.dirichlet(np.ones(4), size=n)
    w[: n // 6] = np.eye(4)[rng.randint(4, size=n // 6)]
    return np.einsum("qn,qni->qi", w, P[C[e]]), e, w


def transfer(ctx):
    from feax.gene import adaptive as A
    for tag, m in tet_meshes(ctx):
        P, C = np.asarray(m.points), np.asarray(m.cells)
        q, e, w = inside_points(m, ctx.rng("tr" + tag), 80)
        q = np.vstack([q, P])

        def code(v):
            with symnp.numpy_as_symbolic(A) as np_:
                isnan = lambda a: np.array([isinstance(x, (float, np.floating)) and x != x for x in np.asarray(a, object).ravel()]).reshape(np.shape(a))
                np_.isnan = isnan
                return np.asarray(A.interpolate_field(v, m, q), dtype=object)

        def lin(c):
            return symnp.arr([c[0] + c[1] * p[0] + c[2] * p[1] + c[3] * p[2] for p in P])
        ctx.equal(f"interpolate_field reproduces every linear field at every point of the mesh ({tag})", lambda c: code(lin(c)) if np.asarray(c).dtype == object else A.interpolate_field(np.asarray([c[0] + np.dot(c[1:], p) for p in P], float), m, q),
                  lambda c: np.array([c[0] + c[1] * p[0] + c[2] * p[1] + c[3] * p[2] for p in q], dtype=object if np.asarray(c).dtype == object else float), (Sx("c", (4,)),), functions=[A_ + "interpolate_field"], engine="host", tol=1e-6)

        def fe_interp(v):
            return np.array([sum(w[k, i] * v[C[e[k], i]] for i in range(4)) for k in range(len(e))] + [v[i] for i in range(len(P))], dtype=object if np.asarray(v).dtype == object else float)
        ctx.equal(f"interpolate_field is the finite element interpolation of every nodal field ({tag})", lambda v: code(symnp.arr(list(v))) if np.asarray(v).dtype == object else A.interpolate_field(np.asarray(v, float), m, q),
                  fe_interp, (Sx("v", (len(P),)),), functions=[A_ + "interpolate_field"], engine="host", tol=1e-6)

    def rest():
        for tag, m in tet_meshes(ctx):
            P, C = np.asarray(m.points), np.asarray(m.cells)
            rng = ctx.rng("tr2" + tag)
            v = rng.uniform(-1, 1, len(P))
            lo, hi = P.min(0), P.max(0)
            out = lo - rng.uniform(.3, 1, (10, 3)) * (hi - lo + 1)
            got = A.interpolate_field(v, m, out)
            near = [v[np.argmin(np.linalg.norm(P - p, axis=1))] for p in out]
            expect_close(got, near, f"{tag}: nearest node outside the mesh")
            q, _, _ = inside_points(m, rng, 60)
            a = A.interpolate_field(v, m, q)
            expect(a.max() <= v.max() + 1e-7 and a.min() >= v.min() - 1e-7, "no new extrema")
            expect_close(A.interpolate_field(v, m, q, clip=(-.2, .3)), np.clip(a, -.2, .3), "clip")
        expect_raises(lambda: A.interpolate_field(np.ones(4), X.mesh("HEX8", (1, 1, 1)), np.zeros((1, 3))), "not TET4", ValueError)
        expect_raises(lambda: A.gradient_refinement(np.ones(8), X.mesh("HEX8", (1, 1, 1))), "not TET4", ValueError)
        return 5
    ctx.bounded("outside points take the nearest node; clipping; other elements rejected", rest, functions=[A_ + "interpolate_field"], bound="5 meshes")

    def grad():
        for tag, m in tet_meshes(ctx):
            P, C = np.asarray(m.points), np.asarray(m.cells)
            rng = ctx.rng("gr" + tag)
            for k in range(3):
                c = rng.uniform(-1, 1, 4)
                expect_close(A.gradient_refinement(c[0] + P @ c[1:], m), np.ones(len(P)), f"{tag}: a linear field has one gradient everywhere", rtol=1e-6, atol=1e-6)
            v = rng.uniform(-1, 1, len(P))
            g = []
            for cc in C:
                B = np.column_stack([np.ones(4), P[cc]])
                g.append(np.linalg.norm(np.linalg.solve(B, v[cc])[1:]))
            nd = np.array([np.mean([g[k] for k in range(len(C)) if i in C[k]]) for i in range(len(P))])
            expect_close(A.gradient_refinement(v, m), nd / nd.max(), f"{tag}: node averages of the element gradient, normalized", rtol=1e-6, atol=1e-6)
            expect_close(A.gradient_refinement(np.full(len(P), .3), m), np.zeros(len(P)), f"{tag}: constant field")
        return 5
    ctx.bounded("gradient_refinement is the normalized gradient magnitude", grad, functions=[A_ + "gradient_refinement"], bound="5 meshes, 4 fields each")


def adaptive(ctx):
    from feax.gene import adaptive as A
    import gmsh

    def boxes():
        old = X.mesh("TET4", (2, 2, 2), distort=0.)
        P = np.asarray(old.points)
        for k, (size, org, per) in enumerate((((1., 1., 1.), (0., 0., 0.), False), ((1., .6, .8), (.5, -1., 2.), True), (.9, (0., 0., 0.), True))):
            s = np.full(3, size) if isinstance(size, float) else np.array(size)
            fld = None if k == 0 else np.clip(1 - 4 * np.abs(P[:, 0] / P[:, 0].max() - .5), 0, 1)
            om = None if k == 0 else type(old)(P / P.max(0) * s + org, old.cells, ele_type="TET4")
            m = quiet(A.adaptive_box_mesh, size, fld, om, .12, .4, origin=org, periodic=per)
            lo, hi = np.array(org), np.array(org) + s
            contract(f"adaptive box {k}", m, "TET4", np.prod(s), lambda q: np.any(np.all(np.abs(q - lo) < 1e-7, 0)) or np.any(np.all(np.abs(q - hi) < 1e-7, 0)))
            if per:
                Q = np.asarray(m.points)
                for ax in range(3):
                    a = Q[np.abs(Q[:, ax] - lo[ax]) < 1e-8]
                    b = Q[np.abs(Q[:, ax] - hi[ax]) < 1e-8] - s * np.eye(3)[ax]
                    expect(len(a) == len(b) and np.allclose(a[np.lexsort(np.round(a, 6).T)], b[np.lexsort(np.round(b, 6).T)], atol=1e-6), f"periodic faces {ax} match", n=(len(a), len(b)))
        m = quiet(A.adaptive_box_mesh, 1., h_min=.1, h_max=.5, target_nodes=250)
        expect(.4 < len(m.points) / 250 < 2, "target number of nodes", got=len(m.points))
        return 4
    ctx.bounded("adaptive box meshes tile the box; periodic faces match", boxes, functions=[A_ + "adaptive_box_mesh"], bound="4 boxes")

    def sizes():
        """the size field handed to the mesher"""
        got = []
        orig = gmsh.model.mesh.setSizeCallback

        def rec(cb):
            got.append(cb)
            return orig(cb)
        old = X.mesh("TET4", (2, 2, 2))
        P = np.asarray(old.points)
        f = ctx.rng("sz").uniform(-.2, 1.2, len(P))

        def geo():
            gmsh.model.occ.addBox(0, 0, 0, 1, 1, 1)
            gmsh.model.occ.synchronize()
        gmsh.model.mesh.setSizeCallback = rec
        try:
            quiet(A.adaptive_mesh, geo, f, old, .2, .6)
            quiet(A.adaptive_mesh, geo, None, None, .2, .6)
            quiet(A.adaptive_mesh, geo, np.full(len(P), .4), old, .2, .6)
        finally:
            gmsh.model.mesh.setSizeCallback = orig
        if len(got) != 3:
            raise Skip("size callback")
        for p, v in zip(P, f):
            expect_close(got[0](3, 1, *p, 1.), .6 - np.clip(v, 0, 1) * .4, "element size interpolates h_max to h_min with the field", rtol=1e-9)
        expect_close(got[1](3, 1, .3, .3, .3, 1.), .6, "no field: h_max")
        return 3
    ctx.bounded("element sizes follow the refinement field between h_max and h_min", sizes, functions=[A_ + "adaptive_mesh", A_ + "_make_size_callback"], private=True, bound="one field")


# ------------------------------------------------------------------ pressure vessel
def vessel(ctx):
    from feax.mechanics import copv as K

    def one(**kw):
        g = K.DoubleWallCopvGeometry(**kw)
        cm = K.create_double_wall_copv_mesh(g)
        P, C = cm.points, cm.cells
        nc, nl, nr = g.n_circum, g.n_fill + 3, g.n_fill + 2
        nm = g.n_merid_cyl + g.n_merid_dome
        expect(cm.n_merid == nm and len(P) == (nm + 1) * nc * nl and len(C) == nm * nc * nr, "counts", got=(cm.n_merid, P.shape, C.shape))
        t, gap = g.shell_t, g.gap
        d = np.array([0, t] + [t + gap * i / g.n_fill for i in range(1, g.n_fill + 1)] + [2 * t + gap])
        lam = np.arccos(g.polar_radius / g.a)

        def pos(i, j, k):
            th = 2 * np.pi * j / nc
            if i <= g.n_merid_cyl:
                r, z = g.a + d[k], g.cyl_len * i / g.n_merid_cyl
            else:
                b = lam * (i - g.n_merid_cyl) / g.n_merid_dome
                r, z = (g.a + d[k]) * np.cos(b), g.cyl_len + (g.a + d[k]) * np.sin(b)
            return [r * np.cos(th), r * np.sin(th), z]
        for i, j, k in itertools.product(range(nm + 1), range(nc), range(nl)):
            expect_close(P[cm.node_id(i, j, k)], pos(i, j, k), "node on the wall", rtol=1e-9, atol=1e-9)
        expect(cm.node_id(1, nc, 0) == cm.node_id(1, 0, 0) and cm.node_id(1, -1, 2) == cm.node_id(1, nc - 1, 2), "circumferential index wraps")

        def bdy(q):
            r = np.hypot(q[:, 0], q[:, 1])
            R = np.where(q[:, 2] <= g.cyl_len + 1e-9, r, np.hypot(r, q[:, 2] - g.cyl_len))
            return np.allclose(R, g.a, atol=1e-6) or np.allclose(R, g.a + d[-1], atol=1e-6) or np.allclose(q[:, 2], 0, atol=1e-7) or np.allclose(np.arctan2(q[:, 2] - g.cyl_len, r), lam, atol=1e-6)
        contract("vessel", cm.mesh, "HEX8", None, bdy)
        # zones: radial layer of every cell
        cen = P[C].mean(1)
        r = np.hypot(cen[:, 0], cen[:, 1])
        R = np.where(cen[:, 2] < g.cyl_len, r, np.hypot(r, cen[:, 2] - g.cyl_len))
        lo, hi = np.linalg.norm, None
        k0 = np.array([sorted(n % nl for n in c)[0] for c in C])
        want = np.where(k0 == 0, K.ZONE_INNER_SHELL, np.where(k0 == nr - 1, K.ZONE_OUTER_SHELL, K.ZONE_FILL))
        expect(np.array_equal(cm.cell_zone, want), "radial zone of every cell")
        expect(np.array_equal(cm.dome_cell_mask(), cen[:, 2] > g.cyl_len), "dome cells")
        ids = lambda f: sorted(n for n in range(len(P)) if f(n))
        row, lay = np.arange(len(P)) // (nc * nl), np.arange(len(P)) % nl
        expect(sorted(cm.equator_node_ids().tolist()) == ids(lambda n: abs(P[n, 2]) < 1e-12), "equator nodes")
        expect(sorted(cm.inner_surface_node_ids().tolist()) == ids(lambda n: lay[n] == 0), "inner surface")
        expect(sorted(cm.outer_surface_node_ids().tolist()) == ids(lambda n: lay[n] == nl - 1), "outer surface")
        expect(sorted(cm.rim_inner_node_ids().tolist()) == ids(lambda n: row[n] == nm and lay[n] < 2), "rim")
        expect_close(cm.rim_inner_radius(), g.polar_radius, "polar boss radius", rtol=1e-9)
        eq = set((3 * cm.equator_node_ids() + 2).tolist())
        expect(set(cm.equator_axial_dofs().tolist()) == eq, "axial symmetry dofs")
        pins = cm.rigid_inplane_pin_dofs().tolist()
        free = cm.buckling_free_dofs(3 * len(P)).tolist()
        expect(free == sorted(set(range(3 * len(P))) - eq - set(pins)), "free dofs of the eigenproblem")
        # the pins remove exactly the in-plane rigid motions left by the axial constraint
        con = sorted(eq | set(pins))
        B = np.zeros((3 * len(P), 6))
        for k in range(3):
            B[k::3, k] = 1
        for k in range(3):
            B[:, 3 + k] = np.cross(np.eye(3)[k], P).ravel()
        expect(np.linalg.matrix_rank(B[con] / [1, 1, 1, 100, 100, 100], tol=1e-8) == 6, "no rigid motion is left free")
        for fn, sel in ((cm.outer_surface_location_fn(), cm.outer_surface_node_ids()), (cm.inner_surface_location_fn(), cm.inner_surface_node_ids()), (cm.rim_location_fn(), cm.rim_inner_node_ids())):
            got = np.asarray(jax.vmap(fn)(jnp.asarray(P)))
            expect(sorted(np.nonzero(got)[0].tolist()) == sorted(sel.tolist()), "location function selects its nodes")
        rr, zz, nr_, nz_ = K.build_meridian(g)
        expect_close(nr_ ** 2 + nz_ ** 2, np.ones(nm + 1), "unit normals")
        return 1

    def body():
        n = one(n_circum=8, n_merid_cyl=2, n_merid_dome=3, n_fill=1)
        n += one(a=50., shell_t=2., gap=9., cyl_len=80., polar_radius=12., n_circum=10, n_merid_cyl=3, n_merid_dome=2, n_fill=3)
        n += one(n_circum=7, n_merid_cyl=1, n_merid_dome=1, n_fill=2, polar_radius=60.)
        expect_raises(lambda: K.create_double_wall_copv_mesh(K.DoubleWallCopvGeometry(axis=(1., 0., 0.))), "other axes", NotImplementedError)
        return n
    ctx.bounded("double-wall vessel: nodes on the stated walls, conforming positive cells, zones, node sets, supports", body, functions=[C_ + "create_double_wall_copv_mesh", C_ + "build_meridian", C_ + "DoubleWallCopvMesh"], bound="3 vessels")


def guess(ctx):
    import feax as fe
    from feax.utils import zero_like_initial_guess

    class Bc:
        pass

    class Pb:
        num_total_dofs_all_vars = 9
    rows = np.array([7, 0, 4])

    def code(v):
        b = Bc()
        b.bc_rows, b.bc_vals = rows, v
        return zero_like_initial_guess(Pb(), b)
    ctx.equal("zero initial guess carries exactly the prescribed values", code, lambda v: jnp.zeros(9).at[rows].set(v), (Sx("v", (3,)),), functions=[U_ + "zero_like_initial_guess"])


GROUPS = [rectangle, gmsh_boxes, refine, from_gmsh, writers, transfer, adaptive, vessel, guess]
