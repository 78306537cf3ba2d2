"""Reference finite-element facts, written from the textbook and the VTK/meshio
node numbering (independent of feax and basix): the oracle side of the contracts."""
import itertools
import numpy as np

# ---- reference nodes on the unit cell, VTK ordering
_T = {
    "TRI3": [(0, 0), (1, 0), (0, 1)],
    "QUAD4": [(0, 0), (1, 0), (1, 1), (0, 1)],
    "TET4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "HEX8": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}
_EDGES = {
    "TRI6": ("TRI3", [(0, 1), (1, 2), (2, 0)]),
    "QUAD8": ("QUAD4", [(0, 1), (1, 2), (2, 3), (3, 0)]),
    "QUAD9": ("QUAD4", [(0, 1), (1, 2), (2, 3), (3, 0)]),
    "TET10": ("TET4", [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
    "HEX20": ("HEX8", [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4),
                       (0, 4), (1, 5), (2, 6), (3, 7)]),
}
ELES = ["TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4", "TET10", "HEX8", "HEX20"]
DIM = {e: (2 if e[0] in "TQ" and not e.startswith("TET") else 3) for e in ELES}
LINEAR = {"TRI3": "TRI3", "TRI6": "TRI3", "QUAD4": "QUAD4", "QUAD8": "QUAD4", "QUAD9": "QUAD4", "TET4": "TET4",
          "TET10": "TET4", "HEX8": "HEX8", "HEX20": "HEX8"}
REFVOL = {"TRI3": 0.5, "QUAD4": 1.0, "TET4": 1 / 6, "HEX8": 1.0}


def ref_nodes(ele):
    if ele in _T:
        return np.array(_T[ele], float)
    base, edges = _EDGES[ele]
    v = ref_nodes(base)
    n = list(v) + [(v[a] + v[b]) / 2 for a, b in edges]
    if ele == "QUAD9":
        n.append(v.mean(0))
    return np.array(n)


def monomials(ele):
    d = DIM[ele]
    if ele in ("TRI3", "TET4"):
        return [e for e in itertools.product(range(2), repeat=d) if sum(e) <= 1]
    if ele in ("TRI6", "TET10"):
        return [e for e in itertools.product(range(3), repeat=d) if sum(e) <= 2]
    if ele in ("QUAD4", "HEX8"):
        return list(itertools.product(range(2), repeat=d))
    if ele == "QUAD9":
        return list(itertools.product(range(3), repeat=d))
    # serendipity degree 2: superlinear degree <= 2
    return [e for e in itertools.product(range(3), repeat=d) if sum(x for x in e if x >= 2) <= 2 and
            sum(1 for x in e if x >= 2) <= 1]


def _mono(x, e):
    r = 1.0
    for k, p in enumerate(e):
        for _ in range(p):
            r = r * x[..., k]
    return r + 0 * x[..., 0]


_C = {}


def coeffs(ele):
    if ele not in _C:
        N = ref_nodes(ele)
        M = monomials(ele)
        V = np.stack([_mono(N, e) for e in M], axis=1)
        assert V.shape[0] == V.shape[1], (ele, V.shape)
        _C[ele] = np.linalg.inv(V)   # (mono, node)
    return _C[ele]


def shape(ele, x):
    """(.., dim) -> (.., nodes)"""
    x = np.asarray(x, float)
    return np.stack([_mono(x, e) for e in monomials(ele)], axis=-1) @ coeffs(ele)


def shape_grad(ele, x):
    """(.., dim) -> (.., nodes, dim)"""
    x = np.asarray(x, float)
    out = []
    for k in range(DIM[ele]):
        cols = []
        for e in monomials(ele):
            if e[k] == 0:
                cols.append(0 * x[..., 0])
            else:
                f = list(e)
                f[k] -= 1
                cols.append(e[k] * _mono(x, f))
        out.append(np.stack(cols, axis=-1) @ coeffs(ele))
    return np.stack(out, axis=-1)


def shape_hess(ele, x):
    x = np.asarray(x, float)
    d = DIM[ele]
    H = np.zeros(x.shape[:-1] + (len(monomials(ele)), d, d))
    for k in range(d):
        for l in range(d):
            cols = []
            for e in monomials(ele):
                f = list(e)
                c = f[k]
                f[k] -= 1
                if f[k] < 0:
                    cols.append(0 * x[..., 0])
                    continue
                c *= f[l]
                f[l] -= 1
                cols.append(c * _mono(x, f) if f[l] >= 0 else 0 * x[..., 0])
            H[..., k, l] = np.stack(cols, axis=-1) @ coeffs(ele)
    return H


# ---- exact integration oracle (tensor Gauss / collapsed)
def gauss1(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def exact_rule(base, n=8):
    x, w = gauss1(n)
    if base == "QUAD4":
        P = np.array([(a, b) for a in x for b in x]); W = np.array([a * b for a in w for b in w])
    elif base == "HEX8":
        P = np.array([(a, b, c) for a in x for b in x for c in x])
        W = np.array([a * b * c for a in w for b in w for c in w])
    elif base == "TRI3":
        P = np.array([(a, b * (1 - a)) for a in x for b in x])
        W = np.array([wa * wb * (1 - a) for a, wa in zip(x, w) for b, wb in zip(x, w)])
    elif base == "TET4":
        P, W = [], []
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):
                for c, wc in zip(x, w):
                    P.append((a, b * (1 - a), c * (1 - a) * (1 - b * 1.0)))
                    W.append(wa * wb * wc * (1 - a) ** 2 * (1 - b))
        P, W = np.array(P), np.array(W)
    return P, W


# ---- faces: local vertex cycles (outward orientation irrelevant)
FACES = {
    "TRI3": [(0, 1), (1, 2), (2, 0)],
    "QUAD4": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "TET4": [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)],
    "HEX8": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
}


# ---- small unstructured meshes
def grid_points(ns, L=None):
    d = len(ns)
    L = L or [1.0] * d
    ax = [np.linspace(0, l, n + 1) for n, l in zip(ns, L)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, d)


def make_mesh(ele, ns, rng=None, distort=0.0, L=None):
    """(points, cells): box mesh in VTK ordering, optionally distorted (affine + interior vertex noise
    applied to the linear geometry, mid nodes follow)."""
    base = LINEAR[ele]
    d = DIM[ele]
    P = grid_points(ns, L)

    def nid(*i):
        r = 0
        for k in range(d):
            r = r * (ns[k] + 1) + i[k]
        return r
    cells = []
    for idx in itertools.product(*[range(n) for n in ns]):
        corner = [nid(*(np.array(idx) + np.array(o, int))) for o in ref_nodes("QUAD4" if d == 2 else "HEX8").astype(int)]
        if base in ("QUAD4", "HEX8"):
            cells.append(corner)
        elif base == "TRI3":
            a, b, c, e = corner
            cells += [[a, b, c], [a, c, e]]
        else:
            v = corner
            for t in [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]:
                cells.append([v[k] for k in t])
    cells = np.array(cells)
    if rng is not None and distort > 0:
        h = 1.0 / max(ns)
        P = P + rng.uniform(-1, 1, P.shape) * distort * h
    if ele != base:
        _, edges = _EDGES[ele]
        pts = list(P)
        em = {}
        newc = []
        for c in cells:
            row = list(c)
            for a, b in edges:
                key = (min(c[a], c[b]), max(c[a], c[b]))
                if key not in em:
                    em[key] = len(pts)
                    pts.append((P[key[0]] + P[key[1]]) / 2)
                row.append(em[key])
            if ele == "QUAD9":
                row.append(len(pts))
                pts.append(P[c].mean(0))
            newc.append(row)
        P, cells = np.array(pts), np.array(newc)
    return P, cells


# ---- independent assembler from the raw mesh (numpy, exact rule; polynomial integrands)
def face_rule(base, n=6):
    if DIM[base] == 2:
        x, w = gauss1(n)
        return x[:, None], w
    return exact_rule("TRI3" if base == "TET4" else "QUAD4", n)


def cell_geometry(ele, P, C, X):
    """x (c,q,d), grad N (c,q,a,d), detJ (c,q), N (q,a)"""
    N, G = shape(ele, X), shape_grad(ele, X)
    xc = P[C]
    J = np.einsum("qak,cai->cqik", G, xc)
    Ji = np.linalg.inv(J)
    return np.einsum("qa,cai->cqi", N, xc), np.einsum("qak,cqki->cqai", G, Ji), np.abs(np.linalg.det(J)), N


def boundary_faces(ele, P, C, pred):
    """[(cell, local face)] faces all of whose vertices satisfy pred and that ... (pred on coordinates)"""
    base = LINEAR[ele]
    ok = np.array([bool(pred(p)) for p in P])
    return [(c, f) for c in range(len(C)) for f, v in enumerate(FACES[base]) if all(ok[C[c][k]] for k in v)]


def face_points(base, f, X):
    """map face rule points to the reference cell and return (points, tangents-scale builder)"""
    V = ref_nodes(base)[list(FACES[base][f])]
    if DIM[base] == 2:
        t = X[:, 0]
        pts = V[0] + t[:, None] * (V[1] - V[0])
        T = [np.tile(V[1] - V[0], (len(t), 1))]
    elif len(V) == 3:
        pts = V[0] + X[:, :1] * (V[1] - V[0]) + X[:, 1:] * (V[2] - V[0])
        T = [np.tile(V[1] - V[0], (len(X), 1)), np.tile(V[2] - V[0], (len(X), 1))]
    else:
        s = shape("QUAD4", X)
        g = shape_grad("QUAD4", X)
        pts = s @ V
        T = [np.einsum("qa,ai->qi", g[:, :, 0], V), np.einsum("qa,ai->qi", g[:, :, 1], V)]
    return pts, T


def ref_residual(ele, P, C, U, tensor, mass, surfaces, nrule=5):
    """U (nodes, vec); tensor(gu, N, c, x)-> (c,q,v,d) arrays etc.; surfaces: list of (pred, fn(u,x)->(q,v))"""
    base = LINEAR[ele]
    X, W = exact_rule(base, nrule)
    x, B, dJ, N = cell_geometry(ele, P, C, X)
    uc = U[C]
    gu = np.einsum("cav,cqai->cqvi", uc, B)
    uq = np.einsum("qa,cav->cqv", N, uc)
    R = np.zeros(U.shape)
    el = np.zeros(uc.shape)
    if tensor is not None:
        el += np.einsum("cqvi,cqai,cq->cav", tensor(gu, N, x), B, dJ * W[None])
    if mass is not None:
        el += np.einsum("cqv,qa,cq->cav", mass(uq, N, x), N, dJ * W[None])
    np.add.at(R, C, el)
    Xf, Wf = face_rule(base, nrule)
    for pred, fn in surfaces:
        for c, f in boundary_faces(ele, P, C, pred):
            pts, T = face_points(base, f, Xf)
            Nf, Gf = shape(ele, pts), shape_grad(ele, pts)
            J = np.einsum("qak,ai->qik", Gf, P[C[c]])
            t = [np.einsum("qik,qk->qi", J, v) for v in T]
            ds = np.linalg.norm(t[0], axis=1) if len(t) == 1 else np.linalg.norm(np.cross(t[0], t[1]), axis=1)
            xq = Nf @ P[C[c]]
            tr = fn(Nf @ U[C[c]], xq)
            np.add.at(R, C[c], np.einsum("qv,qa,q->av", tr, Nf, ds * Wf))
    return R
