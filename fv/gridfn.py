"""Structured-grid generators for every number of divisions (engine S).

The real generator runs with symbolic division counts: its NumPy grid constructors are replaced by index functions
(linspace, meshgrid, stack, reshape: assumed contracts), `range(n)` over a symbolic bound yields one generic iteration
(arbitrary index in [0, n)), and the compaction idiom `old_to_new[used] = arange(used.sum())`, `points[used]` by its
meaning (an order-preserving bijection of the used entries).  Any other operation on these objects raises, so the
obligation falls back to the bounded sweep; loop-carried state other than appends and marks cannot be expressed.
"""
import contextlib
import numpy as np
import z3
from . import symint as S


class Flat:
    def __init__(self, n, f):
        self.n, self.f = n, f


class Line(Flat):
    pass


class Grid:
    def __init__(self, n, m, f):
        self.n, self.m, self.f = n, m, f

    def reshape(self, *s):
        if s not in ((-1,), ((-1,),)):
            raise NotImplementedError("reshape")
        return Flat(self.n * self.m, lambda e: self.f(e // self.m, e % self.m))

    def ravel(self):
        return self.reshape(-1)
    flatten = ravel


class Pts:
    def __init__(self, cols, mask=None):
        self.cols, self.mask = cols, mask

    def __getitem__(self, m):
        if not isinstance(m, Mask):
            raise NotImplementedError("points[...]")
        return Pts(self.cols, m)

    def at(self, k):
        if self.mask is not None:
            if not (isinstance(k, Rank) and k.mask is self.mask):
                raise NotImplementedError("unmapped node of a compacted mesh")
            k = k.n
        elif isinstance(k, Rank):
            raise NotImplementedError("mapped node of a full mesh")
        return [c.f(k) for c in self.cols]


class Mask:
    def __init__(self):
        self.marks = []

    def __setitem__(self, k, v):
        if v is not True:
            raise NotImplementedError("mask value")
        self.marks.append(k)

    def sum(self):
        return Count(self)


class Count:
    def __init__(self, m):
        self.m = m


class Rank:
    def __init__(self, mask, n):
        self.mask, self.n = mask, n


class Map:
    mask = None

    def __setitem__(self, m, v):
        if not (isinstance(m, Mask) and isinstance(v, Count) and v.m is m):
            raise NotImplementedError("map assignment")
        self.mask = m

    def __getitem__(self, cells):
        rows = cells.rows if isinstance(cells, Cells) else cells
        return Cells([[Rank(self.mask, n) for n in r] for r in rows])


class Cells:
    def __init__(self, rows):
        self.rows = rows


class Np:
    def __getattr__(self, k):
        if k in ("int32", "int64", "float64", "bool_", "pi"):
            return getattr(np, k)
        raise NotImplementedError(k)

    def linspace(self, a, b, n):
        return Line(n, lambda k: a + (b - a) * (k / (n - 1)))

    def meshgrid(self, x, y, indexing="xy"):
        if indexing == "ij":
            return Grid(x.n, y.n, lambda i, j: x.f(i)), Grid(x.n, y.n, lambda i, j: y.f(j))
        return Grid(y.n, x.n, lambda i, j: x.f(j)), Grid(y.n, x.n, lambda i, j: y.f(i))

    def stack(self, a, axis=0):
        if axis not in (1, -1):
            raise NotImplementedError("stack axis")
        return Pts(list(a))

    def column_stack(self, a):
        return Pts(list(a))

    def zeros(self, n, dtype=None):
        if dtype is not bool:
            raise NotImplementedError("zeros")
        return Mask()

    def full(self, n, v, dtype=None):
        return Map()

    def arange(self, c, dtype=None):
        if not isinstance(c, Count):
            raise NotImplementedError("arange")
        return c

    def array(self, x, dtype=None):
        return Cells(x)
    asarray = array


@contextlib.contextmanager
def generic(module, mk):
    """the module's NumPy as index functions and its range() as one generic iteration; yields [(index, bound)]"""
    seen = []

    def rng(*a):
        if len(a) == 1 and isinstance(a[0], S.I):
            v = mk(f"it{len(seen)}", 0)
            mk("", pre=v < a[0])
            seen.append((v, a[0]))
            return [v]
        return range(*a)
    old = module.onp
    module.onp, module.range = Np(), rng
    try:
        yield seen
    finally:
        module.onp = old
        del module.range
