"""Running real NumPy host code on symbolic entries.

`numpy_as_symbolic(module, ...)` temporarily replaces the module global(s) bound to
NumPy by a shim: everything that moves values around is NumPy itself on object
arrays; float-valued constructors build object arrays, dtype coercions of symbolic
data are the identity, and max/min/where/clip/floor are given their mathematical
meaning.  Trusted: this table and NumPy's own indexing/reshaping.
"""
import contextlib
import numpy as np
import z3
from . import ring, symint as S


def is_sym(x):
    if isinstance(x, (ring.Poly, ring.Bool, S.I, S.B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(v) for v in x)
    return False


class SymArr(np.ndarray):
    """object array whose dtype coercions are the identity and whose boolean masks may be symbolic (they fork)"""

    def astype(self, *a, **k):
        return self

    def _key(self, k):
        def one(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                if x.size and isinstance(x.flat[0], (S.B, bool, np.bool_)):
                    return np.array([bool(v) for v in x.flat], bool).reshape(x.shape)
                return np.array([int(v) for v in x.flat], int).reshape(x.shape)
            return x
        return tuple(one(x) for x in k) if isinstance(k, tuple) else one(k)

    def __getitem__(self, k):
        return super().__getitem__(self._key(k))

    def __setitem__(self, k, v):
        super().__setitem__(self._key(k), v)


def arr(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SymArr)
    if isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x):
        return np.array([np.asarray(v, dtype=object) for v in x], dtype=object).view(SymArr)
    a = np.empty(np.shape(np.array(x, dtype=object)), dtype=object)
    a[...] = np.array(x, dtype=object)
    return a.view(SymArr)


def _lift2(f):
    def g(*args):
        bs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[b[i] for b in bs])
        return out.view(SymArr) if out.shape else out[()]
    return g


def _any_ring(*v):
    return any(isinstance(x, (ring.Poly, ring.Bool)) for x in v)


def _max(a, b):
    if _any_ring(a, b):
        return ring.pmax(ring.lift(a), ring.lift(b))
    if isinstance(a, S.I) or isinstance(b, S.I):
        x, y = S.ix(a), S.ix(b)
        return S.I(z3.If(x >= y, x, y))
    return max(a, b)


def _min(a, b):
    if _any_ring(a, b):
        return ring.pmin(ring.lift(a), ring.lift(b))
    if isinstance(a, S.I) or isinstance(b, S.I):
        x, y = S.ix(a), S.ix(b)
        return S.I(z3.If(x <= y, x, y))
    return min(a, b)


def _ite(c, a, b):
    if _any_ring(c, a, b) and not isinstance(c, (bool, np.bool_)):
        return ring.ite(ring.blift(c), ring.lift(a), ring.lift(b))
    if isinstance(c, S.B):
        return S.I(z3.If(c.e, S.ix(a), S.ix(b)))
    return a if c else b


def _floor(a):
    if isinstance(a, S.I):
        return a if a.e.is_int() else S.I(z3.ToInt(a.e))
    return np.floor(a)


def _ceil(a):
    if isinstance(a, S.I):
        return a if a.e.is_int() else S.I(-z3.ToInt(-a.e))
    return np.ceil(a)


class SymNp:
    """force: constructors of float arrays build object arrays even without symbolic arguments"""

    def __init__(self, force=True):
        self._force = force
        self.linalg = SymLinalg()

    def __getattr__(self, k):
        return getattr(np, k)

    def asarray(self, x, dtype=None, **k):
        return arr(x) if is_sym(x) else np.asarray(x, dtype)

    def array(self, x, dtype=None, **k):
        return arr(x).copy() if is_sym(x) else np.array(x, dtype)

    ascontiguousarray = asarray

    def _new(self, shape, fill, dtype):
        if dtype is not None and np.dtype(dtype).kind in "biu":
            return np.full(shape, fill, dtype)
        if not self._force and not is_sym(fill):
            return np.full(shape, fill, dtype)
        a = np.empty(shape, dtype=object)
        a[...] = fill
        return a.view(SymArr)

    def full(self, shape, fill, dtype=None):
        return self._new(shape, fill, dtype)

    def zeros(self, shape, dtype=None):
        return self._new(shape, 0.0 if dtype is None or np.dtype(dtype).kind not in "biu" else 0, dtype)

    def ones(self, shape, dtype=None):
        return self._new(shape, 1.0 if dtype is None or np.dtype(dtype).kind not in "biu" else 1, dtype)

    empty = zeros

    def zeros_like(self, a, dtype=None):
        return self._new(np.shape(a), 0.0, dtype)

    def ones_like(self, a, dtype=None):
        return self._new(np.shape(a), 1.0, dtype)

    def full_like(self, a, v, dtype=None):
        return self._new(np.shape(a), v, dtype)

    def where(self, c, *ab):
        if not ab:
            return np.where(c)
        if is_sym(c) or any(is_sym(x) for x in ab):
            return _lift2(_ite)(c, *ab)
        return np.where(c, *ab)

    def maximum(self, a, b):
        return _lift2(_max)(a, b) if is_sym(a) or is_sym(b) else np.maximum(a, b)

    def minimum(self, a, b):
        return _lift2(_min)(a, b) if is_sym(a) or is_sym(b) else np.minimum(a, b)

    def clip(self, a, lo, hi):
        return self.minimum(self.maximum(a, lo), hi)

    def floor(self, a):
        return _lift2(_floor)(a) if is_sym(a) else np.floor(a)

    def ceil(self, a):
        return _lift2(_ceil)(a) if is_sym(a) else np.ceil(a)

    def abs(self, a):
        return _lift2(lambda x: abs(x))(a) if is_sym(a) else np.abs(a)

    absolute = abs

    def unique(self, a, **k):
        """assumed contract: the set of entries (order and multiplicity not relied upon)"""
        return a.ravel() if is_sym(a) and not k else np.unique(a, **k)


def _sym_inv(a):
    """inverse of a symbolic matrix: adjugates of the diagonal blocks of its sparsity pattern (blocks up to 3x3)"""
    a = np.asarray(a, dtype=object)
    n = len(a)
    nz = lambda x: bool(ring.lift(x).t)
    comp, left_ = [], set(range(n))
    while left_:
        st, c = [min(left_)], set()
        while st:
            i = st.pop()
            if i in c:
                continue
            c.add(i)
            st += [j for j in range(n) if j not in c and (nz(a[i, j]) or nz(a[j, i]))]
        comp.append(sorted(c))
        left_ -= c
    out = np.empty((n, n), dtype=object)
    out[...] = ring.lift(0.)

    def det(m):
        if len(m) == 1:
            return m[0][0]
        return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if nz(m[0][j])), ring.lift(0.))
    for c in comp:
        if len(c) > 3:
            raise ring.Unsupported("symbolic inverse of a block larger than 3x3")
        m = [[ring.lift(a[i, j]) for j in c] for i in c]
        if len(c) == 1:
            out[c[0], c[0]] = 1. / m[0][0]
            continue
        d = 1. / det(m)
        for x, i in enumerate(c):
            for y, j in enumerate(c):
                minor = [[m[r][s] for s in range(len(c)) if s != x] for r in range(len(c)) if r != y]
                out[i, j] = (-1) ** (x + y) * det(minor) * d
    return out.view(SymArr)


class SymLinalg:
    def __getattr__(self, k):
        return getattr(np.linalg, k)

    def inv(self, a):
        return _sym_inv(a) if is_sym(a) else np.linalg.inv(a)


@contextlib.contextmanager
def numpy_as_symbolic(*modules, force=True, local=False, jax_too=False):
    """local: also functions that import numpy in their body see the shim; jax_too: jax.numpy as well (value moving only)"""
    import sys
    import jax.numpy as jnp
    shim = SymNp(force)
    saved = []
    try:
        if local:
            sys.modules["numpy"] = shim
        for m in modules:
            for k, v in list(vars(m).items()):
                if v is np or (jax_too and v is jnp):
                    saved.append((m, k, v))
                    setattr(m, k, shim)
        yield shim
    finally:
        sys.modules["numpy"] = np
        for m, k, v in saved:
            setattr(m, k, v)
