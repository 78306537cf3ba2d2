"""Term language and decision procedure.

Terms are Laurent polynomials over interned atoms with real (float64)
coefficients.  Atoms: free variables, applications of uninterpreted functions,
elementary functions, denominators, square roots, conditionals.

Equality is decided by
  1. ring normal form (after clearing denominators, reducing even powers of
     square roots and sin^2, and splitting on the conditions of conditionals);
  2. for residual case splits, infeasibility of the path condition / equality
     under it by z3 over the reals.
Coefficients are compared with a relative tolerance (machine arithmetic is
treated as real arithmetic; see DESIGN.md).
"""
from __future__ import annotations
import math
import numpy as np

TOL = 1e-9
MAXTERMS = 400_000


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a violation)."""


class TooBig(Unsupported):
    pass


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "name", "args", "meta")

    def __init__(self, id, kind, name, args, meta=None):
        self.id, self.kind, self.name, self.args, self.meta = id, kind, name, args, meta

    def __repr__(self):
        if self.kind == "var":
            return str(self.name)
        return f"{self.kind}:{self.name}({', '.join(map(str, self.args))})"


_ATOMS: list[Atom] = []
_INTERN: dict = {}


def reset():
    _ATOMS.clear()
    _INTERN.clear()
    _BATOMS.clear()
    _BINTERN.clear()


def _akey(a):
    if isinstance(a, Poly):
        return ("P",) + tuple(sorted(m for m, c in a.t.items()))
    if isinstance(a, Bool):
        return ("B", a.key())
    return ("C", a)


def _aeq(a, b):
    if isinstance(a, Poly):
        return isinstance(b, Poly) and close(a, b)
    if isinstance(a, Bool):
        return isinstance(b, Bool) and a.key() == b.key()
    return a == b


def atom(kind, name, args=(), meta=None):
    key = (kind, name) + tuple(_akey(a) for a in args)
    bucket = _INTERN.setdefault(key, [])
    for at in bucket:
        if all(_aeq(x, y) for x, y in zip(at.args, args)):
            return at
    at = Atom(len(_ATOMS), kind, name, tuple(args), meta)
    _ATOMS.append(at)
    bucket.append(at)
    return at


# --------------------------------------------------------------------------
class Poly:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t=None):
        self.t = {} if t is None else t

    # construction
    @staticmethod
    def const(c):
        c = float(c)
        return Poly({(): c}) if c != 0.0 else Poly({})

    @staticmethod
    def of_atom(at, e=1):
        return Poly({((at.id, e),): 1.0})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0.0)

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                v = s + c
                if abs(v) <= 1e-13 * (abs(s) + abs(c)):
                    del r[m]
                else:
                    r[m] = v
        if len(r) > MAXTERMS:
            raise TooBig("polynomial too large")
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and () in a:
            c0 = a[()]
            return Poly({m: c * c0 for m, c in b.items()})
        if len(b) == 1 and () in b:
            c0 = b[()]
            return Poly({m: c * c0 for m, c in a.items()})
        if len(a) * len(b) > 4 * MAXTERMS:
            raise TooBig("product too large")
        r = {}
        mag = {}
        sq = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                c = c1 * c2
                if m in r:
                    r[m] += c
                    mag[m] = mag.get(m, 0.0) + abs(c)
                else:
                    r[m] = c
        for m, g in mag.items():
            if abs(r[m]) <= 1e-13 * g:
                del r[m]
        p = Poly(r)
        return p

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def __pow__(self, e):
        if isinstance(e, Poly):
            if e.is_const():
                e = e.const_value()
            else:
                return gpow(self, e)
        e = float(e)
        if e == int(e):
            return ipow(self, int(e))
        return gpow(self, Poly.const(e))

    def __rpow__(self, b):
        return gpow(lift(b), self)

    def __abs__(self):
        return pabs(self)

    # comparison -> Bool
    def __lt__(self, o):
        return gt0(lift(o) - self)

    def __gt__(self, o):
        return gt0(self - lift(o))

    def __le__(self, o):
        return bnot(gt0(self - lift(o)))

    def __ge__(self, o):
        return bnot(gt0(lift(o) - self))

    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return False
        return eq0(self - o)

    def __ne__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return True
        return bnot(eq0(self - o))

    __hash__ = None

    # numpy unary ufunc hooks on object arrays
    def sqrt(self):
        return psqrt(self)

    def exp(self):
        return elem("exp", self)

    def log(self):
        return elem("log", self)

    def sin(self):
        return elem("sin", self)

    def cos(self):
        return elem("cos", self)

    def tanh(self):
        return elem("tanh", self)

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def __float__(self):
        if self.is_const():
            return self.const_value()
        raise Unsupported("float() of a symbolic term")

    def __int__(self):
        return int(float(self))

    def __bool__(self):
        return bool(self != 0.0)

    def __repr__(self):
        return show(self)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


ZERO = Poly({})
ONE = Poly({(): 1.0})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Bool):
        return bool_to_poly(x)
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        return Poly.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return Poly.const(float(x))
    return NotImplemented


def var(name):
    return Poly.of_atom(atom("var", name))


def close(a: Poly, b: Poly, tol=TOL):
    s = 0.0
    for c in a.t.values():
        s = max(s, abs(c))
    for c in b.t.values():
        s = max(s, abs(c))
    lim = tol * max(s, 1e-30)
    for m, c in a.t.items():
        if abs(c - b.t.get(m, 0.0)) > lim:
            return False
    for m, c in b.t.items():
        if m not in a.t and abs(c) > lim:
            return False
    return True


def ipow(p, n):
    if n < 0:
        return inv(ipow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def clean(p):
    """drop coefficients that are rounding noise of the biggest one (machine arithmetic treated as real)"""
    if len(p.t) < 2:
        return p
    lim = 1e-12 * max(abs(c) for c in p.t.values())
    if all(abs(c) > lim for c in p.t.values()):
        return p
    return Poly({m: c for m, c in p.t.items() if abs(c) > lim})


def _leading(p):
    m = min(p.t)
    return p.t[m]


def inv(p):
    if not p.t:
        raise Unsupported("division by literal zero")
    p = clean(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in m): 1.0 / c})
    c = _leading(p)
    q = Poly({m: v / c for m, v in p.t.items()})
    at = atom("den", "", (q,))
    return Poly({((at.id, -1),): 1.0 / c})


def psqrt(p):
    if p.is_const():
        c = p.const_value()
        if c >= 0:
            return Poly.const(math.sqrt(c))
        raise Unsupported("sqrt of negative constant")
    p = clean(p)
    c = abs(_leading(p))
    q = Poly({m: v / c for m, v in p.t.items()})
    return Poly.of_atom(atom("sqrt", "", (q,))) * math.sqrt(c)


def pabs(p):
    if p.is_const():
        return Poly.const(abs(p.const_value()))
    p = clean(p)
    c = _leading(p)
    q = Poly({m: v / c for m, v in p.t.items()})
    return Poly.of_atom(atom("abs", "", (q,))) * abs(c)


_NUM = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
        "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "atan": math.atan,
        "acos": math.acos, "asin": math.asin, "erf": math.erf, "floor": math.floor,
        "ceil": math.ceil, "log1p": math.log1p, "expm1": math.expm1}
_ODD = {"sin", "tan", "tanh", "sinh", "atan", "asin", "erf"}
_EVEN = {"cos", "cosh"}


def elem(name, p):
    p = clean(lift(p))
    if p.is_const() and name in _NUM:
        return Poly.const(_NUM[name](p.const_value()))
    if name == "expm1":
        return elem("exp", p) - 1.0
    if name == "log1p":
        return elem("log", p + 1.0)
    if name == "tan":
        return elem("sin", p) / elem("cos", p)
    if name in _ODD or name in _EVEN:
        c = _leading(p)
        if c < 0:
            r = Poly.of_atom(atom("fn", name, (-p,)))
            return -r if name in _ODD else r
    if name == "exp":
        # exp(c0 + sum) = e^c0 * exp(sum); canonical sign through reciprocal
        c0 = p.t.get((), 0.0)
        q = Poly({m: c for m, c in p.t.items() if m != ()})
        k = math.exp(c0)
        if _leading(q) < 0:
            return inv(Poly.of_atom(atom("fn", "exp", (-q,)))) * k
        return Poly.of_atom(atom("fn", "exp", (q,))) * k
    return Poly.of_atom(atom("fn", name, (p,)))


def gpow(b, e):
    b, e = lift(b), lift(e)
    if e.is_const():
        c = e.const_value()
        if c == int(c):
            return ipow(b, int(c))
        if c * 2 == int(c * 2):
            return ipow(b, int(math.floor(c))) * psqrt(b)
    if b.is_const() and e.is_const():
        return Poly.const(b.const_value() ** e.const_value())
    c0 = e.t.get((), 0.0)
    n = math.floor(c0 + 1e-12)
    f = e - float(n)
    base = b
    # b^(n+f) = b^n * b^f
    if not f.t:
        return ipow(b, n)
    return ipow(base, n) * Poly.of_atom(atom("pow", "", (base, f)))


# -------------------------------------------------------------------- Bool
class BAtom:
    __slots__ = ("id", "kind", "poly", "name")

    def __init__(self, id, kind, poly, name=None):
        self.id, self.kind, self.poly, self.name = id, kind, poly, name


_BATOMS: list[BAtom] = []
_BINTERN: dict = {}
_DECIDER = [None]      # path-forking hook for host execution


class Bool:
    """op in {'c','a','not','and','or'}"""
    __slots__ = ("op", "args", "_k")
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ("c", "a"):
                self._k = (self.op, self.args)
            else:
                self._k = (self.op,) + tuple(a.key() for a in self.args)
        return self._k

    def __bool__(self):
        if self.op == "c":
            return self.args
        if _DECIDER[0] is None:
            raise Unsupported("branch on a symbolic condition")
        return _DECIDER[0](self)

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, blift(o))

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, blift(o))

    __ror__ = __or__

    def __xor__(self, o):
        o = blift(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __repr__(self):
        if self.op == "c":
            return str(self.args)
        if self.op == "a":
            a = _BATOMS[self.args]
            return a.name if a.kind == "var" else f"[{a.poly} {'>' if a.kind == 'gt' else '=='} 0]"
        return f"{self.op}({', '.join(map(repr, self.args))})"


TRUE = Bool("c", True)
FALSE = Bool("c", False)


def blift(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, Poly):
        return bnot(eq0(x))
    return TRUE if bool(x) else FALSE


def _batom(kind, poly, name=None):
    key = (kind, name, _akey(poly) if poly is not None else None)
    bucket = _BINTERN.setdefault(key, [])
    for b in bucket:
        if poly is None or close(b.poly, poly):
            return Bool("a", b.id)
    b = BAtom(len(_BATOMS), kind, poly, name)
    _BATOMS.append(b)
    bucket.append(b)
    return Bool("a", b.id)


def bvar(name):
    return _batom("var", None, name)


def _algebraic(p):
    """value-preserving reduction of squared sqrt/abs/indicator atoms (no denominators involved)"""
    hit = False
    for m in p.t:
        for a, e in m:
            k = _ATOMS[a].kind
            if e < 0 or k == "den":
                return p
            hit |= e >= 2 and k in ("sqrt", "abs", "ind")
    return clear(p) if hit else p


def gt0(p):
    p = _algebraic(p)
    if p.is_const():
        return TRUE if p.const_value() > 0 else FALSE
    p = clean(p)
    c = abs(_leading(p))
    return _batom("gt", Poly({m: v / c for m, v in p.t.items()}))


def eq0(p):
    p = _algebraic(p)
    if not p.t:
        return TRUE
    if p.is_const():
        return TRUE if abs(p.const_value()) == 0 else FALSE
    c = _leading(p)
    return _batom("eq", Poly({m: v / c for m, v in p.t.items()}))


def bnot(b):
    b = blift(b)
    if b.op == "c":
        return FALSE if b.args else TRUE
    if b.op == "not":
        return b.args[0]
    return Bool("not", (b,))


def band(a, b):
    a, b = blift(a), blift(b)
    if a.op == "c":
        return b if a.args else FALSE
    if b.op == "c":
        return a if b.args else FALSE
    if a.key() == b.key():
        return a
    return Bool("and", (a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    c = blift(c)
    if c.op == "c":
        return a if c.args else b
    if isinstance(a, Bool) or isinstance(b, Bool):
        a, b = blift(a), blift(b)
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if close(a, b):
        return a
    # factor: ite(c,a,b) = b + ite01(c)*(a-b)
    ind = Poly.of_atom(atom("ind", "", (c,)))
    return b + ind * (a - b)


def bool_to_poly(b):
    return ite(b, ONE, ZERO)


def pmax(a, b):
    a, b = lift(a), lift(b)
    if a.is_const() and b.is_const():
        return Poly.const(max(a.const_value(), b.const_value()))
    # max(a,b) = (a+b+|a-b|)/2
    return (a + b + pabs(a - b)) * 0.5


def pmin(a, b):
    a, b = lift(a), lift(b)
    return (a + b - pabs(a - b)) * 0.5


# ---------------------------------------------------------------- decision
def _used_atoms(p, acc=None):
    acc = set() if acc is None else acc
    stack = [a for m in p.t for a, _ in m]
    while stack:
        a = stack.pop()
        if a in acc:
            continue
        acc.add(a)
        for x in _ATOMS[a].args:
            if isinstance(x, Poly):
                stack.extend(b for m in x.t for b, _ in m)
            elif isinstance(x, Bool):
                for bid in batoms(x):
                    q = _BATOMS[bid].poly
                    if q is not None:
                        stack.extend(b for m in q.t for b, _ in m)
    return acc


def batoms(b, acc=None):
    acc = set() if acc is None else acc
    if b.op == "a":
        acc.add(b.args)
    elif b.op != "c":
        for x in b.args:
            batoms(x, acc)
    return acc


class Subst:
    """Rebuild terms after fixing the truth of boolean atoms (and expanding |p|)."""

    def __init__(self, truth):
        self.truth = truth
        self.memo = {}
        self.bmemo = {}

    def b(self, b):
        if b.op == "c":
            return b
        if b.op == "a":
            if b.args in self.truth:
                return TRUE if self.truth[b.args] else FALSE
            at = _BATOMS[b.args]
            if at.poly is None:
                return b
            if b.args not in self.bmemo:
                q = self.p(at.poly)
                self.bmemo[b.args] = gt0(q) if at.kind == "gt" else eq0(q)
                nb = self.bmemo[b.args]
                if nb.op == "a" and nb.args in self.truth:
                    self.bmemo[b.args] = TRUE if self.truth[nb.args] else FALSE
            return self.bmemo[b.args]
        xs = [self.b(x) for x in b.args]
        return bnot(xs[0]) if b.op == "not" else band(*xs)

    def at(self, aid):
        r = self.memo.get(aid)
        if r is not None:
            return r
        a = _ATOMS[aid]
        if a.kind == "var":
            r = Poly.of_atom(a)
        elif a.kind == "ind":
            c = self.b(a.args[0])
            r = Poly.of_atom(a) if c.key() == a.args[0].key() else bool_to_poly(c)
        else:
            na = [self.p(x) if isinstance(x, Poly) else (self.b(x) if isinstance(x, Bool) else x) for x in a.args]
            if a.kind == "abs":
                q = na[0]
                g = self.b(gt0(q))
                if g.op == "c":
                    r = q if g.args else -q
                else:
                    r = pabs(q)
            elif all((x is y) or (isinstance(x, Poly) and close(x, y)) for x, y in zip(na, a.args)):
                r = Poly.of_atom(a)
            elif a.kind == "den":
                r = inv(inv(na[0])) if na[0].t else None
                if r is None:
                    raise Unsupported("zero denominator on a path")
            elif a.kind == "sqrt":
                r = psqrt(na[0])
            elif a.kind == "pow":
                r = gpow(na[0], na[1])
            elif a.kind == "fn":
                r = elem(a.name, na[0])
            elif a.kind == "uf":
                r = Poly.of_atom(atom("uf", a.name, tuple(na)))
            else:
                raise Unsupported(f"subst {a.kind}")
        self.memo[aid] = r
        return r

    def p(self, p):
        if all(self._same(a) for m in p.t for a, _ in m):
            return p
        out = ZERO
        for m, c in p.t.items():
            r = Poly.const(c)
            for a, e in m:
                r = r * ipow(self.at(a), e)
            out = out + r
        return out

    def _same(self, a):
        r = self.at(a)
        return len(r.t) == 1 and r.t.get(((a, 1),)) == 1.0


def clear(p, rounds=60):
    """Clear denominators / reduce algebraic atoms of p (p==0 is preserved)."""
    for _ in range(rounds):
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = Poly({tuple(sorted((a, -e) for a, e in neg.items())): 1.0})
            p = p * f
        # expand the newest expandable atom
        best = None
        for m in p.t:
            for a, e in m:
                k = _ATOMS[a].kind
                if k == "den" or (k in ("sqrt", "abs") and e >= 2) or \
                        (k == "ind" and e >= 2) or \
                        (k == "fn" and _ATOMS[a].name == "sin" and e >= 2):
                    if best is None or a > best:
                        best = a
        if best is None:
            return p
        A = _ATOMS[best]
        out = ZERO
        base = A.args[0]
        cache = {}
        groups = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for a, x in m:
                if a == best:
                    e = x
                else:
                    rest.append((a, x))
            groups.setdefault(e, {})[tuple(rest)] = c
        for e, g in groups.items():
            q = Poly(g)
            if A.kind == "den":
                out = out + q * ipow(base, e)
            elif A.kind == "ind":
                out = out + (q * Poly.of_atom(A) if e else q)
            elif A.kind == "sqrt":
                q = q * ipow(base, e // 2)
                if e % 2:
                    q = q * Poly.of_atom(A)
                out = out + q
            elif A.kind == "abs":
                q = q * ipow(base * base, e // 2)
                if e % 2:
                    q = q * Poly.of_atom(A)
                out = out + q
            else:  # sin
                cs = elem("cos", base)
                q = q * ipow(ONE - cs * cs, e // 2)
                if e % 2:
                    q = q * Poly.of_atom(A)
                out = out + q
        p = out
    return p


def _scale(p):
    return max((abs(c) for c in p.t.values()), default=0.0)


def _free_conditions(p):
    """boolean atoms to split on: conditions of ind atoms and signs of |.|"""
    conds = []
    for aid in sorted(_used_atoms(p)):
        a = _ATOMS[aid]
        if a.kind == "ind":
            for b in sorted(batoms(a.args[0])):
                if b not in conds:
                    conds.append(b)
        elif a.kind == "abs":
            g = gt0(a.args[0])
            if g.op == "a" and g.args not in conds:
                conds.append(g.args)
    return conds


class Stats:
    z3_calls = 0
    z3_time = 0.0
    splits = 0


def _z3_poly(p, z3, vars_, side):
    out = 0
    for m, c in p.t.items():
        t = z3.RealVal(repr(c))
        conds = []
        for a, e in m:
            if e > 0 and _ATOMS[a].kind == "ind":
                conds.append(_z3_bool(_ATOMS[a].args[0], z3, vars_, side))
                continue
            v = _z3_atom(a, z3, vars_, side)
            if e > 0:
                for _ in range(e):
                    t = t * v
            else:
                for _ in range(-e):
                    t = t / v
        if conds:
            t = z3.If(z3.And(*conds), t, z3.RealVal(0))
        out = out + t
    return out


def _z3_atom(a, z3, vars_, side):
    if a in vars_:
        return vars_[a]
    v = z3.Real(f"a{a}")
    vars_[a] = v
    A = _ATOMS[a]
    if A.kind == "den":
        side.append(v == _z3_poly(A.args[0], z3, vars_, side))
        side.append(v != 0)
    elif A.kind == "sqrt":
        q = _z3_poly(A.args[0], z3, vars_, side)
        side.append(z3.And(v >= 0, v * v == q))
    elif A.kind == "abs":
        q = _z3_poly(A.args[0], z3, vars_, side)
        side.append(z3.If(q > 0, v == q, v == -q))
    elif A.kind == "fn" and A.name == "exp":
        side.append(v > 0)
    elif A.kind == "ind":
        side.append(z3.If(_z3_bool(A.args[0], z3, vars_, side), v == 1, v == 0))
    return v


def _z3_bool(b, z3, vars_, side):
    if b.op == "c":
        return z3.BoolVal(b.args)
    if b.op == "a":
        B = _BATOMS[b.args]
        if B.kind == "var":
            return z3.Bool(f"b{b.args}")
        q = _z3_poly(B.poly, z3, vars_, side)
        return q > 0 if B.kind == "gt" else q == 0
    xs = [_z3_bool(x, z3, vars_, side) for x in b.args]
    return z3.Not(xs[0]) if b.op == "not" else z3.And(*xs)


CEX = {}


def _capture(model, vars_, z3):
    """remember the solver's counterexample: variable name -> value"""
    CEX.clear()
    for a, v in vars_.items():
        A = _ATOMS[a]
        if A.kind != "var":
            continue
        x = model[v]
        if x is None:
            continue
        try:
            CEX[A.name] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
        except Exception:
            pass
    for k, B in enumerate(_BATOMS):
        if B is not None and B.kind == "var":
            x = model[z3.Bool(f"b{k}")]
            if x is not None:
                CEX[B.name] = bool(x)


def z3_entails_zero(pc, p, timeout_ms=3000):
    """True if pc |= p == 0 (real arithmetic); False if refuted; None unknown."""
    import time
    import z3
    t0 = time.time()
    Stats.z3_calls += 1
    vars_, side = {}, []
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for b in pc:
        s.add(_z3_bool(b, z3, vars_, side))
    if p is not None:
        q = _z3_poly(p, z3, vars_, side)
        eps = z3.RealVal(repr(1e-7 * max(_scale(p), 1e-30)))
        s.add(z3.Or(q > eps, q < -eps))
    for x in side:
        s.add(x)
    r = s.check()
    Stats.z3_time += time.time() - t0
    if r == z3.sat and p is not None:
        _capture(s.model(), vars_, z3)
    return True if r == z3.unsat else (False if r == z3.sat else None)


def z3_entails_nonneg(pc, p, eps, timeout_ms=20000):
    """True if pc |= p >= -eps (real arithmetic, atoms abstracted with their side conditions)"""
    import time
    import z3
    t0 = time.time()
    Stats.z3_calls += 1
    vars_, side = {}, []
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for b in pc:
        s.add(_z3_bool(b, z3, vars_, side))
    s.add(_z3_poly(p, z3, vars_, side) < -z3.RealVal(repr(eps)))
    for x in side:
        s.add(x)
    r = s.check()
    Stats.z3_time += time.time() - t0
    if r == z3.sat:
        _capture(s.model(), vars_, z3)
    return True if r == z3.unsat else (False if r == z3.sat else None)


def is_zero(p, assume=(), scale=None, max_splits=4096, ref=None):
    """Decide p == 0 for all values of its atoms, under the assumptions.

    Returns (True/False/None, reason)."""
    scale0 = _scale(p)
    if ref is not None:
        scale0 = max(scale0, ref)
    budget = [max_splits]

    def zero(p):
        q = clear(p)
        if not q.t:
            return True
        # coefficient noise: relative to the biggest coefficient seen
        lim = TOL * max(_scale(q), scale0, 1e-30)
        r = {m: c for m, c in q.t.items() if abs(c) > lim}
        if not r:
            return True
        if _scale(q) <= TOL * max(scale0, 1e-30):
            return True
        return False

    def rec(p, pc, truth):
        if zero(p):
            return True, "ring"
        conds = [c for c in _free_conditions(p) if c not in truth]
        if not conds:
            if pc or assume:
                r = z3_entails_zero(list(assume) + pc, clear(p))
                if r is True:
                    return True, "z3"
                if r is None:
                    return None, "z3 unknown"
            elif numerically_zero(p):
                return None, "normal form within rounding noise"
            return False, f"nonzero normal form: {show(p)[:300]}"
        budget[0] -= 1
        Stats.splits += 1
        if budget[0] < 0:
            return None, "split budget"
        # prefer conditions whose polynomials do not depend on other conditions
        b = conds[0]
        ok = True
        why = "split"
        for val in (True, False):
            lit = Bool("a", b) if val else bnot(Bool("a", b))
            pc2 = pc + [lit]
            t2 = dict(truth)
            t2[b] = val
            q = Subst(t2).p(p)
            if zero(q):
                continue
            if len(pc2) + len(assume) > 1:
                if z3_entails_zero(list(assume) + pc2, None) is True:
                    continue
            r, w = rec(q, pc2, t2)
            if r is not True:
                return r, w
        return ok, why

    if len(_free_conditions(p)) >= 5 and not zero(p):  # many conditions: one query instead of a case tree
        if z3_entails_zero(list(assume), p, 5000) is True:
            return True, "z3"
    return rec(p, [], {})


def numerically_zero(p, n=4):
    """the term evaluates to rounding noise at random values of its variables"""
    import random
    r = random.Random(7)
    vs = [a for a in _used_atoms(p)]
    try:
        for _ in range(n):
            env = _Rand(r)
            v = evaluate(p, env)
            big = max((abs(c) for c in p.t.values()), default=0.0)
            mag = evaluate(Poly({m: abs(c) for m, c in p.t.items()}), env) if p.t else 0.0
            if not (abs(v) <= 1e-7 * max(abs(mag), 1e-300)):
                return False
        return True
    except Exception:
        return False


class _Rand(dict):
    def __init__(self, r):
        super().__init__()
        self.r = r

    def __missing__(self, k):
        self[k] = self.r.uniform(0.3, 1.7)
        return self[k]

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return True


# ------------------------------------------------------------- evaluation
def show(p, limit=12):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items())):
        if i >= limit:
            out.append(f"... ({len(p.t)} terms)")
            break
        s = f"{c:.6g}"
        for a, e in m:
            A = _ATOMS[a]
            n = A.name if A.kind == "var" else f"{A.kind}{A.name}#{a}"
            s += f"*{n}" + (f"^{e}" if e != 1 else "")
        out.append(s)
    return " + ".join(out)


def evaluate(p, env, memo=None):
    """Numeric value under env: var name -> float (uninterpreted apps unsupported)."""
    memo = {} if memo is None else memo

    def at(a):
        if a in memo:
            return memo[a]
        A = _ATOMS[a]
        if A.kind == "var":
            v = env[A.name]
        elif A.kind == "den":
            v = ev(A.args[0])
        elif A.kind == "sqrt":
            v = math.sqrt(ev(A.args[0]))
        elif A.kind == "abs":
            v = abs(ev(A.args[0]))
        elif A.kind == "fn":
            v = _NUM[A.name](ev(A.args[0]))
        elif A.kind == "pow":
            v = ev(A.args[0]) ** ev(A.args[1])
        elif A.kind == "ind":
            v = 1.0 if bev(A.args[0]) else 0.0
        elif isinstance(env, _Rand):
            v = env[("atom", a)]
        else:
            raise Unsupported("evaluate " + A.kind)
        memo[a] = v
        return v

    def bev(b):
        if b.op == "c":
            return b.args
        if b.op == "a":
            B = _BATOMS[b.args]
            if B.kind == "var":
                return env[B.name]
            v = ev(B.poly)
            return v > 0 if B.kind == "gt" else v == 0
        if b.op == "not":
            return not bev(b.args[0])
        return all(bev(x) for x in b.args)

    def ev(p):
        s = 0.0
        for m, c in p.t.items():
            t = c
            for a, e in m:
                t *= at(a) ** e
            s += t
        return s
    return ev(p)
