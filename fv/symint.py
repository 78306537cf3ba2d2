"""Path-exploring symbolic execution of loop-free integer Python code (engine S).

`prove(run, post)`: run(mk) executes the real code on symbolic integers made by
mk(name, lo, hi); every `if`/`min`/`max` on them forks.  On each feasible path the
postcondition (z3 Bool built by `post` from the returned value) must be valid.
"""
import z3


class Fork(Exception):
    pass


class _State:
    cur = None


class Explorer:
    def __init__(self, timeout=10000):
        self.prefix, self.trace = [], []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.pc = []
        self.divs, self.hints, self.total = {}, [], 0

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v, forced = self.prefix[k]
        elif not self.feasible(cond):
            v, forced = False, True
        else:
            v, forced = True, not self.feasible(z3.Not(cond))
        self.trace.append((v, forced))
        c = cond if v else z3.Not(cond)
        self.pc.append(c)
        if len(self.trace) > 400:
            raise RuntimeError("path too long")
        return v

    def divide(self, a, b):
        """quotient and remainder of a by b > 0 (b > 0 is on the path): by numerals natively, else by Euclid's
        theorem: fresh q, r with a = q b + r, 0 <= r < b, unique (instances at the hinted candidates)"""
        if z3.is_int_value(z3.simplify(b)):
            return a / b, a % b
        key = (a.get_id(), b.get_id())
        if key not in self.divs:
            q, r = z3.Int(f"q!{len(self.divs)}"), z3.Int(f"r!{len(self.divs)}")
            self.divs[key] = (q, r, a, b)
            self.pc += [a == q * b + r, r >= 0, r < b]
            for t, s in self.hints:
                self.pc.append(z3.Implies(z3.And(a == t * b + s, s >= 0, s < b), z3.And(q == t, r == s)))
        return self.divs[key][:2]

    def valid(self, c):
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*self.pc, z3.Not(c))
        return s.check() == z3.unsat

    def feasible(self, cond):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc, cond)
        return s.check() != z3.unsat


class B:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _State.cur.decide(self.e)

    def __and__(self, o):
        return B(z3.And(self.e, bx(o)))
    __rand__ = __and__

    def __or__(self, o):
        return B(z3.Or(self.e, bx(o)))
    __ror__ = __or__

    def __invert__(self):
        return B(z3.Not(self.e))

    def __mul__(self, o):
        return I(z3.If(self.e, 1, 0)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return I(z3.If(self.e, 1, 0)) + o
    __radd__ = __add__


def bx(x):
    return x.e if isinstance(x, B) else (x if z3.is_expr(x) else z3.BoolVal(bool(x)))


def ix(x):
    if getattr(x, "shape", None) == () and getattr(x, "dtype", None) == object:
        x = x[()]
    if isinstance(x, I):
        return x.e
    if isinstance(x, B):
        return z3.If(x.e, 1, 0)
    if z3.is_expr(x):
        return x
    if isinstance(x, float) and not x.is_integer():
        from fractions import Fraction
        return z3.RealVal(str(Fraction(x)))
    return z3.IntVal(int(x))


def real(e):
    return z3.ToReal(e) if e.is_int() else e


def _elementwise(cls):
    import numpy as np

    def wrap(f):
        def g(s, o):
            return NotImplemented if isinstance(o, np.ndarray) and o.ndim or getattr(o, "_fv_vector", False) else f(s, o)
        return g
    for k in ("add", "sub", "mul", "floordiv", "truediv", "mod", "pow"):
        for n in (f"__{k}__", f"__r{k}__"):
            if n in cls.__dict__:
                setattr(cls, n, wrap(cls.__dict__[n]))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(cls, f"__{n}__", wrap(cls.__dict__[f"__{n}__"]))
    h = cls.__dict__["__hash__"]
    cls.__hash__ = h
    return cls


@_elementwise
class I:
    """symbolic integer"""
    def __init__(self, e):
        self.e = e

    def __add__(s, o): return I(s.e + ix(o))
    __radd__ = __add__
    def __sub__(s, o): return I(s.e - ix(o))
    def __rsub__(s, o): return I(ix(o) - s.e)
    def __mul__(s, o): return I(s.e * ix(o))
    __rmul__ = __mul__
    def __neg__(s): return I(-s.e)

    def __truediv__(s, o):
        a, b = s.e, ix(o)
        if _State.cur.total and not z3.is_true(z3.simplify(real(b) > 0)):  # unspecified at a zero divisor
            q = z3.Real(f"quot!{_State.cur.total}")
            _State.cur.total += 1
            _State.cur.pc.append(z3.Implies(b != 0, q * real(b) == real(a)))
            return I(q)
        if not _State.cur.decide(b > 0):
            raise ZeroDivisionError("divisor not provably positive")
        return I((z3.ToReal(a) if a.is_int() else a) / (z3.ToReal(b) if b.is_int() else b))
    def __rtruediv__(s, o): return I(ix(o)).__truediv__(s)

    def __pow__(s, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = I(z3.IntVal(1))
            for _ in range(o):
                r = r * s
            return r
        # uninterpreted; nonnegative on a nonnegative base
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        a, b = real(s.e), real(ix(o))
        t = f(a, b)
        _State.cur.pc.append(z3.Implies(a >= 0, t >= 0))
        return I(t)
    def __pos__(s): return s
    def __abs__(s): return I(z3.If(s.e >= 0, s.e, -s.e))

    def _div(s, a, b):
        # Python floor division; the code under contract only divides by positives, which is checked
        if not _State.cur.decide(b > 0):
            raise ZeroDivisionError("divisor not provably positive")
        return _State.cur.divide(a, b)[0]

    def __floordiv__(s, o): return I(s._div(s.e, ix(o)))
    def __rfloordiv__(s, o): return I(s._div(ix(o), s.e))

    def __mod__(s, o):
        b = ix(o)
        if not _State.cur.decide(b > 0):
            raise ZeroDivisionError("modulus not provably positive")
        return I(_State.cur.divide(s.e, b)[1])

    def __rmod__(s, o): return I(ix(o)).__mod__(s)
    def __divmod__(s, o): return s // o, s % o
    def __lt__(s, o): return B(s.e < ix(o))
    def __le__(s, o): return B(s.e <= ix(o))
    def __gt__(s, o): return B(s.e > ix(o))
    def __ge__(s, o): return B(s.e >= ix(o))
    def __eq__(s, o): return B(s.e == ix(o))
    def __ne__(s, o): return B(s.e != ix(o))
    def __hash__(s): return hash(s.e)
    def __bool__(s): return _State.cur.decide(s.e != 0)
    def astype(s, *_a, **_k): return s
    def copy(s): return s
    def __repr__(s): return f"I({s.e})"
    def __format__(s, spec): return repr(s)


def _val(v):
    return v.as_long() if z3.is_int_value(v) else (float(v.as_fraction()) if z3.is_rational_value(v) else str(v))


def prove(run, post, max_paths=256, timeout=20000):
    """(ok, number of obligations, why).  run(mk)->value ; post(value)->z3 Bool / list of z3 Bools"""
    prefix = []
    n = 0
    while True:
        ex = Explorer()
        ex.prefix = prefix
        _State.cur = ex
        vars_ = {}

        def mk(name, lo=None, hi=None, real=False, pre=None, hint=None, lemma=None):
            if pre is not None:  # an assumption over already made symbols
                ex.pc.append(bx(pre))
                return None
            if hint is not None:  # candidate (quotient, remainder) for the uniqueness theorem
                ex.hints.append((ix(hint[0]), ix(hint[1])))
                return None
            if lemma is not None:  # a consequence of what is assumed so far: discharged before it is used
                if not ex.valid(bx(lemma)):
                    raise RuntimeError(f"lemma not discharged: {bx(lemma)}")
                ex.pc.append(bx(lemma))
                return None
            v = z3.Real(name) if real else z3.Int(name)
            vars_[name] = v
            if lo is not None:
                ex.pc.append(v >= ix(lo))
            if hi is not None:
                ex.pc.append(v <= ix(hi))
            return I(v)
        try:
            val = run(mk)
            goals = post(val)
            goals = list(goals) if isinstance(goals, (list, tuple)) else [goals]
            for g in goals:
                s = z3.Solver()
                s.set("timeout", timeout)
                s.add(*ex.pc)
                s.add(z3.Not(bx(g)))
                r = s.check()
                n += 1
                if r == z3.sat:
                    m = s.model()
                    return False, n, {k: _val(m.eval(v, model_completion=True)) for k, v in vars_.items()}
                if r != z3.unsat:
                    return None, n, f"z3 {r}: {s.reason_unknown()}"
        except Fork:
            pass
        finally:
            _State.cur = None
        # next path
        tr = list(ex.trace)
        while tr:
            if tr[-1] == (True, False):
                tr[-1] = (False, True)
                break
            tr.pop()
        if not tr:
            return True, n, f"z3 {n} goals"
        prefix = tr
        max_paths -= 1
        if max_paths <= 0:
            return None, n, "path limit"


def euclid_uniqueness():
    """the theorem instantiated in Explorer.divide, discharged by z3 in two steps"""
    q, r, t, s, b, m = z3.Ints("q r t s b m")
    n = 0
    for pre, goal in [([m >= 1, b >= 1], m * b >= b),
                      ([q * b + r == t * b + s, 0 <= r, r < b, 0 <= s, s < b, z3.Implies(q - t >= 1, (q - t) * b >= b), z3.Implies(t - q >= 1, (t - q) * b >= b)], z3.And(q == t, r == s))]:
        sol = z3.Solver()
        sol.set("timeout", 20000)
        sol.add(*pre, z3.Not(goal))
        n += 1
        if sol.check() != z3.unsat:
            return None, n, "uniqueness lemma not discharged"
    return True, n, "z3"
