"""Loop rule for real Python code: `while`/`for range` loops are cut at an invariant.

The function's current source is parsed on every run; each cut loop becomes
   check the invariant on entry; havoc the variables assigned in the loop; assume the
   invariant; if the guard holds run the (unchanged) body once, check the invariant and
   end the path; otherwise continue after the loop.
Candidate invariants are given over values, not names: `unary` (every loop variable) and
`binary` (ordered pairs); those that are not inductive are dropped (Houdini), and the
postcondition has to follow from the survivors.  So renamed locals do not matter.
"""
import ast
import inspect
import textwrap
import types
import numpy as np
from . import symint as S, symnp


class PathEnd(Exception):
    pass


def _assigned(nodes):
    out = []
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id not in out:
                out.append(m.id)
    return out


class _Cont(ast.NodeTransformer):
    def __init__(self, call):
        self.call = call

    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_For

    def visit_Continue(self, n):
        return ast.parse(self.call).body[0]


class _Cut(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def _build(self, n, guard, tgt=None):
        k = self.k
        self.k += 1
        vs = _assigned(n.body)
        names = repr(tuple(vs))
        cap = "{__n: __v for __n, __v in list(locals().items()) if __n in " + names + "}"
        back = f"__cut.back({k}, {cap})"
        body = [_Cont(back).visit(b) for b in n.body]
        pre = ast.parse(f"__h{k} = __cut.havoc({k}, {cap})\n" + "\n".join(f"if {v!r} in __h{k}: {v} = __h{k}[{v!r}]" for v in vs)).body
        head = ast.parse("if not (__G): break").body[0]
        head.test.operand = guard
        loop = ast.While(test=ast.Constant(True), body=[head, *([tgt] if tgt is not None else []), *body, ast.parse(back).body[0]], orelse=[])
        return [*pre, loop, *n.orelse]

    def visit_While(self, n):
        self.generic_visit(n)
        return self._build(n, n.test)

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and isinstance(n.target, ast.Name):
            g = ast.parse("__cut.choice()").body[0].value
            t = ast.parse(f"{n.target.id} = __cut.index({self.k})").body[0]
            return self._build(n, g, t)
        return n


def transform(fn):
    """(callable running the cut source in the module's own globals, number of loops cut)"""
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    c = _Cut()
    tree = ast.fix_missing_locations(c.visit(tree))
    ns = {}
    exec(compile(tree, f"<cut {fn.__name__}>", "exec"), fn.__globals__, ns)
    g = ns[fn.__name__]
    g.__defaults__, g.__kwdefaults__ = fn.__defaults__, fn.__kwdefaults__
    return g, c.k


def _flat(v):
    return [S.ix(x) for x in np.asarray(v, dtype=object).ravel()]


class Cut:
    """one symbolic run: collects goals (entry / preservation) of the current candidate set"""

    def __init__(self, mk, cands, unary, binary):
        self.mk, self.cands, self.unary, self.binary = mk, cands, unary, binary
        self.goals = []
        self.n = 0

    def _apply(self, k, st, only=None):
        out = []
        for key in self.all_keys(k, st):
            if self.cands is not None and key not in self.cands:
                continue
            kind, i, names = key[1], key[2], key[3:]
            try:
                gs = self.unary[i](*[st[n] for n in names]) if kind == "u" else self.binary[i](*[st[n] for n in names])
            except Exception:
                gs = None
            if gs is None:
                continue
            out.append((key, [S.bx(g) for g in (gs if isinstance(gs, (list, tuple)) else [gs])]))
        return out

    def all_keys(self, k, st):
        ns = sorted(st)
        keys = [(k, "u", i, n) for n in ns for i in range(len(self.unary))]
        keys += [(k, "b", i, a, b) for a in ns for b in ns if a != b for i in range(len(self.binary))]
        return keys

    def havoc(self, k, st):
        for key, gs in self._apply(k, st):
            self.goals += [(key, g) for g in gs]
        self.flush()
        new = {}
        for n, v in st.items():
            if isinstance(v, dict):  # a record: every value is havocked
                new[n] = {q: self.mk(f"{n}.{q}@{k}", real=True) for q in v}
                continue
            if v is None or isinstance(v, (str, types.FunctionType)) or not _numeric(v):
                new[n] = v if v is None or isinstance(v, (str, types.FunctionType)) else _Opaque(n)
                continue
            a = np.asarray(v, dtype=object)
            h = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                e = a[ix]
                isint = isinstance(e, int) and not isinstance(e, bool) or (isinstance(e, S.I) and e.e.is_int())
                h[ix] = self.mk(f"{n}{list(ix)}@{k}", real=not isint)
            new[n] = symnp.arr(h) if a.shape else h[()]
        for key, gs in self._apply(k, new):
            if self.cands is None or key in self.cands:
                for g in gs:
                    self.mk("", pre=g)
        return new

    def back(self, k, st):
        for key, gs in self._apply(k, st):
            self.goals += [(key, g) for g in gs]
        raise PathEnd

    def flush(self):
        pass

    def choice(self):
        self.n += 1
        b = self.mk(f"choice@{self.n}", 0, 1)
        return bool(b == 1)

    def index(self, k):
        return self.mk(f"index@{k}", 0)


def fully(fn, setup, unary, binary, post, shim_modules, rounds=12):
    """setup(mk) -> (args, kwargs, env); prove post(result, env) for all iteration counts of fn's loops.
    unary/binary: lists of predicates (env, value...) -> z3 Bool(s) | None."""
    import z3
    g, nloops = transform(fn)
    if nloops == 0:
        raise RuntimeError("no loop to cut")
    cands = None
    mod = __import__("sys").modules[fn.__module__]

    def explore(check):
        """runs all paths; check(goals, exit) handles obligations"""
        def run(mk):
            args, kw, env = setup(mk)
            u = [lambda v, f=f: f(env, v) for f in unary]
            b = [lambda v, w, f=f: f(env, v, w) for f in binary]
            cut = Cut(mk, cands, u, b)
            sh = {"__cut": cut, "float": _float, "int": _int, "print": lambda *a, **k: None}
            had = {k: mod.__dict__.get(k, None) for k in sh}
            mod.__dict__.update(sh)
            try:
                with symnp.numpy_as_symbolic(mod, force=False):
                    try:
                        res = g(*args, **kw)
                    except PathEnd:
                        return cut, None, env
                return cut, res, env
            finally:
                for k, v in had.items():
                    if v is None:
                        mod.__dict__.pop(k, None)
                    else:
                        mod.__dict__[k] = v
        return run
    # Houdini: find the failing candidates of every path, drop, repeat
    keys = None
    for r in range(rounds):
        bad, seen = set(), set()

        def post_h(v):
            cut, res, env = v
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*S._State.cur.pc)
            for key, gl in cut.goals:
                seen.add(key)
                if key in bad:
                    continue
                s.push()
                s.add(z3.Not(gl))
                if s.check() != z3.unsat:
                    bad.add(key)
                s.pop()
            return []
        # in the first rounds nothing is assumed about keys not yet known: start from all keys seen
        ok, n, why = S.prove(explore(None), post_h)
        if ok is not True:
            return ok, n, why
        if keys is None:
            keys = seen
        if not bad and cands is not None:
            break
        cands = (keys if cands is None else cands) - bad
    else:
        return None, 0, "invariant search did not converge"

    def post_f(v):
        cut, res, env = v
        out = [gl for _, gl in cut.goals] + [S.bx(g) for g in env.get("goals", ())]
        if res is not None:
            out += list(post(res, env))
        return out
    ok, n, why = S.prove(explore(None), post_f)
    return ok, n, (f"loop invariant of {len(cands)} conjuncts; {why}" if ok else why)


class _Opaque:
    """value of a non-numeric loop variable before it is assigned in the body: any use is out of reach"""

    def __init__(self, n):
        self.__dict__["n"] = n

    def __getattr__(self, k):
        raise RuntimeError(f"loop variable {self.n} used before it is set")


def _numeric(v):
    try:
        for x in np.asarray(v, dtype=object).ravel():
            if not isinstance(x, (int, float, np.integer, np.floating, S.I)) or isinstance(x, bool):
                return False
        return True
    except Exception:
        return False


def _int(*a):
    if len(a) == 1 and isinstance(a[0], S.I):
        import z3
        return S.I(z3.ToInt(S.real(a[0].e))) if not a[0].e.is_int() else a[0]
    return int(*a)


def _float(x):
    if isinstance(x, S.I):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.shape == ():
        return x[()]
    return float(x)
