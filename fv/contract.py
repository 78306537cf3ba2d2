"""Contracts, obligations and their decision.

An obligation is either
  * `ctx.equal(name, fn, spec, args)`: forall values of the symbolic arguments,
    fn(*args) == spec(*args), where fn is the real code;
  * `ctx.holds(name, term_fn, args)`: the real code's result satisfies a predicate;
  * `ctx.bounded(name, thunk)`: an executable contract evaluated on concrete inputs (a
    bounded stand-in, never counted as proved).

Outcome: proved / violated (with an input replayed on the real code) / bounded
(prover out of reach, executable contract held on the stated samples) /
undecided (tool limit or a renamed private anchor).
"""
from __future__ import annotations
import contextlib
import hashlib
import json
import os
import signal
import time
import traceback
import numpy as np


class Sx:
    """A symbolic (universally quantified) real array argument."""

    def __init__(self, name, shape=(), lo=-1.0, hi=1.0, boolean=False, sampler=None, zeros=False):
        self.name, self.shape, self.lo, self.hi = name, tuple(shape), lo, hi
        self.boolean = boolean
        self.sampler = sampler
        self.zeros = zeros  # data that is only moved: exact zeros are ordinary values to try

    def sample(self, rng):
        if self.sampler is not None:
            return np.asarray(self.sampler(rng))
        if self.boolean:
            return rng.uniform(size=self.shape) < 0.5
        return rng.uniform(self.lo, self.hi, size=self.shape)

    def wide(self, rng):
        x = self.sample(rng)
        if self.sampler is None and not self.boolean and self.lo < 0 < self.hi and rng.uniform() < 0.5:
            x = x * 10.0 ** -rng.uniform(0, 3)
        if self.zeros and rng.uniform() < 0.5:
            x = np.where(rng.uniform(size=self.shape) < 0.4, 0.0, x)
        return x

    def symbol(self):
        from . import interp, ring
        if self.boolean:
            a = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                a[i] = ring.bvar(f"{self.name}{list(i)}")
            return a
        return interp.symarr(self.name, self.shape)


class Violation(Exception):
    """raised by executable contracts"""

    def __init__(self, msg, **data):
        super().__init__(msg)
        self.data = data


PROOF_CPU_S = 60


class CpuLimit(BaseException):
    pass


@contextlib.contextmanager
def cpu_limit(sec):
    """stop a proof search that runs away (processor time, so independent of the load); the contract is then decided on samples"""
    def stop(*a):
        raise CpuLimit()
    try:
        old = signal.signal(signal.SIGVTALRM, stop)
    except ValueError:  # not the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_VIRTUAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Skip(Exception):
    """the anchored (private) function is not there in this form: undecided"""


def expect(cond, msg, **data):
    if not bool(cond):
        raise Violation(msg, **data)


def expect_close(actual, desired, msg="", rtol=1e-8, atol=1e-9, **data):
    a, d = np.asarray(actual), np.asarray(desired)
    if a.shape != d.shape:
        raise Violation(f"{msg}: shape {a.shape} != {d.shape}", **data)
    if a.size == 0:
        return
    a = a.astype(complex) if np.iscomplexobj(a) or np.iscomplexobj(d) else a.astype(float)
    s = max(1.0, float(np.nanmax(np.abs(d))) if np.isfinite(d).any() else 1.0)
    bad = ~(np.abs(a - d) <= atol * s + rtol * np.abs(d))
    bad &= ~((a == d) | (np.isnan(a) & np.isnan(d.astype(a.dtype))))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if a.ndim else ()
        raise Violation(f"{msg}: mismatch at {i}: actual {a[i]!r} expected {d[i]!r} "
                        f"({int(bad.sum())}/{a.size} entries differ)", **data)


def expect_raises(thunk, msg, exc=Exception):
    try:
        thunk()
    except exc:
        return
    raise Violation(f"{msg}: accepted, expected {getattr(exc, '__name__', exc)}")


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 4000 else {"shape": list(x.shape), "head": x.ravel()[:50].tolist()}
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, "shape"):
        return _jsonable(np.asarray(x))
    return repr(x)[:300]


def real_code_failed(tb):
    """The exception was raised below a /repo/feax frame that our code called."""
    last_verif = last_repo = -1
    for k, (f, _) in enumerate(traceback.walk_tb(tb)):
        fn = f.f_code.co_filename
        if fn.startswith("/verif/"):
            last_verif = k
        elif fn.startswith("/repo/"):
            last_repo = k
    return last_repo > last_verif


class Ctx:
    def __init__(self, prop, tier, seed, out):
        self.prop, self.tier, self.seed, self.out = prop, tier, seed, out
        self.thorough = tier == "thorough"
        self.results = []
        self.group = ""

    # -- bookkeeping
    def emit(self, **r):
        r["group"] = self.group
        self.results.append(r)
        with open(self.out, "a") as f:
            f.write(json.dumps(_jsonable(r)) + "\n")

    def rng(self, name="", k=0):
        h = int.from_bytes(hashlib.sha256(f"{name}|{k}|{self.seed}".encode()).digest()[:4], "little")
        return np.random.RandomState(h)

    # -- deductive obligation
    def equal(self, name, fn, spec, args, functions=(), n_replay=3, assume=None, tol=1e-7, private=False,
              prove=True, engine="jax", max_entries=None, constraint=None, replay=None):
        """replay=(fn, spec): executable versions used on concrete inputs (where the symbolic pair uses an assumed
        contract of a dependency, e.g. 'x solves A x = b', the executable pair calls the dependency)."""
        from . import ring, interp
        t0 = time.time()
        ok, why, nobl, ndis = None, "", 0, 0
        if prove:
            try:
                ring.reset()
                ring.CEX.clear()
                z0 = ring.Stats.z3_time
                sargs = _map(args, lambda s: s.symbol())
                asm = [ring.blift(b) for b in (assume(*sargs) if assume else [])]
                if asm and ring.z3_entails_zero(asm, None) is True:
                    raise ring.Unsupported("vacuous precondition")
                run = interp.sym_eval if engine == "jax" else host_eval
                with cpu_limit(PROOF_CPU_S):
                    a = run(fn, sargs)
                    b = run(spec, sargs)
                    ok, why, nobl, ndis = compare(a, b, asm)
            except CpuLimit:
                ok, why = None, f"proof search stopped after {PROOF_CPU_S} s of processor time"
            except ring.Unsupported as e:
                ok, why = None, f"unsupported: {e}"
            except (Skip, AttributeError, ImportError) as e:
                ok, why = None, f"skip: {type(e).__name__}: {e}"
            except RecursionError as e:
                ok, why = None, "recursion"
            except Exception as e:
                ok, why = None, f"trace failed: {type(e).__name__}: {str(e)[:300]}"
        if ok:
            self.emit(name=name, status="proved", obligations=nobl, discharged=ndis, why=why,
                      functions=list(functions), t=time.time() - t0)
            return True
        # the prover did not accept: look for a failing input on the real code
        if replay is not None:
            fn, spec = replay
        err = None
        cex = dict(ring.CEX) if (prove and ok is False) else {}
        ncex, usable = (4 if cex else 0), False
        nx = n_replay + ncex
        tr, nsam = time.time(), 0
        # after the fixed samples, keep looking for a failing input for a few seconds (some arguments shrunk towards 0)
        for k in range(nx + (60 if prove else 0)):
            if k >= nx and time.time() - tr > 5.0:
                break
            rng = self.rng(name, k)
            cargs = _map(args, lambda s: s.sample(rng) if k < nx else s.wide(rng))
            if k < ncex:  # the solver's model, other inputs sampled
                cargs = _map(args, lambda s: _with_model(s, s.sample(rng), cex))
            if constraint is not None:
                cargs = constraint(cargs)
            try:
                a = _np_tree(fn(*_jn(cargs, engine)))
            except (Skip, ImportError) as e:
                self.emit(name=name, status="undecided", why=f"skip: {e}", functions=list(functions),
                          t=time.time() - t0)
                return None
            except Exception as e:
                if not private and real_code_failed(e.__traceback__):
                    self.emit(name=name, status="violated", why=f"real code raised {type(e).__name__}: {str(e)[:400]}",
                              inputs=_jsonable(_named(args, cargs)), functions=list(functions), t=time.time() - t0,
                              replayed=True, prover=why)
                    return False
                self.emit(name=name, status="undecided", why=f"{type(e).__name__}: {str(e)[:300]}", prover=why,
                          functions=list(functions), t=time.time() - t0)
                return None
            b = _np_tree(spec(*_jn(cargs, engine)))
            if k < ncex and any(not np.all(np.isfinite(x)) or np.max(np.abs(x), initial=0) > 1e7 for x in a + b
                                      if np.issubdtype(x.dtype, np.number)):
                continue  # the solver's model is a singular point: not a usable input
            usable |= k < ncex
            try:
                if len(a) != len(b):
                    raise Violation(f"result structure differs: {len(a)} vs {len(b)} leaves")
                for x, y in zip(a, b):
                    tk = tol if k < nx else max(tol * 10, 1e-6)
                    expect_close(x, y, name, rtol=tk, atol=tk)
            except Violation as v:
                self.emit(name=name, status="violated", why=str(v), inputs=_jsonable(_named(args, cargs)),
                          functions=list(functions), t=time.time() - t0, replayed=True, prover=why)
                return False
            nsam += 1
        if ok is False and cex and not usable:
            # refuted by the solver on a model that cannot be executed (singular): no concrete input found.  A model
            # that was executed and met the contract is spurious (atoms are abstracted), as is a nonzero normal form
            # without path conditions that vanishes on the samples: those are reported as bounded, not as proved.
            self.emit(name=name, status="violated", why="obligation refuted, no failing input found: " + why,
                      inputs=_jsonable(cex), functions=list(functions), t=time.time() - t0, replayed=False, prover=why)
            return False
        self.emit(name=name, status="bounded", why=why, samples=nsam, functions=list(functions),
                  t=time.time() - t0)
        return None

    # -- deductive inequality obligation: every entry of fn(*args) is >= -eps
    def nonneg(self, name, fn, args, functions=(), assume=None, eps=1e-9, engine="jax", n_replay=20, constraint=None):
        from . import ring, interp
        t0 = time.time()
        ok, why, n = None, "", 0
        ring.CEX.clear()
        try:
            ring.reset()
            sargs = _map(args, lambda s: s.symbol())
            asm = [ring.blift(b) for b in (assume(*sargs) if assume else [])]
            if asm and ring.z3_entails_zero(asm, None) is True:
                raise ring.Unsupported("vacuous precondition")
            out = (interp.sym_eval if engine == "jax" else host_eval)(fn, sargs)
            import jax
            ok = True
            for x in jax.tree_util.tree_leaves(out, is_leaf=lambda x: isinstance(x, np.ndarray)):
                for p in interp.to_obj(np.asarray(x)).ravel():
                    n += 1
                    r = ring.z3_entails_nonneg(asm, ring.lift(p), eps)
                    if r is not True:
                        ok, why = r, f"z3 {'refuted' if r is False else 'unknown'} entry {n}"
                        break
                if ok is not True:
                    break
        except ring.Unsupported as e:
            ok, why = None, f"unsupported: {e}"
        except Exception as e:
            ok, why = None, f"trace failed: {type(e).__name__}: {str(e)[:200]}"
        if ok and n:
            self.emit(name=name, status="proved", obligations=n, discharged=n, why=f"z3:{n}", functions=list(functions), t=time.time() - t0)
            return True
        cex = dict(ring.CEX) if ok is False else {}
        for k in range(n_replay + (1 if cex else 0)):
            rng = self.rng(name, k)
            cargs = _map(args, lambda s: s.sample(rng))
            if cex and k == 0:
                cargs = _map(args, lambda s: _with_model(s, s.sample(rng), cex))
            if constraint is not None:
                cargs = constraint(cargs)
            try:
                a = _np_tree(fn(*_jn(cargs, engine)))
            except Exception as e:
                if real_code_failed(e.__traceback__):
                    self.emit(name=name, status="violated", why=f"real code raised {type(e).__name__}: {str(e)[:300]}", inputs=_jsonable(_named(args, cargs)),
                              functions=list(functions), t=time.time() - t0, replayed=True, prover=why)
                    return False
                continue
            bad = [float(np.nanmin(x)) for x in a if x.size and not np.all(x >= -max(eps, 1e-9) * 10)]
            if bad:
                self.emit(name=name, status="violated", why=f"{name}: negative value {min(bad)!r}", inputs=_jsonable(_named(args, cargs)),
                          functions=list(functions), t=time.time() - t0, replayed=True, prover=why)
                return False
        self.emit(name=name, status="bounded", why=why, samples=n_replay, functions=list(functions), t=time.time() - t0)
        return None

    # -- bounded executable contract
    def bounded(self, name, thunk, functions=(), private=False, samples=1, bound=""):
        t0 = time.time()
        try:
            n = thunk()
            self.emit(name=name, status="bounded-held", samples=int(n) if isinstance(n, (int, np.integer)) and not
                      isinstance(n, bool) else samples, functions=list(functions), bound=bound, t=time.time() - t0)
            return True
        except Violation as v:
            self.emit(name=name, status="violated", why=str(v), inputs=_jsonable(v.data), functions=list(functions),
                      t=time.time() - t0, replayed=True)
            return False
        except (Skip, ImportError) as e:
            self.emit(name=name, status="undecided", why=f"skip: {e}", functions=list(functions), t=time.time() - t0)
            return None
        except Exception as e:
            if not private and real_code_failed(e.__traceback__):
                self.emit(name=name, status="violated", why=f"real code raised {type(e).__name__}: {str(e)[:400]}",
                          tb=traceback.format_exc()[-1500:], functions=list(functions), t=time.time() - t0,
                          replayed=True)
                return False
            self.emit(name=name, status="undecided", why=f"{type(e).__name__}: {str(e)[:300]}",
                      tb=traceback.format_exc()[-1500:], functions=list(functions), t=time.time() - t0)
            return None

    # -- z3 obligation on integer code (engine S)
    def valid(self, name, thunk, functions=(), replay=None, private=True):
        """thunk() -> (solver status, detail): True proved / False refuted(with model) / None unknown."""
        t0 = time.time()
        from . import ring
        try:
            ok, n, why = thunk()
        except (Skip, ImportError, AttributeError) as e:
            ok, n, why = None, 0, f"skip: {type(e).__name__}: {e}"
        except Exception as e:
            ok, n, why = None, 0, f"{type(e).__name__}: {str(e)[:300]}"
        if ok:
            self.emit(name=name, status="proved", obligations=n, discharged=n, why=str(why),
                      functions=list(functions), t=time.time() - t0)
            return True
        if replay is not None:
            try:
                replay(why if ok is False else None)
            except Violation as v:
                self.emit(name=name, status="violated", why=str(v), inputs=_jsonable(v.data),
                          functions=list(functions), t=time.time() - t0, replayed=True, prover=str(why))
                return False
            except Exception as e:
                if not private and real_code_failed(e.__traceback__):
                    self.emit(name=name, status="violated", why=f"real code raised {type(e).__name__}: {e}",
                              functions=list(functions), t=time.time() - t0, replayed=True, prover=str(why))
                    return False
                self.emit(name=name, status="undecided", why=f"{why}; replay {type(e).__name__}: {e}",
                          functions=list(functions), t=time.time() - t0)
                return None
            self.emit(name=name, status="bounded", why=str(why), functions=list(functions), t=time.time() - t0)
            return None
        self.emit(name=name, status="undecided", why=str(why), functions=list(functions), t=time.time() - t0)
        return None


# ---------------------------------------------------------------- helpers
def _map(args, f):
    if isinstance(args, Sx):
        return f(args)
    if isinstance(args, tuple):
        if hasattr(args, "_fields"):
            return type(args)(*[_map(a, f) for a in args])
        return tuple(_map(a, f) for a in args)
    if isinstance(args, list):
        return [_map(a, f) for a in args]
    if isinstance(args, dict):
        return {k: _map(v, f) for k, v in args.items()}
    return args


def _with_model(s, v, cex):
    v = np.array(v)
    for i in np.ndindex(*v.shape):
        key = s.name + (("" if not i else "[" + ",".join(map(str, i)) + "]") if not s.boolean else f"{list(i)}")
        if key in cex:
            v[i] = cex[key]
    return v


def _named(args, cargs):
    out = {}

    def rec(a, c):
        if isinstance(a, Sx):
            out[a.name] = np.asarray(c)
        elif isinstance(a, (tuple, list)):
            for x, y in zip(a, c):
                rec(x, y)
        elif isinstance(a, dict):
            for k in a:
                rec(a[k], c[k])
    rec(args, cargs)
    return out


def _jn(cargs, engine):
    if engine != "jax":
        return cargs
    import jax.numpy as jnp

    def f(a):
        if isinstance(a, np.ndarray):
            return jnp.asarray(a)
        if isinstance(a, tuple) and not hasattr(a, "_fields"):
            return tuple(f(x) for x in a)
        if isinstance(a, list):
            return [f(x) for x in a]
        if isinstance(a, dict):
            return {k: f(v) for k, v in a.items()}
        return a
    return tuple(f(a) for a in cargs)


def _np_tree(t):
    import jax
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(t)]


def host_eval(fn, args):
    return fn(*args)


def compare(a, b, assume=()):
    import jax
    from . import ring, interp
    la = jax.tree_util.tree_leaves(a, is_leaf=lambda x: isinstance(x, np.ndarray))
    lb = jax.tree_util.tree_leaves(b, is_leaf=lambda x: isinstance(x, np.ndarray))
    if len(la) != len(lb):
        return False, f"leaf count {len(la)} vs {len(lb)}", 1, 0
    n = d = 0
    backends = {}
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False, f"shape {x.shape} vs {y.shape}", n + 1, d
        if x.dtype != object and y.dtype != object:
            n += 1
            try:
                expect_close(x, y, "", rtol=1e-8, atol=1e-8)
            except Violation as v:
                return False, f"constant: {v}", n, d
            d += 1
            continue
        X, Y = interp.to_obj(x).ravel(), interp.to_obj(y).ravel()
        for p, q in zip(X, Y):
            n += 1
            if isinstance(p, ring.Bool) and isinstance(q, ring.Bool):
                p, q = ring.lift(p), ring.lift(q)
            p, q = ring.lift(p), ring.lift(q)
            if ring.close(p, q):
                r, w = True, "ring"
            else:
                r, w = ring.is_zero(p - q, assume, ref=max(ring._scale(p), ring._scale(q)))
            if r is not True:
                return r, w, n, d
            backends[w] = backends.get(w, 0) + 1
            d += 1
    if n == 0:
        return None, "no obligations", 0, 0
    return True, ",".join(f"{k}:{v}" for k, v in backends.items()), n, d
