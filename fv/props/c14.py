"""C14: design updates (optimality criteria, MMA driver, multipliers) and schedules."""
import itertools
import math
import sys
import os
import shutil
import tempfile
import types
import csv
import contextlib
import io
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symint as S, symnp, loopcut
from fv.contract import Sx, expect, expect_close, expect_raises, Skip

N = "feax/gene/narrowband.py:"
O = "feax/gene/optimizer.py:"
M = "feax/gene/mdmm.py:"


def flat(v):
    return [S.ix(x) for x in np.asarray(v, dtype=object).ravel()]


# ------------------------------------------------------------------ optimality criteria
def oc_ref(rho, dc, dv, lam, move, xmin, xmax, damping):
    be = np.maximum(0., -dc / (dv * lam))
    x = np.clip(rho * be ** damping, rho - move, rho + move)
    return np.clip(x, xmin, xmax)


def oc_sample(rng):
    n = rng.randint(1, 40)
    xmin, xmax = rng.choice([1e-3, 1e-2, .1]), rng.choice([1., .8])
    rho = rng.uniform(xmin, xmax, n)
    dc = -rng.uniform(0, 10., n) ** rng.choice([1, 3]) * 10. ** rng.randint(-3, 4)
    if rng.uniform() < .3:
        dc[rng.uniform(size=n) < .3] *= -1  # some sensitivities of the wrong sign
    dv = 1.0 if rng.uniform() < .3 else rng.uniform(.2, 3., n)
    move = rng.choice([.01, .05, .2, .5, 1.])
    volfrac = rng.uniform(.05, .95)
    damping = rng.choice([.5, .3, 1.])
    return rho, dc, dv, volfrac, move, xmin, xmax, damping


def oc(ctx):
    from feax.gene.narrowband import oc_update
    for n in (1, 2, 3):
        def setup(mk):
            a = lambda k: symnp.arr([mk(f"{k}{i}", real=True) for i in range(n)])
            r, d, w = a("rho"), a("dc"), a("dv")
            vf, mv, lo, hi, dm, tol, l2 = (mk(k, real=True) for k in ("volfrac", "move", "xmin", "xmax", "damping", "tol", "l2"))
            for c in [lo > 0, lo <= hi, mv > 0, l2 > 0, tol > 0] + [x > 0 for x in w] + [x >= lo for x in r] + [x <= hi for x in r]:
                mk("", pre=c)
            return (r, d, vf), dict(dv=w, move=mv, xmin=lo, xmax=hi, damping=dm, bisect_tol=tol, l2_init=l2), dict(r=r, lo=lo, hi=hi, mv=mv, l2=l2, d=d)

        def box(env, v):
            v = flat(v)
            if len(v) != n or np.ndim(v) and np.shape(v) != (n,):
                return None
            g = []
            for x, r in zip(v, flat(env["r"])):
                g += [x >= S.ix(env["lo"]), x <= S.ix(env["hi"]), x >= r - S.ix(env["mv"]), x <= r + S.ix(env["mv"])]
            return g

        unary = [box, lambda env, v: [S.ix(v) >= 0] if np.ndim(v) == 0 else None, lambda env, v: [S.ix(v) > 0] if np.ndim(v) == 0 else None,
                 lambda env, v: [S.ix(v) <= S.ix(env["l2"])] if np.ndim(v) == 0 else None]
        binary = [lambda env, v, w: [S.ix(v) <= S.ix(w)] if np.ndim(v) == 0 and np.ndim(w) == 0 else None]

        def thunk():
            return loopcut.fully(oc_update, setup, unary, binary, lambda res, env: box(env, np.asarray(res, dtype=object)) or [z3.BoolVal(False)], ["feax.gene.narrowband"])

        def rep(_m):
            for k in range(300):
                rho, dc, dv, vf, mv, lo, hi, dm = oc_sample(np.random.RandomState(k))
                x = oc_update(rho, dc, vf, dv=dv, move=mv, xmin=lo, xmax=hi, damping=dm)
                expect(x.shape == rho.shape, "shape")
                expect((x >= lo - 1e-12).all() and (x <= hi + 1e-12).all() and (np.abs(x - rho) <= mv + 1e-12).all(), "bounds and move limit", rho=rho, dc=dc, dv=dv, volfrac=vf, move=mv)
        ctx.valid(f"OC update stays in bounds and within the move limit for every number of bisection steps ({n} variables)", thunk, functions=[N + "oc_update"], replay=rep, private=False)

        # one step of the bisection: value of the update at a known multiplier
        def run1(mk):
            import feax.gene.narrowband as nb
            (r, d, vf), kw, env = setup(mk)
            w, lo = kw["dv"], kw["xmin"]
            kw["bisect_tol"] = .5
            tot = w[0]
            for x in list(w)[1:]:
                tot = tot + x
            mk("", pre=vf < 0)
            mk("", pre=kw["l2_init"] >= 1)
            for x in w:
                mk("", pre=x >= 1)
            had = "float" in nb.__dict__
            nb.__dict__["float"] = loopcut._float
            try:
                with symnp.numpy_as_symbolic(nb, force=False) as sh:
                    # the volume test cannot fail for a negative target: xnew >= xmin > 0
                    res = nb.oc_update(r, d, vf, **kw)
                    lam = kw["l2_init"] * .5
                    be = sh.maximum(0., -d / (w * lam + 1e-30))
                    ref = sh.clip(sh.clip(r * be ** kw["damping"], r - kw["move"], r + kw["move"]), lo, kw["xmax"])
            finally:
                if not had:
                    nb.__dict__.pop("float", None)
            return res, ref
        def rep1(_m):
            for k in range(40):
                rho, dc, dv, vf, mv, lo, hi, dm = oc_sample(np.random.RandomState(k))
                L = 10. ** (k % 5)
                x = oc_update(rho, dc, -1., dv=dv, move=mv, xmin=lo, xmax=hi, damping=dm, bisect_tol=.5, l2_init=L)
                expect_close(x, oc_ref(rho, dc, dv, L / 2, mv, lo, hi, dm), "update at the multiplier", rho=rho, dc=dc, dv=dv, l2_init=L)
        ctx.valid(f"OC update at a given multiplier is the stated clipped product ({n} variables)", lambda: S.prove(run1, lambda v: [a == b for a, b in zip(flat(v[0]), flat(v[1]))]),
                  functions=[N + "oc_update"], replay=rep1, private=False)

    def volume():
        k = 0
        for seed in range(400 if not ctx.thorough else 4000):
            rng = np.random.RandomState(seed)
            rho, dc, dv, vf, mv, lo, hi, dm = oc_sample(rng)
            dva = np.ones(len(rho)) * dv
            x = oc_update(rho, dc, vf, dv=dv, move=mv, xmin=lo, xmax=hi, damping=dm)
            V = lambda lam: float((oc_ref(rho, dc, dva, lam, mv, lo, hi, dm) * dva).sum())
            vmax, vmin, tgt = V(1e-24), V(1e9), vf * dva.sum()
            got = float((x * dva).sum())
            info = dict(rho=rho, dc=dc, dv=dva, volfrac=vf, move=mv, xmin=lo, xmax=hi, damping=dm, got=got, target=tgt)
            if vmin <= tgt <= vmax:
                # attainable: on either side of the target within the bisection tolerance
                a, b = 0., 1e9
                while (b - a) / (a + b + 1e-30) > 1e-4:
                    c = .5 * (a + b)
                    a, b = (c, b) if V(c) > tgt else (a, c)
                lo_v, hi_v = V(b * 1.0003), V(max(a, 1e-14) / 1.0003)
                expect(lo_v - 1e-9 <= got <= hi_v + 1e-9, "volume target met to the multiplier tolerance", **info)
                expect(abs(got - tgt) <= 1e-9 * dva.sum() + (hi_v - lo_v), "volume equals the target", **info)
            elif tgt > vmax:
                expect_close(got, vmax, "target above reach: all move up to their limits", rtol=1e-6, **info)
            else:
                expect_close(got, vmin, "target below reach: all move down to their limits", rtol=1e-6, **info)
            k += 1
        return k
    ctx.bounded("OC update meets every attainable volume target, else goes to the nearest reachable volume", volume, functions=[N + "oc_update"])

    def order():
        k = 0
        for seed in range(60):
            rng = np.random.RandomState(seed)
            n = 20
            rho = np.full(n, .5)
            dc = -rng.uniform(.1, 10, n)
            x = oc_update(rho, dc, .5, move=rng.choice([.05, .2]))
            i = np.argsort(-dc)
            expect((np.diff(x[i]) >= -1e-12).all(), "from a uniform design more negative sensitivity gives more material", dc=dc)
            expect(float(dc @ (x - rho)) <= 1e-3, "first-order objective change is a descent", dc=dc)
            s = rng.uniform(.3, 4)
            expect_close(oc_update(rho, s * dc, .5), oc_update(rho, dc, .5), "scale invariance", rtol=2e-3)
            k += 1
        expect(list(oc_update([.5, .5], [-1., -1.], .5)) == list(oc_update(np.array([.5, .5]), np.array([-1., -1.]), .5)), "lists accepted")
        return k
    ctx.bounded("OC update moves material to the more useful variables", order, functions=[N + "oc_update"])


# ------------------------------------------------------------------ narrow-band loop
class StubCmg:
    """stand-in with the interface contract of NarrowBandCMG"""

    def __init__(self, dc):
        self.dc, self.log = dc, []

    def build(self, act):
        self.log.append(("build", np.array(act)))
        return ("levels", np.array(act))

    def create_solver(self, levels, b, solver_options=None, jit=False, return_solution=False):
        self.log.append(("solver", np.array(levels[1]), jit, b, solver_options, return_solution))

        def solve(rho):
            self.log.append(("solve", np.array(levels[1]), np.array(rho), jit))
            return np.array(rho) * 2.
        return solve

    def compliance_and_dc(self, levels, rho, u):
        self.log.append(("dc", np.array(levels[1]), np.array(rho), np.array(u)))
        return float(np.sum(rho)), self.dc[levels[1]] * (1 + 0 * rho)


def band_ref(rho, keep, thr, margin, dims):
    a = rho.reshape(dims) > thr
    for _ in range(margin):
        b = a.copy()
        for ax in range(3):
            for s in (1, -1):
                r = np.roll(a, s, axis=ax)
                sl = [slice(None)] * 3
                sl[ax] = 0 if s == 1 else -1
                r[tuple(sl)] = False
                b |= r
        a = b
    return np.nonzero((a | keep).ravel())[0]


def loop(ctx):
    from feax.gene.narrowband import run_narrowband_oc, oc_update, _res_ladder, _upsample, run_narrowband_multires
    from feax.spgrid import StructuredGrid

    def moving():
        k = 0
        for dims, seed, gus, margin, thr, ja in itertools.product(((6, 5, 4), (8, 3, 2)), range(3), (0, 1, 3), (1, 2), (1e-2, .3), (None, 2)):
            rng = np.random.RandomState(seed)
            g = StructuredGrid(dims)
            n = g.num_cells
            dc = -rng.uniform(0, 1, n) ** 4
            keep = rng.uniform(size=dims) < .05
            cm = StubCmg(dc)
            x0 = None if gus else np.where(rng.uniform(size=n) < .1, .9, 1e-3)
            loads = []
            with contextlib.redirect_stdout(io.StringIO()):
                rho, hist = run_narrowband_oc(g, cm, keep, .3, lambda c, lv: loads.append(lv) or "b", n_iter=6, grid_update_start=gus, x_init=x0, threshold=thr, margin=margin, xmin=1e-3, move=.3, jit_after=ja,
                                              solver_options="opts", sensitivity_filter=lambda act, r, d: d * 1.5, verbose=True)
            cur = np.full(n, .3) if x0 is None else x0.copy()
            solves = [e for e in cm.log if e[0] == "solve"]
            dcs = [e for e in cm.log if e[0] == "dc"]
            expect(len(solves) == 6 and len(dcs) == 6 and len(hist) == 6, "one solve per iteration")
            for it in range(6):
                act = np.arange(n) if it < gus else band_ref(cur, keep, thr, margin, dims)
                expect(np.array_equal(solves[it][1], act), "solver runs on the current band", it=it, dims=dims)
                expect_close(solves[it][2], cur[act], "density of the band")
                expect(np.array_equal(dcs[it][1], act), "sensitivity on the current band")
                expect_close(dcs[it][3], 2 * cur[act], "displacement passed to the sensitivity")
                if ja is not None:
                    expect(solves[it][3] == (it >= ja), "compiled from jit_after on", it=it)
                else:
                    expect(not solves[it][3], "eager throughout")
                full = np.zeros(n)
                full[act] = dc[act] * 1.5
                nxt = oc_update(cur, full, .3, move=.3, xmin=1e-3)
                expect(hist[it][0] == it and abs(hist[it][1] - cur[act].sum()) < 1e-9 and abs(hist[it][2] - len(act) / n) < 1e-12 and abs(hist[it][3] - nxt.mean()) < 1e-12, "history", it=it, row=hist[it])
                cur = nxt
            expect_close(rho, cur, "returned design")
            expect(all(e[4] == "opts" and e[5] is False for e in cm.log if e[0] == "solver"), "solver options passed on")
            k += 1
        return k
    ctx.bounded("moving-band loop: band = dilation of the design plus kept cells, updates follow OC", moving, functions=[N + "run_narrowband_oc"])

    def equal_sums():
        """the band moves although its size and the sum of its indices stay the same"""
        for dims, old, new in (((8, 1, 1), (1, 6), (2, 5)), ((1, 8, 1), (1, 6), (2, 5)), ((1, 1, 9), (1, 7), (2, 6))):
            g = StructuredGrid(dims)
            n = g.num_cells
            dc = np.full(n, -1e-14)
            dc[list(new)] = -1.
            cm = StubCmg(dc)
            x0 = np.full(n, 1e-3)
            x0[list(old)] = .9
            keep = np.zeros(dims, bool)
            with contextlib.redirect_stdout(io.StringIO()):
                rho, hist = run_narrowband_oc(g, cm, keep, .1, lambda c, lv: "b", n_iter=3, grid_update_start=0, x_init=x0, threshold=1e-2, margin=1, xmin=1e-3, move=1., sensitivity_filter=lambda act, r, d: d)
            cur = x0.copy()
            solves = [e for e in cm.log if e[0] == "solve"]
            acts = []
            for it in range(3):
                act = band_ref(cur, keep, 1e-2, 1, dims)
                acts.append(act)
                expect(np.array_equal(solves[it][1], act), "solver runs on the current band", it=it, dims=dims)
                full = np.zeros(n)
                full[act] = dc[act]
                cur = oc_update(cur, full, .1, move=1., xmin=1e-3)
            expect(len(acts[0]) == len(acts[1]) and acts[0].sum() == acts[1].sum() and not np.array_equal(acts[0], acts[1]), "harness: the band moved symmetrically")
        return 3
    ctx.bounded("moving band of unchanged size", equal_sums, functions=[N + "run_narrowband_oc"])

    def ladder():
        k = 0
        for dims, L, f, fl in itertools.product(((64, 32, 16), (40, 20, 30), (9, 8, 17), (100, 100, 100), (8, 8, 8)), (1, 2, 3, 5), (2, 3, 1.5), (4, 8)):
            lad = _res_ladder(dims, L, f, fl)
            expect(lad[-1] == tuple(dims) and 1 <= len(lad) <= L, "finest level is the requested grid", dims=dims, levels=L, factor=f, floor=fl)
            for a, b in zip(lad, lad[1:]):
                expect(all(x == max(fl, int(round(y / f))) for x, y in zip(a, b)) and a != b, "each level is the next one coarsened", dims=dims, ladder=lad)
            if len(lad) < L:
                expect(tuple(max(fl, int(round(y / f))) for y in lad[0]) == lad[0], "stops only at the floor", ladder=lad)
            k += 1
        return k
    ctx.bounded("resolution ladder", ladder, functions=[N + "_res_ladder"], private=True)

    def upsample():
        k = 0
        for a, b in itertools.product(((2, 3, 4), (4, 4, 4), (5, 2, 3)), ((4, 6, 8), (7, 5, 9), (8, 8, 8), (5, 3, 4), (9, 11, 5))):
            if any(x > y for x, y in zip(a, b)):
                continue
            rng = np.random.RandomState(k)
            r = rng.uniform(size=a)
            u = _upsample(r, b)
            expect(u.shape == b and u.min() >= r.min() - 1e-12 and u.max() <= r.max() + 1e-12, "shape and range", a=a, b=b)
            expect_close(_upsample(np.full(a, .4), b), np.full(b, .4), "constants")
            expect(_upsample(np.full(a, 1.7), b).max() <= 1. and _upsample(np.full(a, -.7), b).min() >= 0., "clipped to [0,1]")
            x = np.linspace(0, 1, a[0])[:, None, None] * np.ones(a)
            y = _upsample(x, b)
            expect((np.diff(y, axis=0) >= -1e-12).all() and np.ptp(y, axis=(1, 2)).max() < 1e-12 and y[0, 0, 0] == 0 and y[-1, 0, 0] == 1, "each axis is interpolated along itself", a=a, b=b)
            k += 1
        return k
    ctx.bounded("design upsampling", upsample, functions=[N + "_upsample"], private=True)

    def multires():
        k = 0
        for dims, L, gus in itertools.product(((16, 16, 16), (24, 12, 9)), (1, 2, 3), (1, 2)):
            calls = []

            def build(nx, ny, nz):
                g = StructuredGrid((nx, ny, nz))
                rng = np.random.RandomState(nx)
                c = StubCmg(-rng.uniform(0, 1, g.num_cells) ** 3)
                calls.append((nx, ny, nz, c))
                return dict(grid=g, cmg=c, keep=np.zeros((nx, ny, nz), bool), load_fn=lambda c, lv: None)
            with contextlib.redirect_stdout(io.StringIO()):
                out = run_narrowband_multires(build, dims, .4, n_levels=L, coarse_factor=2, n_iter=4, coarse_iter=3, grid_update_start=gus, floor=4, rmin=1.2, move=.25)
            lad = out["levels"]
            expect(tuple(lad[-1]) == dims and len(lad) == L and [c[:3] for c in calls] == [tuple(d) for d in lad], "levels built coarse to fine", levels=lad)
            expect(out["x"].shape == dims and out["x"].min() >= 1e-3 - 1e-12 and out["x"].max() <= 1 + 1e-12, "design on the finest grid within bounds")
            expect([h["level"] for h in out["history"]] == list(range(L)) and [len(h["history"]) for h in out["history"]] == [3] * (L - 1) + [3 if L == 1 else 4], "iterations per level", got=[len(h["history"]) for h in out["history"]])
            for lvl, c in enumerate(calls):
                s = [e for e in c[3].log if e[0] == "solve"]
                n = int(np.prod(c[:3]))
                if lvl == 0:
                    expect(all(len(e[1]) == n for e in s[:gus]), "coarsest level starts on the full grid")
                    expect_close(s[0][2], np.full(n, .4), "coarsest level starts uniform")
            k += 1
        return k
    ctx.bounded("multiresolution bootstrap", multires, functions=[N + "run_narrowband_multires"])


# ------------------------------------------------------------------ schedules and constraint declarations
def schedules(ctx):
    from feax.gene.optimizer import Continuation, constraint, _collect_constraints
    fn = [O + "Continuation.value_at"]

    def run(mk):
        a, b, st = (mk(k, real=True) for k in ("initial", "final", "step"))
        ue, it = mk("update_every", 1), mk("iteration", 0)
        c = Continuation(a, b, ue, st)
        q = it // ue
        mk("", pre=q >= 0)
        return a, b, st, c.value_at(it), q, c.value_at(0), it, ue

    def post(v):
        a, b, st, r, q, r0, it, ue = [S.ix(x) for x in v]
        lo, hi = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        u = a + st * z3.ToReal(q)
        return [z3.And(r >= lo, r <= hi), r0 == a, r == z3.If(u < lo, lo, z3.If(u > hi, hi, u)), z3.Implies(it < ue, r == a)]

    def rep(_m):
        for a, b, ue, st in itertools.product((0., 1., 8., -2.), (0., 1., 8., 3.3), (1, 2, 7), (1., .3, -.5, -4.)):
            c = Continuation(a, b, ue, st)
            prev = None
            for it in range(0, 70):
                v = c.value_at(it)
                w = a + st * (it // ue)
                expect(min(a, b) - 1e-12 <= v <= max(a, b) + 1e-12, "value between initial and final", initial=a, final=b, update_every=ue, step=st, iteration=it, value=v)
                expect_close(v, min(max(w, min(a, b)), max(a, b)), "stepwise schedule", initial=a, final=b, update_every=ue, step=st, iteration=it)
                prev = v
    ctx.valid("continuation value is initial + step per period, clamped between initial and final", lambda: S.prove(run, post), functions=fn, replay=rep, private=False)

    def run2(mk):
        a, b, st = (mk(k, real=True) for k in ("initial", "final", "step"))
        ue, it = mk("update_every", 1), mk("iteration", 0)
        jt = mk("later", 0)
        mk("", pre=jt >= it)
        q, p = it // ue, jt // ue
        # the quotient is monotone
        mk("", lemma=z3.Implies(S.ix(q) >= S.ix(p) + 1, (S.ix(q) - S.ix(p)) * S.ix(ue) >= S.ix(ue)))
        mk("", lemma=q <= p)
        mk("", lemma=z3.Implies(S.ix(st) >= 0, S.ix(st) * (z3.ToReal(S.ix(p)) - z3.ToReal(S.ix(q))) >= 0))
        mk("", lemma=z3.Implies(S.ix(st) <= 0, S.ix(st) * (z3.ToReal(S.ix(p)) - z3.ToReal(S.ix(q))) <= 0))
        c = Continuation(a, b, ue, st)
        return st, c.value_at(it), c.value_at(jt)
    ctx.valid("continuation is monotone in the direction of its step", lambda: S.prove(run2, lambda v: [z3.Implies(S.ix(v[0]) >= 0, S.ix(v[1]) <= S.ix(v[2])), z3.Implies(S.ix(v[0]) <= 0, S.ix(v[1]) >= S.ix(v[2]))]),
              functions=fn, replay=rep, private=False)

    def decl():
        for bad in ("ge", "lt", "", None):
            expect_raises(lambda: constraint(1., bad), "unknown constraint type", ValueError)

        class P:
            @constraint(target=.4)
            def vol(self, r): return ("vol", self.k)

            @constraint(target=2., type="eq", tol=.1)
            def mass(self, r): return ("mass", self.k)

            @constraint(target=3., type="eq")
            def exact(self, r): return ("exact", self.k)

            @constraint(-1., 'le')
            def neg(self, r): return ("neg", self.k)

            def objective(self, r): return 0.
        p = P()
        p.k = 7
        cs = _collect_constraints(p)
        got = {n: (m(0), t, c) for n, m, t, c in cs}
        expect(len(cs) == 6 and set(got) == {"vol", "mass", "mass_lb", "exact", "exact_lb", "neg"}, "every declared constraint appears, equality as two sides", got=sorted(got))
        for n, f, t, c in (("vol", "vol", .4, "le"), ("mass", "mass", 2.1, "le"), ("mass_lb", "mass", 1.9, "ge"), ("exact", "exact", 3., "le"), ("exact_lb", "exact", 3., "ge"), ("neg", "neg", -1., "le")):
            expect(got[n][0] == (f, 7) and abs(got[n][1] - t) < 1e-12 and got[n][2] == c, "constraint translation", name=n, got=repr(got[n]))
    ctx.bounded("constraint declarations are translated to equivalent inequalities", decl, functions=[O + "constraint", O + "_collect_constraints"], private=True)


# ------------------------------------------------------------------ driver
class FakeNlopt(types.ModuleType):
    """stand-in for nlopt: records what it is given and evaluates along a prescribed path inside the bounds"""
    LD_MMA = 17

    class RoundoffLimited(Exception):
        pass

    def __init__(self, early=0, roundoff=False):
        super().__init__("nlopt")
        self.opts, self.early, self.roundoff = [], early, roundoff
        mod = self

        class opt:
            def __init__(s, alg, n):
                expect(alg == 17, "algorithm is MMA")
                s.n, s.cons, s.calls, s.runs = n, [], [], []
                mod.opts.append(s)

            def set_lower_bounds(s, v): s.lo = np.array(v, float)
            def set_upper_bounds(s, v): s.hi = np.array(v, float)
            def set_min_objective(s, f): s.f = f
            def add_inequality_constraint(s, f, tol): s.cons.append(f)
            def set_maxeval(s, k): s.max = k

            def optimize(s, x):
                x = np.array(x, float)
                expect(x.shape == (s.n,), "design size", got=x.shape, n=s.n)
                expect((x >= s.lo - 1e-12).all() and (x <= s.hi + 1e-12).all(), "start within the bounds")
                expect(s.max >= 1, "evaluation budget positive")
                k = s.max if not mod.early else min(s.max, mod.early)
                s.runs.append((x.copy(), s.max))
                for i in range(k):
                    g = np.full(s.n, np.nan)
                    v = s.f(x, g)
                    cv = []
                    for c in s.cons:
                        gc = np.full(s.n, np.nan)
                        cv.append((c(x, gc), gc.copy()))
                    s.calls.append((x.copy(), v, g.copy(), cv))
                    x = np.clip(x - .01 * np.sign(g) * (1 + .1 * i), s.lo, s.hi)
                if mod.roundoff and len(s.runs) == 1:
                    raise mod.RoundoffLimited()
                return x
        self.opt = opt


def weights(mesh):
    """a design weight that depends on the mesh's geometry, not only its size"""
    x = np.asarray(mesh.points)
    return np.linspace(.5, 1.5, len(x)) + .2 * (x[:, 0].max() - 1.)


def pipe(mesh_log, filt=None):
    from feax.gene.optimizer import Pipeline, constraint

    class P(Pipeline):
        def build(self, mesh):
            mesh_log.append(mesh)
            self.n = mesh.points.shape[0]
            self.w = jnp.asarray(weights(mesh))
            self.seen = getattr(self, "seen", [])

        def objective(self, rho, p=2., q=0.):
            return jnp.sum(self.w * rho ** 2) * p + q * jnp.sum(rho)

        @constraint(target=.4)
        def volume(self, rho, p=2., q=0.):
            return jnp.mean(rho)

        @constraint(target=.3, type="eq", tol=.05)
        def aux(self, rho, p=2., q=0.):
            return jnp.mean(self.w * rho) + q

        if filt is not None:
            def filter(self, rho):
                return filt(rho)
    return P()


@contextlib.contextmanager
def fake(mod):
    old = sys.modules.get("nlopt")
    sys.modules["nlopt"] = mod
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        if old is None:
            sys.modules.pop("nlopt", None)
        else:
            sys.modules["nlopt"] = old


def driver(ctx):
    from feax.gene.optimizer import run, Continuation, AdaptiveConfig
    from feax.gene import optimizer as om
    from feax.mesh import Mesh

    def val(rho, w, p, q):
        return (w * rho ** 2).sum() * p + q * rho.sum()

    def one(mi, conts, early, jit, roundoff, passive, bounds, adaptive, same, out):
        m = X.mesh("QUAD4", (3, 2))
        n = len(m.points)
        ml = []
        P = pipe(ml, (lambda r: r * .5) if adaptive else None)
        nl = FakeNlopt(early, roundoff)
        kw = {}
        if passive:
            kw = dict(passive_solid=np.array([0, 5]), passive_void=np.array([2]))
        rho0 = None if passive else np.random.RandomState(mi).uniform(bounds[0], bounds[1], n)
        m2 = X.mesh("QUAD4", (3, 2) if same else (4, 3))
        if same:        # a remesh that keeps the number of nodes and moves them
            m2 = Mesh(m2.points * np.array([1.4, .8]), m2.cells, ele_type="QUAD4")
        at = lambda k: m2 if adaptive and k >= adaptive else m
        rem = []
        if adaptive:
            def remesh(mesh, rf):
                rem.append((mesh, np.array(rf)))
                return m2
            kw["adaptive"] = AdaptiveConfig(remesh=remesh, adapt_every=adaptive, n_adapts_max=1, transfer=lambda x, a, b: np.full(len(b), .35))
        r0 = None if rho0 is None else rho0.copy()
        with fake(nl):
            res = run(P, m, max_iter=mi, continuations=conts, rho_init=r0, rho_bounds=bounds, jit=jit, output_dir=out, save_every=2, **kw)
        if rho0 is not None:
            expect_close(r0, rho0, "the caller's initial design is not modified")
        info = dict(max_iter=mi, early=early, passive=passive, bounds=bounds, adaptive=adaptive)
        calls = [(o, c) for o in nl.opts for c in o.calls]
        # evaluation order over optimizers is chronological because each is used until replaced
        expect(len(calls) == mi, "exactly max_iter objective evaluations", got=len(calls), **info)
        expect(res.history["iteration"] == list(range(1, mi + 1)), "history counts every evaluation", **info)
        names = ["volume", "aux", "aux_lb"]
        for k, (o, (x, v, g, cv)) in enumerate(calls):
            p, q = (conts["p"].value_at(k) if conts and "p" in conts else 2.), (conts["q"].value_at(k) if conts and "q" in conts else 0.)
            nn = o.n
            w = weights(at(k))
            expect(nn == len(w), "number of design variables", k=k, **info)
            expect_close(v, val(x, w, p, q), "objective at the scheduled parameters", k=k, rtol=1e-9, **info)
            expect_close(g, 2 * w * x * p + q, "objective gradient", k=k, **info)
            lo, hi = np.full(nn, bounds[0]), np.full(nn, bounds[1])
            if passive and at(k) is m:
                lo[[0, 5]] = hi[[0, 5]] = 1.
                lo[2] = hi[2] = bounds[0]
            expect_close(o.lo, lo, "lower bounds", **info)
            expect_close(o.hi, hi, "upper bounds", **info)
            vol, aux = x.mean(), (w * x).mean() + q
            # feasible set: volume <= .4, .25 <= aux <= .35
            spec = {}
            expect(len(cv) == 3, "three inequalities", got=len(cv))
            for want, gw in ((vol - .4, np.ones(nn) / nn), (aux - .35, w / nn), (.25 - aux, -w / nn)):
                hit = [i for i, (c, gc) in enumerate(cv) if abs(c - want) < 1e-9 and np.abs(gc - gw).max() < 1e-9]
                expect(hit, "each declared constraint is passed as c <= 0 with its gradient", want=want, got=[c for c, _ in cv], k=k, **info)
            expect_close([res.history[s][k] for s in names], [vol, aux, aux], "history of constraints", k=k, **info)
            expect_close(res.history["objective"][k], v, "history of the objective", **info)
        # restart points: the design carried over
        seq = [(o, r) for o in nl.opts for r in o.runs]
        if passive:
            x0 = seq[0][1][0]
            expect((x0[[0, 5]] == 1).all() and x0[2] == bounds[0], "passive variables start at their pinned values", **info)
            rest = np.setdiff1d(np.arange(n), [0, 5, 2])
            expect_close(x0[rest], np.full(len(rest), .35), "default start meets the tightest upper constraint", **info)
        else:
            expect_close(seq[0][1][0], rho0, "starts from the given design", **info)
        if adaptive:
            if mi > adaptive:
                expect(len(rem) == 1 and rem[0][0] is m and len(ml) == 2 and ml[1] is m2 and res.mesh is m2, "remesh once at the stated iteration", n=len(rem), **info)
                na = list(itertools.accumulate(len(o.calls) for o in nl.opts))
                expect(adaptive in na, "remesh at the stated iteration", got=na, **info)
                xs = nl.opts[na.index(adaptive) + 1].runs[0][0]
                expect_close(xs, np.full(len(m2.points), .35), "transferred design starts the next epoch", **info)
            else:
                expect(not rem, "no remesh after the last iteration", **info)
        else:
            expect(len(ml) == 1 and res.mesh is m, "built once on the given mesh", **info)
        pf, qf = [(conts[k].value_at(mi - 1) if conts and k in conts else d) for k, d in (("p", 2.), ("q", 0.))]
        rho = np.asarray(res.rho)
        w = weights(res.mesh)
        expect_close(res.final_objective, val(rho, w, pf, qf), "final objective is that of the returned design", **info)
        expect_close(res.rho_filtered, rho * (.5 if adaptive else 1.), "filtered design", **info)
        expect_close([res.final_constraints["volume"], res.final_constraints["aux"], res.final_constraints["aux_lb"]], [rho.mean(), (w * rho).mean() + qf, (w * rho).mean() + qf], "final constraints", **info)
        expect((rho >= bounds[0] - 1e-12).all() and (rho <= max(bounds[1], 1. if passive else 0) + 1e-12).all(), "design within bounds", **info)
        if out:
            rows = list(csv.reader(open(os.path.join(out, "history.csv"))))
            expect(rows[0] == ["iteration", "objective", "aux", "aux_lb", "volume"] + list(conts or {}) or sorted(rows[0]) == sorted(["iteration", "objective", "aux", "aux_lb", "volume"] + list(conts or {})), "csv header", header=rows[0])
            expect(len(rows) == mi + 1, "one csv row per evaluation")
            for k, r in enumerate(rows[1:]):
                d = dict(zip(rows[0], r))
                expect(int(d["iteration"]) == k + 1 and abs(float(d["objective"]) - res.history["objective"][k]) < 1e-12 and abs(float(d["volume"]) - res.history["volume"][k]) < 1e-12, "csv row", row=r)
                for c in (conts or {}):
                    expect(abs(float(d[c]) - conts[c].value_at(k)) < 1e-12, "csv parameter", row=r, k=k)
            f = sorted(os.listdir(out))
            want = {f"iter_{i:04d}.vtu" for i in range(2, mi + 1, 2)} | {"final.vtu", "history.csv"} | ({"adapt_01.vtu"} if adaptive and mi > adaptive else set())
            expect(set(f) == want, "files written", got=f, want=sorted(want))

    C1 = dict(p=Continuation(1., 3., 3, 1.))
    C2 = dict(p=Continuation(1., 3., 2, .5), q=Continuation(.2, 0., 3, -.1))
    C3 = dict(q=Continuation(0., .5, 1, .25), p=Continuation(1., 1., 2, 1.))
    cases = []
    for mi, c in itertools.product((1, 4, 7, 11), (None, C1, C2, C3)):
        cases.append((mi, c, 0, mi % 2 == 0, False, c is C1, (.05, 1.) if c is C1 else (.1, .9), 0, False, mi == 7))
        cases.append((mi, c, 2, False, False, False, (.1, .9), 0, False, False))
        cases.append((mi, c, 0, False, False, False, (.1, .9), 3, False, mi == 11))
    for mi, c in itertools.product((4, 7), (None, C2)):
        cases.append((mi, c, 0, True, False, False, (.1, .9), 3, True, False))
    cases.append((6, C2, 0, False, True, False, (.1, .9), 0, False, False))

    def sweep(lo, hi):
        def f():
            for c in cases[lo:hi]:
                d = tempfile.mkdtemp(prefix="c14") if c[-1] else None
                try:
                    one(*c[:-1], d)
                finally:
                    if d:
                        shutil.rmtree(d)
            return hi - lo
        return f
    h = len(cases) // 2
    for a, b in ((0, h), (h, len(cases))):
        ctx.bounded(f"optimization driver: bounds, constraints, gradients, schedules, history, remeshing (cases {a}..{b})", sweep(a, b), functions=[O + "run", O + "_compile"])

    def remeshing():
        """several remeshes with an optimizer that stops early, passive regions, and the default transfer"""
        from feax.gene.adaptive import interpolate_field
        k = 0
        sizes = [(2, 2, 1), (3, 2, 1), (2, 1, 1), (2, 2, 2)]
        for early, mi, every, nmax, cut in itertools.product((0, 1, 2), (7, 10), (3, 4), (1, 2, 3), (False, True)):
            m = X.mesh("TET4", sizes[0])
            n0 = len(m.points)
            meshes = [X.mesh("TET4", s) for s in (sizes[1:] if not cut else sizes[:0:-1])]
            ml, at = [], []
            P = pipe(ml)
            nl = FakeNlopt(early)
            inputs = []

            def remesh(mesh, rf):
                at.append(sum(len(o.calls) for o in nl.opts))
                inputs.append(np.array(rf))
                return meshes[len(at) - 1]
            solid, void = np.array([0, 5]), np.array([2])
            with fake(nl):
                res = run(P, m, max_iter=mi, rho_bounds=(.1, .9), jit=False, passive_solid=solid, passive_void=void,
                          adaptive=AdaptiveConfig(remesh=remesh, adapt_every=every, n_adapts_max=nmax))
            info = dict(early=early, max_iter=mi, every=every, nmax=nmax, cut=cut)
            want = [i for i in range(every, mi, every)][:nmax]
            expect(at == want, "remesh at the multiples of adapt_every, at most n_adapts_max times, never at the end", got=at, want=want, **info)
            ms = [m] + meshes[:len(want)]
            expect(len(ml) == len(ms) and all(a is b for a, b in zip(ml, ms)) and res.mesh is ms[-1], "pipeline rebuilt on each mesh", **info)
            calls = [(o, c) for o in nl.opts for c in o.calls]
            expect(len(calls) == mi, "exactly max_iter evaluations", **info)
            for i, (o, c) in enumerate(calls):
                e = sum(i >= w for w in want)
                lo, hi = np.full(len(ms[e].points), .1), np.full(len(ms[e].points), .9)
                if e == 0:
                    lo[solid] = hi[solid] = 1.
                    hi[void] = .1
                if e == 0 or len(lo) != n0:
                    expect_close(o.lo, lo, "lower bounds", epoch=e, **info)
                    expect_close(o.hi, hi, "upper bounds", epoch=e, **info)
                if i in want and len(lo) != n0:
                    expect_close(c[0], np.clip(interpolate_field(inputs[e - 1], ms[e - 1], np.asarray(ms[e].points)), .1, .9), "the design carries over by interpolation within the bounds", epoch=e, **info)
            k += 1
        return k
    ctx.bounded("optimization driver: remesh schedule, passive regions and default transfer", remeshing, functions=[O + "run"])

    def real():
        """with the real optimizer: feasible, better than the start, passive values held"""
        try:
            import nlopt
        except ImportError:
            raise Skip("nlopt")
        from feax.gene.optimizer import Pipeline, constraint

        class Q(Pipeline):
            def build(self, mesh):
                self.t = jnp.asarray(np.linspace(.1, .9, mesh.points.shape[0]))

            def objective(self, rho, **k):
                return jnp.sum((rho - self.t) ** 2)

            @constraint(target=.3)
            def volume(self, rho, **k):
                return jnp.mean(rho)
        m = X.mesh("QUAD4", (3, 3))
        with contextlib.redirect_stdout(io.StringIO()):
            r = run(Q(), m, max_iter=60, passive_solid=np.array([3]), passive_void=np.array([14]), rho_bounds=(.01, 1.))
        rho = np.asarray(r.rho)
        expect(rho[3] == 1. and abs(rho[14] - .01) < 1e-12, "passive variables hold")
        expect(rho.mean() <= .3 + 1e-5 and rho.min() >= .01 - 1e-12 and rho.max() <= 1 + 1e-12, "feasible", mean=rho.mean())
        # optimum: t - mu on the free variables clipped
        t = np.linspace(.1, .9, 16)
        a, b = 0., 1.
        for _ in range(80):
            mu = .5 * (a + b)
            x = np.clip(t - mu, .01, 1.)
            x[3], x[14] = 1., .01
            a, b = (mu, b) if x.mean() > .3 else (a, mu)
        expect(np.abs(rho - x).max() < 2e-2, "reaches the constrained optimum", got=rho, want=x)
    ctx.bounded("driver with the real optimizer reaches the constrained optimum", real, functions=[O + "run"])


# ------------------------------------------------------------------ multipliers
def multipliers(ctx):
    from feax.gene import mdmm
    L = mdmm.LagrangeMultiplier
    f = lambda x: jnp.stack([x[0] * x[1] - 1., x[0] - x[2] ** 2])
    args = (Sx("x", (3,)), Sx("l", (2,)), Sx("d", ()), Sx("w", ()))
    ctx.equal("equality constraint: weight * sum(lambda g + damping g^2/2) and infeasibility g", lambda x, l, d, w: mdmm.eq(f, d, w).loss({"lambda": L(l)}, x),
              lambda x, l, d, w: (w * jnp.sum(l * f(x) + d * f(x) ** 2 / 2), f(x)), args, functions=[M + "eq"])
    ctx.equal("inequality constraint: same with g = h - slack^2", lambda x, l, d, w, s: mdmm.ineq(f, d, w).loss({"lambda": L(l), "slack": s}, x),
              lambda x, l, d, w, s: (w * jnp.sum(l * (f(x) - s ** 2) + d * (f(x) - s ** 2) ** 2 / 2), f(x) - s ** 2), args + (Sx("s", (2,)),), functions=[M + "ineq"])
    ctx.equal("default damping and weight are one, reductions apply", lambda x, l: [mdmm.eq(f).loss({"lambda": L(l)}, x)[0], mdmm.eq(f, reduction=jnp.mean).loss({"lambda": L(l)}, x)[0], mdmm.ineq(f, 2., 3., jnp.mean).loss({"lambda": L(l), "slack": l}, x)[0]],
              lambda x, l: [jnp.sum(l * f(x) + f(x) ** 2 / 2), jnp.mean(l * f(x) + f(x) ** 2 / 2), 3. * jnp.mean(l * (f(x) - l ** 2) + (f(x) - l ** 2) ** 2)], args[:2], functions=[M + "eq", M + "ineq"])
    ctx.equal("initial multipliers are zero", lambda x: [mdmm.eq(f).init(x)["lambda"].value, mdmm.ineq(f).init(x)["lambda"].value], lambda x: [jnp.zeros(2)] * 2, (args[0],), functions=[M + "eq", M + "ineq"])
    ctx.equal("initial slack makes a satisfied inequality tight", lambda x: mdmm.ineq(lambda x: x ** 2 + 1.).loss(mdmm.ineq(lambda x: x ** 2 + 1.).init(x), x)[1], lambda x: 0 * x, (args[0],), functions=[M + "ineq"])
    ctx.equal("combination adds the losses and lists the infeasibilities",
              lambda x, l, s: mdmm.combine(mdmm.eq(f), mdmm.ineq(f, 2.), mdmm.eq(lambda x: x[:1], 1., 3.)).loss(({"lambda": L(l)}, {"lambda": L(2 * l), "slack": s}, {"lambda": L(l[:1])}), x),
              lambda x, l, s: (jnp.sum(l * f(x) + f(x) ** 2 / 2) + jnp.sum(2 * l * (f(x) - s ** 2) + (f(x) - s ** 2) ** 2) + 3. * jnp.sum(l[:1] * x[:1] + x[:1] ** 2 / 2), (f(x), f(x) - s ** 2, x[:1])),
              (args[0], args[1], Sx("s", (2,))), functions=[M + "combine"])
    ctx.equal("prepared update negates exactly the multipliers", lambda x, l, s: jax.tree_util.tree_leaves(mdmm.prepare_update({"a": x, "c": ({"lambda": L(l), "slack": s},)})),
              lambda x, l, s: [x, -l, s], (args[0], args[1], Sx("s", (2,))), functions=[M + "prepare_update"])
    ctx.equal("optax transformation is the same update", lambda x, l, s: jax.tree_util.tree_leaves(mdmm.optax_prepare_update().update({"a": x, "c": ({"lambda": L(l), "slack": s},)}, mdmm.optax_prepare_update().init(None))[0]),
              lambda x, l, s: [x, -l, s], (args[0], args[1], Sx("s", (2,))), functions=[M + "optax_prepare_update"])

    def step(x, l, s, eta):
        c = mdmm.combine(mdmm.eq(f), mdmm.ineq(lambda x: x[:2] + 1.))
        obj = lambda x: jnp.sum((x - 2.) ** 2)
        pr = (x, ({"lambda": L(l)}, {"lambda": L(2 * l), "slack": s}))
        g = jax.grad(lambda p: obj(p[0]) + c.loss(p[1], p[0])[0])(pr)
        g = mdmm.prepare_update(g)
        return jax.tree_util.tree_leaves(jax.tree_util.tree_map(lambda p, q: p - eta * q, pr, g))

    def step_ref(x, l, s, eta):
        g1, g2 = f(x), x[:2] + 1. - s ** 2
        J1 = jnp.stack([jnp.stack([x[1], x[0], 0 * x[0]]), jnp.stack([1. + 0 * x[0], 0 * x[0], -2 * x[2]])])
        dx = 2 * (x - 2.) + (l + g1) @ J1 + jnp.concatenate([2 * l + g2, jnp.zeros(1)])
        return [x - eta * dx, l + eta * g1, 2 * l + eta * g2, s - eta * (-2 * s) * (2 * l + g2)]
    ctx.equal("a step descends in design and slack and ascends in the multipliers", step, step_ref, (args[0], args[1], Sx("s", (2,)), Sx("eta", ())), functions=[M + "eq", M + "ineq", M + "combine", M + "prepare_update"])

    def conv():
        import optax
        c = mdmm.combine(mdmm.eq(lambda x: x[0] + x[1] - 1.), mdmm.ineq(lambda x: x[0] - .8))
        x = jnp.array([0., 0.])
        pr = (x, c.init(x))
        opt = optax.chain(optax.sgd(3e-2), mdmm.optax_prepare_update())
        st = opt.init(pr)

        @jax.jit
        def it(pr, st):
            g = jax.grad(lambda p: jnp.sum(p[0] ** 2) + c.loss(p[1], p[0])[0])(pr)
            u, st = opt.update(g, st)
            return optax.apply_updates(pr, u), st
        for _ in range(4000):
            pr, st = it(pr, st)
        expect_close(pr[0], [.8, .2], "constrained minimum", atol=1e-2)
    ctx.bounded("descent-ascent converges to the constrained minimum", conv, functions=[M + "optax_prepare_update"])


GROUPS = [oc, loop, schedules, driver, multipliers]
