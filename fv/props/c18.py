"""C18: time integration."""
import itertools
import os
import shutil
import tempfile
import contextlib
import csv
import io
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import femlib as F, fxlib as X, symint as S, symnp, loopcut, uf
from fv.contract import Sx, expect, expect_close, expect_raises

T = "feax/solvers/time_solver.py:"


def schemes(ctx):
    from feax.solvers import time_solver as M
    for n, tree in ((1, False), (3, False), (2, True)):
        f = uf.fun("rhs", (n,))

        class Pipe(M.ExplicitPipeline):
            def build(self, mesh):
                pass

            def initial_state(self):
                return None

            def compute_rhs(self, state, t):
                if tree:
                    y = f(jnp.concatenate([state["a"], state["b"][0], jnp.stack([t])]))
                    return {"a": y[:1], "b": (y[1:],)}
                return f(jnp.concatenate([state, jnp.stack([t])]))
        r = lambda y, t: f(jnp.concatenate([y, jnp.stack([t])]))

        def ref(sch, y, t, h):
            if sch == "euler":
                return y + h * r(y, t)
            if sch == "rk2":
                return y + h * r(y + h / 2 * r(y, t), t + h / 2)
            k1 = r(y, t)
            k2 = r(y + h / 2 * k1, t + h / 2)
            k3 = r(y + h / 2 * k2, t + h / 2)
            k4 = r(y + h * k3, t + h)
            return y + h * (k1 / 6 + k2 / 3 + k3 / 3 + k4 / 6)
        for sch in ("euler", "rk2", "rk4"):
            def step(y, t, h):
                p = Pipe()
                p.scheme = sch
                if tree:
                    o = p.step({"a": y[:1], "b": (y[1:],)}, t, h)
                    return jnp.concatenate([o["a"], o["b"][0]])
                return p.step(y, t, h)
            ctx.equal(f"{sch} step is its Runge-Kutta formula for every right-hand side ({n} unknowns{', nested state' if tree else ''})", step, lambda y, t, h: ref(sch, y, t, h), (Sx("y", (n,)), Sx("t"), Sx("h", (), .05, .5)), functions=[T + "ExplicitPipeline.step"])

    def misc():
        class P(M.ExplicitPipeline):
            def build(self, m):
                pass

            def initial_state(self):
                return jnp.ones(2)

            def compute_rhs(self, s, t):
                return -s
        p = P()
        expect_close(p.step(jnp.ones(2), 0., .1), .9 * np.ones(2), "default scheme is Euler")
        p.scheme = "midpoint"
        expect_raises(lambda: p.step(jnp.ones(2), 0., .1), "unknown scheme", ValueError)
        for sch, order in (("euler", 1), ("rk2", 2), ("rk4", 4)):
            p.scheme = sch
            err = []
            for n in (8, 16):
                y = jnp.ones(2)
                for k in range(n):
                    y = p.step(y, k / n, 1. / n)
                err.append(abs(float(y[0]) - np.exp(-1)))
            expect(abs(np.log2(err[0] / err[1]) - order) < .25, "convergence order", scheme=sch, got=np.log2(err[0] / err[1]))
    ctx.bounded("default scheme, unknown schemes, convergence orders", misc, functions=[T + "ExplicitPipeline.step"])

    # implicit step: one solve with the parameters prepared from the previous state, warm-started from it
    n = 3
    sv, up = uf.fun("solver", (n,)), uf.fun("update", (2,))

    class Imp(M.ImplicitPipeline):
        def build(self, mesh):
            pass

        def initial_state(self):
            return None

        def update_vars(self, state, t, dt):
            return up(jnp.concatenate([state, jnp.stack([t, dt])]))

    class Sol:
        def __init__(self, d):
            self.dofs = d
    y, t, h = Sx("y", (n,)), Sx("t"), Sx("h")
    for wrap, pseudo in itertools.product((False, True), repeat=2):
        def mk():
            p = Imp()
            p.solver = (lambda tp, s: Sol(sv(jnp.concatenate([tp, s])))) if wrap else (lambda tp, s: sv(jnp.concatenate([tp, s])))
            p.pseudo_time = pseudo
            return p
        ctx.equal(f"implicit step is one solve with parameters from the previous state, started there (Solution={wrap}, pseudo_time={pseudo})", lambda y, t, h: mk().step(y, t, h), lambda y, t, h: sv(jnp.concatenate([up(jnp.concatenate([y, jnp.stack([t, h])])), y])), (y, t, h), functions=[T + "ImplicitPipeline.step"])
        ctx.equal(f"derivative of an implicit step (Solution={wrap}, pseudo_time={pseudo})", lambda y, t, h: jax.jacrev(lambda y: mk().step(y, t, h))(y), lambda y, t, h: jnp.zeros((n, n)) if pseudo else jax.jacrev(lambda y: sv(jnp.concatenate([up(jnp.concatenate([y, jnp.stack([t, h])])), y])))(y), (y, t, h), functions=[T + "ImplicitPipeline.step"])
    ctx.bounded("implicit pipelines keep the full transient derivative by default", lambda: expect(M.ImplicitPipeline.pseudo_time is False, "default"), functions=[T + "ImplicitPipeline"])


class Ghost:
    """pipeline whose state is (time reached, steps done); every call is checked against it"""

    def __init__(self, env, adaptive=None):
        self.env, self.goals = env, env["goals"]
        if adaptive:
            self.adapt_dt = adaptive

    def build(self, mesh):
        self.goals.append(z3.BoolVal(mesh == "mesh"))

    def initial_state(self):
        return symnp.arr([self.env["t0"], S.I(z3.IntVal(0))])

    def step(self, s, t, dt):
        e = self.env
        self.goals += [s[0] == t, t >= e["t0"], dt > 0, t + dt <= e["t1"]]
        e["dts"].append(dt)
        return symnp.arr([t + dt, s[1] + 1])

    def at(self, s, step, t):
        self.goals += [s[0] == t, s[1] == step]

    def monitor(self, s, step, t):
        self.at(s, step, t)
        return {"m": s[0]}

    def save(self, s, step, t, out):
        self.at(s, step, t)
        self.env["saves"].append((step, t))
        e = self.env
        self.goals.append(S.B(z3.Or(S.bx(step % e["save_every"] == 0), S.bx(t >= e["t1"] - 1e-13 * e["dt"]))))


def real_run(M, t0, t1, dt, save_every=1, adaptive=None, factor=None, out=None, cbs=(), print_every=1):
    """the real loop with a recording pipeline: (result, log)"""
    log = []

    class P(M.TimePipeline):
        def build(self, mesh):
            log.append(("build", mesh))

        def initial_state(self):
            return (t0, 0)

        def step(self, s, t, dt):
            expect_close(s[0], t, "step starts where the last one ended")
            log.append(("step", t, dt))
            return (t + dt, s[1] + 1)

        def monitor(self, s, step, t):
            expect(s[1] == step and s[0] == t, "monitored state belongs to its step", state=s, step=step, t=t)
            return {"a": float(step), "b": t}

        def save(self, s, step, t, o):
            expect(s[1] == step and s[0] == t and o == out, "saved state belongs to its step", state=s, step=step, t=t)
            log.append(("save", step, t))
    p = P()
    if adaptive is not None:
        if factor is not None:
            def adapt(state, step, t, d):
                log.append(("adapt", step, t, d))
                return factor(step, d)
            p.adapt_dt = adapt
    kw = dict(save_every=save_every, print_every=print_every)
    with contextlib.redirect_stdout(io.StringIO()):
        r = M.run(p, "mesh", M.TimeConfig(dt, t1, t0, **kw), adaptive_dt=adaptive, output_dir=out, callbacks=[M.Callback(lambda s, k, t, i=i: log.append(("cb", i, s, k, t)), e) for i, e in enumerate(cbs)])
    return r, log


def loop(ctx):
    from feax.solvers import time_solver as M
    tmp = tempfile.mkdtemp(prefix="c18-")
    sc = lambda v: np.ndim(v) == 0 and not isinstance(v, (dict, str)) and loopcut._numeric(v)

    def setup_for(out, save_every, every, adaptive):
        def setup(mk):
            t0, t1, dt = (mk(k, real=True) for k in ("t0", "t1", "dt"))
            mk("", pre=dt > 0)
            mk("", pre=t1 > t0)
            env = dict(t0=t0, t1=t1, dt=dt, goals=[], saves=[], dts=[], save_every=save_every)
            ad = None
            if adaptive:
                lo, hi, gr = (mk(k, real=True) for k in ("dtmin", "dtmax", "growth"))
                for c in (lo > 0, lo <= dt, dt <= hi, gr >= 1):
                    mk("", pre=c)
                ad = M.AdaptiveDtConfig(lo, hi, gr)
                env.update(lo=lo, hi=hi)

                def adapt(s, step, t, d):
                    env["goals"] += [s[0] == t, s[1] == step, d >= lo, d <= hi]
                    return mk("wanted", real=True)
                p = Ghost(env, adapt)
            else:
                p = Ghost(env)

            def cb(s, step, t):
                env["goals"] += [s[0] == t, s[1] == step, step % every == 0]
            return (p, "mesh", M.TimeConfig(dt, t1, t0, save_every=save_every)), dict(adaptive_dt=ad, output_dir=tmp if out else None, callbacks=[M.Callback(cb, every)]), env
        return setup
    unary = [lambda e, v: [S.ix(v) >= S.ix(e["t0"])] if sc(v) else None, lambda e, v: [S.ix(v) <= S.ix(e["t1"])] if sc(v) else None, lambda e, v: [S.ix(v) > 0] if sc(v) else None, lambda e, v: [S.ix(v) >= 0] if sc(v) else None,
             lambda e, v: [S.ix(v) == S.ix(e["dt"])] if sc(v) else None, lambda e, v: [S.ix(v) >= S.ix(e["lo"]), S.ix(v) <= S.ix(e["hi"])] if sc(v) and "lo" in e else None]
    arr2 = lambda v: isinstance(v, np.ndarray) and v.shape == (2,)
    binary = [lambda e, v, w: [S.ix(v[0]) == S.ix(w)] if arr2(v) and sc(w) else None, lambda e, v, w: [S.ix(v[1]) == S.ix(w)] if arr2(v) and sc(w) else None]

    def post(res, env):
        g = [res.t_final <= env["t1"], res.t_final >= env["t1"] - 1e-13 * env["dt"], res.final_state[0] == res.t_final, res.final_state[1] == res.n_steps]
        if env.get("out"):
            pass
        return [S.bx(x) for x in g]

    def edges():
        """intervals that miss a whole number of steps by a sliver"""
        k = 0
        for n, dt, t0, e in itertools.product((1, 2, 3), (.25, .5), (0., 1.), (5e-4, -5e-4, 3e-2, -3e-2, 1e-5, -1e-5, 1e-7, -1e-7, 5e-9, -5e-9, 5e-10, -5e-10)):
            for ad in (None, M.AdaptiveDtConfig(dt, dt, 2.)):
                check_run(M, t0, t0 + dt * (n + e), dt, 2, ad, (lambda k, d: d) if ad else None, None, (1,))
                k += 1
        return k

    def rep(_m):
        if isinstance(_m, dict) and all(isinstance(_m.get(k), (int, float)) for k in ("t0", "t1", "dt")) and 0 < _m["dt"] and 0 < _m["t1"] - _m["t0"] < 50 * _m["dt"]:
            check_run(M, _m["t0"], _m["t1"], _m["dt"], 2, None, None, None, (1,))
        edges()
        for seed in range(60):
            r = np.random.RandomState(seed)
            t0, dt = r.uniform(-2, 2), r.uniform(.01, .5)
            t1 = t0 + r.uniform(.05, 3.)
            ad = M.AdaptiveDtConfig(dt / 4, dt * 4, 1.5) if seed % 2 else None
            fac = r.uniform(.1, 3., 400)
            check_run(M, t0, t1, dt, 1 + seed % 4, ad, (lambda k, d: d * fac[k % 400]) if ad else None, tmp if seed % 3 else None, (1 + seed % 3,))
    for out, se, ev, ad in ((False, 1, 1, False), (True, 3, 2, False), (True, 2, 3, True), (False, 10, 1, True)):
        ctx.valid(f"time loop invariant for every number of steps (output {out}, save every {se}, callback every {ev}, adaptive {ad}): contiguous positive steps inside the interval, end reached, calls see their own step",
                  lambda: loopcut.fully(M.run, setup_for(out, se, ev, ad), unary, binary, post, ["feax.solvers.time_solver"]), functions=[T + "run"], replay=rep, private=False)

    # exact step sequence of short runs, all real inputs
    def seq(adaptive):
        def run(mk):
            t0, t1, dt = (mk(k, real=True) for k in ("t0", "t1", "dt"))
            env = dict(t0=t0, t1=t1, dt=dt, goals=[], saves=[], dts=[], save_every=2, wanted=[])
            mk("", pre=dt > 0)
            mk("", pre=t1 > t0)
            ad = None
            if adaptive:
                lo, hi, gr = mk("dtmin", real=True), mk("dtmax", real=True), 2.
                for c in (lo > 0, lo <= dt, dt <= hi, t1 - t0 <= 3 * lo):
                    mk("", pre=c)
                ad = M.AdaptiveDtConfig(lo, hi, gr)

                def adapt(s, step, t, d):
                    w = mk(f"wanted{len(env['wanted'])}", real=True)
                    env["wanted"].append((w, d))
                    return w
                p = Ghost(env, adapt)
                env.update(lo=lo, hi=hi)
            else:
                mk("", pre=t1 - t0 <= 3 * dt)
                p = Ghost(env)
            had = {k: M.__dict__.get(k) for k in ("int", "print")}
            M.__dict__.update(int=loopcut._int, print=lambda *a, **k: None)
            try:
                res = M.run(p, "mesh", M.TimeConfig(dt, t1, t0, save_every=2), adaptive_dt=ad, output_dir=tmp)
            finally:
                for k, v in had.items():
                    M.__dict__.pop(k, None) if v is None else M.__dict__.__setitem__(k, v)
            return res, env

        def post(v):
            res, env = v
            g = list(env["goals"])
            t, d = env["t0"], env["dt"]
            ts = [t]
            for k, h in enumerate(env["dts"]):
                rem = env["t1"] - t
                g.append(S.ix(h) == z3.If(S.ix(d) <= S.ix(rem), S.real(S.ix(d)), S.real(S.ix(rem))))
                t = t + h
                ts.append(t)
                if adaptive:
                    w, dold = env["wanted"][k]
                    g.append(dold == d)
                    mx = lambda a, b: z3.If(a >= b, a, b)
                    mn = lambda a, b: z3.If(a <= b, a, b)
                    d = S.I(mn(mx(S.ix(env["lo"]), mn(S.ix(env["hi"]), S.ix(w))), S.ix(d) * 2))
            g += [res.n_steps == len(env["dts"]), res.t_final == t]
            n = len(env["dts"])
            want = sorted({0, n} | set(range(0, n + 1, 2)))
            g.append(z3.BoolVal(len(env["saves"]) == len(want)))
            if len(env["saves"]) == len(want):
                g += [z3.And(S.bx(S.I(S.ix(a)) == b), S.bx(S.I(S.ix(ta)) == ts[b])) for (a, ta), b in zip(env["saves"], want)]
            g.append(z3.BoolVal(len(res.history["time"]) == n + 1 and len(res.history["step"]) == n + 1 and len(res.history["m"]) == n + 1))
            if len(res.history["time"]) == n + 1:
                g += [S.I(S.ix(a)) == b for a, b in zip(res.history["time"], ts)] + [S.I(S.ix(a)) == b for a, b in zip(res.history["m"], ts)]
                g += [S.I(S.ix(a)) == b for b, a in enumerate(res.history["step"])]
            return [S.bx(x) for x in g]
        return S.prove(run, post)
    for ad in (False, True):
        ctx.valid(f"step sequence, history and snapshots of runs of up to three steps (adaptive {ad}), every dt, interval and wanted step", lambda: seq(ad), functions=[T + "run"], replay=rep, private=False)

    def sweep():
        n = 0
        for seed in range(200):
            r = np.random.RandomState(1000 + seed)
            t0, dt = r.choice([0., 1., -.5]), r.choice([.25, .125, 1., .1, .3, 7.])
            t1 = t0 + r.choice([1., .125, 2.5, .9, 1e-3])
            ad = [None, M.AdaptiveDtConfig(), M.AdaptiveDtConfig(dt / 2, dt * 3, 1.2), M.AdaptiveDtConfig(dt, dt, 5.)][seed % 4]
            fac = r.uniform(.2, 4., 400)
            check_run(M, t0, t1, dt, int(r.randint(1, 6)), ad, (lambda k, d: d * fac[k % 400]) if seed % 5 else None, tmp if seed % 3 else None, (1, int(r.randint(2, 5))), int(r.choice([1, 3])))
            n += 1
        return n
    try:
        ctx.bounded("intervals that miss a whole number of steps by a sliver", edges, functions=[T + "run"])
        ctx.bounded("whole runs: steps, histories, snapshots, callbacks and CSV", sweep, functions=[T + "run"])

        def cfg():
            c = M.TimeConfig(.1, 1.)
            expect(c.t_start == 0. and c.save_every == 10 and c.print_every == 1, "defaults")
            expect(M.Callback(None).every == 1, "callback default")
            r, log = real_run(M, 0., 0., .1, out=None)
            expect(r.n_steps == 0 and r.t_final == 0., "empty interval")

            class P(M.TimePipeline):
                def build(self, m):
                    pass

                def initial_state(self):
                    return jnp.zeros(1)

                def step(self, s, t, dt):
                    return s + dt
            with contextlib.redirect_stdout(io.StringIO()):
                r = M.run(P(), None, M.TimeConfig(.25, 1.), output_dir=tmp)
            expect(set(r.history) == {"step", "time"}, "no monitors by default")
            expect_close(r.final_state, [1.], "state")

            class Sparse(P):
                def monitor(self, s, step, t):
                    return {"always": 1. + step, **({"even": 10. + step} if step % 2 == 0 else {})}
            with contextlib.redirect_stdout(io.StringIO()):
                r = M.run(Sparse(), None, M.TimeConfig(.25, 1.), output_dir=tmp)
            expect(r.history["always"] == [1., 2., 3., 4., 5.] and r.history["even"] == [10., 0., 12., 0., 14.], "a quantity not reported at a step is recorded as zero", got=r.history)
        ctx.bounded("configuration defaults and pipelines without monitor or save", cfg, functions=[T + "run", T + "TimeConfig"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_run(M, t0, t1, dt, save_every, ad, factor, out, cbs, print_every=1):
    info = dict(t0=t0, t1=t1, dt=dt, save_every=save_every, adaptive=str(ad), out=bool(out))
    if out:
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
    r, log = real_run(M, t0, t1, dt, save_every, ad, factor, out, cbs, print_every)
    steps = [x for x in log if x[0] == "step"]
    n = len(steps)
    expect(log[0] == ("build", "mesh") and sum(x[0] == "build" for x in log) == 1, "built once, first", **info)
    expect(r.n_steps == n and n >= 1, "step count", **info)
    expect(t1 - 1e-12 <= r.t_final <= t1 + 1e-12, "ends at the end time", t_final=r.t_final, **info)
    d, t = dt, t0
    ts = [t0]
    for k, (_, a, h) in enumerate(steps):
        expect(a == t, "contiguous", **info)
        expect_close(h, min(d, t1 - t), "step size", k=k, **info)
        expect(h > 0, "positive step", **info)
        t += h
        ts.append(t)
        if ad is not None and factor is not None:
            d = min(max(ad.dt_min, min(ad.dt_max, factor(k + 1, d))), d * ad.growth_factor)
    if ad is None or factor is None:
        expect(n <= np.ceil((t1 - t0) / dt - 1e-9) + 1, "no more steps than needed", n=n, **info)
    ad_calls = [x for x in log if x[0] == "adapt"]
    expect(len(ad_calls) == (n if ad is not None and factor is not None else 0), "adaptation called once per step", **info)
    expect(r.history["step"] == list(range(n + 1)) and r.history["time"] == ts and r.history["a"] == [float(k) for k in range(n + 1)] and r.history["b"] == ts, "history", **info)
    for i, e in enumerate(cbs):
        got = [(x[3], x[4], x[2]) for x in log if x[0] == "cb" and x[1] == i]
        expect(got == [(k, ts[k], (ts[k], k)) for k in range(1, n + 1) if k % e == 0], "callbacks at their frequency", every=e, **info)
    saves = [(x[1], x[2]) for x in log if x[0] == "save"]
    if out:
        want = sorted({0, n} | {k for k in range(n + 1) if k % save_every == 0})
        expect(saves == [(k, ts[k]) for k in want], "snapshots at 0, every N and the end", got=saves, **info)
        rows = list(csv.reader(open(os.path.join(out, "history.csv"))))
        expect(rows[0] == ["step", "time", "a", "b"], "csv header", **info)
        body = [[float(v) for v in row] for row in rows[1:]]
        body = [b for b in body if b[0] > 0]
        expect(body == [[k, ts[k], float(k), ts[k]] for k in range(1, n + 1)], "csv rows", **info)
    else:
        expect(saves == [], "no snapshots without an output directory", **info)


def transient(ctx):
    """backward Euler diffusion through the real implicit pipeline, solver and adjoint, against dense linear algebra"""
    import feax as fe
    from feax import assembler as AS
    from feax.solvers import time_solver as M

    def run():
        m = X.mesh("QUAD4", (2, 1))
        nn, nc = 6, 2

        class Heat(fe.Problem):
            def get_tensor_map(self):
                return lambda g, old, k, idt: k * g

            def get_mass_map(self):
                return lambda u, x, old, k, idt: (u - old) * idt
        pb = Heat(m, vec=1, dim=2, ele_type="QUAD4")
        bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=X.left, component="all", value=1.)]).create_bc(pb)
        z = lambda old, k, idt: fe.TracedParams(volume_vars=(old, k, jnp.full(nc, idt)))
        solver = fe.create_solver(pb, bc, solver_options=fe.DirectSolverOptions(solver="umfpack"), linear=True, traced_params=z(jnp.zeros(nn), jnp.ones(nc), 1.))
        u0 = jnp.asarray(ctx.rng("u0").uniform(0, 1, nn))
        k0 = jnp.array([1., 2.])
        con = np.asarray(bc.bc_rows)
        free = np.setdiff1d(np.arange(nn), con)
        res = lambda u, old, k, idt: AS.get_res(pb, [u[:, None]], z(old, k, idt))[0][:, 0]

        def dense(k, u, t0, hs):
            for h in hs:
                K = jax.jacobian(lambda v: res(v, u, k, 1. / h))(jnp.zeros(nn))
                b = -res(jnp.zeros(nn), u, k, 1. / h)
                A = jnp.eye(nn).at[free].set(K[free])
                u = jnp.linalg.solve(A, jnp.ones(nn).at[free].set(b[free]))
            return u

        class P(M.ImplicitPipeline):
            k = k0

            def build(self, mesh):
                self.solver = solver

            def initial_state(self):
                return u0

            def update_vars(self, s, t, dt):
                return z(s, self.k, 1. / dt)
        with contextlib.redirect_stdout(io.StringIO()):
            r = M.run(P(), m, M.TimeConfig(.2, .5))
        expect_close(r.final_state, dense(k0, u0, 0., [.2, .2, .1]), "backward Euler solution", rtol=1e-6)
        expect(r.n_steps == 3, "three steps, the last clamped")

        def obj(k):
            p = P()
            p.k = k
            p.build(m)
            s = u0
            for t, h in ((0., .2), (.2, .2), (.4, .1)):
                s = p.step(s, t, h)
            return jnp.sum(s ** 2 * jnp.arange(1., nn + 1))
        g = jax.grad(obj)(k0)
        w = jax.grad(lambda k: jnp.sum(dense(k, u0, 0., [.2, .2, .1]) ** 2 * jnp.arange(1., nn + 1)))(k0)
        expect_close(g, w, "transient adjoint", rtol=1e-5)
    ctx.bounded("backward Euler diffusion with the real solver and its transient adjoint", run, functions=[T + "ImplicitPipeline.step", T + "run"])


GROUPS = [schemes, loop, transient]
