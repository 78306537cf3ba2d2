"""C22: instrumentation, precision/memory switches and the multi-process launcher."""
import contextlib
import itertools
import math
import os
import subprocess
import sys
import tempfile
import types
import numpy as np
import z3
import jax
import jax.numpy as jnp
from fv import fxlib as X, symint as S, loopcut
from fv.contract import expect, expect_close, expect_raises
PR, IN, DI = "feax/profiler.py:", "feax/__init__.py:", "feax/distributed/__init__.py:"


@contextlib.contextmanager
def patched(*items):
    """(object or module, name, value) triples"""
    old = [(o, n, getattr(o, n, None), hasattr(o, n)) for o, n, _ in items]
    for o, n, v in items:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v, had in reversed(old):
            setattr(o, n, v) if had else delattr(o, n)


# ---------------------------------------------------------------- Newton profiler
def newton(ctx):
    from feax import profiler as M
    from feax import assembler as A
    from feax.solvers import common as C
    from feax.solvers.options import DirectSolverOptions

    def seq(max_iter):
        def run(mk):
            tol = mk("tol", real=True)
            u0 = mk("u0", real=True)
            env = dict(u=[], r=[], d=[], goals=[], tol=tol, u0=u0, n=max_iter)

            def res(u, tp):
                env["goals"].append(z3.BoolVal(tp == "tp"))
                r = mk(f"r{len(env['r'])}", real=True)
                env["u"].append(u)
                env["r"].append(r)
                return r

            def jac(u, tp):
                env["goals"] += [u == env["u"][-1], z3.BoolVal(tp == "tp")]
                return ("J", len(env["r"]))

            def solve(J, b, *a, **k):
                env["goals"] += [z3.BoolVal(J == ("J", len(env["r"]))), b == -env["r"][-1]]
                d = mk(f"d{len(env['d'])}", real=True)
                env["d"].append(d)
                return d
            absv = lambda x: S.I(z3.If(S.ix(x) >= 0, S.ix(x), -S.ix(x)))
            fakenp = types.SimpleNamespace(linalg=types.SimpleNamespace(norm=absv), abs=absv)
            fakejax = types.SimpleNamespace(block_until_ready=lambda x: x)
            with patched((A, "create_res_bc_function", lambda p, b, **k: res), (A, "create_J_bc_csr_function", lambda p, b, **k: jac), (C, "create_linear_solve_fn", lambda *a, **k: solve),
                         (M, "np", fakenp), (M, "jax", fakejax), (M, "float", lambda x: x)):
                out = M.profile_solver_py("problem", "bc", "tp", u0, solver_options=DirectSolverOptions(solver="spsolve"), max_iter=max_iter, tol=tol)
            return out, env

        def post(v):
            (sol, prof), env = v
            absv = lambda x: z3.If(S.ix(x) >= 0, S.ix(x), -S.ix(x))
            g = list(env["goals"])
            u = env["u0"]
            for k, uk in enumerate(env["u"]):
                g.append(uk == u)
                if k < len(env["d"]):
                    u = u + env["d"][k]
            g.append(sol == u)
            n = len(env["r"])
            g.append(z3.BoolVal(len(prof.residual_norms) == n and n <= env["n"] and len(prof.iteration_times) == n))
            g += [S.ix(a) == absv(r) for a, r in zip(prof.residual_norms, env["r"])]
            for r in env["r"][:-1]:
                g.append(absv(r) >= S.ix(env["tol"]))
            last = absv(env["r"][-1]) < S.ix(env["tol"]) if n else z3.BoolVal(False)
            g.append(z3.BoolVal(bool(prof.converged)) == last)
            g.append(z3.Implies(z3.Not(last), z3.BoolVal(n == env["n"])))
            return [S.bx(x) for x in g]
        return S.prove(run, post)

    def rep(_m):
        real()
    for n in (0, 1, 2, 3, 5):
        ctx.valid(f"Newton profile of at most {n} iterations: every iterate, recorded norm and verdict, all residual maps, tangents and tolerances", lambda: seq(n), functions=[PR + "profile_solver_py"], replay=rep, private=False)

    def real():
        import feax as fe
        for k, (ele, ns) in enumerate((("QUAD4", (3, 2)), ("TRI3", (2, 2)), ("HEX8", (2, 1, 1)))):
            m = X.mesh(ele, ns)
            dim = len(ns)

            class P(fe.Problem):
                def get_tensor_map(self):
                    return lambda g, c: c * (1. + jnp.sum(g * g)) * g

                def get_mass_map(self):
                    return lambda u, x, c: -jnp.ones(1) * (1 + .3 * k)
            p = P(m, vec=1, dim=dim, ele_type=ele)
            bc = fe.DirichletBCConfig([fe.DirichletBCSpec(lambda x: x[0] < 1e-6, "all", .2)]).create_bc(p)
            tp = fe.TracedParams(volume_vars=(jnp.linspace(1, 2, p.num_cells),))
            u0 = jnp.zeros(p.num_total_dofs_all_vars)
            res = fe.create_res_bc_function(p, bc)
            for so in (None, fe.DirectSolverOptions(solver="spsolve"), fe.DirectSolverOptions(solver="cholmod")):
                for mi in (2, 20):
                    u, prof = fe.profile_solver_py(p, bc, tp, u0, solver_options=so, tol=1e-9, max_iter=mi)
                    nr = float(jnp.linalg.norm(res(u, tp)))
                    expect(prof.converged == (mi == 20), "verdict", mi=mi)
                    if prof.converged:
                        expect(nr < 1e-9, "a converged profile returns a solution", norm=nr)
                        expect_close(nr, prof.residual_norms[-1], "last recorded norm", atol=1e-12)
                    expect(len(prof.residual_norms) == len(prof.iteration_times) <= mi, "one record per iteration")
                    expect_close(prof.residual_norms[0], jnp.linalg.norm(res(u0, tp)), "first norm")
            # the tolerance is absolute: large and small residual scales
            for sc, tol in ((1e5, 1e-2), (1e5, 1.), (1e-4, 1e-9), (1., 1e-3)):
                tq = fe.TracedParams(volume_vars=(sc * jnp.linspace(1, 2, p.num_cells),))
                for mi in (1, 2, 3, 4, 6, 9, 25):
                    u, prof = fe.profile_solver_py(p, bc, tq, u0, solver_options=fe.DirectSolverOptions(solver="spsolve"), tol=tol, max_iter=mi)
                    h = prof.residual_norms
                    expect(bool(prof.converged) == (h[-1] < tol) and all(x >= tol for x in h[:-1]), "converged exactly when the last norm is below the tolerance", scale=sc, tol=tol, norms=h, verdict=prof.converged)
                    expect(prof.converged or len(h) == mi, "all iterations are used otherwise")
                    if prof.converged:
                        break
        return 18
    ctx.bounded("Newton profile on nonlinear problems agrees with the residual", real, functions=[PR + "profile_solver_py"])


# ---------------------------------------------------------------- timing, tracing, memory
def measure(ctx):
    import feax as fe
    from feax import profiler as M

    def timing():
        n = 0
        for runs, warm, lab in itertools.product((1, 2, 4), (0, 1, 3), (None, "x")):
            calls = []

            def f(a, b=0):
                calls.append((a, b))
                return jnp.asarray(a) * 2 + b + len(calls)
            out, r = fe.time_fn(f, 3., n_runs=runs, warmup=warm, label=lab, b=4)
            expect(calls == [(3., 4)] * (runs + warm), "called with the arguments, warmup + n_runs times", runs=runs, warm=warm, got=len(calls))
            expect_close(out, 10. + runs + warm, "the last run's result")
            base = lab or "f"
            expect([x.label for x in r.records] == ([base] if runs == 1 else [f"{base}[{i}]" for i in range(runs)]), "labels", got=[x.label for x in r.records])
            expect(all(x.wall_time_s >= 0 for x in r.records), "nonnegative times")
            expect_close(r.total_s, sum(x.wall_time_s for x in r.records), "total")
            s = r.summary()
            expect(all(x.label in s for x in r.records) and f"{r.total_s:.4f}" in s, "summary")
            n += 1
        with fe.profile("blk") as r:
            jnp.ones(3).sum()
        expect([x.label for x in r.records] == ["blk"] and r.records[0].wall_time_s >= 0, "one record per block")
        try:
            with fe.profile("err", block_until_ready=False) as r:
                raise KeyError("inside")
        except KeyError:
            expect([x.label for x in r.records] == ["err"], "recorded although the block failed")
        else:
            expect(False, "the block's exception is not swallowed")
        for E in (ValueError, ZeroDivisionError, ArithmeticError, FloatingPointError, RuntimeError, KeyboardInterrupt, StopIteration):
            for blk in (True, False):
                try:
                    with fe.profile("err", block_until_ready=blk) as r:
                        raise E("inside")
                except (E, RuntimeError):
                    pass
                else:
                    expect(False, "the block's exception is not swallowed", exception=E.__name__)

                def f():
                    raise E("inside")
                for g in (lambda: fe.time_fn(f), lambda: fe.time_fn(f, warmup=0), lambda: fe.profile_solver(f)):
                    try:
                        g()
                    except (E, RuntimeError):
                        continue
                    expect(False, "the timed function's exception is not swallowed", exception=E.__name__)
        expect(M.TimingResult().total_s == 0 and isinstance(M.TimingResult().summary(), str), "empty result")
        got = []
        out, p = fe.profile_solver(lambda *a: got.append(a) or jnp.asarray(sum(a)), 1., 2., 3., label="L")
        expect(got == [(1., 2., 3.)], "solver called once with its arguments")
        expect_close(out, 6., "the solver's result")
        expect(p.label == "L" and p.wall_time_s >= 0 and "L" in p.summary(), "profile")
        return n + 5
    ctx.bounded("timing tools return the timed function's result and one record per run", timing, functions=[PR + k for k in ("time_fn", "profile", "profile_solver", "TimingResult.summary", "TimingResult.total_s", "SolverProfile.summary")])

    def tracing():
        rng = np.random.RandomState(0)
        for k in range(6):
            A = jnp.asarray(rng.uniform(size=(3 + k, 4)))
            B = jnp.asarray(rng.uniform(size=4).astype(np.float32))
            fn = [lambda x: jnp.sin(A @ x) + jnp.sin(A[:, 0]), lambda x: x * B + x, lambda x: jax.lax.fori_loop(0, 3, lambda i, y: y * x, x), lambda x: (x, x + 1), lambda x: jax.jit(lambda y: y * 2)(x), lambda x: jnp.sum(x)][k]
            x = jnp.asarray(rng.uniform(size=4))
            info = fe.trace_jaxpr(fn, x)
            ref = jax.make_jaxpr(fn)(x)
            names = [e.primitive.name for e in ref.jaxpr.eqns]
            expect(info.num_eqns == len(names) == sum(info.primitives.values()), "equation count", k=k)
            expect(info.primitives == {n: names.count(n) for n in set(names)}, "primitive counts", k=k, got=info.primitives)
            expect([a.shape for a in info.input_avals] == [(4,)] and len(info.output_avals) == len(jax.tree_util.tree_leaves(fn(x))), "inputs and outputs", k=k)
            expect(info.static_bytes == sum(np.asarray(c).nbytes for c in ref.consts) and len(info.static_avals) == len(ref.consts), "captured constants", k=k, got=info.static_bytes)
            expect(info.full_jaxpr() == str(info.jaxpr) and str(info.num_eqns) in repr(info), "text")
            with tempfile.TemporaryDirectory() as d:
                info.save(os.path.join(d, "a", "b.txt"))
                expect(open(os.path.join(d, "a", "b.txt")).read() == info.full_jaxpr(), "saved text")
        keep = [jnp.zeros(1000 + i) for i in range(5)]
        b0 = fe.memory_snapshot()
        keep.append(jnp.zeros(5000))
        keep[-1].block_until_ready()
        b1 = fe.memory_snapshot()
        expect(len(b0) == len(jax.devices()) and b1[0].live_buffers >= 6 and b1[0].live_bytes - b0[0].live_bytes >= 5000 * 4 - 1000 and str(b1[0].live_buffers) in repr(b1[0]), "memory snapshot sees live arrays")
        for dt, nb in ((jnp.int8, 1), (jnp.float32, 4), (jnp.int16, 2), (bool, 1)):
            b0 = fe.memory_snapshot()
            keep.append(jnp.ones(1 << 20, dtype=dt))
            keep[-1].block_until_ready()
            b1 = fe.memory_snapshot()
            got = b1[0].live_bytes - b0[0].live_bytes
            expect(abs(got - nb * (1 << 20)) < 1 << 19, "memory snapshot counts the array's bytes", dtype=str(dt), got=got)
        ops = (jnp.sin, jnp.cos, jnp.tanh, jnp.exp, jnp.log, jnp.sqrt, jnp.floor, jnp.ceil)

        def several(x, m=8):
            for i, f in enumerate(ops[:m]):
                for _ in range(i + 1):
                    x = f(x)
            return x
        for m in (1, 2, 5, 8):
            info = fe.trace_jaxpr(lambda x: several(x, m), jnp.ones(2))
            expect(all(k in repr(info) for k in info.primitives), "the report names the operations", got=repr(info))
        h = fe.get_hlo(lambda x: x * 2., jnp.ones(3))
        expect("HloModule" in h, "HLO text")
        for v, u, want in ((5e9, "F", "5.00 GF"), (2.5e6, "B", "2.50 MB"), (1e3, "B", "1.00 KB"), (999., "B", "999.00 B"), (0., "B", "0.00 B"), (-1., "B", "N/A")):
            if hasattr(M, "_si"):
                expect(M._si(v, u) == want, "SI formatting", value=v, got=M._si(v, u))
        txt = fe.format_cost_analysis(lambda a, b: a @ b, jnp.ones((8, 8)), jnp.ones((8, 8)), label="mm")
        raw = fe.get_cost_analysis(lambda a, b: a @ b, jnp.ones((8, 8)), jnp.ones((8, 8)))
        raw = raw[0] if isinstance(raw, (list, tuple)) else raw
        expect("mm" in txt and (("flops" not in raw) or f"{raw['flops'] / 1e3:.2f} K" in txt), "cost text", txt=txt)
        return 6
    ctx.bounded("tracing, memory and cost reports describe the given function", tracing, functions=[PR + k for k in ("trace_jaxpr", "_count_primitives", "JaxprInfo.save", "memory_snapshot", "get_hlo", "get_cost_analysis", "format_cost_analysis", "_format_cost_dict", "_si")])


# ---------------------------------------------------------------- switches
ON, OFF = ("1", "true", "TRUE", " yes ", "On"), ("0", "false", "no", "OFF", "")


def switches(ctx):
    import feax as fe

    def env(**kw):
        e = {k: v for k, v in os.environ.items() if k not in ("FEAX_X64", "FEAX_PREALLOCATE", "FEAX_CONSTANT_FOLDING", "XLA_FLAGS", "XLA_PYTHON_CLIENT_PREALLOCATE", "JAX_ENABLE_X64")}
        e.update(kw, JAX_PLATFORMS="cpu")
        return e

    def probe(e):
        """a fresh interpreter: what import feax leaves behind"""
        src = "import os, sys\nimport feax as fe, jax.numpy as jnp, json\nprint('@@' + json.dumps([os.environ.get('XLA_FLAGS', ''), os.environ.get('XLA_PYTHON_CLIENT_PREALLOCATE'), fe.x64_enabled(), fe.preallocate_enabled(), str(jnp.zeros(1).dtype)]))"
        import json
        p = subprocess.run([sys.executable, "-c", src], env=e, capture_output=True, text=True, timeout=300)
        l = [x for x in p.stdout.splitlines() if x.startswith("@@")]
        expect(l, "import feax succeeds", rc=p.returncode, err=p.stderr[-300:])
        return json.loads(l[0][2:])
    cases = []
    D = "--xla_disable_hlo_passes="
    cases += [(env(), [D + "constant_folding"], "false", True),
              (env(FEAX_X64="0", FEAX_PREALLOCATE="1"), [D + "constant_folding"], "true", False),
              (env(FEAX_X64=" False ", FEAX_PREALLOCATE="1", XLA_PYTHON_CLIENT_PREALLOCATE="false"), [D + "constant_folding"], "false", False),
              (env(FEAX_CONSTANT_FOLDING="1", FEAX_X64="1", XLA_PYTHON_CLIENT_PREALLOCATE="true"), [], "true", True),
              (env(XLA_FLAGS="--xla_force_host_platform_device_count=2"), ["--xla_force_host_platform_device_count=2", D + "constant_folding"], "false", True),
              (env(XLA_FLAGS="--xla_force_host_platform_device_count=2 " + D + "algsimp,dce --xla_cpu_enable_fast_math=false"), ["--xla_force_host_platform_device_count=2", D + "algsimp,dce,constant_folding", "--xla_cpu_enable_fast_math=false"], "false", True),
              (env(XLA_FLAGS=D + "constant_folding,dce"), [D + "constant_folding,dce"], "false", True)]

    def fresh(e, flags, pre, x64):
        def f():
            fl, p, x, pe, dt = probe(e)
            norm = lambda t: (t.split("=")[0], frozenset(t.split("=", 1)[1].split(","))) if "=" in t else (t, None)
            expect(sorted(map(str, map(norm, fl.split()))) == sorted(map(str, map(norm, flags))), "XLA flags: the user's are kept, constant folding disabled once unless asked for", got=fl)
            expect(p == pre and pe == (pre == "true"), "memory preallocation", got=p)
            expect(x is x64 and dt == ("float64" if x64 else "float32"), "precision", got=[x, dt])
            return 1
        return f
    for i, (e, fl, p, x) in enumerate(cases):
        kw = {k: v for k, v in e.items() if k.startswith(("FEAX", "XLA"))}
        ctx.bounded(f"import feax in a fresh interpreter with {kw}", fresh(e, fl, p, x), functions=[IN + "x64_enabled", IN + "preallocate_enabled", IN + "_keep_constant_folding_env"])

    def values():
        n = 0
        for name, fn, dflt, off_strings in (("FEAX_X64", "_resolve_x64_env", True, True), ("FEAX_PREALLOCATE", "_resolve_preallocate_env", False, False), ("FEAX_CONSTANT_FOLDING", "_keep_constant_folding_env", False, False)):
            f = getattr(fe, fn, None)
            if f is None:
                continue
            old = os.environ.pop(name, None)
            try:
                expect(f() is dflt, "default", switch=name)
                for v in ON + OFF:
                    os.environ[name] = v
                    expect(f() is (v in ON), "switch value", switch=name, value=v)
                    n += 1
            finally:
                os.environ.pop(name, None)
                if old is not None:
                    os.environ[name] = old
        was, wp = fe.x64_enabled(), os.environ.get("XLA_PYTHON_CLIENT_PREALLOCATE")
        try:
            for b in (False, True, False, True):
                fe.enable_x64(b)
                expect(fe.x64_enabled() is b and jnp.zeros(1).dtype == (jnp.float64 if b else jnp.float32), "enable_x64")
                fe.enable_preallocate(b)
                expect(fe.preallocate_enabled() is b and os.environ["XLA_PYTHON_CLIENT_PREALLOCATE"] == ("true" if b else "false"), "enable_preallocate")
            fe.enable_x64(False)
            fe.enable_x64()
            fe.enable_preallocate()
            expect(fe.x64_enabled() and fe.preallocate_enabled(), "both default to on")
        finally:
            fe.enable_x64(was)
            os.environ.pop("XLA_PYTHON_CLIENT_PREALLOCATE", None)
            if wp is not None:
                os.environ["XLA_PYTHON_CLIENT_PREALLOCATE"] = wp
        expect(fe.asd.__name__ == "feax.asd", "lazy submodule")
        expect_raises(lambda: fe.no_such_name, "unknown attribute", AttributeError)
        return n
    ctx.bounded("switch spellings and setters", values, functions=[IN + k for k in ("enable_x64", "x64_enabled", "enable_preallocate", "preallocate_enabled", "_resolve_x64_env", "_resolve_preallocate_env", "_keep_constant_folding_env", "__getattr__")])


# ---------------------------------------------------------------- launcher
def launch(ctx):
    from feax import distributed as Dm

    def go(cfg, args, rc):
        """run the launcher with recording stand-ins for ssh and the local interpreter"""
        import yaml
        log = []
        d = tempfile.mkdtemp(prefix="c22-")
        script = os.path.join(d, "s.py")
        open(script, "w").write("print('hello')\n")
        conf = os.path.join(d, "c.yml")
        yaml.safe_dump(cfg, open(conf, "w"))

        class Proc:
            returncode = 0

            def __init__(self, cmd, *a, **k):
                log.append(("popen", cmd, k, k["stdin"].read() if hasattr(k.get("stdin"), "read") else k.get("input")))

            def wait(self, *a, **k):
                log.append(("wait",))
                return 0

            def poll(self):
                return 0

            def communicate(self, *a, **k):
                log.append(("wait",))
                return (b"", b"")

        def runc(cmd, *a, **k):
            log.append(("run", cmd, k))
            return types.SimpleNamespace(returncode=rc)
        fake = types.SimpleNamespace(Popen=Proc, run=runc, PIPE=-1, STDOUT=-2, DEVNULL=-3)
        old = sys.argv
        try:
            with patched((Dm, "subprocess", fake)):
                sys.argv = ["feax.distributed", "--config", conf, script] + list(args)
                try:
                    Dm.main()
                    code = 0
                except SystemExit as e:
                    code = e.code or 0
        finally:
            sys.argv = old
            os.remove(script)
            os.remove(conf)
            os.rmdir(d)
        return log, code, script

    def env_of(words):
        """-e K=V of a docker exec command"""
        return {words[i + 1].split("=", 1)[0]: words[i + 1].split("=", 1)[1] for i, w in enumerate(words) if w == "-e"}

    def cluster():
        import shlex
        n = 0
        for nn, port, args, rc in itertools.product((0, 1, 3, 4), (None, 1234, 4711), ((), ("a b", "3", "$x;y")), (0, 3)):
            nodes = [dict(host=f"10.0.0.{i if nn < 4 else (9, 1, 1, 2)[i - 1]}", **(dict(ssh_key="/k" + str(i)) if i % 2 else {}), **(dict(container="box" + str(i)) if i > 1 else {})) for i in range(1, nn + 1)]
            cfg = dict(coordinator="10.0.0.9", nodes=nodes)
            if port:
                cfg["port"] = port
            log, code, script = go(cfg, args, rc)
            info = dict(nodes=nn, port=port, args=args)
            runs = [l for l in log if l[0] == "run"]
            pops = [l for l in log if l[0] == "popen"]
            expect(len(runs) == 1 and len(pops) == nn and sum(l[0] == "wait" for l in log) == nn, "one local process, one per node, all waited for", **info)
            expect(code == rc, "the coordinator's exit status", got=code, **info)
            envs = [runs[0][2]["env"]]
            expect(list(runs[0][1])[1:] == [script] + list(args), "local script and arguments", cmd=runs[0][1], **info)
            for nd, (_, cmd, k, text) in zip(nodes, pops):
                expect(cmd[0] == "ssh" and any(nd["host"] in w for w in cmd[:-1]), "ssh to the node", cmd=cmd)
                expect(("ssh_key" in nd) == ("-i" in cmd) and ("ssh_key" not in nd or cmd[cmd.index("-i") + 1] == nd["ssh_key"]), "ssh key", cmd=cmd)
                expect(text == "print('hello')\n", "the node receives the script", got=text)
                w = shlex.split(cmd[-1])       # what the node's shell makes of the command line
                expect(w[:2] == ["docker", "exec"], "container command", cmd=cmd)
                c = nd.get("container", "feax")
                expect(c in w and w[w.index(c) + 1] == "python3", "the node's container", cmd=cmd)
                rest = w[w.index(c) + 2:]
                expect(rest == ["-"] + list(args), "the node's script gets the same arguments", got=rest, **info)
                envs.append(env_of(w))
            seen = []
            for e in envs:
                calls = []
                fj = types.SimpleNamespace(distributed=types.SimpleNamespace(initialize=lambda *a, **k: calls.append((a, k))))
                old = {k: os.environ.pop(k, None) for k in ("JAX_COORD_ADDR", "JAX_COORD_PORT", "JAX_NUM_PROCESSES", "JAX_PROCESS_ID")}
                try:
                    os.environ.update({k: e[k] for k in old if k in e})
                    with patched((Dm, "jax", fj)):
                        expect(Dm.initialize() is True, "distributed mode")
                finally:
                    for k, v in old.items():
                        os.environ.pop(k, None)
                        if v is not None:
                            os.environ[k] = v
                expect(len(calls) == 1, "initialised once")
                k = calls[0][1]
                expect(k["coordinator_address"] == f"10.0.0.9:{port or 1234}", "every process connects to the configured coordinator and port", got=k["coordinator_address"], **info)
                expect(k["num_processes"] == nn + 1, "number of processes", **info)
                seen.append(k["process_id"])
            expect(seen == list(range(nn + 1)), "distinct process ids, the coordinator is 0", got=seen, **info)
            n += 1
        return n
    ctx.bounded("launcher and initialisation agree on coordinator, port, ranks, script and arguments", cluster, functions=[DI + k for k in ("_launch", "main", "_load_config", "initialize")])

    def single():
        old = os.environ.pop("JAX_COORD_ADDR", None)
        try:
            fj = types.SimpleNamespace(distributed=types.SimpleNamespace(initialize=lambda *a, **k: expect(False, "no distributed runtime in single-node mode")))
            with patched((Dm, "jax", fj)):
                expect(Dm.initialize() is False, "single-node mode")
        finally:
            if old is not None:
                os.environ["JAX_COORD_ADDR"] = old

        def boom():
            raise RuntimeError("not initialised")
        with patched((Dm, "jax", types.SimpleNamespace(distributed=types.SimpleNamespace(shutdown=boom)))):
            Dm.finalize()
        hit = []
        with patched((Dm, "jax", types.SimpleNamespace(distributed=types.SimpleNamespace(shutdown=lambda: hit.append(1))))):
            Dm.finalize()
        expect(hit == [1], "shutdown called")
        expect(Dm.is_coordinator() is True, "the only process is the coordinator")
        for i in (0, 1, 3):
            with patched((Dm, "jax", types.SimpleNamespace(process_index=lambda: i))):
                expect(Dm.is_coordinator() is (i == 0), "coordinator is process 0", i=i)
        r = np.random.RandomState(0)
        t = dict(a=r.uniform(size=(4, 3)), b=(jnp.asarray(r.uniform(size=2)), r.uniform(size=())))
        g = Dm.gather(t)
        expect(jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(t), "same tree")
        for x, y in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(t)):
            expect_close(np.asarray(x), np.asarray(y)[None], "one leading entry per process")
        import jax.experimental.multihost_utils as mu
        seen = []
        with patched((mu, "process_allgather", lambda x, tiled=False: (seen.append(tiled), "R")[1])):
            expect(Dm.gather("d") == "R" and seen == [False], "stacked, not concatenated")
        return 8
    ctx.bounded("single-process behaviour", single, functions=[DI + k for k in ("initialize", "finalize", "gather", "is_coordinator")])


GROUPS = [newton, measure, switches, launch]
