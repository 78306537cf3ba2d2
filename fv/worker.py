import importlib
import os
import sys
import time
import traceback


def main():
    prop, group, tier, seed, out = sys.argv[1:6]
    import fv  # noqa
    import jax
    jax.config.update("jax_enable_x64", True)
    from fv.contract import Ctx
    mod = importlib.import_module(f"fv.props.{prop.lower()}")
    ctx = Ctx(prop, tier, int(seed), out)
    ctx.group = group
    t0 = time.time()
    try:
        dict((g.__name__, g) for g in mod.GROUPS)[group](ctx)
    except Exception as e:
        from fv.contract import real_code_failed
        real = real_code_failed(e.__traceback__) and not isinstance(e, (ImportError, AttributeError, MemoryError))
        ctx.emit(name=f"{group}", status="violated" if real else "undecided",
                 why=("real code raised " if real else "") + f"{type(e).__name__}: {str(e)[:400]}",
                 tb=traceback.format_exc()[-2500:], functions=[], t=time.time() - t0, replayed=real)
    from fv import ring
    ctx.emit(name="__stats__", status="stats", z3_calls=ring.Stats.z3_calls, z3_time=ring.Stats.z3_time,
             splits=ring.Stats.splits, wall=time.time() - t0)
    sys.stdout.flush()
    os._exit(0)


main()
