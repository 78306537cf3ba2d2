import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from buglib import bug
bug("c22-flags", "C22", [("feax/__init__.py", '                      + "--xla_disable_hlo_passes=" + ",".join(_passes)\n                      + _flags[_m.end():])', '                      + "--xla_disable_hlo_passes=" + ",".join(_passes))')],
    "XLA_FLAGS with a list of disabled passes followed by another flag", "the user's flags after the list of disabled passes are dropped at import",
    '''
import subprocess
def flags(x):
    env = {k: v for k, v in os.environ.items() if k not in ("XLA_FLAGS", "FEAX_CONSTANT_FOLDING")}
    env["XLA_FLAGS"] = x
    return subprocess.run([sys.executable, "-c", "import feax, os; print(os.environ['XLA_FLAGS'])"], env=env, capture_output=True, text=True, check=True).stdout.split()
got = flags("--xla_disable_hlo_passes=algsimp --xla_cpu_enable_fast_math=false")
check("--xla_cpu_enable_fast_math=false" in got, f"the user's other flag is kept: {got}")
check(set(got[0].split("=")[1].split(",")) == {"algsimp", "constant_folding"}, f"both passes: {got}")
''')
bug("c22-rank", "C22", [("feax/distributed/__init__.py", "    num_processes = 1 + len(nodes)\n", "    num_processes = 1 + len({node[\"host\"] for node in nodes})\n")],
    "a cluster configuration with two worker processes on one host", "the processes wait for fewer ranks than are started",
    '''
import tempfile, subprocess
from feax import distributed as D
calls = []
class R:
    returncode = 0
    def wait(self): return 0
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "c.yml"), "w").write("coordinator: 10.0.0.1\\nnodes:\\n- host: a\\n  container: x\\n- host: a\\n  container: y\\n")
    open(os.path.join(d, "s.py"), "w").write("pass\\n")
    subprocess.Popen = lambda c, **k: calls.append(c) or R()
    subprocess.run = lambda c, env=None, **k: calls.append(env) or R()
    try: D._launch(os.path.join(d, "c.yml"), os.path.join(d, "s.py"), [])
    except SystemExit: pass
check(calls[-1]["JAX_NUM_PROCESSES"] == str(len(calls)), "every started process is counted")
check(all(f"JAX_NUM_PROCESSES={len(calls)}" in c[-1] for c in calls[:-1]), "workers know the count")
''')
