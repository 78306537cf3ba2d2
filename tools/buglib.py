"""Writes /verif/seeded/<id>/ from textual replacements (against /repo HEAD)."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import warnings; warnings.filterwarnings("ignore")
import numpy as np
import jax, jax.numpy as jnp
jax.config.update("jax_enable_x64", True)
import feax as fe
def close(a, b, msg, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * max(1.0, np.abs(b).max() if b.size else 1.0)):
        print("FAIL:", msg, "\\n", a, "\\n", b); sys.exit(1)
def check(c, msg):
    if not c:
        print("FAIL:", msg); sys.exit(1)
'''


def bug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "ANCHOR", s.count(old), repr(old[:60])); return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n") + '\nprint("ok")\n')
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
