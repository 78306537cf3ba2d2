"""check entry point: python -m fv.runner <property> [--tier quick|thorough] [--group g]"""
import ast
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def groups_of(prop):
    src = open(os.path.join(HERE, "fv", "props", prop.lower() + ".py")).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "GROUPS":
            return [e.id for e in n.value.elts]
    raise SystemExit("no GROUPS")


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in a
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--group" in a:
        only = a[a.index("--group") + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 780 if tier == "quick" else 6 * 3600
    env = dict(os.environ)
    for k in ("PYTHONPATH", "VERIF_TIER"):
        env.pop(k, None)
    env.update(PYTHONPATH=HERE, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    groups = [g for g in groups_of(prop) if only is None or g in only]
    tmp = tempfile.mkdtemp(prefix="fv_")
    env["TMPDIR"] = tmp
    procs, queue, results, errs = {}, list(groups), [], []
    nworkers = int(os.environ.get("FV_WORKERS", "8"))
    fast = os.environ.get("FV_FAILFAST") == "1"
    while queue or procs:
        while queue and len(procs) < nworkers:
            g = queue.pop(0)
            out = os.path.join(tmp, g + ".jsonl")
            log = open(os.path.join(tmp, g + ".log"), "wb")
            p = subprocess.Popen([PY, "-m", "fv.worker", prop, g, tier, str(seed), out], cwd=tmp, env=env,
                                 stdout=log, stderr=subprocess.STDOUT)
            procs[g] = (p, out, time.time())
        time.sleep(0.05)
        for g, (p, out, ts) in list(procs.items()):
            rc = p.poll()
            if rc is None and time.time() - t0 < limit:
                continue
            if rc is None:
                p.kill()
                p.wait()
                errs.append(f"{g}: time limit")
            elif rc != 0:
                errs.append(f"{g}: worker exit {rc}: " + open(os.path.join(tmp, g + ".log"), errors="replace").read()[-800:])
            if os.path.exists(out):
                results += [json.loads(l) for l in open(out)]
            elif rc == 0:
                errs.append(f"{g}: no results")
            del procs[g]
        if fast and any(os.path.exists(o) and '"violated"' in open(o).read() for _, o, _ in procs.values()):
            queue.clear()       # mutation campaigns: the first violation settles it
            for p, out, _ in procs.values():
                p.kill()
                p.wait()
                for l in open(out) if os.path.exists(out) else ():
                    if l.endswith("\n"):
                        results.append(json.loads(l))
            procs.clear()
    logs = {}
    subprocess.run(["rm", "-rf", tmp])
    stats = [r for r in results if r["status"] == "stats"]
    results = [r for r in results if r["status"] != "stats"]
    viol = [r for r in results if r["status"] == "violated"]
    proved = [r for r in results if r["status"] == "proved"]
    bnd = [r for r in results if r["status"] == "bounded"]
    held = [r for r in results if r["status"] == "bounded-held"]
    und = [r for r in results if r["status"] == "undecided"]
    kf = known_findings()
    new, known = [], []
    for v in viol:
        hit = [k for k in kf if k["property"] == prop and k["status"] == "known" and k["obligation"] == v["name"]]
        (known if hit else new).append((v, hit[0] if hit else None))
    for k in sorted({h["what"] for _, h in known}):
        print(f"KNOWN-FINDING: property={prop} {k}")
    lines = []
    rdir = os.path.join(HERE, "evidence", "replays")
    for v, _ in new:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(v["name"].encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{h}.json")
        v = dict(v, property=prop, seed=seed, tier=tier,
                 replay_cmd=f"cd {HERE} && VERIF_SEED={seed} {PY} -m fv.runner {prop} --tier {tier} --group {v['group']}")
        json.dump(v, open(path, "w"), indent=1)
        print(f"obligation failed: {v['name']}: {v['why'][:300]}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if v.get("replayed") else " no-failing-input-found"))
    nobl = sum(r.get("obligations", 0) for r in proved) + len(bnd)
    ndis = sum(r.get("discharged", 0) for r in proved)
    funcs = sorted({f for r in proved for f in r["functions"]})
    bfuncs = sorted({f for r in bnd + held for f in r["functions"]} - set(funcs))
    meta = {}
    try:
        sys.path.insert(0, HERE)
        meta = json.load(open(os.path.join(HERE, "fv", "props", "meta.json"))).get(prop, {})
    except Exception:
        pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "proof"),
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "contracts_proved": len(proved), "contracts_bounded_fallback": len(bnd),
            "bounded_standins_held": len(held), "evaluations": sum(r.get("samples", 1) for r in held + bnd),
            "checker_cmd": f"cd {HERE} && {PY} -m fv.runner {prop} --tier {tier}",
            "back_ends": "ring normal form over the reals (fv/ring.py); z3 for path conditions and integer obligations",
            "z3_calls": sum(s["z3_calls"] for s in stats), "solver_s": round(sum(s["z3_time"] for s in stats), 3),
            "functions_under_contract": funcs, "functions_bounded_only": bfuncs,
            "trusted_base": meta.get("trusted", []) + [
                "fv/ring.py, fv/interp.py (VC generation and ring decision)", "jax.make_jaxpr (front end)", "z3"],
            "proved": [f"{r['name']} [{r['obligations']} obl, {r['why']}]" for r in proved],
            "bounded_fallback": [f"{r['name']}: {r['why'][:160]}" for r in bnd],
            "bounded_standins": [f"{r['name']} ({r.get('samples')} cases) {r.get('bound', '')}" for r in held],
            "undecided": [f"{r['name']}: {r['why'][:200]}" for r in und] + errs,
            "known_findings": [v["name"] for v, _ in known],
        },
        "assumptions": meta.get("assumptions", []) + [
            "machine arithmetic treated as real arithmetic (coefficients compared to 1e-9 relative)",
            "shapes/connectivities are the enumerated ones unless the contract is stated over symbolic sizes"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    if verbose:
        for r in sorted(results, key=lambda r: -r.get("t", 0)):
            print(f"  {r['status']:12s} {r.get('t', 0):7.2f}s {r['group']}:{r['name']}  {r.get('why', '')[:200]}")
            if r["status"] == "undecided" and r.get("tb"):
                print(r["tb"][-900:])
    for e in errs:
        print("worker:", e)
    print(f"{prop} {tier}: {ndis}/{nobl} obligations discharged in {len(proved)} contracts, {len(bnd)} bounded fallbacks, "
          f"{len(held)} bounded stand-ins held, {len(und)} undecided, {len(new)} violations, {ev['wall_s']} s")
    for l in sorted(set(lines)):
        print(l)
    if new:
        sys.exit(1)
    if ndis + len(bnd) + len(held) == 0:
        print("vacuous run: nothing was decided")
        sys.exit(3)
    sys.exit(0)


main()
