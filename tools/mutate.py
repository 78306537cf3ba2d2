"""Random mutants of /repo/feax run against the checks whose contracts name the mutated file (bind-mounted private copies).
usage: mutate.py OUT.jsonl N SEED WORKERS [file-substring ...]"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
NAMES = {"maximum": "minimum", "minimum": "maximum", "sum": "mean", "mean": "sum", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min",
         "sin": "cos", "cos": "sin", "logical_and": "logical_or", "logical_or": "logical_and", "floor": "ceil", "ceil": "floor", "triu": "tril", "repeat": "tile", "tile": "repeat", "zeros": "ones", "ones": "zeros",
         "zeros_like": "ones_like", "append": "extend", "set": "add", "add": "set", "vstack": "hstack", "real": "imag", "unique": "asarray", "sqrt": "square"}


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(fn, node, new, kind):
        s, e = pos(node)
        out.append((fn, node.lineno, s, e, b[s:e].decode(), new, kind))

    def between(l, r, olds, fn, node, kind):
        s, e = pos(l)[1], pos(r)[0]
        t = b[s:e].decode()
        for o in olds:
            if o in t:
                k = t.index(o)
                out.append((fn, node.lineno, s + len(t[:k].encode()), s + len(t[:k + len(o)].encode()), o, SWAP[o], kind))
                return

    def visit(n, fn, skip=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            name = (fn + "." if fn else "") + n.name
            if n.name in ("__repr__", "__str__"):
                return
            for d in n.body:
                if not (isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant)):
                    visit(d, name)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d, name)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(n, ast.If) and all(isinstance(x, ast.Raise) for x in n.body) and not n.orelse:
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, fn)
            return
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("print", "warn", "debug", "info", "TypeVar", "callback", "log"):
                return
            if isinstance(f, ast.Attribute) and nm in NAMES and fn:
                s, e = pos(f)
                out.append((fn, n.lineno, e - len(nm), e, nm, NAMES[nm], "call"))
            if len(n.args) >= 2 and fn and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                s0, e0 = pos(a0)
                s1, e1 = pos(a1)
                t0, t1 = b[s0:e0].decode(), b[s1:e1].decode()
                if t0 != t1:
                    out.append((fn, n.lineno, s0, e1, b[s0:e1].decode(), t1 + b[e0:s1].decode() + t0, "argswap"))
        if fn:
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
                if not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or not isinstance(getattr(n.left, "value", 0), str):
                    between(n.left, n.right, [o], fn, n, "binop")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}.get(type(n.ops[0]))
                if o:
                    between(n.left, n.comparators[0], [o], fn, n, "cmp")
            if isinstance(n, ast.Constant) and not skip:
                if n.value is True or n.value is False:
                    add(fn, n, str(not n.value), "bool")
                elif isinstance(n.value, int):
                    add(fn, n, str(n.value + random.choice([1, -1])) if n.value else "1", "int")
                elif isinstance(n.value, float) and n.value:
                    add(fn, n, repr(n.value * 2), "float")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(fn, n, "(" + b[slice(*pos(n.operand))].decode() + ")", "neg")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(fn, n, "(" + b[slice(*pos(n.operand))].decode() + ")", "not")
            if isinstance(n, ast.BoolOp):
                s, e = pos(n.values[0])[1], pos(n.values[1])[0]
                t = b[s:e].decode()
                o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if o in t:
                    k = t.index(o)
                    out.append((fn, n.lineno, s + k, s + k + len(o), o, w, "boolop"))
            if isinstance(n, ast.Attribute) and n.attr == "T":
                add(fn, n, "(" + b[slice(*pos(n.value))].decode() + ")", "transpose")
            if isinstance(n, ast.AugAssign):
                add(fn, n, "pass", "drop")
            if isinstance(n, ast.IfExp):
                add(fn, n, "(" + b[slice(*pos(n.orelse))].decode() + " if " + b[slice(*pos(n.test))].decode() + " else " + b[slice(*pos(n.body))].decode() + ")", "ifexp")
            if isinstance(n, ast.If):
                add(fn, n.test, "not (" + b[slice(*pos(n.test))].decode() + ")", "ifneg")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit_mod = tree.body
    for n in visit_mod:
        visit(n, "")
    return out


def file_props():
    m = {}
    for f in glob.glob(os.path.join(ROOT, "evidence", "C*.json")):
        d = json.load(open(f))
        for x in d["coverage"].get("functions_under_contract", []) + d["coverage"].get("functions_bounded_only", []):
            m.setdefault(x.split(":")[0], {}).setdefault(d["property"], set()).add(x.split(":")[1] if ":" in x else "")
    return m


def props_for(fp, path, fn):
    c = fp.get(path, {})
    last = fn.split(".")
    hit = [p for p, fs in c.items() if any(set(last) & set(f.split(".")) for f in fs)]
    return sorted(hit) + sorted(p for p in c if p not in hit)


def run(job):
    i, path, site, props = job
    fn, line, s, e, old, new, kind = site
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(w + "/verif")
        for x in ("fv", "check.sh", "known_findings.jsonl"):
            subprocess.call(["cp", "-a", os.path.join(ROOT, x), w + "/verif/"])
        p = os.path.join(w, "repo", path)
        b = open(p, "rb").read()
        open(p, "wb").write(b[:s] + new.encode() + b[e:])
        res = {"i": i, "file": path, "fn": fn, "line": line, "old": old, "new": new, "kind": kind, "checks": {}}
        sh = f"mount --bind {w}/repo /repo; mount --bind {w}/verif /verif; cd /verif; "
        r = subprocess.run(["unshare", "-m", "bash", "-c", sh + "/opt/venv/bin/python -c 'import feax, feax.gene, feax.flat, feax.mechanics'"], capture_output=True, text=True)
        if r.returncode:
            res["result"] = "import"
            return res
        for q in props:
            r = subprocess.run(["unshare", "-m", "bash", "-c", sh + f"FV_FAILFAST=1 VERIF_SEED=1 timeout 600 ./check.sh {q} quick"], capture_output=True, text=True)
            v = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "obligation failed" in l]
            res["checks"][q] = [r.returncode, (v or (r.stdout + r.stderr).splitlines()[-1:])[0][:200]]
            if r.returncode == 1:
                res["result"] = "caught"
                return res
        res["result"] = "survived"
        t = subprocess.run(["unshare", "-m", "bash", "-c", sh + f"cd /repo; bash /opt/vp/test.sh {w}/o.json"], capture_output=True, text=True)
        try:
            o = json.load(open(w + "/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            miss = [x for x in base["stable"] if x not in set(o["passed"])]
            res["tests"] = "pass" if not miss else f"fail {len(miss)}"
        except Exception as ex:
            res["tests"] = str(ex)
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    subs = sys.argv[5:]
    random.seed(seed)
    fp = file_props()
    pool = []
    for path in sorted(fp):
        if subs and not any(x in path for x in subs):
            continue
        full = os.path.join("/repo", path)
        if not os.path.exists(full):
            continue
        st = sites(full)
        random.shuffle(st)
        pool.append((path, st))
    jobs = []
    while len(jobs) < n and pool:
        path, st = random.choices(pool, weights=[max(1, len(s)) ** .7 for _, s in pool])[0]
        if not st:
            pool = [q for q in pool if q[1]]
            continue
        site = st.pop()
        jobs.append((len(jobs), path, site, props_for(fp, path, site[0])[:3]))
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
        for r in ex.map(run, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
