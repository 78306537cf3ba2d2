"""Behaviour-preserving rewrites of every function of /repo/feax, to confirm that the checks stay quiet.

usage: refactor.py MODE...   rewrites /repo's working tree in place (run it in a private bind mount; see refrun.sh)
MODE: invert  if a: X else: Y           ->  if not a: Y else: X
      temps   return expr               ->  _r = expr; return _r     and   x = f(g(y)) -> _t = g(y); x = f(_t)
      helper  body of a function        ->  moved to a nested helper called by the function (no generators, no nonlocal)
      forwhile for i in range(..)       ->  while loop over an explicit iterator
      augment a += b (names)            ->  a = a + b is NOT equivalent for arrays aliasing; skipped
      comp    [f(x) for x in y]         ->  list(map(lambda x: f(x), y))   (single generator, no ifs, not in class bodies)
      rename  local variables           ->  name_
"""
import ast, os, sys

ROOT = os.environ.get("REFACTOR_ROOT", "/repo/feax")


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Temps(ast.NodeTransformer):
    k = 0

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        Temps.k += 1
        v = f"_r{Temps.k}"
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_Assign(self, n):
        c = n.value
        if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], (ast.Call, ast.BinOp)) and isinstance(c.func, (ast.Name, ast.Attribute)) and len(c.args) == 1 and not c.keywords:
            f = c.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name) and not any(isinstance(m, (ast.NamedExpr, ast.Await, ast.Yield)) for m in ast.walk(c)):
                Temps.k += 1
                v = f"_t{Temps.k}"
                out = ast.Assign([ast.Name(v, ast.Store())], c.args[0])
                c.args[0] = ast.Name(v, ast.Load())
                return [out, n]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class Helper(ast.NodeTransformer):
    depth = 0

    def visit_FunctionDef(self, n):
        if Helper.depth:
            return n
        bad = (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.Await)
        if any(isinstance(m, bad) for m in ast.walk(n)):
            return n
        if any(isinstance(m, ast.Name) and m.id in ("super", "locals", "__class__") for m in ast.walk(n)):
            return n
        if any("abstract" in ast.unparse(d) or "overload" in ast.unparse(d) for d in n.decorator_list):
            return n
        doc, body = [], n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if len(body) < 3:
            return n
        a = n.args
        if a.vararg or a.kwarg:
            return n
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        # split: the tail goes to a nested helper that receives the parameters unchanged
        h = ast.FunctionDef(name="_impl", args=ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body=body, decorator_list=[], returns=None, type_params=[])
        n.body = doc + [h, ast.Return(ast.Call(ast.Name("_impl", ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
        return n


class ForWhile(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range") or n.orelse:
            return n
        if not isinstance(n.target, ast.Name):
            return n
        if len(it.args) == 3:
            return n
        ForWhile.k += 1
        e, c = f"_end{ForWhile.k}", f"_i{ForWhile.k}"
        lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
        hi = it.args[-1]
        src = [ast.Assign([ast.Name(c, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi)]
        body = [ast.Assign([n.target], ast.Name(c, ast.Load())), ast.Assign([ast.Name(c, ast.Store())], ast.BinOp(ast.Name(c, ast.Load()), ast.Add(), ast.Constant(1)))]
        w = ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), body + n.body, [])
        return src + [w]


class Comp(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            if any(isinstance(m, (ast.NamedExpr, ast.Await, ast.Yield)) for m in ast.walk(n)):
                return n
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
            return ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [lam, g.iter], [])], [])
        return n


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        inner = [m for m in ast.walk(n) if m is not n and isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom, ast.AsyncFunctionDef))]
        ps = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        for v in (n.args.vararg, n.args.kwarg):
            if v:
                ps.add(v.arg)
        skip = set(ps)
        for m in inner:
            for q in ast.walk(m):
                if isinstance(q, ast.Name):
                    skip.add(q.id)
                if isinstance(q, (ast.FunctionDef, ast.ClassDef)):
                    skip.add(q.name)
                if isinstance(q, ast.alias):
                    skip.add((q.asname or q.name).split(".")[0])
                if isinstance(q, (ast.Nonlocal, ast.Global)):
                    skip |= set(q.names)
        if any(isinstance(m, ast.ExceptHandler) and m.name for m in ast.walk(n)):
            skip |= {m.name for m in ast.walk(n) if isinstance(m, ast.ExceptHandler) and m.name}
        if any(isinstance(m, ast.Name) and m.id in ("locals", "eval", "exec") for m in ast.walk(n)):
            return n
        stored = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - skip
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in stored:
                m.id += "_v"
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


MODES = dict(invert=Invert, temps=Temps, helper=Helper, forwhile=ForWhile, comp=Comp, rename=Rename)
if __name__ == "__main__":
    modes = sys.argv[1:]
    for d, _, fs in os.walk(ROOT):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                s = open(p).read()
                t = ast.parse(s)
                for m in modes:
                    t = MODES[m]().visit(t)
                ast.fix_missing_locations(t)
                open(p, "w").write(ast.unparse(t) + "\n")
