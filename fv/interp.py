"""Verification-condition generation from the real code: jaxpr -> terms.

`sym_eval(fn, *args)` traces `fn` with jax.make_jaxpr and interprets the jaxpr
over numpy object arrays of ring terms.  Nothing of the function is dropped:
every primitive is interpreted, executed by JAX (when all operands are
concrete), or the run raises Unsupported.
"""
from __future__ import annotations
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax import tree_util as jtu
from . import ring
from .ring import Poly, Bool, Unsupported, lift, blift
from . import uf as ufmod


def is_sym(v):
    return isinstance(v, np.ndarray) and v.dtype == object


def symarr(name, shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = ring.var(name + ("" if not i else "[" + ",".join(map(str, i)) + "]"))
    return a


def to_obj(v):
    if is_sym(v):
        return v
    v = np.asarray(v)
    o = np.empty(v.shape, dtype=object)
    if v.dtype == bool:
        for i in np.ndindex(*v.shape):
            o[i] = ring.TRUE if v[i] else ring.FALSE
    else:
        # entries below 1e-15 of the array's magnitude are rounding noise (e.g. tabulated zeros)
        lim = 1e-15 * np.max(np.abs(v), initial=0.0) if v.size and np.all(np.isfinite(v)) else 0.0
        for i in np.ndindex(*v.shape):
            o[i] = Poly.const(float(v[i]) if abs(v[i]) > lim else 0.0)
    return o


def simplify_arr(o):
    """object array -> numeric array when all entries are constants"""
    if o.size == 0:
        return np.zeros(o.shape)
    f = o.ravel()
    for x in f:
        if isinstance(x, Poly):
            if not x.is_const():
                return o
        elif isinstance(x, Bool):
            if x.op != "c":
                return o
    if all(isinstance(x, Bool) for x in f):
        return np.array([x.args for x in f], dtype=bool).reshape(o.shape)
    if any(isinstance(x, Bool) for x in f):
        return o
    return np.array([x.const_value() for x in f], dtype=float).reshape(o.shape)


def ew(f, *arrs):
    arrs = [to_obj(a) if not is_sym(a) else a for a in arrs]
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    its = [a.ravel() for a in arrs]
    flat = out.ravel() if out.flags.c_contiguous else None
    res = [f(*xs) for xs in zip(*its)]
    o = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        o[i] = r
    return o.reshape(out.shape)


def _select(c, *cases):
    # numeric/bool selector
    if isinstance(c, Bool):
        return ring.ite(c, cases[1], cases[0])
    if isinstance(c, Poly):
        if c.is_const():
            return cases[int(c.const_value())]
        raise Unsupported("select on symbolic int")
    return cases[int(c)]


def _div(a, b):
    return lift(a) / lift(b)


def _sign(a):
    a = lift(a)
    if a.is_const():
        return Poly.const(np.sign(a.const_value()))
    return ring.ite(ring.gt0(a), ring.ONE, ring.ite(ring.gt0(-a), -ring.ONE, ring.ZERO))


def _atan2(y, x):
    y, x = lift(y), lift(x)
    return Poly.of_atom(ring.atom("uf", "atan2", (y, x)))


ELEM = {
    "add": lambda a, b: lift(a) + lift(b),
    "add_any": lambda a, b: lift(a) + lift(b),
    "sub": lambda a, b: lift(a) - lift(b),
    "mul": lambda a, b: lift(a) * lift(b),
    "neg": lambda a: -lift(a),
    "div": _div,
    "sqrt": lambda a: ring.psqrt(lift(a)),
    "rsqrt": lambda a: ring.inv(ring.psqrt(lift(a))),
    "abs": lambda a: ring.pabs(lift(a)),
    "sign": _sign,
    "max": lambda a, b: ring.pmax(a, b) if not isinstance(a, Bool) else ring.bor(a, b),
    "min": lambda a, b: ring.pmin(a, b) if not isinstance(a, Bool) else ring.band(a, b),
    "square": lambda a: lift(a) * lift(a),
    "one_minus_square": lambda a: lift(1.0) - lift(a) * lift(a),
    "gt": lambda a, b: lift(a) > lift(b),
    "lt": lambda a, b: lift(a) < lift(b),
    "ge": lambda a, b: lift(a) >= lift(b),
    "le": lambda a, b: lift(a) <= lift(b),
    "eq": lambda a, b: (lift(a) == lift(b)),
    "ne": lambda a, b: (lift(a) != lift(b)),
    "and": lambda a, b: ring.band(a, b),
    "or": lambda a, b: ring.bor(a, b),
    "not": lambda a: ring.bnot(a),
    "xor": lambda a, b: blift(a) ^ blift(b),
    "atan2": _atan2,
    "is_finite": lambda a: ring.TRUE,
    "real": lambda a: a,
    "imag": lambda a: ring.ZERO,
    "conj": lambda a: a,
    "stop_gradient": lambda a: a,
    "pow": lambda a, b: ring.gpow(lift(a), lift(b)),
    "logistic": lambda a: ring.inv(ring.ONE + ring.elem("exp", -lift(a))),
    "select_and_gather_add": None,
}
for _n in ("exp", "log", "sin", "cos", "tan", "tanh", "sinh", "cosh", "atan", "acos", "asin", "erf",
           "floor", "ceil", "log1p", "expm1"):
    ELEM[_n] = (lambda n: lambda a: ring.elem(n, lift(a)))(_n)

MOVE = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims", "slice", "dynamic_slice",
        "gather", "concatenate", "pad", "rev", "dynamic_update_slice", "scatter", "select_n", "copy",
        "split", "tile", "copy_p", "stack", "unstack", "copy_to", "pvary", "reduce_precision", "roll", "optimization_barrier", "device_put", "sharding_constraint"}
# operands that carry data (others are indices and must be concrete)
DATA_ARGS = {"dynamic_slice": [0], "gather": [0], "scatter": [0, 2], "dynamic_update_slice": [0, 1],
             "pad": [0, 1]}

PATCHED: dict = {}
TRACE = {"eqns": 0, "prims": set()}


def _bind(prim, vals, params):
    r = prim.bind(*[jnp.asarray(v) for v in vals], **params)
    if prim.multiple_results:
        return [np.asarray(x) for x in r]
    return np.asarray(r)


def move(prim, vals, params):
    name = prim.name
    data = DATA_ARGS.get(name)
    if data is None:
        data = list(range(len(vals)))
        if name == "select_n":
            data = list(range(1, len(vals)))
    table = []
    off = 1
    ids = []
    for k, v in enumerate(vals):
        if k in data:
            o = to_obj(v).ravel()
            table.append(o)
            ids.append((np.arange(o.size, dtype=np.int64) + off).reshape(np.shape(v)))
            off += o.size
        else:
            if is_sym(v):
                raise Unsupported(f"{name}: symbolic index")
            ids.append(v)
    tab = np.empty(off, dtype=object)
    tab[0] = None
    p = 1
    for o in table:
        tab[p:p + o.size] = o
        p += o.size
    params = dict(params)
    if name == "gather" and params.get("fill_value", None) is not None:
        params["fill_value"] = 0
    if name == "gather":
        m = params.get("mode")
        if m is not None and "FILL" in str(m).upper():
            params["fill_value"] = 0
    if name == "scatter" and params.get("update_jaxpr", None) is not None:
        # rebuild through lax.scatter for int operands
        out = lax.scatter(jnp.asarray(ids[0]), jnp.asarray(ids[1]), jnp.asarray(ids[2]),
                          params["dimension_numbers"], indices_are_sorted=params["indices_are_sorted"],
                          unique_indices=params["unique_indices"], mode=params["mode"])
        out = [np.asarray(out)]
    elif name in ("broadcast_in_dim",) and len(vals) > 1:
        raise Unsupported("dynamic broadcast")
    else:
        r = prim.bind(*[jnp.asarray(i) for i in ids], **params)
        out = [np.asarray(x) for x in r] if prim.multiple_results else [np.asarray(r)]
    res = []
    for o in out:
        if o.size and o.min() <= 0:
            raise Unsupported(f"{name}: out-of-bounds fill")
        g = tab[o.ravel()].reshape(o.shape) if o.size else np.empty(o.shape, dtype=object)
        res.append(g)
    return res if prim.multiple_results else res[0]


def scatter_add(vals, params, mul=False):
    op, idx, upd = vals
    if is_sym(idx):
        raise Unsupported("scatter-add with symbolic indices")
    dn = params["dimension_numbers"]
    oshape = np.shape(op)
    n = int(np.prod(oshape))
    tgt_ids = jnp.asarray(np.arange(1, n + 1, dtype=np.float64).reshape(oshape))
    z = jnp.zeros(oshape)

    def f(u):
        return lax.scatter_add(z, jnp.asarray(idx), u, dn, indices_are_sorted=params["indices_are_sorted"],
                               unique_indices=False, mode=params["mode"])
    _, vjp = jax.vjp(f, jnp.zeros(np.shape(upd)))
    tgt = np.rint(np.asarray(vjp(tgt_ids)[0])).astype(int).ravel() - 1
    out = to_obj(op).ravel().copy()
    u = to_obj(upd).ravel()
    for k, t in enumerate(tgt):
        if t >= 0:
            out[t] = lift(out[t]) + lift(u[k])
    return out.reshape(oshape)


def _sumobj(a, axes):
    axes = tuple(sorted(axes))
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        s = {}
        row = b[i]
        acc = ring.ZERO
        # accumulate into one dict
        d = {}
        mag = {}
        for x in row:
            for m, c in lift(x).t.items():
                if m in d:
                    d[m] += c
                    mag[m] = mag.get(m, abs(d[m] - c)) + abs(c)
                else:
                    d[m] = c
        for m, g in mag.items():
            if abs(d[m]) <= 1e-13 * g:
                del d[m]
        out[i] = Poly(d)
    return out


def dot_general(vals, params):
    a, b = to_obj(vals[0]), to_obj(vals[1])
    (ca, cb), (ba, bb) = params["dimension_numbers"]
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    bs = [a.shape[i] for i in ba]
    fas = [a.shape[i] for i in fa]
    fbs = [b.shape[i] for i in fb]
    k = int(np.prod([a.shape[i] for i in ca])) if ca else 1
    nb = int(np.prod(bs)) if bs else 1
    na = int(np.prod(fas)) if fas else 1
    nbb = int(np.prod(fbs)) if fbs else 1
    A = A.reshape(nb, na, k)
    B = B.reshape(nb, nbb, k)
    out = np.empty((nb, na, nbb), dtype=object)
    for n in range(nb):
        for i in range(na):
            for j in range(nbb):
                d = {}
                mag = {}
                for q in range(k):
                    x, y = lift(A[n, i, q]), lift(B[n, j, q])
                    if not x.t or not y.t:
                        continue
                    for m, c in (x * y).t.items():
                        if m in d:
                            mag[m] = mag.get(m, abs(d[m])) + abs(c)
                            d[m] += c
                        else:
                            d[m] = c
                for m, g in mag.items():
                    if abs(d[m]) <= 1e-13 * g:
                        del d[m]
                out[n, i, j] = Poly(d)
    return out.reshape(bs + fas + fbs)


def uf_eval(x, name, m, order):
    x = to_obj(x)
    n = x.shape[-1]
    lead = x.shape[:-1]
    out = np.empty(lead + (m,) + (n,) * order, dtype=object)
    for i in np.ndindex(*lead):
        args = tuple(lift(v) for v in x[i])
        lim = 1e-13 * max((abs(c) for a in args for c in a.t.values()), default=0.0)
        args = tuple(a if all(abs(c) > lim for c in a.t.values()) else Poly({m_: c for m_, c in a.t.items() if abs(c) > lim})
                     for a in args)
        memo = {}
        for k in range(m):
            for d in np.ndindex(*((n,) * order)):
                ds = tuple(sorted(d))
                if (k, ds) not in memo:
                    nm = f"{name}.{k}" + ("" if not ds else "/d" + ",".join(map(str, ds)))
                    memo[(k, ds)] = Poly.of_atom(ring.atom("uf", nm, args))
                out[i + (k,) + d] = memo[(k, ds)]
    return out


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if hasattr(v, "val"):
            return np.asarray(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if is_sym(c) else np.asarray(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, vals)
        for v, o in zip(eqn.outvars, outs):
            if is_sym(o):
                o = simplify_arr(o)
                if not is_sym(o):
                    dt = v.aval.dtype
                    if o.dtype != dt:
                        o = o.astype(dt)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _closed(j):
    if hasattr(j, "jaxpr"):
        return j.jaxpr, j.consts
    return j, ()


HANDLERS: dict = {}


def eval_eqn(eqn, vals):
    prim, params = eqn.primitive, eqn.params
    name = prim.name
    TRACE["eqns"] += 1
    TRACE["prims"].add(name)
    anysym = any(is_sym(v) for v in vals)
    if name in HANDLERS:
        return HANDLERS[name](eqn, vals)
    if name in ("jit", "pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint",
                "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin"):
        if not anysym and name in ("jit", "pjit"):
            pass
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            if k in params:
                j, c = _closed(params[k])
                return eval_jaxpr(j, c, vals)
        raise Unsupported(f"call primitive {name}")
    if name == "cond":
        idx, ops = vals[0], vals[1:]
        br = params["branches"]
        if not is_sym(idx):
            i = int(np.clip(int(idx), 0, len(br) - 1))
            j, c = _closed(br[i])
            return eval_jaxpr(j, c, ops)
        x = idx.item()
        outs = [eval_jaxpr(*_closed(b), ops) for b in br]
        if isinstance(x, Bool):
            cond = x
        else:
            cond = x > 0
        if len(br) != 2:
            raise Unsupported("symbolic multi-way switch")
        return [ew(lambda a, b: ring.ite(cond, b, a), o0, o1) for o0, o1 in zip(*outs)]
    if name == "scan":
        return scan(params, vals)
    if name == "while":
        return while_(params, vals)
    if not anysym:
        r = _bind(prim, vals, params)
        return r if prim.multiple_results else [r]
    if name == "fv_uf":
        return [uf_eval(vals[0], params["name"], params["m"], params["order"])]
    if name == "convert_element_type":
        return [convert(vals[0], params["new_dtype"], eqn.invars[0].aval.dtype)]
    if name == "integer_pow":
        y = params["y"]
        return [ew(lambda a: ring.ipow(lift(a), y), vals[0])]
    if name == "select_n" and is_sym(vals[0]):
        return [ew(_select, *vals)]
    if name == "clamp":
        return [ew(lambda lo, x, hi: ring.pmin(ring.pmax(x, lo), hi), *vals)]
    if name in MOVE:
        r = move(prim, vals, params)
        return r if prim.multiple_results else [r]
    if name in ELEM and ELEM[name] is not None:
        return [ew(ELEM[name], *vals)]
    if name == "reduce_sum":
        return [_sumobj(vals[0], params["axes"])]
    if name in ("reduce_max", "reduce_min", "reduce_prod", "reduce_and", "reduce_or"):
        f = {"reduce_max": ring.pmax, "reduce_min": ring.pmin, "reduce_prod": lambda a, b: lift(a) * lift(b),
             "reduce_and": ring.band, "reduce_or": ring.bor}[name]
        return [_reduce(f, vals[0], params["axes"])]
    if name == "cumsum":
        a = vals[0]
        ax = params["axis"]
        if params.get("reverse"):
            return [np.flip(np.cumsum(np.flip(a, ax), axis=ax, dtype=object), ax)]
        return [np.cumsum(a, axis=ax, dtype=object)]
    if name == "dot_general":
        return [dot_general(vals, params)]
    if name == "scatter-add" or name == "scatter_add":
        return [scatter_add(vals, params)]
    if name == "scatter-mul":
        raise Unsupported("scatter-mul")
    if name.startswith("bcoo_"):  # JAX's own definition of the sparse primitive
        import jax
        from jax.experimental.sparse import bcoo
        impl = getattr(bcoo, f"_{name}_impl")
        cj = jax.make_jaxpr(lambda *a: impl(*a, **params))(*[v.aval for v in eqn.invars])
        return eval_jaxpr(cj.jaxpr, cj.consts, vals)
    raise Unsupported(f"primitive {name} on symbolic operands")


def _reduce(f, a, axes):
    axes = tuple(sorted(axes))
    keep = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        r = b[i][0]
        for x in b[i][1:]:
            r = f(r, x)
        out[i] = r
    return out


def convert(a, dt, src=None):
    dt = np.dtype(dt)
    if dt == bool:
        return ew(blift, a)
    if dt.kind == "f":
        return ew(lift, a)
    if dt.kind in "iu":
        if all(isinstance(x, Bool) for x in a.ravel()) or (src is not None and np.dtype(src).kind in "iu"):
            return ew(lift, a)
        raise Unsupported("float -> int conversion of a symbolic value")
    raise Unsupported(f"convert to {dt}")


def scan(params, vals):
    length = params["length"]
    j, c = _closed(params["jaxpr"])
    if "ft_in" in params:
        nc, nk, _ = [len(x) for x in params["ft_in"].unpack()]
    else:
        nc, nk = params["num_consts"], params["num_carry"]
    consts, carry, xs = vals[:nc], list(vals[nc:nc + nk]), vals[nc + nk:]
    ys = None
    rng = range(length)
    if params["reverse"]:
        rng = reversed(rng)
    outs = {}
    for i in rng:
        r = eval_jaxpr(j, c, list(consts) + carry + [x[i] if np.ndim(x) > 1 else _item(x, i) for x in xs])
        carry = r[:nk]
        outs[i] = r[nk:]
    n_y = len(j.outvars) - nk
    stacked = []
    for k in range(n_y):
        col = [outs[i][k] for i in range(length)]
        if any(is_sym(x) for x in col):
            col = [to_obj(x) for x in col]
        if col:
            stacked.append(np.stack(col))
        else:
            stacked.append(np.zeros((0,) + tuple(j.outvars[nk + k].aval.shape)))
    return carry + stacked


def _item(x, i):
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x[i]
        return a
    return np.asarray(x[i])


WHILE_MAX = 64


def while_(params, vals):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cj, cc = _closed(params["cond_jaxpr"])
    bj, bc = _closed(params["body_jaxpr"])
    cconst, bconst, carry = vals[:cn], vals[cn:cn + bn], list(vals[cn + bn:])
    for _ in range(WHILE_MAX):
        c = eval_jaxpr(cj, cc, list(cconst) + carry)[0]
        if is_sym(c):
            raise Unsupported("while with a symbolic condition")
        if not bool(c):
            return carry
        carry = eval_jaxpr(bj, bc, list(bconst) + carry)
    raise Unsupported("while: more than %d concrete iterations" % WHILE_MAX)


# ------------------------------------------------------------------ driver
def _cust_jvp(eqn, vals):
    j, c = _closed(eqn.params["call_jaxpr"])
    return eval_jaxpr(j, c, vals)


HANDLERS["custom_jvp_call"] = _cust_jvp


def _closed_form_inv(a):
    """assumed contract on the dependency: linalg.inv(A) = adj(A)/det(A)"""
    n = a.shape[-1]
    if n == 1:
        return 1.0 / a
    if n == 2:
        det = a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
        m = jnp.stack([jnp.stack([a[..., 1, 1], -a[..., 0, 1]], -1), jnp.stack([-a[..., 1, 0], a[..., 0, 0]], -1)], -2)
        return m / det[..., None, None]
    if n == 3:
        c = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for k in range(3):
                r = [x for x in range(3) if x != i]
                s = [x for x in range(3) if x != k]
                minor = a[..., r[0], s[0]] * a[..., r[1], s[1]] - a[..., r[0], s[1]] * a[..., r[1], s[0]]
                c[k][i] = minor * (-1.0) ** (i + k)
        det = a[..., 0, 0] * c[0][0] + a[..., 0, 1] * c[1][0] + a[..., 0, 2] * c[2][0]
        m = jnp.stack([jnp.stack(c[i], -1) for i in range(3)], -2)
        return m / det[..., None, None]
    raise Unsupported(f"inv of {n}x{n}")


class closed_forms:
    """Within this context jnp.linalg.inv/solve/det of size<=3 are traced by their defining formulas."""

    def __enter__(self):
        L = jnp.linalg
        self.save = (L.inv, L.solve, L.det)
        inv0, solve0, det0 = self.save

        def inv(a, *k, **kw):
            a = jnp.asarray(a)
            return _closed_form_inv(a) if a.shape[-1] <= 3 else inv0(a)

        def solve(a, b, *k, **kw):
            a, b = jnp.asarray(a), jnp.asarray(b)
            if a.shape[-1] <= 3:
                i = _closed_form_inv(a)
                return i @ b if b.ndim >= 2 else (i @ b[..., None])[..., 0]
            return solve0(a, b)
        def det(a, *k, **kw):
            a = jnp.asarray(a)
            n = a.shape[-1]
            if n == 1:
                return a[..., 0, 0]
            if n == 2:
                return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
            if n == 3:
                m = lambda i, j: a[..., 1, i] * a[..., 2, j] - a[..., 1, j] * a[..., 2, i]
                return a[..., 0, 0] * m(1, 2) - a[..., 0, 1] * m(0, 2) + a[..., 0, 2] * m(0, 1)
            return det0(a)
        L.inv, L.solve, L.det = inv, solve, det
        return self

    def __exit__(self, *a):
        L = jnp.linalg
        L.inv, L.solve, L.det = self.save


def sym_eval(fn, args):
    """args: pytree whose leaves are object arrays (symbolic) or numeric arrays/python objects."""
    leaves, tree = jtu.tree_flatten(args, is_leaf=lambda x: isinstance(x, np.ndarray))
    specs = []
    dyn = []
    for l in leaves:
        if is_sym(l):
            first = l.ravel()[0] if l.size else None
            dt = bool if isinstance(first, Bool) else jnp.result_type(float)
            specs.append(jax.ShapeDtypeStruct(l.shape, dt))
            dyn.append(l)
        else:
            specs.append(None)
    def wrapped(*d):
        it = iter(d)
        full = [next(it) if s is not None else l for s, l in zip(specs, leaves)]
        a = jtu.tree_unflatten(tree, full)
        return fn(*a)
    with closed_forms():
        closed, out_shape = jax.make_jaxpr(wrapped, return_shape=True)(*[s for s in specs if s is not None])
    outs = eval_jaxpr(closed.jaxpr, closed.consts, dyn)
    out_tree = jtu.tree_structure(out_shape)
    return jtu.tree_unflatten(out_tree, outs)
