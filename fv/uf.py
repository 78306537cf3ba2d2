"""`uf`: a JAX primitive standing for an arbitrary smooth user function R^n -> R^m.

Symbolically it is uninterpreted (its r-th derivative tensor is a family of
fresh function symbols, symmetric in the derivative indices).  Concretely (in
replays) it is a fixed smooth non-linear function derived from its name, so a
counterexample found by the verifier can be executed on the real code.
"""
from __future__ import annotations
import hashlib
import jax
import jax.numpy as jnp
import numpy as np
from jax.extend import core as jex_core
from jax.interpreters import ad, batching, mlir

uf_p = jex_core.Primitive("fv_uf")


def _seed(name):
    return int.from_bytes(hashlib.sha256(name.encode()).digest()[:4], "little")


def concrete(name, m, lin=None):
    def f(x):
        n = x.shape[0]
        r = np.random.RandomState(_seed(f"{name}|{n}|{m}"))
        A = r.uniform(-1, 1, (m, n))
        b = r.uniform(-1, 1, (m,))
        Q = r.uniform(-0.3, 0.3, (m, n))
        S = r.uniform(0.3, 0.8, (m, n))
        return A @ x + b + 0.2 * (Q @ (x * x)) + 0.5 * jnp.sin(S @ x)
    return f


def _impl1(x, name, m, order):
    f = concrete(name, m)
    for _ in range(order):
        f = jax.jacfwd(f)
    return f(x)


def _impl(x, *, name, m, order):
    g = lambda v: _impl1(v, name, m, order)
    for _ in range(x.ndim - 1):
        g = jax.vmap(g)
    return g(x)


@uf_p.def_impl
def _uf_impl(x, *, name, m, order):
    return _impl(x, name=name, m=m, order=order)


@uf_p.def_abstract_eval
def _uf_abs(x, *, name, m, order):
    n = x.shape[-1]
    return jax.core.ShapedArray(x.shape[:-1] + (m,) + (n,) * order, x.dtype)


def _uf_batch(args, dims, *, name, m, order):
    (x,), (d,) = args, dims
    x = jnp.moveaxis(x, d, 0)
    return uf_p.bind(x, name=name, m=m, order=order), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(primals, tangents, *, name, m, order):
    (x,), (t,) = primals, tangents
    y = uf_p.bind(x, name=name, m=m, order=order)
    if type(t) is ad.Zero:
        return y, ad.Zero.from_primal_value(y) if hasattr(ad.Zero, "from_primal_value") else jnp.zeros_like(y)
    J = uf_p.bind(x, name=name, m=m, order=order + 1)
    t = jnp.reshape(t, t.shape[:-1] + (1,) * (order + 1) + t.shape[-1:])
    return y, jnp.sum(J * t, axis=-1)


ad.primitive_jvps[uf_p] = _uf_jvp
mlir.register_lowering(uf_p, mlir.lower_fun(lambda x, *, name, m, order: _impl(x, name=name, m=m, order=order),
                                            multiple_results=False))


def apply(name, m, *args):
    """Arbitrary function of all (arrays, scalars) args, returning m values."""
    flat = [jnp.ravel(jnp.asarray(a, dtype=jnp.result_type(float))) for a in args]
    x = jnp.concatenate(flat) if flat else jnp.zeros((1,))
    return uf_p.bind(x, name=name, m=m, order=0)


def fun(name, shape):
    """A Python callable usable as tensor_map, mass_map, surface map, ..."""
    shape = tuple(shape)
    m = int(np.prod(shape)) if shape else 1

    def f(*args):
        return jnp.reshape(apply(name, m, *args), shape)
    f.__name__ = name
    return f
