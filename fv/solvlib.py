"""Assumed contract of a linear back end, and transparent custom_vjp, for the solver drivers.

`drivers(mode)` replaces, while a solver is built and called,
  * the back-end factory by one whose solve(A, b, x0) has only its contract: in 'sym' mode it returns a
    universally quantified vector x and records the hypothesis A x - b (= 0); in 'exact' mode it solves densely;
  * jax.custom_vjp by a transparent wrapper that keeps the real forward and backward rules callable.
Everything else (residual, operator, elimination, adjoint, vjp) is the real code.
"""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from .contract import Skip


class VJP:
    """transparent stand-in for jax.custom_vjp: same primal, rules kept"""
    made = []

    def __init__(self, f, nondiff_argnums=()):
        self.f, self.nd = f, nondiff_argnums
        self.__name__ = getattr(f, "__name__", "f")
        VJP.made.append(self)

    def defvjp(self, fwd, bwd, **k):
        self.fwd, self.bwd = fwd, bwd

    def __call__(self, *a, **k):
        VJP.last, self.args = self, a
        return self.f(*a, **k)


def dense(A, n, view="FULL"):
    if callable(A):
        return jax.vmap(A)(jnp.eye(n)).T
    D = A.todense()
    if view != "FULL":
        D = D + D.T - jnp.diag(jnp.diagonal(D))
    return D


class Backend:
    def __init__(self, mode, view="FULL"):
        self.mode, self.view = mode, view
        self.xs, self.calls = [], []

    def factory(self, *a, **k):
        def solve(A, b, x0=None):
            n = b.shape[0]
            if getattr(self, "quiet", False):
                return jnp.zeros(n)
            D = dense(A, n, self.view)
            if self.mode == "sym":
                i = len(self.calls)
                x = self.xs[i]
            else:
                x = jnp.linalg.solve(D, b)
            self.calls.append((D, b, x, x0))
            return x
        return solve


@contextlib.contextmanager
def patched(module, name, value):
    import importlib
    try:
        m = importlib.import_module(module)
        old = getattr(m, name)
    except (ImportError, AttributeError) as e:
        raise Skip(f"{module}.{name}: {e}")
    setattr(m, name, value)
    try:
        yield
    finally:
        setattr(m, name, old)


@contextlib.contextmanager
def custom_vjp_transparent():
    old = jax.custom_vjp
    VJP.made = []
    jax.custom_vjp = VJP
    try:
        yield VJP
    finally:
        jax.custom_vjp = old
