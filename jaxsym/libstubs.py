"""Exact summaries of jax.numpy.linalg routines on small matrices, active only while tracing for the
symbolic executor (pivoted LU has data-dependent branches that do not change the exact result)."""
import contextlib
import functools

_on = [False]
_installed = [False]


@contextlib.contextmanager
def symbolic():
    _on[0] = True
    import jax
    jax.clear_caches()
    try:
        yield
    finally:
        _on[0] = False
        jax.clear_caches()


def _det(a):
    import jax.numpy as jnp
    n = a.shape[-1]
    if n == 1:
        return a[..., 0, 0]
    if n == 2:
        return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
    t = 0
    for j in range(n):
        cols = [c for c in range(n) if c != j]
        minor = jnp.stack([jnp.stack([a[..., i, c] for c in cols], -1) for i in range(1, n)], -2)
        x = a[..., 0, j] * _det(minor)
        t = t + x if j % 2 == 0 else t - x
    return t


def _inv(a):
    import jax.numpy as jnp
    n = a.shape[-1]
    d = _det(a)
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            r = [k for k in range(n) if k != j]
            c = [k for k in range(n) if k != i]
            minor = jnp.stack([jnp.stack([a[..., p, q] for q in c], -1) for p in r], -2)
            v = _det(minor) / d
            row.append(v if (i + j) % 2 == 0 else -v)
        rows.append(jnp.stack(row, -1))
    return jnp.stack(rows, -2)


def install():
    if _installed[0]:
        return
    _installed[0] = True
    import jax
    import jax.numpy as jnp

    def wrap(mod, name, sub):
        orig = getattr(mod, name)

        @functools.wraps(orig)
        def f(*a, **k):
            if _on[0]:
                r = sub(*a, **k)
                if r is not None:
                    return r
            return orig(*a, **k)
        setattr(mod, name, f)

    def sdet(a, *r, **k):
        a = jnp.asarray(a)
        return _det(a) if a.shape[-1] <= 4 else None

    def sinv(a, *r, **k):
        a = jnp.asarray(a)
        return _inv(a) if a.shape[-1] <= 3 else None

    def ssolve(a, b, *r, **k):
        a, b = jnp.asarray(a), jnp.asarray(b)
        if a.shape[-1] > 3:
            return None
        i = _inv(a)
        if b.ndim == 1 or b.ndim == a.ndim - 1:
            return jnp.einsum("...ij,...j->...i", i, b)
        return i @ b

    wrap(jnp.linalg, "det", sdet)
    wrap(jnp.linalg, "inv", sinv)
    wrap(jnp.linalg, "solve", ssolve)
