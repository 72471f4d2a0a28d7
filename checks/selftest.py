"""not a property: every construct a rewrite of the library may use must be encodable, and its encoding must agree with JAX
(python run.py SELFTEST)"""
import jax
from .steps import *


def cases(tier, seed):
    return [one(k, f) for k, f in FNS.items()]


def one(name, f):
    def build(P):
        return {"x": sl(P["x"]), "m": sl(P["m"]), "v": sl(P["v"]), "w": sl(P["w"])}

    def fn(A):
        r = f(A["x"], A["m"], A["v"], A["w"])
        return {str(i): jnp.asarray(y) + 0 if jnp.asarray(y).dtype != bool else y.astype(jnp.float32) for i, y in enumerate(jax.tree.leaves(r))}

    def post(P, A, O, obs):
        for k in O:
            obs.eq("self-" + k, O[k], O[k], 0)
    return Case(name, {"x": (4, -2, 2), "m": ((3, 3), -2, 2), "v": (3, -2, 2), "w": (3, F(1, 2), 2)}, build, fn, post, typed=False, defined=False, functions=[])


def body(i, c):
    return c.at[i].add(1.0) * 0.5


IDX = jnp.array([0, 2, 1, 2])
FNS = {
    "select": lambda x, m, v, w: jnp.select([x < -1, x < 0, x < 1], [x * x, -x, x + 1], 0.0),
    "piecewise": lambda x, m, v, w: jnp.piecewise(x, [x < -1, x >= 1], [lambda y: y * y, lambda y: y - 1, 3.0]),
    "where3": lambda x, m, v, w: jnp.where(x > 0, x, jnp.where(x < -1, -1.0, 2 * x)),
    "boolmul": lambda x, m, v, w: (x > 0) * (x < 1) * x,
    "boolsum": lambda x, m, v, w: ((x > 0).sum(), jnp.sum(x > 0, dtype=jnp.float32), jnp.count_nonzero(x > 0), jnp.mean(x > 0)),
    "boolmax": lambda x, m, v, w: (jnp.max(x > 0), jnp.min(x > 0), jnp.any(x > 0), jnp.all(x > 0), jnp.prod(x > 0)),
    "boolarg": lambda x, m, v, w: (jnp.argmax(x > 0), jnp.argmin(x > 0)),
    "boolcum": lambda x, m, v, w: (jnp.cumsum(x > 0), jnp.cumprod(x > 0)),
    "xor": lambda x, m, v, w: jnp.logical_xor(x > 0, x > 1),
    "bitand": lambda x, m, v, w: (x > 0) & ~(x > 1) | (x < -1),
    "segment_sum": lambda x, m, v, w: jax.ops.segment_sum(x, IDX, num_segments=3),
    "segment_max": lambda x, m, v, w: jax.ops.segment_max(x, IDX, num_segments=3),
    "segment_sym": lambda x, m, v, w: jax.ops.segment_sum(x, jnp.floor(x).astype(int) + 2, num_segments=5),
    "bincount": lambda x, m, v, w: jnp.bincount(IDX, weights=x, length=4),
    "onehot": lambda x, m, v, w: jax.nn.one_hot(IDX, 3).T @ x,
    "onehot-sym": lambda x, m, v, w: jax.nn.one_hot(jnp.floor(x).astype(int) + 2, 5).T @ x,
    "fori": lambda x, m, v, w: jax.lax.fori_loop(0, 4, body, x),
    "fori-gather": lambda x, m, v, w: jax.lax.fori_loop(0, 4, lambda i, c: c + x[i] * IDX[i], 0.0),
    "scan": lambda x, m, v, w: jax.lax.scan(lambda c, y: (c + y, c * y), 0.0, x),
    "while": lambda x, m, v, w: jax.lax.while_loop(lambda s: s[0] < 3, lambda s: (s[0] + 1, s[1] * 0.5 + x[0]), (0, x[1])),
    "assoc": lambda x, m, v, w: jax.lax.associative_scan(jnp.add, x),
    "map": lambda x, m, v, w: jax.lax.map(lambda y: y * y, x),
    "vmap2": lambda x, m, v, w: jax.vmap(lambda a: jax.vmap(lambda b: a * b)(v))(x),
    "vectorize": lambda x, m, v, w: jnp.vectorize(lambda a: a + 1)(x),
    "cond": lambda x, m, v, w: jax.lax.cond(x[0] > 0, lambda: x, lambda: -x),
    "switch": lambda x, m, v, w: jax.lax.switch(jnp.clip(jnp.floor(x[0]).astype(int) + 1, 0, 2), [lambda: x, lambda: -x, lambda: 2 * x]),
    "lax-select": lambda x, m, v, w: jax.lax.select(x > 0, x, -x),
    "choose": lambda x, m, v, w: jnp.choose((x > 0).astype(int), [x, -x], mode="clip"),
    "cross": lambda x, m, v, w: (jnp.cross(v, w), jnp.outer(v, w), jnp.vdot(v, w), jnp.inner(v, w), jnp.kron(v, w), jnp.tensordot(m, v, 1), jnp.dot(m, v)),
    "matmul": lambda x, m, v, w: (m @ m, m.T @ v, jnp.matmul(m, w), jnp.linalg.multi_dot([m, m, m]), jnp.linalg.matrix_power(m, 2)),
    "einsum": lambda x, m, v, w: (jnp.einsum("ij,j->i", m, v), jnp.einsum("ij,kj->ik", m, m), jnp.einsum("ii", m), jnp.einsum("i,j->ij", v, w), jnp.einsum("ij,ij", m, m)),
    "diag": lambda x, m, v, w: (jnp.diag(v), jnp.diag(m), jnp.trace(m), jnp.diagonal(m), jnp.tril(m), jnp.triu(m), jnp.fill_diagonal(m, 0.0, inplace=False), m.at[jnp.diag_indices(3)].add(1.0)),
    "norms": lambda x, m, v, w: (jnp.linalg.norm(w), jnp.linalg.norm(m), jnp.hypot(w[0], w[1]), jnp.linalg.norm(w, ord=1), jnp.linalg.norm(w, ord=jnp.inf), jnp.linalg.vector_norm(w)),
    "norm-axis": lambda x, m, v, w: (jnp.linalg.norm(m, axis=1), jnp.linalg.norm(m, axis=-1, keepdims=True)),
    "minmax": lambda x, m, v, w: (jnp.clip(x, -1, 1), jnp.fmax(x, 0), jnp.fmin(x, 0), jax.nn.relu(x), x.max(), x.min(), jnp.ptp(x), jnp.maximum(x, -x), jax.lax.clamp(-1.0, x, 1.0)),
    "signs": lambda x, m, v, w: (jnp.sign(x), jnp.copysign(w, v), jnp.heaviside(x, 0.5), jnp.abs(x), jnp.fabs(x), jnp.negative(x), jnp.signbit(x)),
    "nan": lambda x, m, v, w: (jnp.nan_to_num(x), jnp.isnan(x), jnp.isfinite(x), jnp.isinf(x), jnp.nansum(x), jnp.nanmax(x)),
    "powers": lambda x, m, v, w: (x**2, x**3, w**-1, w**0.5, jnp.square(x), jnp.power(w, 2), jnp.power(w, 1.5), jnp.float_power(w, 2.0), jnp.cbrt(w), jnp.sqrt(w), jax.lax.rsqrt(w), jnp.reciprocal(w), jax.lax.integer_pow(x, 4)),
    "pow-sym": lambda x, m, v, w: (w[0] ** w[1], jnp.power(2.0, w), jnp.exp2(w)),
    "explog": lambda x, m, v, w: (jnp.exp(x), jnp.log(w), jnp.expm1(x), jnp.log1p(w), jnp.log2(w), jnp.log10(w), jnp.logaddexp(v, w)),
    "soft": lambda x, m, v, w: (jax.nn.sigmoid(x), jnp.tanh(x), jax.nn.softplus(x)),
    "trig": lambda x, m, v, w: (jnp.sin(x), jnp.cos(x), jnp.tan(w * 0.5), jnp.arctan2(v, w), jnp.arcsin(x / 4), jnp.arccos(x / 4), jnp.arctan(x), jnp.deg2rad(x), jnp.radians(x), jnp.sinc(w)),
    "floors": lambda x, m, v, w: (jnp.floor(x), jnp.ceil(x), jnp.trunc(x), jnp.rint(x * 0.7), jnp.mod(x, 1.0), jnp.floor_divide(x, 0.5), jnp.remainder(x, 0.7), jnp.fmod(x, 0.7), x // 1, x % 1, jnp.round(x * 0.9)),
    "casts": lambda x, m, v, w: (x.astype(int), (x > 0).astype(float), jnp.asarray(x, jnp.int32), (x > 0).astype(jnp.uint32), jnp.floor(x).astype(jnp.int32).astype(float)),
    "idiv": lambda x, m, v, w: ((jnp.floor(x * 2).astype(int) + 8) // 3, (jnp.floor(x * 2).astype(int) + 8) % 3, jnp.divmod(jnp.floor(x * 2).astype(int) + 8, 3)),
    "shape": lambda x, m, v, w: (m.reshape(-1), m.ravel(), jnp.transpose(m), jnp.swapaxes(m, 0, 1), jnp.moveaxis(m, 0, 1), m[None], jnp.expand_dims(v, 1), jnp.squeeze(v[None]), jnp.flip(v), jnp.roll(v, 1), jnp.rot90(m), v[::-1], v[::2], m[:, 0], m[..., None]),
    "stack": lambda x, m, v, w: (jnp.stack([v, w]), jnp.concatenate([v, w]), jnp.hstack([v, w]), jnp.vstack([v, w]), jnp.column_stack([v, w]), jnp.tile(v, 2), jnp.repeat(v, 2), jnp.pad(v, (1, 0)), jnp.pad(m, ((0, 0), (0, 1))), jnp.append(v, w), jnp.block([[m, m]]), jnp.array([v, w]), jnp.broadcast_to(v, (2, 3)), jnp.split(x, 2), jnp.r_[v, w], jnp.c_[v, w]),
    "mesh": lambda x, m, v, w: (jnp.meshgrid(v, w, indexing="ij"), jnp.indices((2, 3)) * v[0], jnp.linspace(v[0], w[0], 3), jnp.arange(4) * x),
    "reduce": lambda x, m, v, w: (m.sum(), m.sum(0), m.mean(1), m.prod(0), jnp.var(v), jnp.std(w), jnp.cumsum(x), jnp.cumprod(x), jnp.diff(x), jnp.average(v, weights=w), jnp.median(v), m.sum(axis=(0, 1), keepdims=True), jnp.linalg.trace(m)),
    "argsort": lambda x, m, v, w: (jnp.argmax(x), jnp.argmin(x), jnp.sort(v), v[jnp.argsort(v)], jax.lax.top_k(v, 2)),
    "index": lambda x, m, v, w: (x[IDX], jnp.take(x, IDX), jnp.take_along_axis(m, jnp.array([[0], [1], [2]]), 1), x.at[1].get(), m[IDX[:3], IDX[:3]], jax.lax.dynamic_index_in_dim(x, 2), jax.lax.dynamic_slice(x, (1,), (2,)), x[jnp.argmax(x)], m[jnp.argmin(v)]),
    "put": lambda x, m, v, w: (x.at[1].set(0), x.at[IDX].add(1.0), x.at[1:3].mul(2), x.at[0].max(v[0]), x.at[0].min(v[0]), x.at[IDX].set(2.0), x.at[jnp.argmax(x)].set(9.0), jax.lax.dynamic_update_slice(x, v[:2], (1,)), x.at[1].divide(2.0), x.at[2].power(2), x.at[2].subtract(1), x.at[2].multiply(3)),
    "oob": lambda x, m, v, w: (x.at[jnp.array([1, 9])].add(1.0), x.at[jnp.array([1, 9])].add(1.0, mode="drop"), x.at[jnp.array([1, 9])].get(mode="fill", fill_value=0.0), x.at[jnp.array([1, 9])].get(mode="clip"), x.at[-1].get()),
    "linalg": lambda x, m, v, w: (jnp.linalg.det(m), jnp.linalg.inv(m + 9 * jnp.eye(3)), jnp.linalg.solve(m + 9 * jnp.eye(3), v), jnp.linalg.slogdet(m + 9 * jnp.eye(3))),
    "linalg2": lambda x, m, v, w: (jnp.linalg.inv(m[:2, :2] + 9 * jnp.eye(2)), jnp.linalg.det(m[:2, :2]), jnp.linalg.inv((m + 9 * jnp.eye(3))[None]), jnp.linalg.det(jnp.stack([m, m]))),
    "expm": lambda x, m, v, w: jax.scipy.linalg.expm(jnp.diag(v)),
    "grad": lambda x, m, v, w: (jax.grad(lambda y: jnp.sum(y**3))(x), jax.jacfwd(lambda y: y * y)(v), jax.jacrev(lambda y: y * y)(v), jax.jvp(jnp.sin, (x,), (x,)), jax.value_and_grad(lambda y: jnp.linalg.norm(y))(w), jax.hessian(lambda y: jnp.sum(y**3))(v)),
    "custom": lambda x, m, v, w: (jax.nn.relu6(x), jax.nn.leaky_relu(x), jax.nn.silu(x), jax.checkpoint(lambda y: y * y)(x), jax.jit(lambda y: y + 1)(x)),
    "interp": lambda x, m, v, w: (jnp.interp(x, jnp.array([-2.0, 0.0, 2.0]), v), jnp.polyval(v, x), jnp.searchsorted(jnp.array([-1.0, 0.0, 1.0]), x), jnp.digitize(x, jnp.array([-1.0, 0.0, 1.0]))),
    "ravel": lambda x, m, v, w: (jnp.ravel_multi_index((jnp.floor(x).astype(int) + 2, jnp.floor(x).astype(int) + 2), (5, 5), mode="clip"), jnp.unravel_index(jnp.floor(x).astype(int) + 6, (3, 4)), jnp.unravel_index(IDX, (2, 2))),
    "where-idx": lambda x, m, v, w: (jnp.where(x > 0, size=4, fill_value=0)[0], jnp.nonzero(x > 0, size=4)[0]),
    "isclose": lambda x, m, v, w: (jnp.isclose(v, w), jnp.allclose(v, w), jnp.array_equal(v, w), jnp.equal(v, w), v == w, v != w),
    "dot-general": lambda x, m, v, w: (jax.lax.dot(m, v), jax.lax.batch_matmul(m[None], m[None]), jax.lax.reduce(x, 0.0, jax.lax.add, (0,)), jax.lax.reduce(x, -9.0, jax.lax.max, (0,)), jax.lax.cumsum(x), jax.lax.rev(x, (0,)), jax.lax.concatenate([v, w], 0), jax.lax.square(x), jax.lax.fma(x, x, x) if hasattr(jax.lax, "fma") else x),
    "divide": lambda x, m, v, w: (v / w, jnp.divide(v, w), jnp.true_divide(v, w), 1.0 / w, jnp.where(v > 0, 1.0 / jnp.where(v > 0, v, 1.0), 0.0), v * jnp.reciprocal(w)),
    "tree": lambda x, m, v, w: jax.tree.map(lambda a, b: a + b, (v, w), (w, v)),
    "apply": lambda x, m, v, w: (jnp.apply_along_axis(lambda r: r.sum(), 1, m), jnp.matvec(m, v), jnp.vecdot(v, w), jnp.vecmat(v, m), jnp.linalg.outer(v, w), jnp.linalg.cross(v, w), jnp.linalg.matmul(m, m), m.mT),
    "reduce-window": lambda x, m, v, w: jax.lax.reduce_window(x, 0.0, jax.lax.add, (2,), (1,), "valid"),
    "gcd": lambda x, m, v, w: (jnp.sum(jnp.where(IDX[:, None] == jnp.arange(3), x[:, None], 0.0), 0), jnp.equal(IDX[:, None], jnp.arange(3)) @ jnp.ones(3)),
    "clipidx": lambda x, m, v, w: (x[jnp.clip(jnp.floor(x).astype(int), 0, 3)], jnp.take(x, jnp.floor(x).astype(int), mode="clip"), jnp.take(x, jnp.floor(x).astype(int) + 2, mode="fill", fill_value=0.0), jnp.take(x, jnp.floor(x).astype(int), mode="wrap")),
    "shifts": lambda x, m, v, w: ((IDX << 1) * x, (jnp.floor(x).astype(int) + 2) << 1, (jnp.floor(x).astype(int) + 8) >> 1, (jnp.floor(x).astype(int) + 8) & 1),
    "eqx": lambda x, m, v, w: __import__("equinox").filter_jit(lambda y: y * 2)(x),
    "error-if": lambda x, m, v, w: __import__("equinox").error_if(x, jnp.any(x > 5), "no"),
    "debug": lambda x, m, v, w: (jax.debug.print("{}", x[0]), x)[1],
    "barrier": lambda x, m, v, w: jax.lax.optimization_barrier(x),
    "random-key": lambda x, m, v, w: x + jnp.zeros(4).at[:].set(0.0),
    "quat": lambda x, m, v, w: (x / jnp.linalg.norm(x + 5.0), jnp.roll(x, -1) * jnp.array([1.0, -1.0, 1.0, -1.0])),
}
