"""guarded inverses and norms: values, derivatives, behaviour at and near the singular set"""
from .steps import *
from hydraxmpm.utils import math_helpers as mh

TOL = 1e-3


def cases(tier, seed):
    out = [scalar("both"), scalar("pos"), scalar("neg"), clipped(1e6), clipped(1e3), near(), singular(), inv2(), inv2_grad("fwd"), inv2_grad("rev"), inv3(), norm(1), norm(2), norm(3), norm_axis(), norm_zero()]
    for k in ((0, 0), (1, 2), (2, 1)) if tier != "thorough" else np.ndindex(3, 3):
        out.append(inv3_grad(tuple(k)))
    return out


def scalar(sign):
    """value is 1/d; slope is -1/d^2 where that is within the clip, in forward and reverse mode"""
    def build(P):
        d = sl(P["d"])[()]
        return {"d": np.asarray(d if sign != "neg" else -d, dtype=object)}

    def fn(A):
        f = mh.safe_inv_scalar_clamped
        return dict(v=f(A["d"]), g=jax.grad(f)(A["d"]), j=jax.jacfwd(f)(A["d"]))

    def post(P, A, O, obs):
        d = A["d"][()]
        obs.eq("inverse", O["v"][()] * d, 1, TOL)
        obs.eq("slope-reverse", O["g"][()] * d * d, -1, 2 * TOL)
        obs.eq("slope-forward", O["j"][()] * d * d, -1, 2 * TOL)
    p = {"d": (None, F(1, 500), 100)} if sign != "both" else {"d": (None, -100, 100)}
    pre = None if sign != "both" else (lambda P, A: [sp.or_(A["d"][()] >= F(1, 500), A["d"][()] <= -F(1, 500))])
    return Case("scalar-" + sign, p, build, fn, post, pre=pre, typed=False, eps0=True, overflow=True, rtol=5e-3, functions=["safe_inv_scalar_clamped"], bounds="0.002 <= |d| <= 100")


def clipped(clip):
    """close to zero the value is still 1/d and the slope is finite, keeps its sign and never exceeds the clip"""
    def fn(A):
        f = lambda x: mh.safe_inv_scalar_clamped(x, clip)
        return dict(v=f(A["d"]), g=jax.grad(f)(A["d"]), j=jax.jacfwd(f)(A["d"]))

    def post(P, A, O, obs):
        d = A["d"][()]
        obs.eq("inverse", O["v"][()] * d, 1, TOL)
        for k in ("g", "j"):
            obs.le("slope-limit-" + k, -O[k][()] / F(clip), 1, TOL)
            obs.le("slope-sign-" + k, O[k][()], 0, 0)
            obs.le("slope-not-steeper-" + k, -O[k][()] * d * d, 1, 10 * TOL)
    hi = F(1, 100) if clip > 1e4 else F(1, 2)
    return Case("clip-%g" % clip, {"d": (None, -hi, hi)}, lambda P: {"d": sl(P["d"])}, fn, post, pre=lambda P, A: [sp.or_(A["d"][()] >= hi / 10 ** 6, A["d"][()] <= -hi / 10 ** 6)], typed=False, overflow=True, rtol=5e-3,
                functions=["safe_inv_scalar_clamped"], bounds="%g <= |d| <= %g, slope clip %g" % (float(hi) / 1e6, float(hi), clip))


def near():
    """down to |d| = 1e-18 (far below any well-scaled determinant) everything stays in single-precision range"""
    def build(P):
        d = sl(P["d"])[()] * F(1, 10 ** 18)
        return {"d": np.asarray(d, dtype=object)}

    def fn(A):
        f = mh.safe_inv_scalar_clamped
        return dict(v=f(A["d"]), g=jax.grad(f)(A["d"]), j=jax.jacfwd(f)(A["d"]))

    def post(P, A, O, obs):
        for k in O:
            obs.defined("finite-" + k, O[k])
        obs.eq("inverse", O["v"][()] * A["d"][()], 1, F(2, 100))
        for k in ("g", "j"):
            obs.le("slope-limit-" + k, -O[k][()] / 10 ** 6, 1, TOL)
    return Case("near-singular", {"d": (None, -100, 100)}, build, fn, post, pre=lambda P, A: [sp.or_(sl(P["d"])[()] >= 1, sl(P["d"])[()] <= -1)], typed=False, overflow=True, rtol=2e-2,
                functions=["safe_inv_scalar_clamped"], bounds="1e-18 <= |d| <= 1e-16")


def singular():
    """singular matrices: finite results"""
    def build(P):
        x, y, k = (sl(P[i])[()] for i in "xyk")
        return {"m": np.array([[x, k * x], [y, k * y]], dtype=object)}

    def fn(A):
        return dict(m2=mh.inv_2x2_robust(A["m"]))

    def post(P, A, O, obs):
        obs.defined("finite", O["m2"])
    return Case("singular", {"x": (None, -5, 5), "y": (None, -5, 5), "k": (None, -2, 2)}, build, fn, post, typed=False, overflow=True, validate=False, corner=False, functions=["inv_2x2_robust"], bounds="every singular 2x2 matrix")


def inv2():
    def fn(A):
        return dict(i=mh.inv_2x2_robust(A["m"]), c=mh.inv_2x2_robust(A["m"], 1e3))

    def post(P, A, O, obs):
        m = A["m"]
        for k in O:
            obs.eq("left-inverse-" + k, matmul(O[k], m), eye(2), TOL)
            obs.eq("right-inverse-" + k, matmul(m, O[k]), eye(2), TOL)
    return Case("inverse-2x2", {"m": ((2, 2), -5, 5)}, lambda P: {"m": sl(P["m"])}, fn, post, pre=lambda P, A: [sp.or_(det(A["m"]) >= F(1, 100), det(A["m"]) <= -F(1, 100))], typed=False, eps0=True, rtol=2e-2, atol=2e-3, functions=["inv_2x2_robust"],
                bounds="entries up to 5, |det| >= 0.01")


def inv2_grad(mode):
    """directional derivative is -inv dm inv (|det| >= 0.01)"""
    def fn(A):
        jac = (jax.jacfwd if mode == "fwd" else jax.jacrev)(mh.inv_2x2_robust)(A["m"])
        return dict(i=mh.inv_2x2_robust(A["m"]), j=jac)

    def post(P, A, O, obs):
        m = A["m"]
        D = det(m)
        adj = np.array([[m[1, 1], -m[0, 1]], [-m[1, 0], m[0, 0]]], dtype=object)
        for a in range(2):
            for b in range(2):
                for c in range(2):
                    for d in range(2):
                        obs.eq("derivative", O["j"][a, b, c, d] * D * D, -adj[a, c] * adj[d, b], 20 * TOL)
    return Case("derivative-2x2-" + mode, {"m": ((2, 2), -5, 5)}, lambda P: {"m": sl(P["m"])}, fn, post, pre=lambda P, A: [det(A["m"]) >= F(1, 100)], typed=False, eps0=True, rtol=2e-2, atol=2e-3, functions=["inv_2x2_robust"], weight=2,
                bounds="entries up to 5, det >= 0.01, %s mode" % mode)


def inv3():
    def fn(A):
        return dict(i=mh.inv_3x3_robust(A["m"]))

    def post(P, A, O, obs):
        m = A["m"]
        obs.eq("left-inverse", matmul(O["i"], m), eye(3), TOL)
        obs.eq("right-inverse", matmul(m, O["i"]), eye(3), TOL)
    return Case("inverse-3x3", {"m": ((3, 3), -3, 3)}, lambda P: {"m": sl(P["m"])}, fn, post, pre=lambda P, A: [sp.or_(det(A["m"]) >= F(1, 100), det(A["m"]) <= -F(1, 100))], typed=False, eps0=True, rtol=2e-2, atol=2e-3, weight=2, functions=["inv_3x3_robust"],
                bounds="entries up to 3, |det| >= 0.01")


def inv3_grad(k):
    def fn(A):
        t = jnp.zeros((3, 3)).at[k].set(1.0)
        return dict(j=jax.jvp(mh.inv_3x3_robust, (A["m"],), (t,))[1])

    def post(P, A, O, obs):
        m = A["m"]
        D = det(m)
        adj = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                adj[i, j] = det(np.delete(np.delete(m, j, 0), i, 1)) * (-1) ** (i + j)
        for a in range(3):
            for b in range(3):
                obs.eq("derivative[%d,%d]" % (a, b), O["j"][a, b] * D * D, -adj[a, k[0]] * adj[k[1], b], 20 * TOL)
    def build(P):
        m = np.array([[F(1), F(-1, 2), F(1, 2)], [F(1, 4), F(3, 2), F(-1)], [F(-1, 2), F(1, 4), F(2)]], dtype=object)
        fr = [k] + [(i, (i + s) % 3) for s in (1, 2) for i in range(3) if (i, (i + s) % 3) != k][:3]
        for n, e in enumerate(fr):
            m[e] = sl(P["m"])[n]
        return {"m": m}
    return Case("derivative-3x3-%d%d" % k, {"m": (4, -2, 2)}, build, fn, post, pre=lambda P, A: [det(A["m"]) >= F(1, 100)], typed=False, eps0=True, rtol=2e-2, atol=2e-3, weight=3, functions=["inv_3x3_robust"],
                bounds="four free entries up to 2, the others fixed, det >= 0.01, derivative with respect to entry %s" % (k,))


def norm(n):
    def fn(A):
        return dict(v=mh.safe_norm(A["x"]), g=jax.grad(mh.safe_norm)(A["x"]), j=jax.jacfwd(mh.safe_norm)(A["x"]))

    def post(P, A, O, obs):
        x, v = A["x"], O["v"][()]
        s = dot(x, x)
        obs.ge("positive", v, 0, 0)
        obs.eq("norm-squared", v * v, s, TOL)
        for k in ("g", "j"):
            obs.eq("derivative-" + k, O[k] * v, x, TOL)
            obs.defined("finite-" + k, O[k])
    return Case("norm-%dd" % n, {"x": (n, -10, 10)}, lambda P: {"x": sl(P["x"])}, fn, post, typed=False, overflow=True, rtol=5e-3, atol=2e-3, functions=["safe_norm"], bounds="any vector, zero included")


def norm_axis():
    def fn(A):
        return dict(a=mh.safe_norm(A["x"], axis=0), b=mh.safe_norm(A["x"], axis=1), c=mh.safe_norm(A["x"]), e=mh.safe_norm(A["x"], eps=0.25, axis=1))

    def post(P, A, O, obs):
        x = A["x"]
        for j in range(3):
            obs.eq("columns", O["a"][j] * O["a"][j], dot(x[:, j], x[:, j]), TOL)
        for i in range(2):
            obs.eq("rows", O["b"][i] * O["b"][i], dot(x[i], x[i]), TOL)
            obs.eq("floor", O["e"][i] * O["e"][i], dot(x[i], x[i]) + F(1, 4), TOL)
        obs.eq("all", O["c"][()] * O["c"][()], dot(x, x), TOL)
    return Case("norm-axis", {"x": ((2, 3), -10, 10)}, lambda P: {"x": sl(P["x"])}, fn, post, typed=False, rtol=5e-3, atol=2e-3, functions=["safe_norm"], bounds="any 2x3 array")


def norm_zero():
    """at the zero vector: value at most 1e-5, zero derivative, second derivative finite"""
    def fn(A):
        x = A["x"] * 0.0
        return dict(v=mh.safe_norm(x), g=jax.grad(mh.safe_norm)(x), h=jax.jacfwd(jax.grad(mh.safe_norm))(x))

    def post(P, A, O, obs):
        obs.le("value", O["v"][()], F(1, 10 ** 5), 0)
        obs.ge("value", O["v"][()], 0, 0)
        obs.eq("derivative", O["g"], 0, 0)
        obs.defined("finite-second", O["h"])
    return Case("norm-at-zero", {"x": (3, -10, 10)}, lambda P: {"x": sl(P["x"])}, fn, post, typed=False, overflow=True, functions=["safe_norm"], bounds="the zero vector")
