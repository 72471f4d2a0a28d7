"""suggested time steps of the material laws"""
from .steps import *
from .c17 import g_of

TOL = 1e-3
# unit directions with rational components
DIRS = {1: [[F(1)], [F(-1)]], 2: [[F(3, 5), F(-4, 5)], [F(-12, 13), F(5, 13)]], 3: [[F(2, 3), F(-1, 3), F(2, 3)], [F(-2, 7), F(3, 7), F(-6, 7)]]}
LAWS = {
    "elastic": lambda A: hdx.LinearElasticLaw(E=A["E"], nu=A["nu"]),
    "fluid": lambda A: hdx.NewtonFluid(K=A["K"], beta=A["beta"]),
    "granular": lambda A: hdx.MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.01, K=A["K"], rho_p=2.0),
    "drucker-prager": lambda A: hdx.DruckerPrager(K=A["K"], nu=0.25, mu_1=0.5, mu_2=0.0, c0=0.0, mu_1_hat=0.0, H=0.0),
}
PARS = {"elastic": {"E": (None, 1, 100), "nu": (None, 0, F(9, 20))}, "fluid": {"K": (None, 1, 100), "beta": (None, 1, 8)}, "granular": {"K": (None, 1, 100)}, "drucker-prager": {"K": (None, 1, 100)}}


def modulus(law, A):
    if law == "elastic":
        E, nu = A["E"][()], A["nu"][()]
        return E * (1 - nu) / ((1 + nu) * (1 - 2 * nu))
    K = A["K"][()]
    if law == "fluid":
        return K * A["beta"][()]
    if law == "granular":
        return K
    return K + g_of(K, 0.25) * F(4, 3)


def cases(tier, seed):
    out = []
    for l in LAWS:
        for dim in (2, 3, 1) if tier == "thorough" else (2, 3):
            out.append(bound(l, dim, 2 if tier != "thorough" else 3))
        out += [scaling(l), monotone(l), atrest(l)]
    return out


def state(A, n, dim):
    return mp_state(dict(A, pos=jnp.zeros((n, dim))))


def base(law, P, dim, n):
    """densities are written through the wave speeds c: rho = M / c^2; velocities through the speeds: w x unit direction"""
    A = {k: sl(P[k]) for k in PARS[law]}
    A["vol"] = sl(P["vol"])
    M = modulus(law, A)
    c, w = sl(P["c"]), sl(P["w"])
    A["mass"] = np.array([M * A["vol"][i] / (c[i] * c[i]) for i in range(n)], dtype=object)
    A["vel"] = np.array([[x * w[i] for x in DIRS[dim][i % 2]] for i in range(n)], dtype=object)
    A["h"], A["al"] = sl(P["h"]), sl(P["al"])
    return A


def params(law, n):
    return dict(PARS[law], vol=(n, F(1, 2), 2), c=(n, F(1, 10), 10), w=(n, 0, 10), h=(None, F(1, 100), 1), al=(None, F(1, 100), 1))


def bound(law, dim, n):
    def fn(A):
        l = LAWS[law](A)
        return dict(dt=l.get_dt_crit(state(A, n, dim), A["h"], A["al"]), d=l.get_dt_crit(state(A, n, dim), A["h"]))

    def post(P, A, O, obs):
        c, w = sl(P["c"]), sl(P["w"])
        m = c[0] + w[0]
        for i in range(1, n):
            m = sp.max(m, c[i] + w[i])
        for k, al in (("dt", A["al"][()]), ("d", F(1, 2))):
            t = O[k][()]
            obs.ge("positive", t, F(1, 10 ** 6), 0)
            for i in range(n):
                obs.le("stability-limit", t * (c[i] + w[i]), al * A["h"][()], TOL)
            obs.eq("governed-by-the-fastest", t * m, al * A["h"][()], TOL)
    return Case("%s-%dd" % (law, dim), params(law, n), lambda P: base(law, P, dim, n), fn, post, typed=False, eps0=True, rtol=5e-3, weight=2, functions=["%s.get_dt_crit" % law],
                bounds="%d particles, any stiffness, wave speeds in [0.1, 10], particle speeds up to 10 along fixed directions, cell size and safety factor" % n)


def scaling(law):
    """proportional to the cell size and the safety factor"""
    def build(P):
        A = base(law, P, 3, 1)
        A["k"] = sl(P["k"])
        return A

    def fn(A):
        l, s = LAWS[law](A), state(A, 1, 3)
        return dict(a=l.get_dt_crit(s, A["h"], A["al"]), b=l.get_dt_crit(s, A["h"] * A["k"], A["al"]), c=l.get_dt_crit(s, A["h"], A["al"] * A["k"]))

    def post(P, A, O, obs):
        for x in "bc":
            obs.eq("proportional-" + x, O[x][()], O["a"][()] * A["k"][()], TOL)
    return Case(law + "-scaling", dict(params(law, 1), k=(None, F(1, 10), 1)), build, fn, post, typed=False, eps0=True, rtol=5e-3, functions=["%s.get_dt_crit" % law], bounds="one particle, any state; factors in [0.1, 1]")


def monotone(law):
    """a faster wave (stiffer or lighter) or a faster particle never gives a larger step"""
    def build(P):
        A = base(law, P, 3, 1)
        f, g = sl(P["f"])[()], sl(P["g"])[()]
        A["mass2"] = A["mass"] / (f * f)
        A["vel2"] = A["vel"] * g
        A["stiff"] = np.asarray(f * f, dtype=object)
        return A

    def fn(A):
        l = LAWS[law](A)
        k = "E" if law == "elastic" else "K"
        l2 = LAWS[law](dict(A, **{k: A[k] * A["stiff"]}))
        s = state(A, 1, 3)
        return dict(a=l.get_dt_crit(s, A["h"], A["al"]), light=l.get_dt_crit(state(dict(A, mass=A["mass2"]), 1, 3), A["h"], A["al"]),
                    fast=l.get_dt_crit(state(dict(A, vel=A["vel2"]), 1, 3), A["h"], A["al"]), stiff=l2.get_dt_crit(s, A["h"], A["al"]))

    def post(P, A, O, obs):
        c, w, f, g, h, al = sl(P["c"])[0], sl(P["w"])[0], sl(P["f"])[()], sl(P["g"])[()], A["h"][()], A["al"][()]
        obs.eq("light", O["light"][()] * (c * f + w), al * h, TOL)
        obs.eq("fast", O["fast"][()] * (c + w * g), al * h, TOL)
        obs.eq("stiff", O["stiff"][()] * (c * f + w), al * h, TOL)
        for k in ("light", "fast", "stiff"):
            obs.le("never-larger-" + k, O[k][()], O["a"][()], TOL)
    return Case(law + "-monotone", dict(params(law, 1), f=(None, 1, 3), g=(None, 1, 3)), build, fn, post, typed=False, eps0=True, rtol=5e-3, functions=["%s.get_dt_crit" % law], bounds="one particle, any state; speeds raised up to threefold")


def atrest(law):
    """finite at rest"""
    def build(P):
        A = base(law, dict(P, w=np.array([F(0)], dtype=object)), 2, 1)
        return A

    def fn(A):
        return dict(t=LAWS[law](A).get_dt_crit(state(A, 1, 2), A["h"], A["al"]))

    def post(P, A, O, obs):
        obs.eq("at-rest", O["t"][()] * sl(P["c"])[0], A["h"][()] * A["al"][()], TOL)
    p = params(law, 1)
    p.pop("w")
    return Case(law + "-at-rest", p, build, fn, post, typed=False, eps0=True, rtol=5e-3, functions=["%s.get_dt_crit" % law], bounds="one particle at rest")
