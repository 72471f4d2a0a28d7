"""mu(I) rheology: flow stress, its limits, disconnected material and initial states"""
from .steps import *
from .c15 import state

TOL = 1e-3
PAR = {"mus": (None, F(1, 10), 1), "dmu": (None, 0, 1), "I0": (None, F(1, 10), 1), "d": (None, F(1, 100), 1), "K": (None, 1, 100), "rp": (None, F(1, 2), 5),
       "al": (None, F(1, 1000), 1)}


def cases(tier, seed):
    out = [stress(1), disconnected(), inverse()]
    for a, b in ((0, 1), (1, 2), (0, 2)) if tier == "thorough" else ((0, 1), (1, 2)):
        out += [shear(a, b), rate(a, b)]
    out += [aligned(), floor()]
    for dim in (1, 2, 3):
        out.append(created(dim))
    return out


def law(A, **kw):
    return hdx.MuI_LC(mu_s=A["mus"], mu_d=A["mus"] + A["dmu"], I_0=A["I0"], d_p=A["d"], K=A["K"], rho_p=A["rp"], alpha=A["al"], **kw)


def lstate(A):
    return hdx.MuIState(density_ref_stack=A["ref"])


def par(P):
    return {k: sl(P[k]) for k in PAR}


def dense(A, P, n):
    """particles under the pressure s^2 rho_p: density ratio 1 + s^2 rho_p / K"""
    A["ref"], A["vol"] = sl(P["ref"]), sl(P["vol"])
    A["mass"] = np.array([(1 + sl(P["s"])[i] * sl(P["s"])[i] * A["rp"][()] / A["K"][()]) * A["ref"][i] * A["vol"][i] for i in range(n)], dtype=object)
    return A


def dpar(n):
    return dict(PAR, s=(n, F(1, 10), 2), ref=(n, F(1, 10), 10), vol=(n, F(1, 10), 2))


def run(A, n, **kw):
    mp, ls = law(A, **kw).update(state(A, n), lstate(A), A.get("dt", jnp.asarray(0.1)))
    return dict(out_mp(mp), ref=ls.density_ref_stack, p=mp.pressure_stack)


def stress(n):
    def build(P):
        A = dense(par(P), P, n)
        A["L"], A["vel"], A["dt"] = sl(P["L"]), sl(P["vel"]), sl(P["dt"])
        A["stress"] = np.array([sym3(P, "sig", i) for i in range(n)], dtype=object)
        return A

    def post(P, A, O, obs):
        g = {k: A[k][()] for k in PAR}
        for i in range(n):
            L, s = A["L"][i], sl(P["s"])[i]
            p = s * s * g["rp"]
            t = trace(L) / 3
            e = np.array([[(L[a, b] + L[b, a]) / 2 - (t if a == b else 0) for b in range(3)] for a in range(3)], dtype=object)
            gam = sp.sqrt(2 * dot(e, e))
            # viscosity = mu p / rate, static part regularised; mu(I) p / rate = dmu p d / (I0 sqrt(p / rho) + d rate)
            eta = g["mus"] * p / sp.sqrt(gam * gam + g["al"] * g["al"]) + g["dmu"] * p * g["d"] / (g["I0"] * s + g["d"] * gam)
            for a in range(3):
                for b in range(3):
                    obs.eq("stress", O["stress"][i][a, b], (p if a == b else 0) + 2 * eta * e[a, b], 10 * TOL)
            obs.eq("pressure", O["p"][i], p, TOL)
            obs.ge("never-pulls", O["p"][i], 0, TOL)
            obs.eq("reference-density-kept", O["ref"][i], A["ref"][i], 0)
        for k in ("vel", "mass", "vol", "L"):
            obs.eq("unchanged-" + k, O[k], A[k], 0)
    return Case("flow-stress", dict(dpar(n), L=((n, 3, 3), -10, 10), sig=((n, 6), -5, 5), vel=((n, 3), -5, 5), dt=(None, 0, 1)), build, lambda A: run(A, n), post,
                functions=["MuI_LC.update"], typed=False, weight=5, atol=5e-3, bounds="any velocity gradient, friction parameters and pressure of a connected particle")


def one_shear(a, b, g):
    L = np.array([[F(0)] * 3 for _ in range(3)], dtype=object)
    L[a, b] = g
    return L


def shear(a, b):
    """simple shear: shear stress over pressure is the friction function of the inertial number and lies between its limits"""
    def build(P):
        A = dense(par(P), P, 1)
        A["L"] = np.array([one_shear(a, b, sl(P["g"])[()])], dtype=object)
        return A

    def post(P, A, O, obs):
        q = {k: A[k][()] for k in PAR}
        g, s = sl(P["g"])[()], sl(P["s"])[0]
        p = O["p"][0]
        tau = O["stress"][0][a, b]
        reg = g / sp.sqrt(g * g + q["al"] * q["al"])
        num = g * q["d"] / s                               # inertial number
        obs.eq("friction-law", tau, p * (q["mus"] * reg + q["dmu"] * num / (q["I0"] + num)), 10 * TOL)
        obs.eq("symmetric", O["stress"][0][b, a], tau, TOL)
        obs.le("below-dynamic", tau, p * (q["mus"] + q["dmu"]), 10 * TOL)
        obs.ge("above-static", tau, p * q["mus"] * reg, 10 * TOL)
        obs.ge("resists", tau, 0, TOL)
        obs.eq("mean", O["stress"][0][0, 0], p, TOL)
        obs.eq("mean", O["stress"][0][1, 1], p, TOL)
        obs.eq("mean", O["stress"][0][2, 2], p, TOL)
    return Case("simple-shear-%s%s" % ("xyz"[a], "xyz"[b]), dict(dpar(1), g=(None, 0, 20)), build, lambda A: run(A, 1), post, functions=["MuI_LC.update"], typed=False,
                atol=5e-3, weight=2, bounds="simple shear at any rate in [0, 20], any friction parameters and pressure")


def rate(a, b):
    """same material and pressure, larger rate: not smaller shear stress"""
    def build(P):
        A = par(P)
        A["ref"], A["vol"] = sl(P["ref"]), sl(P["vol"])
        s, g = sl(P["s"])[()], sl(P["g"])[()]
        A["mass"] = np.array([(1 + s * s * A["rp"][()] / A["K"][()]) * A["ref"][i] * A["vol"][i] for i in range(2)], dtype=object)
        A["L"] = np.array([one_shear(a, b, g), one_shear(a, b, g + sl(P["t"])[()])], dtype=object)
        return A

    def post(P, A, O, obs):
        obs.ge("grows-with-rate", O["stress"][1][a, b], O["stress"][0][a, b], 10 * TOL)
        obs.eq("same-pressure", O["p"][1], O["p"][0], TOL)
    p = dict(PAR, s=(None, F(1, 10), 2), ref=(2, F(1, 10), 10), vol=(2, F(1, 10), 2), g=(None, F(0), 20), t=(None, 0, 20))
    return Case("rate-%s%s" % ("xyz"[a], "xyz"[b]), p, build, lambda A: run(A, 2), post, functions=["MuI_LC.update"], typed=False, atol=5e-3, weight=2,
                bounds="two simple-shear rates in [0, 40], any friction parameters and pressure")


def aligned():
    """the deviatoric stress is a non-negative multiple of the deviatoric rate: same direction, non-negative dissipation"""
    def build(P):
        A = dense(par(P), P, 1)
        a, b, c, w, t = sl(P["L"])
        A["L"] = np.array([[[a + t, c + w, 0], [c - w, b + t, 0], [0, 0, t - a - b]]], dtype=object)
        return A

    def post(P, A, O, obs):
        L, sg, p = A["L"][0], O["stress"][0], O["p"][0]
        t = trace(L) / 3
        e = np.array([[(L[a, b] + L[b, a]) / 2 - (t if a == b else 0) for b in range(3)] for a in range(3)], dtype=object)
        s = np.array([[sg[a, b] - (p if a == b else 0) for b in range(3)] for a in range(3)], dtype=object)
        for (i, j), (k, l) in (((0, 1), (0, 0)), ((0, 1), (2, 2)), ((0, 0), (1, 1))):
            obs.eq("parallel", s[i, j] * e[k, l], s[k, l] * e[i, j], 0.05)
        for i in range(3):
            obs.ge("same-sense", s[i, i] * e[i, i], 0, TOL)
        obs.ge("same-sense", s[0, 1] * e[0, 1], 0, TOL)
        obs.eq("symmetric", s[0, 1], s[1, 0], TOL)
    return Case("aligned", dict(dpar(1), L=(5, -10, 10)), build, lambda A: run(A, 1), post, functions=["MuI_LC.update"], typed=False, atol=1e-2, weight=5,
                bounds="plane and out-of-plane stretching rates, any friction parameters and pressure")


def floor():
    """a configured minimum pressure never makes the pressure negative and leaves larger pressures alone"""
    def build(P):
        A = dense(par(P), P, 1)
        A["L"] = np.array([one_shear(0, 1, sl(P["g"])[()])], dtype=object)
        A["pm"] = sl(P["pm"])
        return A

    def post(P, A, O, obs):
        s = sl(P["s"])[0]
        p = s * s * A["rp"][()]
        obs.eq("pressure", O["p"][0], p, TOL, when=p > A["pm"][()] + F(1, 100))
        obs.ge("never-pulls", O["p"][0], 0, TOL)
    return Case("pressure-floor", dict(dpar(1), g=(None, 0, 20), pm=(None, 0, 1)), build, lambda A: run(A, 1, p_min_calc=A["pm"]), post, functions=["MuI_LC.update"], typed=False,
                atol=5e-3, bounds="any minimum pressure in [0, 1]")


def disconnected():
    """below the reference density: no stress at all"""
    def build(P):
        A = par(P)
        A["ref"], A["vol"], A["L"] = sl(P["ref"]), sl(P["vol"]), sl(P["L"])
        A["mass"] = np.array([sl(P["r"])[i] * A["ref"][i] * A["vol"][i] for i in range(2)], dtype=object)
        return A

    def post(P, A, O, obs):
        obs.eq("stress-free", O["stress"], 0, TOL)
    return Case("disconnected", dict(PAR, ref=(2, F(1, 10), 10), vol=(2, F(1, 10), 2), r=(2, F(1, 100), 1), L=((2, 3, 3), -10, 10)), build, lambda A: run(A, 2), post,
                functions=["MuI_LC.update"], typed=False, bounds="2 particles at or below their reference density, any velocity gradient",
                pre=lambda P, A: [x <= F(999, 1000) for x in sl(P["r"])])


def inverse():
    def build(P):
        A = par(P)
        for k in ("rho", "x", "vol", "L"):
            A[k] = sl(P[k])
        A["press"] = np.array([A["x"][i] * A["K"][()] for i in range(2)], dtype=object)
        A["mass"] = np.array([A["rho"][i] * A["vol"][i] for i in range(2)], dtype=object)
        return A

    def fn(A):
        l = law(A)
        ls = l.create_state_from_density(density_stack=A["rho"], pressure_stack=A["press"])
        l0 = l.create_state_from_density(density_stack=A["rho"])
        mp, _ = l.update(state(A, 2), ls, 0.1)
        return dict(p=mp.pressure_stack, ref=ls.density_ref_stack, ref0=l0.density_ref_stack)

    def post(P, A, O, obs):
        for i in range(2):
            obs.eq("pressure-recovered", O["p"][i], A["press"][i], TOL)
            obs.eq("reference", O["ref"][i] * (1 + A["x"][i]), A["rho"][i], TOL)
            obs.eq("unpressurised-reference", O["ref0"][i], A["rho"][i], 1e-4)
    return Case("inverse", dict(PAR, rho=(2, F(1, 10), 10), x=(2, F(1, 100), 2), vol=(2, F(1, 10), 2), L=((2, 3, 3), -1, 1)), build, fn, post,
                functions=["MuI_LC.create_state_from_density", "MuI_LC.update"], typed=False, atol=5e-3, bounds="two particles, initial pressures in [0.01 K, 2 K]")


def created(dim):
    def build(P):
        A = par(P)
        for k in ("mass", "x", "vol0"):
            A[k] = sl(P[k])
        K = A["K"][()]
        A["stress"] = np.array([sym3(P, "s", i) for i in range(2)], dtype=object)
        for i in range(2):
            A["stress"][i, 2, 2] = 3 * A["x"][i] * K - A["stress"][i, 0, 0] - A["stress"][i, 1, 1]
        return A

    def fn(A):
        l = law(A)
        mp = state(A, 2, dim, vol=A["vol0"])
        mp, _ = l.update(mp, l.create_state(mp), 0.1)
        return dict(p=mp.pressure_stack)

    def post(P, A, O, obs):
        for i in range(2):
            obs.eq("pressure-recovered", O["p"][i], A["x"][i] * A["K"][()], TOL)
    return Case("created-%dd" % dim, dict(PAR, mass=(2, F(1, 10), 10), x=(2, F(1, 100), 2), vol0=(2, F(1, 10), 2), s=((2, 6), -5, 5)),
                build, fn, post, functions=["MuI_LC.create_state", "MuI_LC.update"], typed=False, atol=5e-3, bounds="two particles, initial pressures in [0.01 K, 2 K]")
