"""the nearly incompressible fluid: equation of state, viscosity, and initial states"""
from .steps import *

TOL = 1e-3
BETAS = (1.0, 2.0, 7.0, 1.4)


def cases(tier, seed):
    out = []
    for b in BETAS + ((3.0, 4.0, 1.5) if tier == "thorough" else ()):
        out += [stress(b), monotone(b), inverse(b)]
        for dim in (1, 2, 3):
            out.append(created(b, dim))
    return out


def fluid(A, beta):
    return hdx.NewtonFluid(K=A["K"], viscosity=A.get("mu", 1.0), beta=beta)


def state(A, n=1, dim=3, **kw):
    return mp_state(dict(A, pos=jnp.zeros((n, dim)), **kw))


def eos(K, beta, ratio):
    """max(K (ratio^beta - 1), 0)"""
    r = sp.pow(ratio, F(beta).limit_denominator(100)) if beta != int(beta) else power(ratio, int(beta))
    return sp.max(K * (r - 1), 0)


def power(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def law_state(A, n=1):
    from hydraxmpm import NewtonFluidState
    return NewtonFluidState(density_ref_stack=A["ref"])


def stress(beta):
    n = 2

    def build(P):
        A = {k: sl(P[k]) for k in ("K", "mu", "L", "ref", "dt")}
        A["vol"] = sl(P["vol"])
        # a law of density alone: the mass is written through the density ratio
        A["mass"] = np.array([sl(P["ratio"])[i] * sl(P["ref"])[i] * sl(P["vol"])[i] for i in range(n)], dtype=object)
        A["stress"] = np.array([sym3(P, "s", i) for i in range(n)], dtype=object)
        A["vel"] = sl(P["vel"])
        return A

    def fn(A):
        l = fluid(A, beta)
        mp, ls = l.update(state(A, n), law_state(A), A["dt"])
        return dict(out_mp(mp), ref=ls.density_ref_stack, p=mp.pressure_stack)

    def post(P, A, O, obs):
        K, mu = A["K"][()], A["mu"][()]
        for i in range(n):
            L = A["L"][i]
            p = eos(K, beta, sl(P["ratio"])[i])
            t = trace(L) / 3
            for a in range(3):
                for b in range(3):
                    e = (L[a, b] + L[b, a]) / 2 - (t if a == b else 0)
                    obs.eq("stress", O["stress"][i][a, b], (p if a == b else 0) + 2 * mu * e, TOL)
            obs.eq("pressure", O["p"][i], p, TOL)
            obs.ge("never-pulls", O["p"][i], 0, TOL)
            obs.eq("reference-density-kept", O["ref"][i], A["ref"][i], 0)
        for k in ("vel", "mass", "vol", "L"):
            obs.eq("unchanged-" + k, O[k], A[k], 0)
    return Case("stress-beta%g" % beta, {"K": (None, 1, 100), "mu": (None, 0, 10), "L": ((n, 3, 3), -10, 10), "ref": (n, F(1, 10), 10), "ratio": (n, F(1, 2), F(3, 2)),
                "vol": (n, F(1, 10), 2), "dt": (None, 0, 1), "s": ((n, 6), -5, 5), "vel": ((n, 3), -5, 5)},
                build, fn, post, functions=["NewtonFluid.update"], typed=False, weight=3, atol=2e-3,
                bounds="2 particles, any velocity gradient, K, viscosity, density ratio in [0.5, 1.5], exponent %g" % beta)


def monotone(beta):
    """two particles of the same fluid: the denser one is never at lower pressure; zero at and below the reference density"""
    def build(P):
        r = sl(P["r"])[()]
        A = {k: sl(P[k]) for k in ("K", "mu")}
        A["ref"] = np.array([sl(P["ref"])[()]] * 2, dtype=object)
        A["vol"] = sl(P["vol"])
        A["mass"] = np.array([r * A["ref"][0] * A["vol"][0], r * (1 + sl(P["d"])[()]) * A["ref"][0] * A["vol"][1]], dtype=object)
        return A

    def fn(A):
        l = fluid(A, beta)
        mp, ls = l.update(state(A, 2), law_state(A), 0.1)
        return dict(p=mp.pressure_stack)

    def post(P, A, O, obs):
        r = sl(P["r"])[()]
        obs.ge("monotone", O["p"][1], O["p"][0], TOL)
        obs.le("zero-below-reference", O["p"][0], 0, TOL, when=r <= 1)
        if beta >= 1:
            obs.ge("stiff", O["p"][0], A["K"][()] * (r - 1), TOL)       # convex law: above its tangent for beta >= 1
    return Case("monotone-beta%g" % beta, {"K": (None, 1, 100), "mu": (None, 0, 10), "ref": (None, F(1, 10), 10), "r": (None, F(1, 10), F(3, 2)), "d": (None, 0, 1),
                "vol": (2, F(1, 10), 2)}, build, fn, post, functions=["NewtonFluid.update"], typed=False, atol=5e-3,
                bounds="two particles, density ratios in [0.1, 3], exponent %g" % beta)


def inverse(beta):
    """state created from densities and pressures: the law returns these pressures at these densities"""
    def build(P):
        A = {k: sl(P[k]) for k in ("K", "rho", "x", "vol")}
        A["press"] = np.array([A["x"][i] * A["K"][()] for i in range(2)], dtype=object)
        A["mass"] = np.array([A["rho"][i] * A["vol"][i] for i in range(2)], dtype=object)
        return A

    def fn(A):
        l = fluid(A, beta)
        ls = l.create_state_from_density(density_stack=A["rho"], pressure_stack=A["press"])
        l0 = l.create_state_from_density(density_stack=A["rho"])
        mp, _ = l.update(state(A, 2), ls, 0.1)
        m0, _ = l.update(state(A, 2), l0, 0.1)
        return dict(p=mp.pressure_stack, ref=ls.density_ref_stack, ref0=l0.density_ref_stack, p0=m0.pressure_stack)

    def post(P, A, O, obs):
        K = A["K"][()]
        for i in range(2):
            obs.eq("pressure-recovered", O["p"][i], A["press"][i], TOL)
            obs.eq("unpressurised-reference", O["ref0"][i], A["rho"][i], 1e-4)
            obs.eq("unpressurised", O["p0"][i], 0, TOL)
            obs.le("reference-below", O["ref"][i], A["rho"][i], 1e-4)
    return Case("inverse-beta%g" % beta, {"K": (None, 1, 100), "rho": (2, F(1, 10), 10), "x": (2, 0, 2), "vol": (2, F(1, 10), 2)}, build, fn, post,
                functions=["NewtonFluid.create_state_from_density", "NewtonFluid.update"], typed=False, atol=5e-3,
                bounds="two particles, initial pressures in [0, 2 K], exponent %g" % beta)


def created(beta, dim):
    """state created from material points: their pressure is what the law returns at their initial volume"""
    def build(P):
        A = {k: sl(P[k]) for k in ("K", "mass", "vol0", "x")}
        K = A["K"][()]
        A["stress"] = np.array([sym3(P, "s", i) for i in range(2)], dtype=object)
        for i in range(2):
            A["stress"][i, 2, 2] = 3 * A["x"][i] * K - A["stress"][i, 0, 0] - A["stress"][i, 1, 1]
        return A

    def fn(A):
        l = fluid(A, beta)
        mp = state(A, 2, dim, vol=A["vol0"])
        ls = l.create_state(mp)
        mp, _ = l.update(mp, ls, 0.1)
        return dict(p=mp.pressure_stack, stress=mp.stress_stack)

    def post(P, A, O, obs):
        K = A["K"][()]
        for i in range(2):
            obs.eq("pressure-recovered", O["p"][i], A["x"][i] * K, TOL)
            obs.eq("stress", O["stress"][i], eye(3) * (A["x"][i] * K), TOL)
    return Case("created-beta%g-%dd" % (beta, dim), {"K": (None, 1, 100), "mass": (2, F(1, 10), 10), "x": (2, 0, 2), "vol0": (2, F(1, 10), 2), "s": ((2, 6), -5, 5)},
                build, fn, post, functions=["NewtonFluid.create_state", "NewtonFluid.update"], typed=False, atol=5e-3,
                bounds="two particles, initial pressures in [0, 2 K], exponent %g" % beta)
