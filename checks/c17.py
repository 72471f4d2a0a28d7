"""Drucker-Prager: yield condition, return mapping, elastic response, disconnection, state creation"""
from .steps import *
from .c06 import pad3

TOL = 1e-3
# deviatoric directions with J2 = 1
N = {
    "shear": [[0, 1, 0], [1, 0, 0], [0, 0, 0]],
    "shear-yz": [[0, 0, 0], [0, 0, -1], [0, -1, 0]],
    "stretch": [[F(3, 7), 0, 0], [0, F(5, 7), 0], [0, 0, F(-8, 7)]],
    "mixed": [[F(3, 7) * F(3, 5), F(4, 5), 0], [F(4, 5), F(-8, 7) * F(3, 5), 0], [0, 0, F(5, 7) * F(3, 5)]],
    "mixed-xz": [[F(-8, 7) * F(4, 5), 0, F(-3, 5)], [0, F(5, 7) * F(4, 5), 0], [F(-3, 5), 0, F(3, 7) * F(4, 5)]],
}
NUS = (0.25, 0.0)


def g_of(K, nu):
    nu = F(nu).limit_denominator(1000)
    return K * (3 * (1 - 2 * nu) / (2 * (1 + nu)))


def cases(tier, seed):
    out = []
    names = list(N) if tier == "thorough" else ["shear", "stretch", "mixed", "mixed-xz"]
    for nu in NUS + ((-0.2, 0.4) if tier == "thorough" else ()):
        for n in names:
            out.append(returned(n, nu))
        out.append(hydrostatic(nu))
        out.append(created(nu))
    out += [elastic("strain"), elastic("rate"), rejoin(), vonmises("shear"), vonmises("stretch")]
    for n in names[:2] if tier != "thorough" else names:
        out.append(path(n))
    return out


PAR = {"K": (None, 10, 100), "m1": (None, F(1, 10), 1), "m2": (None, 0, 1), "c0": (None, 0, 5), "mh": (None, 0, 1), "H": (None, 0, 10), "acc": (None, 0, 2), "p0": (None, -20, 20)}


def law(A, nu, **kw):
    return hdx.DruckerPrager(K=A["K"], nu=nu, mu_1=A["m1"], mu_2=A["m2"], c0=A["c0"], mu_1_hat=A["mh"], H=A["H"], rho_0=0.5, **kw)


def mpst(A, n=1, dim=3):
    return mp_state(dict(A, pos=jnp.zeros((n, dim))))


def run(A, nu):
    ls = hdx.DruckerPragerState(eps_e_stack=A["ee"][None], eps_p_acc_stack=A["acc"][None], p_0_stack=A["p0"][None])
    mp, ls = law(A, nu).update(mpst(A), ls, A["dt"])
    return dict(out_mp(mp), ee=ls.eps_e_stack, acc=ls.eps_p_acc_stack, p0=ls.p_0_stack)


def m3(x):
    return np.array([[F(1) * v for v in r] for r in x], dtype=object)


def trial_case(A, T, P):
    """previous elastic strain and increment whose sum is the trial strain T (the increment is along T's own components plus a symbolic stretch)"""
    d = sl(P["d"])
    D = np.array([[d[0], d[3], 0], [d[3], d[1], 0], [0, 0, d[2]]], dtype=object)
    A["L"] = np.array([D], dtype=object)
    A["dt"] = sl(P["dt"])
    A["ee"] = T - D * A["dt"][()]
    A["vel"] = np.array([[F(1), F(2), F(-1)]], dtype=object)
    A["mass"], A["vol"] = sl(P["mass"]), sl(P["vol"])
    A["stress"] = np.array([sym3(P, "s", 0)], dtype=object)
    return A


TP = {"d": (4, -2, 2), "dt": (None, 0, F(1, 10)), "mass": (1, 1, 2), "vol": (1, 1, 2), "s": ((1, 6), -5, 5)}


def returned(nname, nu):
    n = m3(N[nname])
    a, b = max(((i, j) for i in range(3) for j in range(3)), key=lambda k: abs(n[k]))

    def build(P):
        A = {k: sl(P[k]) for k in PAR}
        T = n * sl(P["e"])[()] + eye(3) * (sl(P["v"])[()] / 3)
        return trial_case(A, T, P)

    def post(P, A, O, obs):
        q = {k: A[k][()] for k in PAR}
        G = g_of(q["K"], nu)
        e, v = sl(P["e"])[()], sl(P["v"])[()]
        jt, pt, c = 2 * G * e, q["K"] * v + q["p0"], q["c0"] + q["H"] * q["acc"]
        sg, ee, acc = O["stress"][0], O["ee"][0], O["acc"][0]
        p = trace(sg) / 3
        s = sg - eye(3) * p
        x = s[a, b] / n[a, b]                                   # sqrt(J2) of the new stress along the trial direction
        c1 = q["c0"] + q["H"] * acc
        f = jt - q["m1"] * pt - q["m2"] * c
        obs.eq("shear-keeps-its-direction", s, n * x, TOL)
        obs.ge("shear-not-reversed", x, 0, TOL)
        obs.le("inside-yield-surface", x, q["m1"] * p + q["m2"] * c1, 10 * TOL)
        obs.ge("tension-limit", q["m1"] * p + q["m2"] * c1, 0, 10 * TOL)
        obs.ge("hardening-never-decreases", acc, q["acc"], 1e-5)
        obs.eq("strain-stress", sg, eye(3) * (q["K"] * trace(ee) + q["p0"]) + (ee - eye(3) * (trace(ee) / 3)) * (2 * G), 10 * TOL)
        inside = f <= 0
        obs.eq("elastic-shear", x, jt, TOL, when=inside)
        obs.eq("elastic-pressure", p, pt, TOL, when=inside)
        obs.eq("elastic-history", acc, q["acc"], 1e-5, when=inside)
        obs.eq("on-surface", x, q["m1"] * p + q["m2"] * c1, 10 * TOL, when=sp.not_(inside))
        # plastic flow
        T = n * e + eye(3) * (v / 3)
        dep = T - ee
        gp = 2 * (dep[a, b] - (trace(dep) / 3 if a == b else 0)) / n[a, b]
        sm = sp.and_(sp.not_(inside), x > F(1, 100))
        obs.eq("dilation", trace(dep), -q["mh"] * gp, TOL, when=sm)
        obs.eq("hardening", acc - q["acc"], q["m2"] * gp, TOL, when=sm)
        obs.ge("flow", gp, 0, TOL)
        # plastic work = sqrt(J2) x shear flow - pressure x dilation (cone), pressure x expansion (apex); never negative
        obs.ge("dissipation-cone", x, q["mh"] * p, 10 * TOL, when=sp.and_(sm, q["mh"] <= q["m1"]))
        apex = sp.and_(sp.not_(inside), x < F(1, 10000))
        obs.le("dissipation-apex", trace(dep), 0, TOL, when=sp.and_(apex, jt > F(1, 100)))
        obs.le("dissipation-apex", p, 0, 10 * TOL, when=sp.and_(apex, jt > F(1, 100)))
        obs.eq("reference-pressure", O["p0"][0], q["p0"], 0)
        for k in ("vel", "mass", "vol", "L"):
            obs.eq("unchanged-" + k, O[k], A[k], 0)
    return Case("return-%s-nu%g" % (nname, nu), dict(PAR, e=(None, F(1, 1000), 1), v=(None, -1, 1), **TP), build, lambda A: run(A, nu), post,
                functions=["DruckerPrager.update"], typed=False, weight=5, atol=2e-2, eps0=True,
                bounds="any material parameters (nu = %g), hardening state, volumetric trial strain and shear trial strain (>= 0.001) along the direction %s" % (nu, nname))


def hydrostatic(nu):
    """no shear in the trial state: elastic in compression, apex in tension"""
    def build(P):
        A = {k: sl(P[k]) for k in PAR}
        return trial_case(A, eye(3) * (sl(P["v"])[()] / 3), P)

    def post(P, A, O, obs):
        q = {k: A[k][()] for k in PAR}
        v = sl(P["v"])[()]
        pt, c = q["K"] * v + q["p0"], q["c0"] + q["H"] * q["acc"]
        sg, acc = O["stress"][0], O["acc"][0]
        p = trace(sg) / 3
        inside = q["m1"] * pt + q["m2"] * c >= F(1, 1000)
        out = q["m1"] * pt + q["m2"] * c <= F(-1, 1000)
        obs.eq("no-shear", sg, eye(3) * p, TOL)
        obs.eq("elastic", p, pt, TOL, when=inside)
        obs.eq("elastic-history", acc, q["acc"], 1e-5, when=inside)
        obs.ge("tension-limit", q["m1"] * p + q["m2"] * (q["c0"] + q["H"] * acc), 0, 10 * TOL)
        obs.eq("apex", q["m1"] * p + q["m2"] * (q["c0"] + q["H"] * acc), 0, 10 * TOL, when=out)
        obs.ge("hardening-never-decreases", acc, q["acc"], 1e-5)
        obs.eq("strain", q["K"] * trace(O["ee"][0]) + q["p0"], p, 10 * TOL)
    return Case("hydrostatic-nu%g" % nu, dict(PAR, v=(None, -1, 1), **TP), build, lambda A: run(A, nu), post, functions=["DruckerPrager.update"], typed=False, eps0=True,
                weight=3, atol=2e-2, bounds="any material parameters (nu = %g), shear-free trial states" % nu)


def elastic(which):
    """general trial state inside the surface: isotropic linear elasticity on the rotated previous strain"""
    def build(P):
        A = {k: sl(P[k]) for k in ("K", "m1", "m2", "c0", "acc", "p0", "mass", "vol", "dt")}
        A["mh"], A["H"] = np.asarray(0.0), np.asarray(1.0)
        if which == "strain":
            A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)[0]
            A["L"] = np.array([m3([[0] * 3] * 3)], dtype=object)
        else:
            A["ee"] = m3([[F(1, 10), F(1, 20), F(-1, 10)], [F(1, 20), F(1, 5), 0], [F(-1, 10), 0, F(1, 8)]])
            A["L"] = sl(P["L"])
        A["vel"], A["stress"] = np.array([[F(1), F(2), F(-1)]], dtype=object), np.array([eye(3)], dtype=object)
        return A

    def trial(A):
        L, dt, ee = A["L"][0], A["dt"][()], A["ee"]
        w = (L.T - L) / 2                                        # material spin (L is the negated velocity gradient)
        D = (L + L.T) / 2
        return ee + (matmul(w, ee) - matmul(ee, w)) * dt + D * dt

    def post(P, A, O, obs):
        t = trial(A)
        G = g_of(A["K"][()], 0.25)
        d = t - eye(3) * (trace(t) / 3)
        p = A["K"][()] * trace(t) + A["p0"][()]
        obs.eq("elastic-stress", O["stress"][0], d * (2 * G) + eye(3) * p, 10 * TOL)
        obs.eq("elastic-strain", O["ee"][0], t, TOL)
        obs.eq("elastic-history", O["acc"][0], A["acc"][()], 1e-5)
    p = {k: PAR[k] for k in ("K", "m1", "m2", "c0", "acc", "p0")}
    p.update(mass=(1, 1, 2), vol=(1, 1, 2), dt=(None, 0, F(1, 10)))
    if which == "strain":
        p["ee"] = ((1, 6), F(-1, 4), F(1, 4))
    else:
        p["L"] = ((1, 3, 3), -1, 1)
    p["K"], p["p0"], p["m1"] = (None, 10, 20), (None, 40, 60), (None, F(9, 10), 1)          # strong and confined: any such increment stays elastic
    return Case("elastic-" + which, p, build, lambda A: run(A, 0.25), post, functions=["DruckerPrager.update"], typed=False, eps0=True, weight=4, atol=2e-2,
                bounds="any elastic strain (components up to 0.25) of a confined strong material" if which == "strain" else "any velocity gradient (spin included) applied to a confined strong material")


def rejoin():
    """lighter than the reference density: stress-free, elastic strain reset, hardening kept"""
    def build(P):
        A = {k: sl(P[k]) for k in PAR}
        A["ee"], A["L"], A["dt"] = np.array([sym3(P, "ee", 0)], dtype=object)[0], sl(P["L"]), sl(P["dt"])
        A["vol"] = sl(P["vol"])
        A["mass"] = np.array([sl(P["r"])[0] * A["vol"][0]], dtype=object)
        A["vel"], A["stress"] = np.array([[F(1), F(2), F(-1)]], dtype=object), np.array([eye(3)], dtype=object)
        return A

    def post(P, A, O, obs):
        obs.eq("stress-free", O["stress"], 0, 0)
        obs.eq("strain-reset", O["ee"], 0, 0)
        obs.eq("hardening-kept", O["acc"][0], A["acc"][()], 0)
    return Case("disconnected", dict(PAR, ee=((1, 6), -1, 1), L=((1, 3, 3), -2, 2), dt=(None, 0, F(1, 10)), vol=(1, F(1, 10), 2), r=(1, F(1, 100), F(49, 100))), build,
                lambda A: run(A, 0.25), post, functions=["DruckerPrager.update"], typed=False, eps0=True, weight=3, defined=False,
                bounds="any state of a particle below the reference density")


def vonmises(nname):
    """without friction the surface is a cylinder: shear is capped, pressure untouched"""
    n = m3(N[nname])
    a, b = max(((i, j) for i in range(3) for j in range(3)), key=lambda k: abs(n[k]))

    def build(P):
        A = {k: sl(P[k]) for k in PAR if k in P}
        A["m1"], A["mh"] = np.asarray(0.0), np.asarray(0.0)
        return trial_case(A, n * sl(P["e"])[()] + eye(3) * (sl(P["v"])[()] / 3), P)

    def post(P, A, O, obs):
        K, H, m2 = A["K"][()], A["H"][()], A["m2"][()]
        G = g_of(K, 0.25)
        p = trace(O["stress"][0]) / 3
        x = (O["stress"][0] - eye(3) * p)[a, b] / n[a, b]
        jt = 2 * G * sl(P["e"])[()]
        cap = m2 * (A["c0"][()] + H * A["acc"][()])
        cap1 = m2 * (A["c0"][()] + H * O["acc"][0])
        obs.eq("pressure", p, K * sl(P["v"])[()] + A["p0"][()], 10 * TOL)
        obs.eq("elastic", x, jt, TOL, when=jt <= cap)
        obs.eq("capped", x, cap1, 10 * TOL, when=jt > cap)
        obs.ge("hardening-never-decreases", O["acc"][0], A["acc"][()], 1e-5)
    p = {k: v for k, v in PAR.items() if k not in ("m1", "mh")}
    return Case("frictionless-" + nname, dict(p, e=(None, F(1, 1000), 1), v=(None, -1, 1), **TP), build, lambda A: run(A, 0.25), post, functions=["DruckerPrager.update"],
                typed=False, eps0=True, weight=3, atol=2e-2, bounds="zero friction, any cohesion and hardening")


def created(nu):
    """a state created from stresses inside the surface returns them when nothing moves"""
    def build(P):
        A = {k: sl(P[k]) for k in ("K", "m1", "m2", "c0", "mh", "H")}
        p = sl(P["p"])
        n = [m3(N["mixed"]), m3(N["shear-yz"])]
        A["stress"] = np.array([n[i] * (sl(P["t"])[i] * A["m1"][()] * p[i]) + eye(3) * p[i] for i in range(2)], dtype=object)
        return A

    def fn(A):
        l = law(A, nu)
        ls = l.create_state(A["stress"])
        mp = mpst(A, 2)
        m2, l2 = l.update(mp, ls, 0.1)
        return dict(s=m2.stress_stack, acc=l2.eps_p_acc_stack, p0=ls.p_0_stack)

    def post(P, A, O, obs):
        obs.eq("stress-kept", O["s"], A["stress"], 10 * TOL)
        obs.eq("pressure", O["p0"], sl(P["p"]), TOL)
        obs.eq("no-hardening", O["acc"], 0, 1e-5)
    p = {k: PAR[k] for k in ("K", "m1", "m2", "c0", "mh", "H")}
    return Case("created-nu%g" % nu, dict(p, p=(2, 1, 50), t=(2, F(1, 100), F(99, 100))), build, fn, post, functions=["DruckerPrager.create_state", "DruckerPrager.update"],
                typed=False, eps0=True, weight=3, atol=2e-2, bounds="two particles with any stress inside the surface")


def path(nname):
    """two consecutive updates: the hardening variable never decreases along a path (each update is covered for any state by `returned`)"""
    n = m3(N[nname])
    a, b = max(((i, j) for i in range(3) for j in range(3)), key=lambda k: abs(n[k]))

    def build(P):
        A = {k: sl(P[k]) for k in PAR}
        A["mh"] = np.asarray(0.0)
        A["ee"] = n * sl(P["e"])[()] + eye(3) * (sl(P["v"])[()] / 3)
        A["L"] = np.array([n * sl(P["de"])[()] + eye(3) * (sl(P["dv"])[()] / 3)], dtype=object)
        A["vel"], A["stress"] = np.array([[F(1), F(2), F(-1)]], dtype=object), np.array([eye(3)], dtype=object)
        A["dt"] = np.asarray(0.5)
        return A

    def fn(A):
        l = law(A, 0.25)
        ls = hdx.DruckerPragerState(eps_e_stack=A["ee"][None], eps_p_acc_stack=A["acc"][None], p_0_stack=A["p0"][None])
        mp = mpst(A)
        m1, l1 = l.update(mp, ls, 0.5)
        m2, l2 = l.update(m1, l1, 0.5)
        return dict(s=m2.stress_stack, acc1=l1.eps_p_acc_stack, acc=l2.eps_p_acc_stack, ee1=l1.eps_e_stack)

    def post(P, A, O, obs):
        q = {k: A[k][()] for k in PAR}
        obs.ge("hardening-never-decreases", O["acc"][0], O["acc1"][0], 1e-5)
        obs.ge("hardening-never-decreases", O["acc1"][0], q["acc"], 1e-5)

    return Case("path-" + nname, dict(PAR, e=(None, F(1, 100), F(1, 2)), v=(None, F(1, 10), 1), de=(None, F(0), 1), dv=(None, 0, 1), p0=(None, 1, 20), H=(None, 0, 1)), build, fn, post,
                functions=["DruckerPrager.update"], typed=False, eps0=True, weight=6, atol=2e-2, bounds="two compressive shear increments along %s" % nname)
