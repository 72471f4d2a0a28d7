"""isotropy of every material law (rotated state -> rotated response), objectivity of the stored tensors under spin"""
from .steps import *
from .c06 import SYM, MG
from .c07 import base, params, set_field
from .c12 import quat, Rq, ANG
from .c17 import N, m3, g_of
from . import c16, c17, c18

TOL = F(1, 1000)
SHARED = ("dt", "mass", "vol", "acc", "p0", "pc", "ref")          # scalars: not rotated
TENS = ("L", "stress", "ee", "sref")


def rot(R, X):
    return matmul(matmul(R, X), R.T)


def cases(tier, seed):
    out = []
    qs = [("a",), ("a", "b", "g")]
    for sym in qs:
        out += [linear(sym), newton(sym)]
    out += [mui(("a",)), dp(("a",), "tri"), dp(("a",), "apex"), mcc(("a",), "mixed", 0.25), mcc(("a",), "stretch", 0.25)]
    for ax in range(3):
        out += [quarter("dp", ax), quarter("mcc", ax), quarter("mui", ax)]
    if tier == "thorough":
        out += [mui(("b",)), mui(("g",)), dp(("b",), "tri"), dp(("g",), "tri"), dp(("b",), "apex"), mcc(("b",), "mixed", 0.25), mcc(("g",), "shear", 0.0), mcc(("a",), "mixed-xz", 0.0)]
    out += [dp_spin(), mcc_spin(0.25), mcc_spin(0.0), fluid_spin(2), fluid_spin(7), mui_spin()]
    for scheme in ("usl", "aflip"):
        for k, d in [("linear", 2), ("linear", 3), ("quadratic", 2)] + ([("cubic", 2), ("quadratic", 3)] if tier == "thorough" else []):
            for l in ("dp", "mcc"):
                out.append(whole(scheme, k, d, l))
    return out


# ---- isotropy
def pair(name, params, build, R, run, tens, scal, functions, bounds, tol=TOL, **kw):
    """run(A) on the state and on the state rotated by R(P)"""
    def b(P):
        A = build(P)
        Q = R(P)
        for k in TENS:
            if k in A:
                A["r" + k] = np.array([rot(Q, x) for x in A[k]], dtype=object)
        return A

    def fn(A):
        o = run({k: v for k, v in A.items() if "r" + k not in A or k not in TENS or True})
        A2 = dict(A)
        for k in TENS:
            if k in A:
                A2[k] = A["r" + k]
        r = run(A2)
        return dict({k: o[k] for k in tens + scal}, **{"r" + k: r[k] for k in tens + scal})

    def post(P, A, O, obs):
        Q = R(P)
        for k in tens:
            obs.eq("rotated-" + k, O["r" + k][0], rot(Q, O[k][0]), tol)
        for k in scal:
            obs.eq("unrotated-" + k, O["r" + k], O[k], tol)
    return Case(name, params, b, fn, post, functions=functions, typed=False, bounds=bounds, **kw)


def angles(sym):
    return {k: (None, -ANG, ANG) for k in sym}


def nm(sym):
    return "".join(sym)


def gen(P):
    return {"L": sl(P["L"]), "stress": np.array([sym3(P, "s", 0)], dtype=object), "dt": sl(P["dt"]), "mass": sl(P["mass"]), "vol": sl(P["vol"])}


GEN = {"L": ((1, 3, 3), -5, 5), "s": ((1, 6), -5, 5), "dt": (None, 0, F(1, 10)), "mass": (1, 1, 2), "vol": (1, 1, 2)}


def st(A):
    return mp_state(dict(A, pos=jnp.zeros((1, 3))))


def linear(sym):
    def build(P):
        A = gen(P)
        A["E"], A["nu"] = sl(P["E"]), sl(P["nu"])
        return A

    def run(A):
        mp, _ = hdx.LinearElasticLaw(E=A["E"], nu=A["nu"]).update(st(A), None, A["dt"])
        return dict(stress=mp.stress_stack)
    return pair("linear-elastic-" + nm(sym), dict(GEN, E=(None, 1, 100), nu=(None, 0, F(9, 20)), **angles(sym)), build, lambda P: Rq(quat(P, sym)), run, ["stress"], [],
                ["LinearElasticLaw.update"], "any state, %d free rotation angles" % len(sym), atol=5e-3)


def newton(sym):
    def build(P):
        A = gen(P)
        A.update(K=sl(P["K"]), mu=sl(P["mu"]), ref=sl(P["ref"]))
        return A

    def run(A):
        mp, ls = hdx.NewtonFluid(K=A["K"], viscosity=A["mu"], beta=2.0).update(st(A), hdx.NewtonFluidState(density_ref_stack=A["ref"]), A["dt"])
        return dict(stress=mp.stress_stack, p=mp.pressure_stack, ref=ls.density_ref_stack)
    return pair("fluid-" + nm(sym), dict(GEN, K=(None, 1, 10), mu=(None, 0, 10), ref=(1, F(1, 2), 2), **angles(sym)), build, lambda P: Rq(quat(P, sym)), run, ["stress"], ["p", "ref"],
                ["NewtonFluid.update"], "any state, %d free rotation angles" % len(sym), atol=5e-3)


def qrot(ax):
    """quarter turn about a coordinate axis"""
    R = np.array([[F(0)] * 3 for _ in range(3)], dtype=object)
    i, j = [k for k in range(3) if k != ax]
    R[ax, ax], R[i, j], R[j, i] = F(1), F(-1), F(1)
    return R


def mui(sym, R=None, name=None, full=False):
    def build(P):
        A = c16.dense(c16.par(P), P, 1)
        A["L"] = sl(P["L"]) if full else np.array([m3(N["mixed"]) * sl(P["e"])[()] + m3(N["shear-yz"]) * sl(P["e2"])[()] + eye(3) * sl(P["v"])[()]], dtype=object)
        A["dt"] = np.asarray(0.1)
        A["stress"] = np.array([sym3(P, "s_", 0)], dtype=object)
        return A

    def run(A):
        mp, ls = c16.law(A).update(st(A), c16.lstate(A), A["dt"])
        return dict(stress=mp.stress_stack, p=mp.pressure_stack, ref=ls.density_ref_stack)
    ps = dict(c16.dpar(1), **{"s_": ((1, 6), -5, 5)}, **angles(sym), **({"L": ((1, 3, 3), -10, 10)} if full else {"e": (None, -10, 10), "e2": (None, -10, 10), "v": (None, -1, 1)}))
    return pair(name or "mui-" + nm(sym), ps, build, R or (lambda P: Rq(quat(P, sym))), run, ["stress"], ["p", "ref"], ["MuI_LC.update"],
                "pressures %s, friction parameters free" % ("and velocity gradients" if full else "and two-parameter families of rates"), tol=10 * TOL, weight=4, atol=5e-3)


def dp(sym, where_, R=None, name=None, full=False):
    """trial strain = two generic directions + volumetric part; spin included as a multiple of a fixed axis"""
    def build(P):
        A = {k: sl(P[k]) for k in c17.PAR}
        if where_ == "apex":
            T = eye(3) * sl(P["v"])[()] + m3(N["shear"]) * sl(P["e"])[()]
        elif full:
            T = sym3(P, "T", 0)
        else:
            T = m3(N["mixed"]) * sl(P["e"])[()] + m3(N["mixed-xz"]) * sl(P["e2"])[()] + eye(3) * sl(P["v"])[()]
        A["dt"] = np.asarray(0.125)
        D = m3(N["shear-yz"]) * sl(P["d"])[()]
        A["L"] = np.array([D], dtype=object)
        A["ee"] = np.array([T - D * F(1, 8)], dtype=object)
        A["mass"], A["vol"] = sl(P["mass"]), sl(P["vol"])
        A["stress"] = np.array([sym3(P, "s", 0)], dtype=object)
        return A

    def run(A):
        ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=A["acc"][None], p_0_stack=A["p0"][None])
        mp, ls = c17.law(A, 0.25).update(st(A), ls, A["dt"])
        return dict(stress=mp.stress_stack, ee=ls.eps_e_stack, acc=ls.eps_p_acc_stack, p0=ls.p_0_stack)
    ps = dict(c17.PAR, e=(None, F(1, 100), 1), e2=(None, -1, 1), v=(None, -1, 1), d=(None, -2, 2), mass=(1, 1, 2), vol=(1, 1, 2), s=((1, 6), -5, 5), **angles(sym))
    if full:
        ps["T"] = ((1, 6), -1, 1)
    return pair(name or "drucker-prager-%s-%s" % (where_, nm(sym)), ps, build, R or (lambda P: Rq(quat(P, sym))), run, ["stress", "ee"], ["acc", "p0"], ["DruckerPrager.update"],
                "any material parameters, trial strains %s, elastic, cone and apex returns" % ("free" if full else "in a three-parameter family"), tol=10 * TOL, eps0=True, weight=5, atol=2e-2, rtol=5e-3)


def mcc(sym, n1, nu, R=None, name=None):
    """elastic and plastic: the return solve is the same function of the same invariants"""
    n = m3(N[n1])

    def build(P):
        A = {k: sl(P[k]) for k in c18.PAR}
        A["vol"] = sl(P["vol"])
        A["mass"] = np.array([A["rp"][()] * A["vol"][0] / (A["N"][()] * sl(P["r"])[0])], dtype=object)
        p, t, e, v = (sl(P[k])[()] for k in ("p", "t", "e", "v"))
        A["stress"] = np.array([n * t + eye(3) * p], dtype=object)
        A["L"] = np.array([m3(N["shear-yz"]) * e + eye(3) * (v / 3)], dtype=object)
        A["dt"] = np.asarray(0.125)
        A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
        A["sref"] = np.array([sym3(P, "sr", 0)], dtype=object)
        A["pc"] = sl(P["pc"])
        return A

    def run(A):
        ls = hdx.ModifiedCamClayState(p_c_stack=A["pc"][None], stress_ref_stack=A["sref"], eps_e_stack=A["ee"])
        mp, ls = c18.law(A, nu).update(st(A), ls, A["dt"])
        return dict(stress=mp.stress_stack, ee=ls.eps_e_stack, pc=ls.p_c_stack, sref=ls.stress_ref_stack)
    ps = dict(c18.PAR, **c18.VP, p=(None, 20, 100), t=(None, -30, 30), e=(None, F(-1, 10), F(1, 10)), v=(None, F(-1, 10), F(1, 10)), ee=((1, 6), -1, 1), sr=((1, 6), 10, 50), pc=(None, 20, 200), **angles(sym))
    return pair(name or "cam-clay-%s-%s-nu%g" % (n1, nm(sym), nu), ps, build, R or (lambda P: Rq(quat(P, sym))), run, ["stress", "ee", "sref"], ["pc"], ["ModifiedCamClay.update"],
                "stress and increment along generic directions, elastic and plastic (return solve abstracted to a function of its inputs)", tol=20 * TOL, eps0=True, havoc=True, weight=5, atol=5e-2, rtol=5e-3, defined=False)


def quarter(l, ax):
    R = lambda P: qrot(ax)
    if l == "dp":
        return dp((), "tri", R, "drucker-prager-quarter-%d" % ax, full=True)
    if l == "mcc":
        return mcc((), "mixed-xz", 0.25, R, "cam-clay-quarter-%d" % ax)
    return mui((), R, "mui-quarter-%d" % ax, full=True)


# ---- spin
def spin_of(w):
    """velocity gradient of the rotation with angular velocity w"""
    return np.array([[F(0), -w[2], w[1]], [w[2], F(0), -w[0]], [-w[1], w[0], F(0)]], dtype=object)


def objective(obs, name, new, old, W, dt, tol):
    """new = old + (W old - old W) dt; trace kept, square grows only with the second order"""
    inc = (matmul(W, old) - matmul(old, W)) * dt
    obs.eq("follows-spin-" + name, new, old + inc, tol)
    obs.eq("trace-kept-" + name, trace(new), trace(old), tol)
    obs.eq("square-kept-" + name, dot(new, new), dot(old, old) + dot(inc, inc), 100 * tol)


def dp_spin():
    def build(P):
        A = {k: sl(P[k]) for k in c17.PAR}
        A["c0"] = np.asarray(200.0)                                   # strong enough to stay elastic
        A["m2"] = np.asarray(1.0)
        A["L"] = np.array([-spin_of(sl(P["w"]))], dtype=object)       # the library stores the negated velocity gradient
        A["dt"], A["mass"], A["vol"] = sl(P["dt"]), sl(P["mass"]), sl(P["vol"])
        A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
        A["stress"] = np.array([sym3(P, "s", 0)], dtype=object)
        return A

    def fn(A):
        ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=A["acc"][None], p_0_stack=A["p0"][None])
        mp, ls = c17.law(A, 0.25).update(st(A), ls, A["dt"])
        return dict(stress=mp.stress_stack, ee=ls.eps_e_stack)

    def post(P, A, O, obs):
        W, dt, K, p0 = spin_of(sl(P["w"])), A["dt"][()], A["K"][()], A["p0"][()]
        e = A["ee"][0]
        objective(obs, "elastic-strain", O["ee"][0], e, W, dt, TOL)
        G = g_of(K, 0.25)
        s0 = eye(3) * (K * trace(e) + p0) + (e - eye(3) * (trace(e) / 3)) * (2 * G)
        obs.eq("follows-spin-stress", O["stress"][0], s0 + (matmul(W, s0) - matmul(s0, W)) * dt, 10 * TOL)
    ps = dict(c17.PAR, w=(3, -2, 2), ee=((1, 6), F(-1, 10), F(1, 10)), dt=(None, 0, F(1, 10)), mass=(1, 1, 2), vol=(1, 1, 2), s=((1, 6), -5, 5))
    ps["m1"], ps["K"] = (None, F(1, 10), F(1, 2)), (None, 10, 50)
    return Case("spin-drucker-prager", ps, build, fn, post, functions=["DruckerPrager.update"], typed=False, eps0=True, weight=3, atol=2e-2, bounds="any angular velocity up to 2 per axis, elastic strain up to 0.1, step up to 0.1")


def mcc_spin(nu):
    def build(P):
        A = {k: sl(P[k]) for k in c18.PAR}
        A["vol"] = sl(P["vol"])
        A["mass"] = np.array([A["rp"][()] * A["vol"][0] / (A["N"][()] * sl(P["r"])[0])], dtype=object)
        A["L"] = np.array([-spin_of(sl(P["w"]))], dtype=object)
        A["dt"] = sl(P["dt"])
        A["stress"] = np.array([sym3(P, "s", 0) + eye(3) * sl(P["p"])[()]], dtype=object)
        A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
        A["pc"] = np.asarray(5000.0)
        return A

    def fn(A):
        ls = hdx.ModifiedCamClayState(p_c_stack=A["pc"][None], stress_ref_stack=A["stress"], eps_e_stack=A["ee"])
        mp, ls = c18.law(A, nu).update(st(A), ls, A["dt"])
        return dict(stress=mp.stress_stack, ee=ls.eps_e_stack, pc=ls.p_c_stack)

    def post(P, A, O, obs):
        W, dt = spin_of(sl(P["w"])), A["dt"][()]
        objective(obs, "stress", O["stress"][0], A["stress"][0], W, dt, 10 * TOL)
        objective(obs, "elastic-strain", O["ee"][0], A["ee"][0], W, dt, TOL)
        obs.eq("hardening-kept", O["pc"][0], A["pc"][()], TOL)
    return Case("spin-cam-clay-nu%g" % nu, dict(c18.PAR, **c18.VP, w=(3, -1, 1), s=((1, 6), -5, 5), p=(None, 50, 100), ee=((1, 6), -1, 1), dt=(None, 0, F(1, 10))), build, fn, post,
                functions=["ModifiedCamClay.update"], typed=False, eps0=True, havoc=True, weight=3, atol=5e-2, rtol=5e-3, bounds="any angular velocity up to 1 per axis, stress well inside the surface")


def fluid_spin(beta):
    def build(P):
        A = {"L": np.array([-spin_of(sl(P["w"])) + eye(3) * sl(P["v"])[()]], dtype=object), "mass": sl(P["mass"]), "vol": sl(P["vol"]), "K": sl(P["K"]), "mu": sl(P["mu"]), "ref": sl(P["ref"])}
        return A

    def fn(A):
        mp, _ = hdx.NewtonFluid(K=A["K"], viscosity=A["mu"], beta=float(beta)).update(st(A), hdx.NewtonFluidState(density_ref_stack=A["ref"]), 0.1)
        return dict(stress=mp.stress_stack, p=mp.pressure_stack)

    def post(P, A, O, obs):
        obs.eq("no-shear-stress-under-spin", O["stress"][0], eye(3) * O["p"][0], TOL)
    return Case("spin-fluid-%d" % beta, {"w": (3, -5, 5), "v": (None, -5, 5), "mass": (1, 1, 2), "vol": (1, 1, 2), "K": (None, 1, 10), "mu": (None, 0, 10), "ref": (1, F(1, 2), 2)}, build, fn, post,
                functions=["NewtonFluid.update"], typed=False, bounds="any spin and volumetric rate", atol=5e-2, rtol=5e-3)


def mui_spin():
    def build(P):
        A = c16.dense(c16.par(P), P, 1)
        A["L"] = np.array([-spin_of(sl(P["w"])) + eye(3) * sl(P["v"])[()]], dtype=object)
        return A

    def fn(A):
        mp, _ = c16.law(A).update(st(A), c16.lstate(A), 0.1)
        return dict(stress=mp.stress_stack, p=mp.pressure_stack)

    def post(P, A, O, obs):
        obs.eq("no-shear-stress-under-spin", O["stress"][0], eye(3) * O["p"][0], TOL)
    return Case("spin-mui", dict(c16.dpar(1), w=(3, -5, 5), v=(None, -1, 1)), build, fn, post, functions=["MuI_LC.update"], typed=False, bounds="any spin and volumetric rate")


# ---- whole steps: the material follows the rotation of the motion on the grid
def whole(scheme, kern, dim, l):
    sym = SYM[(kern, dim)][:1]

    def build(P):
        w = sl(P["w"])
        W = spin_of(w if dim == 3 else [F(0), F(0), w[0]])
        A = {"pos": where(coords(P, 1, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim]), "dt": sl(P["dt"]), "vel": sl(P["vel"]), "W": W}
        P2 = dict(P, g=W[:dim, :dim])
        from .c06 import nodes
        A["nodes"] = np.array([[dot(W[r, :dim], x) + sl(P["b"])[r] for r in range(dim)] for x in nodes(dim, SIZE[kern])], dtype=object)
        A["mass"], A["vol"] = np.array([F(2)], dtype=object), np.array([F(1)], dtype=object)
        A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
        A["stress"] = np.array([sym3(P, "s", 0) + eye(3) * F(75)], dtype=object)
        return A

    def fn(A):
        if l == "dp":
            law = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=200.0, rho_0=0.5)
            ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=jnp.zeros(1), p_0_stack=jnp.full(1, 10.0))
        else:
            law = hdx.ModifiedCamClay(nu=0.25, M=1.25, lam=0.5, kap=0.125, N=3.0, rho_p=4.0, p_ref=1000.0)
            ls = hdx.ModifiedCamClayState(p_c_stack=jnp.full(1, 5000.0), stress_ref_stack=A["stress"], eps_e_stack=A["ee"])
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        s, s0 = one_body(A, scheme, dim, kern, law=law, law_state=ls, forces=(set_field(A),), force_states=(None,), alpha=0.5, n=SIZE[kern], **kw)
        s1 = s(s0)
        return dict(stress=s1.world.material_points[0].stress_stack, ee=s1.mechanics.constitutive_laws[0].eps_e_stack, L=s1.world.material_points[0].L_stack)

    def post(P, A, O, obs):
        W, dt = A["W"], A["dt"][()]
        e = A["ee"][0]
        obs.eq("spin", O["L"][0], -W, TOL)
        objective(obs, "elastic-strain", O["ee"][0], e, W, dt, TOL)
        s0 = A["stress"][0] if l == "mcc" else eye(3) * (20 * trace(e) + 10) + (e - eye(3) * (trace(e) / 3)) * (2 * g_of(F(20), 0.25))
        obs.eq("follows-motion-stress", O["stress"][0], s0 + (matmul(W, s0) - matmul(s0, W)) * dt, 20 * TOL)
    return Case("step-%s-%s-%s%dd" % (scheme, l, kern, dim), {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "w": (3 if dim == 3 else 1, -1, 1), "b": (dim, -5, 5), "vel": ((1, dim), -5, 5),
                "ee": ((1, 6), F(-1, 10), F(1, 10)), "s": ((1, 6), -5, 5), "dt": (None, F(1, 1000), F(1, 20))}, build, fn, post, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1), functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, eps0=True,
                havoc=True, weight=4, atol=5e-2, rtol=5e-3, bounds="one step of a rigidly rotating grid velocity field; any stored stress and strain inside the elastic region")
