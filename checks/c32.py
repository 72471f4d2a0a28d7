"""Modified Cam-Clay plasticity: what the return mapping settles on (its solution is a rest point of the iteration)"""
from .steps import *
from .c17 import N, m3, g_of
from .c18 import PAR, VP, TOL, law, par, run

S3 = 3


def cases(tier, seed):
    out = []
    names = list(N) if tier == "thorough" else ["shear", "mixed"]
    for nu in (0.25, 0.0) if tier != "thorough" else (0.25, 0.0, 0.375, -0.25):
        for n in names:
            for soft in (False, True):
                out.append(plastic(n, nu, soft))
    return out


def target(P, nu):
    """a state on the surface, and the previous state and increment that lead there"""
    g = lambda k: sl(P[k])[()]
    M, kap, U, r, w, y, f = (g(k) for k in ("M", "kap", "U", "rr", "w", "y", "f"))
    p = sp.exp(U)
    pc = p * (1 + 3 * r * r)
    t = M * r * p                                            # deviator n t, q = sqrt(3) t on q^2 = M^2 p (pc - p)
    mu = (f - 1) / (6 * g_of(p / kap, nu))                   # the trial deviator is f times the final one
    z = (f - 1) * (1 - 3 * r * r) * M * M / (6 * g_of(F(1), nu))
    cp = kap * z / w                                         # plastic volumetric strain cp w = mu (2p - pc) M^2
    pprev, ev = p * sp.exp(-y), kap * (y + z)
    return dict(p=p, pc=pc, t=t, mu=mu, ttr=t * f, pprev=pprev, ptr=pprev * sp.exp(ev / kap), pcprev=pc * sp.exp(-w), ev=ev, cp=cp, u=U + sp.log(1 + 3 * r * r))


def plastic(nname, nu, soft):
    n = m3(N[nname])

    def build(P):
        T = target(P, nu)
        A = par(dict(P, cp=T["cp"]))
        e = sl(P["e"])[()]
        Gtr = g_of(T["ptr"] / A["kap"][()], nu)
        A["stress"] = np.array([n * (T["ttr"] - 2 * Gtr * e) + eye(3) * T["pprev"]], dtype=object)
        A["L"] = np.array([n * (e * 8) + eye(3) * (T["ev"] * 8 / 3)], dtype=object)
        A["dt"] = np.asarray(0.125)
        A["ee"] = m3([[0] * 3] * 3)
        A["pc"] = np.asarray(T["pcprev"], dtype=object)
        return A

    def pre(P, A):
        T = target(P, nu)
        M = A["M"][()]
        G, q2, a = g_of(T["p"] / A["kap"][()], nu), 3 * T["t"] * T["t"], 2 * T["p"] - T["pc"]
        dp = -(T["cp"] / A["kap"][()]) * T["p"]
        k = 1 / (1 + 6 * G * T["mu"])
        shear = 12 * G * k * q2 / (M * M)
        dG = G * dp / T["p"]
        # regular solution: softening stays below the elastic stiffness (no snap-back), as on the hardening side
        jac = shear * (T["cp"] - T["mu"] * M * M * (2 * dp - T["pc"])) - M * M * a * (a * dp - T["p"] * T["pc"] - 12 * dG * T["mu"] * k * q2 / (M * M))
        return [jac >= shear * T["cp"] / 5, T["cp"] >= F(1, 10), T["cp"] <= 1, 3 * T["ttr"] * T["ttr"] / (M * M) + T["ptr"] * T["ptr"] - T["pcprev"] * T["ptr"] > 0]

    def fix(P, A):
        T = target(P, nu)
        U = T["u"]
        return [[T["mu"], U], [U, T["mu"]], [T["mu"], T["pc"]], [T["pc"], T["mu"]]]

    def post(P, A, O, obs):
        T = target(P, nu)
        M = A["M"][()]
        s = O["stress"][0]
        p1 = trace(s) / 3
        d = s - eye(3) * p1
        J = sum(d[i, j] * d[i, j] for i in range(3) for j in range(3))
        obs.eq("hardening", O["pc"][0] / T["pc"], 1, TOL)
        obs.eq("pressure", p1 / T["p"], 1, TOL)
        obs.eq("on-yield-surface", (J * F(3, 2) / (M * M) + p1 * p1 - p1 * O["pc"][0]) / (T["p"] * T["p"]), 0, 3 * TOL)
        K = T["p"] / A["kap"][()]
        ee = O["ee"][0]
        tre = trace(ee)
        p0 = trace(A["stress"][0]) / 3
        obs.eq("elastic-volume-strain", (tre * K - (p1 - p0)) / T["p"], 0, TOL)
        obs.eq("elastic-shear-strain", ((ee - eye(3) * (tre / 3)) * (2 * g_of(K, nu)) - (d - (A["stress"][0] - eye(3) * p0))) / T["p"], 0, 3 * TOL)
        obs.settles("settles", sp.max(sp.abs(p1 / T["p"] - 1), sp.abs(O["pc"][0] / T["pc"] - 1)))
        obs.eq("flow", d / T["p"], n * (T["t"] / T["p"]), 3 * TOL)
    b = dict({k: PAR[k] for k in PAR if k != "cp"}, **VP, f=(None, F(101, 100), F(3, 2)), e=(None, F(-1, 100), F(1, 100)), y=(None, F(-1, 20), F(1, 20)))
    b.update(dict(U=(None, 5, 6), rr=(None, F(13, 20), F(9, 10)), w=(None, F(-1, 10), F(-1, 100)), f=(None, F(101, 100), F(6, 5))) if soft else dict(U=(None, 4, 6), rr=(None, F(1, 20), F(1, 2)), w=(None, F(1, 100), F(1, 10))))
    return Case("plastic-%s-nu%g-%s" % (nname, nu, "dry" if soft else "wet"), b, build, lambda A: run(A, nu), post, pre=pre, fix=fix, functions=["ModifiedCamClay.update", "inv_2x2_robust"], typed=False, eps0=True, exp_den=1,
                weight=4, rtol=5e-3, atol=5e-2, bounds="any increment to a state on the %s side of the surface, previous state up to 10 %% softer or harder, trial deviator up to %s times the final one, no snap-back; nu %g; direction %s; no spin" % ("dry" if soft else "wet", "1.2" if soft else "1.5", nu, nname))
