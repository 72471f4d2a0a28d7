"""Modified Cam-Clay: elastic response, yield surface, limit lines, state creation"""
from .steps import *
from .c17 import N, m3, g_of
from hydraxmpm.constitutive_laws import modifiedcamclay as mcc

TOL = 1e-3
PAR = {"M": (None, 1, F(3, 2)), "kap": (None, F(1, 10), F(1, 4)), "cp": (None, F(1, 10), F(1, 2)), "N": (None, F(3, 2), 3), "rp": (None, 1, 5)}


def cases(tier, seed):
    out = [yieldf(), moduli(), vacuum(), reversible()]
    nus = (0.25, 0.0) + ((0.4, -0.2) if tier == "thorough" else ())
    names = list(N) if tier == "thorough" else ["shear", "stretch", "mixed"]
    for nu in nus:
        out += [elastic(nu, None), elastic(nu, "max"), elastic(nu, "min")]
        for n in names:
            out.append(boundary(n, nu))
    ex = [(F(1, 4), F(1, 16)), (F(5, 16), F(1, 16)), (F(3, 8), F(1, 8))] + ([(F(3, 16), F(1, 16)), (F(1, 2), F(1, 4)), (F(1, 8), F(1, 16))] if tier == "thorough" else [])
    for lam, kap in ex:
        out += [lines(lam, kap), ocr(lam, kap, None), ocr(lam, kap, "inside"), ocr(lam, kap, "outside"), from_stress(lam, kap)]
        if (1 / (lam - kap)).denominator == 1:
            out.append(from_density(lam, kap))
    return out


def law(A, nu=0.25, **kw):
    g = lambda k, d: A[k] if k in A else d
    return hdx.ModifiedCamClay(nu=nu, M=A["M"], lam=A["lam"] if "lam" in A else A["kap"] + A["cp"], kap=A["kap"], N=g("N", 2.0), rho_p=g("rp", 2.0), p_ref=g("pref", 1000.0), **kw)


def par(P, r=None):
    A = {k: sl(P[k]) for k in PAR}
    A["vol"] = sl(P["vol"])
    A["mass"] = np.array([A["rp"][()] * A["vol"][0] / (A["N"][()] * sl(P["r"])[0])], dtype=object)
    A["vel"] = np.array([[F(1), F(2), F(-1)]], dtype=object)
    return A


VP = {"vol": (1, F(1, 2), 2), "r": (1, F(1, 2), F(99, 100))}


def run(A, nu=0.25, **kw):
    mp = mp_state(dict(A, pos=jnp.zeros((1, 3))))
    ls = hdx.ModifiedCamClayState(p_c_stack=A["pc"][None], stress_ref_stack=A["stress"], eps_e_stack=A["ee"][None])
    mp, ls = law(A, nu, **kw).update(mp, ls, A["dt"])
    return dict(out_mp(mp), pc=ls.p_c_stack, ee=ls.eps_e_stack, ref=ls.stress_ref_stack)


def elastic(nu, lim):
    """general increment well inside the surface"""
    n = m3(N["mixed-xz"])

    def build(P):
        A = par(P)
        p, t = sl(P["p"])[()], sl(P["t"])[()]
        A["stress"] = np.array([n * t + eye(3) * p], dtype=object)
        A["L"], A["dt"], A["pc"] = sl(P["L"]), np.asarray(0.125), sl(P["pc"])
        A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)[0]
        if lim:
            A["Kl"] = sl(P["Kl"])
        return A

    def fn(A):
        return run(A, nu, **({"K_" + lim: A["Kl"]} if lim else {}))

    def post(P, A, O, obs):
        p, t = sl(P["p"])[()], sl(P["t"])[()]
        L, dt = A["L"][0], F(1, 8)
        w, D = (L.T - L) / 2, (L + L.T) / 2                   # spin and rate (L is the negated velocity gradient)
        rot = lambda X: X + (matmul(w, X) - matmul(X, w)) * dt
        tr = trace(D) * dt
        p1 = p * sp.exp(tr / A["kap"][()])
        K = p1 / A["kap"][()]
        if lim == "max":
            K = sp.min(K, A["Kl"][()])
        if lim == "min":
            K = sp.max(K, A["Kl"][()])
        G = g_of(K, nu)
        s1 = rot(n * t) + (D * dt - eye(3) * (tr / 3)) * (2 * G)
        obs.eq("elastic-stress", O["stress"][0], s1 + eye(3) * p1, 20 * TOL)
        obs.eq("elastic-pressure", trace(O["stress"][0]) / 3, p1, 20 * TOL)
        obs.eq("hardening-unchanged", O["pc"][0], A["pc"][()], 0)
        obs.eq("elastic-strain", O["ee"][0], rot(A["ee"]) + D * dt, TOL)
        obs.eq("reference-unchanged", O["ref"], A["stress"], 0)
        for k in ("vel", "mass", "vol", "L"):
            obs.eq("unchanged-" + k, O[k], A[k], 0)
    return Case("elastic-nu%g%s" % (nu, "-K" + lim if lim else ""), dict(PAR, **VP, p=(None, 50, 100), t=(None, -5, 5), L=((1, 3, 3), F(-1, 20), F(1, 20)), pc=(None, 2000, 5000), ee=((1, 6), -1, 1),
                **({"Kl": (None, 100, 2000)} if lim else {})), build, fn, post, functions=["ModifiedCamClay.update"], typed=False, eps0=True, havoc=True, weight=5, rtol=5e-3, atol=5e-2,
                bounds="any velocity gradient (spin included), M, swelling and compression index, pressure in [50,100] well inside the surface%s" % (", bulk modulus limit" if lim else ""))


def boundary(nname, nu):
    """trial states anywhere inside and on the surface: shear and volume increments along a direction"""
    n = m3(N[nname])

    def build(P):
        A = par(P)
        p, t, e, v = (sl(P[k])[()] for k in ("p", "t", "e", "v"))
        A["stress"] = np.array([n * t + eye(3) * p], dtype=object)
        A["L"] = np.array([n * e + eye(3) * (v / 3)], dtype=object)
        A["dt"] = np.asarray(0.125)
        A["ee"] = m3([[0] * 3] * 3)
        p1 = p * sp.exp(v / 8 / A["kap"][()])
        t1 = t + 2 * g_of(p1 / A["kap"][()], nu) * e / 8
        A["pc"] = np.asarray(p1 + 3 * t1 * t1 / (A["M"][()] * A["M"][()] * p1) + sl(P["x"])[()], dtype=object)
        A["t1"], A["p1"] = np.asarray(t1, dtype=object), np.asarray(p1, dtype=object)
        return A

    def post(P, A, O, obs):
        obs.eq("elastic-inside", O["stress"][0], n * A["t1"][()] + eye(3) * A["p1"][()], 20 * TOL)
        obs.eq("hardening-unchanged", O["pc"][0], A["pc"][()], 20 * TOL)
    return Case("inside-%s-nu%g" % (nname, nu), dict(PAR, **VP, p=(None, 20, 100), t=(None, -30, 30), e=(None, F(-1, 10), F(1, 10)), v=(None, F(-1, 10), F(1, 10)), x=(None, F(1, 10), 100)), build,
                lambda A: run({k: v for k, v in A.items() if k not in ("t1", "p1")}, nu), post, functions=["ModifiedCamClay.update"], typed=False, eps0=True, havoc=True, weight=4, rtol=5e-3, atol=5e-2,
                bounds="every trial state inside the surface reached along the direction %s (down to 0.1 from the surface in consolidation pressure)" % nname)


def reversible():
    """a closed volumetric strain path inside the surface returns the stress"""
    def build(P):
        A = par(P)
        A["stress"] = np.array([m3(N["mixed"]) * sl(P["t"])[()] + eye(3) * sl(P["p"])[()]], dtype=object)
        A["v"] = sl(P["v"])
        A["pc"], A["ee"], A["dt"] = sl(P["pc"]), m3([[0] * 3] * 3), np.asarray(0.125)
        return A

    def fn(A):
        l = law(A)
        mp = mp_state(dict(A, pos=jnp.zeros((1, 3)), L=(A["v"] / 3 * jnp.eye(3))[None]))
        ls = hdx.ModifiedCamClayState(p_c_stack=A["pc"][None], stress_ref_stack=A["stress"], eps_e_stack=A["ee"][None])
        m1, l1 = l.update(mp, ls, A["dt"])
        import equinox as eqx
        m2, l2 = l.update(eqx.tree_at(lambda m: m.L_stack, m1, -mp.L_stack), l1, A["dt"])
        return dict(s1=m1.stress_stack, s=m2.stress_stack, pc=l2.p_c_stack, ee=l2.eps_e_stack)

    def post(P, A, O, obs):
        obs.eq("returns", O["s"], A["stress"], 20 * TOL)
        obs.eq("strain-returns", O["ee"], 0, TOL)
        obs.eq("hardening", O["pc"][0], A["pc"][()], 0)
        p, p1, v = sl(P["p"])[()], trace(O["s1"][0]) / 3, A["v"][()]
        obs.ge("compression-stiffens", p1, p, TOL, when=v > 0)
        obs.le("expansion-softens", p1, p, TOL, when=v < 0)
    return Case("closed-path", dict(PAR, **VP, p=(None, 50, 100), t=(None, -5, 5), v=(None, -F(1, 4), F(1, 4)), pc=(None, 1000, 5000)), build, fn, post, functions=["ModifiedCamClay.update"],
                typed=False, eps0=True, havoc=True, weight=3, rtol=5e-3, atol=5e-2, bounds="compression followed by the same expansion or the reverse, volumetric strain up to 3%")


def vacuum():
    """looser than the loosest connected state: stress-free, history kept"""
    def build(P):
        A = par(P)
        A["stress"], A["L"] = np.array([sym3(P, "s", 0)], dtype=object), sl(P["L"])
        A["pc"], A["ee"], A["dt"] = sl(P["pc"]), m3([[0] * 3] * 3), np.asarray(0.125)
        return A

    def post(P, A, O, obs):
        obs.eq("stress-free", O["stress"], 0, 0)
        obs.eq("hardening-kept", O["pc"][0], A["pc"][()], 0)
    return Case("disconnected", dict(PAR, vol=(1, F(1, 2), 2), r=(1, F(101, 100), 5), s=((1, 6), -50, 50), L=((1, 3, 3), -1, 1), pc=(None, 10, 1000)), build, run, post,
                functions=["ModifiedCamClay.update"], typed=False, eps0=True, havoc=True, defined=False, bounds="any stress and velocity gradient of a particle above the limit volume")


def yieldf():
    """the yield function is the Cam-Clay ellipse and its limit ratio lies on it"""
    def build(P):
        r = sl(P["r"])[()]
        return {"p": sl(P["p"]), "q": sl(P["q"]), "M": sl(P["M"]), "pc": np.asarray(sl(P["p"])[()] * (1 + r * r), dtype=object), "pc2": sl(P["pc2"])}

    def fn(A):
        l = hdx.ModifiedCamClay
        qp = l.get_qp_ys(A["pc"], A["p"], A["M"])
        return dict(f=l.yield_function(A["p"], A["pc2"], A["q"], A["M"]), qp=qp, on=l.yield_function(A["p"], A["pc"], qp * A["p"], A["M"]),
                    top=l.yield_function(A["pc2"], A["pc2"], 0.0, A["M"]), csl=l.yield_function(A["pc2"] / 2, A["pc2"], A["M"] * A["pc2"] / 2, A["M"]))

    def post(P, A, O, obs):
        p, q, M, pc, r = A["p"][()], A["q"][()], A["M"][()], A["pc2"][()], sl(P["r"])[()]
        obs.eq("ellipse", O["f"] * M * M, q * q + M * M * p * (p - pc), 0.1)
        obs.eq("limit-ratio", O["qp"], M * r, TOL)
        obs.eq("limit-on-surface", O["on"], 0, 0.1)
        obs.eq("isotropic-limit", O["top"], 0, 0.1)
        obs.eq("critical-state", O["csl"], 0, 0.1)
    return Case("yield-function", {"p": (None, F(1, 10), 50), "q": (None, 0, 50), "M": (None, F(1, 2), 2), "r": (None, 0, 3), "pc2": (None, F(1, 10), 50)}, build, fn, post,
                functions=["ModifiedCamClay.yield_function", "ModifiedCamClay.get_qp_ys"], typed=False, rtol=1e-2, atol=0.1, bounds="any p, q, M and consolidation pressure")


def moduli():
    def fn(A):
        l = hdx.ModifiedCamClay
        K = l.get_K(A["kap"], A["p"])
        return dict(K=K, G=l.get_G(A["nu"], K), Kc=l.get_K(A["kap"], A["p"], A["lo"], A["lo"] + A["d"]), low=l.get_K(A["kap"], A["p"] * 0), p2=l.get_pressure_mcc(A["e"], A["kap"], A["p"]),
                    pc2=l.get_nc_pressure_mcc(A["e"], A["kap"], A["p"]), s=l.get_s(A["e"], K, A["d"]))

    def post(P, A, O, obs):
        g = {k: A[k][()] for k in A}
        O = {k: v[()] for k, v in O.items()}
        obs.eq("bulk", O["K"] * g["kap"], g["p"], TOL)
        obs.eq("shear", O["G"] * 2 * (1 + g["nu"]), 3 * (1 - 2 * g["nu"]) * O["K"], 20 * TOL)
        obs.eq("limited", O["Kc"], sp.max(g["lo"], sp.min(g["lo"] + g["d"], O["K"])), 20 * TOL)
        obs.ge("never-soft", O["low"] * g["kap"], 1, TOL)
        obs.eq("swelling-law", O["p2"], g["p"] * sp.exp(g["e"] / g["kap"]), 20 * TOL)
        obs.eq("compression-law", O["pc2"], g["p"] * sp.exp(g["e"] / g["kap"]), 20 * TOL)
        obs.eq("shear-law", O["s"], 2 * O["K"] * g["e"] + g["d"], 20 * TOL)
    return Case("moduli", {"kap": (None, F(1, 10), 1), "p": (None, 1, 50), "nu": (None, F(-1, 2), F(49, 100)), "lo": (None, 1, 50), "d": (None, 0, 50), "e": (None, F(-1, 10), F(1, 10))},
                lambda P: {k: sl(P[k]) for k in ("kap", "p", "nu", "lo", "d", "e")}, fn, post, functions=["ModifiedCamClay.get_K", "ModifiedCamClay.get_G", "ModifiedCamClay.get_pressure_mcc"],
                typed=False, rtol=5e-3, atol=5e-2, bounds="any pressure >= 1, swelling index, Poisson ratio, limits")


# ---- limit lines: pressures are 16th (or larger) powers so that rational indices give rational volumes
def pw(x, e):
    """x^e for integer e (possibly negative)"""
    e = F(e)
    assert e.denominator == 1
    r = F(1)
    for _ in range(abs(int(e))):
        r = r * x
    return r if e >= 0 else 1 / r


Z = 16
LP = {"u": (2, F(4, 5), F(5, 4)), "z": (None, F(4, 5), F(3, 2)), "N": (None, F(3, 2), 3), "rp": (None, 1, 5), "M": (None, F(1, 2), 2)}


def lp(P, lam, kap, n=2):
    """p = (z u)^16, p_ref = z^16"""
    A = {k: sl(P[k]) for k in ("N", "rp", "M")}
    z = sl(P["z"])[()]
    A["pref"] = np.asarray(pw(z, Z), dtype=object)
    A["p"] = np.array([pw(z * sl(P["u"])[i], Z) for i in range(n)], dtype=object)
    A["lam"], A["kap"] = np.asarray(float(lam)), np.asarray(float(kap))
    return A


def vsl(A, P, lam, kap, u, w):
    """specific volume on the swelling line at p = (z u)^16 after consolidation to (z u w)^16"""
    return A["N"][()] * pw(u * w, -Z * lam) * pw(w, Z * kap)


def lines(lam, kap):
    def build(P):
        A = lp(P, lam, kap)
        A["pc"] = np.array([A["p"][i] * pw(sl(P["w"])[i], Z) for i in range(2)], dtype=object)
        return A

    def fn(A):
        l = hdx.ModifiedCamClay
        lam_, kap_ = float(lam), float(kap)
        return dict(sl=l.get_v_sl(A["pc"], A["p"], A["pref"], A["N"], lam_, kap_), ncl=l.get_v_ncl(A["pc"], A["pref"], A["N"], lam_), ncl0=l.get_v_ncl(A["pref"], A["pref"], A["N"], lam_),
                    csl=l.get_v_csl(A["p"], A["pref"], A["N"], lam_, kap_), sl2=l.get_v_sl(2 * A["p"], A["p"], A["pref"], A["N"], lam_, kap_), same=l.get_v_sl(A["p"], A["p"], A["pref"], A["N"], lam_, kap_),
                    nclp=l.get_v_ncl(A["p"], A["pref"], A["N"], lam_), fk=l.get_v_f_kappa(A["pc"], A["p"], kap_))

    def post(P, A, O, obs):
        u, w = sl(P["u"]), sl(P["w"])
        for i in range(2):
            obs.eq("swelling-line", O["sl"][i], vsl(A, P, lam, kap, u[i], w[i]), TOL)
            obs.eq("compression-line", O["ncl"][i], A["N"][()] * pw(u[i] * w[i], -Z * lam), TOL)
            obs.eq("elastic-factor", O["fk"][i], pw(w[i], Z * kap), TOL)
            obs.eq("lines-meet", O["same"][i], O["nclp"][i], TOL)
            obs.eq("critical-state-line", O["csl"][i], O["sl2"][i], TOL)
        obs.eq("reference-volume", O["ncl0"], A["N"][()], TOL)
    return Case("lines-lam%g-kap%g" % (lam, kap), dict(LP, w=(2, 1, F(5, 4))), build, fn, post, functions=["ModifiedCamClay.get_v_*"], typed=False, rtol=5e-3,
                bounds="two particles, any pressures within a factor 35 of the reference, any OCR up to 35, indices %s and %s" % (lam, kap))


def ocr(lam, kap, mode):
    """states created from an overconsolidation ratio"""
    def build(P):
        A = lp(P, lam, kap)
        if mode == "outside" or mode == "inside":
            A["p"] = np.array([pw(sl(P["z"])[()], Z) * pw(sl(P["u"])[i], Z) for i in range(2)], dtype=object)
            r = sl(P["rr"])
            A["ocr"] = np.array([1 + r[i] * r[i] for i in range(2)], dtype=object)
            f = [(sl(P["f"])[i] if mode == "inside" else 1 + sl(P["f"])[i]) for i in range(2)]
            A["q"] = np.array([A["M"][()] * r[i] * A["p"][i] * f[i] for i in range(2)], dtype=object)
        else:
            A["ocr"] = np.array([pw(sl(P["w"])[i], Z) for i in range(2)], dtype=object)
        return A

    def fn(A):
        A = dict(A, lam=float(lam), kap=float(kap))
        l = law(A)
        st, sig, rho = l.create_state_from_ocr(A["p"], A["ocr"], *([A["q"]] if "q" in A else []))
        return dict(pc=st.p_c_stack, ref=st.stress_ref_stack + 0, sig=sig, rho=rho, ee=st.eps_e_stack, ps=st.p_s_stack)

    def post(P, A, O, obs):
        u, M = sl(P["u"]), A["M"][()]
        for i in range(2):
            p, pr = A["p"][i], A["pref"][()]
            obs.eq("consolidation-pressure", O["pc"][i] / p, A["ocr"][i], 10 * TOL)
            obs.eq("centre", O["ps"][i] * 2, O["pc"][i], 1e-2)
            s = O["sig"][i]
            obs.eq("pressure", trace(s) / 3 / p, 1, TOL)
            q = (s[2, 2] - s[0, 0]) / p                      # triaxial shear stress over pressure
            obs.eq("triaxial", s[1, 1] / p, s[0, 0] / p, TOL)
            obs.eq("reference", O["ref"][i] / p, s / p, 0)
            obs.eq("no-strain", O["ee"][i], 0, 0)
            for a in range(3):
                for b in range(3):
                    if a != b:
                        obs.eq("no-shear", s[a, b], 0, 0)
            if mode is None:
                obs.eq("isotropic", q, 0, TOL)
                obs.eq("density", O["rho"][i] * vsl(A, P, lam, kap, u[i], sl(P["w"])[i]), A["rp"][()], 10 * TOL)
            else:
                obs.le("inside-yield-surface", q * q, M * M * (A["ocr"][i] - 1), 20 * TOL)
                r = sl(P["rr"])[i]
                obs.eq("shear", q, M * r * (sl(P["f"])[i] if mode == "inside" else 1), 10 * TOL)
    p = dict(LP)
    if mode:
        p.update(rr=(2, F(1, 10), 2), f=(2, 0, 1))
    else:
        p.update(w=(2, 1, F(5, 4)))
    return Case("ocr-%s-lam%g-kap%g" % (mode or "isotropic", lam, kap), p, build, fn, post, functions=["ModifiedCamClay.create_state_from_ocr"], typed=False, rtol=5e-3, atol=1e-2, weight=2,
                bounds="two particles, any pressures and overconsolidation ratios%s, indices %s and %s" % (", shear stress %s the surface" % mode if mode else "", lam, kap))


def from_stress(lam, kap):
    """stress on the surface: the surface passes through it; density on its swelling line; at rest it can be updated"""
    def build(P):
        A = lp(P, lam, kap)
        A["q"] = np.array([A["M"][()] * sl(P["rr"])[i] * A["p"][i] for i in range(2)], dtype=object)
        return A

    def fn(A):
        A = dict(A, lam=float(lam), kap=float(kap))
        l = law(A)
        st, rho = l.create_state_from_stress(A["p"], A["q"])
        return dict(pc=st.p_c_stack, rho=rho, ee=st.eps_e_stack, ref=st.stress_ref_stack + 0)

    def post(P, A, O, obs):
        M = A["M"][()]
        for i in range(2):
            r, p = sl(P["rr"])[i], A["p"][i]
            obs.eq("on-surface", O["pc"][i] / p, 1 + r * r, 10 * TOL)
            obs.eq("reference-pressure", trace(O["ref"][i]) / 3 / p, 1, TOL)
            obs.eq("reference-shear", (O["ref"][i][2, 2] - O["ref"][i][0, 0]) / p, M * r, 10 * TOL)
            obs.eq("no-strain", O["ee"][i], 0, 0)
    return Case("from-stress-lam%g-kap%g" % (lam, kap), dict(LP, rr=(2, 0, 2)), build, fn, post, functions=["ModifiedCamClay.create_state_from_stress"], typed=False, rtol=5e-3, atol=1e-2, weight=2,
                bounds="two particles, any pressure and shear stress, indices %s and %s" % (lam, kap))


def from_density(lam, kap):
    """pressure and density: consolidation pressure is the one whose swelling line passes through them; at rest the state stays"""
    def build(P):
        A = lp(P, lam, kap)
        v = [vsl(A, P, lam, kap, sl(P["u"])[i], sl(P["w"])[i]) for i in range(2)]
        A["rho"] = np.array([A["rp"][()] / x for x in v], dtype=object)
        return A

    def fn(A):
        A = dict(A, lam=float(lam), kap=float(kap))
        l = law(A, p_min_calc=0.001)
        st, v = l.create_state_from_density(A["p"], A["rho"])
        return dict(pc=st.p_c_stack, v=v, ref=st.stress_ref_stack + 0, ee=st.eps_e_stack)

    def post(P, A, O, obs):
        for i in range(2):
            obs.eq("consolidation-pressure", O["pc"][i] / A["p"][i], pw(sl(P["w"])[i], Z), 20 * TOL)
            obs.eq("volume", O["v"][i] * A["rho"][i], A["rp"][()], 10 * TOL)
            obs.eq("reference", O["ref"][i] / A["p"][i], eye(3), TOL)
            obs.eq("no-strain", O["ee"][i], 0, 0)
    return Case("from-density-lam%g-kap%g" % (lam, kap), dict(LP, w=(2, 1, F(9, 8))), build, fn, post, functions=["ModifiedCamClay.create_state_from_density"], typed=False, rtol=5e-2, atol=5e-2, weight=2,
                bounds="two particles, any pressure and OCR up to 6, indices %s and %s" % (lam, kap))
