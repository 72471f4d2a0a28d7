"""the single-point driver: increments, options, what the law sees, agreement with a simulation step, triaxial paths"""
import itertools
import equinox as eqx
from .steps import *
from .c06 import SYM, MG, pad3
from .c07 import base, params, set_field
from .c17 import g_of
from . import c16, c17, c18

TOL = F(1, 1000)


class Echo(hdx.ConstitutiveLaw):
    """stand-in material that reports the state it was given"""
    def update(self, mp, ls, dt):
        new = dict(rho=mp.density_stack, vol=mp.volume_stack, F=mp.F_stack, L=mp.L_stack, stress=mp.stress_stack, dt=jnp.asarray(dt) + ls["dt"])
        return eqx.tree_at(lambda m: m.stress_stack, mp, mp.stress_stack + mp.L_stack * dt + 2.0 * jnp.eye(3) * mp.density_stack[:, None, None]), new


def ECHO(n):
    z = jnp.zeros((n, 3, 3))
    return dict(rho=jnp.zeros(n), vol=jnp.zeros(n), F=z, L=z, stress=z, dt=jnp.zeros(()))


def cases(tier, seed):
    out = []
    for opt, arg in itertools.product((None, False, True), (None, False, True)):
        if opt is True and arg is None:
            continue                                   # see configured_linear
        for n in (1, 2) if opt is None else (1,):
            out.append(fields(opt, arg, n))
    out += [configured_linear(), law_sees(), stored(), strains(False), strains(True)]
    for fam in ("diagonal", "rotation", "nilpotent"):
        out += [exact(fam, 1), exact(fam, 3)]
    out += [history(True, 2), history(True, 3), history(False, 2)]
    for scheme in ("usl", "aflip"):
        for k, d in [("linear", 2), ("linear", 3)] + ([("quadratic", 2), ("cubic", 2), ("quadratic", 3)] if tier == "thorough" else []):
            for l in ("echo", "linear", "newton", "mui", "dp", "mcc"):
                out.append(agree(scheme, k, d, l))
    for lin in (False,):
        for n, stride in ((2, 1), (4, 2), (3, 1)) + (((6, 3), (6, 2), (5, 1)) if tier == "thorough" else ()):
            for static in (False, True):
                for arr_ in (False, True):
                    out.append(undrained(lin, n, stride, static, arr_))
    for const_p in (False, True):
        for it in (1, 2, 3):
            out.append(drained(const_p, it, 1))
        out.append(drained(const_p, 1, 2))
    return out


def inc(lin, L, dt):
    return eye(3) - L * dt if lin else sp.expm(-(L * dt))


def mats(P, n):
    return {"L": sl(P["L"]), "F": sl(P["F"]), "Fs": sl(P["Fs"]), "stress": np.array([sym3(P, "s", i) for i in range(n)], dtype=object), "mass": sl(P["mass"]), "vol": sl(P["vol"]),
            "vol0": sl(P["vol0"]), "dt": sl(P["dt"]), "pos": sl(P["pos"]), "vel": sl(P["vel"]), "force": sl(P["force"])}


def mpars(n):
    v = ((n, 3), -5, 5)
    return {"L": ((n, 3, 3), -5, 5), "F": ((n, 3, 3), -2, 2), "Fs": ((n, 3, 3), -2, 2), "s": ((n, 6), -10, 10), "mass": (n, 1, 5), "vol": (n, F(1, 10), 2), "vol0": (n, F(1, 10), 2),
            "dt": (None, 0, F(1, 5)), "pos": v, "vel": v, "force": v}


def driver(law, opt):
    return hdx.ElementTestDriver(law) if opt is None else hdx.ElementTestDriver(law, is_F_linear_approx=opt)


def outs(mp, ls=None):
    r = dict(out_mp(mp))
    if mp.F_store_stack is not None:
        r["Fs"] = mp.F_store_stack
    if ls is not None:
        r.update({"seen_" + k: v for k, v in ls.items()})
    return r


def fields(opt, arg, n):
    lin = bool(opt) if arg is None else arg

    def fn(A):
        d = driver(Echo(), opt)
        a = (mp_state({k: v for k, v in A.items() if k not in ("L", "dt")}), ECHO(n), A["L"], A["dt"])
        mp, ls = d.step(*a) if arg is None else d.step(*a, is_F_linear_approx=arg)
        return outs(mp, ls)

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            Fi = inc(lin, A["L"][i], dt)
            Fn = matmul(Fi, A["F"][i])
            obs.eq("deformation", O["F"][i], Fn, TOL)
            v = det(sl(O["F"][i])) * A["vol0"][i]
            obs.eq("volume", O["vol"][i], v, TOL)
            w = O["seen_vol"][i]
            obs.eq("law-sees-density-of-volume", O["seen_rho"][i] * w, A["mass"][i], TOL, when=w > F(1, 10))
            obs.eq("law-sees-deformation", O["seen_F"][i], sl(O["F"][i]), TOL)
            obs.eq("law-sees-gradient", O["seen_L"][i], A["L"][i], 0)
            obs.eq("law-sees-stress", O["seen_stress"][i], A["stress"][i], 0)
            obs.eq("stress-kept-from-law", O["stress"][i], A["stress"][i] + A["L"][i] * dt + eye(3) * (2 * O["seen_rho"][i]), TOL, when=w > F(1, 10))
        obs.eq("law-sees-step", O["seen_dt"], dt, 0)
        obs.eq("gradient-stored", O["L"], A["L"], 0)
        for k in ("pos", "vel", "mass", "vol0", "force"):
            obs.eq("unchanged-" + k, O[k], A[k], 0)
    return Case("fields-%s-%s-%dp" % (opt, arg, n), mpars(n), lambda P: mats(P, n), fn, post, functions=["ElementTestDriver.step"], typed=False, eps0=True, defined=False, atol=2e-2,
                bounds="any gradient, deformation and state of %d point(s); configured %s, per-step %s" % (n, opt, arg))


def configured_linear():
    return defect("configured-linear", lambda A: outs(hdx.ElementTestDriver(Inert(), is_F_linear_approx=True).step(mp_state({k: v for k, v in A.items() if k not in ("L", "dt")}), None, A["L"], A["dt"])[0]),
                  lambda A, O, obs: obs.eq("deformation", O["F"][0], matmul(inc(True, A["L"][0], A["dt"][()]), A["F"][0]), TOL))


def law_sees():
    def post(A, O, obs):
        obs.eq("volume", O["seen_vol"][0], det(sl(O["F"][0])) * A["vol0"][0], TOL)
    return defect("law-sees-new-state", lambda A: outs(*hdx.ElementTestDriver(Echo()).step(mp_state({k: v for k, v in A.items() if k not in ("L", "dt")}), ECHO(1), A["L"], A["dt"], is_F_linear_approx=True)), post)


def stored():
    return defect("stored-deformation", lambda A: outs(hdx.ElementTestDriver(Inert()).step(mp_state({k: v for k, v in A.items() if k not in ("L", "dt")}), None, A["L"], A["dt"], is_F_linear_approx=True)[0]),
                  lambda A, O, obs: obs.eq("deformation", O["Fs"][0], matmul(inc(True, A["L"][0], A["dt"][()]), A["Fs"][0]), TOL))


def defect(name, fn, post):
    """one statement of the property that the driver breaks (KNOWN_FINDINGS.txt), apart from the cases for all the others"""
    return Case(name, mpars(1), lambda P: mats(P, 1), fn, lambda P, A, O, obs: post(A, O, obs), functions=["ElementTestDriver.step"], typed=False, eps0=True, defined=False, atol=2e-2,
                bounds="any gradient, deformation and state of one point")


def strains(many):
    """the recorded axial strain belongs to the recorded states"""
    n, stride = 4, 2

    def fn(A):
        t = hdx.TriaxialTest(hdx.ElementTestDriver(hdx.LinearElasticLaw(E=10.0, nu=0.25)), 5.0, A["rate"], A["dt"], is_undrained=True, num_steps=n, stride=stride)
        return {"strain": t.axial_strain_stack}

    def post(P, A, O, obs):
        ax = F(0)
        for k in range(n):
            ax = ax + (A["rate"][k] * A["dt"][k] if many else A["rate"][()] * A["dt"][()])
            if (k + 1) % stride == 0:
                obs.eq("axial-strain", O["strain"][k // stride], ax, TOL)
    ps = {"rate": ((n,) if many else None, -2, 2), "dt": ((n,) if many else None, 0, F(1, 10))}
    return Case("recorded-strain%s" % ("-rates" if many else ""), ps, lambda P: {k: sl(P[k]) for k in ps}, fn, post, defined=False, functions=["TriaxialTest.axial_strain_stack"], typed=False, atol=1e-2,
                bounds="%d steps, stride %d, any rate and step" % (n, stride))


def family(P, fam):
    l = sl(P["l"])
    z = F(0)
    if fam == "diagonal":
        return np.array([[l[0], z, z], [z, l[1], z], [z, z, l[2]]], dtype=object)
    if fam == "rotation":
        return np.array([[l[0], -l[1], z], [l[1], l[0], z], [z, z, l[2]]], dtype=object)
    return np.array([[z, l[0], l[1]], [z, z, l[2]], [z, z, z]], dtype=object)


def exact(fam, steps):
    """N steps of a constant gradient integrate it exactly: exp of the total"""
    def build(P):
        A = mats(dict(P, L=np.zeros((1, 3, 3), dtype=object)), 1)
        A["L"] = np.array([family(P, fam)], dtype=object)
        return A

    def fn(A):
        d = hdx.ElementTestDriver(Inert())
        mp = mp_state({k: v for k, v in A.items() if k not in ("L", "dt")})
        ls = None
        for _ in range(steps):
            mp, ls = d.step(mp, ls, A["L"], A["dt"])
        return outs(mp)

    def post(P, A, O, obs):
        l, t = sl(P["l"]), A["dt"][()] * steps
        z = F(0)
        if fam == "diagonal":
            E = np.array([[sp.exp(-(l[0] * t)), z, z], [z, sp.exp(-(l[1] * t)), z], [z, z, sp.exp(-(l[2] * t))]], dtype=object)
        elif fam == "rotation":
            t1 = A["dt"][()]
            r, w = sp.exp(-(l[0] * t1)), -(l[1] * t1)
            E = np.array([[r * sp.cos(w), -(r * sp.sin(w)), z], [r * sp.sin(w), r * sp.cos(w), z], [z, z, sp.exp(-(l[2] * t1))]], dtype=object)
        else:
            E = np.array([[F(1), -(l[0] * t), l[0] * l[2] * t * t / 2 - l[1] * t], [z, F(1), -(l[2] * t)], [z, z, F(1)]], dtype=object)
        if fam == "rotation":                         # E is one step here; the total is its power
            E1 = E
            for _ in range(steps - 1):
                E = matmul(E, E1)
        obs.eq("deformation", O["F"][0], matmul(E, A["F"][0]), 10 * TOL)
        tr = l[0] + l[1] + l[2] if fam == "diagonal" else l[0] * 2 + l[2] if fam == "rotation" else z
        obs.eq("volume", O["vol"][0], sp.exp(-(tr * t)) * det(A["F"][0]) * A["vol0"][0] if fam != "nilpotent" else det(A["F"][0]) * A["vol0"][0], 10 * TOL)
    ps = dict(mpars(1), l=(3, -2, 2))
    ps.pop("L")
    return Case("exponential-%s-%d" % (fam, steps), ps, build, fn, post, functions=["ElementTestDriver.step"], typed=False, atol=1e-2, defined=False,
                bounds="%d equal step(s), any %s gradient" % (steps, fam), eps0=True, exp_den=1)


def history(lin, steps):
    def build(P):
        A = mats(dict(P, L=np.zeros((1, 3, 3), dtype=object)), 1)
        A["L"] = sl(P["Ls"])[:, None] if lin else np.array([family({"l": P["l"][k]}, "diagonal")[None] for k in range(steps)], dtype=object)
        A["dt"] = sl(P["dts"])
        return A

    def fn(A):
        d = hdx.ElementTestDriver(hdx.LinearElasticLaw(E=10.0, nu=0.25))
        mp, ls = mp_state({k: v for k, v in A.items() if k not in ("L", "dt")}), None
        for k in range(steps):
            mp, ls = d.step(mp, ls, A["L"][k], A["dt"][k], is_F_linear_approx=lin)
        return outs(mp)

    def post(P, A, O, obs):
        Fn, e = A["F"][0], None
        for k in range(steps):
            L, dt = A["L"][k][0], A["dt"][k]
            Fn = matmul(inc(lin, L, dt), Fn)
            d = np.array([[(L[i, j] + L[j, i]) / 2 * dt for j in range(3)] for i in range(3)], dtype=object)
            e = d if e is None else e + d
        obs.eq("deformation", O["F"][0], Fn, 10 * TOL)
        obs.eq("volume", O["vol"][0], det(sl(O["F"][0])) * A["vol0"][0], 10 * TOL)
        obs.eq("stress", O["stress"][0], A["stress"][0] + eye(3) * (4 * trace(e)) + e * 8, 10 * TOL)
        obs.eq("last-gradient", O["L"][0], A["L"][steps - 1][0], 0)
    ps = dict(mpars(1), dts=(steps, 0, F(1, 5)), **({"Ls": ((steps, 3, 3), -2, 2)} if lin else {"l": ((steps, 3), -2, 2)}))
    ps.pop("L"), ps.pop("dt")
    return Case("history-%s-%d" % ("linear" if lin else "exponential", steps), ps, lambda P: build(dict(P, dt=F(0))), fn, post, functions=["ElementTestDriver.step", "LinearElasticLaw.update"], typed=False, defined=False, atol=2e-2,
                bounds="%d steps with different gradients and step sizes" % steps, weight=3)


# ---- the same increment in a simulation and in the driver
def agree(scheme, kern, dim, l):
    sym = SYM[(kern, dim)][:1]

    def build(P):
        P = dict(P)
        if l in ("mui", "mcc"):                        # generic directions with free amplitudes keep the invariants tractable
            g = sl(P["ga"])
            G = np.array([[g[0], g[1], F(0)], [g[1] / 2, -g[0], F(0)], [F(0), F(0), g[2]]], dtype=object)
            P["g"] = G[:dim, :dim]
        A = base(P, kern, dim, 1, sym)
        A["vel"] = sl(P["vel"])
        if l in ("dp", "mcc"):
            A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
            A["stress"] = A["stress"] + np.array([eye(3) * F(75)], dtype=object)
        if l in ("newton", "mui", "dp", "mcc"):        # density 2, slightly compacted
            A["F"] = np.array([eye(3)], dtype=object)
            A["vol"] = A["vol0"]
            A["mass"] = np.array([A["vol0"][0] * 2], dtype=object)
        A["F"] = A["Fs"] = A["F"]
        return A

    def fn(A):
        ls = None
        if l == "echo":
            law, ls = Echo(), ECHO(1)
        elif l == "linear":
            law = hdx.LinearElasticLaw(E=10.0, nu=0.25)
        elif l == "newton":
            law, ls = hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), hdx.NewtonFluidState(density_ref_stack=jnp.full(1, 1.5))
        elif l == "mui":
            law, ls = hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25), hdx.MuIState(density_ref_stack=jnp.full(1, 1.0))
        elif l == "dp":
            law = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=200.0, rho_0=0.5)
            ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=jnp.zeros(1), p_0_stack=jnp.full(1, 10.0))
        else:
            law = hdx.ModifiedCamClay(nu=0.25, M=1.25, lam=0.5, kap=0.125, N=3.0, rho_p=4.0, p_ref=1000.0)
            ls = hdx.ModifiedCamClayState(p_c_stack=jnp.full(1, 100.0), stress_ref_stack=A["stress"], eps_e_stack=A["ee"])
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        s, s0 = one_body(A, scheme, dim, kern, law=law, law_state=ls, forces=(set_field(A),), force_states=(None,), alpha=0.5, n=SIZE[kern], **kw)
        s1 = s(s0)
        mp, l1 = s1.world.material_points[0], s1.mechanics.constitutive_laws[0]
        # the driver shows the law the volume it is given (KNOWN_FINDINGS.txt), so it gets the one of the simulation
        m0 = eqx.tree_at(lambda m: m.volume_stack, s0.world.material_points[0], mp.volume_stack)
        md, l2 = hdx.ElementTestDriver(law).step(m0, ls, mp.L_stack, A["dt"], is_F_linear_approx=True)
        r = dict(stress=mp.stress_stack, vol=mp.volume_stack, F=mp.F_store_stack, L=mp.L_stack, stress2=md.stress_stack, vol2=md.volume_stack, F2=md.F_stack, L2=md.L_stack,
                 rho=mp.density_stack, rho2=md.density_stack)
        for i, (a, b) in enumerate(zip(jax.tree_util.tree_leaves(l1), jax.tree_util.tree_leaves(l2))):
            r["h%d" % i], r["h%d_2" % i] = a, b
        return r

    def post(P, A, O, obs):
        J = det(sl(O["F2"][0]))
        for k in ("stress", "vol", "F", "L", "rho"):
            obs.eq("simulation-and-driver-" + k, O[k], O[k + "2"], 10 * TOL, when=J > F(1, 10))
        for k in [k for k in O if k.startswith("h") and not k.endswith("_2")]:
            obs.eq("simulation-and-driver-history", O[k], O[k + "_2"], 10 * TOL, when=J > F(1, 10))
    ps = dict(params(kern, dim, 1, sym), **({"ee": ((1, 6), F(-1, 10), F(1, 10))} if l in ("dp", "mcc") else {}))
    ps["mass"], ps["g"] = (1, 1, 5), ((dim, dim), -2, 2)
    if l in ("mui", "mcc"):
        ps["ga"] = (3, -2, 2)
    if l == "mui":
        ps["s"] = ((1, 6), 0, 0)
    return Case("simulation-%s-%s-%s%dd" % (l, scheme, kern, dim), ps, build, fn, post, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1), eps0=True, havoc=l == "mcc",
                functions=["ElementTestDriver.step", "%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=4, atol=5e-2, rtol=5e-3, defined=False,
                bounds="one step of a linear grid velocity field; any previous state (%s)" % ("uncompressed density 2" if l not in ("echo", "linear") else "any deformation"))


# ---- triaxial paths
def trajectory(tr):
    mp, ls = tr
    return dict(F=mp.F_stack, L=mp.L_stack, stress=mp.stress_stack, vol=mp.volume_stack, vol0=mp.volume0_stack)


def undrained(lin, n, stride, static, many):
    def build(P):
        return {"rate": sl(P["rate"]), "dt": sl(P["dt"]), "stress": np.array([sym3(P, "s", 0)], dtype=object), "vol0": sl(P["vol0"]), "pos": np.zeros((1, 3), dtype=object) * F(1) + F(0)}

    def fn(A):
        t = hdx.TriaxialTest(hdx.ElementTestDriver(hdx.LinearElasticLaw(E=10.0, nu=0.25)), 5.0, A["rate"], A["dt"], is_undrained=True, num_steps=n if not many else None,
                             num_newton_iters=1, stride=stride, start_static=static)
        return trajectory(t.run(mp_state(dict(A, vol=A["vol0"], F=jnp.eye(3)[None])), None))

    def post(P, A, O, obs):
        m = n // stride
        obs.shape("snapshots", O["F"], (m, 3, 3))
        Fn, s, k = eye(3), A["stress"][0], 0
        for q in range(m):
            for _ in range(stride):
                r = A["rate"][k] if many else A["rate"][()]
                dt = A["dt"][k] if many else A["dt"][()]
                k += 1
                if static and k == 1:
                    continue
                L = np.array([[-(r / 2), F(0), F(0)], [F(0), -(r / 2), F(0)], [F(0), F(0), r]], dtype=object)
                Fn = matmul(inc(lin, L, dt), Fn)
                s = s + L * (8 * dt)
            obs.eq("deformation", O["F"][q], Fn, 10 * TOL)
            obs.eq("stress", O["stress"][q], s, 10 * TOL)
            obs.eq("mean-pressure-kept", trace(sl(O["stress"][q])), trace(A["stress"][0]), 10 * TOL)
            v = O["vol"].reshape(m)[q]
            obs.eq("volume", v, A["vol0"][0] if not lin else det(sl(O["F"][q])) * A["vol0"][0], 10 * TOL)
    ps = {"rate": ((n,) if many else None, -2, 2), "dt": ((n,) if many else None, 0, F(1, 10)), "s": ((1, 6), -10, 10), "vol0": (1, F(1, 10), 2)}
    return Case("undrained-%s-%dsteps-stride%d%s%s" % ("linear" if lin else "exponential", n, stride, "-static" if static else "", "-rates" if many else ""), ps, build, fn, post, defined=False,
                functions=["TriaxialTest.run", "ElementTestDriver.step"], typed=False, atol=1e-2, weight=2, bounds="any axial rate and step, %d steps" % n, exp_den=2)


def drained(const_p, it, n):
    """each corrector iteration removes 80 % of the distance to the confinement; the committed step uses the corrected rate"""
    def build(P):
        return {"rate": sl(P["rate"]), "conf": sl(P["conf"]), "stress": np.array([sym3(P, "s", 0)], dtype=object), "vol0": sl(P["vol0"]), "pos": np.zeros((1, 3), dtype=object) * F(1) + F(0)}

    def fn(A):
        t = hdx.TriaxialTest(hdx.ElementTestDriver(hdx.LinearElasticLaw(E=10.0, nu=0.25)), A["conf"], A["rate"], 0.125, is_p_constant=const_p, num_steps=n, num_newton_iters=it)
        return trajectory(t.run(mp_state(dict(A, vol=A["vol0"], F=jnp.eye(3)[None])), None))

    def post(P, A, O, obs):
        r, c = A["rate"][()], A["conf"][()]
        s = A["stress"][0]
        for q in range(n):
            # initial guess: no lateral motion
            de = r / 8
            s0 = s + eye(3) * (4 * de)
            s0[2, 2] = s0[2, 2] + 8 * de
            dist = (trace(s0) / 3 if const_p else s0[0, 0]) - c
            so = sl(O["stress"][q])
            obs.eq("distance-to-confinement", (trace(so) / 3 if const_p else so[0, 0]) - c, dist * F(1, 5) ** it, TOL)
            L = sl(O["L"][q])
            obs.eq("axial-rate", L[2, 2], r, TOL)
            obs.eq("same-lateral-rate", L[0, 0], L[1, 1], 0)
            for i, j in ((0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)):
                obs.eq("no-shear-rate", L[i, j], 0, 0)
            e = L * F(1, 8)
            obs.eq("stress", so, s + eye(3) * (4 * trace(e)) + e * 8, TOL)
            s = so
    return Case("drained-%s-%diter-%dsteps" % ("pressure" if const_p else "lateral", it, n), {"rate": (None, -2, 2), "conf": (None, 1, 20), "s": ((1, 6), -10, 10), "vol0": (1, F(1, 10), 2)}, build, fn, post,
                functions=["TriaxialTest.run", "ElementTestDriver.step"], typed=False, atol=2e-2, weight=3, defined=False, bounds="linear elastic material, any rate, confinement and stress; %d corrector iteration(s), %d step(s)" % (it, n))
