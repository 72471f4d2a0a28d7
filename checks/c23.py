"""finite states stay finite: degenerate states of whole steps, contact, material laws, derived quantities"""
from .steps import *
from .c05 import FPAR, defF
from .c17 import N, m3

KEYS = ("pos", "vel", "mass", "vol", "vol0", "F", "L", "stress", "force")


def cases(tier, seed):
    out = []
    deep = tier == "thorough"
    ks = [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 2), ("cubic", 2)] + ([("quadratic", 1), ("cubic", 1), ("quadratic", 3), ("cubic", 3)] if deep else [])
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            for spot in ("free", "node", "still", "outside") + (("small",) if scheme == "aflip" or k == "linear" else ()):
                out.append(step(scheme, k, d, spot))
            if d < 3:
                out.append(step(scheme, k, d, "pair"))
        for shape in ("sphere", "box", "plane", "domain", "cylinder"):
            for d in (2, 3):
                if shape != "cylinder" or d == 3:
                    out.append(contact(scheme, shape, d))
        for f in ("damping", "pointgravity"):
            out.append(step(scheme, "linear", 2, "free", f))
    for x in ("dynamic", "classic", "limit"):
        for k in ("linear", "quadratic", "cubic"):
            out.append(step("aflip", k, 2, "still", x) if x != "limit" else step("aflip", k, 2, "free", x))
            if x == "dynamic":
                out.append(step("aflip", k, 2, "node", x))
    for l in ("linear", "newton", "mui", "dp", "mcc"):
        for st in ("zero", "rest", "spherical", "any"):
            out.append(law(l, st))
    for l in ("newton", "mui", "dp"):
        out.append(dtcrit(l))
    return out


def step(scheme, kern, dim, spot, extra=None):
    """one particle alone (or two): anywhere in a cell including its faces, on a node, at rest without stress, outside the grid, with a tiny mass"""
    n = 2 if spot == "pair" else 1
    sub = 2 if kern == "quadratic" else 1
    p = {"vel": ((n, dim), -5, 5), "s": ((n, 6), -5, 5), "F": FPAR(n), "vol0": (n, F(1, 1000), 2), "mass": (n, F(1, 1000), 5), "dt": (None, F(1, 100000), F(1, 10)), "grav": (dim, -10, 10), "alpha": (None, 0, 1)}
    if scheme == "aflip":
        p["Bp"] = ((dim, dim), -2, 2)
    sym = []
    reset = spot in ("node", "still", "outside")
    if spot in ("free", "pair", "small"):
        sym = [(0, 0)]
        p["xi"] = (1, 0, F(1, sub))
    if spot in ("free", "small", "pair"):
        for k in ("F", "Bp", "s") if spot != "pair" else ("F", "Bp", "mass", "vol0"):
            p.pop(k, None)
    if spot == "small":
        p["mass"] = (n, F(1, 10 ** 13), F(1, 10 ** 5))
    if dim == 3:
        p.pop("F", None)
    if spot == "still":
        for k in ("vel", "s", "Bp", "grav"):
            p.pop(k, None)

    def build(P):
        z = lambda *s: np.full(s, F(0), dtype=object)
        A = {"dt": sl(P["dt"]), "alpha": sl(P["alpha"]), "vel": sl(P["vel"]) if "vel" in p else z(n, dim), "g": sl(P["grav"]) if "grav" in p else z(dim)}
        cell = [[1] * dim] * n
        if spot == "node":
            A["pos"] = where(z(n, dim), cell)
        elif spot == "outside":
            A["pos"] = np.array([[F(O0[d]) - F(H) * (F(7, 3) + d) for d in range(dim)]], dtype=object)
        else:
            A["pos"] = where(coords(P, n, dim, sym, sub), cell)
        A["F"] = defF(P, n, dim) if "F" in p else np.array([eye(3)] * n, dtype=object)
        A["vol0"] = sl(P["vol0"]) if "vol0" in p else np.array([F(1, 2)] * n, dtype=object)
        A["mass"] = sl(P["mass"]) if "mass" in p else np.array([F(2)] * n, dtype=object)
        A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
        A["stress"] = np.array([sym3(P, "s", i) if "s" in p else (eye(3) if spot != "still" else eye(3) * F(0)) for i in range(n)], dtype=object)
        if scheme == "aflip":
            A["Bp"] = np.full((n, 3, 3), F(0), dtype=object)
            if "Bp" in p:
                A["Bp"][0][:dim, :dim] = sl(P["Bp"])
        return A

    def fn(A):
        mp = mp_state(A)
        gr = hdx.Gravity(is_apply_on_grid=extra != "pointgravity")
        fs, fst = [gr], [gr.create_state(A["g"])]
        if extra == "damping":
            d = hdx.Damping(f_idx=1)
            fs.append(d)
            fst.append(d.create_state(0.25))
        kw = {}
        if scheme == "aflip":
            kw = dict(use_dynamic_alpha=extra == "dynamic", use_mls_update=extra != "classic", cfl_limit=0.5 if extra in ("limit", "dynamic") or spot == "still" else 1e9)
        s = solver(scheme, dim, kern, [domain(dim, SIZE[kern])], [hdx.LinearElasticLaw(E=10.0, nu=0.25, requires_F_reset=reset)], fs, alpha=A["alpha"], **kw)
        ss = hdx.USLAFLIPState(Bp_stack=A["Bp"]) if scheme == "aflip" else s.create_state(mp)
        s1 = s(sim_state([mp], [None], [ss], fst, (), A["dt"], 0.5, 2))
        r = out_mp(s1.world.material_points[0])
        if scheme == "aflip":
            r["Bp"] = s1.mechanics.solvers[0].Bp_stack
        return r

    def post(P, A, O, obs):
        for k in O:
            for i in range(n):                            # a step that turns a particle inside out has no deformation to split
                obs.defined("finite-" + k, O[k][i], when=O["vol"][i] > 0 if reset and k in ("F", "stress") else None)
    what = {"free": "anywhere in a cell, faces included", "node": "exactly on a node", "still": "no velocity, stress or gravity", "outside": "outside the grid", "small": "masses from 1e-13 to 1e-5", "pair": "two particles"}[spot]
    return Case("step-%s-%s-%dd-%s%s" % (scheme, kern, dim, spot, "-" + extra if extra else ""), p, build, fn, post, pre=(lambda P, A: [x < F(1, sub) for x in sl(P["xi"]).reshape(-1)]) if sym else None, functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, overflow=True, weight=3 ** dim, atol=2e-2,
                bounds=what + "; any of: velocity, stress, deformation, volume, mass, gravity, affine state, step size")


def contact(scheme, shape, dim):
    """objects whose centre, faces or axis coincide with nodes; particle and object possibly moving alike or at rest"""
    kern, n = "linear", 1
    p = {"vel": ((n, dim), -5, 5), "wv": (dim, -2, 2), "om": (1 if dim == 2 else 3, -2, 2), "dt": (None, F(1, 1000), F(1, 10))}
    if shape in ("sphere", "cylinder"):
        p["wv"] = (dim, 0, 0)
    if dim == 3 or shape == "box":
        p["om"] = (1 if dim == 2 else 3, 0, 0)
        if shape != "domain":
            p["dt"] = (None, F(1, 50), F(1, 50))
        if shape == "box":
            p["wv"] = (dim, 0, 0)

    def build(P):
        A = {k: sl(P[k]) for k in ("vel", "wv", "om", "dt")}
        A["pos"] = where(coords(P, n, dim, []), [[1] * dim] * n)
        A["mass"], A["vol"] = np.array([F(2)], dtype=object), np.array([F(1)], dtype=object)
        A["com"] = np.array([F(O0[d]) + F(H) for d in range(dim)], dtype=object)
        return A

    def fn(A):
        if shape == "sphere":
            s = hdx.SphereSDF(radius=0.5)
        elif shape == "box":
            s = hdx.BoxSDF((0.5, 0.5, 0.5)[:dim])
        elif shape == "plane":
            s = hdx.PlaneSDF(normal=jnp.asarray([0.0, 1.0, 0.0][:dim]))
        elif shape == "cylinder":
            s = hdx.CylinderSDF(radius=0.5, height=1.0)
        else:
            lo = [O0[d] for d in range(dim)]
            s = hdx.DomainSDF(origin=lo, end=[v + 1.0 for v in lo], frictions=0.5)
        st = s.create_state(A["com"], velocity=A["wv"], angular_velocity=A["om"][0] if dim == 2 else A["om"])
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        sv, s0 = one_body(A, scheme, dim, kern, forces=(hdx.SDFCollider(friction=0.5),), force_states=(None,), sdfs=(s,), sdf_states=(st,), dt=A["dt"], alpha=0.5, **kw)
        s1 = sv(s0)
        r = out_mp(s1.world.material_points[0])
        r["com"] = s1.world.sdfs[0].center_of_mass
        r["rot"] = s1.world.sdfs[0].rotation
        return r

    def post(P, A, O, obs):
        for k in O:
            obs.defined("finite-" + k, O[k])
    return Case("contact-%s-%s-%dd" % (scheme, shape, dim), p, build, fn, post, functions=["%s.__call__" % SCHEMES[scheme].__name__, "SDFCollider.apply_grid_moments"], typed=False, overflow=True, weight=3 ** dim, atol=2e-2,
                bounds="centre of the object on a grid node; any particle and object velocity and spin, zero included")


def law(l, st):
    """one increment of the bare law; zero: no stress, any rate; rest: no rate, any stress; spherical: no deviator; any: both along given directions"""
    n = m3(N["mixed-xz"])
    p = {"dt": (None, F(1, 10000), F(1, 10)), "mass": (1, F(1, 2), 5), "vol": (1, F(1, 10), 5)}
    if st in ("zero", "spherical"):
        p["L"] = ((1, 3, 3), -1, 1)
    if st == "any":
        p["lr"] = (None, -1, 1)
        p["lt"] = (None, -1, 1)
    if st in ("rest", "any"):
        p["t"] = (None, -100, 100)
    if st != "zero":
        p["p"] = (None, 0, 500)
    if st == "rest" and l in ("linear", "mui", "newton"):
        p["s"] = ((1, 6), -50, 50)

    def build(P):
        A = {"dt": sl(P["dt"]), "mass": sl(P["mass"]), "vol": sl(P["vol"])}
        A["L"] = sl(P["L"]) if "L" in p else np.array([n * sl(P["lr"])[()] + eye(3) * sl(P["lt"])[()] if st == "any" else eye(3) * F(0)], dtype=object)
        S = eye(3) * (sl(P["p"])[()] if "p" in p else F(0)) + (n * sl(P["t"])[()] if "t" in p else eye(3) * F(0))
        A["stress"] = np.array([S + (sym3(P, "s", 0) if "s" in p else eye(3) * F(0))], dtype=object)
        A["ee"] = np.array([n * (sl(P["t"])[()] / 1000) if "t" in p else eye(3) * F(0)], dtype=object)
        return A

    def fn(A):
        mp = mp_state(dict(A, pos=jnp.zeros((1, 3))))
        if l == "linear":
            lw, ls = hdx.LinearElasticLaw(E=10.0, nu=0.25), None
        elif l == "newton":
            lw, ls = hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=7.0), hdx.NewtonFluidState(density_ref_stack=jnp.full(1, 1.5))
        elif l == "mui":
            lw, ls = hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=1e-4), hdx.MuIState(density_ref_stack=jnp.full(1, 1.0))
        elif l == "dp":
            lw = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=0.0, rho_0=0.5)
            ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=jnp.zeros(1), p_0_stack=jnp.zeros(1))
        else:
            lw = hdx.ModifiedCamClay(nu=0.25, M=1.25, lam=0.5, kap=0.125, N=3.0, rho_p=4.0)
            ls = hdx.ModifiedCamClayState(p_c_stack=jnp.full(1, 400.0), stress_ref_stack=A["stress"], eps_e_stack=A["ee"])
        m, ls = lw.update(mp, ls, A["dt"])
        r = {"stress": m.stress_stack}
        for k in ("density_ref_stack", "eps_e_stack", "eps_p_acc_stack", "p_c_stack"):
            if ls is not None and getattr(ls, k, None) is not None:
                r[k] = getattr(ls, k)
        return r

    def post(P, A, O, obs):
        for k in O:
            obs.defined("finite-" + k, O[k])
    return Case("law-%s-%s" % (l, st), p, build, fn, post, functions=[{"linear": "LinearElasticLaw", "newton": "NewtonFluid", "mui": "MuI_LC", "dp": "DruckerPrager", "mcc": "ModifiedCamClay"}[l] + ".update"], typed=False, overflow=l != "mcc", havoc=l == "mcc",
                weight=3, rtol=5e-3, atol=5e-2, bounds={"zero": "no stress, any velocity gradient", "rest": "no velocity gradient, any stress along a direction", "spherical": "isotropic stress, any velocity gradient", "any": "stress and rate along a generic direction"}[st] + "; any volume, mass, step size")


def dtcrit(l):
    """critical time step of a particle at rest"""
    def build(P):
        return {"vel": sl(P["vel"]), "mass": sl(P["mass"]), "vol": sl(P["vol"])}

    def fn(A):
        mp = mp_state(dict(A, pos=jnp.zeros((1, 2))))
        lw = {"newton": lambda: hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), "mui": lambda: hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25),
              "dp": lambda: hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=0.0, rho_0=0.5)}[l]()
        return {"dt": lw.get_dt_crit(mp, 0.5)}

    def post(P, A, O, obs):
        obs.defined("finite", O["dt"])
        obs.ge("positive", O["dt"], 0, 0)
    return Case("dtcrit-" + l, {"vel": ((1, 2), -5, 5), "mass": (1, F(1, 1000), 5), "vol": (1, F(1, 1000), 5)}, build, fn, post, functions=["get_dt_crit"], typed=False, overflow=True, bounds="any velocity, zero included, density 2e-4..5e3")
