"""particle and body order, unrelated bodies, clocks and untouched inputs"""
from .steps import *
from .c05 import defF
from .c06 import MG

TOL = F(1, 1000)
CELLS = [[1, 1, 1], [0, 1, 1], [1, 0, 1]]           # one cell per particle
FIXED = {"mass": [F(2), F(7, 2), F(1)], "vol0": [F(1, 2), F(3, 4), F(2, 5)], "dt": F(1, 50), "alpha": F(2, 5), "grav": [F(2), F(-9), F(5)], "time": F(3, 2),
         "F": [[F(9, 8), F(1, 4), F(7, 8), F(5, 4), F(-1, 4)], [F(3, 4), F(-1, 8), F(9, 8), F(7, 8), F(3, 8)], [F(1), F(1, 8), F(5, 4), F(3, 4), F(1, 4)]],
         "vel": [[F(1), F(-2), F(3, 2)], [F(-3, 2), F(5, 4), F(1, 3)], [F(1, 2), F(2), F(-1)]], "Bp": [[F(1), F(1, 2), F(-1)], [F(-1, 4), F(2), F(3, 4)], [F(1, 3), F(-2), F(-1, 2)]],
         "s": [[F(1), F(-2), F(3), F(1, 2), F(-3, 2), F(5, 2)], [F(-1), F(3), F(2), F(5, 4), F(1, 2), F(-1)], [F(2), F(1), F(-1), F(-1, 2), F(1), F(3, 2)]]}
ARR = ("pos", "vel", "mass", "vol", "vol0", "F", "L", "stress", "force")


def cases(tier, seed):
    out = []
    deep = tier == "thorough"
    ks = [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 2), ("cubic", 2)] + ([("quadratic", 1), ("cubic", 1), ("quadratic", 3)] if deep else [])
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            for p in ((1, 2, 0), (1, 0, 2)):
                for foc in ("motion", "place"):
                    out.append(perm(scheme, k, d, p, foc))
        for l in ("newton", "dp", "mui"):
            out.append(perm(scheme, "linear", 2, (1, 2, 0), "motion", law=l))
        for x in ("sphere", "damping", "pointgravity") + (("dynamic", "classic") if scheme == "aflip" else ()):
            out.append(perm(scheme, "linear", 2, (1, 2, 0), "motion", extra=x))
        for how in ("two-grids", "far-apart", "idle", "swapped", "swapped-shared"):
            for k, d in [("linear", 2), ("quadratic", 2), ("linear", 3)] + ([("cubic", 2), ("linear", 1)] if deep else []):
                out.append(bodies(scheme, how, k, d))
        for d in (1, 2, 3):
            out.append(clock(scheme, d))
            for nb in (2, 3):
                out.append(clock(scheme, d, nb))
    return out


class Src:
    """symbolic where p lists the name, fixed otherwise"""
    def __init__(self, P, p, dim):
        self.P, self.p, self.dim = P, p, dim

    def __getitem__(self, k):
        if k in self.p:
            return self.P[k]
        v, d = np.array(FIXED[k], dtype=object), self.dim
        return v[:, :d] if k == "vel" else v[:d] if k == "grav" else v[:d, :d] if k == "Bp" else v


def params(kern, dim, n, focus, scheme):
    sub = 2 if kern == "quadratic" else 1
    if focus == "place":
        return {"xi": cparam([(0, 0)], sub, MG[kern])}
    p = {"vel": ((n, dim), -5, 5), "s": ((n, 6), -5, 5), "dt": (None, F(1, 1000), F(1, 10)), "alpha": (None, 0, 1), "grav": (dim, -10, 10)}
    if scheme == "aflip":
        p["Bp"] = ((dim, dim), -2, 2)
    return p


def state(Q, kern, dim, n, sym, scheme, cells=CELLS):
    sub = 2 if kern == "quadratic" else 1
    cells = [c[:dim] for c in (cells[:n] if kern == "linear" else [[1, 1, 1]] * n)]
    A = {"pos": where(coords(Q, n, dim, sym, sub), cells), "mass": sl(Q["mass"]), "vol0": sl(Q["vol0"]), "F": defF(Q, n, dim), "dt": sl(Q["dt"]), "alpha": sl(Q["alpha"]), "vel": sl(Q["vel"]), "g": sl(Q["grav"])}
    A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
    A["stress"] = np.array([sym3(Q, "s", i) for i in range(n)], dtype=object)
    if scheme == "aflip":
        A["Bp"] = np.full((n, 3, 3), F(0), dtype=object)
        for i in range(n):
            A["Bp"][i][:dim, :dim] = sl(Q["Bp"]) * [F(1), F(-1, 2), F(1, 4)][i]
    return A


def forces_of(extra, A, n, dim):
    gr = hdx.Gravity(is_apply_on_grid=extra != "pointgravity")
    fs, st, sd, ss = [gr], [gr.create_state(A["g"])], [], []
    if extra == "damping":
        d = hdx.Damping(f_idx=1)
        fs.append(d)
        st.append(d.create_state(0.25))
    if extra == "sphere":
        s = hdx.SphereSDF(radius=0.25)
        sd.append(s)
        ss.append(s.create_state(center_of_mass=jnp.asarray([O0[d] + H * 1.5 for d in range(dim)]), velocity=jnp.asarray([0.5, -0.25, 0.125][:dim])))
        fs.append(hdx.SDFCollider(sdf_idx=0, friction=0.0))
        st.append(None)
    return fs, st, sd, ss


def law_of(l, n, order):
    o = np.array(order)
    if l == "newton":
        return hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), hdx.NewtonFluidState(density_ref_stack=jnp.asarray(np.array([1.5, 2.5, 1.25], dtype=np.float32)[:n][o]))
    if l == "mui":
        return hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25), hdx.MuIState(density_ref_stack=jnp.asarray(np.array([1.0, 0.75, 1.5], dtype=np.float32)[:n][o]))
    if l == "dp":
        e = np.array([[[0.02, 0.01, 0], [0.01, -0.01, 0], [0, 0, 0.03]], [[0.01, -0.02, 0], [-0.02, 0.02, 0], [0, 0, 0]], [[-0.03, 0.005, 0], [0.005, 0.01, 0], [0, 0, 0.01]]], dtype=np.float32)[:n][o]
        return hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=200.0, rho_0=0.5), hdx.DruckerPragerState(eps_e_stack=jnp.asarray(e), eps_p_acc_stack=jnp.asarray(np.array([0, 0.25, 0.5], dtype=np.float32)[:n][o]),
                                                                                                       p_0_stack=jnp.asarray(np.array([10, 12, 8], dtype=np.float32)[:n][o]))
    return hdx.LinearElasticLaw(E=10.0, nu=0.25), None


def run(A, scheme, kern, dim, n, law=None, extra=None, order=(0, 1, 2), time=1.5, stp=7):
    mp = mp_state(A)
    fs, fst, sd, sst = forces_of(extra, A, n, dim)
    lw, ls = law_of(law, n, order)
    kw = dict(use_dynamic_alpha=extra == "dynamic", cfl_limit=1e9, use_mls_update=extra != "classic", beta_min=0.25, beta_max=0.25) if scheme == "aflip" else {}
    if extra == "dynamic":          # a support window wide enough for every particle to be inside it
        kw.update(alpha_support_min=0.0625, alpha_support_max=4.0)
    s = solver(scheme, dim, kern, [domain(dim, SIZE[kern])], [lw], fs, sdfs=sd, alpha=A["alpha"], **kw)
    ss = s.create_state(mp)
    if scheme == "aflip":
        ss = hdx.USLAFLIPState(Bp_stack=A["Bp"])
    s1 = s(sim_state([mp], [ls], [ss], fst, sst, A["dt"], time, stp))
    r = out_mp(s1.world.material_points[0])
    if scheme == "aflip":
        r["Bp"] = s1.mechanics.solvers[0].Bp_stack
    l1 = s1.mechanics.constitutive_laws[0]
    for k in ("density_ref_stack", "eps_e_stack", "eps_p_acc_stack", "p_0_stack"):
        if hasattr(l1, k) and getattr(l1, k) is not None:
            r["law_" + k] = getattr(l1, k)
    r["_gravity"] = s1.mechanics.forces[0].gravity
    r["_time"], r["_step"], r["_dt"] = s1.time, s1.step, s1.dt
    if extra == "sphere":
        r["_com"] = s1.world.sdfs[0].center_of_mass
    return r


def perm(scheme, kern, dim, order, focus, law=None, extra=None):
    n = 3
    p = params(kern, dim, n, focus, scheme)
    if law in ("mui", "dp") or extra in ("sphere", "dynamic"):
        p = {"vel": p["vel"]} if law != "dp" else {"vel": ((n, dim), F(-1, 4), F(1, 4))}
    sym = [(0, 0)] if focus == "place" else []
    o = list(order)

    def build(P):
        A = state(Src(P, p, dim), kern, dim, n, sym, scheme)
        if law in ("mui", "dp"):
            A["stress"] = A["stress"] + eye(3) * F(10)
        return A

    def fn(A):
        B = {k: (v[jnp.asarray(o)] if k in ARR + ("Bp",) else v) for k, v in A.items()}
        r = {"a_" + k: v for k, v in run(A, scheme, kern, dim, n, law, extra).items()}
        r.update({"b_" + k: v for k, v in run(B, scheme, kern, dim, n, law, extra, o).items()})
        return r

    def post(P, A, O, obs):
        for k in list(O):
            if k[:2] != "a_":
                continue
            a, b = sl(O[k]), sl(O["b_" + k[2:]])
            if k[2] == "_":
                obs.eq("unordered-" + k[3:], b, a, TOL)
            else:
                obs.eq("particle-" + k[2:], b, a[o], 5 * TOL)
        for i in range(n):
            obs.eq("kept-mass", sl(O["a_mass"])[i], A["mass"][i], 0)
            obs.eq("kept-initial-volume", sl(O["a_vol0"])[i], A["vol0"][i], 0)
    nm = "permute-%s-%s-%dd-%s-%s" % (scheme, kern, dim, "".join(map(str, o)), focus) + "".join("-" + x for x in (law, extra) if x)
    return Case(nm, p, build, fn, post, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1) if sym else [], functions=["%s.__call__" % SCHEMES[scheme].__name__],
                typed=False, weight=3 ** dim, defined=False, atol=2e-2, eps0=True, bounds="three particles reordered, %s" % ("any velocities, stress, gravity, step and blending at fixed positions" if focus == "motion" else "any in-cell coordinate"))


# ---- bodies
def bodies(scheme, how, kern, dim):
    """two bodies of two particles: alone, together on one or two grids, in either order, next to a body the solver does not drive"""
    n = 2
    sub = 2 if kern == "quadratic" else 1
    p = {"vel": ((2 * n, dim), -5, 5), "s": ((1, 6), -5, 5), "dt": (None, F(1, 1000), F(1, 10)), "grav": (dim, -10, 10), "alpha": (None, 0, 1)}
    if how == "idle":
        p["frc"] = ((n, dim), -5, 5)
    shift = {"linear": 3, "quadratic": 4, "cubic": 5}[kern]
    N = SIZE[kern] + (shift if how == "far-apart" else 0)
    size = tuple([N] + [SIZE[kern]] * (dim - 1))
    far = shift if how == "far-apart" else 0

    def build(P):
        A = {"dt": sl(P["dt"]), "alpha": sl(P["alpha"]), "g": sl(P["grav"])}
        V = sl(P["vel"])
        for b in range(2):
            Q = Src(P, {}, dim)
            B = state(Q, kern, dim, n, [], scheme)
            B["pos"] = where(coords(P, n, dim, [], sub, rot=3 * b), [[1 + (far if b and d == 0 else 0) for d in range(dim)]] * n)
            for k in ("mass", "vol0"):
                B[k] = B[k][:n]
            B["vel"] = V[n * b:n * b + n]
            B["mass"] = B["mass"] + b
            B["vol"], B["vol0"] = B["vol"] * (1 + b), B["vol0"] * (1 + b)
            B["stress"] = np.array([sym3(P, "s", 0) * (F(1) if i == b else F(-1, 2)) for i in range(n)], dtype=object)
            if how == "idle":       # leftovers of an earlier step: reset for a driven body, kept for an idle one
                B["force"], B["L"] = sl(P["frc"]) * (1 + b), np.zeros((n, 3, 3), dtype=object) + F(0)
                B["L"][:, 0, :dim], B["L"][:, 2, 1] = sl(P["frc"]), sl(P["frc"])[:, 0]
            for k in ARR + ("Bp", "force", "L"):
                if k in B:
                    A["%d%s" % (b, k)] = B[k]
        return A

    def fn(A):
        laws = [hdx.LinearElasticLaw(E=10.0, nu=0.25), hdx.NewtonFluid(K=5.0, viscosity=0.25, beta=1.0)]
        lst = [None, hdx.NewtonFluidState(density_ref_stack=jnp.full(n, 3.0))]
        grids = [domain(dim, size), domain(dim, size)] if how in ("two-grids", "swapped", "idle") else [domain(dim, size)]
        mps = [mp_state({k[1:]: v for k, v in A.items() if k[0] == str(b)}) for b in range(2)]
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9, beta_min=0.25, beta_max=0.25) if scheme == "aflip" else {}
        sst = [hdx.USLAFLIPState(Bp_stack=A["%dBp" % b]) if scheme == "aflip" else hdx.USLSolver.create_state(None, None) for b in range(2)]

        def go(drive, slots=(0, 1), present=(0, 1)):
            """drive: bodies with couplings; slots[k]: the body registered k-th"""
            where_ = {b: k for k, b in enumerate(slots)}
            g = lambda b: where_[b] if len(grids) == 2 else 0
            cps = tuple(BodyCoupling(shape_map=hdx.ShapeFunctionMapping(kern, dim), p_idx=where_[b], g_idx=g(b), c_idx=where_[b], s_idx=where_[b]) for b in drive)
            gr = hdx.Gravity(is_apply_on_grid=True, g_idx_list=list(range(len(grids))), p_idx_list=[0, 1])
            s = solver(scheme, dim, kern, grids, [laws[b] for b in slots], (gr,), couplings=cps, alpha=A["alpha"], **kw)
            s1 = s(sim_state([mps[b] for b in slots], [lst[b] for b in slots], [sst[b] for b in slots], (gr.create_state(A["g"]),), (), A["dt"], 0.5, 3))
            r = {}
            for b in range(2):
                for k, v in out_mp(s1.world.material_points[where_[b]]).items():
                    r["%d%s" % (b, k)] = v
                if scheme == "aflip":
                    r["%dBp" % b] = s1.mechanics.solvers[where_[b]].Bp_stack
            r["%drho" % 1] = s1.mechanics.constitutive_laws[where_[1]].density_ref_stack
            return r
        T = go((0, 1))
        out = {"t_" + k: v for k, v in T.items()}
        if how in ("two-grids", "far-apart"):
            for b in range(2):
                out.update({"o_" + k: v for k, v in go((b,)).items() if k[0] == str(b)})
        elif how == "idle":
            out.update({"o_" + k: v for k, v in go((0,)).items()})
        else:
            out.update({"o_" + k: v for k, v in go((0, 1) if how == "swapped" else (1, 0), slots=(1, 0)).items()})
        return out

    def post(P, A, O, obs):
        for k in list(O):
            if k[:2] != "o_":
                continue
            if how == "idle" and k[2] == "1":
                if k[3:] == "rho":
                    continue
                if "1" + k[3:] in A:
                    obs.eq("untouched-" + k[3:], O[k], A["1" + k[3:]], 0)
                continue
            obs.eq("same-" + k[2:], O[k], O["t_" + k[2:]], 5 * TOL)
    return Case("bodies-%s-%s-%s-%dd" % (how, scheme, kern, dim), p, build, fn, post, functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=3 ** dim, defined=False, atol=2e-2, eps0=True,
                bounds="two bodies of two particles at fixed positions, any velocities, stress, gravity, step, blending")


# ---- clocks
def clock(scheme, dim, nb=1):
    """two successive steps: time advances by the step given, the counter by one; inputs that do not evolve stay"""
    kern, n = "linear", 2
    p = {"dt": (None, F(1, 10000), F(1, 10)), "time": (None, -100, 100), "stp": (None, 0, 1000), "mass": (n, 1, 5), "vol0": (n, F(1, 10), 2), "vel": ((n, dim), -5, 5), "grav": (dim, -10, 10)}

    def build(P):
        A = state(Src(P, p, dim), kern, dim, n, [], scheme)
        A["time"], A["stp"] = sl(P["time"]), sl(P["stp"])
        A["alpha"] = np.asarray(0.5)
        return A

    def fn(A):
        gr = hdx.Gravity(is_apply_on_grid=True)
        sdf = hdx.SphereSDF(radius=0.125)
        lw = hdx.NewtonFluid(K=5.0, viscosity=0.25, beta=1.0)
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        if nb == 1:
            s = solver(scheme, dim, kern, [domain(dim, SIZE[kern])], [lw], (gr,), sdfs=(sdf,) if dim > 1 else (), **kw)
        else:       # nb couplings: two bodies share the first grid, a third has its own
            cps = tuple(BodyCoupling(shape_map=hdx.ShapeFunctionMapping(kern, dim), p_idx=b, g_idx=b // 2, c_idx=b, s_idx=b) for b in range(nb))
            s = solver(scheme, dim, kern, [domain(dim, SIZE[kern])] * (nb - 1), [lw] * nb, (gr,), sdfs=(sdf,) if dim > 1 else (), couplings=cps, **kw)
        mp = mp_state(A)
        st = sim_state([mp] * nb, [hdx.NewtonFluidState(density_ref_stack=jnp.asarray([2.0, 3.0]))] * nb, [s.create_state(mp)] * nb, (gr.create_state(A["g"]),),
                       (sdf.create_state(center_of_mass=jnp.asarray([50.0] * dim), velocity=jnp.asarray([1.0] * dim)),) if dim > 1 else (), A["dt"], A["time"], A["stp"])
        r = {}
        for k in (1, 2):
            st = s(st)
            m = st.world.material_points[0]
            r.update({"time%d" % k: st.time, "step%d" % k: st.step, "dt%d" % k: st.dt, "mass%d" % k: m.mass_stack, "vol0%d" % k: m.volume0_stack, "g%d" % k: st.mechanics.forces[0].gravity,
                      "rho%d" % k: st.mechanics.constitutive_laws[0].density_ref_stack})
            if dim > 1:
                r.update({"wv%d" % k: st.world.sdfs[0].velocity, "com%d" % k: st.world.sdfs[0].center_of_mass})
        return r

    def post(P, A, O, obs):
        for k in (1, 2):
            obs.eq("time", O["time%d" % k], A["time"] + A["dt"] * k, 1e-9)
            obs.eq("counter", O["step%d" % k], A["stp"] + k, 0)
            obs.eq("step-size", O["dt%d" % k], A["dt"], 0)
            obs.eq("mass", O["mass%d" % k], A["mass"], 0)
            obs.eq("initial-volume", O["vol0%d" % k], A["vol0"], 0)
            obs.eq("gravity", O["g%d" % k], A["g"], 0)
            obs.eq("reference-density", O["rho%d" % k], np.array([F(2), F(3)], dtype=object), 0)
            if dim == 1:
                continue
            obs.eq("object-velocity", O["wv%d" % k], np.array([F(1)] * dim, dtype=object), 0)
            obs.eq("object-position", O["com%d" % k], np.array([F(50) + A["dt"][()] * k] * dim, dtype=object), 1e-6)
    return Case("clock-%s-%dd%s" % (scheme, dim, "" if nb == 1 else "-%d-bodies" % nb), p, build, fn, post, functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=4, defined=False, atol=2e-2,
                bounds="two steps, any time, counter, step size, masses, volumes, velocities, gravity")
