"""where and when a simulation takes place (and what its solver did before) does not matter"""
from .steps import *
from .c29 import FIXED, pars, both, SYM
from .c05 import defF
from .c06 import MG
from .c12 import SH2, SH3

TOL = F(1, 1000)
MOVES = [(F(8), F(-16), F(4)), (F(-13, 2), F(5, 4), F(-33, 8))]          # whole cells; not whole cells
T0, K0 = F(29, 4), 1003


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    for mv in (1, 0) if deep else (1,):
        for scheme in ("usl", "aflip"):
            for k, d in [("linear", 1), ("linear", 2), ("quadratic", 2), ("cubic", 2), ("linear", 3)] + ([("quadratic", 1), ("cubic", 1), ("quadratic", 3), ("cubic", 3)] if deep else []):
                out.append(whole(scheme, k, d, mv))
            for x in ("on-particles", "damping", "damping-particles"):
                out.append(whole(scheme, "linear", 2, mv, x))
            for x in ("sphere", "box", "domain", "capsule"):
                out.append(wall(scheme, x, 2, mv))
            for x in ("sphere", "box", "domain"):
                if deep or scheme == "usl":
                    out.append(wall(scheme, x, 3, mv))
        for x in ("classic", "dynamic", "pic"):
            out.append(whole("aflip", "quadratic", 2, mv, x))
        for d, S in ((2, SH2), (3, SH3)):
            out += [shape(d, s, mv) for s in S if s != "star"]
        for l in ("newton", "dp", "mui"):
            out.append(law(l, mv))
    if not deep:
        out += [whole("usl", "linear", 2, 0), whole("aflip", "quadratic", 2, 0), wall("usl", "sphere", 2, 0), wall("aflip", "domain", 2, 0)]
    for scheme in ("usl", "aflip"):
        out.append(built(scheme))
    return out


def Q3(k, dim):
    """the fixed value used where a parameter is not symbolic"""
    v = np.array(FIXED[k], dtype=object)
    return v[:, :dim] if k == "vel" else v[:dim] if k == "grav" else v[:dim, :dim] if k == "Bp" else v


def moved(x, s):
    x = sl(x)
    r = np.empty(x.shape, dtype=object)
    for k in np.ndindex(*x.shape):
        r[k] = x[k] + s[k[-1]]
    return r


def place(dim, n, s):
    n = (n,) * dim if isinstance(n, int) else n
    o = [F(O0[d]) + s[d] for d in range(dim)]
    return hdx.GridDomain.create(tuple(float(x) for x in o), tuple(float(o[d] + F(H) * (n[d] - 1)) for d in range(dim)), H, padding=0)


def step(A, scheme, dim, kern, n, s, later, law=None, ls=None, forces=(), fstates=(), sdfs=(), sstates=(), **kw):
    """later: at another time, and with a solver that has already stepped something else"""
    mp = mp_state(A)
    so = solver(scheme, dim, kern, [place(dim, n, s)], [law if law is not None else Inert()], forces, sdfs=sdfs, alpha=A["alpha"], **kw)
    ss = so.create_state(mp)
    if scheme == "aflip" and "Bp" in A:
        ss = hdx.USLAFLIPState(Bp_stack=A["Bp"])
    st = lambda m, t, k: sim_state([m], [ls], [ss], fstates, sstates, A["dt"], t, k)
    if later:
        import equinox as eqx
        so(st(eqx.tree_at(lambda m: (m.velocity_stack, m.mass_stack), mp, (mp.velocity_stack * 3.0 + 1.0, mp.mass_stack * 2.0)), 0.5, 11))
    t, k = (float(T0), K0) if later else (0.0, 0)
    s1 = so(st(mp, jnp.asarray(t), jnp.asarray(k)))
    r = out_mp(s1.world.material_points[0])
    if scheme == "aflip":
        r["Bp"] = s1.mechanics.solvers[0].Bp_stack
    r["clock"] = jnp.stack([s1.time - t, jnp.asarray(s1.step - k, float)])
    for j, x in enumerate(s1.world.sdfs):
        r["centre%d" % j] = x.center_of_mass
        if dim == 2:
            r["rotation%d" % j] = x.rotation
    if ls is not None:
        r.update({"law_" + f: v for f, v in vars(s1.mechanics.constitutive_laws[0]).items() if hasattr(v, "shape")})
    return r


def compare(obs, O, s, tol=TOL):
    for k in [k[2:] for k in O if k.startswith("a_")]:
        w = moved(O["a_" + k], s) if k == "pos" or k.startswith("centre") else O["a_" + k]
        obs.eq("moved" if k == "pos" else "same-" + k, O["b_" + k], w, (20 if k in ("L", "F", "stress", "Bp", "vol") else 5) * tol)


class Pars:
    def __init__(self, P, p, dim):
        self.P, self.p, self.dim = P, p, dim

    def __getitem__(self, k):
        return self.P[k] if k in self.p else Q3(k, self.dim)


def whole(scheme, kern, dim, mv, extra=None):
    s = MOVES[mv]
    n = 2
    N = tuple(SIZE[kern] + (i % 2) for i in range(dim))
    sym = SYM[(kern, dim)][:1]
    sub = 2 if kern == "quadratic" else 1
    p = pars(kern, dim, n, False)
    p["grav"] = (dim, -10, 10)
    if scheme == "aflip":
        p["Bp"] = ((dim, dim), -2, 2)
    p = {k: v for k, v in p.items() if k not in ("xi", "mass", "vol0", "F")}

    def build(P):
        Q = Pars(P, p, dim)
        A = {"pos": where(coords(P, n, dim, [], sub), [[1] * dim] * n), "mass": sl(Q["mass"]), "vol0": sl(Q["vol0"]), "F": defF(Q, n, dim), "dt": sl(Q["dt"]), "alpha": sl(Q["alpha"]), "vel": sl(Q["vel"])}
        A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
        A["stress"] = np.array([sym3(Q, "s", i) for i in range(n)], dtype=object)
        A["g"] = sl(Q["grav"])
        if scheme == "aflip":
            A["Bp"] = np.full((n, 3, 3), F(0), dtype=object)
            for i in range(n):
                A["Bp"][i][:dim, :dim] = sl(Q["Bp"]) * (F(1) if i == 0 else F(-1, 2))
        A["b_pos"] = moved(A["pos"], s)
        return A

    def fn(A):
        def f(A, second):
            kw = {}
            if scheme == "aflip":
                kw = dict(use_dynamic_alpha=extra == "dynamic", cfl_limit=1e9, use_mls_update=extra != "classic")
                if extra in ("classic", "pic"):
                    kw.update(beta_min=0.25, beta_max=0.25)
            fo, fs = [hdx.Gravity(is_apply_on_grid=extra != "on-particles")], []
            fs.append(fo[0].create_state(A["g"]))
            if extra and extra.startswith("damping"):
                fo.append(hdx.Damping(is_apply_on_grid=extra == "damping", f_idx=1))
                fs.append(fo[1].create_state(0.25))
            return step(A, scheme, dim, kern, N, s if second else (F(0),) * 3, second, law=hdx.LinearElasticLaw(E=10.0, nu=0.25), forces=tuple(fo), fstates=tuple(fs), **kw)
        return both(A, f)
    return Case("step-%s-%s-%dd-move%d%s" % (scheme, kern, dim, mv, "-" + extra if extra else ""), p, build, fn, lambda P, A, O, obs: compare(obs, O, s), functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False,
                weight=3 ** dim, defined=False, atol=2e-2, eps0=True, bounds="two particles, shifted by %s; any velocities, stress, gravity, affine state, time step, blending" % (tuple(str(x) for x in s[:dim]),))


def wall(scheme, kind, dim, mv):
    s = MOVES[mv]
    kern, n = "linear", 1
    N = tuple(SIZE[kern] + (i % 2) for i in range(dim))
    LO, HI = [F(O0[d]) + F(H) * F(1, 8) * (1 + d) for d in range(dim)], [F(O0[d]) + F(H) * (N[d] - 1) - F(H) * F(1, 16) for d in range(dim)]

    def build(P):
        A = {"pos": where(coords(P, n, dim, []), [[1] * dim] * n), "mass": np.array([F(2)], dtype=object), "vol": np.array([F(1)], dtype=object), "dt": np.array(F(1, 64), dtype=object), "alpha": np.asarray(0.5), "vel": sl(P["vel"]),
             "wv": np.array([F(1), F(-1, 2), F(1, 4)][:dim], dtype=object), "com": np.array([F(O0[d]) + F(H) * (F(1, 4) if d == 0 else F(3, 4)) for d in range(dim)], dtype=object)}
        A["b_pos"], A["b_com"] = moved(A["pos"], s), moved(A["com"], s)
        return A

    def fn(A):
        def f(A, second):
            S = {"sphere": lambda: hdx.SphereSDF(radius=0.25), "box": lambda: hdx.BoxSDF((0.25, 0.5, 0.75)[:dim]), "capsule": lambda: hdx.CapsuleSDF(radius=0.25, height=0.5),
                 "domain": lambda: hdx.DomainSDF(origin=[float(v + (s[d] if second else 0)) for d, v in enumerate(LO)], end=[float(v + (s[d] if second else 0)) for d, v in enumerate(HI)], frictions=0.5)}[kind]()
            if kind == "domain":
                st = S.create_state(center_of_mass=jnp.zeros(dim))
            else:
                st = S.create_state(center_of_mass=A["com"], velocity=A["wv"], angular_velocity=0.75 if dim == 2 else jnp.array([0.5, -0.25, 0.75]))
            kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
            r = step(A, scheme, dim, kern, N, s if second else (F(0),) * 3, second, forces=(hdx.SDFCollider(sdf_idx=0, friction=0.5),), fstates=(None,), sdfs=(S,), sstates=(st,), **kw)
            if kind == "domain":
                r.pop("centre0")
            return r
        return both(A, f)
    return Case("object-%s-%s-%dd-move%d" % (scheme, kind, dim, mv), {"vel": ((n, dim), -5, 5)}, build, fn, lambda P, A, O, obs: compare(obs, O, s), functions=["SDFCollider.apply_grid_moments"], typed=False, weight=3 ** dim,
                defined=False, atol=2e-2, eps0=True, bounds="one particle next to a moving, turning %s, any particle velocity" % kind)


def shape(dim, kind, mv):
    s = MOVES[mv]

    def build(P):
        A = {"x": sl(P["x"]), "c": sl(P["c"])}
        A["b_x"], A["b_c"] = moved(A["x"], s), moved(A["c"], s)
        return A

    def fn(A):
        def f(A, second):
            S = (SH2 if dim == 2 else SH3)[kind]()
            st = S.create_state(A["c"], velocity=jnp.array([1.0, -0.5, 0.25])[:dim], angular_velocity=0.5 if dim == 2 else jnp.array([0.5, -0.25, 0.75]))
            return dict(d=S.signed_distance(st, A["x"]), ds=S.get_signed_distance_stack(st, A["x"][None]), v=S.get_velocity_stack(st, A["x"][None], 0.01), mu=S.get_surface_friction(st, A["x"]))
        return both(A, f)
    return Case("shape-%s-%dd-move%d" % (kind, dim, mv), {"x": (dim, -3, 3), "c": (dim, -3, 3)}, build, fn, lambda P, A, O, obs: compare(obs, O, s), functions=["SDFObjectBase.signed_distance"], typed=False, defined=False,
                eps0=True, bounds="any point and centre")


def law(l, mv):
    """the remaining materials (their history included) inside a step"""
    s = MOVES[mv]
    n, dim, kern = 1, 2, "linear"
    N = (3, 4)
    VEL = [[F(1), F(-2)]]

    def build(P):
        A = {"pos": where(coords(P, n, dim, []), [[1] * dim] * n), "mass": np.array([F(2)], dtype=object), "vol": np.array([F(1)], dtype=object), "vol0": np.array([F(1, 2)], dtype=object), "dt": np.array(F(1, 64), dtype=object),
             "alpha": np.asarray(0.5), "vel": sl(P["vel"]) if l == "newton" else np.array(VEL, dtype=object), "stress": np.array([sym3(P, "s", 0) + eye(3) * F(75)], dtype=object)}
        A["F"] = np.array([[[F(2), F(1, 4), F(0)], [F(0), F(1), F(0)], [F(0), F(0), F(1)]]], dtype=object)
        A["ee"] = np.array([sym3({"ee": sl(P["s"]) * F(1, 50)}, "ee", 0)], dtype=object)
        A["b_pos"] = moved(A["pos"], s)
        return A

    def fn(A):
        def f(A, second):
            if l == "newton":
                lw, ls = hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), hdx.NewtonFluidState(density_ref_stack=jnp.full(1, 1.5))
            elif l == "mui":
                lw, ls = hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25), hdx.MuIState(density_ref_stack=jnp.full(1, 1.0))
            else:
                lw = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=200.0, rho_0=0.5)
                ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=jnp.zeros(1), p_0_stack=jnp.full(1, 10.0))
            return step(A, "usl", dim, kern, N, s if second else (F(0),) * 3, second, law=lw, ls=ls)
        return both(A, f)
    return Case("law-%s-move%d" % (l, mv), {"vel": ((n, dim), -5, 5), "s": ((1, 6), -5, 5)}, build, fn, lambda P, A, O, obs: compare(obs, O, s), functions=["USLSolver.__call__"], typed=False, defined=False, atol=2e-2, eps0=True,
                bounds="one particle, any stored state")


def built(scheme):
    """everything set up through SimBuilder (padding, default grids and couplings), at two places"""
    s, dim, n = MOVES[1], 2, 2

    def build(P):
        A = {"pos": np.array([[F(1, 8), F(5, 8)], [F(-1, 8), F(7, 8)]], dtype=object), "vel": sl(P["vel"]), "g": sl(P["g"]), "com": np.array([F(1), F(1, 4)], dtype=object)}
        A["b_pos"], A["b_com"] = moved(A["pos"], s), moved(A["com"], s)
        return A

    def fn(A):
        def f(A, second):
            o = s if second else (F(0),) * 3
            b = hdx.SimBuilder()
            b.add_material_points(position_stack=A["pos"], velocity_stack=A["vel"], mass_stack=jnp.array([2.0, 1.0]), volume_stack=jnp.array([0.5, 0.25]))
            b.add_grid(origin=tuple(float(F(-1, 2) + o[d]) for d in range(dim)), end=tuple(float(F(1) + o[d]) for d in range(dim)), cell_size=0.5, padding=1)
            b.add_constitutive_law(law=hdx.LinearElasticLaw(E=10.0, nu=0.25))
            b.couple(shapefunction="quadratic")
            b.add_gravity(gravity=A["g"])
            b.add_damping(alpha=0.25)
            b.add_sdf_object(sdf_logic=hdx.SphereSDF(radius=0.5), center_of_mass=A["com"], velocity=jnp.array([-1.0, 0.5]))
            b.add_sdf_collider(friction=0.5)
            b.set_solver(scheme="usl" if scheme == "usl" else "usl_aflip")
            so, st = b.build(dt=1 / 64)
            if second:
                so(st)
            s1 = so(st)
            r = out_mp(s1.world.material_points[0])
            r["centre0"] = s1.world.sdfs[0].center_of_mass
            return r
        return both(A, f)
    return Case("built-%s" % scheme, {"vel": ((n, dim), -5, 5), "g": (dim, -10, 10)}, build, fn, lambda P, A, O, obs: compare(obs, O, s), functions=["SimBuilder.add_grid", "SimBuilder.build"], typed=False, defined=False, atol=2e-2,
                eps0=True, weight=9, bounds="two particles, any velocities and gravity, next to a moving sphere")
