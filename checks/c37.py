"""bodies and particles that share no grid node do not influence each other"""
from .steps import *
from .c29 import FIXED, pars, SYM
from .c05 import defF
from .c36 import Q3, Pars

TOL = F(1, 1000)
# kernel: (nodes per axis when the near particle reaches every node, its cell, cells that reach no node [below, above])
TIGHT = {"linear": (2, 0, -3, 2), "quadratic": (3, 1, -3, 5), "cubic": (4, 1, -4, 6)}
WIDE = {"linear": (6, 1, 4), "quadratic": (7, 1, 5), "cubic": (9, 1, 6)}      # nodes, near cell, far cell inside the grid


def cases(tier, seed):
    deep = tier == "thorough"
    out = []
    ks = [("linear", 1), ("linear", 2), ("quadratic", 2), ("cubic", 2)] + ([("linear", 3)] if deep else [])
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            for first in (0, 1):
                if deep or (d == 2 and (first == 0) == (scheme == "usl")) or (d == 1 and first == 0):
                    out.append(inside(scheme, k, d, first))
        for k, d in [("linear", 1), ("linear", 2), ("quadratic", 2), ("cubic", 2), ("linear", 3)]:
            for ax in range(d):
                for side in (0, 1):
                    if deep or (k, d) == ("linear", 2) or (d < 3 and side == (ax + (scheme == "usl")) % 2) or (d == 3 and (scheme == "usl") == (side == ax % 2)):
                        out.append(outside(scheme, k, d, ax, side))
        for x in ("on-particles", "damping", "damping-particles", "wall"):
            out.append(inside(scheme, "linear", 2, 1, x))
        for first in (0, 1):
            out.append(bodies(scheme, "same-grid", first))
            out.append(bodies(scheme, "own-grid", first))
    for x in ("classic", "dynamic", "pic", "limited"):
        out.append(inside("aflip", "quadratic", 2, 1, x))
    for l in ("newton", "dp", "mui"):
        for near in (0, 1):
            out.append(law(l, near))
    return out


# the watched particle's companion (same cell): keeps its own state from being the state of its nodes
MATE = {"vel": [F(-2), F(3, 2), F(1, 2)], "mass": F(3), "vol0": F(5, 8), "F": [[F(7, 8), F(1, 4), F(0)], [F(0), F(5, 4), F(0)], [F(0), F(0), F(1)]], "stress": [[F(1), F(2), F(0)], [F(2), F(-3), F(0)], [F(0), F(0), F(1, 2)]],
        "Bp": [[F(1, 2), F(-1), F(0)], [F(1, 4), F(1), F(0)], [F(0), F(0), F(0)]]}


def particles(P, kern, dim, cells, near, kw):
    """the watched particle `near`, the other one and (last) the companion of the watched one"""
    sub = 2 if kern == "quadratic" else 1
    Q = Pars(P, kw, dim)
    n = 2
    A = {"pos": where(coords(P, 3, dim, [], sub), cells + [cells[near]]), "mass": np.array([F(2), F(2)], dtype=object), "vol0": sl(Q["vol0"]), "F": defF(Q, n, dim), "dt": sl(Q["dt"]), "alpha": sl(Q["alpha"]), "vel": sl(Q["vel"]), "g": sl(Q["grav"])}
    A["stress"] = np.array([sym3(Q, "s", i) for i in range(n)], dtype=object)
    A["Bp"] = np.full((n, 3, 3), F(0), dtype=object)
    for i in range(n):
        A["Bp"][i][:dim, :dim] = sl(Q["Bp"]) * (F(1) if i == 0 else F(-1, 2))
    # the other one may be far heavier, faster and more stressed
    A["mass"][1 - near] = sl(P["fm"])[()] if "fm" in kw else F(3)
    for k, by in (("mass", F(20000)), ("vel", F(100)), ("stress", F(1000))):
        A[k] = A[k].copy()
        A[k][1 - near] = A[k][1 - near] * by
    for k, v in MATE.items():
        v = np.array(v, dtype=object)
        if k == "vel":
            v = v[:dim]
        if v.ndim == 2 and dim < 3:
            v = v.copy()
            v[dim:, :] = v[:, dim:] = F(0)
            if k == "F":
                for d in range(dim, 3):
                    v[d, d] = F(1)
        A[k] = np.concatenate([A[k], v[None]])
    A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(3)], dtype=object)
    return A


def params(kern, dim, scheme):
    p = pars(kern, dim, 2, False)
    p.update(grav=(dim, -10, 10), Bp=((dim, dim), -2, 2))
    p["fm"] = (None, 1, 5)
    return {k: v for k, v in p.items() if k not in ("xi", "vol0", "F", "mass")}


PER = ("pos", "vel", "mass", "vol", "vol0", "F", "L", "stress", "force", "Bp")


def pick(A, ids):
    return {k: (jnp.asarray(v)[jnp.asarray(ids)] if k in PER else v) for k, v in A.items()}


def forces(A, dim, extra):
    fo = [hdx.Gravity(is_apply_on_grid=extra != "on-particles")]
    fs = [fo[0].create_state(A["g"])]
    sdfs, ss = (), ()
    if extra and extra.startswith("damping"):
        fo.append(hdx.Damping(is_apply_on_grid=extra == "damping", f_idx=1))
        fs.append(fo[1].create_state(0.25))
    if extra == "wall":
        sdfs = (hdx.DomainSDF(origin=[O0[d] + 0.6 + 0.15 * d for d in range(dim)], end=[O0[d] + 100.0 + 9.0 * d for d in range(dim)], frictions=0.5),)
        ss = (sdfs[0].create_state(center_of_mass=jnp.zeros(dim)),)
        fo.append(hdx.SDFCollider(sdf_idx=0, friction=0.5))
        fs.append(None)
    return tuple(fo), tuple(fs), sdfs, ss


def run(A, scheme, dim, kern, N, extra):
    mp = mp_state(A)
    fo, fs, sdfs, sst = forces(A, dim, extra)
    kw = {}
    if scheme == "aflip":
        kw = dict(use_dynamic_alpha=extra == "dynamic", cfl_limit=0.25 if extra == "limited" else 1e9, use_mls_update=extra != "classic")
        if extra in ("classic", "pic"):
            kw.update(beta_min=0.25, beta_max=0.25)
    so = solver(scheme, dim, kern, [domain(dim, N)], [hdx.LinearElasticLaw(E=10.0, nu=0.25)], fo, sdfs=sdfs, alpha=A["alpha"], **kw)
    ss = hdx.USLAFLIPState(Bp_stack=A["Bp"]) if scheme == "aflip" else so.create_state(mp)
    s1 = so(sim_state([mp], [None], [ss], fs, sst, A["dt"]))
    r = out_mp(s1.world.material_points[0])
    if scheme == "aflip":
        r["Bp"] = s1.mechanics.solvers[0].Bp_stack
    return r


def same(obs, O):
    for k in [k[2:] for k in O if k.startswith("a_")]:
        obs.eq("as-if-alone-" + k, O["b_" + k], O["a_" + k], (20 if k in ("L", "F", "stress", "Bp", "vol") else 5) * TOL)


def pair(name, scheme, kern, dim, N, cells, near, extra, what):
    p = params(kern, dim, scheme)
    if extra in ("limited", "dynamic"):
        p = {k: v for k, v in p.items() if k not in ("alpha", "dt", "s")}

    def build(P):
        return particles(P, kern, dim, cells, near, p)

    def fn(A):
        b = run(A, scheme, dim, kern, N, extra)
        a = run(pick(A, [near, 2]), scheme, dim, kern, N, extra)
        r = {"a_" + k: v[0][None] for k, v in a.items()}
        r.update({"b_" + k: v[near][None] for k, v in b.items()})
        return r
    return Case(name, p, build, fn, lambda P, A, O, obs: same(obs, O), functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=3 ** dim, defined=False, atol=2e-2, eps0=True,
                bounds="a watched particle (with a companion) and another one, %s; any velocities, stress, mass of the other, gravity, affine state, time step, blending" % what)


def inside(scheme, kern, dim, near, extra=None):
    N, c, f = WIDE[kern]
    cells = [None, None]
    cells[near] = [c] * dim
    cells[1 - near] = [f] + [c] * (dim - 1)            # far along one axis only
    return pair("apart-%s-%s-%dd-%d%s" % (scheme, kern, dim, near, "-" + extra if extra else ""), scheme, kern, dim, (N,) + (4 if kern != "cubic" else 5,) * (dim - 1), cells, near, extra, "on disjoint nodes of one grid")


def outside(scheme, kern, dim, ax, side):
    N, c, lo, hi = TIGHT[kern]
    near = (ax + side) % 2
    cells = [None, None]
    cells[near] = [c] * dim
    cells[1 - near] = [c] * dim
    cells[1 - near][ax] = (lo, hi)[side]
    return pair("outside-%s-%s-%dd-%s%s" % (scheme, kern, dim, "xyz"[ax], "-+"[side]), scheme, kern, dim, N, cells, near, None, "one of them outside the grid (whose nodes the other all reaches)")


def bodies(scheme, how, near):
    kern, dim = "linear", 2
    own = how == "own-grid"
    N, c, f = WIDE[kern]
    cells = [[c, c], [c, c]]
    if not own:
        cells[1 - near] = [f, c]
    p = params(kern, dim, scheme)

    def build(P):
        return particles(P, kern, dim, cells, near, p)

    def fn(A):
        of = lambda i: [i, 2] if i == near else [i]

        def sim(ids):
            mps = [mp_state(pick(A, of(i))) for i in ids]
            doms = [domain(dim, (N, 4)) for _ in (ids if own else [0])]
            fo = hdx.Gravity(g_idx_list=list(range(len(doms))), p_idx_list=list(range(len(ids))))
            cp = tuple(BodyCoupling(shape_map=hdx.ShapeFunctionMapping(kern, dim), p_idx=j, g_idx=j if own else 0, c_idx=j, s_idx=j) for j in range(len(ids)))
            kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
            so = solver(scheme, dim, kern, doms, [hdx.LinearElasticLaw(E=10.0 * (1 + i), nu=0.25) for i in ids], (fo,), couplings=cp, alpha=A["alpha"], **kw)
            st = sim_state(mps, [None] * len(ids), [hdx.USLAFLIPState(Bp_stack=pick(A, of(i))["Bp"]) for i in ids] if scheme == "aflip" else [so.create_state(m) for m in mps], (fo.create_state(A["g"]),), (), A["dt"])
            s1 = so(st)
            r = out_mp(s1.world.material_points[ids.index(near)])
            if scheme == "aflip":
                r["Bp"] = s1.mechanics.solvers[ids.index(near)].Bp_stack
            return r
        r = {"a_" + k: v for k, v in sim([near]).items()}
        r.update({"b_" + k: v for k, v in sim([0, 1]).items()})
        return r
    return Case("bodies-%s-%s-%d" % (scheme, how, near), p, build, fn, lambda P, A, O, obs: same(obs, O), functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=9, defined=False, atol=2e-2, eps0=True,
                bounds="two bodies, %s" % ("on grids of their own, at the same place" if own else "on disjoint nodes of one grid"))


def law(l, near):
    """materials treat every particle on its own"""
    n = 2

    def build(P):
        A = {"pos": np.full((n, 2), F(0), dtype=object), "vel": np.full((n, 2), F(0), dtype=object), "mass": np.array([F(2), F(3)], dtype=object), "vol": sl(P["vol"]), "vol0": np.array([F(1), F(1)], dtype=object),
             "stress": np.array([sym3(P, "s", i) + eye(3) * F(75) for i in range(n)], dtype=object), "ee": np.array([sym3({"ee": sl(P["s"]) * F(1, 50)}, "ee", i) for i in range(n)], dtype=object), "L": sl(P["L"]), "dt": np.array(F(1, 64), dtype=object)}
        return A

    def fn(A):
        def f(ids):
            k = jnp.asarray(ids)
            B = {x: jnp.asarray(v)[k] if x != "dt" else v for x, v in A.items()}
            B["F"] = jnp.tile(jnp.eye(3), (len(ids), 1, 1)) * B["vol"][:, None, None]
            mp = mp_state(B)
            if l == "newton":
                lw, ls = hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), hdx.NewtonFluidState(density_ref_stack=jnp.array([1.5, 2.0])[k])
            elif l == "mui":
                lw, ls = hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25), hdx.MuIState(density_ref_stack=jnp.array([1.0, 1.5])[k])
            else:
                lw = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=2.0, rho_0=0.5)
                ls = hdx.DruckerPragerState(eps_e_stack=B["ee"], eps_p_acc_stack=jnp.zeros(len(ids)), p_0_stack=jnp.array([10.0, 12.0])[k])
            m, s = lw.update(mp, ls, A["dt"])
            r = {"stress": m.stress_stack}
            r.update({"law_" + x: v for x, v in vars(s).items() if hasattr(v, "shape")})
            return r
        b = f([0, 1])
        r = {"a_" + k: v for k, v in f([near]).items()}
        r.update({"b_" + k: v[near][None] for k, v in b.items()})
        return r
    return Case("law-%s-%d" % (l, near), {"vol": (n, F(1, 2), F(3, 2)), "s": ((n, 6), -5, 5), "L": ((n, 3, 3), -5, 5)}, build, fn, lambda P, A, O, obs: same(obs, O), functions=["ConstitutiveLaw.update"], typed=False, defined=False,
                atol=2e-2, eps0=True, bounds="two particles, any stored state, velocity gradient and volume")
