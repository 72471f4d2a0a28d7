from .steps import *


def cases(tier, seed):
    out = []
    for scheme in ("usl", "aflip"):
        for kern, dim in [("linear", 2), ("linear", 3), ("quadratic", 2), ("cubic", 2)] + ([("quadratic", 3), ("cubic", 3)] if tier == "thorough" else []):
            out.append(p2g(scheme, kern, dim))
        for kern, dim in [("linear", 2), ("quadratic", 2), ("linear", 3), ("cubic", 2)]:
            out.append(step_case(scheme, kern, dim))
    for scheme in ("usl", "aflip"):
        out.append(shared(scheme, "linear", 2))
        out.append(shared(scheme, "quadratic", 2))
    for scheme in ("usl", "aflip"):
        for kern, dim in [("linear", 2), ("quadratic", 2)] + ([("linear", 3), ("cubic", 2)] if tier == "thorough" else []):
            out.append(p2g(scheme, kern, dim, light=True))
    for kern, dim in [("linear", 2), ("quadratic", 2)]:
        out.append(step_case("usl", kern, dim, light=True))
    return out


LIGHT = F(1, 2 ** 26)          # dust: masses, volumes and forces of the order of 1e-8 (totals are compared relative to that)


def lighten(A):
    for k in ("mass", "vol", "extf"):
        A[k] = A[k] * LIGHT
    return A


def params(kern, dim, n, lo=0, scheme="usl", margin=0):
    p = {"xi": ((n, dim), F(margin), 1 - F(margin)), "vel": ((n, dim), -10, 10), "mass": (n, F(1, 10), 10), "vol": (n, F(1, 10), 2),
         "s": ((n, 6), -10, 10), "force": ((n, dim), -10, 10)}
    if scheme == "aflip":
        p["Bp"] = ((n, 3, 3), -5, 5)
    return p


def mk(P, cells, n, pre=""):
    A = {"pos": where(P[pre + "xi"], cells), "vel": sl(P[pre + "vel"]), "mass": sl(P[pre + "mass"]), "vol": sl(P[pre + "vol"]),
         "stress": np.array([sym3(P, pre + "s", i) for i in range(n)], dtype=object)}
    A["extf"] = sl(P[pre + "force"])
    if pre + "Bp" in P:
        A["Bp"] = sl(P[pre + "Bp"])
    return {pre + k: v for k, v in A.items()}


class Push(hdx.Force):
    """external particle forces through the library's own force hook"""
    f: object
    idx: int = 0

    def apply_pre_p2g(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        import equinox as eqx
        mps = list(world.material_points)
        mps[self.idx] = eqx.tree_at(lambda m: m.force_stack, mps[self.idx], mps[self.idx].force_stack + self.f)
        return eqx.tree_at(lambda w: w.material_points, world, tuple(mps)), mechanics, sim_cache


def pre_fn(kern, dim, n, pres=("",)):
    def pre(P, A):
        c = []
        for q in pres:
            for k in np.ndindex(n, dim):
                c += [sl(P[q + "xi"])[k] < 1, sl(P[q + "xi"])[k] > 0]
        return c
    return pre


def p2g(scheme, kern, dim, light=False):
    """what arrives on the grid: mass, momentum, force totals"""
    n = 2
    cells = [[1] * dim, [1] * dim] if kern != "linear" else [[1] * dim, [0] + [1] * (dim - 1)]
    half = kern == "quadratic"
    u = 1 / LIGHT if light else F(1)

    def build(P):
        A = mk(P, cells, n)
        A["dt"] = sl(P["dt"])
        return lighten(A) if light else A

    def fn(A):
        probe, box = hooks()
        s, st = one_body(A, scheme, dim, kern, forces=(Push(A["extf"]), probe), force_states=(None, None), Bp=A.get("Bp"), n=SIZE[kern])
        s(st)
        g = box["before"][0]
        a = box["after"][0]
        return dict(m=g.mass_stack, p=g.moment_stack, f=g.force_stack, p2=a.moment_nt_stack)

    def post(P, A, O, obs):
        obs.eq("grid-mass", u * total(O["m"]), u * total(A["mass"]), TOL)
        for d in range(dim):
            ptot = dot(A["mass"], A["vel"][:, d])
            ftot = total(A["extf"][:, d])
            obs.eq("grid-momentum", u * total(O["p"][:, d]), u * ptot, 10 * TOL)
            obs.eq("grid-force", u * total(O["f"][:, d]), u * ftot, 10 * TOL)
            obs.eq("grid-momentum-after", u * total(O["p2"][:, d]), u * (ptot + A["dt"][()] * ftot), 10 * TOL)
        obs.ge("grid-mass-non-negative", O["m"], 0, 0)
    p = params(kern, dim, n, scheme=scheme)
    p["dt"] = (None, 0, F(1, 10))
    if half:
        p["xi"] = ((n, dim), 0, F(1, 2))
    return Case("p2g-%s%s-%s-%dd" % ("light-" if light else "", scheme, kern, dim), p, build, fn, post, pre=pre_fn(kern, dim, n) if not half else
                (lambda P, A: [x < F(1, 2) for x in sl(P["xi"]).reshape(-1)]),
                functions=["%s._p2g" % scheme, "%s._integrate_grid" % scheme], typed=False,
                bounds="two particles anywhere in their cell of a small grid; any velocity, mass, volume, stress, external force, affine state in the box; dt in [0,0.1]",
                weight=2 ** dim)


def step_case(scheme, kern, dim, light=False):
    """whole step, any blending: particle momentum changes by dt * external force (all touched nodes above the mass cutoff)"""
    n = 2
    mg = {"linear": F(1, 20), "quadratic": F(1, 20), "cubic": F(1, 5)}[kern]
    u = 1 / LIGHT if light else F(1)
    sub = 2 if kern == "quadratic" else 1
    sym = {("linear", 2): [(0, 0), (0, 1), (1, 0)], ("linear", 3): [(0, 0), (0, 2)], ("quadratic", 2): [(0, 0)], ("cubic", 2): [(0, 1)]}[(kern, dim)]

    def build(P):
        A = mk(dict(P, xi=coords(P, n, dim, sym, sub)), [[1] * dim] * n, n)
        A["dt"] = sl(P["dt"])
        A["alpha"] = sl(P["alpha"])
        return lighten(A) if light else A

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, forces=(Push(A["extf"]),), force_states=(None,), Bp=A.get("Bp"), n=SIZE[kern],
                         alpha=A["alpha"], **kw)
        return dict(v=s(st).world.material_points[0].velocity_stack)

    def post(P, A, O, obs):
        for d in range(dim):
            want = dot(A["mass"], A["vel"][:, d]) + A["dt"][()] * total(A["extf"][:, d])
            obs.eq("particle-momentum", u * dot(A["mass"], O["v"][:, d]), u * want, 10 * TOL)
    p = params(kern, dim, n, scheme=scheme)
    p["mass"] = (n, 1, 5)
    p["xi"] = cparam(sym, sub, mg)
    p["dt"] = (None, F(1, 1000), F(1, 10))
    p["alpha"] = (None, 0, 1)
    return Case("step-%s%s-%s-%dd" % ("light-" if light else "", scheme, kern, dim), p, build, fn, post, functions=["%s.__call__" % scheme], typed=False,
                bounds="2 particles, %d of %d coordinates symbolic (others fixed), away from cell faces so that all touched nodes exceed the mass cutoff, "
                       "mass in [1,5], blending in [0,1], dt in [0.001,0.1], speed limiter off" % (len(sym), 2 * dim),
                weight=3 ** dim, nra_ms=8000)


def shared(scheme, kern, dim):
    """two bodies (one particle each) on one grid, coupled in turn"""
    half = kern == "quadratic"

    def build(P):
        A = mk(P, [[1] * dim], 1, "a")
        A.update(mk(P, [[1] * dim], 1, "b"))
        A["dt"] = sl(P["dt"])
        return A

    def fn(A):
        probe, box = hooks()
        sm = hdx.ShapeFunctionMapping(kern, dim)
        cp = tuple(BodyCoupling(shape_map=sm, p_idx=i, g_idx=0, c_idx=i, s_idx=i) for i in (0, 1))
        s = solver(scheme, dim, kern, [domain(dim, SIZE[kern])], [Inert(), Inert()], (Push(A["aextf"], 0), Push(A["bextf"], 1), probe), cp)
        mps = [mp_state(A, "a"), mp_state(A, "b")]
        if scheme == "aflip":
            ss = [hdx.USLAFLIPState(Bp_stack=A["aBp"]), hdx.USLAFLIPState(Bp_stack=A["bBp"])]
        else:
            ss = [s.create_state(m) for m in mps]
        s(sim_state(mps, [None, None], ss, (None, None, None), dt=A["dt"]))
        g, a = box["before"][0], box["after"][0]
        return dict(m=g.mass_stack, p=g.moment_stack, f=g.force_stack, p2=a.moment_nt_stack)

    def post(P, A, O, obs):
        obs.eq("grid-mass", total(O["m"]), A["amass"][0] + A["bmass"][0], TOL)
        for d in range(dim):
            ptot = A["amass"][0] * A["avel"][0, d] + A["bmass"][0] * A["bvel"][0, d]
            ftot = A["aextf"][0, d] + A["bextf"][0, d]
            obs.eq("grid-momentum", total(O["p"][:, d]), ptot, 10 * TOL)
            obs.eq("grid-force", total(O["f"][:, d]), ftot, 10 * TOL)
            obs.eq("grid-momentum-after", total(O["p2"][:, d]), ptot + A["dt"][()] * ftot, 10 * TOL)
    p = {}
    for q in "ab":
        for k, v in params(kern, dim, 1, scheme=scheme).items():
            p[q + k] = v
        if half:
            p[q + "xi"] = ((1, dim), 0, F(1, 2))
    p["dt"] = (None, 0, F(1, 10))
    return Case("shared-grid-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post,
                pre=lambda P, A: open_cell(P, 2 if half else 1, ("axi", "bxi")),
                functions=["%s._p2g" % scheme, "%s._integrate_grid" % scheme], typed=False,
                bounds="two bodies of one particle each on one grid", weight=4)
