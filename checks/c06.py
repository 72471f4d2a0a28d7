"""linear velocity fields: gather recovers value and gradient, affine scatter re-creates the field"""
from .steps import *

SYM = {("linear", 1): [(0, 0), (1, 0)], ("linear", 2): [(0, 0), (0, 1), (1, 0)], ("linear", 3): [(0, 0), (0, 2)], ("quadratic", 1): [(0, 0), (1, 0)],
       ("quadratic", 2): [(0, 0), (1, 1)], ("cubic", 1): [(0, 0)], ("cubic", 2): [(0, 1)], ("quadratic", 3): [(0, 1)], ("cubic", 3): [(0, 2)]}
MG = {"linear": F(1, 20), "quadratic": F(1, 20), "cubic": F(1, 5)}


def cases(tier, seed):
    out = []
    ks = [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 2), ("cubic", 2), ("cubic", 1), ("quadratic", 1)]
    if tier == "thorough":
        ks += [("quadratic", 3), ("cubic", 3)]
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            out.append(gather(scheme, k, d))
    for k, d in [("quadratic", 2), ("cubic", 2), ("quadratic", 1)] + ([("quadratic", 3)] if tier == "thorough" else []):
        out.append(gather("aflip", k, d, classic=True))
    for k, d in ks:
        out.append(scatter(k, d))
    return out


def field(A, x):
    dim = len(A["b"])
    return np.array([dot(A["g"][r], x) + A["b"][r] for r in range(dim)], dtype=object)


def pad3(g, sgn=1):
    out = np.zeros((3, 3), dtype=object)
    d = g.shape[0]
    for k in np.ndindex(d, d):
        out[k] = g[k] * sgn
    return out


def nodes(dim, n):
    return np.array([[F(O0[d]) + F(H) * k[d] for d in range(dim)] for k in np.ndindex(*(n,) * dim)], dtype=object)


def base(P, kern, dim, n, sym):
    return {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim] * n), "mass": sl(P["mass"]), "g": sl(P["g"]),
            "b": sl(P["b"])}


def params(kern, dim, n, sym):
    return {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "g": ((dim, dim), -5, 5), "b": (dim, -5, 5)}


def gather(scheme, kern, dim, classic=False):
    n = 2
    sym = SYM[(kern, dim)]
    gs = SIZE[kern]

    def build(P):
        A = base(P, kern, dim, n, sym)
        A["vel"] = sl(P["vel"])
        A["nodes"] = np.array([field(A, x) for x in nodes(dim, gs)], dtype=object)
        A["dt"] = sl(P["dt"])
        return A

    def fn(A):
        import equinox as eqx

        class SetField(hdx.Force):
            def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
                g = cache.grids[0]
                g = eqx.tree_at(lambda s: s.moment_nt_stack, g, g.mass_stack[:, None] * A["nodes"])
                return world, mechanics, eqx.tree_at(lambda c: c.grids, cache, (g,) + tuple(cache.grids[1:]))
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9, use_mls_update=not classic) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, forces=(SetField(),), force_states=(None,), alpha=0.0, n=gs, **kw)
        st = s(st)
        r = out_mp(st.world.material_points[0])
        r = {k: r[k] for k in ("pos", "vel", "L")}
        if scheme == "aflip":
            r["Bp"] = st.mechanics.solvers[0].Bp_stack
        return r

    def post(P, A, O, obs):
        G = pad3(A["g"], -1)
        for i in range(n):
            v = field(A, A["pos"][i])
            obs.eq("velocity-gradient", O["L"][i], G, 10 * TOL)
            obs.eq("field-value", O["vel"][i], v, 10 * TOL)
            obs.eq("advection", O["pos"][i], np.array([A["pos"][i, d] + A["dt"][()] * v[d] for d in range(dim)], dtype=object), 10 * TOL)
            if scheme == "aflip":
                obs.eq("affine-state", O["Bp"][i], G, 10 * TOL)
    p = params(kern, dim, n, sym)
    p["vel"] = ((n, dim), -5, 5)
    p["dt"] = (None, F(1, 1000), F(1, 10))
    return Case("gather-%s-%s-%dd%s" % (scheme, kern, dim, "-classic" if classic else ""), p, build, fn, post, functions=["%s._g2p" % scheme],
                typed=False, weight=3 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1),
                bounds="2 particles (%d of %d coordinates symbolic), any linear grid velocity field, previous velocity, mass, dt" % (len(sym), 2 * dim))


def scatter(kern, dim):
    """particles carrying field value and affine state of a linear field put exactly that field on the grid (and nothing else)"""
    n = 2
    sym = SYM[(kern, dim)]
    gs = SIZE[kern]

    def build(P):
        A = base(P, kern, dim, n, sym)
        A["vel"] = np.array([field(A, A["pos"][i]) for i in range(n)], dtype=object)
        A["Bp"] = np.array([pad3(A["g"], -1)] * n, dtype=object)
        return A

    def fn(A):
        probe, box = hooks()
        s, st = one_body(A, "aflip", dim, kern, forces=(probe,), force_states=(None,), Bp=A["Bp"], n=gs, dt=1e-3)
        s(st)
        g = box["before"][0]
        return dict(m=g.mass_stack, p=g.moment_stack)

    def post(P, A, O, obs):
        for k, x in enumerate(nodes(dim, gs)):
            v = field(A, x)
            for d in range(dim):
                obs.eq("grid-field", O["p"][k, d], O["m"][k] * v[d], 10 * TOL)
    return Case("scatter-aflip-%s-%dd" % (kern, dim), params(kern, dim, n, sym), build, fn, post, functions=["USLAFLIP._p2g"], typed=False,
                weight=2 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1),
                bounds="2 particles (%d of %d coordinates symbolic), any linear field, mass" % (len(sym), 2 * dim))
