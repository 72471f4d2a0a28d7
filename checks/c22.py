"""velocity blending, support-based reduction, speed limit"""
from .steps import *
from .c06 import nodes, field, SYM, MG
from .c21 import DIRS

TOL = 1e-3


def cases(tier, seed):
    out = []
    th = tier == "thorough"
    for scheme in ("usl", "aflip"):
        for k, d in [("linear", 2), ("quadratic", 2), ("linear", 3), ("cubic", 2), ("linear", 1)] + ([("quadratic", 3), ("quadratic", 1), ("cubic", 1)] if th else []):
            out.append(blend(scheme, k, d))
        for k, d in [("linear", 2), ("quadratic", 2)] + ([("linear", 3), ("cubic", 2)] if th else []):
            out.append(extremes(scheme, k, d))
            out.append(alone(scheme, k, d))
    for d in (1, 2, 3):
        out.append(support(d))
        out.append(limiter(d))
        out.append(limiter(d, blended=True))
        out.append(separable(d))
    out.append(default_support())
    return out


def set_grid(A):
    """stand-in for everything that happens on the grid: gives nodes masses, velocities before and after"""
    import equinox as eqx

    class SetGrid(hdx.Force):
        def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
            g = cache.grids[0]
            m = A["nm"] * jnp.ones_like(g.mass_stack) if "nm" in A else g.mass_stack
            g = eqx.tree_at(lambda s: (s.mass_stack, s.moment_stack, s.moment_nt_stack), g, (m, m[:, None] * A["old"], m[:, None] * A["new"]))
            return world, mechanics, eqx.tree_at(lambda c: c.grids, cache, (g,) + tuple(cache.grids[1:]))
    return SetGrid()


def run(A, scheme, kern, dim, **kw):
    s, st = one_body(A, scheme, dim, kern, forces=(set_grid(A),), force_states=(None,), n=SIZE[kern], **kw)
    mp = s(st).world.material_points[0]
    return dict(vel=mp.velocity_stack, pos=mp.position_stack)


def fields(A, kern, dim, P):
    for k, g, b in (("old", "g0", "b0"), ("new", "g1", "b1")):
        B = {"g": sl(P[g]), "b": sl(P[b])}
        A[k] = np.array([field(B, x) for x in nodes(dim, SIZE[kern])], dtype=object)
        A[k + "p"] = np.array([field(B, x) for x in A["pos"]], dtype=object)


def blend(scheme, kern, dim):
    n = 2
    sym = SYM[(kern, dim)]

    def build(P):
        A = {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim] * n), "mass": sl(P["mass"]), "vel": sl(P["vel"]), "dt": sl(P["dt"]), "alpha": sl(P["alpha"])}
        fields(A, kern, dim, P)
        return A

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        return run(A, scheme, kern, dim, alpha=A["alpha"], **kw)

    def post(P, A, O, obs):
        al = A["alpha"][()]
        for i in range(n):
            for d in range(dim):
                pic, flip = A["newp"][i, d], A["vel"][i, d] + A["newp"][i, d] - A["oldp"][i, d]
                obs.eq("velocity-blend", O["vel"][i, d], (1 - al) * pic + al * flip, 5 * TOL)
                if scheme == "usl":
                    obs.eq("position", O["pos"][i, d], A["pos"][i, d] + A["dt"][()] * pic, 5 * TOL)
    p = {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "vel": ((n, dim), -5, 5), "dt": (None, F(1, 1000), F(1, 20)), "alpha": (None, 0, 1)}
    for k in "01":
        p["g" + k], p["b" + k] = ((dim, dim), -3, 3), (dim, -5, 5)
    return Case("blend-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, typed=False, weight=3 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1),
                functions=["%s._g2p" % scheme], bounds="2 particles (%d of %d coordinates symbolic), any two linear grid velocity fields (before/after), particle velocities, blending in [0,1]" % (len(sym), 2 * dim))


def extremes(scheme, kern, dim):
    """plain FLIP and plain PIC as configured by plain numbers"""
    n = 2
    sym = SYM[(kern, dim)][:1]

    def build(P):
        A = {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim] * n), "mass": sl(P["mass"]), "vel": sl(P["vel"]), "dt": sl(P["dt"])}
        fields(A, kern, dim, P)
        return A

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        return dict(flip=run(A, scheme, kern, dim, alpha=1.0, **kw)["vel"], pic=run(A, scheme, kern, dim, alpha=0.0, **kw)["vel"], default=run(A, scheme, kern, dim, **kw)["vel"])

    def post(P, A, O, obs):
        for i in range(n):
            for d in range(dim):
                pic, flip = A["newp"][i, d], A["vel"][i, d] + A["newp"][i, d] - A["oldp"][i, d]
                obs.eq("pure-pic", O["pic"][i, d], pic, 5 * TOL)
                obs.eq("pure-flip", O["flip"][i, d], flip, 5 * TOL)
                obs.eq("default-blend", O["default"][i, d], F(99, 100) * flip + F(1, 100) * pic, 5 * TOL)
    p = {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "vel": ((n, dim), -5, 5), "dt": (None, F(1, 1000), F(1, 20))}
    for k in "01":
        p["g" + k], p["b" + k] = ((dim, dim), -3, 3), (dim, -5, 5)
    return Case("extremes-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, typed=False, weight=3 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1),
                functions=["%s._g2p" % scheme], bounds="2 particles (one coordinate symbolic), any two linear grid velocity fields, any particle velocities")


def alone(scheme, kern, dim):
    """a whole step without stand-ins: one stressed particle on its own (the affine scheme reduces it to plain PIC by its lack of support)"""
    sym = [(0, 0)]

    def build(P):
        A = {"pos": where(coords(P, 1, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim]), "mass": sl(P["mass"]), "vel": sl(P["vel"]), "dt": sl(P["dt"]), "alpha": sl(P["alpha"]),
             "g": sl(P["g"])}
        return A

    def fn(A):
        gr = hdx.Gravity(is_apply_on_grid=True)
        kw = dict(cfl_limit=1e9) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, forces=(gr,), force_states=(gr.create_state(A["g"]),), alpha=A["alpha"], n=SIZE[kern], **kw)
        mp = s(st).world.material_points[0]
        return dict(vel=mp.velocity_stack, pos=mp.position_stack)

    def post(P, A, O, obs):
        for d in range(dim):
            v = A["vel"][0, d] + A["dt"][()] * A["g"][d]
            obs.eq("velocity", O["vel"][0, d], v, 2 * TOL)
            obs.eq("position", O["pos"][0, d], A["pos"][0, d] + A["dt"][()] * v, 2 * TOL)
    return Case("alone-%s-%s-%dd" % (scheme, kern, dim), {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (1, 1, 5), "vel": ((1, dim), -5, 5), "g": (dim, -10, 10), "dt": (None, F(1, 1000), F(1, 20)), "alpha": (None, 0, 1)},
                build, fn, post, typed=False, weight=2 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1), functions=["%s.__call__" % scheme], bounds="one particle, any velocity, gravity, blending")


def simple(P, dim, n=1):
    """particles at fixed places under uniform grid velocities (the interpolation itself is C01/C02)"""
    A = {"pos": where(np.array([[FIX[(i * dim + d) % len(FIX)] for d in range(dim)] for i in range(n)], dtype=object), [[1] * dim] * n)}
    N = SIZE["linear"] ** dim
    for k in ("old", "new"):
        if k in P:
            A[k] = np.array([list(sl(P[k]))] * N, dtype=object)
    return A


def clip01(x):
    return sp.min(sp.max(x, F(0)), F(1))


def support(dim):
    """reduction between the configured support limits"""
    n = 2

    def build(P):
        A = simple(P, dim, n)
        A.update(mass=sl(P["mass"]), vel=sl(P["vel"]), alpha=sl(P["alpha"]), nm=sl(P["nm"]), lo=sl(P["lo"]), hi=np.asarray(sl(P["lo"])[()] + sl(P["gap"])[()], dtype=object))
        return A

    def fn(A):
        return run(A, "aflip", "linear", dim, alpha=A["alpha"], cfl_limit=1e9, alpha_support_min=A["lo"], alpha_support_max=A["hi"], dt=1e-2)

    def post(P, A, O, obs):
        lo, hi, nm, al = A["lo"][()], A["hi"][()], A["nm"][()], A["alpha"][()]
        for i in range(n):
            m = A["mass"][i]
            s = nm / m
            f = clip01((s - lo) / (hi - lo))
            for d in range(dim):
                a = A["vel"][i, d] - A["old"][0, d]
                obs.eq("support-blend", O["vel"][i, d], A["new"][0, d] + al * f * a, 10 * TOL)
    p = {"old": (dim, -5, 5), "new": (dim, -5, 5), "mass": (n, 1, 5), "vel": ((n, dim), -5, 5), "alpha": (None, 0, 1), "nm": (None, F(1, 10), 20), "lo": (None, F(1, 10), 3), "gap": (None, F(1, 10), 3)}
    return Case("support-%dd" % dim, p, build, fn, post, typed=False, weight=2 ** dim, functions=["aflip._g2p"], bounds="2 particles, any node mass, support limits (gap at least 0.1), blending, velocities (uniform grid fields)")


def default_support():
    """the documented default limits 1.1 and 1.5"""
    def build(P):
        A = simple(P, 2, 1)
        A.update(mass=sl(P["mass"]), vel=sl(P["vel"]), nm=sl(P["nm"]))
        return A

    def fn(A):
        return run(A, "aflip", "linear", 2, alpha=1.0, cfl_limit=1e9, dt=1e-2)

    def post(P, A, O, obs):
        f = clip01((A["nm"][()] / A["mass"][0] - F(11, 10)) / F(4, 10))
        for d in range(2):
            obs.eq("default-limits", O["vel"][0, d], A["new"][0, d] + f * (A["vel"][0, d] - A["old"][0, d]), 10 * TOL)
    return Case("support-defaults", {"old": (2, -5, 5), "new": (2, -5, 5), "mass": (1, 1, 5), "vel": ((1, 2), -5, 5), "nm": (None, F(1, 10), 20)}, build, fn, post, typed=False,
                functions=["aflip._g2p"], bounds="one particle, any node and particle mass, velocities")


def limiter(dim, blended=False):
    n = len(DIRS[dim])

    def build(P):
        A = simple({}, dim, n)
        N = SIZE["linear"] ** dim
        w = sl(P["w"])
        A["dt"], A["cfl"] = sl(P["dt"]), sl(P["cfl"])
        if blended:       # one direction: particle i=0 only carries it
            u, al = DIRS[dim][0], F(1, 2)
            A["new"] = np.array([[x * w[0] for x in u]] * N, dtype=object)
            A["old"] = np.array([[F(0)] * dim] * N, dtype=object)
            A["vel"] = np.array([[x * w[i] * 2 for x in u] for i in range(n)], dtype=object)
            A["un"] = np.array([[x * (w[0] + w[i]) for x in u] for i in range(n)], dtype=object)
            A["sp"] = np.array([w[0] + w[i] for i in range(n)], dtype=object)
        else:
            z = np.array([[F(0)] * dim] * N, dtype=object)
            A["old"], A["new"] = z, z
            A["vel"] = np.array([[x * w[i] for x in DIRS[dim][i]] for i in range(n)], dtype=object)
            A["un"], A["sp"] = A["vel"], w
        return A

    def fn(A):
        return run(A, "aflip", "linear", dim, alpha=0.5 if blended else 1.0, use_dynamic_alpha=False, cfl_limit=A["cfl"])

    def post(P, A, O, obs):
        dt = A["dt"][()]
        lim = A["cfl"][()] * F(H)           # distance allowed in one step
        for i in range(n):
            far = A["sp"][i] * dt > lim
            u = DIRS[dim][0 if blended else i]
            for d in range(dim):
                v = O["vel"][i, d]
                obs.eq("limited-velocity", v * dt, sp.ite(far, u[d] * lim, A["un"][i, d] * dt), TOL)
                obs.eq("slower-untouched", sp.ite(far, F(0), v - A["un"][i, d]), 0, TOL)
            obs.le("within-limit", dot(O["vel"][i], O["vel"][i]) * dt * dt, lim * lim, TOL)
    p = {"w": (n, F(1, 1000), 100), "dt": (None, F(1, 1000), F(1, 10)), "cfl": (None, F(1, 100), 2)}
    return Case("limiter-%dd%s" % (dim, "-blended" if blended else ""), p, build, fn, post, typed=False, weight=2 ** dim, eps0=True, rtol=5e-3, functions=["aflip._g2p"],
                bounds="%d particles, any speed up to 100 along fixed directions, limit and dt" % n)


def separable(dim):
    """position moves with the grid velocity plus the configured share of the particle's own fluctuation: one share in compression, another in expansion"""
    def build(P):
        A = simple(P, dim, 1)
        A.update(mass=sl(P["mass"]), vel=sl(P["vel"]), alpha=sl(P["alpha"]), dt=sl(P["dt"]), b0=sl(P["b0"]), b1=sl(P["b1"]))
        A["F"] = np.array([eye(3)], dtype=object)
        A["F"][0, 0, 0] = sl(P["J"])[()]
        return A

    def fn(A):
        return run(A, "aflip", "linear", dim, alpha=A["alpha"], use_dynamic_alpha=False, cfl_limit=1e9, beta_min=A["b0"], beta_max=A["b1"])

    def post(P, A, O, obs):
        J = sl(P["J"])[()]
        be = sp.ite(J < 1, A["b0"][()], A["b1"][()])
        for d in range(dim):
            v = A["new"][0, d] + A["alpha"][()] * be * (A["vel"][0, d] - A["old"][0, d])
            obs.eq("position-blend", O["pos"][0, d], A["pos"][0, d] + A["dt"][()] * v, 2 * TOL)
    p = {"old": (dim, -5, 5), "new": (dim, -5, 5), "mass": (1, 1, 5), "vel": ((1, dim), -5, 5), "alpha": (None, 0, 1), "dt": (None, F(1, 1000), F(1, 20)), "b0": (None, 0, 1), "b1": (None, 0, 1), "J": (None, F(1, 2), 2)}

    def pre(P, A):
        J = sl(P["J"])[()]
        return [sp.abs(J - 1) > F(1, 100)]
    return Case("separable-%dd" % dim, p, build, fn, post, pre=pre, typed=False, weight=2 ** dim, functions=["aflip._g2p"], bounds="one particle, uniform grid fields, any volume change away from 1, blending and separable shares")
