"""gravity"""
from .steps import *
from .c05 import SYM, MG, base as base5, params as params5


def cases(tier, seed):
    out = []
    ks = [("linear", 2), ("linear", 3), ("quadratic", 2)] + ([("cubic", 2), ("quadratic", 3), ("linear", 1)] if tier == "thorough" else [])
    for scheme in ("usl", "aflip"):
        for grid in (True, False):
            for k, d in ks:
                out.append(free(scheme, k, d, grid))
            out.append(select(scheme, grid))
            out.append(shared_select(scheme, grid))
        for k, d in [("linear", 2), ("quadratic", 2)] + ([("linear", 3), ("cubic", 2)] if tier == "thorough" else []):
            out.append(modes(scheme, k, d))
    return out


def kw_(scheme):
    return dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}


def free(scheme, kern, dim, grid):
    n = 2
    sym = SYM[(kern, dim)]

    def build(P):
        A = base5(P, kern, dim, n, sym)
        A["v"], A["g"] = sl(P["v"]), sl(P["g"])
        A["vel"] = np.array([A["v"]] * n, dtype=object)
        return A

    def fn(A):
        gr = hdx.Gravity(is_apply_on_grid=grid)
        s, st = one_body(A, scheme, dim, kern, forces=(gr,), force_states=(gr.create_state(A["g"]),), alpha=A["alpha"], n=SIZE[kern], **kw_(scheme))
        st = s(st)
        return dict(out_mp(st.world.material_points[0]), g=st.mechanics.forces[0].gravity)

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            for d in range(dim):
                v = A["v"][d] + dt * A["g"][d]
                obs.eq("velocity", O["vel"][i, d], v, TOL)
                obs.eq("position", O["pos"][i, d], A["pos"][i, d] + dt * v, TOL)
            obs.eq("no-deformation", O["F"][i], A["F"][i], 10 * TOL)
            obs.eq("no-velocity-gradient", O["L"][i], np.zeros((3, 3)), 10 * TOL)
        obs.eq("gravity-unchanged", O["g"], A["g"], 0)
        obs.eq("mass", O["mass"], A["mass"], 0)
    p = params5(kern, dim, n, sym)
    p["v"], p["g"] = (dim, -5, 5), (dim, -20, 20)
    return Case("free-%s-%s-%dd-%s" % (scheme, kern, dim, "grid" if grid else "particles"), p, build, fn, post, functions=["Gravity", "%s.__call__" % scheme],
                typed=False, weight=3 ** dim, bounds="2 particles (%d of %d coordinates symbolic), any common velocity, gravity, mass, deformation, dt, blending" % (len(sym), 2 * dim))


def modes(scheme, kern, dim):
    n = 2
    sym = SYM[(kern, dim)]

    def build(P):
        A = base5(P, kern, dim, n, sym)
        A["vel"], A["g"] = sl(P["vel"]), sl(P["g"])
        A["stress"] = np.array([sym3(P, "s", i) for i in range(n)], dtype=object)
        return A

    def fn(A):
        r = []
        for grid in (True, False):
            gr = hdx.Gravity(is_apply_on_grid=grid)
            s, st = one_body(A, scheme, dim, kern, forces=(gr,), force_states=(gr.create_state(A["g"]),), alpha=A["alpha"], n=SIZE[kern], **kw_(scheme))
            r.append(out_mp(s(st).world.material_points[0]))
        return {k: r[0][k] - r[1][k] for k in ("pos", "vel", "F", "L", "vol", "stress")}

    def post(P, A, O, obs):
        for k in O:
            obs.eq("same-" + k, O[k], np.zeros(O[k].shape), 20 * TOL)
    p = params5(kern, dim, n, sym)
    p["vel"], p["g"], p["s"] = ((n, dim), -5, 5), (dim, -20, 20), ((n, 6), -5, 5)
    return Case("modes-agree-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, functions=["Gravity", "%s.__call__" % scheme],
                typed=False, weight=3 ** dim, bounds="2 particles (%d of %d coordinates symbolic), any velocities, stresses, gravity, blending" % (len(sym), 2 * dim))


def two(P, dim):
    A = {}
    for b in "ab":
        A[b + "pos"] = where(coords(P, 1, dim, [(0, 0)], name=b + "xi", rot=3 if b == "b" else 0), [[1] * dim])
        A[b + "vel"] = sl(P[b + "vel"])
        A[b + "mass"] = sl(P[b + "mass"])
    A["g0"], A["g1"], A["dt"] = sl(P["g0"]), sl(P["g1"]), sl(P["dt"])
    return A


def two_params(dim):
    p = {"g0": (dim, -20, 20), "g1": (dim, -20, 20), "dt": (None, F(1, 1000), F(1, 10))}
    for b in "ab":
        p.update({b + "xi": cparam([(0, 0)], 1, F(1, 20)), b + "vel": ((1, dim), -5, 5), b + "mass": (1, 1, 5)})
    return p


def select(scheme, grid):
    """two bodies on two grids, two gravity forces: one acts on the second body only, the other on the first only / on both"""
    dim, kern = 2, "linear"

    def build(P):
        return two(P, dim)

    def fn(A):
        sm = hdx.ShapeFunctionMapping(kern, dim)
        cp = tuple(BodyCoupling(shape_map=sm, p_idx=i, g_idx=i, c_idx=i, s_idx=i) for i in (0, 1))
        mps = [mp_state(A, "a"), mp_state(A, "b")]
        r = {}
        for nm, sel0, sel1 in [("split", [1], [0]), ("both", [0, 1], [1])]:
            gr = [hdx.Gravity(is_apply_on_grid=grid, p_idx_list=sel0, g_idx_list=sel0, f_idx=0), hdx.Gravity(is_apply_on_grid=grid, p_idx_list=sel1, g_idx_list=sel1, f_idx=1)]
            s = solver(scheme, dim, kern, [domain(dim, 3), domain(dim, 3)], [Inert(), Inert()], gr, cp, alpha=0.5, **kw_(scheme))
            st = s(sim_state(mps, [None, None], [s.create_state(m) for m in mps], [g.create_state(A["g%d" % i]) for i, g in enumerate(gr)], dt=A["dt"]))
            for b, mp in zip("ab", st.world.material_points):
                r[nm + b] = mp.velocity_stack
        return r

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for d in range(dim):
            a, b = A["avel"][0, d], A["bvel"][0, d]
            obs.eq("selected-only", O["splita"][0, d], a + dt * A["g1"][d], TOL)
            obs.eq("selected-only", O["splitb"][0, d], b + dt * A["g0"][d], TOL)
            obs.eq("superposed", O["botha"][0, d], a + dt * A["g0"][d], TOL)
            obs.eq("superposed", O["bothb"][0, d], b + dt * (A["g0"][d] + A["g1"][d]), TOL)
    return Case("select-%s-%s" % (scheme, "grid" if grid else "particles"), two_params(dim), build, fn, post, functions=["Gravity", "%s.__call__" % scheme],
                typed=False, weight=5, bounds="two one-particle bodies on two grids, two gravity forces with different selections")


def shared_select(scheme, grid):
    """particle mode on a shared grid: only the momentum of the selected body's share changes; with a rigid body in the world"""
    dim, kern = 2, "linear"

    def build(P):
        return two(P, dim)

    def fn(A):
        sm = hdx.ShapeFunctionMapping(kern, dim)
        cp = (BodyCoupling(shape_map=sm, p_idx=0, g_idx=0, c_idx=None, s_idx=None, skip_mpm_logic=True),
              BodyCoupling(shape_map=sm, p_idx=1, g_idx=1, c_idx=0, s_idx=1))
        rigid = RigidMaterialPointState.create(position_stack=A["apos"])
        mps = [rigid, mp_state(A, "b")]
        gr = hdx.Gravity(is_apply_on_grid=grid, p_idx_list=[0, 1], g_idx_list=[0, 1])
        s = solver(scheme, dim, kern, [domain(dim, 3), domain(dim, 3)], [Inert()], (gr,), cp, alpha=0.5, **kw_(scheme))
        st = s(sim_state(mps, [None], [None, s.create_state(mps[1])], [gr.create_state(A["g0"])], dt=A["dt"]))
        a, b = st.world.material_points
        return dict(av=a.velocity_stack, ap=a.position_stack, bv=b.velocity_stack)

    def post(P, A, O, obs):
        dt = A["dt"][()]
        obs.eq("rigid-body-unaffected", O["av"], np.zeros((1, dim)), TOL)
        obs.eq("rigid-body-unaffected", O["ap"], A["apos"], TOL)
        for d in range(dim):
            obs.eq("velocity", O["bv"][0, d], A["bvel"][0, d] + dt * A["g0"][d], TOL)
    return Case("with-rigid-%s-%s" % (scheme, "grid" if grid else "particles"), two_params(dim), build, fn, post, functions=["Gravity", "%s.__call__" % scheme],
                typed=False, weight=5, bounds="one rigid and one deformable one-particle body")
