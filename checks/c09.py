"""local damping"""
from .steps import *
from hydraxmpm.common.simstate import SimCache
from hydraxmpm.grid.grid import GridArrays
from .c05 import SYM, base as base5, params as params5
from .c08 import two, two_params, kw_


def cases(tier, seed):
    out = []
    for dim in (1, 2, 3):
        out.append(unit_grid(dim))
        out.append(unit_particles(dim))
    ks = [("linear", 2), ("quadratic", 2)] + ([("linear", 3), ("cubic", 2)] if tier == "thorough" else [])
    for scheme in ("usl", "aflip"):
        for grid in (True, False):
            for k, d in ks:
                if grid and (k, d) != ("linear", 2):       # the signs of velocity and gravity are case constants where the kernel is large
                    out += [fall(scheme, k, d, grid, sg) for sg in (("++", "++", "++"), ("+-", "-+", "+-"), ("--", "+-", "-+"), ("-+", "--", "++"))]
                else:
                    out.append(fall(scheme, k, d, grid))
            out.append(rigid(scheme, grid))
    return out


def law(obs, f0, f1, v, al, tag=""):
    d = f1 - f0
    obs.le("never-adds-power" + tag, d * v, 0, TOL)
    obs.eq("magnitude" + tag, sp.abs(d), al * sp.abs(f0), TOL, when=sp.or_(v > F(1, 100), v < -F(1, 100)))
    obs.eq("none-at-rest" + tag, d, 0, 0, when=sp.and_(v <= 0, v >= 0))
    obs.eq("opposes-velocity" + tag, d, -al * sp.abs(f0), TOL, when=v > F(1, 100))
    obs.eq("opposes-velocity" + tag, d, al * sp.abs(f0), TOL, when=v < -F(1, 100))


def unit_grid(dim):
    n = 2

    def build(P):
        z = np.array([F(0)], dtype=object)
        return {"m": np.concatenate([sl(P["m"]), z]), "p": np.concatenate([sl(P["p"]), np.zeros((1, dim), dtype=object) + F(0)]), "f": sl(P["f"]), "al": sl(P["al"])}

    def fn(A):
        def grid():
            return GridArrays(mass_stack=A["m"], moment_stack=A["p"], moment_nt_stack=jnp.zeros((n + 1, dim)), force_stack=A["f"])
        dm = hdx.Damping(is_apply_on_grid=True, g_idx_list=[1], f_idx=1)
        off = hdx.Damping(is_apply_on_grid=True, g_idx_list=[1], f_idx=0)
        fs = (hdx.Damping().create_state(0.0), dm.create_state(A["al"]))
        st = sim_state([], [], [], fs)
        c = SimCache(grids=(grid(), grid()), interactions={}, node_geoms={}, mp_geoms={})
        w, m, o = dm.apply_grid_forces(st.world, st.mechanics, c, (), (), (), 1e-3, 0.0)
        w2, m2, o2 = off.apply_grid_forces(st.world, st.mechanics, c, (), (), (), 1e-3, 0.0)
        w3, m3, o3 = hdx.Damping(is_apply_on_grid=False, g_idx_list=[1], p_idx_list=[], f_idx=1).apply_grid_forces(st.world, st.mechanics, c, (), (), (), 1e-3, 0.0)
        return dict(f=o.grids[1].force_stack, m=o.grids[1].mass_stack, p=o.grids[1].moment_stack, fu=o.grids[0].force_stack, f0=o2.grids[1].force_stack,
                    foff=o3.grids[1].force_stack, al=m.forces[1].alpha)

    def post(P, A, O, obs):
        al = A["al"][()]
        for k in np.ndindex(n + 1, dim):
            law(obs, A["f"][k], O["f"][k], A["p"][k], al)
            obs.eq("unselected-grid", O["fu"][k], A["f"][k], 0)
            obs.eq("zero-factor", O["f0"][k], A["f"][k], 0)
            obs.eq("inactive-mode", O["foff"][k], A["f"][k], 0)
            obs.eq("momentum-untouched", O["p"][k], A["p"][k], 0)
        obs.eq("mass-untouched", O["m"], A["m"], 0)
        obs.eq("factor-untouched", O["al"], al, 0)
    return Case("grid-%dd" % dim, {"m": (n, 0, 5), "p": ((n, dim), -10, 10), "f": ((n + 1, dim), -100, 100), "al": (None, 0, 1)}, build, fn, post,
                functions=["Damping.apply_grid_forces"], typed=False, bounds="any nodal force, momentum, mass >= 0 (and an empty node), damping factor in [0,1]", atol=1e-2)


def unit_particles(dim):
    n = 2

    def build(P):
        return {"mass": sl(P["m"]), "vel": sl(P["v"]), "force": sl(P["f"]), "al": sl(P["al"]), "pos": np.zeros((n, dim), dtype=object) + F(0)}

    def fn(A):
        mps = (mp_state(A), mp_state(A), RigidMaterialPointState.create(position_stack=A["pos"]))
        dm = hdx.Damping(is_apply_on_grid=False, p_idx_list=[1, 2], f_idx=1)
        fs = (hdx.Damping().create_state(0.0), dm.create_state(A["al"]))
        st = sim_state(mps, [], [], fs)
        c = SimCache(grids=(), interactions={}, node_geoms={}, mp_geoms={})
        w, m, o = dm.apply_pre_p2g(st.world, st.mechanics, c, (), (), (), 1e-3, 0.0)
        w3, _, _ = hdx.Damping(is_apply_on_grid=True, p_idx_list=[1], f_idx=1).apply_pre_p2g(st.world, st.mechanics, c, (), (), (), 1e-3, 0.0)
        return dict(f=w.material_points[1].force_stack, fu=w.material_points[0].force_stack, v=w.material_points[1].velocity_stack,
                    foff=w3.material_points[1].force_stack)

    def post(P, A, O, obs):
        al = A["al"][()]
        for k in np.ndindex(n, dim):
            law(obs, A["force"][k], O["f"][k], A["vel"][k], al)
            obs.eq("unselected-body", O["fu"][k], A["force"][k], 0)
            obs.eq("inactive-mode", O["foff"][k], A["force"][k], 0)
            obs.eq("velocity-untouched", O["v"][k], A["vel"][k], 0)
    return Case("particles-%dd" % dim, {"m": (n, F(1, 10), 5), "v": ((n, dim), -10, 10), "f": ((n, dim), -100, 100), "al": (None, 0, 1)}, build, fn, post,
                functions=["Damping.apply_pre_p2g"], typed=False, bounds="any particle force, velocity, damping factor in [0,1]; rigid body also listed")


def fall(scheme, kern, dim, grid, sign=None):
    """gravity followed by damping in a whole step of a body in uniform motion"""
    n = 1 if grid else 2
    sym = SYM[(kern, dim)][:1]

    def build(P):
        A = base5(P, kern, dim, n, sym)
        A["v"], A["g"], A["al"] = sl(P["v"]), sl(P["g"]), sl(P["al"])
        A["vel"] = np.array([A["v"]] * n, dtype=object)
        return A

    def fn(A):
        gr, dm = hdx.Gravity(is_apply_on_grid=grid), hdx.Damping(is_apply_on_grid=grid, f_idx=1)
        s, st = one_body(A, scheme, dim, kern, forces=(gr, dm), force_states=(gr.create_state(A["g"]), dm.create_state(A["al"])), alpha=0.5, n=SIZE[kern], **kw_(scheme))
        return dict(v=s(st).world.material_points[0].velocity_stack)

    def post(P, A, O, obs):
        dt, al = A["dt"][()], A["al"][()]
        for i in range(n):
            for d in range(dim):
                g, v = A["g"][d], A["v"][d]
                sg = sp.ite(v > 0, F(1), F(-1))
                obs.eq("velocity", O["v"][i, d], v + dt * (g - al * sp.abs(g) * sg), TOL)
    p = params5(kern, dim, n, sym)
    p["v"], p["g"], p["al"] = (dim, -5, 5), (dim, -20, 20), (None, 0, 1)
    if sign:
        pm = lambda c, m, n: ([F(1, 100) * m if c == "+" else -n], [n if c == "+" else -F(1, 100) * m])
        v, g = [pm(sign[d][0], 1, 5) for d in range(dim)], [pm(sign[d][1], 0, 20) for d in range(dim)]
        p["v"] = (dim, [x[0][0] for x in v], [x[1][0] for x in v])
        p["g"] = (dim, [x[0][0] for x in g], [x[1][0] for x in g])
    return Case("step-%s-%s-%dd-%s%s" % (scheme, kern, dim, "grid" if grid else "particles", "".join("-v%sg%s" % (s[0], s[1]) for s in sign[:dim]) if sign else ""), p, build, fn, post, functions=["Damping", "%s.__call__" % scheme],
                typed=False, weight=3 ** dim, pre=lambda P, A: [sp.abs(x) > F(1, 100) for x in sl(P["v"])],
                bounds="%d particle(s) (1 of %d coordinates symbolic), any common velocity, gravity, damping factor, dt" % (n, n * dim))


def rigid(scheme, grid):
    dim, kern = 2, "linear"

    def build(P):
        A = two(P, dim)
        A["al"] = sl(P["al"])
        return A

    def fn(A):
        sm = hdx.ShapeFunctionMapping(kern, dim)
        cp = tuple(BodyCoupling(shape_map=sm, p_idx=i, g_idx=i, c_idx=i, s_idx=i) for i in (0, 1))
        mps = [mp_state(A, "a"), mp_state(A, "b")]
        gr = [hdx.Gravity(is_apply_on_grid=grid, p_idx_list=[0, 1], g_idx_list=[0, 1]), hdx.Damping(is_apply_on_grid=grid, p_idx_list=[1], g_idx_list=[1], f_idx=1)]
        s = solver(scheme, dim, kern, [domain(dim, 3), domain(dim, 3)], [Inert(), Inert()], gr, cp, alpha=0.5, **kw_(scheme))
        st = s(sim_state(mps, [None, None], [s.create_state(m) for m in mps], [gr[0].create_state(A["g0"]), gr[1].create_state(A["al"])], dt=A["dt"]))
        return {b: mp.velocity_stack for b, mp in zip("ab", st.world.material_points)}

    def post(P, A, O, obs):
        dt, al = A["dt"][()], A["al"][()]
        for d in range(dim):
            a, b, g = A["avel"][0, d], A["bvel"][0, d], A["g0"][d]
            obs.eq("unselected-body", O["a"][0, d], a + dt * g, TOL)
            obs.eq("selected-body", O["b"][0, d], b + dt * (g - al * sp.abs(g) * sp.ite(b > 0, F(1), F(-1))), TOL)
    p = two_params(dim)
    p["al"] = (None, 0, 1)
    return Case("select-%s-%s" % (scheme, "grid" if grid else "particles"), p, build, fn, post, functions=["Damping", "%s.__call__" % scheme],
                typed=False, weight=4, pre=lambda P, A: [sp.abs(x) > F(1, 100) for x in sl(P["bvel"]).reshape(-1)],
                bounds="two one-particle bodies on two grids, damping selected for the second only")
