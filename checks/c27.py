"""creation of material points and their derived scalar quantities"""
import itertools
from .steps import *
from hydraxmpm.material_points.material_points import RigidMaterialPointState

TOL = F(1, 1000)
NP = 2
OPT = ("velocity", "force", "mass", "volume", "volume0", "L", "stress", "F")


def cases(tier, seed):
    out = []
    for dim in (1, 2, 3):
        out.append(made(dim, ()))
        for ks in (("cell",), ("ppc",), ("points",), ("rho",), ("cell", "ppc"), ("cell", "points", "rho"), ("ppc", "rho")):
            out.append(made(dim, ks))
        for given in [(k,) for k in OPT] + [("mass", "volume"), ("volume", "volume0"), ("mass", "volume0", "F"), OPT]:
            for store in (False, True):
                out.append(made(dim, ("cell", "ppc", "rho"), given, store))
        out += [derived(dim), rigid(dim, False), rigid(dim, True), built(dim)]
    out += [nowhere(), single()]
    return out


def inputs(P, dim, given):
    A = {"pos": sl(P["pos"])}
    for k in ("cell", "ppc", "points"):
        A[k] = sl(P[k])
    A["rho"] = sl(P["rho"])
    for k in ("mass", "volume", "volume0"):
        A[k] = sl(P[k])
    for k in ("velocity", "force"):
        A[k] = sl(P[k])
    A["L"], A["F"] = sl(P["L"]), sl(P["F"])
    A["stress"] = np.array([sym3(P, "s", i) for i in range(NP)], dtype=object)
    return A


def pars(dim, n=NP):
    v = ((n, dim), -5, 5)
    return {"pos": v, "cell": (None, F(1, 10), 2), "ppc": (None, 1, 16), "points": (None, 1, 16), "rho": (n, 1, 5), "mass": (n, 1, 5), "volume": (n, F(1, 10), 2), "volume0": (n, F(1, 10), 2),
            "velocity": v, "force": v, "L": ((n, 3, 3), -5, 5), "F": ((n, 3, 3), -2, 2), "s": ((n, 6), -5, 5)}


def make(A, ks, given, store, f=None):
    kw = {{"cell": "cell_size", "ppc": "ppc", "points": "points_per_cell", "rho": "density_stack"}[k]: A[k] for k in ks}
    kw.update({k + "_stack": A[k] for k in given})
    if store:
        kw["store_F"] = True
    return (f or hdx.MaterialPointState.create)(position_stack=A["pos"], **kw)


def every(mp):
    r = out_mp(mp)
    if mp.F_store_stack is not None:
        r["Fs"] = mp.F_store_stack
    r["rho"], r["rho0"] = mp.density_stack, mp.density_ref_stack
    r["n"], r["d"] = jnp.asarray(float(mp.num_points)), jnp.asarray(float(mp.dim))
    return r


def expect(A, O, obs, dim, ks, given, store, n=NP):
    h = A["cell"][()] if "cell" in ks else F(1)
    m = A["ppc"][()] if "ppc" in ks else A["points"][()] if "points" in ks else F(4)
    hd = h
    for _ in range(dim - 1):
        hd = hd * h
    vol = A["volume"] if "volume" in given else np.array([hd / m] * n, dtype=object)
    z = lambda *s: np.zeros(s, dtype=object)
    one = np.array([eye(3)] * n, dtype=object)
    obs.eq("position", O["pos"], A["pos"], 0)
    obs.eq("volume", O["vol"], vol, TOL)
    v0 = A["volume0"] if "volume0" in given else vol
    obs.eq("initial-volume", O["vol0"], v0, TOL)
    for i in range(n):
        if "mass" in given:
            obs.eq("mass", O["mass"][i], A["mass"][i], 0)
        else:
            r = A["rho"][i] if "rho" in ks else F(1000)
            obs.eq("mass", O["mass"][i], r * vol[i], TOL * (1 if "rho" in ks else 100))
            obs.eq("density", O["rho"][i], r, TOL * (1 if "rho" in ks else 1000))
        obs.eq("mass-is-density-times-volume", O["rho"][i] * vol[i], O["mass"][i], TOL * (100 if "rho" not in ks else 1))
        obs.eq("mass-is-reference-density-times-volume", O["rho0"][i] * v0[i], O["mass"][i], TOL * (100 if "rho" not in ks else 1))
    obs.eq("velocity", O["vel"], A["velocity"] if "velocity" in given else z(n, dim), 0)
    obs.eq("force", O["force"], A["force"] if "force" in given else z(n, dim), 0)
    obs.eq("velocity-gradient", O["L"], A["L"] if "L" in given else z(n, 3, 3), 0)
    obs.eq("stress", O["stress"], A["stress"] if "stress" in given else z(n, 3, 3), 0)
    obs.eq("deformation", O["F"], A["F"] if "F" in given else one, 0)
    obs.true("stored-deformation-kept-on-request", ("Fs" in O) == store)
    if store:
        obs.eq("stored-deformation", O["Fs"], A["F"] if "F" in given else one, 0)
    obs.eq("count", O["n"], n, 0)
    obs.eq("dimension", O["d"], dim, 0)


def made(dim, ks, given=(), store=False):
    return Case("create-%dd-%s-%s%s" % (dim, "+".join(ks) or "defaults", "all" if given == OPT else "+".join(given) or "none", "-store" if store else ""), pars(dim), lambda P: inputs(P, dim, given),
                lambda A: every(make(A, ks, given, store)), lambda P, A, O, obs: expect(A, O, obs, dim, ks, given, store), functions=["MaterialPointState.create"], typed=False, eps0=True,
                bounds="%d particles, any values of the arguments given (%s)" % (NP, ", ".join(ks + given) or "none"), atol=2e-2)


def built(dim):
    """through the builder"""
    def fn(A):
        b = hdx.SimBuilder()
        f = lambda **kw: b.particle_states[b.add_material_points(**kw)]
        return every(make(A, ("cell", "ppc", "rho"), ("velocity", "stress"), True, f))
    return Case("builder-%dd" % dim, pars(dim), lambda P: inputs(P, dim, ()), fn, lambda P, A, O, obs: expect(A, O, obs, dim, ("cell", "ppc", "rho"), ("velocity", "stress"), True),
                functions=["SimBuilder.add_material_points"], typed=False, eps0=True, bounds="%d particles" % NP)


def derived(dim):
    def build(P):
        A = inputs(P, dim, ())
        A["vol"], A["vol0"], A["vel"] = A["volume"], A["volume0"], A["velocity"]
        return A

    def fn(A):
        mp = mp_state(A)
        return dict(p=mp.pressure_stack, q=mp.q_stack, ke=mp.KE_stack, rho=mp.density_stack, rho0=mp.density_ref_stack, d=mp.deps_dt_stack)

    def post(P, A, O, obs):
        for i in range(NP):
            s, v = A["stress"][i], A["velocity"][i]
            p = trace(s) / 3
            e = s - eye(3) * p
            obs.eq("pressure", O["p"][i], p, TOL)
            obs.eq("shear-stress", O["q"][i] * O["q"][i], dot(e, e) * F(3, 2), 10 * TOL)
            obs.ge("shear-stress-positive", O["q"][i], 0, TOL)
            obs.eq("kinetic-energy", O["ke"][i], A["mass"][i] * dot(v, v) / 2, 10 * TOL)
            obs.eq("density", O["rho"][i] * A["volume"][i], A["mass"][i], TOL)
            obs.eq("reference-density", O["rho0"][i] * A["volume0"][i], A["mass"][i], TOL)
            obs.eq("strain-rate", O["d"][i], (A["L"][i] + A["L"][i].T) / 2, TOL)
    return Case("derived-%dd" % dim, pars(dim), build, fn, post, functions=["MaterialPointState properties"], typed=False, eps0=True, bounds="%d particles, any state" % NP, atol=1e-2)


def rigid(dim, normals):
    def fn(A):
        r = RigidMaterialPointState.create(position_stack=A["pos"], **(dict(normal_stack=A["velocity"]) if normals else {}))
        return dict(pos=r.position_stack, n=r.normal_stack, vel=r.velocity_stack)

    def post(P, A, O, obs):
        obs.eq("position", O["pos"], A["pos"], 0)
        obs.eq("normal", O["n"], A["velocity"] if normals else np.zeros((NP, dim), dtype=object), 0)
        obs.eq("at-rest", O["vel"], np.zeros((NP, dim), dtype=object), 0)
    return Case("rigid-%dd%s" % (dim, "-normals" if normals else ""), pars(dim), lambda P: inputs(P, dim, ()), fn, post, functions=["RigidMaterialPointState.create"], typed=False, bounds="%d points" % NP)


def nowhere():
    """no position: one particle at the origin in 3D"""
    def fn(A):
        return every(hdx.MaterialPointState.create(cell_size=A["cell"], ppc=A["ppc"], density_stack=A["rho"]))

    def post(P, A, O, obs):
        expect(dict(A, pos=np.zeros((1, 3), dtype=object)), O, obs, 3, ("cell", "ppc", "rho"), (), False, 1)
    p = pars(3, 1)
    return Case("create-without-position", p, lambda P: {k: sl(P[k]) for k in ("cell", "ppc", "rho")}, fn, post, functions=["MaterialPointState.create"], typed=False, eps0=True, bounds="one particle")


def single():
    """one particle keeps its particle axis"""
    def fn(A):
        return every(make(A, ("cell", "ppc"), (), True))

    def post(P, A, O, obs):
        expect(A, O, obs, 2, ("cell", "ppc"), (), True, 1)
        obs.shape("shape", O["F"], (1, 3, 3))
    return Case("create-single", pars(2, 1), lambda P: {k: sl(P[k]) for k in ("pos", "cell", "ppc")}, fn, post, functions=["MaterialPointState.create"], typed=False, eps0=True, bounds="one particle")
