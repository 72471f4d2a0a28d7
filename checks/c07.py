"""deformation gradient, volume and stored deformation after a step; shear reset; shapes"""
from .steps import *
from .c05 import defF, FPAR
from .c06 import nodes, field, pad3, SYM, MG


class Reset(Inert):
    requires_F_reset: bool = True


def cases(tier, seed):
    out = []
    ks = [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 2)] + ([("cubic", 2), ("quadratic", 3), ("cubic", 3)] if tier == "thorough" else [])
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            out.append(kin(scheme, k, d))
        for d in (1, 2, 3):
            out.append(reset(scheme, d))
            for n in (1, 2):
                for w in (False, True):
                    if not (w and d == 1):
                        out.append(shapes(scheme, d, n, w))
    for d in (1, 2, 3):
        out.append(law_reset(d))
    return out


def set_field(A):
    import equinox as eqx

    class SetField(hdx.Force):
        def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
            g = cache.grids[0]
            g = eqx.tree_at(lambda s: s.moment_nt_stack, g, g.mass_stack[:, None] * A["nodes"])
            return world, mechanics, eqx.tree_at(lambda c: c.grids, cache, (g,) + tuple(cache.grids[1:]))
    return SetField()


def base(P, kern, dim, n, sym):
    A = {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim] * n), "mass": sl(P["mass"]), "g": sl(P["g"]), "b": sl(P["b"]),
         "vel": sl(P["vel"]), "vol0": sl(P["vol0"]), "F": defF(P, n, dim), "dt": sl(P["dt"]), "stress": np.array([sym3(P, "s", i) for i in range(n)], dtype=object)}
    A["nodes"] = np.array([field(A, x) for x in nodes(dim, SIZE[kern])], dtype=object)
    A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
    A["Fs"] = np.array([matmul(pad3(sl(P["Fs"])[i]) + np.array([[F(int(r == c and r >= dim)) for c in range(3)] for r in range(3)], dtype=object), eye(3)) for i in range(n)], dtype=object)
    return A


def params(kern, dim, n, sym):
    return {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "g": ((dim, dim), -5, 5), "b": (dim, -5, 5), "vel": ((n, dim), -5, 5),
            "vol0": (n, F(1, 10), 2), "F": FPAR(n), "Fs": ((n, dim, dim), -2, 2), "dt": (None, F(1, 1000), F(1, 20)), "s": ((n, 6), -5, 5)}


def run(A, scheme, kern, dim, law=None, **kw2):
    kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
    s, st = one_body(A, scheme, dim, kern, law=law, forces=(set_field(A),), force_states=(None,), alpha=0.5, n=SIZE[kern], **kw)
    mp = s(st).world.material_points[0]
    return dict(out_mp(mp), Fs=mp.F_store_stack)


def kin(scheme, kern, dim):
    n = 2
    sym = SYM[(kern, dim)]

    def build(P):
        return base(P, kern, dim, n, sym)

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            Fi = eye(3) - sl(O["L"][i]) * dt
            obs.eq("deformation-update", O["F"][i], matmul(Fi, A["F"][i]), 10 * TOL)
            obs.eq("stored-deformation", O["Fs"][i], matmul(Fi, A["Fs"][i]), 10 * TOL)
            obs.eq("gradient", O["L"][i], pad3(A["g"], -1), 10 * TOL)
            obs.eq("volume", O["vol"].reshape(n)[i], det(sl(O["F"][i])) * A["vol0"][i], 10 * TOL)
            obs.eq("initial-volume", O["vol0"][i], A["vol0"][i], 0)
            if dim < 3:
                obs.eq("out-of-plane-stretch", O["F"][i][2, 2], 1, TOL)
                obs.eq("out-of-plane-rate", O["L"][i][2, 2], 0, TOL)
    return Case("kinematics-%s-%s-%dd" % (scheme, kern, dim), params(kern, dim, n, sym), build, lambda A: run(A, scheme, kern, dim), post,
                functions=["%s._g2p" % scheme], typed=False, weight=3 ** dim, pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1),
                bounds="2 particles (%d of %d coordinates symbolic), any linear velocity field, previous deformation (stretches in [0.5,1.5] and shears), stored deformation, dt" % (len(sym), 2 * dim))


def reset(scheme, dim):
    """whole step with a law that removes accumulated shear: volume change is kept, stored deformation keeps its history"""
    n, kern = 1, "linear"
    sym = SYM[(kern, dim)][:1]

    def build(P):
        A = base(P, kern, dim, n, sym)
        return A

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            Fi = eye(3) - sl(O["L"][i]) * dt
            new = matmul(Fi, A["F"][i])
            J = det(new)
            obs.eq("volume-kept", det(sl(O["F"][i])), J, 10 * TOL)
            obs.eq("volume", O["vol"].reshape(n)[i], J * A["vol0"][i], 10 * TOL)
            obs.eq("stored-deformation", O["Fs"][i], matmul(Fi, A["Fs"][i]), 10 * TOL)
            for r in range(3):
                for c in range(3):
                    if r != c:
                        obs.eq("no-shear-left", O["F"][i][r, c], 0, TOL)
            if dim == 2:
                obs.eq("out-of-plane-stretch", O["F"][i][2, 2], 1, TOL)
                obs.eq("isotropic", O["F"][i][0, 0], O["F"][i][1, 1], TOL)
            if dim == 3:
                obs.eq("isotropic", O["F"][i][0, 0], O["F"][i][1, 1], TOL)
                obs.eq("isotropic", O["F"][i][0, 0], O["F"][i][2, 2], TOL)
    p = params(kern, dim, n, sym)
    p["g"] = ((dim, dim), -2, 2)

    def pre(P, A):
        new = matmul(eye(3) + pad3(A["g"]) * A["dt"][()], A["F"][0])
        return open_cell(P) + [det(new) > F(1, 20)]
    return Case("shear-reset-%s-%dd" % (scheme, dim), p, build, lambda A: run(A, scheme, kern, dim, Reset()), post, pre=pre,
                functions=["%s.__call__" % scheme, "ConstitutiveLaw.remove_accumulated_shear"], typed=False, weight=3 ** dim,
                bounds="one particle, any linear velocity field and previous deformation with positive volume (Jacobian > 0.05)")


def law_reset(dim):
    """the reset itself on any (also non-triangular) deformation"""
    def build(P):
        f = pad3(sl(P["F"])) + np.array([[F(int(r == c and r >= dim)) for c in range(3)] for r in range(3)], dtype=object)
        return {"F": f[None], "Fs": sl(P["Fs"])[None], "pos": np.array([[F(0)] * dim], dtype=object)}

    def fn(A):
        mp = mp_state(A)
        o = Reset().remove_accumulated_shear(mp)
        o2 = Inert().remove_accumulated_shear(mp)
        return dict(F=o.F_stack, Fs=o.F_store_stack, F2=o2.F_stack, Fs2=o2.F_store_stack)

    def post(P, A, O, obs):
        obs.eq("volume-kept", det(sl(O["F"][0])), det(A["F"][0]), TOL)
        obs.eq("stored-deformation", O["Fs"], A["Fs"], 0)
        obs.eq("untouched-without-reset", O["F2"], A["F"], 0)
        obs.eq("untouched-without-reset-stored", O["Fs2"], A["Fs"], 0)
        for r in range(3):
            for c in range(3):
                if r != c:
                    obs.eq("no-shear-left", O["F"][0][r, c], 0, TOL)
        if dim == 2:
            obs.eq("out-of-plane-stretch", O["F"][0][2, 2], 1, TOL)
    return Case("reset-law-%dd" % dim, {"F": ((dim, dim), -2, 2), "Fs": ((3, 3), -2, 2)}, build, fn, post, typed=False,
                pre=lambda P, A: [det(A["F"][0]) > F(1, 100)], functions=["ConstitutiveLaw.remove_accumulated_shear"],
                bounds="any deformation with entries in [-2,2] and positive Jacobian")


def shapes(scheme, dim, n, wall):
    """every array keeps its shape, also for a single particle and with a rigid object in the world"""
    kern = "linear"
    sym = SYM[(kern, dim)][:1]

    def build(P):
        xi = np.array([[FIX[i * dim + d] for d in range(dim)] for i in range(n)], dtype=object)
        return {"pos": where(xi, [[1] * dim] * n), "mass": sl(P["mass"]), "vel": sl(P["vel"]),
                "Fs": np.array([eye(3)] * n, dtype=object)}

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        if wall:
            sdf = hdx.SphereSDF(0.01)
            w = sdf.create_state(center_of_mass=jnp.array([20.0] * dim))
            kw.update(sdfs=(sdf,), sdf_states=(w,))
        s, st = one_body(A, scheme, dim, kern, n=SIZE[kern], dt=1e-3, **kw)
        mp = s(st).world.material_points[0]
        return dict(out_mp(mp), Fs=mp.F_store_stack)

    def post(P, A, O, obs):
        want = dict(pos=(n, dim), vel=(n, dim), mass=(n,), vol=(n,), vol0=(n,), F=(n, 3, 3), Fs=(n, 3, 3), L=(n, 3, 3), stress=(n, 3, 3), force=(n, dim))
        for k, v in want.items():
            obs.shape(k, O[k], v)
        obs.eq("mass", O["mass"], A["mass"], 0)
    p = {"mass": (n, 1, 5), "vel": ((n, dim), -1, 1)}
    return Case("shapes-%s-%dd-n%d%s" % (scheme, dim, n, "-wall" if wall else ""), p, build, fn, post, functions=["%s.__call__" % scheme], typed=True,
                bounds="%d particle(s), %s" % (n, "with a rigid object" if wall else "no rigid object"), validate=True)
