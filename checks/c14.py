"""linear elasticity: the law alone, histories of increments, and inside whole steps"""
from .steps import *
from .c06 import SYM, pad3
from .c07 import base, params, set_field

TOL = 1e-4


def cases(tier, seed):
    out = [moduli()]
    for dim in (1, 2, 3):
        out += [increment(dim), history(dim)]
    out += [spin(), created()]
    for scheme in ("usl", "aflip"):
        for k, d in [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 2)] + ([("cubic", 2), ("quadratic", 3)] if tier == "thorough" else []):
            for r in (False, True):
                if not r or d > 1:
                    out.append(step(scheme, k, d, r))
    return out


MOD = {"E": (None, 1, 1000), "nu": (None, 0, F(9, 20))}


def hooke(E, nu, de):
    """(1+nu)(1-2nu) x the isotropic Hooke response to the strain de"""
    t = trace(de)
    return np.array([[E * (nu * t * (1 if i == j else 0) + (1 - 2 * nu) * de[i, j]) for j in range(3)] for i in range(3)], dtype=object)


def sym_(L):
    return np.array([[(L[i, j] + L[j, i]) / 2 for j in range(3)] for i in range(3)], dtype=object)


def state(A, dim, n=1):
    return mp_state(dict(A, pos=jnp.zeros((n, dim))))


def moduli():
    def fn(A):
        l = hdx.LinearElasticLaw(E=A["E"], nu=A["nu"])
        return dict(K=jnp.asarray(l.K), G=jnp.asarray(l.G), lam=jnp.asarray(l.lam), E=jnp.asarray(l.E), nu=jnp.asarray(l.nu))

    def post(P, A, O, obs):
        E, nu = A["E"][()], A["nu"][()]
        obs.eq("bulk", O["K"] * 3 * (1 - 2 * nu), E, TOL * 1000)
        obs.eq("shear", O["G"] * 2 * (1 + nu), E, TOL * 1000)
        obs.eq("lame", O["lam"] * (1 + nu) * (1 - 2 * nu), E * nu, TOL * 1000)
        obs.eq("consistent", O["K"], O["lam"] + O["G"] * F(2, 3), TOL * 1000)
        obs.eq("E", O["E"], E, 0)
        obs.eq("nu", O["nu"], nu, 0)
    return Case("moduli", MOD, lambda P: {k: sl(P[k]) for k in MOD}, fn, post, functions=["LinearElasticLaw.__init__"], typed=False, bounds="any E, nu in [0, 0.45]", atol=1e-2)


def par(n):
    return dict(MOD, L=((n, 3, 3), -10, 10), s=((n, 6), -100, 100), dt=(None, 0, F(1, 10)), vol=(n, F(1, 10), 2), mass=(n, F(1, 10), 5))


def increment(dim):
    n = 2

    def build(P):
        A = {k: sl(P[k]) for k in ("E", "nu", "L", "dt", "vol", "mass")}
        A["stress"] = np.array([sym3(P, "s", i) for i in range(n)], dtype=object)
        A["vel"] = np.array([[F(1, 2) + i + d for d in range(dim)] for i in range(n)], dtype=object)
        return A

    def fn(A):
        l = hdx.LinearElasticLaw(E=A["E"], nu=A["nu"])
        mp = state(A, dim, n)
        o, ls = l.update(mp, l.create_state(mp), A["dt"])
        o2, none = l.update(mp, None, A["dt"])
        assert none is None
        return dict(out_mp(o), ref=ls.stress_ref_stack, s2=o2.stress_stack)

    def post(P, A, O, obs):
        E, nu = A["E"][()], A["nu"][()]
        for i in range(n):
            de = sym_(A["L"][i]) * A["dt"][()]
            h = hooke(E, nu, de)
            f = (1 + nu) * (1 - 2 * nu)
            for r in range(3):
                for c in range(3):
                    obs.eq("hooke", (O["stress"][i, r, c] - A["stress"][i, r, c]) * f, h[r, c], TOL * 1000)
                    obs.eq("hooke-stateless", (O["s2"][i, r, c] - A["stress"][i, r, c]) * f, h[r, c], TOL * 1000)
                    obs.eq("symmetric", O["stress"][i, r, c], O["stress"][i, c, r], TOL)
        for k in ("vol", "mass", "vel", "L"):
            obs.eq("untouched-" + k, O[k], A[k], 0)
        obs.eq("reference-stress", O["ref"], A["stress"], 0)
    return Case("increment-%dd" % dim, par(n), build, fn, post, functions=["LinearElasticLaw.update"], typed=False, atol=2e-2,
                bounds="two particles, any moduli, symmetric previous stress, velocity gradient, step")


def history(dim):
    """increments add up in any order and cancel when reversed; the symmetric part alone matters"""
    def build(P):
        A = {k: sl(P[k]) for k in ("E", "nu", "dt")}
        A["L"], A["L2"] = sl(P["L"]), sl(P["M"])
        A["stress"] = sym3(P, "s", 0)[None]
        return A

    def fn(A):
        l = hdx.LinearElasticLaw(E=A["E"], nu=A["nu"])

        def go(*Ls):
            s = A["stress"]
            for L in Ls:
                mp, _ = l.update(state(dict(stress=s, L=L), dim), None, A["dt"])
                s = mp.stress_stack
            return s
        a, b = A["L"], A["L2"]
        return dict(ab=go(a, b), ba=go(b, a), s=go(a + b), back=go(a, -a), back2=go(a, b, -a, -b), t=go(jnp.swapaxes(a, 1, 2)), a=go(a), z=go(0 * a))

    def post(P, A, O, obs):
        obs.eq("additive", O["ab"], O["s"], TOL * 1000)
        obs.eq("order-free", O["ab"], O["ba"], TOL * 1000)
        obs.eq("reversible", O["back"], A["stress"], TOL * 1000)
        obs.eq("reversible-2", O["back2"], A["stress"], TOL * 1000)
        obs.eq("symmetric-part", O["t"], O["a"], TOL * 1000)
        obs.eq("no-strain", O["z"], A["stress"], TOL)
    p = par(1)
    p["M"] = p["L"]
    return Case("history-%dd" % dim, p, build, fn, post, functions=["LinearElasticLaw.update"], typed=False, atol=5e-2,
                bounds="up to four increments with any two velocity gradients")


def spin():
    def build(P):
        w = sl(P["w"])
        z = F(0)
        A = {k: sl(P[k]) for k in ("E", "nu", "dt")}
        A["L"] = np.array([[[z, w[0], w[1]], [-w[0], z, w[2]], [-w[1], -w[2], z]]], dtype=object)
        A["stress"] = sym3(P, "s", 0)[None]
        return A

    def fn(A):
        l = hdx.LinearElasticLaw(E=A["E"], nu=A["nu"])
        mp, _ = l.update(state(A, 3), None, A["dt"])
        return dict(s=mp.stress_stack)

    def post(P, A, O, obs):
        obs.eq("spin-adds-no-stress", O["s"], A["stress"], TOL)
    return Case("spin", dict(MOD, w=(3, -10, 10), s=((1, 6), -100, 100), dt=(None, 0, F(1, 10))), build, fn, post, functions=["LinearElasticLaw.update"], typed=False,
                bounds="any spin", atol=1e-2)


def created():
    def fn(A):
        l = hdx.LinearElasticLaw(E=1000.0, nu=0.25)
        mp = mp_state(dict(pos=jnp.zeros((2, 3)), stress=A["s"]))
        return dict(a=l.create_state(mp).stress_ref_stack, b=l.create_state(stress_ref_stack=A["s"]).stress_ref_stack, c=l.create_state(density_stack=A["d"]).stress_ref_stack)

    def post(P, A, O, obs):
        obs.eq("from-particles", O["a"], A["s"], 0)
        obs.eq("as-given", O["b"], A["s"], 0)
        obs.shape("stress-free", O["c"], (2, 3, 3))
        obs.eq("stress-free", O["c"], 0, 0)
    return Case("created", {"s": ((2, 3, 3), -100, 100), "d": (2, 1, 2000)}, lambda P: {k: sl(P[k]) for k in ("s", "d")}, fn, post, functions=["LinearElasticLaw.create_state"], typed=False,
                bounds="any reference stress")


def step(scheme, kern, dim, reset):
    """within a whole step of a body in a linear velocity field: compression gives positive stress"""
    n = 1
    sym = SYM[(kern, dim)][:1]

    def build(P):
        A = base(P, kern, dim, n, sym)
        A["E"], A["nu"] = sl(P["E"]), sl(P["nu"])
        return A

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, law=hdx.LinearElasticLaw(E=A["E"], nu=A["nu"], requires_F_reset=reset), forces=(set_field(A),), force_states=(None,), alpha=0.5, n=SIZE[kern], **kw)
        mp = s(st).world.material_points[0]
        return dict(s=mp.stress_stack)

    def post(P, A, O, obs):
        E, nu = A["E"][()], A["nu"][()]
        g = pad3(A["g"])
        h = hooke(E, nu, sym_(g) * A["dt"][()])
        f = (1 + nu) * (1 - 2 * nu)
        for r in range(3):
            for c in range(r, 3):
                obs.eq("hooke[%d,%d]" % (r, c), (A["stress"][0, r, c] - O["s"][0, r, c]) * f, h[r, c], TOL * 1000)
    p = params(kern, dim, n, sym)
    p["g"] = ((dim, dim), -2, 2)
    p.update(MOD)
    p["E"] = (None, 1, 100)

    def pre(P, A):
        r = [x > F(1, 20) for x in [det(matmul(eye(3) + pad3(A["g"]) * A["dt"][()], A["F"][0]))]] if reset else []
        from .c07 import open_cell
        return open_cell(P, 2 if kern == "quadratic" else 1) + r
    return Case("step-%s-%s-%dd%s" % (scheme, kern, dim, "-reset" if reset else ""), p, build, fn, post, pre=pre, functions=["LinearElasticLaw.update", "%s.__call__" % scheme], typed=False,
                weight=3 ** dim, bounds="one particle (1 coordinate symbolic), any linear velocity field, moduli, previous stress and deformation", atol=1e-2)
