"""Galilean invariance of whole steps"""
from .steps import *

SYM = {("linear", 1): [(0, 0), (1, 0)], ("linear", 2): [(0, 0), (0, 1), (1, 0)], ("linear", 3): [(0, 0), (0, 2)], ("quadratic", 1): [(0, 0)],
       ("quadratic", 2): [(0, 0)], ("cubic", 1): [(0, 0)], ("cubic", 2): [(0, 1)], ("quadratic", 3): [(0, 1)], ("cubic", 3): [(0, 2)]}
MG = {"linear": F(1, 20), "quadratic": F(1, 20), "cubic": F(1, 5)}


def cases(tier, seed):
    out = []
    ks = [("linear", 2), ("linear", 3), ("quadratic", 2), ("cubic", 2), ("linear", 1)]
    if tier == "thorough":
        ks += [("quadratic", 3), ("quadratic", 1), ("cubic", 1)]
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            out.append(uniform(scheme, k, d))
        for k, d in [("linear", 2), ("quadratic", 2)] + ([("linear", 3), ("cubic", 2)] if tier == "thorough" else []):
            out.append(boost(scheme, k, d))
    out.append(uniform("aflip", "quadratic", 2, classic=True))
    out.append(uniform("aflip", "cubic", 2, classic=True))
    out.append(uniform("aflip", "linear", 2, dyn=True))
    return out


def defF(P, n, dim):
    """admissible deformation: diagonal stretch plus one shear per plane"""
    out = np.empty((n, 3, 3), dtype=object)
    for i in range(n):
        f = sl(P["F"])[i]
        o, z = F(1), F(0)
        out[i] = np.array([[f[0], f[1] if dim > 1 else z, f[4] if dim == 3 else z], [z, f[2] if dim > 1 else o, z],
                           [z, z, f[3] if dim == 3 else o]], dtype=object)
    return out


FPAR = lambda n: ((n, 5), [F(1, 2), F(-1, 2), F(1, 2), F(1, 2), F(-1, 2)], [F(3, 2), F(1, 2), F(3, 2), F(3, 2), F(1, 2)])


def base(P, kern, dim, n, sym):
    A = {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), [[1] * dim] * n), "mass": sl(P["mass"]), "vol0": sl(P["vol0"]),
         "F": defF(P, n, dim), "dt": sl(P["dt"]), "alpha": sl(P["alpha"])}
    A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
    return A


def params(kern, dim, n, sym):
    return {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "vol0": (n, F(1, 10), 2), "F": FPAR(n),
            "dt": (None, F(1, 1000), F(1, 10)), "alpha": (None, 0, 1)}


def uniform(scheme, kern, dim, classic=False, dyn=False):
    n = 2
    sym = SYM[(kern, dim)]
    hydro = not classic

    def build(P):
        A = base(P, kern, dim, n, sym)
        A["v"] = sl(P["v"])
        A["vel"] = np.array([A["v"]] * n, dtype=object)
        return A

    def fn(A):
        kw = dict(use_dynamic_alpha=dyn, cfl_limit=1e9, use_mls_update=not classic) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, alpha=A["alpha"], n=SIZE[kern], **kw)
        return out_mp(s(st).world.material_points[0])

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            obs.eq("velocity", O["vel"][i], A["v"], TOL)
            obs.eq("position", O["pos"][i], np.array([A["pos"][i, d] + dt * A["v"][d] for d in range(dim)], dtype=object), TOL)
            obs.eq("no-velocity-gradient", O["L"][i], np.zeros((3, 3)), 10 * TOL)
            obs.eq("deformation", O["F"][i], A["F"][i], 10 * TOL)
            obs.eq("volume", O["vol"].reshape(n)[i], A["vol"][i], 10 * TOL)
            obs.eq("stress", O["stress"][i], np.zeros((3, 3)), TOL)
    p = params(kern, dim, n, sym)
    p["v"] = (dim, -10, 10)
    return Case("uniform-%s-%s-%dd%s%s" % (scheme, kern, dim, "-classic" if classic else "", "-dynamic" if dyn else ""), p, build, fn, post,
                functions=["%s.__call__" % scheme], typed=False, weight=3 ** dim,
                bounds="2 particles (%d of %d coordinates symbolic), any velocity in [-10,10], mass [1,5], deformation, dt, blending" % (len(sym), 2 * dim))


def boost(scheme, kern, dim):
    """same state twice, the second with a common extra velocity"""
    n = 2
    sym = SYM[(kern, dim)]
    few = kern != "linear" or dim == 3
    m = 1 if few else 2

    def build(P):
        A = base(P, kern, dim, n, sym)
        A["vel"], A["w"] = sl(P["vel"]), sl(P["w"])
        A["stress"] = np.array([sym3(P, "s", i if i < len(P["s"]) else 0) for i in range(n)], dtype=object)
        if few:          # second particle with fixed velocity and the same stress
            A["vel"] = np.concatenate([A["vel"], np.array([[F(-3, 2), F(5, 4), F(1, 3)][:dim]], dtype=object)])
        if scheme == "aflip":
            A["Bp"] = np.full((n, 3, 3), F(1, 4), dtype=object)
            A["Bp"][0][:dim, :dim] = sl(P["Bp"])
        return A

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9, beta_min=0.25, beta_max=0.25) if scheme == "aflip" else {}
        r = []
        for b in (0, 1):
            B = dict(A)
            if b:
                B["vel"] = A["vel"] + A["w"][None, :]
            s, st = one_body(B, scheme, dim, kern, alpha=A["alpha"], n=SIZE[kern], Bp=A.get("Bp"), **kw)
            r.append(out_mp(s(st).world.material_points[0]))
        return {k: r[1][k] - r[0][k] for k in r[0]}

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for i in range(n):
            obs.eq("velocity-shift", O["vel"][i], A["w"], 5 * TOL)
            obs.eq("position-shift", O["pos"][i], np.array([dt * A["w"][d] for d in range(dim)], dtype=object), 5 * TOL)
            for k in ("L", "F", "stress"):
                obs.eq("same-" + k, O[k][i], np.zeros((3, 3)), 20 * TOL)
        obs.eq("same-volume", O["vol"], np.zeros(O["vol"].shape), 20 * TOL)
    p = params(kern, dim, n, sym)
    p["v"] = (dim, -10, 10)
    p["vel"] = ((m, dim), -5, 5)
    p["w"] = (dim, -5, 5)
    p["s"] = ((m, 6), -5, 5)
    if scheme == "aflip":
        p["Bp"] = ((dim, dim), -2, 2)
    p.pop("v")
    return Case("boost-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, functions=["%s.__call__" % scheme], typed=False, weight=3 ** dim,
                bounds="2 particles (%d of %d coordinates symbolic), any velocities, stress, affine state and added velocity, blending, speed limiter off" % (len(sym), 2 * dim))
