"""tensor helpers: invariants, splits, strain measures, conversions, triaxial and lithostatic initialisation"""
from .steps import *
from .c12 import quat, Rq, ANG
from hydraxmpm.utils import math_helpers as mh

TOL = 1e-3


def cases(tier, seed):
    out = [splits(), stress_invariants(), given_parts(), strain_invariants(), shear_strains(), rates(), objective(), scalars(), conversions(), triaxial(), inertial()]
    out += [rotated("a"), rotated("b"), lithostatic(0.0), lithostatic(30.0), lithostatic(-20.0), hencky("z"), hencky("q"), hencky_props()]
    if tier == "thorough":
        out += [rotated("g"), lithostatic(45.0), hencky("y")]
    return out


def gen(P, name):
    """stack of two general tensors"""
    return sl(P[name])


def dev(a):
    return a - eye(3) * (trace(a) / 3)


def con(a, b):
    return total([a[i, j] * b[i, j] for i in range(3) for j in range(3)])


def both(obs, label, single, stack, expect, tol=TOL):
    obs.eq(label, stack, expect, tol)
    obs.eq(label + "-single", single, expect[0], tol)


def splits():
    def fn(A):
        a = A["a"]
        return dict(p1=mh.get_pressure(a[0]), p=mh.get_pressure_stack(a), pr=mh.get_pressure(a), s1=mh.get_dev_stress(a[0]), s=mh.get_dev_stress_stack(a), v1=mh.get_volumetric_strain(a[0]),
                    v=mh.get_volumetric_strain_stack(a), e1=mh.get_dev_strain(a[0]), e=mh.get_dev_strain_stack(a), y1=mh.get_sym_tensor(a[0]), y=mh.get_sym_tensor_stack(a),
                    k1=mh.get_skew_tensor(a[0]), k=mh.get_skew_tensor_stack(a), w=mh.get_spin_tensor(a[0]))

    def post(P, A, O, obs):
        a = A["a"]
        n = range(2)
        p = [trace(a[i]) / 3 for i in n]
        both(obs, "pressure", O["p1"][()], O["p"], np.array(p, dtype=object))
        both(obs, "deviatoric-stress", O["s1"], O["s"], np.array([dev(a[i]) for i in n], dtype=object))
        both(obs, "volumetric", O["v1"][()], O["v"], np.array([trace(a[i]) for i in n], dtype=object))
        both(obs, "deviatoric-strain", O["e1"], O["e"], np.array([dev(a[i]) for i in n], dtype=object))
        sy = np.array([(a[i] + a[i].T) / 2 for i in n], dtype=object)
        sk = np.array([(a[i] - a[i].T) / 2 for i in n], dtype=object)
        both(obs, "symmetric", O["y1"], O["y"], sy)
        both(obs, "skew", O["k1"], O["k"], sk)
        obs.eq("spin", O["w"], sk[0], TOL)
        for i in n:
            obs.eq("stress-trace-free", trace(O["s"][i]), 0, TOL)
            obs.eq("strain-trace-free", trace(O["e"][i]), 0, TOL)
            obs.eq("stress-split", O["s"][i] + eye(3) * O["p"][i], a[i], TOL)
            obs.eq("sym-skew-split", O["y"][i] + O["k"][i], a[i], TOL)
    return Case("splits", {"a": ((2, 3, 3), -10, 10)}, lambda P: {"a": gen(P, "a")}, fn, post, typed=False, functions=["get_pressure", "get_dev_stress", "get_dev_strain", "get_sym_tensor", "get_skew_tensor", "get_spin_tensor"],
                bounds="two general tensors")


def stress_invariants():
    def fn(A):
        a, b = A["a"], A["b"]
        return dict(J1=mh.get_J2(a[0]), J=mh.get_J2_stack(a), q1=mh.get_q_vm(a[0]), q=mh.get_q_vm_stack(a), t1=mh.get_scalar_shear_stress(a[0], None, None), t=mh.get_scalar_shear_stress_stack(a),
                    c1=mh.get_double_contraction(a[0], b[0]), c=mh.get_double_contraction_stack(a, b))

    def post(P, A, O, obs):
        a, b = A["a"], A["b"]
        J = [con(dev(x), dev(x)) / 2 for x in a]
        both(obs, "J2", O["J1"][()], O["J"], np.array(J, dtype=object), 10 * TOL)
        both(obs, "contraction", O["c1"][()], O["c"], np.array([con(a[i], b[i]) for i in range(2)], dtype=object), 10 * TOL)
        for k, f in (("q", 3), ("t", 1)):
            both(obs, k + "-squared", O[k + "1"][()] * O[k + "1"][()], O[k] * O[k], np.array([x * f for x in J], dtype=object), 20 * TOL)
            obs.ge(k + "-sign", O[k], 0, 0)
    return Case("stress-invariants", {"a": ((2, 3, 3), -5, 5), "b": ((2, 3, 3), -5, 5)}, lambda P: {k: gen(P, k) for k in "ab"}, fn, post, typed=False, rtol=5e-3, atol=1e-2,
                functions=["get_J2", "get_q_vm", "get_scalar_shear_stress", "get_double_contraction"], bounds="two general tensors")


def given_parts():
    """the optional arguments (deviator or pressure already known) give the same results"""
    def fn(A):
        a = A["a"]
        p, s = mh.get_pressure(a), mh.get_dev_stress(a)
        e = mh.get_dev_strain(a)
        return dict(s=mh.get_dev_stress(a, p), J=mh.get_J2(dev_stress=s), Jp=mh.get_J2(stress=a, pressure=p), Js=mh.get_J2_stack(a, s), q=mh.get_q_vm(dev_stress=s), qp=mh.get_q_vm(stress=a, pressure=p),
                    qs=mh.get_q_vm_stack(a, s, p), t=mh.get_scalar_shear_stress(a, s, p), ts=mh.get_scalar_shear_stress_stack(a, s, p), e=mh.get_dev_strain(a, mh.get_volumetric_strain(a)),
                    g=mh.get_shear_strain_vm(dev_strain=e), g2=mh.get_shear_strain_vm_stack(a, e), h=mh.get_scalar_shear_strain(None, e[0]), h2=mh.get_scalar_shear_strain(a[0], None, mh.get_volumetric_strain(a[0])))

    def post(P, A, O, obs):
        a = A["a"]
        for i in range(2):
            d = dev(a[i])
            c = con(d, d)
            obs.eq("deviator", O["s"][i], d, TOL)
            obs.eq("dev-strain", O["e"][i], d, TOL)
            for k in ("J", "Jp", "Js"):
                obs.eq("J2-" + k, O[k][i], c / 2, 10 * TOL)
            for k, f in (("q", F(3, 2)), ("qp", F(3, 2)), ("qs", F(3, 2)), ("t", F(1, 2)), ("ts", F(1, 2)), ("g", F(2, 3)), ("g2", F(2, 3))):
                obs.eq("squared-" + k, O[k][i] * O[k][i], c * f, 20 * TOL)
                obs.ge("sign-" + k, O[k][i], 0, 0)
            if i == 0:
                for k in ("h", "h2"):
                    obs.eq("squared-" + k, O[k][()] * O[k][()], c / 2, 20 * TOL)
    return Case("given-parts", {"a": ((2, 3, 3), -5, 5)}, lambda P: {"a": gen(P, "a")}, fn, post, typed=False, rtol=5e-3, atol=1e-2, eps0=True, functions=["get_J2", "get_q_vm", "get_shear_strain_vm"], bounds="two general tensors")


def strain_invariants():
    def fn(A):
        a = A["a"]
        return dict(g1=mh.get_shear_strain_vm(a[0]), g=mh.get_shear_strain_vm_stack(a), z=mh.get_shear_strain_vm(jnp.eye(3) * A["v"]), zs=mh.get_q_vm(jnp.eye(3) * A["v"]))

    def post(P, A, O, obs):
        a = A["a"]
        both(obs, "equivalent-strain-squared", O["g1"][()] * O["g1"][()], O["g"] * O["g"], np.array([con(dev(x), dev(x)) * F(2, 3) for x in a], dtype=object), 20 * TOL)
        obs.ge("sign", O["g"], 0, 0)
        obs.eq("isotropic-strain", O["z"], 0, TOL)
        obs.eq("isotropic-stress", O["zs"], 0, TOL)
    return Case("strain-invariants", {"a": ((2, 3, 3), -5, 5), "v": (None, -5, 5)}, lambda P: {"a": gen(P, "a"), "v": sl(P["v"])}, fn, post, typed=False, eps0=True, rtol=5e-3, atol=1e-2,
                functions=["get_shear_strain_vm"], bounds="two general tensors")


def shear_strains():
    def fn(A):
        a = A["a"]
        e = jax.vmap(mh.get_dev_strain)(a)
        return dict(g1=mh.get_scalar_shear_strain(a[0]), g=mh.get_scalar_shear_strain_stack(a), gd=mh.get_scalar_shear_strain_stack(a, e), gn=mh.get_scalar_shear_strain_stack(None, e),
                    gv=mh.get_scalar_shear_strain_stack(a, None, mh.get_volumetric_strain_stack(a)))

    def post(P, A, O, obs):
        a = A["a"]
        x = np.array([con(dev(x), dev(x)) / 2 for x in a], dtype=object)
        both(obs, "scalar-shear-squared", O["g1"][()] * O["g1"][()], O["g"] * O["g"], x, 20 * TOL)
        for k in ("gd", "gn", "gv"):
            obs.eq("squared-" + k, O[k] * O[k], x, 20 * TOL)
        obs.ge("sign", O["g"], 0, 0)
    return Case("shear-strains", {"a": ((2, 3, 3), -5, 5)}, lambda P: {"a": gen(P, "a")}, fn, post, typed=False, rtol=5e-3, atol=1e-2, functions=["get_scalar_shear_strain"], bounds="two general tensors")


def rates():
    def fn(A):
        a, b = A["a"], A["b"]
        return dict(d1=mh.get_strain_rate_tensor(a[0]), d=mh.get_strain_rate_tensor_stack(a), m1=mh.get_small_strain(a[0]), m=mh.get_small_strain_stack(a), p1=mh.get_plastic_strain(a[0], b[0]), p=mh.get_plastic_strain_stack(a, b))

    def post(P, A, O, obs):
        a, b = A["a"], A["b"]
        sy = np.array([(x + x.T) / 2 for x in a], dtype=object)
        both(obs, "strain-rate", O["d1"], O["d"], sy)
        both(obs, "small-strain", O["m1"], O["m"], np.array([x - eye(3) for x in sy], dtype=object))
        both(obs, "plastic-strain", O["p1"], O["p"], np.array([a[i] - b[i] for i in range(2)], dtype=object))
    return Case("rates", {"a": ((2, 3, 3), -5, 5), "b": ((2, 3, 3), -5, 5)}, lambda P: {k: gen(P, k) for k in "ab"}, fn, post, typed=False, functions=["get_strain_rate_tensor", "get_small_strain", "get_plastic_strain"], bounds="two general tensors")


def objective():
    """objective increment: first-order rotation; symmetric stays symmetric, trace unchanged; invariant change of second order"""
    def fn(A):
        w = mh.get_spin_tensor(A["L"])
        return dict(r=mh.get_jaumann_increment(A["s"], w, A["dt"]), w=w)

    def post(P, A, O, obs):
        s, L, dt = A["s"], A["L"], A["dt"][()]
        w = (L - L.T) / 2
        obs.eq("increment", O["r"], s + (matmul(w, s) - matmul(s, w)) * dt, TOL)
        obs.eq("symmetric", O["r"], O["r"].T, TOL)
        obs.eq("trace-kept", trace(O["r"]), trace(s), TOL)
        d = O["r"] - s
        obs.eq("first-order-isometric", con(d, s), 0, 20 * TOL)
    return Case("objective-increment", {"s": ((1, 6), -5, 5), "L": ((3, 3), -2, 2), "dt": (None, 0, F(1, 2))}, lambda P: {"s": sym3(P, "s", 0), "L": sl(P["L"]), "dt": sl(P["dt"])}, fn, post, typed=False,
                functions=["get_jaumann_increment", "get_spin_tensor"], bounds="any symmetric tensor, gradient, time step")


def rotated(free):
    """invariants of Q a Qᵀ equal those of a"""
    def build(P):
        R = Rq(quat(P, (free,)))
        a = sym3(P, "T", 0)
        return {"a": a, "b": matmul(matmul(R, a), R.T)}

    def fn(A):
        f = lambda x: (mh.get_pressure(x), mh.get_J2(x), mh.get_q_vm(x), mh.get_shear_strain_vm(x), mh.get_volumetric_strain(x))
        x, y = f(A["a"]), f(A["b"])
        return {k + str(i): v for i, t in enumerate((x, y)) for k, v in zip("pJqgv", t)}

    def post(P, A, O, obs):
        O = {k: v[()] for k, v in O.items()}
        for k in "pJv":
            obs.eq("rotated-" + k, O[k + "1"], O[k + "0"], 10 * TOL)
        for k in "qg":
            obs.eq("rotated-" + k, O[k + "1"] * O[k + "1"], O[k + "0"] * O[k + "0"], 20 * TOL)
    return Case("rotated-" + free, {free: (None, -ANG, ANG), "T": ((1, 6), -5, 5)}, build, fn, post, typed=False, eps0=True, rtol=5e-3, atol=1e-2, functions=["get_pressure", "get_J2", "get_q_vm", "get_shear_strain_vm"],
                bounds="any symmetric tensor; rotation angle %s free, the others fixed generic" % free)


def scalars():
    def fn(A):
        return dict(K1=mh.get_KE(A["m"][0], A["v"][0]), K=mh.get_KE_stack(A["m"], A["v"]), f=mh.get_phi_from_L(A["L"], A["f"], A["dt"]))

    def post(P, A, O, obs):
        m, v = A["m"], A["v"]
        both(obs, "kinetic-energy", O["K1"][()], O["K"], np.array([m[i] * dot(v[i], v[i]) / 2 for i in range(2)], dtype=object), 10 * TOL)
        obs.eq("volume-fraction-balance", O["f"] * (1 - trace(A["L"]) * A["dt"][()]), A["f"][()], TOL)
    return Case("scalars", {"m": (2, F(1, 10), 5), "v": ((2, 3), -5, 5), "L": ((3, 3), -1, 1), "f": (None, F(1, 10), 1), "dt": (None, 0, F(1, 4))}, lambda P: {k: sl(P[k]) for k in ("m", "v", "L", "f", "dt")}, fn, post,
                typed=False, rtol=5e-3, functions=["get_KE", "get_phi_from_L"], bounds="two particles; |tr L dt| < 3/4")


def conversions():
    def fn(A):
        f, e = A["f"], A["e"]
        return dict(e1=mh.phi_to_e(f[0]), e=mh.phi_to_e_stack(f), f1=mh.e_to_phi(e[0]), f=mh.e_to_phi_stack(e), r1=mh.e_to_phi_stack(mh.phi_to_e_stack(f)), r2=mh.phi_to_e_stack(mh.e_to_phi_stack(e)),
                    ed=mh.get_e_from_bulk_density(A["rp"], A["rho"][0]), fd1=mh.get_phi_from_bulk_density(A["rp"], A["rho"][0]), fd=mh.get_phi_from_bulk_density_stack(A["rp"], A["rho"]))

    def post(P, A, O, obs):
        f, e, rp, rho = A["f"], A["e"], A["rp"][()], A["rho"]
        obs.eq("void-ratio", [(O["e"][i] + 1) * f[i] for i in range(2)], 1, TOL)
        obs.eq("void-ratio-single", (O["e1"][()] + 1) * f[0], 1, TOL)
        obs.eq("fraction", [O["f"][i] * (1 + e[i]) for i in range(2)], 1, TOL)
        obs.eq("fraction-single", O["f1"][()] * (1 + e[0]), 1, TOL)
        obs.eq("round-trip-phi", O["r1"], f, TOL)
        obs.eq("round-trip-e", O["r2"], e, TOL)
        obs.eq("void-ratio-from-density", (O["ed"][()] + 1) * rho[0], rp, 10 * TOL)
        obs.eq("fraction-from-density", [O["fd"][i] * rp for i in range(2)], rho, 10 * TOL)
        obs.eq("fraction-from-density-single", O["fd1"][()] * rp, rho[0], 10 * TOL)
    return Case("conversions", {"f": (2, F(1, 10), 1), "e": (2, 0, 5), "rp": (None, 1, 5), "x": (2, F(1, 10), 1)},
                lambda P: {"f": sl(P["f"]), "e": sl(P["e"]), "rp": sl(P["rp"]), "rho": sl(P["x"]) * sl(P["rp"])[()]}, fn, post, typed=False, rtol=5e-3,
                functions=["phi_to_e", "e_to_phi", "get_e_from_bulk_density", "get_phi_from_bulk_density"], bounds="volume fractions in [0.1, 1], void ratios up to 5")


def triaxial():
    def fn(A):
        s = mh.reconstruct_stress_from_triaxial(A["p"], A["q"])
        return dict(s=s, p=mh.get_pressure_stack(s), q=mh.get_q_vm_stack(s))

    def post(P, A, O, obs):
        p, q, s = A["p"], A["q"], O["s"]
        obs.eq("pressure", O["p"], p, TOL)
        obs.eq("shear-squared", O["q"] * O["q"], q * q, 20 * TOL)
        for i in range(2):
            obs.eq("axial-difference", s[i][2, 2] - s[i][0, 0], q[i], TOL)
            obs.eq("axisymmetric", s[i][0, 0], s[i][1, 1], TOL)
            obs.eq("no-shear", [s[i][a, b] for a in range(3) for b in range(3) if a != b], 0, 0)
    return Case("triaxial", {"p": (2, -10, 10), "q": (2, -10, 10)}, lambda P: {k: sl(P[k]) for k in "pq"}, fn, post, typed=False, rtol=5e-3, atol=1e-2, functions=["reconstruct_stress_from_triaxial"], bounds="any pressure and (signed) shear stress")


def lithostatic(slope):
    """invariants of the stress diag(k0 sv, k0 sv, sv) with shear tau on the inclined planes"""
    import math
    c, s = F(float(np.cos(np.float32(np.radians(slope))))), F(float(np.sin(np.float32(np.radians(slope)))))

    def fn(A):
        p, q = mh.precondition_from_lithostatic(A["rho"], A["z"], A["g"], slope, A["k"])
        return dict(p=p, q=q)

    def post(P, A, O, obs):
        k, g = A["k"][()], A["g"][()]
        for i in range(2):
            w = A["rho"][i] * g * A["z"][i]
            T = np.array([[k * w * c, 0, w * s], [0, k * w * c, 0], [w * s, 0, w * c]], dtype=object)
            obs.eq("pressure", O["p"][i], trace(T) / 3, 20 * TOL)
            obs.eq("shear-squared", O["q"][i] * O["q"][i], con(dev(T), dev(T)) * F(3, 2), 50 * TOL)
            obs.ge("sign", O["q"][i], 0, 0)
    return Case("lithostatic-%g" % slope, {"rho": (2, F(1, 2), 3), "z": (2, 0, 3), "g": (None, 0, 3), "k": (None, 0, 2)}, lambda P: {x: sl(P[x]) for x in ("rho", "z", "g", "k")}, fn, post, typed=False, rtol=5e-3, atol=2e-2,
                functions=["precondition_from_lithostatic"], bounds="any densities, depths, gravity, K0; slope %g degrees" % slope)


def inertial():
    def build(P):
        # pressure = rp w^2
        A = {k: sl(P[k]) for k in ("g", "d", "rp", "w")}
        A["p"] = sl(P["w"]) * sl(P["w"]) * sl(P["rp"])[()]
        return A

    def fn(A):
        return dict(i1=mh.get_inertial_number(A["p"][0], A["g"][0], A["d"], A["rp"]), i=mh.get_inertial_number_stack(A["p"], A["g"], A["d"], A["rp"]),
                    z=mh.get_inertial_number(A["p"][0] * 0, A["g"][0], A["d"], A["rp"]))

    def post(P, A, O, obs):
        w, g, d = A["w"], A["g"], A["d"][()]
        both(obs, "inertial-number", O["i1"][()] * w[0], O["i"] * w, np.array([g[i] * d for i in range(2)], dtype=object), TOL)
        obs.defined("defined-at-zero-pressure", O["z"])
        obs.ge("sign", O["i"], 0, 0)
    return Case("inertial-number", {"g": (2, 0, 10), "d": (None, F(1, 100), 1), "rp": (None, F(1, 2), 5), "w": (2, F(1, 10), 5)}, build, fn, post, typed=False, rtol=5e-3, functions=["get_inertial_number"], bounds="any pressure, rate, grain size and density")


def ssvd(P, kind):
    """F = U diag(s) Vt with U, V rotations: z: both about the z axis; q: U a generic fixed rotation times a free one"""
    from jaxsym import interp
    if kind == "z":
        from .c12 import R2
        U, V = eye(3), eye(3)
        U[:2, :2] = R2(sl(P["a"])[()])
        V[:2, :2] = R2(sl(P["b"])[()])
    else:
        U = Rq(quat(P, ("a",)))
        V = Rq(np.array([F(3, 5), 0, F(4, 5), 0], dtype=object))
        if kind == "y":
            V = Rq(quat({"b": P["b"]}, ("b",)))
    return U, V


def hencky(kind):
    """logarithmic strain of F = U diag(s) Vᵀ is -U diag(log s) Uᵀ"""
    def build(P):
        U, V = ssvd(P, kind)
        s = sl(P["s"])
        D = eye(3)
        for i in range(3):
            D[i, i] = s[i]
        Fm = matmul(matmul(U, D), V.T)
        if issym(Fm):
            from jaxsym import interp
            interp.SVDS[:] = [(Fm, U, s, V.T)]
        return {"F": np.array([Fm], dtype=object)}

    def fn(A):
        h = mh.get_hencky_strain_stack(A["F"])
        return dict(h1=mh.get_hencky_strain(A["F"][0]), h=h, v=mh.get_volumetric_strain_stack(h))

    def post(P, A, O, obs):
        U, _ = ssvd(P, kind)
        s = sl(P["s"])
        lg = [-sp.log(x) for x in s]
        X = np.array([[total([U[i, k] * lg[k] * U[j, k] for k in range(3)]) for j in range(3)] for i in range(3)], dtype=object)
        both(obs, "logarithmic-strain", O["h1"], O["h"], np.array([X], dtype=object))
        obs.eq("volumetric-is-log-volume", O["v"][0], total(lg), TOL)
        obs.eq("symmetric", O["h"][0], O["h"][0].T, TOL)
    return Case("hencky-" + kind, {"a": (None, -ANG, ANG), "b": (None, -ANG, ANG), "s": (3, F(1, 100), 16)}, build, fn, post, typed=False, rtol=5e-3, atol=5e-3, functions=["get_hencky_strain"],
                bounds="principal stretches in [0.01, 16], rotations %s (numpy's svd through its contract)" % ("about z" if kind == "z" else "with one free angle"))


def issym(m):
    from jaxsym import core
    return any(isinstance(x, core.S) and x.const is None for x in np.asarray(m, dtype=object).reshape(-1))


def hencky_props():
    """strain measures of a material point are those of its deformation, its stored deformation and its velocity gradient"""
    def build(P):
        U, V = ssvd(P, "z")
        out = []
        A = {"L": sl(P["L"])}
        reg = []
        for k, s in (("F", sl(P["s"])), ("Fs", sl(P["t"]))):
            D = eye(3)
            for i in range(3):
                D[i, i] = s[i]
            Fm = matmul(matmul(U, D), V.T)
            reg.append((Fm, U, s, V.T))
            A[k] = np.array([Fm], dtype=object)
        if issym(A["F"]):
            from jaxsym import interp
            interp.SVDS[:] = reg
        return A

    def fn(A):
        mp = mp_state(dict(A, pos=jnp.zeros((1, 3))))
        return dict(e=mp.eps_stack, es=mp.stored_eps_stack, v=mp.eps_v_stack, d=mp.deps_dt_stack, g=mp.shear_strain_stack, gs=mp.stored_shear_strain_stack, gr=mp.shear_strain_rate_stack)

    def post(P, A, O, obs):
        U, _ = ssvd(P, "z")
        L = A["L"][0]
        for k, g, s in (("e", "g", sl(P["s"])), ("es", "gs", sl(P["t"]))):
            lg = [-sp.log(x) for x in s]
            X = np.array([[total([U[i, c] * lg[c] * U[j, c] for c in range(3)]) for j in range(3)] for i in range(3)], dtype=object)
            obs.eq("strain-" + k, O[k][0], X, TOL)
            m = total(lg) / 3
            obs.eq("shear-" + g, O[g][0] * O[g][0], total([(x - m) * (x - m) for x in lg]) * F(2, 3), 20 * TOL)
        obs.eq("volumetric", O["v"][0], total([-sp.log(x) for x in sl(P["s"])]), TOL)
        D = (L + L.T) / 2
        obs.eq("rate", O["d"][0], D, TOL)
        obs.eq("shear-rate", O["gr"][0] * O["gr"][0], con(dev(D), dev(D)) * F(2, 3), 20 * TOL)
    return Case("particle-strains", {"a": (None, -ANG, ANG), "b": (None, -ANG, ANG), "s": (3, F(1, 4), 4), "t": (3, F(1, 4), 4), "L": ((1, 3, 3), -5, 5)}, build, fn, post, typed=False, eps0=True, rtol=5e-3, atol=1e-2,
                functions=["MaterialPointState.eps_stack", "stored_eps_stack", "deps_dt_stack", "shear_strain_stack"], bounds="principal stretches in [0.01, 16], rotations about z, any velocity gradient")
