"""rigid objects: invariance of distance/normal under rigid motion, surface velocity, kinematic update"""
from .steps import *
from hydraxmpm.sdf.sdfcollection import CompositeSDF

TOL = F(1, 1000)
ANG = F(3)


def cases(tier, seed):
    out = []
    for k in SH2:
        out.append(inv2(k))
    for k in SH3:
        out.append(inv3(k, ("a", "b", "g")))
    out += [rot2(), rot3(), inverse3()]
    for d in (2, 3):
        out += [velocity(d), centre(d)]
    out += [spin2(), spin3(), drift()]
    for d in (2, 3):
        for sch in ("usl", "aflip"):
            out.append(step(sch, d, sel=(0, 1)))
    for d in (2, 3):
        out.append(defaults(d))
    return out


SH2 = {"box": lambda: hdx.BoxSDF(size=[2.0, 1.0]), "plane": lambda: hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), "sphere": lambda: hdx.SphereSDF(radius=1.0),
       "capsule": lambda: hdx.CapsuleSDF(radius=0.25, height=2.0), "ring": lambda: hdx.HollowCylinderSDF(height=2.0, outer_radius=1.0, inner_radius=0.5), "star": lambda: hdx.StarSDF(),
       "union": lambda: CompositeSDF([hdx.SphereSDF(radius=1.0), hdx.BoxSDF(size=[3.0, 1.0])], [0.25, 0.5])}
SH3 = {"box": lambda: hdx.BoxSDF(size=[2.0, 1.0, 3.0]), "plane": lambda: hdx.PlaneSDF(normal=jnp.array([0.0, 1.0, 0.0])),
       "capsule": lambda: hdx.CapsuleSDF(radius=0.25, height=2.0), "cylinder": lambda: hdx.CylinderSDF(radius=0.5, height=2.0), "torus": lambda: hdx.TorusSDF(major_r=1.0, minor_r=0.25),
       "sphere": lambda: hdx.SphereSDF(radius=1.0), "pipe": lambda: hdx.HollowCylinderSDF(height=2.0, outer_radius=1.0, inner_radius=0.5)}


def R2(th):
    c, s = sp.cos(th), sp.sin(th)
    return np.array([[c, -s], [s, c]], dtype=object)


def quat(P, sym=("a", "b", "g")):
    """unit quaternion: half angle a about the axis with polar angles b, g (covers every rotation when all three are free)"""
    fix = {"a": (F(4, 5), F(3, 5)), "b": (F(5, 13), F(12, 13)), "g": (F(8, 17), F(15, 17))}
    g = lambda k: (sp.cos(sl(P[k])[()]), sp.sin(sl(P[k])[()])) if k in sym else fix[k]
    (ca, sa), (cb, sb), (cg, sg) = g("a"), g("b"), g("g")
    return np.array([ca, sa * cb * cg, sa * cb * sg, sa * sb], dtype=object)


def Rq(q):
    """rotation matrix of a unit quaternion [w, x, y, z]"""
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]], dtype=object)


def inv2(kind):
    """distance and normal at R p + c of the object posed at (c, theta) against the object at the origin"""
    def build(P):
        l = sl(P["l"])
        w = matmul(R2(sl(P["th"])[()]), l)
        c = sl(P["c"])
        return {"c": c, "l": l, "w": np.array([c[d] + w[d] for d in range(2)], dtype=object), "th": sl(P["th"]), "mv": sl(P["mv"]), "mw": sl(P["mw"])}

    def fn(A):
        s = SH2[kind]()
        a = s.create_state(jnp.zeros(2))
        b = s.create_state(A["c"], velocity=A["mv"], angular_velocity=A["mw"], rotation=A["th"])
        return dict(d0=s.signed_distance(a, A["l"]), d1=s.signed_distance(b, A["w"]), ds=s.get_signed_distance_stack(b, A["w"][None])[0],
                    f0=s.get_surface_friction(a, A["l"]), f1=s.get_surface_friction(b, A["w"]))

    def post(P, A, O, obs):
        obs.eq("distance-invariant", O["d1"], O["d0"], TOL)
        obs.eq("distance-invariant-stack", O["ds"], O["d0"], TOL)
        obs.eq("friction-invariant", O["f1"], O["f0"], TOL)
    return Case("invariant-2d-%s" % kind, {"l": (2, -3, 3), "c": (2, -5, 5), "mv": (2, -5, 5), "mw": (None, -5, 5), "th": (None, -ANG, ANG)}, build, fn, post, typed=False, eps0=True,
                functions=["transform_to_local", "rotation_2d_inv"], bounds="any point, centre and motion of the object, any angle in [-3, 3]")


def inv3(kind, sym):
    def build(P):
        l = sl(P["l"])
        q = quat(P, sym)
        w = matmul(Rq(q), l)
        c = sl(P["c"])
        return {"c": c, "l": l, "w": np.array([c[d] + w[d] for d in range(3)], dtype=object), "q": q, "mv": sl(P["mv"]), "mw": sl(P["mw"])}

    def fn(A):
        s = SH3[kind]()
        a = s.create_state(jnp.zeros(3))
        b = s.create_state(A["c"], velocity=A["mv"], angular_velocity=A["mw"], rotation=A["q"])
        return dict(d0=s.signed_distance(a, A["l"]), d1=s.signed_distance(b, A["w"]), ds=s.get_signed_distance_stack(b, A["w"][None])[0])

    def post(P, A, O, obs):
        obs.eq("distance-invariant", O["d1"], O["d0"], TOL)
        obs.eq("distance-invariant-stack", O["ds"], O["d0"], TOL)
    p = {"l": (3, -3, 3), "c": (3, -5, 5), "mv": (3, -5, 5), "mw": (3, -5, 5)}
    p.update({k: (None, -ANG, ANG) for k in sym})
    return Case("invariant-3d-%s-%s" % (kind, "".join(sym)), p, build, fn, post, typed=False, eps0=True,
                functions=["transform_to_local", "quaternion_rotate"], bounds="any point, centre and motion of the object; rotation angle(s) %s free, the others fixed" % "".join(sym))


def rot2():
    def fn(A):
        from hydraxmpm.utils import math_helpers as mh
        return dict(r=mh.rotation_2d(A["th"], A["v"]), i=mh.rotation_2d_inv(A["th"], A["v"]), u=mh.rotate_2d_update(A["th"], A["w"], A["dt"]))

    def post(P, A, O, obs):
        R = R2(A["th"][()])
        obs.eq("rotate", O["r"], matmul(R, A["v"]), TOL)
        obs.eq("rotate-back", O["i"], matmul(R.T, A["v"]), TOL)
        obs.eq("advance", O["u"], A["th"][()] + A["w"][()] * A["dt"][()], TOL)
    return Case("rotation-2d", {"th": (None, -ANG, ANG), "v": (2, -5, 5), "w": (None, -10, 10), "dt": (None, 0, 1)}, lambda P: {k: sl(P[k]) for k in ("th", "v", "w", "dt")}, fn, post,
                typed=False, functions=["rotation_2d", "rotation_2d_inv", "rotate_2d_update"], bounds="any angle, vector, rate, step")


def rot3():
    def build(P):
        return {"q": quat(P), "v": sl(P["v"])}

    def fn(A):
        from hydraxmpm.utils import math_helpers as mh
        return dict(r=mh.quaternion_rotate(A["q"], A["v"]), i=mh.quaternion_rotate(mh.quaternion_inv(A["q"]), A["v"]))

    def post(P, A, O, obs):
        R = Rq(A["q"])
        obs.eq("rotate", O["r"], matmul(R, A["v"]), TOL)
        obs.eq("rotate-back", O["i"], matmul(R.T, A["v"]), TOL)
    return Case("rotation-3d", {"a": (None, -ANG, ANG), "b": (None, -ANG, ANG), "g": (None, -ANG, ANG), "v": (3, -5, 5)}, build, fn, post,
                typed=False, functions=["quaternion_rotate", "quaternion_inv"], bounds="every rotation, any vector")


def inverse3():
    """world -> local undoes local -> world, and lengths are kept"""
    def build(P):
        return {"q": quat(P), "v": sl(P["v"]), "c": sl(P["c"])}

    def fn(A):
        from hydraxmpm.utils import math_helpers as mh
        s = hdx.SphereSDF(radius=1.0)
        st = s.create_state(A["c"], rotation=A["q"])
        return dict(l=s.transform_to_local(st, A["c"] + mh.quaternion_rotate(A["q"], A["v"])), w=mh.quaternion_rotate(A["q"], A["v"]))

    def post(P, A, O, obs):
        obs.eq("round-trip", O["l"], A["v"], TOL)
        obs.eq("length-kept", dot(O["w"], O["w"]), dot(A["v"], A["v"]), TOL)
    return Case("round-trip-3d", {"a": (None, -ANG, ANG), "b": (None, -ANG, ANG), "g": (None, -ANG, ANG), "v": (3, -2, 2), "c": (3, -2, 2)}, build, fn, post,
                typed=False, functions=["transform_to_local", "quaternion_rotate"], bounds="every rotation, any vector and centre")


def cross(w, r):
    if len(r) == 2:
        w = w[()]
        return [-w * r[1], w * r[0]]
    return [w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]]


def velocity(dim):
    """the pose's rotation does not enter; several points at once; two objects kinds (base class and a collection member)"""
    def build(P):
        A = {k: sl(P[k]) for k in ("c", "v", "w", "p", "dt")}
        A["rot"] = sl(P["th"]) if dim == 2 else quat(P)
        return A

    def fn(A):
        out = {}
        for nm, s in (("sphere", hdx.SphereSDF(radius=1.0)), ("box", hdx.BoxSDF(size=[1.0] * dim)), ("plane", hdx.PlaneSDF(normal=jnp.eye(dim)[1])),
                      ("union", CompositeSDF([hdx.SphereSDF(radius=1.0), hdx.BoxSDF(size=[1.0] * dim)], [0.25, 0.5]))):
            st = s.create_state(A["c"], velocity=A["v"], angular_velocity=A["w"], rotation=A["rot"])
            out[nm] = s.get_velocity_stack(st, A["p"], A["dt"])
            out[nm + "1"] = s.get_velocity(st, A["p"][0], A["dt"])
        return out

    def post(P, A, O, obs):
        for nm in O:
            for i in range(2 if not nm.endswith("1") else 1):
                r = [A["p"][i][d] - A["c"][d] for d in range(dim)]
                x = cross(A["w"], r)
                got = O[nm][i] if not nm.endswith("1") else O[nm]
                obs.eq("surface-velocity-%s" % nm, got, np.array([A["v"][d] + x[d] for d in range(dim)], dtype=object), TOL)
    p = {"c": (dim, -5, 5), "v": (dim, -5, 5), "w": ((3,) if dim == 3 else None, -5, 5), "p": ((2, dim), -5, 5), "dt": (None, F(1, 1000), 1)}
    p.update({"th": (None, -ANG, ANG)} if dim == 2 else {k: (None, -ANG, ANG) for k in ("a", "b", "g")})
    return Case("velocity-%dd" % dim, p, build, fn, post, typed=False, functions=["get_velocity", "get_velocity_stack"], bounds="two points, any pose and motion")


def centre(dim):
    def build(P):
        A = {k: sl(P[k]) for k in ("c", "v", "w", "dt")}
        A["rot"] = sl(P["th"]) if dim == 2 else quat(P)
        return A

    def fn(A):
        s = hdx.BoxSDF(size=[1.0] * dim)
        st = s.create_state(A["c"], velocity=A["v"], angular_velocity=A["w"], rotation=A["rot"])
        a = s.update_kinematics(st, A["dt"])
        b = s.update_kinematics(a, A["dt"])
        return dict(c=a.center_of_mass, v=a.velocity, w=a.angular_velocity, c2=b.center_of_mass)

    def post(P, A, O, obs):
        obs.eq("centre", O["c"], A["c"] + A["v"] * A["dt"][()], TOL)
        obs.eq("centre-two-steps", O["c2"], A["c"] + A["v"] * (2 * A["dt"][()]), TOL)
        obs.eq("velocity-kept", O["v"], A["v"], 0)
        obs.eq("spin-kept", O["w"], A["w"], 0)
    p = {"c": (dim, -5, 5), "v": (dim, -5, 5), "w": ((3,) if dim == 3 else None, -5, 5), "dt": (None, F(0), 1)}
    p.update({"th": (None, -ANG, ANG)} if dim == 2 else {k: (None, -ANG, ANG) for k in ("a", "b", "g")})
    return Case("advance-%dd" % dim, p, build, fn, post, typed=False, functions=["update_kinematics"], bounds="any pose, velocity, step; two steps", defined=False)


def spin2():
    def fn(A):
        s = hdx.BoxSDF(size=[1.0, 1.0])
        st = s.create_state(jnp.zeros(2), angular_velocity=A["w"], rotation=A["th"])
        st = s.update_kinematics(st, A["dt"])
        r1 = st.rotation
        return dict(r=r1, r2=s.update_kinematics(st, A["dt"]).rotation)

    def post(P, A, O, obs):
        obs.eq("angle", O["r"], A["th"][()] + A["w"][()] * A["dt"][()], TOL)
        obs.eq("angle-two-steps", O["r2"], A["th"][()] + 2 * A["w"][()] * A["dt"][()], TOL)
    return Case("spin-2d", {"th": (None, -ANG, ANG), "w": (None, -10, 10), "dt": (None, 0, 1)}, lambda P: {k: sl(P[k]) for k in ("th", "w", "dt")}, fn, post,
                typed=False, functions=["update_kinematics"], bounds="any angle, rate and step; two steps")


def qmul(a, b):
    return np.array([a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
                     a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                     a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
                     a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]], dtype=object)


def spin3():
    """first-order rotation by w*dt in the world frame, normalised"""
    def build(P):
        return {"q": quat(P), "w": sl(P["w"]), "dt": sl(P["dt"])}

    def fn(A):
        s = hdx.BoxSDF(size=[1.0] * 3)
        st = s.create_state(jnp.zeros(3), angular_velocity=A["w"], rotation=A["q"])
        return dict(q=s.update_kinematics(st, A["dt"]).rotation)

    def post(P, A, O, obs):
        h = A["dt"][()] / 2
        w = A["w"]
        nrm = sp.sqrt(1 + h * h * dot(w, w))
        x = qmul([F(1), h * w[0], h * w[1], h * w[2]], A["q"])
        for i in range(4):
            obs.eq("rotation[%d]" % i, O["q"][i] * nrm, x[i], TOL)
        obs.eq("normalised", dot(O["q"], O["q"]), 1, TOL)
    return Case("spin-3d", {"a": (None, -ANG, ANG), "b": (None, -ANG, ANG), "g": (None, -ANG, ANG), "w": (3, -5, 5), "dt": (None, 0, F(1, 10))}, build, fn, post,
                typed=False, eps0=True, functions=["integrate_quaternion"], bounds="every rotation, any angular velocity and step (|w_i| dt <= 1/2)")


def drift():
    """whatever the length of the incoming quaternion, the outgoing one is normalised (no drift over any history)"""
    def fn(A):
        s = hdx.BoxSDF(size=[1.0] * 3)
        st = s.create_state(jnp.zeros(3), angular_velocity=A["w"], rotation=A["q"])
        return dict(q=s.update_kinematics(st, A["dt"]).rotation)

    def post(P, A, O, obs):
        obs.eq("normalised", dot(O["q"], O["q"]), 1, TOL)
    return Case("no-drift", {"q": (4, -2, 2), "w": (3, -5, 5), "dt": (None, 0, F(1, 10))}, lambda P: {k: sl(P[k]) for k in ("q", "w", "dt")}, fn, post,
                pre=lambda P, A: [dot(A["q"], A["q"]) > F(1, 100)], typed=False, eps0=True, functions=["integrate_quaternion"], bounds="quaternion of any length >= 0.1")


def step(scheme, dim, sel):
    """a solver step advances every object of the world once, by that step's dt"""
    n = 1

    def build(P):
        return {"pos": where(np.array([[FIX[d] for d in range(dim)]], dtype=object), [[1] * dim]), "c": sl(P["c"]), "v": sl(P["v"]), "w": sl(P["w"]), "dt": sl(P["dt"]), "th": sl(P["th"])}

    def fn(A):
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        pl = hdx.PlaneSDF(normal=jnp.eye(dim)[0])
        sdfs = (pl, hdx.PlaneSDF(normal=jnp.eye(dim)[1]))
        z = jnp.array([1.0, 0, 0, 0])
        sts = [pl.create_state(A["c"][k], velocity=A["v"][k], angular_velocity=A["w"][k] if dim == 2 else jnp.zeros(3), rotation=A["th"][k] if dim == 2 else z) for k in range(2)]
        s, st = one_body(A, scheme, dim, "linear", n=SIZE["linear"], sdfs=sdfs, sdf_states=sts, **kw)
        o = s(st)
        o2 = s(o)
        return dict(c=jnp.stack([x.center_of_mass for x in o.world.sdfs]), r=jnp.stack([jnp.asarray(x.rotation) for x in o.world.sdfs]), v=jnp.stack([x.velocity for x in o.world.sdfs]),
                    c2=jnp.stack([x.center_of_mass for x in o2.world.sdfs]), r2=jnp.stack([jnp.asarray(x.rotation) for x in o2.world.sdfs]))

    def post(P, A, O, obs):
        dt = A["dt"][()]
        obs.eq("centre", O["c"], A["c"] + A["v"] * dt, TOL)
        obs.eq("centre-two-steps", O["c2"], A["c"] + A["v"] * (2 * dt), TOL)
        obs.eq("velocity-kept", O["v"], A["v"], 0)
        if dim == 2:
            obs.eq("angle", O["r"], A["th"] + A["w"] * dt, TOL)
            obs.eq("angle-two-steps", O["r2"], A["th"] + A["w"] * (2 * dt), TOL)
        else:
            obs.eq("rotation-kept", O["r"], np.array([[F(1), F(0), F(0), F(0)]] * 2, dtype=object), TOL)
    p = {"c": ((2, dim), -5, 5), "v": ((2, dim), -5, 5), "w": (2, -5, 5), "th": (2, -ANG, ANG), "dt": (None, F(1, 1000), F(1, 20))}
    return Case("step-%s-%dd" % (scheme, dim), p, build, fn, post, typed=False, eps0=True, functions=["%s._kinematic_update" % scheme], defined=False,
                bounds="two objects, any pose, velocity, spin (2D) and dt; two steps")


def defaults(dim):
    """an object created without a motion rests; one created with a motion keeps it"""
    def fn(A):
        s = hdx.BoxSDF(size=[1.0] * dim)
        a = s.create_state(A["c"])
        b = s.create_state(A["c"], velocity=A["v"], angular_velocity=A["w"], rotation=A["q"])
        return dict(c=a.center_of_mass, v=s.get_velocity(a, A["p"], 0.1), l=s.transform_to_local(a, A["p"]), c1=s.update_kinematics(a, 0.1).center_of_mass,
                    bc=b.center_of_mass, bv=b.velocity, bw=jnp.asarray(b.angular_velocity), bq=jnp.asarray(b.rotation))

    def post(P, A, O, obs):
        obs.eq("centre", O["c"], A["c"], 0)
        obs.eq("at-rest", O["v"], 0, 0)
        obs.eq("unrotated", O["l"], A["p"] - A["c"], TOL)
        obs.eq("stays", O["c1"], A["c"], TOL)
        for k, v in (("bc", "c"), ("bv", "v"), ("bw", "w"), ("bq", "q")):
            obs.eq("given-" + v, O[k], A[v], 0)
    p = {"c": (dim, -5, 5), "p": (dim, -5, 5), "v": (dim, -5, 5), "w": (3 if dim == 3 else None, -5, 5), "q": (4 if dim == 3 else None, -1, 1)}
    return Case("created-%dd" % dim, p, lambda P: {k: sl(P[k]) for k in p}, fn, post, typed=False, functions=["create_state"], bounds="any pose and motion")
