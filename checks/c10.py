"""contact of grid nodes with rigid objects"""
from .steps import *
from hydraxmpm.common.simstate import SimCache, NodeGeometry
from hydraxmpm.grid.grid import GridArrays
from .c05 import SYM, base as base5, params as params5
from .c08 import kw_


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for mode in ("approach", "recede", "untouched"):
            out.append(node(dim, mode))
        out.append(frame(dim))
    out.append(select())
    for scheme in ("usl", "aflip"):
        for shape in ("domain", "moving"):
            for dim in ((2, 3) if tier == "thorough" or shape == "moving" else (2,)):
                out.append(step(scheme, shape, dim))
        out.append(two_objects(scheme))
    return out


def basis(P, dim):
    """orthonormal frame (n, t...) from angles; exact identities via cos^2 = 1 - sin^2"""
    c, s = sp.cos(sl(P["th"])[()]), sp.sin(sl(P["th"])[()])
    if dim == 2:
        return [[c, s], [-s, c]]
    cp, s2 = sp.cos(sl(P["ph"])[()]), sp.sin(sl(P["ph"])[()])
    return [[c * cp, s * cp, s2], [-s, c, F(0)], [-c * s2, -s * s2, cp]]


def lin(co, vs):
    return np.array([total([c * v[d] for c, v in zip(co, vs)]) for d in range(len(vs[0]))], dtype=object)


def one_node(A, dim, extra=0):
    """grid with a single node of interest + an empty one"""
    z = jnp.zeros((1, dim))
    return (GridArrays(mass_stack=jnp.concatenate([A["m"], jnp.zeros(1)]), moment_stack=jnp.concatenate([A["m"][:, None] * A["v"], z]),
                       moment_nt_stack=jnp.concatenate([A["m"][:, None] * A["v"], z]), force_stack=jnp.zeros((2, dim))),
            NodeGeometry(dists=jnp.concatenate([A["d"], A["d"]]), normals=jnp.concatenate([A["n"], A["n"]]), wall_vels=jnp.concatenate([A["w"], A["w"]]),
                         friction=jnp.concatenate([A["mu"], A["mu"]])))


def collide(A, dim):
    g, ng = one_node(A, dim)
    other = jax.tree_util.tree_map(lambda x: x, g)
    col = hdx.SDFCollider(sdf_idx=1, g_idx_list=[1], friction=0.5)
    c = SimCache(grids=(other, g), interactions={}, node_geoms={(1, 1): ng}, mp_geoms={})
    sdf = hdx.PlaneSDF(normal=[0.0] * (dim - 1) + [1.0])
    ss = sdf.create_state(jnp.zeros(dim))
    st = sim_state([], [], [], [None], (ss, ss))
    doms = (domain(dim, 2), domain(dim, 2))
    w, m, o = col.apply_grid_moments(st.world, st.mechanics, c, (sdf, sdf), (), doms, A["dt"], 0.0)
    return dict(v=o.grids[1].moment_nt_stack[0] / A["m"][0], empty=o.grids[1].moment_nt_stack[1], other=o.grids[0].moment_nt_stack, m=o.grids[1].mass_stack,
                p=o.grids[1].moment_stack, f=o.grids[1].force_stack)


NPAR = lambda dim: {"th": (None, -3, 3), "ph": (None, -3, 3), "a": (None, -5, 5), "b": (dim - 1, -5, 5), "w": (dim, -5, 5), "m": (1, F(1, 10), 5),
                    "mu": (None, 0, 2), "d": (None, -1, 0), "dt": (None, F(1, 1000), F(1, 10))}


def node_args(P, dim):
    B = basis(P, dim)
    co = [sl(P["a"])[()]] + list(sl(P["b"]))
    v = lin(co, B) + sl(P["w"])
    one = lambda x: np.array([x], dtype=object)
    return {"n": one(B[0]).reshape(1, dim), "v": v.reshape(1, dim), "w": sl(P["w"]).reshape(1, dim), "m": sl(P["m"]), "mu": sl(P["mu"]).reshape(1),
            "d": sl(P["d"]).reshape(1), "dt": sl(P["dt"])}


def node(dim, mode):
    def build(P):
        return node_args(P, dim)

    def post(P, A, O, obs):
        B = basis(P, dim)
        a, b, mu = sl(P["a"])[()], list(sl(P["b"])), A["mu"][0] * F(1, 2)
        rel = [O["v"][d] - A["w"][0, d] for d in range(dim)]
        an = dot(rel, B[0])
        bn = [dot(rel, t) for t in B[1:]]
        dn = an - a
        if mode == "approach":
            obs.ge("never-approaches", an, 0, TOL)
            obs.eq("no-rebound", an, 0, TOL)
            obs.ge("never-pulls", dn, 0, TOL)
            bb = total([x * x for x in b])
            sp_ = sp.sqrt(bb)
            lim = mu * (-a)
            # the tangential velocity is scaled by 1 - min(|b|, mu*lambda)/|b|
            red = sp.min(sp_, lim)
            for k in range(dim - 1):
                obs.eq("friction", bn[k] * sp_, b[k] * (sp_ - red), 10 * TOL, when=bb > F(1, 100))
                obs.eq("stick", bn[k], 0, TOL, when=sp.and_(bb > F(1, 100), lim > sp_))
            if dim == 2:
                obs.le("coulomb-limit", sp.abs(bn[0] - b[0]), lim, TOL)
                obs.ge("no-reversal", bn[0] * b[0], 0, TOL)
                obs.le("opposes-sliding", (bn[0] - b[0]) * b[0], 0, TOL)
        else:
            obs.eq("unchanged", O["v"], A["v"][0], TOL)
        obs.eq("unselected-grid", O["other"][0], A["m"][0] * A["v"][0], TOL)
        obs.eq("empty-node", O["empty"], np.zeros(dim), 0)
        obs.eq("mass-untouched", O["m"][0], A["m"][0], 0)
        obs.eq("old-momentum-untouched", O["p"][0], A["m"][0] * A["v"][0], TOL)
        obs.eq("force-untouched", O["f"], np.zeros((2, dim)), 0)
    p = NPAR(dim)
    if dim == 2:
        p.pop("ph")
    if mode == "approach":
        p["a"] = (None, -5, F(-1, 100))
    elif mode == "recede":
        p["a"] = (None, 0, 5)
    else:
        p["d"] = (None, F(1, 1000), 5)
    return Case("node-%s-%dd" % (mode, dim), p, build, lambda A: collide(A, dim), post, functions=["SDFCollider.apply_grid_moments", "apply_frictional_contact"],
                typed=False, weight=4 ** dim, bounds="one node, any unit normal, relative velocity, wall velocity, mass, friction coefficient, distance, dt")


def frame(dim):
    """adding one velocity to object and material adds it to the result"""
    def build(P):
        A = node_args(P, dim)
        A["c"] = sl(P["c"])
        return A

    def fn(A):
        r = collide(A, dim)["v"]
        B = dict(A, v=A["v"] + A["c"][None], w=A["w"] + A["c"][None])
        return dict(d=collide(B, dim)["v"] - r - A["c"])

    def post(P, A, O, obs):
        obs.eq("galilean", O["d"], np.zeros(dim), TOL)
    p = dict(NPAR(dim), c=(dim, -5, 5), d=(None, -1, 1))
    if dim == 2:
        p.pop("ph")
    return Case("galilean-%dd" % dim, p, build, fn, post, functions=["SDFCollider.apply_grid_moments"], typed=False, weight=4 ** dim,
                bounds="one node, any state, any added velocity")


def select():
    """collider without object, or with an empty grid selection, does nothing"""
    dim = 2

    def fn(A):
        g, ng = one_node(A, dim)
        c = SimCache(grids=(g, g), interactions={}, node_geoms={(0, 0): ng, (1, 0): ng}, mp_geoms={})
        sdf = hdx.PlaneSDF(normal=[0.0, 1.0])
        st = sim_state([], [], [], [None], (sdf.create_state(jnp.zeros(dim)),))
        r = {}
        for nm, kw in [("none", dict(sdf_idx=-1)), ("nogrid", dict(g_idx_list=[])), ("default", dict())]:
            o = hdx.SDFCollider(**kw).apply_grid_moments(st.world, st.mechanics, c, (sdf,), (), (domain(dim, 2),) * 2, A["dt"], 0.0)[2]
            r[nm] = jnp.stack([x.moment_nt_stack[0] for x in o.grids])
        return r

    def post(P, A, O, obs):
        mv = A["m"][0] * A["v"][0]
        for nm in ("none", "nogrid"):
            for i in (0, 1):
                obs.eq(nm, O[nm][i], mv, TOL)
        obs.eq("default-second-grid", O["default"][1], mv, TOL)
        n = A["n"][0]
        rel = [O["default"][0][d] / A["m"][0] - A["w"][0, d] for d in range(dim)]
        obs.ge("default-first-grid", dot(rel, n), 0, TOL)
        lam, b = -sl(P["a"])[()], sl(P["b"])[0]
        obs.le("default-friction-is-one", sp.abs(dot(rel, basis(P, 2)[1]) - b), lam * A["mu"][0], 10 * TOL)
    p = dict(NPAR(2), a=(None, -5, F(-1, 100)))
    p.pop("ph")
    return Case("selection", p, lambda P: node_args(P, dim), fn, post, functions=["SDFCollider.apply_grid_moments"], typed=False, weight=4,
                bounds="one node, any approaching state; collider without object, without grids, and with defaults")


def snap():
    box = {}

    class Snap(hdx.Force):
        tag: str

        def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
            box[self.tag] = cache.grids[0].moment_nt_stack
            box["m"] = cache.grids[0].mass_stack
            return world, mechanics, cache
    return Snap, box


def nodes_of(dim, kern):
    n = SIZE[kern]
    return [[F(O0[d]) + F(k) * F(H) for d, k in enumerate(idx)] for idx in np.ndindex(*(n,) * dim)]


def set_nodes(v):
    import equinox as eqx

    class SetV(hdx.Force):
        def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
            g = cache.grids[0]
            g = eqx.tree_at(lambda s: s.moment_nt_stack, g, g.mass_stack[:, None] * v[None])
            return world, mechanics, eqx.tree_at(lambda c: c.grids, cache, (g,) + tuple(cache.grids[1:]))
    return SetV()


def step(scheme, shape, dim):
    """whole solver step: nodes carry a given velocity when the collider acts; the grid after contact is checked at every node"""
    kern = "linear"
    mid = [F(O0[d]) + F(H) for d in range(dim)]
    NRM, TAN = ([F(3, 5), F(4, 5)], [[-F(4, 5), F(3, 5)]]) if dim == 2 else ([F(2, 3), F(1, 3), F(2, 3)], [[F(1, 3), F(2, 3), -F(2, 3)], [-F(2, 3), F(2, 3), F(1, 3)]])
    if shape == "domain":
        NRM, TAN = [F(0)] * (dim - 1) + [F(1)], [[F(int(i == j)) for j in range(dim)] for i in range(dim - 1)]
    mu = F(1, 4) if shape == "domain" else F(0)

    def build(P):
        pos = np.array([[F(O0[d]) + F(H) * (F(1, 2) + i) for d in range(dim)] for i in range(2)], dtype=object)
        A = {"pos": pos, "mass": np.array([F(1), F(2)], dtype=object), "w": sl(P["w"]), "om": sl(P["om"]), "dt": np.array(F(1, 100), dtype=object)}
        A["v"] = A["w"] + lin([sl(P["a"])[()]] + list(sl(P["b"])), [NRM] + TAN)
        r = sl(P["r"])[()]
        A["c"] = np.array([mid[d] + r * NRM[d] for d in range(dim)], dtype=object)
        return A

    def fn(A):
        nrm = [float(x) for x in NRM]
        Snap, box = snap()
        if shape == "moving":
            sdf = hdx.PlaneSDF(normal=nrm)
        else:
            big = 100.0
            sdf = hdx.DomainSDF(origin=[-big] * (dim - 1) + [A["c"][dim - 1]], end=[big] * dim, frictions=0.5)
        kw = {} if shape == "domain" else dict(velocity=A["w"])
        if shape == "moving":
            kw["angular_velocity"] = A["om"][0] if dim == 2 else A["om"]
        st0 = sdf.create_state(A["c"], **kw)
        if shape == "moving":
            sdf = Still(sdf)
        col = hdx.SDFCollider(friction=float(mu) * (2 if shape == "domain" else 1))
        s, st = one_body(A, scheme, dim, kern, forces=(set_nodes(A["v"]), col, Snap("post")), force_states=(None, None, None), sdfs=(sdf,), sdf_states=(st0,), dt=A["dt"], alpha=0.5, **kw_(scheme))
        st = s(st)
        m = box["m"]
        v = box["post"] * jnp.where(m > 0, 1 / jnp.where(m > 0, m, 1.0), 0.0)[:, None]
        return dict(v=v, m=m, c=st.world.sdfs[0].center_of_mass)

    def post(P, A, O, obs):
        dt = A["dt"][()]
        for k, x in enumerate(nodes_of(dim, kern)):
            if float(const_of(sl(O["m"])[k])) < 1e-9:
                obs.eq("empty-node[%d]" % k, sl(O["v"])[k], np.zeros(dim), 0)
                continue
            r = [x[d] - A["c"][d] - (dt * A["w"][d] if shape != "domain" else 0) for d in range(dim)]
            nn = NRM
            d = dot(r, nn)
            wv = list(A["w"])
            if shape == "moving":
                om = A["om"]
                cr = [-om[0] * r[1], om[0] * r[0]] if dim == 2 else [om[1] * r[2] - om[2] * r[1], om[2] * r[0] - om[0] * r[2], om[0] * r[1] - om[1] * r[0]]
                wv = [wv[j] + cr[j] for j in range(dim)]
            v0, v1 = list(A["v"]), list(sl(O["v"])[k])
            rn0 = dot([v0[j] - wv[j] for j in range(dim)], nn)
            inside = d < F(H) - F(1, 100)
            outside = d > F(H) + F(1, 100)
            for j in range(dim):
                obs.eq("away-unchanged[%d]" % k, v1[j], v0[j], TOL, when=outside)
            if mu == 0:                                                     # frictionless: exactly the normal part is removed
                for j in range(dim):
                    obs.eq("frictionless[%d]" % k, v1[j], v0[j] + sp.max(F(0), -rn0) * nn[j], 2 * TOL, when=inside)
                continue
            rel1 = [v1[j] - wv[j] for j in range(dim)]
            a, b = sl(P["a"])[()], list(sl(P["b"]))
            hit = sp.and_(inside, a < -F(1, 100))
            obs.eq("normal-velocity[%d]" % k, dot(rel1, nn), sp.max(a, F(0)), TOL, when=inside)
            for j in range(dim):
                obs.eq("separating-unchanged[%d]" % k, v1[j], v0[j], TOL, when=a > F(1, 1000))
            if dim == 2:
                t1 = dot(rel1, TAN[0])
                obs.eq("friction[%d]" % k, t1, b[0] - sp.min(b[0], mu * (-a)), 2 * TOL, when=sp.and_(hit, b[0] > F(1, 100)))
                obs.eq("friction[%d]" % k, t1, b[0] + sp.min(-b[0], mu * (-a)), 2 * TOL, when=sp.and_(hit, b[0] < -F(1, 100)))
        if shape != "domain":
            for j in range(dim):
                obs.eq("object-advanced", sl(O["c"])[j], A["c"][j] + dt * A["w"][j], TOL)
    p = {"a": (None, -2, 2), "b": (dim - 1, -2, 2), "r": (None, -F(3, 2), F(3, 2)), "w": (dim, -2, 2), "om": (1 if dim == 2 else 3, -2, 2)}
    if shape == "domain":
        p["w"] = (dim, 0, 0)
    if shape != "moving":
        p["om"] = (p["om"][0], 0, 0)
    return Case("step-%s-%s-%dd" % (scheme, shape, dim), p, build, fn, post, functions=["SDFCollider", "%s._get_nodes_sdfs" % scheme], typed=False, weight=4 ** dim, atol=2e-3,
                bounds="two particles, nodes with any common velocity, any object position along its normal%s; every node checked" % (" and velocity" if shape == "moving" else ""))


class Still(hdx.SDFObjectBase):
    """keeps the wrapped plane's orientation while it reports an angular velocity (rotation of objects is C12)"""
    inner: hdx.SDFObjectBase

    def signed_distance_local(self, s, p):
        return self.inner.signed_distance_local(s, p)

    def update_kinematics(self, s, dt):
        import equinox as eqx
        return eqx.tree_at(lambda q: q.center_of_mass, s, s.center_of_mass + s.velocity * dt)


def two_objects(scheme):
    """two colliders: each uses its own object"""
    dim, kern, n = 2, "linear", 1

    def build(P):
        sym = SYM[(kern, dim)][:1]
        A = {"pos": where(coords(P, n, dim, sym), [[1] * dim] * n), "mass": sl(P["mass"]), "vel": sl(P["vel"]), "w0": sl(P["w0"]), "w1": sl(P["w1"]), "dt": np.array(F(1, 100), dtype=object)}
        return A

    def fn(A):
        Snap, box = snap()
        a, b = hdx.PlaneSDF(normal=[1.0, 0.0]), hdx.PlaneSDF(normal=[0.0, 1.0])
        far = jnp.array([5.0, 5.0])                      # every node is inside both
        sts = (a.create_state(far, velocity=A["w0"]), b.create_state(far, velocity=A["w1"]))
        f = (Snap("pre"), hdx.SDFCollider(sdf_idx=1, friction=0.0), Snap("mid"), hdx.SDFCollider(sdf_idx=0, friction=0.0), Snap("post"))
        s, st = one_body(A, scheme, dim, kern, forces=f, force_states=(None,) * 5, sdfs=(a, b), sdf_states=sts, dt=A["dt"], alpha=0.5, **kw_(scheme))
        st = s(st)
        return dict(pre=box["pre"], mid=box["mid"], post=box["post"], m=box["m"])

    def post(P, A, O, obs):
        for k, x in enumerate(nodes_of(dim, kern)):
            m = sl(O["m"])[k]
            pre, mid, pst = sl(O["pre"])[k], sl(O["mid"])[k], sl(O["post"])[k]
            obs.eq("second-object[%d]" % k, mid[1], sp.max(pre[1], m * A["w1"][1]), TOL)
            obs.eq("second-object-tangent[%d]" % k, mid[0], pre[0], TOL)
            obs.eq("first-object[%d]" % k, pst[0], sp.max(mid[0], m * A["w0"][0]), TOL)
            obs.eq("first-object-tangent[%d]" % k, pst[1], mid[1], TOL)
    sym = SYM[(kern, dim)][:1]
    p = {"xi": cparam(sym, 1, F(1, 10)), "mass": (n, 1, 2), "vel": ((n, dim), -2, 2), "w0": (dim, -2, 2), "w1": (dim, -2, 2)}
    return Case("two-objects-%s" % scheme, p, build, fn, post, functions=["SDFCollider", "%s._get_nodes_sdfs" % scheme], typed=False, weight=16,
                bounds="one particle (1 coordinate symbolic), frictionless planes moving with any velocities, all nodes inside both")
