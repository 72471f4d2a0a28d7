"""builder wiring: the assembled solver treats each body as one wired by hand, whatever the order of registration"""
import itertools
from .steps import *
import equinox as eqx

TOL = F(1, 1000)
DIM = 2
DOM = {"A": lambda: hdx.GridDomain.create((-0.5, 0.25), (0.5, 1.25), 0.5, padding=0), "B": lambda: hdx.GridDomain.create((-1.0, 0.0), (0.5, 1.5), 0.75, padding=0),
       "C": lambda: hdx.GridDomain.create((0.0, 0.25), (1.0, 1.25), 0.5, padding=0)}
POS = {"a": (0.125, 0.5), "b": (0.0625, 0.875), "c": (0.3125, 0.6875)}
MASS = {"a": 1.5, "b": 0.5, "c": 2.0}
VOL = {"a": 0.25, "b": 0.125, "c": 0.5}
CK = {"a": 3.0, "b": 5.0, "c": 7.0}
DT = 0.0625
NAMES = ("pos", "vel", "stress", "L", "F", "vol")


class TagState(hdx.ConstitutiveLawState):
    k: jax.Array


class Tag(hdx.ConstitutiveLaw):
    """material whose parameter and history show in the stress: wrong law or wrong history is visible"""
    c: float = 0.0

    def update(self, mp, ls, dt):
        s = mp.stress_stack + self.c * jnp.eye(3) + ls.k[:, None, None] * mp.L_stack
        return eqx.tree_at(lambda m: m.stress_stack, mp, s), TagState(k=ls.k + self.c * dt)


def cases(tier, seed):
    out = []
    for scheme in ("usl", "aflip"):
        for pp, lp, gp, cp in itertools.product((0, 1), repeat=4):
            out.append(order(scheme, pp, lp, gp, cp))
        for where_ in (0, 1, 2):
            for cpos in (0, 1, 2):
                out.append(rigid(scheme, where_, cpos))
        for perm in itertools.permutations(range(3)):
            out.append(share(scheme, perm))
        for sel in (0, 1):
            out.append(subset(scheme, sel))
        for od in ((0, 1), (1, 0)):
            out.append(two_solvers(scheme, od))
        for perm in itertools.permutations(range(3)):
            out.append(forces(scheme, perm, True))
        out.append(forces(scheme, (0, 1, 2), False))
        out.append(forces(scheme, (2, 1, 0), False))
        for keep in ((0,), (1,), (2,), (0, 2)):
            out.append(force_subset(scheme, keep))
        for mu in (0.0, 0.25, 1.0):
            for which in (0, 1):
                out.append(collider(scheme, mu, which, None))
        for which in (0, 1):
            out.append(collider(scheme, 0.25, which, [which]))
        out.append(schemes(scheme))
        for before in ("", "g", "gd", "dgd"):
            out.append(default(scheme, before))
        out.append(default(scheme, "", 3))
        out.append(default(scheme, "d", 1))
        for x in (("a", "ba", "CBA"), ("ab", "b", "ACB"), ("cab", "ab", "B"), ("abc", "ab", "A")):
            out.append(unequal(scheme, *x))
    return out


def args(P, bodies):
    A = {}
    for b in bodies:
        A[b + "pos"] = np.array([[F(x) for x in POS[b]]], dtype=object)
        A[b + "vel"], A[b + "k"] = sl(P[b + "vel"]).reshape(1, DIM), sl(P[b + "k"]).reshape(1)
        A[b + "stress"] = sym3(P, b + "s").reshape(1, 3, 3)
        A[b + "Bp"] = pad(sl(P[b + "Bp"]))
    return A


def pad(m):
    o = np.zeros((1, 3, 3), dtype=object) + F(0)
    o[0, :DIM, :DIM] = m
    return o


def params(bodies):
    p = {}
    for b in bodies:
        p.update({b + "vel": (DIM, -5, 5), b + "k": (None, -2, 2), b + "s": (6, -5, 5), b + "Bp": ((DIM, DIM), -3, 3)})
    return p


def kws(scheme):
    return dict(alpha=0.75) if scheme == "usl" else dict(alpha=0.75, use_dynamic_alpha=False, cfl_limit=1e9)


def mpargs(A, b):
    return dict(position_stack=A[b + "pos"], velocity_stack=A[b + "vel"], stress_stack=A[b + "stress"], mass_stack=jnp.full(1, MASS[b]), volume_stack=jnp.full(1, VOL[b]))


def direct(A, scheme, plan, forces=(), force_states=(), sdfs=(), sdf_states=(), kw=None, nsteps=1):
    """plan: [(body, grid name)], wired by hand; shared grids are listed once"""
    gn = sorted({g for _, g in plan})
    mps = [hdx.MaterialPointState.create(**mpargs(A, b)) for b, _ in plan]
    cp = tuple(BodyCoupling(shape_map=hdx.ShapeFunctionMapping("linear", DIM), p_idx=i, g_idx=gn.index(g), c_idx=i, s_idx=i) for i, (_, g) in enumerate(plan))
    s = solver(scheme, DIM, "linear", [DOM[g]() for g in gn], [Tag(c=CK[b]) for b, _ in plan], forces, cp, sdfs, **(kws(scheme) if kw is None else kw))
    ss = [hdx.USLAFLIPState(Bp_stack=A[b + "Bp"]) if scheme == "aflip" else s.create_state(m) for m, (b, _) in zip(mps, plan)]
    st = sim_state(mps, [TagState(k=A[b + "k"]) for b, _ in plan], ss, force_states, sdf_states, DT)
    for _ in range(nsteps):
        st = s(st)
    return {b: view(st, i, i, i, scheme) for i, (b, _) in enumerate(plan)}


def view(st, p, c, s, scheme):
    o = {k: v for k, v in out_mp(st.world.material_points[p]).items() if k in NAMES}
    o["k"] = st.mechanics.constitutive_laws[c].k
    if scheme == "aflip":
        o["Bp"] = st.mechanics.solvers[s].Bp_stack
    return o


class B:
    """assembly through the builder, remembering what was registered under which index"""

    def __init__(self, A, scheme):
        self.A, self.scheme, self.b = A, scheme, hdx.SimBuilder()
        self.p, self.c, self.g, self.k = {}, {}, {}, {}

    def body(self, b):
        self.p[b] = self.b.add_material_points(**mpargs(self.A, b))

    def law(self, b):
        self.c[b] = self.b.add_constitutive_law(law=Tag(c=CK[b]), law_state=TagState(k=self.A[b + "k"]))

    def grid(self, g):
        self.g[g] = self.b.add_grid(grid_domain=DOM[g]())

    def couple(self, b, g):
        self.k[b] = self.b.couple(p_idx=self.p[b], g_idx=self.g[g], c_idx=self.c[b], shapefunction="linear")

    def start(self, st, solvers=None):
        """initial affine matrices of each body"""
        if self.scheme != "aflip":
            return st
        ss = list(st.mechanics.solvers)
        for b, k in self.k.items():
            s = self.b.couplings[k].s_idx
            if ss[s] is not None:
                ss[s] = eqx.tree_at(lambda x: x.Bp_stack, ss[s], self.A[b + "Bp"])
        return eqx.tree_at(lambda x: x.mechanics.solvers, st, tuple(ss))

    def build(self, **kw):
        self.b.set_solver(scheme={"usl": "usl", "aflip": "usl_aflip"}[self.scheme], **{**kws(self.scheme), **kw})
        s, st = self.b.build(dt=DT)
        return s, self.start(st)

    def view(self, st, b):
        return view(st, self.p[b], self.c[b], self.b.couplings[self.k[b]].s_idx, self.scheme)


def flat(o, r):
    return {**{"o_%s_%s" % (b, k): v for b in o for k, v in o[b].items()}, **{"r_%s_%s" % (b, k): v for b in r for k, v in r[b].items()}}


def same(P, A, O, obs):
    for k in O:
        if k.startswith("o_"):
            obs.eq("as-wired-by-hand-" + k[2:], O[k], O["r_" + k[2:]], TOL)


def mk(name, bodies, fn, bounds, extra=None, pre=None, post=same, more=None):
    p = params(bodies)
    p.update(extra or {})

    def build(P):
        A = args(P, bodies)
        for k in extra or {}:
            A[k] = sl(P[k])
        return A
    return Case(name, p, build, fn, post, pre=pre, functions=["SimBuilder.couple", "SimBuilder.set_solver", "SimBuilder.build"], typed=False,
                bounds=bounds + "; one-particle bodies, any velocity, stress, history, affine matrix", atol=2e-3)


def perm2(xs, k):
    return xs if k == 0 else xs[::-1]


def order(scheme, pp, lp, gp, cp):
    def fn(A):
        w = B(A, scheme)
        for b in perm2("ab", pp):
            w.body(b)
        for b in perm2("ab", lp):
            w.law(b)
        for g in perm2("AB", gp):
            w.grid(g)
        for b in perm2("ab", cp):
            w.couple(b, b.upper())
        s, st = w.build()
        st = s(st)
        return flat({b: w.view(st, b) for b in "ab"}, direct(A, scheme, [("a", "A"), ("b", "B")]))
    return mk("order-%s-%d%d%d%d" % (scheme, pp, lp, gp, cp), "ab", fn, "two bodies on two grids; bodies, laws, grids, couplings %s" % "/".join("reversed" if x else "in order" for x in (pp, lp, gp, cp)))


def rigid(scheme, at, cat):
    """a rigid body registered as the at-th body and coupled as the cat-th coupling"""
    def fn(A):
        w = B(A, scheme)
        names = list("ab")
        names.insert(at, "r")
        rp = None
        for b in names:
            if b == "r":
                rp = w.b.add_material_points(position_stack=jnp.array([[0.25, 0.5]]), is_rigid=True)
            else:
                w.body(b)
        for b in "ba":
            w.law(b)
        for g in "BA":
            w.grid(g)
        cn = list("ab")
        cn.insert(cat, "r")
        for b in cn:
            if b == "r":
                w.b.couple(p_idx=rp, g_idx=w.g["A"], shapefunction="linear")
            else:
                w.couple(b, b.upper())
        s, st = w.build()
        st = s(st)
        o = {b: w.view(st, b) for b in "ab"}
        r = direct(A, scheme, [("a", "A"), ("b", "B")])
        return dict(flat(o, r), o_rigid=st.world.material_points[rp].position_stack, r_rigid=jnp.array([[0.25, 0.5]]))
    return mk("rigid-%s-%d%d" % (scheme, at, cat), "ab", fn, "a rigid body among two deformable ones")


def share(scheme, perm):
    """a and c share a grid, b has its own"""
    def fn(A):
        w = B(A, scheme)
        bs = ["abc"[i] for i in perm]
        for b in bs:
            w.body(b)
        for b in "cab":
            w.law(b)
        for g in perm2("AB", perm[0] % 2):
            w.grid(g)
        for b in bs[1:] + bs[:1]:
            w.couple(b, {"a": "A", "c": "A", "b": "B"}[b])
        s, st = w.build()
        st = s(st)
        return flat({b: w.view(st, b) for b in "abc"}, direct(A, scheme, [("a", "A"), ("b", "B"), ("c", "A")]))
    return mk("share-%s-%s" % (scheme, "".join(map(str, perm))), "abc", fn, "three bodies, two of them sharing a grid")


def subset(scheme, sel):
    """a solver for one coupling only: the other body is left alone"""
    def fn(A):
        w = B(A, scheme)
        for b in "ab":
            w.body(b)
            w.law(b)
            w.grid(b.upper())
            w.couple(b, b.upper())
        s, st = w.build(b_idx_list=[sel])
        st = s(st)
        x, y = "ab"[sel], "ab"[1 - sel]
        o = {x: w.view(st, x)}
        r = direct(A, scheme, [(x, x.upper())])
        mp = st.world.material_points[w.p[y]]
        return dict(flat(o, r), o_left_pos=mp.position_stack, r_left_pos=A[y + "pos"], o_left_vel=mp.velocity_stack, r_left_vel=A[y + "vel"],
                    o_left_stress=mp.stress_stack, r_left_stress=A[y + "stress"], o_left_k=st.mechanics.constitutive_laws[w.c[y]].k, r_left_k=A[y + "k"])
    return mk("subset-%s-%d" % (scheme, sel), "ab", fn, "solver for coupling %d of two" % sel)


def two_solvers(scheme, od):
    def fn(A):
        w = B(A, scheme)
        for b in "ab":
            w.body(b)
            w.law(b)
            w.grid(b.upper())
            w.couple(b, b.upper())
        sch = {"usl": "usl", "aflip": "usl_aflip"}[scheme]
        for i in od:
            w.b.set_solver(scheme=sch, b_idx_list=[i], **kws(scheme))
        ss, st = w.b.build(dt=DT)
        st = w.start(st)
        for s in ss:
            st = s(st)
        return flat({b: w.view(st, b) for b in "ab"}, direct(A, scheme, [("a", "A"), ("b", "B")]))
    return mk("solvers-%s-%d%d" % ((scheme,) + od), "ab", fn, "one solver per body, set in the order %s and run in turn" % (od,))


def FP():
    return {"g": (DIM, -20, 20), "al": (None, 0, 1), "c": ((2, DIM), -1, 1), "w": ((2, DIM), -2, 2)}


def sdf_(k):
    return (hdx.PlaneSDF(normal=jnp.array([0.0, 1.0])), hdx.PlaneSDF(normal=jnp.array([1.0, 0.0])))[k]


def forces(scheme, perm, grid):
    """gravity on a's grid, damping on b's grid, frictionless collider on b's grid, registered in any order"""
    def fn(A):
        w = B(A, scheme)
        for b in "ba":
            w.body(b)
            w.law(b)
            w.grid(b.upper())
        for b in "ab":
            w.couple(b, b.upper())
        si = [w.b.add_sdf_object(sdf_logic=sdf_(k), center_of_mass=A["c"][k], velocity=A["w"][k]) for k in range(2)]
        for i in perm:
            if i == 0:
                w.b.add_gravity(gravity=A["g"], is_apply_on_grid=grid, g_idx_list=[w.g["A"]], p_idx_list=[w.p["a"]])
            elif i == 1:
                w.b.add_damping(alpha=A["al"], is_apply_on_grid=grid, g_idx_list=[w.g["B"]], p_idx_list=[w.p["b"]])
            else:
                w.b.add_sdf_collider(sdf_idx=si[1], g_idx_list=[w.g["B"]], friction=0.0)
        s, st = w.build()
        st = s(st)
        o = {b: w.view(st, b) for b in "ab"}
        fs = [hdx.Gravity(is_apply_on_grid=grid, g_idx_list=[0], p_idx_list=[0], f_idx=0), hdx.Damping(is_apply_on_grid=grid, g_idx_list=[1], p_idx_list=[1], f_idx=1),
              hdx.SDFCollider(sdf_idx=1, g_idx_list=[1], friction=0.0)]
        ss = [sdf_(k).create_state(A["c"][k], velocity=A["w"][k]) for k in range(2)]
        r = direct(A, scheme, [("a", "A"), ("b", "B")], fs, [fs[0].create_state(A["g"]), fs[1].create_state(A["al"]), None], [sdf_(0), sdf_(1)], ss)
        return dict(flat(o, r), o_sdf=jnp.stack([x.center_of_mass for x in st.world.sdfs]), r_sdf=A["c"] + DT * A["w"])
    return mk("forces-%s-%s-%s" % (scheme, "".join(map(str, perm)), "grid" if grid else "particles"), "ab", fn, "gravity, damping and a collider registered in the order %s" % (perm,), FP())


def force_subset(scheme, keep):
    """only the selected forces act"""
    def fn(A):
        w = B(A, scheme)
        w.body("a"), w.law("a"), w.grid("A"), w.couple("a", "A")
        si = w.b.add_sdf_object(sdf_logic=sdf_(0), center_of_mass=A["c"][0], velocity=A["w"][0])
        ids = [w.b.add_sdf_collider(sdf_idx=si, friction=0.0), w.b.add_gravity(gravity=A["g"]), w.b.add_damping(alpha=A["al"])]
        s, st = w.build(f_idx_list=[ids[i] for i in keep])
        st = s(st)
        fs = [hdx.SDFCollider(sdf_idx=0, g_idx_list=[0], friction=0.0), hdx.Gravity(is_apply_on_grid=True, f_idx=1), hdx.Damping(is_apply_on_grid=True, f_idx=2)]
        r = direct(A, scheme, [("a", "A")], [fs[i] for i in keep], [None, fs[1].create_state(A["g"]), fs[2].create_state(A["al"])], [sdf_(0)],
                   [sdf_(0).create_state(A["c"][0], velocity=A["w"][0])])
        return flat({"a": w.view(st, "a")}, r)
    return mk("select-forces-%s-%s" % (scheme, "".join(map(str, keep))), "a", fn, "forces %s of collider, gravity, damping selected" % (keep,), FP())


def collider(scheme, mu, which, sel):
    """friction, object and object selection given to the builder are in effect"""
    def fn(A):
        w = B(A, scheme)
        w.body("a"), w.law("a"), w.grid("B"), w.grid("A"), w.couple("a", "A")
        si = [w.b.add_sdf_object(sdf_logic=sdf_(k), center_of_mass=jnp.array([-3.0, -3.0]).at[1 - k].set(0.5), velocity=A["w"][k]) for k in range(2)]
        w.b.add_sdf_collider(sdf_idx=si[which], friction=mu, gap=0.25)
        s, st = w.build(**({} if sel is None else {"sdf_idx_list": sel}))
        st = s(st)
        fs = [hdx.SDFCollider(sdf_idx=which, g_idx_list=[0], friction=mu, gap=0.25)]
        ss = [sdf_(k).create_state(jnp.array([-3.0, -3.0]).at[1 - k].set(0.5), velocity=A["w"][k]) for k in range(2)]
        r = direct(A, scheme, [("a", "A")], fs, [None], [sdf_(0), sdf_(1)], ss)
        out = flat({"a": w.view(st, "a")}, r)
        for k in range(2):
            out["o_sdf%d" % k] = st.world.sdfs[k].center_of_mass
            out["r_sdf%d" % k] = ss[k].center_of_mass + (DT * A["w"][k] if sel is None or k in sel else 0.0)
        return out
    p = FP()
    del p["c"], p["g"], p["al"]
    return mk("collider-%s-mu%d-%d%s" % (scheme, int(100 * mu), which, "-sel" if sel else ""), "a", fn, "friction %g, object %d of two%s" % (mu, which, ", selected" if sel else ""), p)


def schemes(scheme):
    """scheme parameters given to the builder reach the scheme"""
    kw = dict(alpha=0.25, sdf_mp_sharpness=10.0) if scheme == "usl" else dict(alpha=0.25, use_dynamic_alpha=True, alpha_support_min=0.5, alpha_support_max=2.0, beta_min=0.125, beta_max=0.75,
                                                                              use_mls_update=False, small_mass_cutoff=0.125, cfl_limit=0.375)

    def fn(A):
        w = B(A, scheme)
        w.body("a"), w.law("a"), w.grid("A"), w.couple("a", "A")
        s, st = w.build(**kw)
        st = s(st)
        r = direct(A, scheme, [("a", "A")], kw=kw)
        out = flat({"a": w.view(st, "a")}, r)
        for k, v in kw.items():
            out["o_par_" + k], out["r_par_" + k] = jnp.asarray(float(getattr(s, k))), jnp.asarray(float(v))
        return out
    c = mk("scheme-%s" % scheme, "a", fn, "non-default scheme parameters")
    if scheme == "aflip":            # velocity limiter: keep the state in one branch
        c.params["avel"] = (DIM, F(1, 10), F(1, 2))
        c.params["as"] = (6, F(-1, 10), F(1, 10))
        c.params["aBp"] = ((DIM, DIM), 0, 0)
    return c


def default(scheme, before="g", nobj=2):
    """indices left out mean the entities registered last (bodies, grids, laws, objects) or all registered so far (forces)"""
    def fn(A):
        w = B(A, scheme)
        for b in "ab":
            w.body(b), w.law(b), w.grid(b.upper())
            w.k[b] = w.b.couple(shapefunction="linear")
        for k in range(nobj):
            w.b.add_sdf_object(sdf_logic=sdf_((k + nobj) % 2), center_of_mass=A["c"][k], velocity=A["w"][k])
        for f in before:
            w.b.add_gravity(gravity=A["g"]) if f == "g" else w.b.add_damping(alpha=A["al"])
        w.b.add_sdf_collider(friction=0.0)
        w.b.set_solver(scheme={"usl": "usl", "aflip": "usl_aflip"}[scheme], **kws(scheme))
        s, st = w.b.build(time=0.5, step=7, dt=DT)
        st = s(w.start(st))
        fs = [(hdx.Gravity if f == "g" else hdx.Damping)(is_apply_on_grid=True, g_idx_list=[0, 1], f_idx=i) for i, f in enumerate(before)]
        fst = [f.create_state(A["g"] if n == "g" else A["al"]) for f, n in zip(fs, before)] + [None]
        fs = fs + [hdx.SDFCollider(sdf_idx=nobj - 1, g_idx_list=[0, 1], friction=0.0)]
        lg = [sdf_((k + nobj) % 2) for k in range(nobj)]
        ss = [lg[k].create_state(A["c"][k], velocity=A["w"][k]) for k in range(nobj)]
        r = direct(A, scheme, [("a", "A"), ("b", "B")], fs, fst, lg, ss)
        return dict(flat({b: w.view(st, b) for b in "ab"}, r), o_time=jnp.asarray(st.time), r_time=jnp.asarray(0.5 + DT), o_step=jnp.asarray(st.step), r_step=jnp.asarray(8),
                    o_dt=jnp.asarray(st.dt), r_dt=jnp.asarray(DT))
    p = FP()
    p["c"], p["w"] = ((nobj, DIM), -1, 1), ((nobj, DIM), -2, 2)
    if "d" not in before:
        del p["al"]
    if "g" not in before:
        del p["g"]
    return mk("defaults-%s-%s-%dobjects" % (scheme, before or "none", nobj), "ab", fn, "indices left to their defaults, forces %r and %d objects registered before the collider" % (before, nobj), p)


def unequal(scheme, bodies, laws, grids):
    """defaults of a coupling when the registries hold different numbers of entries"""
    def fn(A):
        w = B(A, scheme)
        for b in bodies:
            w.body(b)
        for b in laws:
            w.law(b)
        for g in grids:
            w.grid(g)
        b = bodies[-1]
        w.k[b] = w.b.couple(shapefunction="linear")
        w.c[b] = w.c[laws[-1]]
        s, st = w.build()
        st = s(st)
        A2 = dict(A)
        return flat({b: w.view(st, b)}, {b: direct_law(A2, scheme, b, laws[-1], grids[-1])})
    return mk("unequal-%s-%s-%s-%s" % (scheme, bodies, laws, grids), "abc", fn, "defaults of a coupling with %d bodies, %d laws and %d grids registered" % (len(bodies), len(laws), len(grids)))


def direct_law(A, scheme, b, c, g):
    """one body wired by hand to another body's law and history"""
    mp = hdx.MaterialPointState.create(**mpargs(A, b))
    s = solver(scheme, DIM, "linear", [DOM[g]()], [Tag(c=CK[c])], (), None, (), **kws(scheme))
    ss = hdx.USLAFLIPState(Bp_stack=A[b + "Bp"]) if scheme == "aflip" else s.create_state(mp)
    return view(s(sim_state([mp], [TagState(k=A[c + "k"])], [ss], (), (), DT)), 0, 0, 0, scheme)
