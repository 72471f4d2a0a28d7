"""virtual work, torque and angular momentum of the transfers"""
from .steps import *
from .c04 import Push

SUB = lambda kern: 2 if kern == "quadratic" else 1
SYM = {("linear", 1): [(0, 0), (1, 0)], ("linear", 2): [(0, 0), (0, 1), (1, 0)], ("linear", 3): [(0, 0), (0, 2), (1, 1)], ("quadratic", 1): [(0, 0), (1, 0)],
       ("quadratic", 2): [(0, 0), (0, 1), (1, 0)], ("cubic", 1): [(0, 0)], ("cubic", 2): [(0, 1), (1, 0)], ("quadratic", 3): [(0, 1)], ("cubic", 3): [(0, 2)]}
KS = [("linear", 1), ("linear", 2), ("linear", 3), ("quadratic", 1), ("quadratic", 2), ("cubic", 2)]
# cells that leave part of the stencil outside the grid (linear: a point outside the declared domain, next to it)
CUT = {"linear": [-1, 2], "quadratic": [0, 5], "cubic": [0, 2]}


def cases(tier, seed):
    out = []
    ks = KS + ([("quadratic", 3), ("cubic", 3)] if tier == "thorough" else [])
    for scheme in ("usl", "aflip"):
        for k, d in ks:
            out.append(power(scheme, k, d))
        for k, d in [("linear", 2), ("quadratic", 2), ("cubic", 2)] + ([("linear", 3), ("quadratic", 3)] if tier == "thorough" else []):
            for w in (0, 1):
                out.append(power(scheme, k, d, cut=w))
        for k, d in [x for x in ks if x[1] > 1]:
            out.append(torque(scheme, k, d))
            out.append(spin(scheme, k, d))
        out.append(two_bodies(scheme))
    for k, d in [("quadratic", 2), ("cubic", 2)] + ([("quadratic", 3)] if tier == "thorough" else []):
        out.append(apic_step(k, d))
    return out


def nodes(dim, n):
    return np.array([[F(O0[d]) + F(H) * k[d] for d in range(dim)] for k in np.ndindex(*(n,) * dim)], dtype=object)


def cells(kern, dim, n, cut):
    c = [[SUB(kern)] * dim for _ in range(n)]          # counted in cells (quadratic: half cells)
    if cut is not None:
        c[0][cut % dim] = CUT[kern][cut]
        c[1][-1] = CUT[kern][1 - cut]
    return c


def place(P, kern, dim, n, sym, cut):
    """positions from in-cell coordinates (quadratic: in half a cell, where the stencil does not change)"""
    s = SUB(kern)
    xi = coords(P, n, dim, sym, s)
    cc = cells(kern, dim, n, cut)
    off = np.array([[F(cc[i][d], s) for d in range(dim)] for i in range(n)], dtype=object)
    return np.array([[F(O0[d]) + (xi[i, d] + off[i, d]) * F(H) for d in range(dim)] for i in range(n)], dtype=object)


def setfield(V):
    import equinox as eqx

    class SetField(hdx.Force):
        """any grid velocity (unit node masses, so that momentum is velocity)"""
        def apply_grid_moments(self, world, mechanics, cache, sdf_logics, couplings, domains, dt, time):
            gs = tuple(eqx.tree_at(lambda s: (s.mass_stack, s.moment_nt_stack), g, (jnp.ones_like(g.mass_stack), V)) for g in cache.grids)
            return world, mechanics, eqx.tree_at(lambda c: c.grids, cache, gs)
    return SetField()


def power(scheme, kern, dim, cut=None):
    n = 2
    gs = SIZE[kern]
    sym = SYM[(kern, dim)]
    touched = None

    def build(P):
        A = {"pos": place(P, kern, dim, n, sym, cut), "mass": sl(P["mass"]), "vol": sl(P["vol"]), "vel": np.full((n, dim), F(1, 3), dtype=object),
             "stress": np.array([sl(P["s"])[i] for i in range(n)], dtype=object), "extf": sl(P["f"]), "V": sl(P["V"])}
        return A

    def fn(A):
        probe, box = hooks()
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        s, st = one_body(A, scheme, dim, kern, forces=(Push(A["extf"]), probe, setfield(A["V"])), force_states=(None,) * 3, alpha=0.0, n=gs, dt=1e-3, **kw)
        st = s(st)
        mp = st.world.material_points[0]
        return dict(f=box["before"][0].force_stack, L=mp.L_stack, v=mp.velocity_stack)

    def post(P, A, O, obs):
        grid = dot(O["f"].reshape(-1), A["V"].reshape(-1))
        ext = dot(A["extf"].reshape(-1), O["v"].reshape(-1))
        work = F(0)
        for i in range(n):
            # library's velocity gradients are compression-positive, as are its stresses
            work = work + A["vol"][i] * sum((A["stress"][i, a, b] * O["L"][i, a, b] for a in range(3) for b in range(3)), F(0))
        obs.eq("nodal-power", grid, ext - work, 20 * TOL)
    p = {"xi": cparam(sym, SUB(kern)), "mass": (n, 1, 5), "vol": (n, F(1, 10), 2), "s": ((n, 3, 3), -5, 5), "f": ((n, dim), -5, 5),
         "V": ((gs ** dim, dim), -5, 5)}
    return Case("power-%s-%s-%dd%s" % (scheme, kern, dim, "" if cut is None else "-cut%d" % cut), p, build, fn, post, functions=["%s._p2g" % scheme, "%s._g2p" % scheme],
                typed=False, weight=3 ** dim, pre=lambda P, A: open_cell(P, SUB(kern)),
                bounds="2 particles (%d of %d coordinates symbolic%s), any velocity at every node, any stress tensor, volume, external force" % (
                    len(sym), 2 * dim, "" if cut is None else ", stencils cut by the grid boundary"))


def cross(a, b, dim):
    if dim == 2:
        return [a[0] * b[1] - a[1] * b[0]]
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def moment(X, Q, dim):
    r = None
    for x, q in zip(X, Q):
        c = cross(x, q, dim)
        r = c if r is None else [u + v for u, v in zip(r, c)]
    return r


def torque(scheme, kern, dim):
    n = 2
    sym = SYM[(kern, dim)]
    gs = SIZE[kern]

    def build(P):
        return {"pos": place(P, kern, dim, n, sym, None), "mass": sl(P["mass"]), "vol": sl(P["vol"]), "vel": np.full((n, dim), F(1, 3), dtype=object),
                "stress": np.array([sym3(P, "s", i) for i in range(n)], dtype=object), "extf": sl(P["f"])}

    def fn(A):
        probe, box = hooks()
        s, st = one_body(A, scheme, dim, kern, forces=(Push(A["extf"]), probe), force_states=(None,) * 2, n=gs, dt=1e-3)
        s(st)
        return dict(f=box["before"][0].force_stack)

    def post(P, A, O, obs):
        got = moment(nodes(dim, gs), O["f"], dim)
        want = moment(A["pos"], A["extf"], dim)
        for k in range(len(got)):
            obs.eq("torque", got[k], want[k], 10 * TOL)
    p = {"xi": cparam(sym, SUB(kern)), "mass": (n, 1, 5), "vol": (n, F(1, 10), 2), "s": ((n, 6), -5, 5), "f": ((n, dim), -5, 5)}
    return Case("torque-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, functions=["%s._p2g" % scheme], typed=False, weight=2 ** dim,
                pre=lambda P, A: open_cell(P, SUB(kern)),
                bounds="2 particles (%d of %d coordinates symbolic), any symmetric stress, volume, external force" % (len(sym), 2 * dim))


def second(kern, pos, dim):
    """diagonal of sum_i N_i (x_i - x_p)(x_i - x_p)^T"""
    if kern == "linear":             # depends on where in its cell the particle is
        out = []
        for d in range(dim):
            t = (pos[d] - F(O0[d])) / F(H)
            x = t - 1                     # reference cell
            out.append(F(H) * F(H) * x * (1 - x))
        return out
    return [F(H) * F(H) * (F(1, 4) if kern == "quadratic" else F(1, 3))] * dim


def own(Bp, D, m, dim, sgn=-1):
    """angular momentum of the affine part, minus sign: compression-positive affine matrix"""
    # sum_i N_i d x (sgn * B d) with sum_i N_i d_a d_b = D_a delta_ab:   (d x Bd)_c = eps_cab d_a B_be d_e -> eps_cab D_a B_ba
    if dim == 2:
        return [sgn * m * (D[0] * Bp[1, 0] - D[1] * Bp[0, 1])]
    return [sgn * m * (D[a] * Bp[b, a] - D[b] * Bp[a, b]) for a, b in ((1, 2), (2, 0), (0, 1))]


def spin(scheme, kern, dim):
    n = 2
    sym = SYM[(kern, dim)]
    gs = SIZE[kern]

    def build(P):
        A = {"pos": place(P, kern, dim, n, sym, None), "mass": sl(P["mass"]), "vel": sl(P["vel"])}
        if scheme == "aflip":
            A["Bp"] = sl(P["Bp"])
        return A

    def fn(A):
        probe, box = hooks()
        s, st = one_body(A, scheme, dim, kern, forces=(probe,), force_states=(None,), n=gs, dt=1e-3, Bp=A.get("Bp"))
        s(st)
        return dict(p=box["before"][0].moment_stack)

    def post(P, A, O, obs):
        got = moment(nodes(dim, gs), O["p"], dim)
        want = moment(A["pos"], [[A["mass"][i] * v for v in A["vel"][i]] for i in range(n)], dim)
        if scheme == "aflip":
            for i in range(n):
                want = [a + b for a, b in zip(want, own(A["Bp"][i], second(kern, A["pos"][i], dim), A["mass"][i], dim))]
        for k in range(len(got)):
            obs.eq("angular-momentum", got[k], want[k], 10 * TOL)
    p = {"xi": cparam(sym, SUB(kern)), "mass": (n, F(1, 10), 5), "vel": ((n, dim), -5, 5)}
    if scheme == "aflip":
        p["Bp"] = ((n, 3, 3), -5, 5)
    return Case("spin-%s-%s-%dd" % (scheme, kern, dim), p, build, fn, post, functions=["%s._p2g" % scheme], typed=False, weight=2 ** dim,
                pre=lambda P, A: open_cell(P, SUB(kern)),
                bounds="2 particles (%d of %d coordinates symbolic), any velocity, mass%s" % (len(sym), 2 * dim, ", affine state" if scheme == "aflip" else ""))


def two_bodies(scheme):
    """two bodies on one grid, linear in 2D: the shared nodes carry the power of both"""
    kern, dim, gs = "linear", 2, 3

    def build(P):
        A = {"V": sl(P["V"])}
        for k, q in enumerate("ab"):
            A[q + "pos"] = where(P[q + "xi"], [[1] * dim])
            for z in ("mass", "vol"):
                A[q + z] = sl(P[q + z])
            A[q + "vel"] = np.full((1, dim), F(1, 3), dtype=object)
            A[q + "stress"] = sl(P[q + "s"])
        return A

    def fn(A):
        probe, box = hooks()
        sm = hdx.ShapeFunctionMapping(kern, dim)
        kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
        cp = tuple(BodyCoupling(shape_map=sm, p_idx=i, g_idx=0, c_idx=i, s_idx=i) for i in (0, 1))
        s = solver(scheme, dim, kern, [domain(dim, gs)], [Inert(), Inert()], (probe, setfield(A["V"])), cp, alpha=0.0, **kw)
        mps = [mp_state(A, "a"), mp_state(A, "b")]
        st = s(sim_state(mps, [None, None], [s.create_state(m) for m in mps], (None, None), dt=1e-3))
        return dict(f=box["before"][0].force_stack, La=st.world.material_points[0].L_stack, Lb=st.world.material_points[1].L_stack)

    def post(P, A, O, obs):
        work = F(0)
        for q in "ab":
            work = work + A[q + "vol"][0] * sum((A[q + "stress"][0, a, b] * O["L" + q][0, a, b] for a in range(3) for b in range(3)), F(0))
        obs.eq("nodal-power", dot(O["f"].reshape(-1), A["V"].reshape(-1)), -work, 20 * TOL)
    p = {"V": ((gs ** dim, dim), -5, 5)}
    for q in "ab":
        p.update({q + "xi": ((1, dim), 0, 1), q + "mass": (1, 1, 5), q + "vol": (1, F(1, 10), 2), q + "s": ((1, 3, 3), -5, 5)})
    return Case("power-shared-%s" % scheme, p, build, fn, post, functions=["%s._p2g" % scheme, "%s._g2p" % scheme], typed=False, weight=6,
                pre=lambda P, A: open_cell(P, 1, ("axi", "bxi")), bounds="two bodies of one particle each on one grid, any nodal velocities")


def apic_step(kern, dim):
    """a whole step of the classic affine update without blending keeps linear plus affine angular momentum"""
    n = 2
    sym = [(0, dim - 1)]
    gs = SIZE[kern]
    mg = F(1, 20) if kern == "quadratic" else F(1, 5)

    def build(P):
        A = {"pos": place(P, kern, dim, n, sym, None), "mass": sl(P["mass"]), "vel": sl(P["vel"]), "vol": sl(P["vol"]),
             "stress": np.array([sym3(P, "s", i) for i in range(n)], dtype=object), "dt": sl(P["dt"])}
        B = np.zeros((n, 3, 3), dtype=object)
        B[:, :dim, :dim] = sl(P["Bp"])
        A["Bp"] = B
        A["F"] = np.zeros((n, 3, 3), dtype=object)      # deformation plays no part here (and so its determinant stays a number)
        return A

    def fn(A):
        s, st = one_body(A, "aflip", dim, kern, n=gs, Bp=A["Bp"], alpha=0.0, use_dynamic_alpha=False, cfl_limit=1e9, use_mls_update=False,
                         beta_min=0.25, beta_max=0.25)
        st = s(st)
        mp = st.world.material_points[0]
        return dict(x=mp.position_stack, v=mp.velocity_stack, B=st.mechanics.solvers[0].Bp_stack)

    def post(P, A, O, obs):
        def L(x, v, B):
            t = moment(x, [[A["mass"][i] * u for u in v[i]] for i in range(n)], dim)
            for i in range(n):
                t = [a + b for a, b in zip(t, own(B[i], second(kern, [None] * dim, dim), A["mass"][i], dim))]
            return t
        a, b = L(A["pos"], A["vel"], A["Bp"]), L(O["x"], O["v"], O["B"])
        for k in range(len(a)):
            obs.eq("angular-momentum-of-step", b[k], a[k], 20 * TOL)
    p = {"xi": cparam(sym, SUB(kern), mg), "mass": (n, 1, 5), "vol": (n, F(1, 10), 2), "vel": ((n, dim), -5, 5), "s": ((n, 6), -5, 5), "Bp": ((n, dim, dim), -2, 2),
         "dt": (None, F(1, 1000), F(1, 10))}
    return Case("step-apic-%s-%dd" % (kern, dim), p, build, fn, post, functions=["aflip.__call__"], typed=False, weight=3 ** dim,
                pre=lambda P, A: open_cell(P, SUB(kern)),
                bounds="2 particles (%d of %d coordinates symbolic), away from cell faces so that all touched nodes exceed the mass cutoff, any velocity, stress, "
                       "affine state, dt; classic affine update, no blending, speed limiter off" % (len(sym), 2 * dim))
