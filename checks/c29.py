"""axis permutations and reflections of whole steps"""
import itertools
from .steps import *
from .c05 import FPAR
from .c06 import MG
from .c07 import set_field

TOL = F(1, 1000)
SYM = {("linear", 1): [(0, 0), (1, 0)], ("linear", 2): [(0, 0), (1, 1)], ("linear", 3): [(0, 0), (0, 2)], ("quadratic", 1): [(0, 0)],
       ("quadratic", 2): [(0, 0)], ("cubic", 1): [(0, 0)], ("cubic", 2): [(0, 1)], ("quadratic", 3): [(0, 1)], ("cubic", 3): [(0, 2)]}


def signed(dim):
    """the relabellings and mirror images checked: (axis order, signs)"""
    if dim == 1:
        return [((0,), (-1,))]
    if dim == 2:
        return [((1, 0), (1, 1)), ((0, 1), (-1, 1)), ((0, 1), (1, -1))]
    return [((1, 2, 0), (1, 1, 1)), ((1, 0, 2), (1, 1, 1)), ((0, 1, 2), (-1, 1, 1)), ((0, 1, 2), (1, 1, -1))]


def cases(tier, seed):
    out = []
    deep = tier == "thorough"
    for k, d in [("linear", 1), ("linear", 2), ("quadratic", 1), ("quadratic", 2), ("cubic", 1), ("cubic", 2)]:
        for g in signed(d):
            if (k, d) != ("cubic", 2) or deep:
                out.append(whole("usl", k, d, g))
            else:
                out.append(whole("usl", k, d, g, "motion"))
                out.append(whole("usl", k, d, g, "place"))
    for g in signed(2):
        out.append(whole("usl", "linear", 2, g, extra="gravity"))
    for scheme in ("usl", "aflip"):
        ks = [("linear", 3)] + ([("linear", 1), ("linear", 2), ("quadratic", 1), ("quadratic", 2), ("cubic", 1), ("cubic", 2)] if scheme == "aflip" else []) + ([("quadratic", 3), ("cubic", 3)] if deep else [])
        for k, d in ks:
            for j, g in enumerate(signed(d)):
                out.append(whole(scheme, k, d, g, "motion"))
                out.append(whole(scheme, k, d, g, "place"))
        for w in ("sphere", "box", "domain"):
            for g in signed(2):
                out.append(wall(scheme, w, 2, g))
            for g in signed(3) if deep else signed(3)[1:3]:
                out.append(wall(scheme, w, 3, g))
    for g in signed(2):
        for k in ("linear", "quadratic", "cubic"):
            out.append(whole("aflip", k, 2, g, "motion", "classic"))
        out.append(whole("aflip", "linear", 2, g, "motion", "dynamic"))
    for d in (2, 3):
        for g in signed(d):
            for l in ("newton", "dp", "mui"):
                out.append(law(l, d, g))
    return out


class Frame:
    """signed relabelling of a grid of n[d] nodes per axis"""
    def __init__(self, dim, n, g):
        self.dim, self.n, (self.ax, self.sg) = dim, n, g
        self.n2 = tuple(n[a] for a in self.ax)
        R = np.array([[F(0)] * 3 for _ in range(3)], dtype=object)
        for i in range(3):
            if i < dim:
                R[i, self.ax[i]] = F(self.sg[i])
            else:
                R[i, i] = F(1)
        self.R = R

    def vec(self, v):
        v = sl(v)
        return np.array([v[self.ax[i]] * self.sg[i] for i in range(self.dim)], dtype=object)

    def ten(self, M):
        return matmul(matmul(self.R, sl(M)), self.R.T)

    def pos(self, x):
        """position on the first grid -> position on the second (both start at O0)"""
        x = sl(x)
        r = []
        for i in range(self.dim):
            a = self.ax[i]
            X = x[a] - F(O0[a])
            if self.sg[i] < 0:
                X = F(H) * (self.n[a] - 1) - X
            r.append(X + F(O0[i]))
        return np.array(r, dtype=object)

    def back_box(self, lo, hi):
        a, b = self.pos(lo), self.pos(hi)
        return [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]

    def moved(self, A, n):
        B = {}
        for k, v in A.items():
            if k in ("vel", "g", "force"):
                B[k] = np.array([self.vec(x) for x in v], dtype=object) if k != "g" else self.vec(v)
            elif k == "pos":
                B[k] = np.array([self.pos(x) for x in v], dtype=object)
            elif k in ("F", "Fs", "stress", "L", "Bp", "ee"):
                B[k] = np.array([self.ten(x) for x in v], dtype=object)
        return B


def sizes(kern, dim):
    return tuple(SIZE[kern] + (i % 2) for i in range(dim))


def state(P, kern, dim, n, few, sym):
    from .c05 import defF
    sub = 2 if kern == "quadratic" else 1
    A = {"pos": where(coords(P, n, dim, sym, sub), [[1] * dim] * n), "mass": sl(P["mass"]), "vol0": sl(P["vol0"]), "F": defF(P, n, dim), "dt": sl(P["dt"]), "alpha": sl(P["alpha"]), "vel": sl(P["vel"])}
    A["vol"] = np.array([det(A["F"][i]) * A["vol0"][i] for i in range(n)], dtype=object)
    S = []
    for i in range(n):
        s = sym3(P, "s", i if i < len(sl(P["s"])) else 0)
        S.append(s)
    A["stress"] = np.array(S, dtype=object)
    if few:
        A["vel"] = np.concatenate([A["vel"], np.array([[F(-3, 2), F(5, 4), F(1, 3)][:dim]], dtype=object)])
    return A


def pars(kern, dim, n, few):
    m = 1 if few else n
    return {"xi": cparam(SYM[(kern, dim)], 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, 1, 5), "vol0": (n, F(1, 10), 2), "F": FPAR(n), "dt": (None, F(1, 1000), F(1, 10)), "alpha": (None, 0, 1),
            "vel": ((m, dim), -5, 5), "s": ((m, 6), -5, 5)}


def name(g):
    return "".join("xyz"[a] if s > 0 else "XYZ"[a] for a, s in zip(*g))


def step(A, scheme, dim, kern, n, law=None, ls=None, forces=(), fstates=(), sdfs=(), sstates=(), **kw):
    mp = mp_state(A)
    s = solver(scheme, dim, kern, [domain(dim, n)], [law if law is not None else Inert()], forces, sdfs=sdfs, alpha=A["alpha"], **kw)
    ss = s.create_state(mp)
    if scheme == "aflip" and "Bp" in A:
        ss = hdx.USLAFLIPState(Bp_stack=A["Bp"])
    s1 = s(sim_state([mp], [ls], [ss], fstates, sstates, A["dt"]))
    r = out_mp(s1.world.material_points[0])
    if scheme == "aflip":
        r["Bp"] = s1.mechanics.solvers[0].Bp_stack
    return r, s1


def compare(obs, fr, O, n, dim, tol=TOL):
    for i in range(n):
        obs.eq("position", O["b_pos"][i], fr.pos(O["a_pos"][i]), tol)
        for k in ("vel", "force"):
            obs.eq("vector-" + k, O["b_" + k][i], fr.vec(O["a_" + k][i]), 5 * tol)
        for k in ("L", "F", "stress") + (("Bp",) if "a_Bp" in O else ()):
            obs.eq("tensor-" + k, O["b_" + k][i], fr.ten(O["a_" + k][i]), 20 * tol)
    for k in ("mass", "vol", "vol0"):
        obs.eq("scalar-" + k, O["b_" + k], O["a_" + k], 20 * tol)


def both(A, f):
    B = dict(A, **{k[2:]: v for k, v in A.items() if k.startswith("b_")})
    r = {"a_" + k: v for k, v in f({k: v for k, v in A.items() if not k.startswith("b_")}, False).items()}
    r.update({"b_" + k: v for k, v in f({k: v for k, v in B.items() if not k.startswith("b_")}, True).items()})
    return r


FIXED = {"mass": [F(2), F(7, 2)], "vol0": [F(1, 2), F(3, 4)], "dt": F(1, 50), "alpha": F(2, 5), "F": [[F(9, 8), F(1, 4), F(7, 8), F(5, 4), F(-1, 4)], [F(3, 4), F(-1, 8), F(9, 8), F(7, 8), F(3, 8)]],
         "vel": [[F(1), F(-2), F(3, 2)], [F(-3, 2), F(5, 4), F(1, 3)]], "grav": [F(2), F(-9), F(5)], "Bp": [[F(1), F(1, 2), F(-1)], [F(-1, 4), F(2), F(3, 4)], [F(1, 3), F(-2), F(-1, 2)]],
         "s": [[F(1), F(-2), F(3), F(1, 2), F(-3, 2), F(5, 2)], [F(-1), F(3), F(2), F(5, 4), F(1, 2), F(-1)]]}


def whole(scheme, kern, dim, g, focus=None, extra=None):
    """focus None: everything symbolic; "motion": positions, masses, volumes and deformation fixed; "place": one in-cell coordinate, the rest fixed"""
    n = 2
    few = focus is None and kern != "linear"
    fr = Frame(dim, sizes(kern, dim), g)
    sym = SYM[(kern, dim)] if focus is None else [] if focus == "motion" else SYM[(kern, dim)][:1]
    sub = 2 if kern == "quadratic" else 1
    p = pars(kern, dim, n, few)
    p["grav"] = (dim, -10, 10)
    if scheme == "aflip":
        p["Bp"] = ((dim, dim), -2, 2)
    if focus == "motion":
        p = {k: p[k] for k in ("vel", "s", "dt", "alpha", "grav", "Bp") if k in p}
    elif focus == "place":
        p = {"xi": cparam(sym, sub, MG[kern])}

    def build(P):
        class Q:
            def __getitem__(self, k):
                if k in p:
                    return P[k]
                v = np.array(FIXED[k], dtype=object)
                return v[:, :dim] if k == "vel" else v[:dim] if k == "grav" else v[:dim, :dim] if k == "Bp" else v
        A = state(Q(), kern, dim, n, few, sym)
        A["g"] = sl(Q()["grav"])
        if scheme == "aflip":
            A["Bp"] = np.full((n, 3, 3), F(0), dtype=object)
            for i in range(n):
                A["Bp"][i][:dim, :dim] = sl(Q()["Bp"]) * (F(1) if i == 0 else F(-1, 2))
        A.update({"b_" + k: v for k, v in fr.moved(A, n).items()})
        return A

    def fn(A):
        def f(A, second):
            kw = dict(use_dynamic_alpha=extra == "dynamic", cfl_limit=1e9, use_mls_update=extra != "classic", beta_min=0.25, beta_max=0.25) if scheme == "aflip" else {}
            gr = hdx.Gravity(is_apply_on_grid=extra != "gravity")
            return step(A, scheme, dim, kern, fr.n2 if second else fr.n, law=hdx.LinearElasticLaw(E=10.0, nu=0.25), forces=(gr,), fstates=(gr.create_state(A["g"]),), **kw)[0]
        return both(A, f)
    what = {None: "any velocities, deformation, stress, gravity", "motion": "any velocities, stress, gravity, affine state, time step and blending; positions, masses and deformation fixed", "place": "everything else fixed"}[focus]
    return Case("step-%s-%s-%dd-%s%s" % (scheme, kern, dim, name(g), "".join("-" + x for x in (focus, extra) if x)), p, build, fn, lambda P, A, O, obs: compare(obs, fr, O, n, dim), pre=lambda P, A: open_cell(P, sub) if sym else [],
                functions=["%s.__call__" % SCHEMES[scheme].__name__], typed=False, weight=3 ** dim, defined=False, atol=2e-2, eps0=True,
                bounds="two particles (%d of %d coordinates symbolic), %s; linear elastic" % (len(sym), 2 * dim, what))


# ---- rigid objects
def wall(scheme, shape, dim, g):
    kern, n = "linear", 1
    fr = Frame(dim, sizes(kern, dim), g)
    LO, HI = [F(O0[d]) + F(H) * F(1, 8) * (1 + d) for d in range(dim)], [F(O0[d]) + F(H) * (fr.n[d] - 1) - F(H) * F(1, 16) for d in range(dim)]

    def build(P):
        A = {"pos": where(coords(P, n, dim, []), [[1] * dim] * n), "mass": np.array([F(2)], dtype=object), "vol": np.array([F(1)], dtype=object), "dt": np.array(F(1, 64), dtype=object), "alpha": np.asarray(0.5), "vel": sl(P["vel"]),
             "wv": np.array([[F(1), F(-1, 2), F(1, 4)][:dim]], dtype=object), "com": np.array([[F(O0[d]) + F(H) * (F(1, 4) if d == 0 else F(3, 4)) for d in range(dim)]], dtype=object)}
        A["F"] = np.array([[[F(2), F(1, 4), F(0)], [F(0), F(1), F(0)], [F(0), F(0), F(1)]]], dtype=object)
        A["vol0"] = np.array([F(1, 2)], dtype=object)
        A.update({"b_" + k: v for k, v in fr.moved(A, n).items()})
        A["b_wv"] = np.array([fr.vec(A["wv"][0])], dtype=object)
        A["b_com"] = np.array([fr.pos(A["com"][0])], dtype=object)
        return A

    def fn(A):
        def f(A, second):
            if shape == "sphere":
                s = hdx.SphereSDF(radius=0.25)
            elif shape == "box":
                hs = (0.25, 0.5, 0.75)[:dim]
                s = hdx.BoxSDF(tuple(hs[a] for a in fr.ax) if second else hs)
            else:
                lo, hi = (fr.back_box(LO, HI) if second else (LO, HI))
                s = hdx.DomainSDF(origin=[float(v) for v in lo], end=[float(v) for v in hi], frictions=0.5)
            if shape == "domain":
                st = s.create_state(center_of_mass=jnp.zeros(dim))
            else:
                st = s.create_state(center_of_mass=A["com"][0], velocity=A["wv"][0])
            kw = dict(use_dynamic_alpha=False, cfl_limit=1e9) if scheme == "aflip" else {}
            r, s1 = step(A, scheme, dim, kern, fr.n2 if second else fr.n, forces=(hdx.SDFCollider(sdf_idx=0, friction=0.0 if shape == "box" and scheme == "aflip" else 0.5),), fstates=(None,), sdfs=(s,), sstates=(st,), **kw)
            r["com"] = s1.world.sdfs[0].center_of_mass
            return r
        return both(A, f)

    def post(P, A, O, obs):
        compare(obs, fr, O, n, dim)
        if shape != "domain":
            obs.eq("object-position", O["b_com"], fr.pos(O["a_com"]), TOL)
    return Case("object-%s-%s-%dd-%s" % (scheme, shape, dim, name(g)), {"vel": ((n, dim), -5, 5)}, build, fn, post,
                functions=["%s.__call__" % SCHEMES[scheme].__name__, "SDFCollider.apply_grid_moments"], typed=False, weight=3 ** dim, defined=False, atol=2e-2, eps0=True, bounds="one particle next to a moving %s, any particle velocity" % shape)


# ---- the other material laws inside a step with a prescribed grid motion
def law(l, dim, g):
    kern, n, scheme = "linear", 1, "usl"
    fr = Frame(dim, sizes(kern, dim), g)

    def build(P):
        L = sl(P["g"])
        if l == "mui":
            a = sl(P["ga"])
            L = np.array([[a[0], a[1], F(0)], [a[1] / 2, -a[0], F(0)], [F(0), F(0), a[2]]], dtype=object)[:dim, :dim]
        A = {"pos": where(coords(P, n, dim, [(0, 0)]), [[1] * dim] * n), "mass": np.array([F(2)], dtype=object), "vol": np.array([F(1)], dtype=object), "dt": sl(P["dt"]), "alpha": np.asarray(0.5), "vel": sl(P["vel"])}
        A["stress"] = np.array([sym3(P, "s", 0) + eye(3) * F(75)], dtype=object)
        if l == "dp":
            A["ee"] = np.array([sym3(P, "ee", 0)], dtype=object)
            A["F"] = np.array([[[F(2), F(1, 4), F(0)], [F(0), F(1), F(0)], [F(0), F(0), F(1)]]], dtype=object)
            A["vol0"] = np.array([F(1, 2)], dtype=object)
        A.update({"b_" + k: v for k, v in fr.moved(A, n).items()})

        def nodes(nn, f):
            r = []
            for k in itertools.product(*[range(m) for m in nn]):
                r.append(f(np.array([F(O0[d]) + F(H) * k[d] for d in range(dim)], dtype=object)))
            return np.array(r, dtype=object)
        b = sl(P["b"])
        fld = lambda x: np.array([dot(L[r], x) + b[r] for r in range(dim)], dtype=object)
        A["nodes"] = nodes(fr.n, fld)

        def back(y):                       # position on the second grid -> on the first
            x = [None] * dim
            for i in range(dim):
                a = fr.ax[i]
                X = y[i] - F(O0[i])
                if fr.sg[i] < 0:
                    X = F(H) * (fr.n[a] - 1) - X
                x[a] = X + F(O0[a])
            return np.array(x, dtype=object)
        A["b_nodes"] = nodes(fr.n2, lambda y: fr.vec(fld(back(y))))
        return A

    def fn(A):
        def f(A, second):
            if l == "newton":
                lw, ls = hdx.NewtonFluid(K=10.0, viscosity=0.5, beta=2.0), hdx.NewtonFluidState(density_ref_stack=jnp.full(1, 1.5))
            elif l == "mui":
                lw, ls = hdx.MuI_LC(mu_s=0.5, mu_d=0.75, I_0=0.25, d_p=0.125, K=10.0, rho_p=2.0, alpha=0.25), hdx.MuIState(density_ref_stack=jnp.full(1, 1.0))
            else:
                lw = hdx.DruckerPrager(K=20.0, nu=0.25, mu_1=0.25, mu_2=1.0, c0=200.0, rho_0=0.5)
                ls = hdx.DruckerPragerState(eps_e_stack=A["ee"], eps_p_acc_stack=jnp.zeros(1), p_0_stack=jnp.full(1, 10.0))
            r, s1 = step(A, scheme, dim, kern, fr.n2 if second else fr.n, law=lw, ls=ls, forces=(set_field(A),), fstates=(None,))
            if l == "dp":
                r["ee"] = s1.mechanics.constitutive_laws[0].eps_e_stack
            return r
        return both(A, f)

    def post(P, A, O, obs):
        compare(obs, fr, O, n, dim)
        if l == "dp":
            obs.eq("tensor-elastic-strain", O["b_ee"][0], fr.ten(O["a_ee"][0]), TOL)
    ps = {"xi": cparam([(0, 0)], 1, F(1, 20)), "dt": (None, F(1, 1000), F(1, 20)), "vel": ((n, dim), -5, 5), "g": ((dim, dim), -2, 2), "b": (dim, -5, 5), "s": ((1, 6), -5, 5)}
    if l == "dp":
        ps["ee"] = ((1, 6), F(-1, 10), F(1, 10))
    if l == "mui":
        ps["ga"] = (3, -2, 2)
    return Case("law-%s-%dd-%s" % (l, dim, name(g)), ps, build, fn, post, pre=lambda P, A: open_cell(P), functions=["USLSolver.__call__"], typed=False, weight=3, defined=False, atol=2e-2, eps0=True,
                bounds="one particle, any linear grid motion and stored state")
