"""signed distances and normals of the primitive shapes"""
from .steps import *
from hydraxmpm.sdf.sdfcollection import CompositeSDF

TH = {"th": (None, -3, 3)}
PH = {"ph": (None, -F(3, 2), F(3, 2))}


def cases(tier, seed):
    out = [sphere(2), sphere(3), plane_(2), plane_(3)]
    for dim in (2, 3):
        for k, reg in enumerate(itertools.product("i+-", repeat=dim)):
            if dim == 2 or tier == "thorough" or k in (1, 5, 9, 12, 13, 20, 21, 26):
                if set(reg) != {"i"}:
                    out.append(box(dim, "".join(reg)))
        for d in range(dim):
            for s in (1, -1):
                out.append(inbox(dim, d, s))
    for dim in (2, 3):
        for reg in ("side", "cap"):
            for sgn in (1, -1):
                out.append(capsule(dim, reg, sgn))
    for reg in ("in", "side", "cap", "rim"):
        out += [cylinder(reg, 1), cylinder(reg, -1)]
        for kind in ("pipe3", "walls2"):
            out += [hollow(kind, reg, side, sgn) for side in ("outer", "inner") for sgn in (1, -1)]
    out += [hollow("ring2", "in", "outer"), hollow("ring2", "in", "inner"), torus()]
    for pts in ((5, 4) if tier == "quick" else (3, 4, 5, 6, 8)):
        for sec in range(-((pts - 1) // 2), (pts - 1) // 2 + 1):
            for m in (1, -1):
                out += [star(pts, sec, m, side) for side in (1, -1)] + [star_vertex(pts, sec, m, w) for w in ("tip", "valley")]
    for dim in (2, 3):
        out += [domain_(dim), composite(dim), cloud(dim, 1), cloud(dim, 2), cloud(dim, 1, 2.0)]
    out += [gridsdf(c) for c in ((0, 0, 0), (1, 0, 1))]
    out += [finite(k, d) for k, d in FIN]
    return out


def S0(sdf, c, **kw):
    return sdf.create_state(c, **kw)


def q3(sdf, A, pos="p", normal=True):
    """distance and normal through the public world-space and batched entry points"""
    dim = A["c"].shape[0]
    # distances belong to the pose; that the object moves must not show
    st = sdf.create_state(A["c"], velocity=jnp.array([1.5, -0.75, 0.5])[:dim], angular_velocity=0.75 if dim == 2 else jnp.array([0.5, -0.25, 0.75]))
    d = sdf.signed_distance(st, A[pos])
    ds = sdf.get_signed_distance_stack(st, A[pos][None])
    r = dict(d=d, ds=ds[0])
    if normal:
        r["n"] = sdf.get_normal(st, A[pos])
        r["ns"] = sdf.get_normal_stack(st, A[pos][None])[0]
    return r


def expect(obs, O, d, n=None, when=None, tol=TOL, tag=""):
    obs.eq("distance" + tag, O["d"], d, tol, when=when)
    obs.eq("distance-stack" + tag, O["ds"], d, tol, when=when)
    if n is not None:
        obs.eq("normal" + tag, O["n"], n, 2 * tol, when=when)
        obs.eq("normal-stack" + tag, O["ns"], n, 2 * tol, when=when)


def mkcase(name, params, build, fn, post, **kw):
    kw.setdefault("bounds", "one query point anywhere in the region, any size and centre in the stated boxes")
    kw.setdefault("eps0", True)
    return Case(name, params, build, fn, post, typed=False, **kw)


def unit(P, dim):
    c, s = sp.cos(sl(P["th"])[()]), sp.sin(sl(P["th"])[()])
    if dim == 2:
        return [c, s]
    cp, s2 = sp.cos(sl(P["ph"])[()]), sp.sin(sl(P["ph"])[()])
    return [c * cp, s * cp, s2]


def vec(xs):
    return np.array(list(xs), dtype=object)


def sphere(dim):
    def build(P):
        n = unit(P, dim)
        c = sl(P["c"])
        return {"c": c, "p": vec(c[d] + sl(P["rho"])[()] * n[d] for d in range(dim)), "R": sl(P["R"])}

    def fn(A):
        return q3(hdx.SphereSDF(radius=A["R"]), A)

    def post(P, A, O, obs):
        expect(obs, O, sl(P["rho"])[()] - A["R"][()], unit(P, dim))
    p = dict(TH, c=(dim, -5, 5), rho=(None, F(1, 100), 10), R=(None, F(1, 10), 5))
    if dim == 3:
        p.update(PH)
    return mkcase("sphere-%dd" % dim, p, build, fn, post, functions=["SphereSDF"])


def plane_(dim):
    def build(P):
        n = unit(P, dim)
        return {"c": sl(P["c"]), "p": sl(P["p"]), "n": vec(sl(P["s"])[()] * x for x in n)}

    def fn(A):
        return q3(hdx.PlaneSDF(normal=A["n"]), A)

    def post(P, A, O, obs):
        n = unit(P, dim)
        expect(obs, O, dot([A["p"][d] - A["c"][d] for d in range(dim)], n), n)
    p = dict(TH, c=(dim, -5, 5), p=(dim, -5, 5), s=(None, F(1, 10), 10))
    if dim == 3:
        p.update(PH)
    return mkcase("plane-%dd" % dim, p, build, fn, post, functions=["PlaneSDF"])


def box(dim, reg):
    """reg: per axis inside the slab (i), beyond its upper face (+) or its lower face (-)"""
    sg = {"+": F(1), "-": F(-1), "i": F(0)}

    def build(P):
        c, h, e = sl(P["c"]), sl(P["h"]), sl(P["e"])
        p = [c[d] + (e[d] * h[d] if reg[d] == "i" else sg[reg[d]] * (h[d] + e[d])) for d in range(dim)]
        return {"c": c, "p": vec(p), "size": vec(2 * x for x in h)}

    def fn(A):
        return q3(hdx.BoxSDF(size=A["size"]), A)

    def post(P, A, O, obs):
        e = sl(P["e"])
        ex = [e[d] for d in range(dim) if reg[d] != "i"]
        dd = sp.sqrt(total([x * x for x in ex])) if len(ex) > 1 else ex[0]
        obs.eq("distance", O["d"], dd, TOL)
        obs.eq("distance-stack", O["ds"], dd, TOL)
        for k in range(dim):
            obs.eq("normal[%d]" % k, O["n"][k] * dd, (e[k] if reg[k] != "i" else 0) * sg[reg[k]], 2 * TOL)
            obs.eq("normal-stack[%d]" % k, O["ns"][k] * dd, (e[k] if reg[k] != "i" else 0) * sg[reg[k]], 2 * TOL)
    lo = [-F(99, 100) if r == "i" else F(1, 100) for r in reg]
    hi = [F(99, 100) if r == "i" else 5 for r in reg]
    p = {"c": (dim, -5, 5), "h": (dim, F(1, 5), 5), "e": (dim, lo, hi)}
    return mkcase("box-%dd-%s" % (dim, reg), p, build, fn, post, functions=["BoxSDF"])


def inbox(dim, ax, s):
    """inside, nearest to the face of axis ax on side s"""
    def build(P):
        c, h, t = sl(P["c"]), sl(P["h"]), sl(P["t"])
        p = [c[d] + (s * (h[d] - t[d]) if d == ax else h[d] * t[d]) for d in range(dim)]
        return {"c": c, "p": vec(p), "size": vec(2 * x for x in h)}

    def fn(A):
        return q3(hdx.BoxSDF(size=A["size"]), A)

    def pre(P, A):
        h, t = sl(P["h"]), sl(P["t"])
        r = [t[ax] < h[ax] - F(1, 20)]
        for d in range(dim):
            if d != ax:
                r += [h[d] - h[d] * t[d] > t[ax] + F(1, 100), h[d] + h[d] * t[d] > t[ax] + F(1, 100)]
        return r

    def post(P, A, O, obs):
        expect(obs, O, -sl(P["t"])[ax], [F(s) if d == ax else F(0) for d in range(dim)])
    p = {"c": (dim, -5, 5), "h": (dim, F(1, 5), 5), "t": (dim, [F(1, 100) if d == ax else -F(99, 100) for d in range(dim)], [4 if d == ax else F(99, 100) for d in range(dim)])}
    return mkcase("box-%dd-in-%d%s" % (dim, ax, "+" if s > 0 else "-"), p, build, fn, post, pre=pre, functions=["BoxSDF"], samples=4000)


def capsule(dim, reg, sgn):
    def build(P):
        n = unit(P, dim) if reg == "cap" else None
        c, R, H2, rho = sl(P["c"]), sl(P["R"])[()], sl(P["H2"])[()], sl(P["rho"])[()]
        if reg == "side":
            r = [rho * sl(P["sg"])[()], sl(P["y"])[()] * H2] if dim == 2 else [rho * sp.cos(sl(P["th"])[()]), sl(P["y"])[()] * H2, rho * sp.sin(sl(P["th"])[()])]
        else:
            up = sl(P["sg"])[()]
            ax = sp.sin(sl(P["ph"])[()])                                   # vertical component, positive
            hz = sp.cos(sl(P["ph"])[()])
            r = [rho * hz * F(1) * (F(1) if dim == 2 else sp.cos(sl(P["th"])[()])), up * (H2 + rho * ax)]
            if dim == 3:
                r.append(rho * hz * sp.sin(sl(P["th"])[()]))
        return {"c": c, "p": vec(c[d] + r[d] for d in range(dim)), "R": sl(P["R"]), "H": 2 * sl(P["H2"])}

    def fn(A):
        return q3(hdx.CapsuleSDF(radius=A["R"], height=A["H"]), A)

    def post(P, A, O, obs):
        rho, R = sl(P["rho"])[()], A["R"][()]
        sg = sl(P["sg"])[()]
        if reg == "side":
            n = [sg, F(0)] if dim == 2 else [sp.cos(sl(P["th"])[()]), F(0), sp.sin(sl(P["th"])[()])]
        else:
            hz, ax = sp.cos(sl(P["ph"])[()]), sp.sin(sl(P["ph"])[()])
            n = [hz, sg * ax] if dim == 2 else [hz * sp.cos(sl(P["th"])[()]), sg * ax, hz * sp.sin(sl(P["th"])[()])]
        expect(obs, O, rho - R, n)
    p = dict(TH, ph=(None, F(1, 100), F(31, 10)), c=(dim, -5, 5), R=(None, F(1, 10), 3), H2=(None, F(1, 10), 3), rho=(None, F(1, 50), 6), sg=(None, sgn, sgn),
             y=(None, -F(99, 100), F(99, 100)))
    return mkcase("capsule-%dd-%s%s" % (dim, reg, "+" if sgn > 0 else "-"), p, build, fn, post, functions=["CapsuleSDF"])


def profile(obs, O, reg, dr, dy, sy, rdir, lift, tag=""):
    """expected distance of a shape that is a rectangle in (radial, vertical) profile coordinates:
    dr, dy signed excess over the radial and vertical bounds"""
    if reg == "in":
        d = sp.max(dr, dy)
        obs.eq("distance", O["d"], d, TOL)
        obs.eq("distance-stack", O["ds"], d, TOL)
        obs.eq("normal", O["n"], lift(rdir, F(0)), 2 * TOL, when=dr > dy + F(1, 100))
        obs.eq("normal", O["n"], lift(F(0), sy), 2 * TOL, when=dy > dr + F(1, 100))
    elif reg == "side":
        expect(obs, O, dr, lift(rdir, F(0)))
    elif reg == "cap":
        expect(obs, O, dy, lift(F(0), sy))
    else:
        obs.eq("distance", O["d"], sp.sqrt(dr * dr + dy * dy), TOL)
        obs.eq("distance-stack", O["ds"], sp.sqrt(dr * dr + dy * dy), TOL)
        obs.ge("rim-positive", O["d"], 0, 0)
        e = lift(rdir * dr, sy * dy)
        for k in range(len(e)):
            obs.eq("normal", O["n"][k] * sp.sqrt(dr * dr + dy * dy), e[k], 4 * TOL)


def signs(reg):
    dr = (F(1, 100), 3) if reg in ("side", "rim") else (-1, F(-1, 100))
    dy = (F(1, 100), 3) if reg in ("cap", "rim") else (-1, F(-1, 100))
    return dr, dy


def cylinder(reg, sgn):
    def build(P):
        c, th, R, H2, sy = sl(P["c"]), sl(P["th"])[()], sl(P["R"])[()], sl(P["H2"])[()], sl(P["sy"])[()]
        dr, dy = sl(P["dr"])[()], sl(P["dy"])[()]
        rho, y = (R + dr, H2 + dy)
        return {"c": c, "p": vec([c[0] + rho * sp.cos(th), c[1] + sy * y, c[2] + rho * sp.sin(th)]), "R": sl(P["R"]), "H": 2 * sl(P["H2"])}

    def fn(A):
        return q3(hdx.CylinderSDF(radius=A["R"], height=A["H"]), A)

    def post(P, A, O, obs):
        th = sl(P["th"])[()]
        profile(obs, O, reg, sl(P["dr"])[()], sl(P["dy"])[()], sl(P["sy"])[()], F(1), lambda a, b: [a * sp.cos(th), b, a * sp.sin(th)])
    dr, dy = signs(reg)
    p = dict(TH, c=(3, -2, 2), R=(None, F(11, 10), 3), H2=(None, F(11, 10), 3), dr=(None,) + dr, dy=(None,) + dy, sy=(None, sgn, sgn))
    return mkcase("cylinder-%s%s" % (reg, "+" if sgn > 0 else "-"), p, build, fn, post, functions=["CylinderSDF"])


def hollow(kind, reg, side, sgn=1):
    """pipe: 3D pipe, 2D walls (side view), 2D ring (top view); nearest wall surface outer or inner"""
    dim = 3 if kind == "pipe3" else 2
    rdir = F(1) if side == "outer" else F(-1)

    def prof(P):
        Ri, W, H2 = sl(P["Ri"])[()], sl(P["W"])[()], sl(P["H2"])[()]
        dr, dy = sl(P["dr"])[()], sl(P["dy"])[()]
        Ro = Ri + W
        rho = Ro + dr if side == "outer" else Ri - dr
        return Ri, Ro, H2, dr, dy, rho

    def lift(P):
        if kind == "pipe3":
            th = sl(P["th"])[()]
            return lambda a, b: [a * sp.cos(th), b, a * sp.sin(th)]
        if kind == "ring2":
            th = sl(P["th"])[()]
            return lambda a, b: [a * sp.cos(th), a * sp.sin(th)]
        sx = sl(P["sx"])[()]
        return lambda a, b: [a * sx, b]

    def build(P):
        Ri, Ro, H2, dr, dy, rho = prof(P)
        c, sy = sl(P["c"]), sl(P["sy"])[()]
        x = lift(P)(rho, sy * (H2 + dy))
        return {"c": c, "p": vec(c[d] + x[d] for d in range(dim)), "Ri": np.asarray(Ri, dtype=object), "Ro": np.asarray(Ro, dtype=object), "H": np.asarray(2 * H2, dtype=object)}

    def fn(A):
        return q3(hdx.HollowCylinderSDF(height=A["H"], outer_radius=A["Ro"], inner_radius=A["Ri"], is_2d_ring=kind == "ring2"), A)

    def post(P, A, O, obs):
        Ri, Ro, H2, dr, dy, rho = prof(P)
        if kind == "ring2":
            expect(obs, O, dr, lift(P)(rdir, F(0)))
        else:
            profile(obs, O, reg, dr, dy, sl(P["sy"])[()], rdir, lift(P))
    dr, dy = signs(reg)
    if kind == "ring2":
        dr = (-F(1, 2), 1)
    if reg in ("in", "cap"):
        dr = (-F(1, 2), -F(1, 100))
    if side == "inner" and dr[1] == 3:
        dr = (dr[0], 1)
    p = dict(c=(dim, -2, 2), Ri=(None, F(11, 10), 3), W=(None, F(11, 10), 2), H2=(None, F(11, 10), 3), dr=(None,) + dr, dy=(None,) + dy, sy=(None, sgn, sgn), sx=(None, sgn if reg == "side" else -sgn, sgn if reg == "side" else -sgn))
    if kind != "walls2":
        p.update(TH)
    return mkcase("hollow-%s-%s-%s%s" % (kind, reg, side, "+" if sgn > 0 else "-"), p, build, fn, post, functions=["HollowCylinderSDF"])


def torus():
    def build(P):
        c, R, rho, th, ps = sl(P["c"]), sl(P["R"])[()], sl(P["rho"])[()], sl(P["th"])[()], sl(P["ps"])[()]
        m = R + rho * sp.sin(ps)
        return {"c": c, "p": vec([c[0] + m * sp.cos(th), c[1] + rho * sp.cos(ps), c[2] + m * sp.sin(th)]), "R": sl(P["R"]), "r": sl(P["r"])}

    def fn(A):
        return q3(hdx.TorusSDF(major_r=A["R"], minor_r=A["r"]), A)

    def post(P, A, O, obs):
        th, ps = sl(P["th"])[()], sl(P["ps"])[()]
        expect(obs, O, sl(P["rho"])[()] - A["r"][()], [sp.sin(ps) * sp.cos(th), sp.cos(ps), sp.sin(ps) * sp.sin(th)], tol=2 * TOL)
    p = dict(TH, ps=(None, -3, 3), c=(3, -2, 2), R=(None, 1, 3), rho=(None, F(1, 10), F(9, 10)), r=(None, F(1, 10), F(9, 10)))
    return mkcase("torus", p, build, fn, post, functions=["TorusSDF"])


def star(pts, sec, m, side):
    """the half-wedge m of arm sec; the query point is placed from the nearest edge point: along the edge (lam) and off it (tau)"""
    import math
    an = math.pi / pts
    R, r = 1.0, 0.5
    v1, v2 = (0.0, R), (r * math.sin(an), r * math.cos(an))
    e = (v2[0] - v1[0], v2[1] - v1[1])
    L = math.hypot(*e)
    nrm = (-e[1] / L, e[0] / L)                                             # outward
    c0, s0 = math.cos(sec * 2 * an), math.sin(sec * 2 * an)

    def world(x, y):
        x = m * x
        return [F(c0) * x + F(s0) * y, -F(s0) * x + F(c0) * y]

    def build(P):
        lam, tau = sl(P["lam"])[()], sl(P["tau"])[()]
        x = F(v1[0]) + lam * F(e[0]) + tau * F(nrm[0])
        y = F(v1[1]) + lam * F(e[1]) + tau * F(nrm[1])
        w = world(x, y)
        return {"c": vec([F(0), F(0)]), "p": vec(w)}

    def fn(A):
        return q3(hdx.StarSDF(points=pts, outer_radius=R, inner_radius=r), A, normal=False)

    def post(P, A, O, obs):
        tau = sl(P["tau"])[()]
        obs.eq("distance", O["d"], tau, 3 * TOL)
        obs.eq("distance-stack", O["ds"], tau, 3 * TOL)
    # stay inside the half-wedge: 0 < polar angle < an
    t1 = 0.08
    p = {"lam": (None, F(30, 100), F(70, 100)), "tau": (None, F(1, 200), F(t1)) if side > 0 else (None, -F(t1), -F(1, 200))}
    return mkcase("star-%d-arm%d%s-%s" % (pts, sec, "+" if m > 0 else "-", "out" if side > 0 else "in"), p, build, fn, post, functions=["StarSDF"], bounds="points over the middle 40% of the edge, up to 0.08 off it")


def star_vertex(pts, sec, m, which):
    """query points whose nearest surface point is a vertex: beyond a tip, and inside, between a valley and the centre"""
    import math
    an = math.pi / pts
    R, r = 1.0, 0.5
    v1, v2 = (0.0, R), (r * math.sin(an), r * math.cos(an))
    e = (v2[0] - v1[0], v2[1] - v1[1])
    L = math.hypot(*e)
    nrm = (-e[1] / L, e[0] / L)
    at, u, w = (v1, nrm, (0.0, 1.0)) if which == "tip" else (v2, (-nrm[0], -nrm[1]), (-math.sin(an), -math.cos(an)))
    c0, s0 = math.cos(sec * 2 * an), math.sin(sec * 2 * an)

    def off(P):
        a, b = sl(P["a"])[()], sl(P["b"])[()]
        return a * F(u[0]) + b * F(w[0]), a * F(u[1]) + b * F(w[1])

    def build(P):
        dx, dy = off(P)
        x, y = m * (F(at[0]) + dx), F(at[1]) + dy
        return {"c": vec([F(0), F(0)]), "p": vec([F(c0) * x + F(s0) * y, -F(s0) * x + F(c0) * y])}

    def fn(A):
        return q3(hdx.StarSDF(points=pts, outer_radius=R, inner_radius=r), A, normal=False)

    def post(P, A, O, obs):
        dx, dy = off(P)
        for k in ("d", "ds"):
            d = sl(O[k])[()]
            obs.eq("distance-squared" + k[1:], d * d, dx * dx + dy * dy, TOL)
            obs.ge("side" + k[1:], d if which == "tip" else -d, 0, 0)
    # (between valley and centre the box is small, so that the polar angle stays inside the half-wedge)
    box = {"a": (None, F(1, 100), F(1, 4)), "b": (None, F(1, 100), F(1, 4))} if which == "tip" else {"a": (None, F(9, 100), F(1, 10)), "b": (None, F(1, 10), F(11, 100))}
    return mkcase("star-%d-arm%d%s-%s" % (pts, sec, "+" if m > 0 else "-", which), box, build, fn, post, functions=["StarSDF"],
                  bounds="points in the normal cone of the vertex")


def domain_(dim):
    def build(P):
        o = sl(P["o"])
        return {"c": sl(P["c"]), "o": o, "e": o + sl(P["s"]), "p": sl(P["p"]), "mu": sl(P["mu"])}

    def fn(A):
        sdf = hdx.DomainSDF(origin=A["o"], end=A["e"], frictions=A["mu"])
        st = sdf.create_state(A["c"])
        lo, hi = sdf.get_world_aabb(st)
        return dict(q3(sdf, A), mu=sdf.get_surface_friction(st, A["p"]), lo=lo, hi=hi)

    def post(P, A, O, obs):
        w = [A["p"][d] - A["o"][d] for d in range(dim)] + [A["e"][d] - A["p"][d] for d in range(dim)]
        best = w[0]
        for x in w[1:]:
            best = sp.min(best, x)
        obs.eq("distance", O["d"], best, TOL)
        obs.eq("distance-stack", O["ds"], best, TOL)
        for k in range(2 * dim):
            n = [F(0)] * dim
            n[k % dim] = F(1) if k < dim else F(-1)
            wh = sp.and_(*[w[k] < w[j] - F(1, 100) for j in range(2 * dim) if j != k])
            obs.eq("normal", O["n"], n, TOL, when=wh)
            obs.eq("normal-stack", O["ns"], n, TOL, when=wh)
            obs.eq("friction-of-closest-wall", O["mu"], A["mu"][k], TOL, when=wh)
        obs.eq("extent", O["lo"], A["o"], TOL)
        obs.eq("extent", O["hi"], A["e"], TOL)
    p = {"c": (dim, -5, 5), "o": (dim, -5, 5), "s": (dim, F(1, 10), 10), "p": (dim, -20, 20), "mu": (2 * dim, 0, 1)}
    return mkcase("domain-%dd" % dim, p, build, fn, post, functions=["DomainSDF"])


def composite(dim):
    def build(P):
        return {"c": sl(P["c"]), "p": sl(P["p"]), "mu": sl(P["mu"])}

    def fn(A):
        def axis(d, s):
            return hdx.PlaneSDF(normal=[s if k == d else 0.0 for k in range(dim)])
        sdf = CompositeSDF([axis(0, 1.0), axis(1, -1.0), hdx.BoxSDF(size=[1e-3] * dim)], A["mu"])
        st = sdf.create_state(A["c"])
        sts = sdf.get_surface_friction_stack(st, A["p"][None])
        return dict(q3(sdf, A), mu=sdf.get_surface_friction(st, A["p"]), mus=sts[0])

    def post(P, A, O, obs):
        x = [A["p"][d] - A["c"][d] for d in range(dim)]
        w = [x[0], -x[1]]
        box = total([y * y for y in x])
        near = sp.min(w[0], w[1]) < F(-1, 10)
        obs.eq("distance", O["d"], sp.min(w[0], w[1]), TOL, when=near)
        obs.eq("distance-stack", O["ds"], sp.min(w[0], w[1]), TOL, when=near)
        for k, n in ((0, [F(1)] + [F(0)] * (dim - 1)), (1, [F(0), F(-1)] + [F(0)] * (dim - 2))):
            wh = sp.and_(near, w[k] < w[1 - k] - F(1, 100))
            obs.eq("normal", O["n"], n, 2 * TOL, when=wh)
            obs.eq("friction-of-closest-shape", O["mu"], A["mu"][k], TOL, when=wh)
            obs.eq("friction-of-closest-shape-stack", O["mus"], A["mu"][k], TOL, when=wh)
        obs.ge("closest-of-all", w[0], O["d"], TOL)
        obs.ge("closest-of-all", w[1], O["d"], TOL)
    p = {"c": (dim, -5, 5), "p": (dim, -5, 5), "mu": (3, 0, 1)}
    return mkcase("composite-%dd" % dim, p, build, fn, post, functions=["CompositeSDF"], bounds="union of two half-spaces and a box, any query point and centre")


def cloud(dim, n, smooth=0.0):
    """material points as spheres of their initial volume"""
    import math

    def build(P):
        nn = unit(P, dim)
        c, rho, rad = sl(P["c"]), sl(P["rho"])[()], sl(P["R"])[()]
        pos = [c] + [c + vec([F(50)] * dim) for _ in range(n - 1)]
        vol = F(math.pi) * rad * rad if dim == 2 else F(4 * math.pi / 3) * rad * rad * rad
        return {"pos": np.array([list(x) for x in pos], dtype=object), "p": vec(c[d] + rho * nn[d] for d in range(dim)), "vol": vec([vol] * n)}

    def fn(A):
        from hydraxmpm.sdf.sdfcollection import MaterialPointCloudSDF
        sdf = MaterialPointCloudSDF(smooth_k=smooth)
        mp = mp_state(dict(A, vol0=A["vol"]))
        return dict(d=sdf.signed_distance(A["p"], mp), ds=sdf.get_signed_distance_stack(A["p"][None], mp)[0], n=sdf.get_normal(A["p"], mp), ns=sdf.get_normal_stack(A["p"][None], mp)[0])

    def post(P, A, O, obs):
        expect(obs, O, sl(P["rho"])[()] - sl(P["R"])[()], unit(P, dim), tol=2 * TOL)
    p = dict(TH, c=(dim, -5, 5), rho=(None, F(1, 10), 10), R=(None, F(1, 10), 2))
    if dim == 3:
        p.update(PH)
    return mkcase("cloud-%dd-%d%s" % (dim, n, "-smooth" if smooth else ""), p, build, fn, post, functions=["MaterialPointCloudSDF"],
                  bounds="%d material point(s), any volume, any query point" % n)


def gridsdf(cell):
    """tabulated distance: trilinear interpolation is exact for a linear table, with scale and thickness"""
    import tempfile, os
    n = 3
    lin0 = lambda x, y, z: 1.0 + 2.0 * x - 0.5 * y + 0.25 * z

    def build(P):
        xi = sl(P["xi"])
        p = [(F(-1) + (xi[d] + cell[d])) * 2 for d in range(3)]              # grid min -1, spacing 1, scale 2
        c = sl(P["c"])
        return {"c": c, "p": vec(c[d] + p[d] for d in range(3))}

    def fn(A):
        from hydraxmpm.sdf.gridsdf import GridSDF
        k = np.indices((n, n, n)).astype(float) - 1.0
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "g.npz")
            np.savez(f, sdf=lin0(*k), min=np.array([-1.0] * 3), max=np.array([1.0] * 3))
            sdf = GridSDF(f, thickness=0.125, scale=2.0)
        return q3(sdf, A, normal=False)

    def post(P, A, O, obs):
        x = [(A["p"][d] - A["c"][d]) / 2 for d in range(3)]
        expect(obs, O, 2 * (1 + 2 * x[0] - x[1] / 2 + x[2] / 4) - F(1, 8))
    return mkcase("grid-%s" % "".join(map(str, cell)), {"xi": (3, F(1, 100), F(99, 100)), "c": (3, -2, 2)}, build, fn, post, functions=["GridSDF"],
                  bounds="3x3x3 table of a linear function, any point of one cell, scale 2, thickness 1/8")


FIN = [("sphere", 2), ("sphere", 3), ("capsule", 2), ("capsule", 3), ("cylinder", 3), ("pipe", 3), ("ring", 2), ("torus", 3), ("box", 2), ("box", 3), ("star", 2)]


def finite(kind, dim):
    """special points: centre, axis, rim"""
    mk = {"sphere": lambda: hdx.SphereSDF(radius=1.0), "capsule": lambda: hdx.CapsuleSDF(radius=1.0, height=2.0), "cylinder": lambda: hdx.CylinderSDF(radius=1.0, height=2.0),
          "pipe": lambda: hdx.HollowCylinderSDF(height=2.0, outer_radius=2.0, inner_radius=1.0), "ring": lambda: hdx.HollowCylinderSDF(height=2.0, outer_radius=2.0, inner_radius=1.0),
          "torus": lambda: hdx.TorusSDF(major_r=1.0, minor_r=0.5), "box": lambda: hdx.BoxSDF(size=[2.0] * dim), "star": lambda: hdx.StarSDF()}[kind]
    want = {"sphere": -1, "capsule": -1, "cylinder": -1, "pipe": 1, "ring": 1, "box": -1}

    def build(P):
        c = sl(P["c"])
        q = [c]
        if kind == "torus":
            q.append(c + vec([F(1), F(0), F(0)]))
        if kind in ("capsule", "cylinder", "pipe"):
            q.append(c + vec([F(0), F(1, 2)] + [F(0)] * (dim - 2)))
        if kind == "star":
            q.append(c + vec([F(0), F(1)]))
        return {"c": c, "q": np.array([list(x) for x in q], dtype=object)}

    def fn(A):
        sdf = mk()
        st = sdf.create_state(A["c"])
        return dict(d=sdf.get_signed_distance_stack(st, A["q"]), n=sdf.get_normal_stack(st, A["q"]))

    def post(P, A, O, obs):
        obs.defined("finite-distance", O["d"])
        obs.defined("finite-normal", O["n"])
        if kind in want:
            obs.eq("distance", O["d"][0], want[kind], TOL)
        obs.le("normal-length", [total([x * x for x in r]) for r in sl(O["n"])], 1, 2 * TOL)
    return mkcase("special-%s-%dd" % (kind, dim), {"c": (dim, 0, 0) if kind == "torus" else (dim, -2, 2)}, build, fn, post, functions=["get_normal"], eps0=False, bounds="centre / axis / rim points, any centre", validate=kind not in ("star", "torus"))
