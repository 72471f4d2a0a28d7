"""seeding a shape with particles: exactly the candidates inside it (plain Python around data-dependent shapes: executed path by path)"""
from .common import *
import importlib, contextlib, math
from jaxsym import core, pysym


def mod():
    return importlib.import_module("hydraxmpm.utils.generate_body")


class XE(pysym.X):
    """exact symbolic number that also works inside numpy object arrays"""
    __slots__ = ()

    def _bin(self, o, f, exact_int=True):
        o = pysym.X.lift(o)
        return NotImplemented if o is None else XE(f(self.s, o.s))
    for _n in ("add", "sub", "mul"):
        exec("def __%s__(self, o): return self._bin(o, core.%s)\n__r%s__ = lambda self, o: XE(pysym.X.lift(o).s)._bin(self, core.%s)" % (_n, _n, _n, _n))

    def __truediv__(self, o): return self._bin(o, core.div)
    def __rtruediv__(self, o): return XE(pysym.X.lift(o).s)._bin(self, core.div)
    def __neg__(self): return XE(core.neg(self.s))
    def floor(self): return XE(core.floor_(self.s))
    def ceil(self): return XE(core.neg(core.floor_(core.neg(self.s))))
    __floor__, __ceil__ = floor, ceil
    def rint(self): return XE(core.floor_(core.add(self.s, core.const(F(1, 2)))))
    def __round__(self, n=None): return self.rint()
    def trunc(self): return self.floor() if pysym._cur[0].decide(core.ge(self.s, core.const(0))) else self.ceil()
    __trunc__ = trunc
    __hash__ = object.__hash__

    def __int__(self):
        c = self.s.const
        if c is not None:
            return int(c)
        if self.s.lo < 0:
            self = self.trunc()
            if self.s.const is not None:
                return int(self.s.const)
        if not -50 < self.s.lo <= self.s.hi < 50:
            raise core.Unsupported("int() of a symbolic number")
        lo, hi = math.floor(self.s.lo), math.ceil(self.s.hi)
        for k in range(lo, hi):                     # one path per value
            if pysym._cur[0].decide(core.lt(self.s, core.const(k + 1))):
                return k
        return hi
    __index__ = __int__

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        if any(isinstance(i, np.ndarray) for i in ins):
            def box(i):
                if isinstance(i, np.ndarray):
                    return i
                b = np.empty((), dtype=object)
                b[()] = i
                return b
            return getattr(ufunc, method)(*[box(i) for i in ins], **kw)
        return super().__array_ufunc__(ufunc, method, *ins, **kw)


def xs(a):
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape):
        r[k] = XE(core.S_(a[k]))
    return r if r.ndim else r


class Shape:
    """half space a.(x - centre) < c, as an SDF object"""
    def __init__(self, a, c):
        self.a, self.c = a, c

    def create_state(self, center_of_mass=None, rotation=None, **kw):
        return ("state", center_of_mass, rotation)

    def get_signed_distance_stack(self, state, x):
        d = 0
        for k in range(x.shape[1]):
            d = d + (x[:, k] - state[1][k]) * self.a[k]
        return d - self.c


class AnyShape:
    """any shape whatever: a fresh distance for each of the points `want` (matched by position)"""
    def __init__(self, want, d, sym):
        self.want, self.d, self.sym, self.com = want, d, sym, None

    def create_state(self, center_of_mass=None, rotation=None, **kw):
        self.com = center_of_mass
        return ("state", center_of_mass, rotation)

    def get_signed_distance_stack(self, state, x):
        out = []
        for row in np.asarray(x):
            hit = [j for j, w in enumerate(self.want) if at(row, w)]
            out.append(self.d[hit[0]] if len(hit) == 1 else 0 * self.d[0] - 1)         # a point that should not be asked for: inside
        return np.array(out, dtype=object) if self.sym else jnp.asarray(out)


class _Rng:
    """jax.random seen by the code: any numbers in [0, 1)"""
    def __init__(self, u):
        self.u, self.calls = u, []

    def split(self, key, num=2):
        self.calls.append(("split", key))
        return ["sub%d" % i + str(key) for i in range(num)]

    def uniform(self, key, shape=(), dtype=float, minval=0.0, maxval=1.0):
        self.calls.append(("uniform", key, tuple(shape)))
        if tuple(shape) != self.u.shape:
            raise ValueError("shape %s" % (shape,))
        return minval + self.u * (maxval - minval)


@contextlib.contextmanager
def shadow(m, symbolic, rng=None):
    saved = {k: m.__dict__.get(k) for k in ("jnp", "jax")}
    try:
        if symbolic:
            m.jnp = np
        if rng is not None:
            import types
            m.jax = types.SimpleNamespace(random=rng)
        yield
    finally:
        for k, v in saved.items():
            m.__dict__[k] = v


def cover(rows, want):
    """per expected point the number of returned rows at it, and the number of rows"""
    cov = []
    for w in want:
        t = core.const(0)
        f = 0
        for r in rows:
            same, hit = core.TRUE, True
            for x, y in zip(r, w):
                if isinstance(x, pysym.X) or isinstance(y, core.S):
                    d = core.sub(x.s if isinstance(x, pysym.X) else core.S_(x), core.S_(y))
                    if d.const is not None:
                        same = same if abs(d.const) <= F(1, 10 ** 6) else core.FALSE
                    else:
                        same = core.and_(same, core.and_(core.le(d, core.const(F(1, 10 ** 6))), core.ge(d, core.const(-F(1, 10 ** 6)))))
                    if same is core.FALSE:
                        break
                elif abs(float(x) - float(y)) > 1e-4:
                    hit = False
                    break
            if same is core.TRUE:
                f += 1 if hit else 0
            elif same is not core.FALSE:
                t = core.add(t, core.ite(same, core.const(1), core.const(0)))
        cov.append(pysym.X(core.add(t, core.const(f))) if t.const != 0 else f)
    return cov


def at(row, w):
    """same point, for every value of the parameters"""
    for x, y in zip(row, w):
        d = core.sub(core.S_(num(x)), core.S_(num(y))) if isinstance(num(x), core.S) or isinstance(num(y), core.S) else core.const(F(float(x) - float(y)))
        if d.const is None or abs(d.const) > F(1, 10 ** 4):
            return False
    return True


def num(x):
    return x.s if isinstance(x, pysym.X) else core.S_(x) if isinstance(x, core.S) else float(x)


def expected(A, dim, k0, k1, ppc):
    """centres of the equal sub-cells (at least ppc per cell) of every cell that overlaps the bounds"""
    n = 1
    while n ** dim < ppc:
        n += 1
    h = sl(A["h"])[()]
    out = []
    for cell in itertools.product(*[range(a, b) for a, b in zip(k0, k1)]):
        for sub in itertools.product(range(n), repeat=dim):
            out.append([h * (F(c) + F(2 * s + 1, 2 * n)) for c, s in zip(cell, sub)])
    return out


CALL = ["given", "centre", "middle"]


def regular(dim, k0, k1, ppc, how="middle"):
    """bounds anywhere in the cells k0 .. k1 - 1"""
    tot = len(expected({"h": np.array(F(1), dtype=object)}, dim, k0, k1, ppc))

    def build(P):
        h = sl(P["h"])[()]
        r = sl(P["r"])
        A = {"h": sl(h), "lo": np.array([h * (F(k0[d]) + r[0, d]) for d in range(dim)], dtype=object),
             "hi": np.array([h * (F(k1[d] - 1) + r[1, d]) for d in range(dim)], dtype=object), "a": sl(P["a"]), "c": sl(P["c"])}
        if how != "middle":
            A["com"] = sl(P["com"])
        return A

    def centre(A):
        return [A["com"][d] for d in range(dim)] if "com" in A else [(A["lo"][d] + A["hi"][d]) * F(1, 2) for d in range(dim)]

    def fn(A):
        sym = isinstance(sl(A["lo"]).reshape(-1)[0], core.S)
        m = mod()
        kw = {}
        if sym:
            B = {k: xs(v) for k, v in A.items()}
            B["h"] = B["h"][()]
        else:
            B = {k: jnp.asarray(np.asarray(v, dtype=float)) for k, v in A.items()}
            B["h"] = float(B["h"])
        sdf = Shape(B["a"], B["c"][()] if sym else B["c"])
        if how == "given":
            kw["sdf_state"] = sdf.create_state(B["com"])
        elif how == "centre":
            kw["center_of_mass"] = B["com"]
        with shadow(m, sym):
            pts = m.generate_particles_in_sdf(sdf_obj=sdf, bounds_min=B["lo"], bounds_max=B["hi"], mode="regular", cell_size=B["h"], ppc=ppc, **kw)
        rows = [list(r) for r in np.asarray(pts)]
        return dict(n=len(rows), cov=cover(rows, expected(A, dim, k0, k1, ppc)), dim=(len(rows[0]) if rows else dim))

    def post(P, A, O, obs):
        c = centre(A)
        want = expected(A, dim, k0, k1, ppc)
        eps = F(1, 1000)
        obs.eq("dimension", O["dim"], dim, 0)
        obs.eq("nothing-else", O["n"], total(O["cov"]), F(1, 100))
        for j, p in enumerate(want):
            d = dot(A["a"], [p[k] - c[k] for k in range(dim)]) - A["c"][()]
            obs.eq("inside-kept-once", O["cov"][j], 1, F(1, 100), when=d < -eps)
            obs.eq("outside-left-out", O["cov"][j], 0, F(1, 100), when=d > eps)
    p = {"h": (None, F(1, 10), 2), "r": ((2, dim), F(1, 20), F(19, 20)), "a": (dim, -1, 1), "c": (None, -1, 1)}
    if how != "middle":
        p["com"] = (dim, -1, 1)
    return Case("regular-%dd-%d-ppc%d-%s" % (dim, tot, ppc, how), p, build, fn, post, functions=["generate_particles_in_sdf"], typed=False, pymodules=lambda: [],
                bounds="%d candidate points, bounds anywhere in their cells, any cell size in [0.1,2], any half space" % tot, weight=tot / 4, atol=1e-3, rtol=1e-3)


def free(A, want, n, dim, post_com=None):
    """shared post of the cases with any shape: kept exactly where the distance is negative"""
    def post(P, A, O, obs):
        obs.eq("nothing-else", O["extra"], 0, 0)
        for j in range(n):
            d = A["d"][j]
            obs.eq("inside-kept-once", O["cov"][j], 1, F(1, 100), when=d < -F(1, 1000))
            obs.eq("outside-left-out", O["cov"][j], 0, F(1, 100), when=d > F(1, 1000))
        for k in range(dim):
            obs.eq("default-centre", O["com"][k], (A["lo"][k] + A["hi"][k]) * F(1, 2), F(1, 1000))
    return post


def call(A, dim, want, **kw):
    sym = isinstance(sl(A["lo"]).reshape(-1)[0], core.S)
    m = mod()
    B = {k: xs(v) if sym else jnp.asarray(np.asarray(v, dtype=float)) for k, v in A.items()}
    sdf = AnyShape(want, B["d"], sym)
    rng = _Rng(B["u"]) if "u" in B else None
    if "h" in B:
        kw["cell_size"] = B["h"][()] if sym else float(B["h"])
    with shadow(m, sym, rng):
        pts = m.generate_particles_in_sdf(sdf_obj=sdf, bounds_min=B["lo"], bounds_max=B["hi"], **kw)
    rows = [list(r) for r in np.asarray(pts)]
    cov = [sum(1 for r in rows if at(r, w)) for w in want]
    return dict(extra=len(rows) - sum(cov), cov=cov, com=[num(sdf.com[k]) for k in range(dim)])


def anyshape(dim, k0, k1, ppc):
    n = len(expected({"h": np.array(F(1), dtype=object)}, dim, k0, k1, ppc))

    def build(P):
        h, r = sl(P["h"])[()], sl(P["r"])
        return {"h": sl(h), "lo": np.array([h * (F(k0[d]) + r[0, d]) for d in range(dim)], dtype=object),
                "hi": np.array([h * (F(k1[d] - 1) + r[1, d]) for d in range(dim)], dtype=object), "d": sl(P["d"])}

    def fn(A):
        return call(A, dim, expected(A, dim, k0, k1, ppc), mode="regular", ppc=ppc)
    return Case("regular-any-shape-%dd-%d-ppc%d" % (dim, n, ppc), {"h": (None, F(1, 10), 2), "r": ((2, dim), F(1, 20), F(19, 20)), "d": (n, -1, 1)}, build, fn,
                free(None, None, n, dim), functions=["generate_particles_in_sdf"], typed=False, pymodules=lambda: [],
                bounds="%d candidate points, bounds anywhere in their cells, any cell size in [0.1,2], any shape" % n, weight=n / 4, atol=1e-3, rtol=1e-3)


def rand(dim, n):
    def build(P):
        return {"lo": sl(P["lo"]), "hi": np.array([sl(P["lo"])[d] + sl(P["w"])[d] for d in range(dim)], dtype=object), "u": sl(P["u"]), "d": sl(P["d"])}

    def fn(A):
        want = [[A["lo"][d] + sl(A["u"])[j, d] * (A["hi"][d] - A["lo"][d]) for d in range(dim)] for j in range(n)]
        return call(A, dim, want, mode="random", num_particles=n, key="k")
    # samples kept apart, so that each is one point
    lo = [[F(2 * j, 2 * n)] * dim for j in range(n)]
    hi = [[F(2 * j + 1, 2 * n)] * dim for j in range(n)]
    p = {"lo": (dim, -2, 2), "w": (dim, F(1, 10), 3), "u": ((n, dim), lo, hi), "d": (n, -1, 1)}
    return Case("random-%dd-%d" % (dim, n), p, build, fn, free(None, None, n, dim), functions=["generate_particles_in_sdf"], typed=False, pymodules=lambda: [],
                bounds="%d samples anywhere in their part of the bounds (jax.random as its contract), any shape" % n, weight=n / 3, atol=1e-3, rtol=1e-3)


def cases(tier, seed):
    out = [regular(1, (-1,), (2,), 2), regular(1, (0,), (3,), 1, "given"), regular(1, (2,), (4,), 3, "centre"),
           regular(2, (-1, 1), (2, 3), 1), regular(2, (0, -1), (1, 0), 4, "centre"), regular(2, (1, 0), (2, 1), 3, "given"), regular(2, (-2, 1), (-1, 2), 4),
           regular(3, (0, -1, 2), (2, 1, 3), 1), regular(3, (-1, 0, 1), (1, 1, 3), 1, "centre"), anyshape(2, (-1, 1), (0, 2), 4), anyshape(2, (-1, 0), (1, 3), 1),
           anyshape(1, (-1,), (1,), 2), anyshape(3, (0, -2, 1), (2, -1, 2), 1), rand(1, 4), rand(2, 4), rand(3, 3)]
    if tier == "thorough":
        out += [regular(2, (0, -1), (2, 0), 4), regular(3, (0, 0, -1), (1, 1, 0), 8), regular(3, (0, 0, -1), (1, 1, 0), 5, "given"), regular(1, (-2,), (2,), 2),
                rand(2, 6)]
    return out
