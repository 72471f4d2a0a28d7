"""exports: what the VTK files and the Rerun stream hold (plain Python / NumPy code: executed path by path)"""
from .steps import *
from .c30 import Step, Tokens, TOK, TOP, ints, scratch
from .c34 import XE, xs
import contextlib, importlib, math, os, re, types
from jaxsym import core, pysym

CLOSE = F(1, 1000)
CAP = 1000              # samples in a surface case


def vtk():
    return importlib.import_module("hydraxmpm.common.vtk_io")


def rer():
    return importlib.import_module("hydraxmpm.common.rerun")


class XN(XE):
    """with the roots and norms that numpy asks object elements for"""
    __slots__ = ()

    def _bin(self, o, f, exact_int=True):
        o = pysym.X.lift(o)
        return NotImplemented if o is None else XN(f(self.s, o.s))
    for _n in ("add", "sub", "mul"):
        exec("def __%s__(self, o): return self._bin(o, core.%s)\n__r%s__ = lambda self, o: XN(pysym.X.lift(o).s)._bin(self, core.%s)" % (_n, _n, _n, _n))

    def __truediv__(self, o): return self._bin(o, core.div)
    def __rtruediv__(self, o): return XN(pysym.X.lift(o).s)._bin(self, core.div)
    def __neg__(self): return XN(core.neg(self.s))
    def __abs__(self): return XN(core.abs_(self.s))
    def sqrt(self): return XN(core.sqrt(self.s))
    def cbrt(self): return XN(core.pow_(self.s, core.const(F(1, 3))))
    def __pow__(self, n):
        n = F(float(n)).limit_denominator(12)
        return XN(core.pow_(self.s, core.const(n)))
    def __int__(self):
        """by cases: bisection over forks (each pruned by the solver)"""
        if self.s.const is not None:
            return int(self.s.const)
        d = lambda k: pysym._cur[0].decide(core.lt(self.s, core.const(k)))
        if d(0):
            return -int(-self)
        hi = 1
        while not d(hi):
            hi *= 2
            if hi > 1024:
                raise core.Unsupported("int() of a symbolic number")
        lo = hi // 2
        while hi - lo > 1:
            m = (lo + hi) // 2
            if d(m):
                hi = m
            else:
                lo = m
        return lo
    __index__ = __int__
    def conjugate(self): return self
    def isfinite(self): return True
    def isnan(self): return False
    def isinf(self): return False
    __hash__ = object.__hash__


def xn(a):
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape):
        r[k] = XN(core.S_(a[k]))
    return r if r.ndim else r[()]


def symbolic(A):
    return any(isinstance(x, core.S) for v in A.values() if not isinstance(v, (int, str)) for x in sl(v).reshape(-1))


class Np:
    """numpy for object arrays: the functions that insist on floats"""
    class linalg:
        @staticmethod
        def norm(x, ord=None, axis=None, keepdims=False):
            x = np.asarray(x)
            if x.dtype != object:
                return np.linalg.norm(x, ord, axis, keepdims)
            if ord not in (None, 2, "fro"):
                raise core.Unsupported("norm %r" % (ord,))
            return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))

    def nan_to_num(self, x, *a, **k):
        return x if np.asarray(x).dtype == object else np.nan_to_num(x, *a, **k)

    def __getattr__(self, n):
        return getattr(np, n)


def _roomy(name):
    """arrays that symbolic numbers may be stored in (float requests give object arrays)"""
    f = getattr(np, name)

    def g(self, *a, **kw):
        a = list(a)
        k = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "array": 1, "asarray": 1}.get(name)
        dt = kw.pop("dtype", None)
        if k is not None and len(a) > k:
            dt = a.pop(k)
        isfloat = dt is not None and np.issubdtype(np.dtype(dt), np.floating)
        if dt is not None and not isfloat:
            return f(*a, dtype=dt, **kw)
        r = f(*a, **kw)
        if name in ("zeros", "ones", "empty", "full"):
            return (np.zeros(r.shape) if name == "empty" else r).astype(object) if r.dtype.kind in "fO" or isfloat else r
        return r if r.dtype == object or not isfloat else r.astype(dt)
    return g


for _n in ("zeros", "ones", "empty", "full", "array", "asarray"):
    setattr(Np, _n, _roomy(_n))


# ---- stand-ins
class Mesh:
    def __init__(self, store, points=None, faces=None, lines=None, bounds=None, **kw):
        self.store, self.points, self.faces, self.lines, self.bounds = store, points, faces, lines, bounds
        self.point_data, self.field_data, self.cell_data = {}, {}, {}

    def save(self, path, **kw):
        self.store[os.path.realpath(path)] = self

    def __setitem__(self, k, v):
        self.point_data[k] = v


class PV:
    def __init__(self):
        self.files = {}

    def PolyData(self, points=None, faces=None, *a, **kw):
        return Mesh(self.files, points, faces, **kw)

    def Box(self, bounds=None, **kw):
        return Mesh(self.files, bounds=bounds)


class Call:
    def __init__(self, name, a, kw):
        self.name, self.a, self.kw = name, a, kw

    def get(self, pos, *names):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return self.a[pos]


class RR:
    """rerun: everything logged, in order"""
    def __init__(self):
        self.logged, self.times = [], {}

    def log(self, path, what, *a, **kw):
        self.logged.append((path, what, kw))

    def set_time(self, name, **kw):
        self.times[name] = kw

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n[0].isupper():
            if n in ("ViewCoordinates",):
                return types.SimpleNamespace(RIGHT_HAND_Y_UP="up")
            return lambda *a, **kw: Call(n, a, kw)
        return lambda *a, **kw: None


class Measure:
    """surface extraction: hands back chosen points of the sampled array (index coordinates)"""
    def __init__(self, frac=None):
        self.frac, self.grid = frac, None

    def vertices(self, grid):
        g = np.asarray(grid)
        self.grid = g
        v = [list(k) for k in np.ndindex(*g.shape)]
        f = [[k + (self.frac[j] if j == d else 0) for j, k in enumerate([0] * g.ndim)] for d in range(g.ndim)]
        return v, f

    def find_contours(self, grid, level=None, *a, **kw):
        v, f = self.vertices(grid)
        self.level = level
        dt = object if isinstance(self.frac[0], pysym.X) else float
        return [np.array(v, dtype=dt), np.array(f, dtype=dt)]

    def marching_cubes(self, grid, level=None, *a, **kw):
        v, f = self.vertices(grid)
        self.level = level
        if kw.get("spacing", (1.0, 1.0, 1.0)) != (1.0, 1.0, 1.0):
            raise core.Unsupported("spacing")
        dt = object if isinstance(self.frac[0], pysym.X) else float
        V = np.array(v + f, dtype=dt)
        n = len(V)
        self.normals = np.array([[F(3 * i + 1, 64), F(i - 7, 32), F(5 - i, 16)] for i in range(n)], dtype=float)
        self.faces = np.array([[i, (i + 3) % n, (2 * i + 1) % n] for i in range(5)])
        return V, self.faces, self.normals, np.zeros(n)


@contextlib.contextmanager
def shadow(m, **names):
    saved = {k: m.__dict__.get(k) for k in names}
    try:
        m.__dict__.update(names)
        yield
    finally:
        m.__dict__.update(saved)


def setup_vtk(m, sym, measure=None):
    n = dict(measure=measure, HAS_SKIMAGE=True) if measure is not None else {}
    pv = PV()
    if sym:
        n.update(pv=pv, np=Np(), jnp=Np())
    return pv, shadow(m, **n)


def visual(m, sym, measure=None):
    """a Rerun visualiser whose stream is recorded (no viewer is started)"""
    rr = RR()
    n = dict(rr=rr, rrb=RR())
    if sym:
        n.update(np=Np(), jnp=Np())
    if measure is not None:
        n.update(measure=measure, HAS_SKIMAGE=True)
    return rr, shadow(m, **n)


def material(A, sym, pre=""):
    g = lambda k: A[pre + k]
    n, dim = sl(g("pos")).shape
    f = dict(position_stack=g("pos"), velocity_stack=g("vel"), mass_stack=g("mass"), volume_stack=g("vol"), volume0_stack=g("vol0"), stress_stack=g("stress"))
    if sym:
        f = {k: xn(v) for k, v in f.items()}
        f.update(num_points=n, dim=dim)
        return types.SimpleNamespace(**f)
    return mp_state({"pos": jnp.asarray(g("pos")), "vel": jnp.asarray(g("vel")), "mass": jnp.asarray(g("mass")), "vol": jnp.asarray(g("vol")), "vol0": jnp.asarray(g("vol0")), "stress": jnp.asarray(g("stress"))})


def points(P, n, dim):
    s = sl(P["s"])
    return {"pos": sl(P["pos"]), "vel": sl(P["vel"]), "mass": sl(P["mass"]), "vol0": sl(P["vol0"]), "vol": sl(P["vol0"]) * 2 + 1,
            "stress": np.array([[[s[i, 0], s[i, 1], s[i, 2]], [s[i, 1], s[i, 3], s[i, 4]], [s[i, 2], s[i, 4], s[i, 5]]] for i in range(n)], dtype=object)}


def pparams(n, dim):
    return {"pos": ((n, dim), -5, 5), "vel": ((n, dim), -5, 5), "mass": (n, 1, 5), "vol0": (n, F(1, 100), 5), "s": ((n, 6), -5, 5)}


FIELD = {"velocity_stack": "vel", "stress_stack": "stress", "mass_stack": "mass", "position_stack": "pos"}


def radius(v, dim):
    """of the disc or ball with this volume"""
    q = v / F(math.pi) if dim == 2 else v * 3 / (4 * F(math.pi))
    if isinstance(q, core.S):
        return core.sqrt(q) if dim == 2 else core.pow_(q, core.const(F(1, 3)))
    return float(q) ** (1 / dim)


def named(files, root, label, step):
    """the files of a label with this number in their name"""
    out = []
    for p in files:
        r = os.path.relpath(p, os.path.realpath(root))
        d, f = os.path.split(r)
        k = re.findall(r"\d+", f)
        if os.path.normpath(d) == os.path.normpath(label) and k and int(k[-1]) == step:
            out.append(p)
    return out


def listing(root):
    return [os.path.realpath(os.path.join(d, f)) for d, _, fs in os.walk(root) for f in fs]


def read(pv, sym, path):
    if sym:
        return pv.files[path]
    import pyvista
    return pyvista.read(path)


def asnum(a):
    return np.asarray(a, dtype=object)


# ---- VTK
def vtk_points(dim, prop):
    n = 2
    p = dict(pparams(n, dim), scale=(None, F(1, 10), 3), time=(None, -10, 1000), k=(None, 0, TOP))

    def build(P):
        A = points(P, n, dim)
        A.update(scale=sl(P["scale"]), time=sl(P["time"]), k=ints(P["k"]))
        return A

    def fn(A):
        m, sym = vtk(), symbolic(A)
        TOK[0] = Tokens()
        pysym.PRUNE[0], pysym.MAXPATHS[0] = True, 600
        step = Step(core.S_(sl(A["k"])[()])) if sym else int(A["k"])
        pv, sh = setup_vtk(m, sym)
        with scratch() as d, sh:
            v = m.VTKVisualizer(output_dir=os.path.join(d, "out"))
            v.log_particles(material(A, sym), label="sim_1/points", property_name=prop, scale_radius=xn(A["scale"]) if sym else float(A["scale"]), time=xn(A["time"]) if sym else float(A["time"]), step=step)
            files = list(pv.files) if sym else listing(os.path.join(d, "out"))
            hit = named(files, os.path.join(d, "out"), "sim_1/points", step.__index__())
            r = dict(files=len(files), hit=len(hit))
            g = read(pv, sym, hit[0])
            r["pos"] = asnum(g.points)
            if prop is not None:
                r["data"] = asnum(g.point_data[prop]).reshape(n, -1)
            r["radius"], r["time"] = asnum(g.point_data["Radius"]), asnum(g.field_data["TimeValue"])
        return r

    def post(P, A, O, obs):
        obs.eq("one-file", O["files"], 1, 0)
        obs.eq("named-after-its-step", O["hit"], 1, 0)
        obs.eq("positions", O["pos"][:, :dim], A["pos"], CLOSE)
        obs.eq("flat-in-2d", O["pos"][:, dim:], np.full((n, 3 - dim), F(0), dtype=object), 0)
        if prop is not None:
            D = A[FIELD[prop]].reshape(n, -1)
            obs.eq("values", O["data"][:, :D.shape[1]], D, CLOSE)
            obs.eq("padding", O["data"][:, D.shape[1]:], np.full((n, O["data"].shape[1] - D.shape[1]), F(0), dtype=object), 0)
        obs.eq("radius", O["radius"], np.array([radius(A["vol0"][i], dim) * A["scale"][()] for i in range(n)], dtype=object), CLOSE)
        obs.eq("time", O["time"], np.array([A["time"][()]], dtype=object), CLOSE)
    return Case("vtk-points-%dd-%s" % (dim, (prop or "plain").replace("_stack", "")), p, build, fn, post, functions=["VTKVisualizer.log_particles"], typed=False, pymodules=lambda: [vtk()],
                bounds="two particles, any positions, values, volumes, radius scale, time, step number in [0, %d]" % TOP, atol=2e-3, rtol=1e-3)


def vtk_names():
    """several logs into the same and different labels: every (label, step) keeps what was logged last for it"""
    L = ["a", "b/c", "a"]
    n = len(L)

    def build(P):
        return {"k": ints(P["k"])}

    def fn(A):
        m, sym = vtk(), symbolic(A)
        TOK[0] = Tokens()
        pysym.PRUNE[0], pysym.MAXPATHS[0] = True, 600
        ks = [Step(core.S_(x)) if sym else int(x) for x in sl(A["k"])]
        pv, sh = setup_vtk(m, sym)
        B = {"pos": np.zeros((1, 2)), "vel": np.zeros((1, 2)), "vol": np.ones(1), "vol0": np.ones(1), "stress": np.zeros((1, 3, 3))}
        with scratch() as d, sh:
            script = os.path.join(d, "script.py")
            v = m.VTKVisualizer("out", script)
            for i in range(n):
                mp = mp_state(dict({k: jnp.asarray(x) for k, x in B.items()}, mass=jnp.full(1, 1.0 + i)))
                v.log_particles(mp, label=L[i], property_name="mass_stack", time=0.0, step=ks[i])
            files = list(pv.files) if sym else listing(os.path.join(d, "out"))
            r = []
            for i in range(n):
                want = max(j for j in range(n) if L[j] == L[i] and (j == i or bool(ks[j] == ks[i])))
                hit = named(files, os.path.join(d, "out"), L[i], ks[i].__index__())
                r.append(float(np.asarray(read(pv, sym, hit[0]).point_data["mass_stack"], dtype=float)[0]) - 1 - want if len(hit) == 1 else -99)
        return dict(off=r)

    def post(P, A, O, obs):
        obs.eq("file-minus-last-logged", O["off"], np.full(n, F(0), dtype=object), 0)
    return Case("vtk-names", {"k": (n, 0, TOP)}, build, fn, post, functions=["VTKVisualizer.log_particles", "VTKVisualizer._save_vtk"], typed=False, pymodules=lambda: [vtk()],
                bounds="%d exports under two labels, any step numbers in [0, %d]" % (n, TOP), atol=1e-6, rtol=1e-6)


def box(lib, dim):
    """the drawn domain spans origin .. end + one cell (the last nodes)"""
    def build(P):
        return {"o": sl(P["o"]), "e": np.array([sl(P["o"])[i] + sl(P["w"])[i] for i in range(dim)], dtype=object), "h": sl(P["h"])}

    def fn(A):
        sym = symbolic(A)
        m = vtk() if lib == "vtk" else rer()
        o, e, h = (xn(A[k]) if sym else np.asarray(A[k], dtype=float) for k in ("o", "e", "h"))
        if not sym:
            h = float(h)
        o0 = [x for x in o]
        if lib == "vtk":
            pv, sh = setup_vtk(m, sym)
            with scratch() as d, sh:
                m.VTKVisualizer(output_dir=os.path.join(d, "out")).log_static_domain(o, e, h, label="box")
                files = list(pv.files) if sym else listing(os.path.join(d, "out"))
                g = read(pv, sym, files[0])
                b = list(g.bounds)
                ok = len(files) == 1 and os.path.relpath(files[0], os.path.realpath(d)).startswith("out/box/")
            lo, hi = b[0::2][:dim], b[1::2][:dim]
        else:
            rr, sh = visual(m, sym)
            with sh, keep(m):
                v = m.RerunVisualizer(root_path="root", mode="none")
                v.log_static_domain(origin=o, end=e, cell_size=h, label="box")
            (path, c, kw), = rr.logged
            mn, sz = np.asarray(c.get(0, "mins"))[0], np.asarray(c.get(1, "sizes"))[0]
            lo, hi = list(mn), [a + b for a, b in zip(mn, sz)]
            ok = path == "root/box" and c.name == "Boxes%dD" % dim and kw.get("static") is True
        kept = [a - b for a, b in zip(o, o0)]
        return dict(lo=lo, hi=hi, ok=int(ok), kept=kept)

    def post(P, A, O, obs):
        fl = [-1 if lib == "rerun" and dim == 2 and i == 1 else 1 for i in range(dim)]
        obs.eq("named", O["ok"], 1, 0)
        obs.eq("inputs-untouched", O["kept"], np.full(dim, F(0), dtype=object), 0)
        for i in range(dim):
            obs.eq("corner", O["lo"][i] * fl[i], A["o"][i], CLOSE)
            obs.eq("opposite-corner", O["hi"][i] * fl[i], A["e"][i] + A["h"][()], CLOSE)
    return Case("%s-box-%dd" % (lib, dim), {"o": (dim, -5, 5), "w": (dim, F(1, 10), 5), "h": (None, F(1, 100), 1)}, build, fn, post, functions=["log_static_domain"], typed=False,
                pymodules=lambda: [vtk(), rer()], bounds="any origin, end, cell size", atol=2e-3, rtol=1e-3)


@contextlib.contextmanager
def keep(m):
    """the visualiser's class flag and search path are put back"""
    f, p = m.RerunVisualizer._viewer_started, os.environ["PATH"]
    try:
        yield
    finally:
        m.RerunVisualizer._viewer_started, os.environ["PATH"] = f, p


class Half:
    """half space, remembering the state it was asked in"""
    def __init__(self, a, c):
        self.a, self.c, self.states = a, c, []

    def get_signed_distance_stack(self, state, x):
        self.states.append(state)
        d = 0
        for k in range(x.shape[1]):
            d = d + x[:, k] * self.a[k]
        return d - self.c


def surface(lib, dim, ratio, res, step=7):
    """surface points are placed where the shape was sampled, and the samples span the window"""
    def build(P):
        return {"o": sl(P["o"]), "e": np.array([sl(P["o"])[i] + sl(P["w"])[()] * ratio[i] for i in range(dim)], dtype=object), "a": sl(P["a"]), "c": sl(P["c"]), "t": sl(P["t"])}

    def fn(A):
        sym = symbolic(A)
        pysym.PRUNE[0], pysym.MAXPATHS[0] = True, 600
        B = {k: xn(v) if sym else np.asarray(v, dtype=float) for k, v in A.items()}
        ms = Measure(list(B["t"]))
        sdf = Half(B["a"] if sym else jnp.asarray(B["a"]), B["c"] if sym else float(B["c"]))
        m = vtk() if lib == "vtk" else rer()
        extra = {}
        if lib == "vtk":
            pv, sh = setup_vtk(m, sym, ms)
            with scratch() as d, sh:
                kw = dict(step=step, time=2.5) if step is not None else {}
                m.VTKVisualizer(output_dir=os.path.join(d, "out")).log_sdf(sdf, "state", B["o"], B["e"], resolution=res, label="wall", **kw)
                files = list(pv.files) if sym else listing(os.path.join(d, "out"))
                hit = named(files, os.path.join(d, "out"), "wall", step) if step is not None else files
                g = read(pv, sym, hit[0])
                W = asnum(g.points)
                ok = len(files) == len(hit) == 1 and (step is None or float(np.asarray(g.field_data["TimeValue"])[0]) == 2.5)
                if dim == 2:
                    n = int(np.prod(ms.grid.shape))
                    want = [n] + list(range(n)) + [dim] + list(range(n, n + dim))
                    ok = ok and [int(x) for x in np.asarray(g.lines).reshape(-1)] == want
                else:
                    ok = ok and [int(x) for x in np.asarray(g.faces).reshape(-1)] == [int(x) for f in ms.faces for x in [3] + list(f)]
                    extra["normals"] = unsigned(g.point_data["normals"], ms.normals)
            flip = 1
        else:
            rr, sh = visual(m, sym, ms)
            with sh, keep(m):
                v = m.RerunVisualizer(root_path="root", mode="none")
                v.log_sdf(sdf, "state", resolution=res, label="wall", static=True, start=B["o"], end=B["e"])
            (path, c, kw), = rr.logged
            ok = path == "root/wall" and kw.get("static") is True
            if dim == 2:
                strips = c.get(0, "strips")
                W = np.concatenate([asnum(s) for s in strips])
                ok = ok and len(strips) == 2 and c.name == "LineStrips2D"
                flip = -1
            else:
                W = asnum(c.get(0, "vertex_positions"))
                ok = ok and c.name == "Mesh3D" and np.array_equal(np.asarray(c.kw["triangle_indices"]), ms.faces)
                extra["normals"] = unsigned(c.kw["vertex_normals"], ms.normals)
                flip = 1
        W = W[:, :dim].copy()
        W[:, 1] = W[:, 1] * flip
        sh = ms.grid.shape
        G = ms.grid.reshape(-1)
        ok = ok and float(ms.level) == 0 and sdf.states == ["state"]
        mis = []
        for w, gval in zip(W[:len(G)], G):
            d = 0
            for k in range(dim):
                d = d + w[k] * B["a"][k]
            mis.append(d - B["c"] - gval)
        mis += [0] * (CAP - len(mis))
        # between samples: linear
        bet = []
        for d in range(dim):
            nxt = int(np.ravel_multi_index([min(1, sh[j] - 1) if j == d else 0 for j in range(dim)], sh))
            bet += [W[len(G) + d][k] - (W[0][k] * (1 - B["t"][d]) + W[nxt][k] * B["t"][d]) for k in range(dim)]
        first, lastp = W[0], W[len(G) - 1]
        lo = [B["o"][k] - first[k] for k in range(dim)]
        hi = [lastp[k] - B["e"][k] for k in range(dim)]
        # the finest spacing is the window over the resolution, up to a margin
        big = max(range(dim), key=lambda k: ratio[k])
        nxt = int(np.ravel_multi_index([min(1, sh[j] - 1) if j == big else 0 for j in range(dim)], sh))
        return dict(ok=int(ok), worst=mis, between=bet, before=lo, beyond=hi, fine=(B["e"][big] - B["o"][big]) * 1.5 - (W[nxt][big] - W[0][big]) * res, **extra)

    def post(P, A, O, obs):
        obs.eq("named-and-connected", O["ok"], 1, 0)
        for x in np.asarray(O["worst"]).reshape(-1):
            obs.eq("surface-where-sampled", x, 0, 5 * CLOSE)
        obs.eq("between-samples", O["between"], np.full(dim * dim, F(0), dtype=object), 5 * CLOSE)
        for k in range(dim):
            obs.ge("window-start", O["before"][k], 0, CLOSE)
            obs.ge("window-end", O["beyond"][k], 0, CLOSE)
        obs.ge("resolution", O["fine"], 0, CLOSE)
        if "normals" in O:
            obs.eq("normals", O["normals"], 0, CLOSE)
    p = {"o": (dim, -3, 3), "w": (None, 1, 4), "a": (dim, -1, 1), "c": (None, -1, 1), "t": (dim, F(1, 10), F(9, 10))}
    return Case("%s-surface-%dd-%d%s" % (lib, dim, res, "" if step is not None else "-static"), p, build, fn, post, functions=["log_sdf"], typed=False, pymodules=lambda: [],
                bounds="resolution %d, windows of aspect %s anywhere, any half space; the surface extraction (skimage) is a contract: points given in sample indices" % (res, ":".join(str(float(r)) for r in ratio)),
                atol=5e-3, rtol=2e-3)


def unsigned(N, M):
    """largest deviation of the normals, up to one common sign (skimage's convention is the other side)"""
    N, M = np.asarray(N, dtype=float), np.asarray(M, dtype=float)
    return float(min(np.max(np.abs(N - M)), np.max(np.abs(N + M))))


# ---- Rerun
def rr_points(dim, how, prop="velocity_stack"):
    n = 2
    p = dict(pparams(n, dim), scale=(None, F(1, 10), 3))
    if how == "range":
        p["v"] = (None, -1, 1)
        p["dv"] = (None, F(1, 10), 10)
    if how == "color":
        p["col"] = (3, 0, 255)

    def build(P):
        A = points(P, n, dim)
        A.update({k: sl(P[k]) for k in ("scale", "v", "dv", "col") if k in P})
        return A

    def pre(P, A):
        if how not in ("auto",):
            return []
        q = [nrm(A, prop, i) for i in range(n)]
        return [abs_(q[0] - q[1]) >= F(1, 50)]

    def fn(A):
        m, sym = rer(), symbolic(A)
        pysym.PRUNE[0], pysym.MAXPATHS[0] = True, 600
        rr, sh = visual(m, sym)
        B = {k: xn(A[k]) if sym else np.asarray(A[k], dtype=float) for k in ("scale", "v", "dv", "col") if k in A}
        kw = {}
        if how == "range":
            kw.update(v_min=B["v"], v_max=B["v"] + B["dv"])
        if how == "color":
            kw.update(color=B["col"])
        mp = material(A, sym)
        with sh, keep(m):
            v = m.RerunVisualizer(root_path="root", mode="none")
            v.log_time(12, 3.5)
            v.log_material_points(mp, label="pts", property_name=prop, cmap=lambda x: x, scale_radius=B["scale"], **kw)
        (path, c, _), = rr.logged
        ok = path == "root/pts" and c.name == "Points%dD" % dim and rr.times["step"] == {"sequence": 12} and list(rr.times["sim_time"].values()) == [3.5]
        # the simulation's own arrays stay as they were
        back = np.asarray(mp.position_stack)
        kept = [back[i, k] - (xn(A["pos"]) if sym else np.asarray(A["pos"], dtype=float))[i, k] for i in range(n) for k in range(dim)]
        return dict(ok=int(ok), pos=asnum(c.get(0, "positions")), radius=asnum(c.kw["radii"]), colors=asnum(c.kw["colors"]), kept=kept)

    def post(P, A, O, obs):
        obs.eq("named-and-timed", O["ok"], 1, 0)
        obs.eq("state-untouched", O["kept"], np.full(n * dim, F(0), dtype=object), CLOSE)
        W = A["pos"].copy()
        if dim == 2:
            W[:, 1] = W[:, 1] * F(-1)
        obs.eq("positions", O["pos"], W, CLOSE)
        obs.eq("radius", O["radius"], np.array([radius(A["vol0"][i], dim) * A["scale"][()] for i in range(n)], dtype=object), CLOSE)
        if how == "color":
            obs.eq("colors", O["colors"], np.array([list(A["col"])] * n, dtype=object), CLOSE)
            return
        q = [nrm(A, prop, i) for i in range(n)]
        for i in range(n):
            if how == "range":
                obs.eq("colors", O["colors"][i] * A["dv"][()], q[i] - A["v"][()], 5 * CLOSE)
            else:           # the smaller is 0, the larger 1
                obs.eq("smallest", O["colors"][i], 0, 5 * CLOSE, when=q[i] < q[1 - i])
                obs.eq("largest", O["colors"][i], 1, 5 * CLOSE, when=q[i] > q[1 - i])
    return Case("rerun-points-%dd-%s-%s" % (dim, how, prop.replace("_stack", "")), p, build, fn, post, pre=pre, functions=["RerunVisualizer.log_material_points", "RerunVisualizer.log_time"], typed=False,
                pymodules=lambda: [rer()], bounds="two particles, any positions, values, volumes, radius scale, colour range", atol=3e-3, rtol=1e-3)


def abs_(x):
    return core.abs_(x) if isinstance(x, core.S) else abs(x)


def nrm(A, prop, i):
    v = sl(A[FIELD[prop]])[i]
    if np.ndim(v) == 0:
        return v
    t = F(0)
    for x in np.asarray(v, dtype=object).reshape(-1):
        t = t + x * x
    return core.sqrt(t) if isinstance(t, core.S) else math.sqrt(t)


def cases(tier, seed):
    deep = tier == "thorough"
    out = [vtk_names()]
    for dim in (2, 3):
        out += [vtk_points(dim, p) for p in ("velocity_stack", "stress_stack", "mass_stack", None)]
        out += [box(l, dim) for l in ("vtk", "rerun")]
        out += [rr_points(dim, h, p) for h, p in (("range", "velocity_stack"), ("auto", "velocity_stack"), ("range", "stress_stack"), ("auto", "mass_stack"), ("color", "velocity_stack"))]
    for l in ("vtk", "rerun"):
        out += [surface(l, 2, (F(1), F(3, 4)), 4), surface(l, 2, (F(1, 2), F(1)), 3), surface(l, 3, (F(1), F(1, 2), F(3, 4)), 3)]
        if deep:
            out += [surface(l, 2, (F(1), F(1)), 7), surface(l, 3, (F(1, 2), F(1), F(1)), 4)]
    out.append(surface("vtk", 2, (F(1), F(1)), 3, step=None))
    return out
