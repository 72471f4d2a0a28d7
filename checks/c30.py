"""saving and loading: histories of saves with symbolic step numbers (the real module on a scratch directory; path per equality pattern)"""
from .steps import *
import builtins, contextlib, importlib, io, json, math, os, shutil, subprocess, tempfile
from jaxsym import core, pysym

TOP = 2000000            # step numbers 0 .. TOP


def mod():
    return importlib.import_module("hydraxmpm.common.sim_io")


class Tokens:
    """concrete integers standing for symbolic ones wherever the code asks for digits: one path per pattern of equalities and lengths"""
    def __init__(self):
        self.nums = []

    def text(self, s, width):
        return str(self.number(s)).zfill(width)

    def number(self, s):
        """a concrete integer in place of s: the same for equal numbers, another for others, with as many digits as s (at least 5)"""
        for t, name in self.nums:
            if pysym._cur[0].decide(core.and_(core.le(s, t), core.ge(s, t))):
                return name
        d = 5                        # numbers below 10**5 are not told apart by their length (mixed paddings up to 5 are not distinguished)
        while 10 ** d <= TOP and pysym._cur[0].decide(core.ge(s, core.const(10 ** d))):
            d += 1
        name = 10 ** (d - 1) + len(self.nums)
        self.nums.append((s, name))
        return name


class Text(str):
    """the digits of a symbolic integer"""
    def zfill(self, w):
        return TOK[0].text(self.s, w)

    def rjust(self, w, c=" "):
        return TOK[0].text(self.s, w) if c == "0" else str.rjust(self, w, c)


TOK = [None]


class Step(pysym.X):
    """a non-negative integer whose text is a token"""
    __slots__ = ()

    def __init__(self, s, isint=True):
        super().__init__(s, True)

    def __format__(self, spec):
        import re
        m = re.fullmatch(r"0?(\d*)d?", spec)
        if not m:
            raise core.Unsupported("format %r" % spec)
        return TOK[0].text(self.s, int(m.group(1) or 1))

    def __str__(self):
        t = Text(TOK[0].text(self.s, 1))
        t.s = self.s
        return t
    __repr__ = __str__

    def __index__(self):
        return TOK[0].number(self.s)
    __int__ = __index__

    def _bin(self, o, f, exact_int=True):
        r = super()._bin(o, f, exact_int)
        return Step(r.s) if isinstance(r, pysym.X) and r.isint else r

    def __floordiv__(self, o):
        return Step(core.floor_(core.div(self.s, pysym.X.lift(o).s)))

    def __mod__(self, o):
        return Step(core.sub(self.s, core.mul(self.__floordiv__(o).s, pysym.X.lift(o).s)))
    __hash__ = object.__hash__


@contextlib.contextmanager
def contained(root):
    """file removal only below root; no other programs"""
    root = os.path.realpath(root)
    saved = {}

    def inside(p):
        q = os.path.realpath(os.fspath(p))
        return q.startswith(root + os.sep)

    def guard(m, name, k=1, whole=False):
        f = getattr(m, name)
        saved[(m, name)] = f

        def g(*a, **kw):
            for p in a[:k]:
                if not inside(p):
                    raise PermissionError("outside the scratch directory: %s %s" % (name, p))
            if whole:
                undo()
            try:
                return f(*a, **kw)
            finally:
                if whole:
                    redo()
        setattr(m, name, g)
        new[(m, name)] = g

    def undo():
        for (m, n), f in saved.items():
            setattr(m, n, f)

    def redo():
        for (m, n), g in new.items():
            setattr(m, n, g)
    new = {}

    def refuse(*a, **k):
        raise PermissionError("no other programs here")
    try:
        for n in ("remove", "unlink", "rmdir", "removedirs"):
            guard(os, n)
        for n in ("rename", "replace", "renames"):
            guard(os, n, 2)
        guard(shutil, "rmtree", whole=True)
        guard(shutil, "move", 2, whole=True)
        for m, n in ((os, "system"), (os, "popen"), (subprocess, "Popen"), (subprocess, "run")):
            saved[(m, n)] = getattr(m, n)
            new[(m, n)] = refuse
            setattr(m, n, refuse)
        yield
    finally:
        undo()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c30_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with contained(d), contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def steps_of(A, name="s"):
    s = sl(A[name])
    sym = any(isinstance(x, core.S) for x in s.reshape(-1))
    if sym:
        TOK[0] = Tokens()
        pysym.PRUNE[0], pysym.MAXPATHS[0] = True, 600
    return [Step(core.S_(x)) if sym else int(x) for x in s.reshape(-1)]


def ints(v):
    """parameters (real) -> integers"""
    v = sl(v)
    r = np.empty(v.shape, dtype=object)
    for k in np.ndindex(*v.shape):
        x = v[k]
        r[k] = core.floor_(x) if isinstance(x, core.S) else math.floor(x)
    return r


def state(step, val, scheme="usl", full=False):
    """a simulation state whose every array holds numbers derived from val"""
    c = [0]

    def arr(*sh):
        c[0] += 1
        return jnp.asarray(np.arange(int(np.prod(sh))).reshape(sh) * 0.1 / 3 + val + c[0] / 7.0, dtype=jnp.float32)
    mps, laws, sols, fs = [], [], [], []
    for k in range(2 if full else 1):
        n = 2 + k
        mps.append(hdx.MaterialPointState(position_stack=arr(n, 2), velocity_stack=arr(n, 2), mass_stack=arr(n), force_stack=arr(n, 2), volume_stack=arr(n),
                                          volume0_stack=arr(n), L_stack=arr(n, 3, 3), stress_stack=arr(n, 3, 3), F_stack=arr(n, 3, 3),
                                          F_store_stack=arr(n, 3, 3) if k else None))
        laws.append(arr(n, 3) if full else None)
        sols.append(hdx.USLAFLIPState(Bp_stack=arr(n, 3, 3)) if scheme == "aflip" else hdx.USLSolverState())
    st = sim_state(mps, laws, sols, (arr(2),) if full else (), (arr(3), None) if full else (), dt=arr() * 1e-3, time=arr(), step=step)
    return st


def leaves(st):
    import jax
    return [np.asarray(x, dtype=np.float64).reshape(-1) for x in jax.tree_util.tree_leaves(st) if not isinstance(x, (pysym.X, int))]


def which(st, others):
    """index (1..) of the state all of whose numbers these are; 0 if none, -1 if several fields disagree"""
    a = leaves(st)
    for i, o in enumerate(others, 1):
        b = leaves(o)
        if len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b)):
            return i
    return -1


class Solv(hdx.Force):
    """stand-in for a solver: a module with arrays"""
    a: object
    b: object


def solv(v):
    return Solv(jnp.asarray([v, v / 3.0], dtype=jnp.float32), jnp.asarray(v * 0.7, dtype=jnp.float32))


def zero(k):
    return Step(core.const(0)) if isinstance(k, pysym.X) else 0


def load(m, d, k, skel=None, solver=None):
    """-> loaded (solver, state) or None if there is none"""
    try:
        return m.load_simulation(d, solver if solver is not None else solv(0.0), skel if skel is not None else state(zero(k), 0.0), k)
    except (FileNotFoundError, OSError) as e:
        if isinstance(e, PermissionError):
            raise
        return None


def last(steps, k, idx):
    """1-based index of the last save (of those in idx) with step k; 0 if none (on a symbolic run: decided by forking)"""
    r = 0
    for i in idx:
        if steps[i] == k:
            r = i + 1
    return r


def history(name, n, script, idx, note, base="data"):
    """script(m, dir, steps, states) performs the saves and names the directory to load from"""
    def build(P):
        return {"s": ints(P["s"]), "k": ints(P["k"])}

    def fn(A):
        m = mod()
        al = steps_of({"s": np.concatenate([sl(A["s"]).reshape(-1), sl(A["k"]).reshape(-1)])})
        steps, k = al[:-1], al[-1]
        with scratch() as d:
            keep = os.path.join(d, "keep.txt")
            open(keep, "w").write("x")
            sts = [state(s, 1.0 + i) for i, s in enumerate(steps)]
            where = script(m, d, steps, sts)
            r = load(m, where, k)
            safe = os.path.exists(keep)
        want = last(steps, k, idx)
        return dict(off=(0 if r is None else which(r[1], sts)) - want, solver=float(r[0].a[0]) if r is not None else 5.0, safe=int(safe))

    def post(P, A, O, obs):
        obs.eq("loaded-state-minus-last-saved", O["off"], 0, 0)
        obs.eq("solver", O["solver"], 5, F(1, 1000))
        obs.eq("neighbours-survive", O["safe"], 1, 0)
    return Case(name, {"s": (n, 0, TOP), "k": (None, 0, TOP)}, build, fn, post, functions=["SimIO.__init__", "SimIO.save_step", "SimIO.save_solver", "load_simulation"],
                typed=False, pymodules=lambda: [mod()], bounds="%s; any step numbers in [0, %d]" % (note, TOP), weight=n, atol=1e-6, rtol=1e-6)


def cases(tier, seed):
    def one(m, d, s, st):
        r = m.SimIO(output_dir=os.path.join(d, "data"))
        r.save_solver(solv(5.0))
        for x in st:
            r.save_step(x)
        return os.path.join(d, "data")

    def quiet(m, d, s, st):
        r = m.SimIO(os.path.join(d, "data"), None, False)
        for x in st:
            r.save_step(x, verbose=False)
        r.save_solver(solv(4.0), meta_info={"description": "first"})
        r.save_solver(solv(5.0), meta_info={"description": "text", "type": "other"})
        return os.path.join(d, "data")

    def resumed(m, d, s, st):
        r = m.SimIO(output_dir=os.path.join(d, "data"))
        r.save_solver(solv(5.0))
        for x in st[:-1]:
            r.save_step(x)
        r = m.SimIO(output_dir=os.path.join(d, "data"), overwrite=False)
        for x in st[-1:]:
            r.save_step(x)
        return os.path.join(d, "data")

    def restarted(m, d, s, st):
        r = m.SimIO(output_dir=os.path.join(d, "data"))
        r.save_solver(solv(3.0))
        for x in st[:-2]:
            r.save_step(x)
        r = m.SimIO(output_dir=os.path.join(d, "data"), overwrite=True)
        r.save_solver(solv(5.0))
        for x in st[-2:]:
            r.save_step(x)
        return os.path.join(d, "data")

    def cleared(m, d, s, st):
        m.SimIO(output_dir=os.path.join(d, "data")).save_step(st[0])         # no solver saved here
        r = m.SimIO(output_dir=os.path.join(d, "data"))
        r.save_step(st[1])
        r.save_solver(solv(5.0))
        return os.path.join(d, "data")

    def apart(m, d, s, st):
        os.makedirs(os.path.join(d, "run"))
        script = os.path.join(d, "run", "script.py")
        open(script, "w").write("pass")
        r = m.SimIO(output_dir="a", relative_dir=script)
        q = m.SimIO(output_dir="b", relative_dir=script)
        q.save_solver(solv(2.0))
        r.save_solver(solv(5.0))
        r.save_step(st[0])
        q.save_step(st[1])
        r.save_step(st[2])
        m.SimIO(output_dir="b", relative_dir=script)
        assert os.path.exists(script)
        return os.path.join(d, "run", "a")

    def nested(m, d, s, st):
        r = m.SimIO(output_dir=os.path.join(d, "out", "x", "data"), overwrite=False)
        q = m.SimIO(output_dir=os.path.join(d, "out", "x", "data2"), overwrite=True)
        r.save_solver(solv(5.0))
        r.save_step(st[0])
        q.save_step(st[1])
        return os.path.join(d, "out", "x", "data")
    n = 3
    out = [history("saves", n, one, range(n), "%d saves in one directory" % n), history("quiet", n - 1, quiet, range(n - 1), "%d silent saves, solver saved twice" % (n - 1)),
           history("resumed", n, resumed, range(n), "recorder re-opened without overwriting"), history("restarted", 3, restarted, (1, 2), "directory overwritten by a second recorder"),
           history("apart", 3, apart, (0, 2), "two recorders beside each other, one re-created"), history("cleared", 2, cleared, (1,), "directory with states only overwritten"), history("nested", 2, nested, (0,), "nested directories")]
    for scheme in ("usl", "aflip"):
        out.append(fields(scheme))
    return out


def fields(scheme):
    """every field of a full state and of a real solver comes back"""
    def build(P):
        return {"s": ints(P["s"]), "k": ints(P["k"])}

    def fn(A):
        import jax
        m = mod()
        s, k = steps_of({"s": np.concatenate([sl(A["s"]).reshape(-1), sl(A["k"]).reshape(-1)])})
        st, skel = state(s, 1.0, scheme, True), state(zero(k), 0.0, scheme, True)
        mk = lambda v: solver(scheme, 2, "quadratic", [domain(2, 4)], [Inert()],
                              (Solv(jnp.asarray([v, 2 * v], dtype=jnp.float32), jnp.asarray(v / 3, dtype=jnp.float32)),))
        sol, ssk = mk(3.0), mk(0.0)
        with scratch() as d:
            r = m.SimIO(output_dir=os.path.join(d, "data"))
            r.save_solver(sol)
            r.save_step(st)
            got = load(m, os.path.join(d, "data"), k, skel, ssk)
        there = int(s == k)
        if got is None:
            return dict(missing=there, bad=0, badsol=0)
        diff = lambda a, b: sum(int(x.shape != y.shape or not np.array_equal(x, y)) for x, y in zip(leaves(a), leaves(b))) + abs(len(leaves(a)) - len(leaves(b)))
        kinds = sum(int(getattr(x, "dtype", None) != getattr(y, "dtype", None)) for x, y in zip(jax.tree_util.tree_leaves(got[1]), jax.tree_util.tree_leaves(skel)))
        same = jax.tree_util.tree_structure(got[1]) == jax.tree_util.tree_structure(skel)
        return dict(missing=there - 1, bad=diff(got[1], st) + kinds + int(not same), badsol=diff(got[0], sol))

    def post(P, A, O, obs):
        obs.eq("found", O["missing"], 0, 0)
        obs.eq("fields-differing", O["bad"], 0, 0)
        obs.eq("solver-fields-differing", O["badsol"], 0, 0)
    return Case("fields-%s" % scheme, {"s": (1, 0, TOP), "k": (None, 0, TOP)}, build, fn, post, functions=["SimIO.save_step", "SimIO.save_solver", "load_simulation"],
                typed=False, pymodules=lambda: [mod()], bounds="two bodies, every kind of state, distinct numbers in every array; any step number", weight=1, atol=1e-6, rtol=1e-6)
