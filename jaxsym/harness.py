"""Cases, obligations, counterexample search, replay, evidence."""
from __future__ import annotations
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    """make /repo importable (current working tree), with exact summaries for small linear algebra"""
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    import warnings
    warnings.filterwarnings("ignore")
    import jax
    import jax.numpy as jnp
    from . import libstubs
    libstubs.install()
    import hydraxmpm
    assert os.path.abspath(hydraxmpm.__file__).startswith(os.path.abspath(REPO) + os.sep), hydraxmpm.__file__
    return hydraxmpm


# ----------------------------------------------------------------------- polymorphic spec helpers
def _issym(x):
    from . import core
    return isinstance(x, (core.S, core.C))


def issym(*xs):
    for x in xs:
        if isinstance(x, np.ndarray):
            if x.dtype == object and x.size and _issym(x.reshape(-1)[0]):
                return True
        elif _issym(x):
            return True
    return False


def _lift1(f_sym, f_num):
    def g(*xs):
        if any(isinstance(x, np.ndarray) and x.ndim for x in xs):
            return np.frompyfunc(lambda *a: g(*a), len(xs), 1)(*xs)
        xs = [x[()] if isinstance(x, np.ndarray) else x for x in xs]
        if any(_issym(x) for x in xs):
            return f_sym(*xs)
        return f_num(*xs)
    return g


class sp:
    """specification operators valid on symbolic scalars and on floats"""

    @staticmethod
    def _c():
        from . import core
        return core

    sqrt = staticmethod(_lift1(lambda a: sp._c().sqrt(sp._c().S_(a)), lambda a: math.sqrt(max(a, 0.0)) if a > -1e-9 else math.nan))
    abs = staticmethod(_lift1(lambda a: sp._c().abs_(a), abs))
    exp = staticmethod(_lift1(lambda a: sp._c().exp_(a), math.exp))
    log = staticmethod(_lift1(lambda a: sp._c().log_(a), lambda a: math.log(a) if a > 0 else math.nan))
    sin = staticmethod(_lift1(lambda a: sp._c().sin_(a), math.sin))
    cos = staticmethod(_lift1(lambda a: sp._c().cos_(a), math.cos))
    pow = staticmethod(_lift1(lambda a, b: sp._c().pow_(sp._c().S_(a), sp._c().S_(b)), lambda a, b: a ** b if a > 0 else math.nan))
    max = staticmethod(_lift1(lambda a, b: sp._c().max_(sp._c().S_(a), sp._c().S_(b)), max))
    min = staticmethod(_lift1(lambda a, b: sp._c().min_(sp._c().S_(a), sp._c().S_(b)), min))

    @staticmethod
    def expm(m):
        m = np.asarray(m, dtype=object)
        if issym(m):
            from . import interp
            return interp.expm_(m)
        from scipy.linalg import expm
        return expm(m.astype(np.float64)).astype(object)

    @staticmethod
    def ite(c, a, b):
        core = sp._c()
        if isinstance(c, core.C):
            return core.ite(c, core.S_(a), core.S_(b))
        return a if c else b

    @staticmethod
    def and_(*cs):
        core = sp._c()
        r = True
        for c in cs:
            if isinstance(c, core.C) or isinstance(r, core.C):
                r = core.and_(_tc(r), _tc(c))
            else:
                r = bool(r) and bool(c)
        return r

    @staticmethod
    def or_(*cs):
        core = sp._c()
        r = False
        for c in cs:
            if isinstance(c, core.C) or isinstance(r, core.C):
                r = core.or_(_tc(r), _tc(c))
            else:
                r = bool(r) or bool(c)
        return r

    @staticmethod
    def not_(c):
        core = sp._c()
        return core.not_(c) if isinstance(c, core.C) else not c

    @staticmethod
    def implies(a, b):
        return sp.or_(sp.not_(a), b)


def _tc(c):
    from . import core
    return c if isinstance(c, core.C) else core.bconst(bool(c))


def dot(a, b):
    t = 0
    for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
        t = x * y + t
    return t


def matmul(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    out = np.empty((a.shape[0],) + b.shape[1:], dtype=object)
    for i in range(a.shape[0]):
        if b.ndim == 1:
            out[i] = dot(a[i], b)
        else:
            for j in range(b.shape[1]):
                out[i, j] = dot(a[i], b[:, j])
    return out


def det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    t = 0
    for j in range(n):
        mm = np.delete(np.delete(m, 0, 0), j, 1)
        t = t + m[0, j] * det(mm) * (-1) ** j
    return t


def trace(m):
    t = 0
    for i in range(m.shape[0]):
        t = t + m[i, i]
    return t


def outer(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return np.array([[x * y for y in b] for x in a], dtype=object)


def eye(n):
    return np.array([[Fraction(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)


def total(xs):
    t = 0
    for x in np.asarray(xs, dtype=object).reshape(-1):
        t = x + t
    return t


class Ob:
    """one obligation; `viol(tolscale)` decides concretely, `neg` symbolically"""
    __slots__ = ("label", "kind", "a", "b", "tol", "when")

    def __init__(self, label, kind, a, b, tol, when):
        self.label, self.kind, self.a, self.b, self.tol, self.when = label, kind, a, b, tol, when

    def neg(self):
        from . import core
        if self.kind == "true":
            n = core.not_(_tc(self.a))
        else:
            a, b = core.S_(self.a), core.S_(self.b)
            tol = core.S_(self.tol)
            if self.kind == "eq":
                d = core.sub(a, b)
                iv = (d.lo, d.hi)
                n = core.or_(core.cmp0(core.sub(d, tol).p, ">"), core.cmp0(core.sub(core.neg(d), tol).p, ">"))
            else:
                d = core.sub(core.sub(b, a), tol)
                n = core.cmp0(d.p, ">", (d.lo, d.hi))
        if self.when is not None:
            n = core.and_(_tc(self.when), n)
        return n

    def bad(self):
        from . import core
        r = core.FALSE
        for x in (self.a, self.b):
            if isinstance(x, core.S) and x.bad is not None:
                r = core.or_(r, x.bad)
        if r is not core.FALSE and self.when is not None:
            r = core.and_(_tc(self.when), r)
        return r

    def concrete(self, slack=0.5):
        """True if violated on concrete values"""
        if self.when is not None and not bool(self.when):
            return False
        if self.kind == "true":
            return not bool(self.a)
        a, b, tol = float(self.a), float(self.b), float(self.tol)
        if not (math.isfinite(a) and math.isfinite(b)):
            return True
        thr = max(slack * tol, 2e-6 * max(1.0 if tol == 0 else 0.0, abs(a), abs(b)))   # float32 rounding
        if self.kind == "eq":
            return abs(a - b) > thr
        return b - a > thr


class Obs(list):
    def __init__(self, tol=1e-3):
        super().__init__()
        self.tol = tol
        self.rates = None                              # symbolic run with Case.fix: (passes, derivative of a pass) per iterative solve

    def settles(self, label, error, total=1e-4, bound=1e-3):
        """all passes together shrink a small error of the iterate by `total` (its derivative per pass is at most total**(1/passes));
        on the real code: the remaining `error` is at most `bound`"""
        if self.rates is None:
            self.le(label, error, bound, 0)
            return
        from . import core
        for n, r in self.rates:
            q = Fraction(total ** (1.0 / n)).limit_denominator(1000) / r.shape[0]
            for k in np.ndindex(*r.shape):
                x = core.S_(r[k])
                w = core.not_(x.bad) if x.bad is not None else None
                x = core.S(x.p, x.lo, x.hi, None)
                off = k[0] != k[-1]
                self.append(Ob(label, "ge", q * (1 if off else r.shape[0]), x, 0, w))
                self.append(Ob(label, "ge", x, -q * (1 if off else r.shape[0]), 0, w))

    def eq(self, label, a, b, tol=None, when=None):
        tol = self.tol if tol is None else tol
        a_, b_ = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a_.shape != b_.shape and b_.ndim and a_.ndim:
            raise ShapeError("%s: shape %s, expected %s" % (label, a_.shape, b_.shape))
        sh = np.broadcast_shapes(a_.shape, b_.shape)
        a_, b_ = np.broadcast_to(a_, sh), np.broadcast_to(b_, sh)
        for k in np.ndindex(*sh):
            self.append(Ob(label + (str(list(k)) if sh else ""), "eq", a_[k], b_[k], tol, when))

    def ge(self, label, a, b, tol=None, when=None):
        tol = self.tol if tol is None else tol
        a_, b_ = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        sh = np.broadcast_shapes(a_.shape, b_.shape)
        a_, b_ = np.broadcast_to(a_, sh), np.broadcast_to(b_, sh)
        for k in np.ndindex(*sh):
            self.append(Ob(label + (str(list(k)) if sh else ""), "ge", a_[k], b_[k], tol, when))

    def le(self, label, a, b, tol=None, when=None):
        self.ge(label, b, a, tol, when)

    def true(self, label, c, when=None):
        c_ = np.asarray(c, dtype=object)
        for k in np.ndindex(*c_.shape):
            self.append(Ob(label + (str(list(k)) if c_.shape else ""), "true", c_[k], None, 0, when))

    def defined(self, label, a, when=None):
        """value is a finite number"""
        a_ = np.asarray(a, dtype=object)
        for k in np.ndindex(*a_.shape):
            self.append(Ob(label + (str(list(k)) if a_.shape else ""), "eq", a_[k], a_[k], 1, when))

    def shape(self, label, a, shape):
        if tuple(np.asarray(a, dtype=object).shape) != tuple(shape):
            raise ShapeError("%s: shape %s, expected %s" % (label, np.asarray(a, dtype=object).shape, tuple(shape)))


class ShapeError(Exception):
    pass


class Case:
    """name; params: {pname: (shape|None, lo, hi)} ; build(P)->args ; fn(args)->outs (real code);
    pre(P, A)->conditions ; post(P, A, O, obs)"""

    def __init__(self, name, params, build, fn, post, pre=None, functions=(), bounds="", while_bound=0,
                 defined=True, nra_ms=6000, samples=1500, weight=1.0, budget=200.0, concrete_fn=None,
                 rtol=2e-3, atol=2e-4, prune_nra=0, validate=True, corner=True, typed=True, fallback=None, pymodules=None, eps0=False, havoc=False, overflow=False, exp_den=None, fix=None):
        self.name, self.params, self.build, self.fn, self.post, self.pre = name, params, build, fn, post, pre
        self.functions, self.bounds = functions, bounds
        self.while_bound, self.defined, self.nra_ms, self.samples = while_bound, defined, nra_ms, samples
        self.weight, self.budget = weight, budget
        self.concrete_fn = concrete_fn or fn
        self.rtol, self.atol = rtol, atol
        self.prune_nra = prune_nra
        self.validate = validate
        self.corner = corner
        self.exp_den = exp_den
        self.fix = fix                  # solution(s) of the iterative solve: P, A -> list of iterates (see interp._fixpoint)
        self.overflow = overflow        # quotients beyond the single-precision range count as undefined
        self.havoc = havoc              # iterative solves (scan) yield arbitrary values
        self.eps0 = eps0                # added regularisation terms (a coefficient <= 1e-10 times something at most one) are idealised to zero
        self.typed, self.fallback = typed, fallback
        self.pymodules = pymodules      # plain-Python code: executed symbolically by pysym instead of as a jaxpr


def _np(x):
    """JAX output tree -> numpy float64/obj tree"""
    import jax
    return jax.tree_util.tree_map(lambda v: np.asarray(v).astype(np.float64) if np.asarray(v).dtype.kind == "f"
                                  else np.asarray(v), x)


def to32(x):
    return float(np.float32(x))


class ConcreteRun:
    """the real code on concrete float32 inputs"""

    def __init__(self, case):
        self.case = case
        self.jitted = None

    def run(self, P):
        """P: {name: float | ndarray float}. -> (A, O) with values as seen by the code"""
        import jax
        import jax.numpy as jnp
        case = self.case
        A = case.build(P)
        if case.pymodules is not None:
            A = {k: np.asarray(v, dtype=float) if not isinstance(v, (int, str)) else v for k, v in A.items()}
            O = case.concrete_fn(A)
            return A, {k: np.asarray(v).astype(np.float64) for k, v in O.items()}

        def conv(v):
            v = np.asarray(v)
            if v.dtype == object or v.dtype.kind == "f":
                return np.array(v.astype(np.float64), dtype=np.float32)
            return v
        A32 = {k: conv(v) for k, v in A.items()}
        dev = {k: jnp.asarray(v) for k, v in A32.items()}
        if self.jitted is None:
            self.jitted = jax.jit(case.concrete_fn)
        try:
            O = self.jitted(dev)
        except Exception:
            O = case.concrete_fn(dev)
        A64 = {k: (v.astype(np.float64) if v.dtype.kind == "f" else v) for k, v in A32.items()}
        return A64, _np(O)

    def obligations(self, P):
        A, O = self.run(P)
        obs = Obs()
        self.case.post(P, A, O, obs)
        return obs, O


def shape_of(spec):
    s = spec[0]
    return () if s is None else (s if isinstance(s, tuple) else (s,))


def base_params(case):
    """float parameter arrays holding the lower bounds (the value of a parameter with equal bounds)"""
    P = {}
    for pn, spec in case.params.items():
        sh = shape_of(spec)
        P[pn] = np.array(np.broadcast_to(np.asarray(spec[1], dtype=object), sh)).astype(np.float32).astype(np.float64)
        if not sh:
            P[pn] = float(P[pn])
    return P


def run_case(case, seed, deadline):
    """run a case; if it cannot be encoded as given, its fallback (same claim, narrower bounds)"""
    import jaxtyping
    r = None
    while case is not None:
        jaxtyping.config.update("jaxtyping_disable", not case.typed)
        try:
            r2 = run_case1(case, seed, deadline)
        finally:
            jaxtyping.config.update("jaxtyping_disable", False)
        if r is not None:
            r2["notes2"] = r["notes"][:2]
        r = r2
        if r["status"] in ("ok", "violation") or case.fallback is None:
            return r
        case = case.fallback() if callable(case.fallback) else case.fallback
    return r


def run_case1(case, seed, deadline):
    """-> dict report"""
    from . import core, solve, interp, libstubs
    import jax
    t0 = time.time()
    solve.reset()
    solve._rb.clear()
    solve._nfmemo.clear()
    solve.stats.__init__()
    solve.PRUNE_NRA_MS = case.prune_nra
    core.ctx.eps0 = case.eps0
    core.ctx.overflow = case.overflow
    core.ctx.exp_den = case.exp_den
    rng = np.random.default_rng([seed, abs(hash_name(case.name)) % (2 ** 31)])
    rep = {"case": case.name, "status": "ok", "obligations": 0, "discharged": 0, "violations": [], "notes": [],
           "functions": list(case.functions), "bounds": case.bounds, "labels": []}

    def finish():
        s = solve.stats
        rep.update(queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown, solver_s=round(s.solver_s, 3),
                   normal_form=s.normal_form, prune_queries=s.prune_queries, wall_s=round(time.time() - t0, 2))
        return rep

    # 1. symbolic parameters
    P = {}
    order = []
    for pn, spec in case.params.items():
        sh = shape_of(spec)
        lo, hi = spec[1], spec[2]
        lo_a = np.broadcast_to(np.asarray(lo, dtype=object), sh)
        hi_a = np.broadcast_to(np.asarray(hi, dtype=object), sh)
        arr = np.empty(sh, dtype=object)
        for k in np.ndindex(*sh):
            nm = pn + "".join("_%d" % i for i in k)
            l, h = frac(lo_a[k]), frac(hi_a[k])
            if l == h:
                arr[k] = core.const(l)
                continue
            v = core.var(nm, l, h)
            (m, _), = v.p.items()
            order.append((m[0][0], pn, k, l, h))
            arr[k] = v
        P[pn] = arr if sh else arr[()]
    A = case.build(P)
    for a in A.values():
        if isinstance(a, np.ndarray) and a.dtype == object:
            for k in np.ndindex(*a.shape):
                if not _issym(a[k]):
                    a[k] = core.S_(a[k])
    pres = []
    if case.pre is not None:
        for c in case.pre(P, A):
            c = _tc(c)
            if c is core.FALSE:
                rep["status"] = "error"
                rep["notes"].append("vacuous: precondition is unsatisfiable")
                return finish()
            if c is not core.TRUE:
                pres.append(c)
                core.assume(c)
    # 2. samples satisfying the precondition (vacuity guard: confirmed by the solver at a pinned point)
    n = case.samples
    env = sample_env(order, n, rng, case.corner)
    ok = np.ones(n, bool)
    ev0 = solve.NumEval(env, n)
    for c in pres:
        ok &= ev0.cond(c)
    if ok.sum() < 20 and pres:
        # ask the solver for one model and jitter around it
        r, model = solve.nra_check(pres, 5000, want_model=True)
        if r == "sat":
            menv = solve.model_env(model, {o[0] for o in order})
            base = {a: float(menv.get(a, (l + h) / 2)) for a, _, _, l, h in order}
            for a, _, _, l, h in order:
                sc = 10.0 ** rng.uniform(-4, 0, n)
                env[a] = np.clip(base[a] + sc * (float(h) - float(l)) * rng.uniform(-1, 1, n), float(l), float(h))
                env[a][0] = base[a]
            ok = np.ones(n, bool)
            ev0 = solve.NumEval(env, n)
            for c in pres:
                ok &= ev0.cond(c)
            ok[0] = True
        elif r == "unsat":
            rep["status"] = "error"
            rep["notes"].append("vacuous: precondition is unsatisfiable")
            return finish()
    if not ok.any():
        rep["status"] = "error"
        rep["notes"].append("no sample satisfies the precondition")
        return finish()
    good = np.nonzero(ok)[0]
    env = {a: np.asarray([float(to32(x)) for x in v[good]]) if False else v[good].astype(np.float32).astype(np.float64)
           for a, v in env.items()}
    n = len(good)

    conc = ConcreteRun(case)

    def params_at(i):
        Q = base_params(case)
        for a, pn, k, l, h in order:
            if np.ndim(Q[pn]):
                Q[pn][k] = env[a][i]
            else:
                Q[pn] = float(env[a][i])
        return Q

    # 3. symbolic execution of the real code
    try:
        with libstubs.symbolic():
            if case.pymodules is not None:
                from . import pysym
                O, info = pysym.pysym_eval(case.fn, A, case.pymodules())
            else:
                O, info = interp.sym_eval(case.fn, A, case.while_bound, case.havoc, case.fix(P, A) if case.fix else None)
    except core.Unsupported as e:
        rep["status"] = "unknown"
        rep["notes"].append("not encodable: %s" % e)
        return finish()
    except Exception as e:
        # does the real code itself fail on a valid input?
        tb = traceback.format_exc()
        try:
            conc.run(params_at(0))
        except Exception as e2:
            if starved(e) or starved(e2):
                rep["status"] = "unknown"
                rep["notes"].append("out of memory")
                return finish()
            rep["status"] = "violation"
            rep["violations"].append({"label": "executes", "detail": "%s: %s" % (type(e2).__name__, str(e2)[:300]),
                                      "params": jsonable(params_at(0)), "confirmed_by": "real code raises on a valid input"})
            return finish()
        rep["status"] = "error"
        rep["notes"].append("symbolic execution failed: " + tb[-1500:])
        return finish()
    rep["eqns"] = info["eqns"]
    rep["jaxpr_eqns"] = info["jaxpr_eqns"]
    for c in info["unwind_left"]:
        if c is not core.FALSE:
            rep["status"] = "unknown"
            rep["notes"].append("loop not fully unrolled within the bound")
    # 4. obligations
    obs = Obs()
    if case.fix is not None:
        obs.rates = info["rates"]
    try:
        case.post(P, A, O, obs)
    except ShapeError as e:
        try:
            conc.obligations(params_at(0))
        except ShapeError as e2:
            rep["status"] = "violation"
            rep["violations"].append({"label": "shape", "detail": str(e2), "params": jsonable(params_at(0)),
                                      "confirmed_by": "real code"})
            return finish()
        rep["status"] = "error"
        rep["notes"].append("shape mismatch only symbolically: %s" % e)
        return finish()
    except core.Unsupported as e:
        rep["status"] = "unknown"
        rep["notes"].append("specification not encodable: %s" % e)
        return finish()
    rep["obligations"] = len(obs)
    rep["labels"] = sorted({o.label.split("[")[0] for o in obs})
    # 5. encoding validation
    if case.validate and info.get("rest", True):       # the encoding of an iterative solve holds where it rests (interp._fixpoint)
        bad = 0
        nv = min(3, n)
        flatO = [x for x in jax.tree_util.tree_leaves(O)]
        detail = None
        for j in range(nv):
            i = int(rng.integers(0, n))
            try:
                _, Oc = conc.run(params_at(i))
            except Exception as e:
                if starved(e):
                    continue
                rep["status"] = "violation"
                rep["violations"].append({"label": "executes", "detail": "%s: %s" % (type(e).__name__, str(e)[:300]),
                                          "params": jsonable(params_at(i)), "confirmed_by": "real code raises on a valid input"})
                return finish()
            ev = solve.NumEval({a: v[i:i + 1] for a, v in env.items()}, 1)
            mism = None
            for so, co in zip(flatO, jax.tree_util.tree_leaves(Oc)):
                for k in np.ndindex(*so.shape):
                    x = so[k]
                    if isinstance(x, core.C):
                        sv, cv = bool(ev.cond(x)[0]), bool(co[k])
                        if sv != cv:
                            mism = (sv, cv)
                    else:
                        if x.bad is not None and bool(ev.cond(x.bad)[0]):
                            continue
                        sv, cv = float(ev.poly(x.p)[0]), float(co[k])
                        if case.havoc and math.isnan(sv):
                            continue
                        if not (abs(sv - cv) <= case.atol + case.rtol * max(abs(sv), abs(cv))):
                            mism = (sv, cv)
            if mism:
                bad += 1
                detail = mism
        rep["validated_points"] = nv
        rep["validation_mismatch"] = bad
        if bad == nv and nv:
            rep["status"] = "error"
            rep["notes"].append("encoding disagrees with the real code: %r" % (detail,))
            return finish()
    # 6. discharge
    negs = []
    for o in obs:
        negs.append(("value", o, o.neg()))
        if case.defined:
            b = o.bad()
            if b is not core.FALSE:
                negs.append(("defined", o, b))
    seen = {}
    evs = solve.NumEval(env, n)
    reported = set()
    budget = min(deadline, t0 + case.budget)
    for kind, o, neg in negs:
        key = neg.id
        if key in seen:
            if seen[key] == "ok":
                if kind == "value":
                    rep["discharged"] += 1
            continue
        lab = o.label.split("[")[0] + (":defined" if kind == "defined" else "")
        if neg is core.FALSE:
            seen[key] = "ok"
            solve.stats.normal_form += 1
            if kind == "value":
                rep["discharged"] += 1
            continue
        if lab in reported:
            seen[key] = "v"
            continue
        # 6a. candidate by evaluating the encoding (model guess for the solver)
        cand = []
        try:
            mg = solve.margin(neg, evs)
            hit = np.nonzero(np.nan_to_num(mg, nan=1.0 if case.havoc else -1.0) > 0)[0] if kind == "value" else np.nonzero(evs.cond(neg))[0]
            if len(hit):
                hit = hit[np.argsort(-np.nan_to_num(mg[hit]))]
                cand = list(hit[:6]) + list(hit[rng.integers(0, len(hit), 6)])
        except KeyError:
            pass
        viol = None
        tried = 0
        for i in cand:
            tried += 1
            viol = confirm(case, conc, o, kind, neg, {a: env[a][i] for a, *_ in order}, order, solve, core)
            if viol:
                break
        res = None
        if viol is None:
            res = solve.refute(neg, min(budget, time.time() + max(5.0, case.nra_ms / 1000.0 * 4)), case.nra_ms,
                               info={"paths": 0, "why": None, "base": len(pres)})
            if isinstance(res, tuple):
                envm = res[1]
                fe = {a: float(envm.get(a, (l + h) / 2)) for a, _, _, l, h in order}
                viol = confirm(case, conc, o, kind, neg, fe, order, solve, core)
                if viol is None:
                    # jitter around the model
                    for _ in range(10):
                        f2 = {a: float(np.clip(fe[a] + 0.02 * float(h - l) * rng.normal(), float(l), float(h)))
                              for a, _, _, l, h in order}
                        if not all(bool(solve.NumEval({a: np.array([v]) for a, v in f2.items()}, 1).cond(c)[0]) for c in pres):
                            continue
                        viol = confirm(case, conc, o, kind, neg, f2, order, solve, core)
                        if viol:
                            break
        if viol:
            rep["violations"].append(viol)
            reported.add(lab)
            rep["status"] = "violation"
            seen[key] = "v"
        elif res == "unsat":
            seen[key] = "ok"
            if kind == "value":
                rep["discharged"] += 1
        else:
            seen[key] = "unknown"
            why = "solver returned a model that does not reproduce on the real code" if isinstance(res, tuple) \
                else "inconclusive"
            rep["notes"].append("%s: %s %s" % (o.label, kind, why))
            if rep["status"] == "ok":
                rep["status"] = "unknown"
            if len(rep["notes"]) > 8 or time.time() > budget:
                rep["notes"].append("giving up on remaining obligations")
                break
    return finish()


def starved(e):
    """the check ran out of memory (no statement about the code)"""
    return isinstance(e, MemoryError) or "RESOURCE_EXHAUSTED" in str(e) or "bad_alloc" in str(e) or "Out of memory" in str(e)


def confirm(case, conc, o, kind, neg, fenv, order, solve, core):
    """solver verdict at the pinned point, then replay on the real code"""
    P = base_params(case)
    pins = {}
    for a, pn, k, l, h in order:
        v = float(min(max(np.float32(fenv[a]), np.float32(float(l))), np.float32(float(h))))
        pins[a] = Fraction(v)
        if np.ndim(P[pn]):
            P[pn][k] = v
        else:
            P[pn] = v
    with np.errstate(all="ignore"):
        try:
            obs, _ = conc.obligations(P)
        except ShapeError as e:
            return {"label": o.label, "detail": str(e), "params": jsonable(P), "confirmed_by": "real code"}
        except Exception as e:
            if starved(e):
                return None
            return {"label": "executes", "detail": "%s: %s" % (type(e).__name__, str(e)[:300]), "params": jsonable(P),
                    "confirmed_by": "real code raises on a valid input"}
    m = [x for x in obs if x.label == o.label and x.kind == o.kind]
    if not m or not any(x.concrete() for x in m):
        return None
    # the precondition must hold at the float point as well
    A = case.build(P)
    if case.pre is not None:
        for c in case.pre(P, A):
            if not bool(c):
                return None
    r = solve.nra_check([neg], 3000, pins=pins)
    if r == "unsat" and kind == "value":        # over the reals the property holds here: what differs is rounding
        return None
    x = next(x for x in m if x.concrete())
    return {"label": o.label, "kind": kind, "detail": "%s: got %s, expected %s%s" % (
        o.kind, x.a, x.b, "" if o.kind == "true" else " (tol %s)" % x.tol),
        "params": jsonable(P), "solver_at_point": r, "confirmed_by": "replay on the real code"}


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def frac(x):
    if isinstance(x, (int, Fraction)):
        return x
    x = float(x)
    f = Fraction(repr(x))
    return f.numerator if f.denominator == 1 else f


def sample_env(order, n, rng, corner=True):
    env = {}
    mode = rng.integers(0, 4, n)
    for a, pn, k, l, h in order:
        lo, hi = float(l), float(h)
        u = rng.uniform(lo, hi, n)
        if corner:
            # some samples near bounds / near zero / log-scaled
            c = rng.choice([lo, hi, 0.0 if lo <= 0 <= hi else lo, 0.5 * (lo + hi)], n)
            pick = (mode == 1) & (rng.random(n) < 0.4)
            u = np.where(pick, c, u)
            if lo <= 0 <= hi:
                sc = 10.0 ** rng.uniform(-6, 0, n)
                u = np.where(mode == 2, u * sc, u)
            elif lo > 0 and hi / lo > 5:
                u = np.where(mode == 2, np.exp(rng.uniform(math.log(lo), math.log(hi), n)), u)
        env[a] = np.clip(u, lo, hi)
    return env


def jsonable(P):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in P.items()}
