"""Symbolic execution of plain-Python float code (no JAX): numbers are S with an explicit relative rounding error per
operation (|d| <= 2^-52), so IEEE-double rounding is over-approximated; branches on undecided conditions are explored by
re-execution."""
from __future__ import annotations
import builtins
import math
from fractions import Fraction

import numpy as np

from . import core

EPS = Fraction(1, 2 ** 52)


class Fork(Exception):
    pass


class _Paths:
    def __init__(self):
        self.prefix, self.taken, self.conds = [], [], []
        self.forced = set()          # decisions with one feasible outcome (only with PRUNE)

    def decide(self, c):
        if c is core.TRUE:
            return True
        if c is core.FALSE:
            return False
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        if PRUNE[0] and i >= len(self.prefix):
            from . import solve
            if solve.nra_check(self.conds + [c], 2000) == "unsat":
                v = False
                self.forced.add(i)
            elif solve.nra_check(self.conds + [core.not_(c)], 2000) == "unsat":
                self.forced.add(i)
        self.taken.append(v)
        self.conds.append(c if v else core.not_(c))
        return v


_cur = [None]
_nd = [0]
MAXPATHS = [64]
PRUNE = [False]           # ask the solver whether a branch is feasible before taking it


def _rounded(s):
    if s.const is not None:
        return s
    _nd[0] += 1
    m = max(abs(s.lo), abs(s.hi))
    if not math.isfinite(m):
        raise core.Unsupported("unbounded intermediate value")
    b = EPS * Fraction(2 ** math.ceil(math.log2(m))) if m else Fraction(0)      # half an ulp (and more) at the largest magnitude
    d = core.var("rnd%d" % _nd[0], -b, b)
    return core.add(s, d)


class X:
    """a Python number (float or int) with symbolic value"""
    __slots__ = ("s", "isint")

    def __init__(self, s, isint=False):
        self.s, self.isint = s, isint

    @staticmethod
    def lift(o):
        if isinstance(o, X):
            return o
        if isinstance(o, core.S):
            return X(o)
        if isinstance(o, (bool, int, np.integer)):
            return X(core.const(int(o)), True)
        if isinstance(o, (float, np.floating)):
            return X(core.const(core.snap(float(o))))
        return None

    def _bin(self, o, f, exact_int=True):
        o = X.lift(o)
        if o is None:
            return NotImplemented
        r = f(self.s, o.s)
        if self.isint and o.isint and exact_int:
            return X(r, True)
        return X(_rounded(r))

    def __add__(self, o): return self._bin(o, core.add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, core.sub)
    def __rsub__(self, o): return X.lift(o)._bin(self, core.sub)
    def __mul__(self, o): return self._bin(o, core.mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, core.div, False)
    def __rtruediv__(self, o): return X.lift(o)._bin(self, core.div, False)

    def __floordiv__(self, o):
        o = X.lift(o)
        return X(core.floor_(_rounded(core.div(self.s, o.s))), self.isint and o.isint)

    def __rfloordiv__(self, o):
        return X.lift(o).__floordiv__(self)

    def __mod__(self, o):
        o = X.lift(o)
        return self - (self // o) * o

    def __neg__(self): return X(core.neg(self.s), self.isint)
    def __pos__(self): return self
    def __abs__(self): return X(core.abs_(self.s), self.isint)

    def __pow__(self, n):
        if isinstance(n, builtins.int) and 0 <= n <= 4:
            r = X.lift(1)
            for _ in range(n):
                r = r * self
            return r
        return NotImplemented

    def __floor__(self): return X(core.floor_(self.s), True)
    def __ceil__(self): return X(core.neg(core.floor_(core.neg(self.s))), True)

    def __trunc__(self):
        if self.s.lo >= 0:
            return X(core.floor_(self.s), True)
        pos = _cur[0].decide(core.ge(self.s, core.const(0)))
        return self.__floor__() if pos else self.__ceil__()

    def __round__(self, n=None):
        if n in (None, 0):
            return X(core.floor_(core.add(self.s, core.const(Fraction(1, 2)))), n is None)   # ties are not distinguished
        k = 10 ** n
        return X(core.div(core.floor_(core.add(core.mul(self.s, core.const(k)), core.const(Fraction(1, 2)))), core.const(k)))

    # numpy ufuncs on object arrays / scalars call these
    def floor(self): return X(core.floor_(self.s))
    def ceil(self): return X(core.neg(core.floor_(core.neg(self.s))))
    def rint(self): return X(core.floor_(core.add(self.s, core.const(Fraction(1, 2)))))
    def trunc(self): return X(self.__trunc__().s)
    def item(self): return self
    def __float__(self):
        if self.s.const is not None:
            return float(self.s.const)
        raise core.Unsupported("float() of a symbolic number outside the shadowed module")

    def __array_ufunc__(self, ufunc, method, *ins, **kw):
        if method == "__call__" and ufunc.nin == 1 and hasattr(self, ufunc.__name__):
            return getattr(self, ufunc.__name__)()
        ops = {"add": "__add__", "subtract": "__sub__", "multiply": "__mul__", "divide": "__truediv__", "true_divide": "__truediv__"}
        if method == "__call__" and ufunc.nin == 2 and ufunc.__name__ in ops:
            a = X.lift(ins[0])
            return getattr(a, ops[ufunc.__name__])(ins[1])
        return NotImplemented

    def _cmp(self, o, f):
        o = X.lift(o)
        if o is None:
            return NotImplemented
        return _cur[0].decide(f(self.s, o.s))

    def __lt__(self, o): return self._cmp(o, core.lt)
    def __le__(self, o): return self._cmp(o, core.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: core.lt(b, a))
    def __ge__(self, o): return self._cmp(o, core.ge)
    def __eq__(self, o): return self._cmp(o, lambda a, b: core.and_(core.le(a, b), core.ge(a, b)))
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = object.__hash__

    def __bool__(self):
        return not self.__eq__(0)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.float) or (builtins.isinstance(o, X) and not o.isint)


class _float(metaclass=_FMeta):
    def __new__(cls, x=0.0):
        return X(x.s) if builtins.isinstance(x, X) else builtins.float(x)


class _IMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.int) or (builtins.isinstance(o, X) and o.isint)


class _int(metaclass=_IMeta):
    def __new__(cls, x=0, *a):
        return (x if x.isint else x.__trunc__()) if builtins.isinstance(x, X) else builtins.int(x, *a)


def pysym_eval(fn, A, modules, max_paths=64):
    """run fn(A) for every feasible path; outputs are flat dicts name -> X/S/number. -> merged dict of object arrays"""
    saved = []
    for m in modules:
        for n, v in (("float", _float), ("int", _int)):
            saved.append((m, n, m.__dict__.get(n)))
            m.__dict__[n] = v
    results = []
    try:
        todo = [[]]
        while todo:
            if len(results) >= max(max_paths, MAXPATHS[0]):
                raise core.Unsupported("too many paths")
            pre = todo.pop()
            _cur[0] = p = _Paths()
            p.prefix = pre
            _nd[0] = 0
            out = fn(A)
            for i in range(len(pre), len(p.taken)):
                if i not in p.forced:
                    todo.append(p.taken[:i] + [False])
            cond = core.TRUE
            for c in p.conds:
                cond = core.and_(cond, c)
            if cond is not core.FALSE:
                results.append((cond, out))
    finally:
        for m, n, v in saved:
            if v is None:
                m.__dict__.pop(n, None)
            else:
                m.__dict__[n] = v

    def flat(v):
        a = np.asarray(v, dtype=object)
        r = np.empty(a.shape, dtype=object)
        for k in np.ndindex(*a.shape):
            r[k] = X.lift(a[k]).s
        return r
    outs = [(c, {k: flat(v) for k, v in o.items()}) for c, o in results]
    if not outs:
        raise core.Unsupported("no feasible path")
    c0, res = outs[-1]
    for c, o in outs[:-1]:
        for k in res:
            if res[k].shape != o[k].shape:
                raise core.Unsupported("shape depends on the path")
            r = np.empty(res[k].shape, dtype=object)
            for i in np.ndindex(*r.shape):
                r[i] = core.ite(c, o[k][i], res[k][i])
            res[k] = r
    return res, {"eqns": len(results), "jaxpr_eqns": 0, "unwind_left": []}
