"""Exact symbolic scalars for the jaxpr executor.

S  : element of  Q[atoms, atoms^-1]  (Laurent polynomials over interned atoms), plus a sound
     floating interval enclosure and a definedness condition `bad`.
C  : boolean condition (hash-consed tree over polynomial comparisons).
Atoms: input variables, ite(c,a,b), sqrt(P), inv(P), floor(P), uninterpreted functions fn(P).
"""
from __future__ import annotations
import math
from fractions import Fraction

INF = math.inf


class Unsupported(Exception):
    """Construct outside the encodable fragment: the check is inconclusive (never success)."""


def _dn(x):
    return math.nextafter(x, -INF)


def _up(x):
    return math.nextafter(x, INF)


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "integer", "red")

    def __init__(self, id, kind, name, args, lo, hi, integer=False, red=False):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.lo, self.hi, self.integer, self.red = lo, hi, integer, red


class Ctx:
    def __init__(self):
        self.atoms = []
        self.intern = {}
        self.monomul = {}
        self.condtab = {}
        self.ncond = 0
        self.assumptions = []       # list of C
        self.stamp = 0              # bumps whenever the assumption set changes
        self.decide_memo = {}
        self.decider = None         # set by solve.py
        self.nfresh = 0
        self.havocs = {}
        self.nanbools = {}
        self.exp_den = None      # canonical products of exponentials (set by the case)
        self.overflow = False       # quotients beyond the single-precision range are undefined
        self.eps0 = False           # idealise added constants of magnitude <= 1e-10 to zero


ctx = Ctx()


def reset():
    global ctx, TRUE, FALSE
    dec = ctx.decider
    ctx.__init__()
    ctx.decider = dec
    TRUE = C("T", ())
    FALSE = C("F", ())
    _const_cache.clear()
    _bern.clear()


def _new_atom(key, kind, name, args, lo, hi, integer=False, red=False):
    a = ctx.intern.get(key)
    if a is None:
        a = Atom(len(ctx.atoms), kind, name, args, lo, hi, integer, red)
        ctx.atoms.append(a)
        ctx.intern[key] = a
    return a


# ----------------------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    key = (m1, m2)
    r = ctx.monomul.get(key)
    if r is not None:
        return r
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    r = tuple(out)
    ctx.monomul[key] = r
    return r


def _needs_red(m):
    at = ctx.atoms
    for a, e in m:
        if at[a].red and (e >= 2 or e < 0) and _reducible(at[a], e):
            return True
    return False


def _reducible(at, e):
    if at.kind == "sqrt":
        return True
    return e >= (3 if at.name == "cbrt" else 2)


MAXTERMS = 400000


class TooBig(Unsupported):
    pass


def poly_add(p, q, k=1):
    if not q:
        return p
    if not p and k == 1:
        return q
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if k == 1 else c * k)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def poly_mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 40 * MAXTERMS:
        raise TooBig("polynomial product %d x %d" % (len(p), len(q)))
    r = {}
    red = False
    anyred = ctx.__dict__.get("anyred", False)
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
                if anyred and not red and _needs_red(m):
                    red = True
            else:
                v = v + c1 * c2
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig("polynomial with %d terms" % len(r))
    if red:
        r = poly_reduce(r)
    return r


def poly_scale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: _norm(c * k) for m, c in p.items()}


def poly_reduce(p):
    """Rewrite s^k (s=sqrt(P)) and cos^k to canonical form."""
    todo = p
    out = {}
    while todo:
        nxt = {}
        for m, c in todo.items():
            hit = None
            for a, e in m:
                at = ctx.atoms[a]
                if at.red and (e >= 2 or e < 0) and _reducible(at, e):
                    hit = (a, e, at)
                    break
            if hit is None:
                out[m] = out.get(m, 0) + c
                if out[m] == 0:
                    del out[m]
                continue
            a, e, at = hit
            rest = tuple(t for t in m if t[0] != a)
            if at.kind == "sqrt":
                P = at.args[0]
                if e >= 2:
                    f = poly_pow(P, e // 2)
                    rem = e % 2
                else:
                    k = (-e + 1) // 2
                    f = poly_pow(poly_inv(P), k)
                    rem = e + 2 * k
            elif at.kind == "fn" and at.name == "cos":
                if e < 0:
                    out[m] = out.get(m, 0) + c
                    if out[m] == 0:
                        del out[m]
                    continue
                sn = fn_atom("sin", at.args[0], -1.0, 1.0)
                one_m = {(): 1, ((sn.id, 2),): -1}
                f = poly_pow(one_m, e // 2)
                rem = e % 2
            elif at.kind == "fn" and at.name == "cbrt":
                f = poly_pow(at.args[0], e // 3)
                rem = e % 3
            else:
                raise AssertionError(at.kind)
            base = mono_mul(rest, ((a, rem),)) if rem else rest
            for m2, c2 in f.items():
                mm = mono_mul(base, m2)
                nxt[mm] = nxt.get(mm, 0) + c * c2
                if nxt[mm] == 0:
                    del nxt[mm]
        todo = nxt
    return out


def poly_pow(p, n):
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = poly_mul(r, b)
        n >>= 1
        if n:
            b = poly_mul(b, b)
    return r


def poly_key(p):
    return frozenset(p.items())


def poly_const(p):
    """Fraction if constant else None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def mono_gcd(p):
    """common Laurent monomial (min exponents over all terms), for atoms that occur in every term"""
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a in d:
                first[a] = min(first[a], d[a])
            else:
                if first[a] < 0:
                    pass
                else:
                    del first[a]
        # negative exponents appearing only here
        for a, e in m:
            if e < 0 and a not in first:
                first[a] = e
    # negatives: min must include implicit 0
    return tuple(sorted((a, e) for a, e in first.items() if e))


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


def mono_order_key(m):
    # graded lex-ish total order (compatible with multiplication for non-negative exponents)
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def lead(p):
    return max(p, key=_lexkey)


def _lexkey(m):
    # lex order: higher atom id is bigger; encode as tuple sorted by atom desc
    return tuple((a, e) for a, e in reversed(m))


def poly_divexact(n, d, limit=200000):
    """q with n == q*d, or None. Lex order over atoms (all exponents of d are >= 0)."""
    if not n:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        mi = mono_inv(m)
        return {mono_mul(k, mi): _norm(Fraction(v) / c) for k, v in n.items()}
    ld = lead(d)
    lc = d[ld]
    # quick reject: every atom of lead(d) with its degree
    import heapq
    rem = dict(n)
    q = {}
    ldd = dict(ld)
    steps = 0
    dl = list(d.items())
    while rem:
        lm = max(rem, key=_lexkey) if len(rem) < 64 else max(rem, key=_lexkey)
        md = dict(lm)
        for a, e in ldd.items():
            if md.get(a, 0) < e:
                return None
        qm = mono_mul(lm, mono_inv(ld))
        qc = _norm(Fraction(rem[lm]) / lc)
        q[qm] = qc
        for m, c in dl:
            mm = mono_mul(qm, m)
            v = rem.get(mm, 0) - qc * c
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        steps += len(dl)
        if steps > limit or len(rem) > 4 * len(n) + 200:
            return None
    return q


def split_content(p):
    """p = coef * mono * primitive, primitive has lead coefficient 1 and no common monomial"""
    g = mono_gcd(p)
    if g:
        gi = mono_inv(g)
        p = {mono_mul(m, gi): c for m, c in p.items()}
    lc = p[lead(p)]
    if lc != 1:
        p = {m: _norm(Fraction(c) / lc) for m, c in p.items()}
    return lc, g, p


def poly_inv(p):
    """polynomial (over atoms) equal to 1/p (formally)."""
    assert p
    lc, g, prim = split_content(p)
    res = {mono_inv(g): _norm(1 / Fraction(lc))}
    if len(prim) == 1 and () in prim:
        return poly_reduce(res) if _needs_red(mono_inv(g)) else res
    if 3 <= len(prim) <= 60:
        q = poly_sqrt0(prim)
        if q is not None:                          # 1/q^2 = (1/q)^2
            i = poly_inv(q)
            return poly_mul(poly_mul(res, i), i)
    lo, hi = poly_interval(prim)
    if lo > 0:
        ilo, ihi = _dn(1.0 / hi) if hi != 0 else 0.0, _up(1.0 / lo)
        ilo = max(ilo, 0.0)
    elif hi < 0:
        ilo, ihi = _dn(1.0 / hi), min(_up(1.0 / lo), 0.0)
    else:
        ilo, ihi = -INF, INF
    a = _new_atom(("inv", poly_key(prim)), "inv", None, (prim,), ilo, ihi)
    res = poly_mul(res, {((a.id, 1),): 1})
    return res


# ----------------------------------------------------------------------------- intervals
def imul(a, b):
    (l1, h1), (l2, h2) = a, b
    c = []
    for x in (l1, h1):
        for y in (l2, h2):
            c.append(0.0 if (x == 0 or y == 0) else x * y)
    lo, hi = min(c), max(c)
    if lo == 0.0 and (l1 >= 0 and l2 >= 0 or h1 <= 0 and h2 <= 0):
        lo = 0.0
    else:
        lo = _dn(lo)
    if hi == 0.0 and (l1 >= 0 and h2 <= 0 or h1 <= 0 and l2 >= 0):
        hi = 0.0
    else:
        hi = _up(hi)
    return lo, hi


def ipow(iv, e):
    lo, hi = iv
    if e == 1:
        return iv
    if e < 0:
        if lo > 0 or hi < 0:
            nlo, nhi = (1.0 / hi if hi != INF and hi != -INF else 0.0), (1.0 / lo if lo not in (INF, -INF) else 0.0)
            if lo > 0:
                base = (max(0.0, _dn(nlo)), _up(nhi))
            else:
                base = (_dn(nlo), min(0.0, _up(nhi)))
            return ipow(base, -e)
        if lo == 0.0:
            try:
                return (0.0 if hi == INF else max(0.0, _dn((1.0 / hi) ** -e if hi else INF)), INF)
            except OverflowError:
                return (0.0, INF)
        if e % 2 == 0:
            return (0.0, INF)
        return (-INF, INF)
    try:
        pl, ph = lo ** e, hi ** e
    except OverflowError:
        return (0.0 if e % 2 == 0 or lo >= 0 else -INF, INF)
    if e % 2 == 0:
        if lo >= 0:
            return (max(0.0, _dn(pl)), _up(ph))
        if hi <= 0:
            return (max(0.0, _dn(ph)), _up(pl))
        return (0.0, _up(max(pl, ph)))
    nlo = _dn(pl) if pl != 0 else 0.0
    nhi = _up(ph) if ph != 0 else 0.0
    return nlo, nhi


def mono_interval(m):
    iv = None
    at = ctx.atoms
    for a, e in m:
        x = at[a]
        b = ipow((x.lo, x.hi), e)
        iv = b if iv is None else imul(iv, b)
    return iv if iv is not None else (1.0, 1.0)


def const_interval(c):
    f = float(c)
    if Fraction(f) == c:
        return f, f
    return _dn(f), _up(f)


def poly_interval(p):
    lo = hi = 0.0
    for m, c in p.items():
        if not m:
            l, h = const_interval(c)
        else:
            iv = mono_interval(m)
            l, h = imul(iv, const_interval(c)) if c != 1 else iv
        if lo != -INF:
            lo = l + lo if (l == 0 or lo == 0) else _dn(lo + l)
        if hi != INF:
            hi = h + hi if (h == 0 or hi == 0) else _up(hi + h)
    return lo, hi


# ----------------------------------------------------------------------------- scalars
import numpy as _np_
_ND = _np_.ndarray


class S:
    __slots__ = ("p", "lo", "hi", "bad")

    def __init__(self, p, lo, hi, bad=None):
        self.p, self.lo, self.hi, self.bad = p, lo, hi, bad

    # --- python operators so that specifications can be written naturally
    def __add__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return add(self, S_(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return sub(self, S_(o))

    def __rsub__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return sub(S_(o), self)

    def __mul__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return mul(self, S_(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return div(self, S_(o))

    def __rtruediv__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return div(S_(o), self)

    def __neg__(self):
        return neg(self)

    def __abs__(self):
        return abs_(self)

    def __pow__(self, n):
        if isinstance(n, int) or (isinstance(n, float) and n == int(n)):
            return ipow_s(self, int(n))
        return pow_(self, S_(n))

    def __lt__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return lt(self, S_(o))

    def __le__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return le(self, S_(o))

    def __gt__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return lt(S_(o), self)

    def __ge__(self, o):
        if isinstance(o, _ND) and o.ndim:
            return NotImplemented
        return le(S_(o), self)

    def __bool__(self):
        c = poly_const(self.p)
        if c is None:
            raise Unsupported("truth value of symbolic number")
        return bool(c)

    def __repr__(self):
        return "S(" + poly_str(self.p) + ")"

    @property
    def const(self):
        return poly_const(self.p)


def atom_str(a):
    x = ctx.atoms[a]
    if x.kind == "var":
        return x.name
    if x.kind in ("inv", "sqrt"):
        return "%s(%s)" % (x.kind, poly_str(x.args[0], 6))
    if x.kind == "fn":
        return "%s(%s)" % (x.name, ",".join(poly_str(q, 6) for q in x.args))
    return "%s#%d" % (x.kind, x.id)


def poly_str(p, maxn=12):
    if not p:
        return "0"
    out = []
    for i, (m, c) in enumerate(p.items()):
        if i >= maxn:
            out.append("...(%d terms)" % len(p))
            break
        out.append("*".join([str(c)] + [atom_str(a) + ("^%d" % e if e != 1 else "") for a, e in m]))
    return " + ".join(out)


_const_cache = {}


def const(c):
    r = _const_cache.get(c)
    if r is None:
        if isinstance(c, Fraction):
            c = _norm(c)
        lo, hi = const_interval(c)
        r = S({(): c} if c != 0 else {}, lo, hi)
        _const_cache[c] = r
    return r


def snap(x):
    """float -> exact rational: simplest rational whose float32 value is x, else decimal repr."""
    import numpy as np
    x = float(x)
    if x == int(x) and abs(x) < 2 ** 53:
        return int(x)
    f32 = np.float32(x)
    fr = Fraction(x)
    for lim in (10, 100, 1000, 9999):
        q = fr.limit_denominator(lim)
        if q != 0 and np.float32(float(q)) == f32:
            return q
    s = repr(float(str(f32))) if float(f32) == x else repr(x)
    return Fraction(s)


class NonFinite:
    """+inf/-inf/nan constant appearing in the program."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def S_(x):
    if isinstance(x, S):
        return x
    if isinstance(x, C):
        return ite(x, const(1), const(0))
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    import numpy as np
    if isinstance(x, np.bool_):
        return const(int(x))
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x):
            return S({((_new_atom(("inf",), "inf", "inf", (), 1e39, INF).id, 1),): 1 if x > 0 else -1},
                     1e39 if x > 0 else -INF, INF if x > 0 else -1e39, TRUE)
        if math.isnan(x):
            return S({((_new_atom(("nan",), "nan", "nan", (), -INF, INF).id, 1),): 1}, -INF, INF, TRUE)
        return const(snap(x))
    raise TypeError(type(x))


def _bad2(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return or_(a, b)


def mk(p, lo, hi, bad):
    n = len(p)
    if n == 0:
        return S(p, 0.0, 0.0, bad) if bad is not None else const(0)
    if n <= 6:
        l2, h2 = poly_interval(p) if n <= 4 else (-INF, INF)
        if n > 1:
            b = bernstein(p)
            if b is not None:
                l2, h2 = max(l2, b[0]), min(h2, b[1])
        if l2 > lo:
            lo = l2
        if h2 < hi:
            hi = h2
    if lo > hi:      # rounding crossing (tight constants); keep an enclosure
        lo, hi = hi, lo
    return S(p, lo, hi, bad)


_bern = {}


def bernstein(p):
    """rigorous range of a univariate polynomial over its atom's bounds (Bernstein coefficients)"""
    a = None
    deg = 0
    for m in p:
        if not m:
            continue
        if len(m) != 1 or (a is not None and m[0][0] != a) or m[0][1] < 0:
            return None
        a = m[0][0]
        deg = max(deg, m[0][1])
    if a is None or deg < 2 or deg > 8:
        return None
    at = ctx.atoms[a]
    if at.lo == -INF or at.hi == INF or at.hi - at.lo > 1e12:
        return None
    key = (poly_key(p), at.lo, at.hi)
    r = _bern.get(key)
    if r is not None:
        return r
    lo, w = Fraction(at.lo), Fraction(at.hi) - Fraction(at.lo)
    # coefficients in t, x = lo + w t
    c = [Fraction(0)] * (deg + 1)
    for m, k in p.items():
        e = m[0][1] if m else 0
        for j in range(e + 1):
            c[j] += k * math.comb(e, j) * lo ** (e - j) * w ** j
    b = [sum(Fraction(math.comb(i, k), math.comb(deg, k)) * c[k] for k in range(i + 1)) for i in range(deg + 1)]
    mn, mx = min(b), max(b)
    r = (const_interval(mn)[0], const_interval(mx)[1])
    _bern[key] = r
    return r


def add(a, b):
    if not b.p and b.bad is None:
        return a
    if not a.p and a.bad is None:
        return b
    if ctx.eps0:
        for x, y in ((a, b), (b, a)):
            if len(x.p) == 1 and x.bad is None and poly_const(y.p) is None and -1e-10 <= x.lo and x.hi <= 1e-10 and abs(next(iter(x.p.values()))) <= 1e-10:
                return y
    return mk(poly_add(a.p, b.p), _dn(a.lo + b.lo), _up(a.hi + b.hi), _bad2(a.bad, b.bad))


def sub(a, b):
    if not b.p and b.bad is None:
        return a
    return mk(poly_add(a.p, b.p, -1), _dn(a.lo - b.hi), _up(a.hi - b.lo), _bad2(a.bad, b.bad))


def neg(a):
    return S(poly_scale(a.p, -1), -a.hi, -a.lo, a.bad)


def mul(a, b):
    if (not a.p and a.bad is None):
        return a if b.bad is None else S({}, 0.0, 0.0, b.bad)
    if (not b.p and b.bad is None):
        return b if a.bad is None else S({}, 0.0, 0.0, a.bad)
    if a is b or a.p == b.p:
        iv = ipow((a.lo, a.hi), 2)
    else:
        iv = imul((a.lo, a.hi), (b.lo, b.hi))
    return mk(poly_mul(a.p, b.p), iv[0], iv[1], _bad2(a.bad, b.bad))


def sum_(xs):
    xs = [x for x in xs if x.p or x.bad is not None]
    if not xs:
        return const(0)
    if len(xs) == 1:
        return xs[0]
    r = {}
    lo = hi = 0.0
    bad = None
    for x in xs:
        for m, c in x.p.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        lo = _dn(lo + x.lo) if x.lo != 0 else lo
        hi = _up(hi + x.hi) if x.hi != 0 else hi
        bad = _bad2(bad, x.bad)
    if len(r) > MAXTERMS:
        raise TooBig("sum")
    return mk(r, lo, hi, bad)


FMAX = 3.4028234e38


def div(a, b):
    """a / b; with ctx.overflow a quotient beyond the single-precision range is undefined"""
    r = div_(a, b)
    if ctx.overflow and r.p and not (-FMAX <= r.lo and r.hi <= FMAX):
        d = sub(abs_(S(a.p, a.lo, a.hi)), mul(const(Fraction(FMAX)), abs_(S(b.p, b.lo, b.hi))))
        big = cmp0(d.p, ">", (d.lo, d.hi))
        if big is not FALSE:
            return S(r.p, r.lo, r.hi, _bad2(r.bad, big))
    return r


def div_(a, b):
    if not b.p:
        # division by literal zero: undefined
        n = fresh("undef")
        return S(n.p, -INF, INF, TRUE)
    bad = _bad2(a.bad, b.bad)
    if b.lo <= 0 <= b.hi and poly_const(b.p) is None:
        z = eq0(b.p, (b.lo, b.hi))
        if z is not FALSE:
            bad = _bad2(bad, z)
    if not a.p:
        return S({}, 0.0, 0.0, bad) if bad is not None else a
    if a.p == b.p:
        return const(1) if bad is None else S({(): 1}, 1.0, 1.0, bad)
    iv = imul((a.lo, a.hi), ipow((b.lo, b.hi), -1))
    if len(b.p) == 1:
        p = poly_mul(a.p, poly_inv(b.p))
        return mk(p, iv[0], iv[1], bad)
    lc, g, prim = split_content(b.p)
    q = poly_divexact_laurent(a.p, prim)
    if q is not None:
        p = poly_mul(q, poly_reduce({mono_inv(g): _norm(1 / Fraction(lc))}))
    else:
        p = poly_mul(a.p, poly_inv(b.p))
        # tighten interval of the inverse atom using the DAG enclosure
        _tighten_inv(prim, lc, g, b)
    return mk(p, iv[0], iv[1], bad)


def _tighten_inv(prim, lc, g, b):
    a = ctx.intern.get(("inv", poly_key(prim)))
    if a is None:
        return
    iv = imul((b.lo, b.hi), ipow(mono_interval(g), -1)) if g else (b.lo, b.hi)
    iv = imul(iv, const_interval(1 / Fraction(lc)))
    if iv[0] > 0 or iv[1] < 0:
        l, h = ipow(iv, -1)
        if l > a.lo:
            a.lo = l
        if h < a.hi:
            a.hi = h


def poly_divexact_laurent(n, d):
    """exact division where n may have negative exponents / inv atoms."""
    if not n:
        return {}
    # shift n to non-negative exponents
    mins = {}
    for m in n:
        for a, e in m:
            if e < mins.get(a, 0):
                mins[a] = e
    if mins:
        sh = tuple(sorted((a, -e) for a, e in mins.items()))
        n = {mono_mul(m, sh): c for m, c in n.items()}
        q = poly_divexact(n, d)
        if q is None:
            return None
        shi = mono_inv(sh)
        return {mono_mul(m, shi): c for m, c in q.items()}
    return poly_divexact(n, d)


def ipow_s(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return div(const(1), ipow_s(a, -n))
    if n > 1:
        r = pow_of_pow(a, Fraction(n))
        if r is not None:
            return r
    iv = ipow((a.lo, a.hi), n)
    return mk(poly_pow(a.p, n), iv[0], iv[1], a.bad)


def var(name, lo=-INF, hi=INF, integer=False):
    lo_, hi_ = float(lo), float(hi)
    if not math.isinf(lo_) and Fraction(lo_) != Fraction(lo):
        lo_ = _dn(lo_)
    if not math.isinf(hi_) and Fraction(hi_) != Fraction(hi):
        hi_ = _up(hi_)
    a = _new_atom(("var", name), "var", name, (lo, hi), lo_, hi_, integer)
    return S({((a.id, 1),): 1}, lo_, hi_)


def fresh(prefix="k", lo=-INF, hi=INF):
    ctx.nfresh += 1
    return var("%s!%d" % (prefix, ctx.nfresh), lo, hi)


def fn_atom(name, *polys_and_iv):
    """fn_atom(name, poly..., lo, hi)"""
    polys, (lo, hi) = polys_and_iv[:-2], polys_and_iv[-2:]
    red = name in ("cos", "cbrt")
    if red:
        ctx.anyred = True
    return _new_atom(("fn", name) + tuple(poly_key(q) for q in polys), "fn", name, tuple(polys), lo, hi, red=red)


def ite(c, a, b):
    c = simp(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.p == b.p and a.bad is None and b.bad is None:
        return a if a.hi - a.lo <= b.hi - b.lo else b
    ba, bb = a.bad, b.bad
    bad = None
    if ba is not None or bb is not None:
        bad = or_(and_(c, ba if ba is not None else FALSE), and_(not_(c), bb if bb is not None else FALSE))
        if bad is FALSE:
            bad = None
    if a.p == b.p:
        return S(a.p, min(a.lo, b.lo), max(a.hi, b.hi), bad)
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    if c.kind == "cmp" and c.args[1] == "==" and len(c.args[0]) <= 60:
        q = c.args[0]                           # both vanish where q does: the value is b everywhere
        m = tuple((x, e) for x, e in mono_gcd(q) if ctx.atoms[x].kind == "inv")
        if m:
            q = {mono_mul(k, mono_inv(m)): v for k, v in q.items()}
        if poly_const(q) is None and all(_vanishes(x.p, q) for x in (a, b)):
            return S(b.p, b.lo, b.hi, bad)
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    at = _new_atom(("ite", c.id, poly_key(a.p), poly_key(b.p)), "ite", None, (c, a.p, b.p), lo, hi)
    # refine: value on true branch under cond of the form p>=0 with a.p == p etc.
    if c.kind == "cmp":
        q, op = c.args
        if op in (">", ">="):
            # a on q>=0: if a.p - q*k ... simple cases max/min/abs
            d = poly_add(a.p, b.p, -1)
            r = _ratio(d, q)
            if r is not None:
                if r > 0:       # a-b = r*q >=0 on true; so value = max(a,b)
                    at.lo = max(at.lo, a.lo, b.lo)
                else:
                    at.hi = min(at.hi, a.hi, b.hi)
    return S({((at.id, 1),): 1}, at.lo, at.hi, bad)


def _vanishes(n, q):
    """does q = 0 entail n = 0, because q divides n with a cofactor that is defined there?"""
    if not n:
        return True
    if len(n) > 200:
        return False
    if len(q) == 1:
        (m, _), = q.items()
        if any(e < 0 for _, e in m):
            return False
        ds = [dict(k) for k in n]
        if any(d.get(a, 0) < e for d in ds for a, e in m):
            return False
    elif poly_divexact_laurent(n, q) is None:
        return False
    for k in n:
        for a, _ in k:
            x = ctx.atoms[a]
            if x.kind == "inv":
                lo, hi = poly_interval(x.args[0])
                if lo <= 0 <= hi and (len(q) == 1 or poly_divexact_laurent(x.args[0], q) is not None):
                    return False
    return True


def _ratio(d, q):
    if len(d) != len(q) or not d:
        return None
    r = None
    for m, c in d.items():
        k = q.get(m)
        if k is None:
            return None
        t = Fraction(c) / k
        if r is None:
            r = t
        elif r != t:
            return None
    return r


def sqrt(a):
    c = poly_const(a.p)
    bad = a.bad
    if a.lo < 0:
        z = cmp0(poly_scale(a.p, -1), ">", (-a.hi, -a.lo))   # a < 0
        if z is not FALSE:
            bad = _bad2(bad, z)
    if c is not None and c >= 0:
        n, d = Fraction(c).numerator, Fraction(c).denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            r = const(Fraction(rn, rd))
            return S(r.p, r.lo, r.hi, bad) if bad is not None else r
        if n and d:
            # pull square factors? keep canonical sqrt(n*d)/d
            P = {(): n * d}
            f = math.sqrt(n * d)
            at = _new_atom(("sqrt", poly_key(P)), "sqrt", None, (P,), _dn(f), _up(f), red=True)
            ctx.anyred = True
            return mk({((at.id, 1),): Fraction(1, d)}, -INF, INF, bad)
    if not a.p:
        return a
    # perfect square monomial:  sqrt(c*m^2) = sqrt(c)*|m|
    sq = poly_sqrt(a.p)
    if sq is not None:
        r = abs_(S(sq, *poly_interval(sq)))
        return S(r.p, r.lo, r.hi, bad)
    # pull out positive square monomial content
    g = mono_gcd(a.p)
    at = ctx.atoms
    pull = tuple((x, (e // 2) * 2) for x, e in g if at[x].lo >= 0 and e // 2)
    P = a.p
    outer = {(): 1}
    if pull:
        P = {mono_mul(m, mono_inv(pull)): cc for m, cc in P.items()}
        outer = {tuple((x, e // 2) for x, e in pull): 1}
    # pull out a rational square factor: normalise lead coefficient's square part
    lc = Fraction(abs(P[lead(P)]))
    n, d = lc.numerator * lc.denominator, lc.denominator
    r = math.isqrt(n)
    if r * r == n:
        k = Fraction(r, d)
        if k != 1:
            P = poly_scale(P, 1 / (k * k))
            outer = poly_scale(outer, k)
    lo = math.sqrt(max(0.0, a.lo)) if a.lo != INF else INF
    hi = math.sqrt(a.hi) if a.hi > 0 else 0.0
    pl, ph = poly_interval(P)
    if outer == {(): 1}:
        l0, h0 = max(0.0, _dn(lo)), _up(hi)
    else:
        l0, h0 = 0.0, INF
    l0 = max(l0, _dn(math.sqrt(pl)) if pl > 0 and pl != INF else 0.0)
    h0 = min(h0, _up(math.sqrt(ph)) if ph > 0 else 0.0)
    ctx.anyred = True
    s = _new_atom(("sqrt", poly_key(P)), "sqrt", None, (P,), l0, h0, red=True)
    if l0 > s.lo:
        s.lo = l0
    if h0 < s.hi:
        s.hi = h0
    return mk(poly_mul(outer, {((s.id, 1),): 1}), max(0.0, _dn(lo)), _up(hi), bad)


def poly_sqrt(p):
    """as poly_sqrt0, also modulo sin^2 + cos^2 = 1"""
    q = poly_sqrt0(p)
    if q is not None or len(p) > 60:
        return q
    ang = {}
    for m in p:
        for a, e in m:
            at = ctx.atoms[a]
            if at.kind == "fn" and at.name == "sin" and e >= 2:
                ang[a] = at
    if not ang or len(ang) > 3:
        return None
    ids = sorted(ang)
    for mask in range(1, 1 << len(ids)):
        sub, back = {}, {}
        for j, a in enumerate(ids):
            if mask >> j & 1:
                c = fn_atom("cos", ang[a].args[0], -1.0, 1.0)
                t = _new_atom(("var", "~cos%d" % c.id), "var", "~cos%d" % c.id, (-1, 1), -1.0, 1.0)
                sub[a], sub[c.id] = t.id, t.id
                back[t.id] = c.id
        r = {}
        for m, k in p.items():
            f = {(): k}
            for a, e in m:
                if a in sub and a in ang:
                    t = {(): 1, ((sub[a], 2),): -1}
                    g = {((a, e % 2),): 1} if e % 2 else {(): 1}
                    for _ in range(e // 2):
                        g = poly_mul(g, t)
                else:
                    g = {((sub.get(a, a), e),): 1}
                f = poly_mul(f, g)
            r = poly_add(r, f)
        q = poly_sqrt0(r)
        if q is not None:
            out = {}
            for m, k in q.items():
                f = {(): k}
                for a, e in m:
                    f = poly_mul(f, {((back.get(a, a), e),): 1})
                out = poly_add(out, f)
            return out
    return None


def poly_sqrt0(p):
    """q with q*q == p for one- or few-term polynomials (q a Laurent polynomial), else None"""
    def sq_mono(m, c):
        c = Fraction(c)
        if c < 0:
            return None
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        if any(e % 2 for _, e in m):
            return None
        return {tuple((a, e // 2) for a, e in m): _norm(Fraction(rn, rd))}
    if len(p) == 1:
        (m, c), = p.items()
        return sq_mono(m, c)
    if len(p) > 60:
        return None
    # multivariate square root by leading terms (lex)
    lm = lead(p)
    r = sq_mono(lm, p[lm])
    if r is None:
        return None
    (rm, rc), = r.items()
    q = {rm: rc}
    for _ in range(12):
        rem = poly_add(p, poly_mul(q, q), -1)
        if not rem:
            return q
        l = lead(rem)
        t = mono_mul(l, mono_inv(rm))
        c = _norm(Fraction(rem[l]) / (2 * Fraction(rc)))
        if t in q:
            return None
        q = dict(q)
        q[t] = c
    return None


def abs_(a):
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    c = ge0(a.p, (a.lo, a.hi))
    r = ite(c, a, neg(a))
    if len(r.p) == 1 and r.lo < 0:
        (m, k), = r.p.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            at = ctx.atoms[m[0][0]]
            if at.kind == "ite":
                at.lo = max(at.lo, 0.0)
                at.hi = min(at.hi, max(abs(a.lo), abs(a.hi)))
                return S(r.p, at.lo, at.hi, r.bad)
    return r


def max_(a, b):
    if a.lo >= b.hi:
        return a if b.bad is None else S(a.p, a.lo, a.hi, _bad2(a.bad, b.bad))
    if b.lo >= a.hi:
        return b if a.bad is None else S(b.p, b.lo, b.hi, _bad2(a.bad, b.bad))
    bad = _bad2(a.bad, b.bad)
    d = poly_add(a.p, b.p, -1)
    r = ite(cmp0(d, ">="), S(a.p, a.lo, a.hi), S(b.p, b.lo, b.hi))
    return S(r.p, max(r.lo, a.lo, b.lo), r.hi, bad)


def min_(a, b):
    return neg(max_(neg(a), neg(b)))


def floor_(a):
    c = poly_const(a.p)
    if c is not None:
        r = const(math.floor(c))
        return S(r.p, r.lo, r.hi, a.bad) if a.bad is not None else r
    if len(a.p) == 1:
        (m, k), = a.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ctx.atoms[m[0][0]].integer:
            return a
    if a.lo > -1e15 and a.hi < 1e15:
        lo, hi = math.floor(a.lo), math.floor(a.hi)
        while lo < hi and hi - lo < 64:
            # tighten with the decision procedure
            if cmp0(poly_add(a.p, {(): -hi} if hi else {}), ">=") is FALSE:
                hi -= 1
            elif cmp0(poly_add(a.p, {(): -(lo + 1)} if lo + 1 else {}), ">=") is TRUE:
                lo += 1
            else:
                break
        if lo == hi:
            r = const(lo)
            return S(r.p, r.lo, r.hi, a.bad) if a.bad is not None else r
        flo, fhi = float(lo), float(hi)
    else:
        flo, fhi = -INF, INF
    at = _new_atom(("floor", poly_key(a.p)), "floor", None, (a.p,), flo, fhi, integer=True)
    return S({((at.id, 1),): 1}, flo, fhi, a.bad)


def _mono_fn(name, f, a, lo, hi, bad=None):
    c = poly_const(a.p)
    at = fn_atom(name, a.p, lo, hi)
    return S({((at.id, 1),): 1}, at.lo, at.hi, _bad2(a.bad, bad))


def _sexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp_(a):
    if not a.p:
        return const(1) if a.bad is None else S({(): 1}, 1., 1., a.bad)
    # exp(log x) = x
    if len(a.p) == 1:
        (m, k), = a.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = ctx.atoms[m[0][0]]
            if at.kind == "fn" and at.name == "log":
                p = at.args[0]
                return mk(p, -INF, INF, a.bad)

    if ctx.exp_den and len(a.p) > 0:            # normal form: a product of powers of exp(monomial / exp_den)
        D, rest, out = ctx.exp_den, {}, None
        for m, c in a.p.items():
            e = c * D
            if len(m) == 1 and m[0][1] == 1 and c == int(c) and 0 < c <= 4 and ctx.atoms[m[0][0]].kind == "fn" and ctx.atoms[m[0][0]].name == "log":
                f = ipow_s(mk(ctx.atoms[m[0][0]].args[0], 0.0, INF, None), int(c))
                out = f if out is None else mul(out, f)
                continue
            if m and e == int(e) and abs(e) <= 12:
                x = mk({m: Fraction(1, D) if D > 1 else 1}, -INF, INF, None)
                at = fn_atom("exp", x.p, max(0.0, _dn(_sexp(x.lo))), _up(_sexp(x.hi)))
                f = ipow_s(S({((at.id, 1),): 1}, at.lo, at.hi, None), int(e))
                out = f if out is None else mul(out, f)
            else:
                rest[m] = c
        if out is not None:
            if rest:
                d, ctx.exp_den = ctx.exp_den, None
                try:
                    out = mul(out, exp_(mk(rest, -INF, INF, None)))
                finally:
                    ctx.exp_den = d
            lo, hi = max(out.lo, 0.0, _dn(_sexp(a.lo))), min(out.hi, _up(_sexp(a.hi)))
            return S(out.p, lo, hi, _bad2(None, a.bad))
    # exp(-x) = 1 / exp(x)
    if a.p[lead(a.p)] < 0:
        r = div(const(1), exp_(neg(S(a.p, a.lo, a.hi, None))))
        return S(r.p, r.lo, r.hi, _bad2(r.bad, a.bad))

    def sexp(x):
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    return _mono_fn("exp", math.exp, a, max(0.0, _dn(sexp(a.lo))), _up(sexp(a.hi)))


def log_(a):
    bad = None
    if a.lo <= 0:
        z = cmp0(poly_scale(a.p, -1), ">=", (-a.hi, -a.lo))
        if z is not FALSE:
            bad = z
    if a.p == {(): 1}:
        return const(0)
    if len(a.p) == 1:
        (m, k), = a.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = ctx.atoms[m[0][0]]
            if at.kind == "fn" and at.name == "exp":
                return mk(at.args[0], -INF, INF, a.bad)
    if a.p:
        ex = [(x, e) for x, e in mono_gcd(a.p) if ctx.atoms[x].kind == "fn" and ctx.atoms[x].name == "exp"]
        if ex:                                   # log(exp(x)^n y) = n x + log y
            d = tuple(sorted((x, -e) for x, e in ex))
            r = mk({mono_mul(m, d): k for m, k in a.p.items()}, -INF, INF, a.bad)
            r = log_(S(r.p, max(r.lo, 0.0) if a.lo > 0 else r.lo, r.hi, a.bad))
            for x, e in ex:
                r = add(r, mul(const(e), mk(ctx.atoms[x].args[0], -INF, INF, None)))
            return r
    lo = _dn(math.log(a.lo)) if a.lo > 0 and a.lo != INF else -INF
    hi = _up(math.log(a.hi)) if a.hi > 0 and a.hi != INF else INF
    return _mono_fn("log", math.log, a, lo, hi, bad)


def _cfn(f, a):
    """library function of a constant: a rational within 2e-15 (as exact as the real code's float32 constant)"""
    c = poly_const(a.p)
    if c is None or a.bad is not None:
        return None
    try:
        v = f(float(c))
    except (ValueError, OverflowError):
        return None
    if not math.isfinite(v):
        return None
    return const(Fraction(v).limit_denominator(10 ** 15))


def sin_(a):
    if not a.p:
        return a
    c = _cfn(math.sin, a)
    if c is not None:
        return c
    # sign-normalise: sin(-x) = -sin(x)
    if a.p[lead(a.p)] < 0:
        return neg(sin_(neg(a)))
    lo, hi = _trig_iv(-math.pi / 2, a)
    at = fn_atom("sin", a.p, lo, hi)
    return S({((at.id, 1),): 1}, at.lo, at.hi, a.bad)


def cos_(a):
    if not a.p:
        return const(1) if a.bad is None else S({(): 1}, 1., 1., a.bad)
    c = _cfn(math.cos, a)
    if c is not None:
        return c
    if a.p[lead(a.p)] < 0:
        return cos_(neg(a))
    lo, hi = _trig_iv(0.0, a)
    at = fn_atom("cos", a.p, lo, hi)
    return S({((at.id, 1),): 1}, at.lo, at.hi, a.bad)


def _trig_iv(shift, a):
    """interval of cos(x + shift) for x in [a.lo, a.hi]"""
    lo, hi = a.lo + shift, a.hi + shift
    if not (hi - lo < 6.2):
        return -1.0, 1.0
    v = [math.cos(lo), math.cos(hi)]
    k = math.floor(lo / math.pi)
    for j in range(k, k + 5):
        if lo - 1e-9 <= j * math.pi <= hi + 1e-9:
            v.append(1.0 if j % 2 == 0 else -1.0)
    return max(-1.0, min(v) - 1e-9), min(1.0, max(v) + 1e-9)


def atan2_(y, x):
    """polar form r*(sin t, cos t), r > 0, t in (-pi, pi) gives t back; otherwise bounded by the box"""
    if len(y.p) == 1 and len(x.p) == 1:
        (my, ky), = y.p.items()
        (mx, kx), = x.p.items()
        for aid, e in my:
            at = ctx.atoms[aid]
            if e != 1 or at.kind != "fn" or at.name != "sin":
                continue
            co = [(b, f) for b, f in mx if ctx.atoms[b].kind == "fn" and ctx.atoms[b].name == "cos" and f == 1
                  and poly_key(ctx.atoms[b].args[0]) == poly_key(at.args[0])]
            if len(co) != 1 or abs(ky) != kx:
                continue
            r = tuple(t for t in my if t[0] != aid)
            if r != tuple(t for t in mx if t[0] != co[0][0]):
                continue
            riv = mono_interval(r) if r else (1.0, 1.0)
            ph = S(at.args[0], *poly_interval(at.args[0]))
            if ky < 0:
                ph = neg(ph)
            if riv[0] > 0 and ph.lo > -math.pi and ph.hi < math.pi:
                return S(ph.p, ph.lo, ph.hi, _bad2(y.bad, x.bad))
    lo, hi = -3.1415927, 3.1415927
    if (x.lo > 0 or y.lo > 0 or y.hi < 0) and all(abs(v) < INF for v in (x.lo, x.hi, y.lo, y.hi)):
        vs = [math.atan2(b, a) for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
        lo, hi = _dn(min(vs) - 1e-12), _up(max(vs) + 1e-12)
    return generic_fn("atan2", [y, x], lo, hi)


def generic_fn(name, args, lo=-INF, hi=INF, bad=None):
    for x in args:
        bad = _bad2(bad, x.bad)
    at = fn_atom(name, *[x.p for x in args], lo, hi)
    return S({((at.id, 1),): 1}, at.lo, at.hi, bad)


def cbrt_(a):
    c = poly_const(a.p)
    if c is not None and c in (0, 1):
        return a

    def cb(x):
        return math.copysign(abs(x) ** (1 / 3), x) if abs(x) != INF else x
    return generic_fn("cbrt", [a], _dn(cb(a.lo) - 1e-12 * abs(cb(a.lo))) if a.lo != -INF else -INF,
                      _up(cb(a.hi) + 1e-12 * abs(cb(a.hi))) if a.hi != INF else INF)


def pow_(a, b):
    c = poly_const(b.p)
    if c is not None:
        c = Fraction(c)
        r = pow_of_pow(a, c)
        if r is not None:
            return r
        if abs(c - Fraction(1, 3)) < 1e-7:       # a third, up to its float32 representation
            r = cbrt_(a)
            if a.lo < 0:
                r = S(r.p, r.lo, r.hi, _bad2(r.bad, cmp0(poly_scale(a.p, -1), ">", (-a.hi, -a.lo))))
            return r
        if c.denominator == 1 and abs(c) <= 12:
            return ipow_s(a, int(c))
        if c.denominator == 2 and abs(c) <= 12:
            s = sqrt(a)
            return ipow_s(s, int(c * 2))
        ca = poly_const(a.p)
        if ca == 1:
            return const(1)
        bad = None
        if a.lo <= 0:
            z = cmp0(poly_scale(a.p, -1), ">" if c > 0 else ">=", (-a.hi, -a.lo))
            if z is not FALSE:
                bad = z
        lo, hi = 0.0, INF
        if a.lo > 0 and a.hi < INF:
            v1, v2 = a.lo ** float(c), a.hi ** float(c)
            lo, hi = max(0.0, min(v1, v2) * (1 - 1e-12)), max(v1, v2) * (1 + 1e-12)
        return generic_fn("pow", [a, b], lo, hi, bad)
    if poly_const(a.p) == 1:
        return const(1)
    return generic_fn("pow", [a, b], 0.0 if a.lo >= 0 else -INF, INF,
                      None if a.lo > 0 else cmp0(poly_scale(a.p, -1), ">="))


def frac_root(k, c):
    """k^c if it is rational (k > 0)"""
    if k == 1:
        return Fraction(1)
    if k <= 0 or abs(c) > 64 or c.denominator > 64:
        return None
    d = c.denominator
    n, m = round(k.numerator ** (1 / d)), round(k.denominator ** (1 / d))
    if n ** d != k.numerator or m ** d != k.denominator:
        return None
    return Fraction(n, m) ** c.numerator if c.numerator >= 0 else Fraction(m, n) ** -c.numerator


def pow_of_pow(a, c):
    """(x^c1)^c = x^(c1 c) for x > 0 (exponents that only miss an integer by their float32 representation are that integer)"""
    if len(a.p) != 1 or a.lo <= 0:
        return None
    (m, k), = a.p.items()
    if c.denominator != 1 or abs(c) > 12:        # rational power of a monomial of positive variables
        root = frac_root(Fraction(k), c)
        if root is None and m and k > 0:
            root = Fraction(float(k) ** float(c))     # numeric factor, exact to double precision
        if root is not None and m and all(ctx.atoms[x].lo > 0 for x, _ in m):
            es = [(x, e * c) for x, e in m]
            es = [(x, Fraction(round(e)) if abs(e - round(e)) < 1e-5 else e) for x, e in es]
            if all(e.denominator == 1 and e != 0 for _, e in es):
                r = const(root)
                for x, e in es:
                    at = ctx.atoms[x]
                    v = S({((x, 1),): 1}, at.lo, at.hi, None)
                    n = abs(int(e))
                    iv = ipow((v.lo, v.hi), n)
                    w = mk(poly_pow(v.p, n), iv[0], iv[1], None)
                    r = mul(r, w) if e > 0 else div(r, w)
                return S(r.p, r.lo, r.hi, a.bad)
    if len(m) != 1 or k != 1:
        return None
    at = ctx.atoms[m[0][0]]
    if at.kind != "fn" or at.name != "pow":
        return None
    c1 = poly_const(at.args[1])
    if c1 is None:
        return None
    e = Fraction(c1) * m[0][1] * c
    if abs(e - round(e)) < 1e-6 and round(e) != 0:
        e = Fraction(round(e))
    x = at.args[0]
    iv = poly_interval(x)
    x = S(x, max(iv[0], 0.0), iv[1], None)
    if x.lo <= 0:
        x = S(x.p, 5e-324, x.hi, None)          # a.lo > 0: the base is positive where the power is defined
    r = pow_(x, const(e))
    return S(r.p, max(r.lo, a.lo ** float(c) * (1 - 1e-12)) if c > 0 else r.lo, r.hi, a.bad)


def trunc_(a):
    if a.lo >= 0:
        return floor_(a)
    if a.hi <= 0:
        return neg(floor_(neg(a)))
    return ite(ge0(a.p, (a.lo, a.hi)), floor_(a), neg(floor_(neg(a))))


def sign_(a):
    if a.lo > 0:
        return const(1)
    if a.hi < 0:
        return const(-1)
    return ite(cmp0(a.p, ">", (a.lo, a.hi)), const(1),
               ite(cmp0(poly_scale(a.p, -1), ">", (-a.hi, -a.lo)), const(-1), const(0)))


# ----------------------------------------------------------------------------- conditions
class C:
    __slots__ = ("kind", "args", "id")

    def __new__(cls, kind, args):
        key = (kind,) + tuple(a.id if isinstance(a, C) else (poly_key(a) if isinstance(a, dict) else a) for a in args)
        c = ctx.condtab.get(key)
        if c is None:
            c = object.__new__(cls)
            c.kind, c.args = kind, args
            c.id = ctx.ncond
            ctx.ncond += 1
            ctx.condtab[key] = c
        return c

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        s = simp(self)
        if s is TRUE:
            return True
        if s is FALSE:
            return False
        raise Unsupported("truth value of symbolic condition")

    def __repr__(self):
        if self.kind == "cmp":
            return "(%s %s 0)" % (poly_str(self.args[0], 5), self.args[1])
        return "%s%r" % (self.kind, self.args)


TRUE = C("T", ())
FALSE = C("F", ())


def bconst(b):
    return TRUE if b else FALSE


def boolvar(name):
    return C("bv", (name,))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.kind == "not":
        return a.args[0]
    if a.kind == "cmp":
        p, op = a.args
        if op == ">":
            return cmp0(poly_scale(p, -1), ">=")
        if op == ">=":
            return cmp0(poly_scale(p, -1), ">")
    return C("not", (a,))


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if not_(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return C("and", (a, b))


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if not_(a) is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return C("or", (a, b))


def ite_c(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return or_(and_(c, a), and_(not_(c), b))


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def cmp0(p, op, iv=None):
    """condition  p op 0,  op in  > >= ==  (eagerly decided by intervals / assumptions)"""
    k = poly_const(p)
    if k is not None:
        return bconst(k > 0 if op == ">" else k >= 0 if op == ">=" else k == 0)
    lo, hi = poly_interval(p)
    if iv is not None:
        lo, hi = max(lo, iv[0]), min(hi, iv[1])
    if op == ">":
        if lo > 0:
            return TRUE
        if hi <= 0:
            return FALSE
    elif op == ">=":
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
    else:
        if lo > 0 or hi < 0:
            return FALSE
    if len(p) <= 2:
        m = max(p, key=len)
        if len(m) == 1 and m[0][1] == 1 and len(p) - (() in p) == 1 and ctx.atoms[m[0][0]].kind == "ite":
            c, a, b = ctx.atoms[m[0][0]].args
            ka, kb = poly_const(a), poly_const(b)
            if ka is not None and kb is not None:        # a choice between constants: decided per branch
                k0 = p.get((), 0)
                ta, tb = (cmp0({(): k0 + p[m] * k} if k0 + p[m] * k else {}, op) for k in (ka, kb))
                return or_(and_(c, ta), and_(not_(c), tb))
    # strip positive-sign content for canonical form
    lc, g, prim = split_content(p)
    at = ctx.atoms
    sgn = 1 if lc > 0 else -1
    keep = []
    zero_risk = False
    for a, e in g:
        x = at[a]
        if x.lo > 0 or (e % 2 == 0 and x.hi < 0) or (x.kind == "fn" and x.name == "exp"):
            continue
        if x.hi < 0:
            sgn = -sgn
            continue
        keep.append((a, e))
    if keep:
        prim = {mono_mul(m, tuple(keep)): c for m, c in prim.items()}
    if op == "==":
        q = prim
    else:
        q = poly_scale(prim, sgn)
    return simp(C("cmp", (q, op)))


def eq0(p, iv=None):
    return cmp0(p, "==", iv)


def ge0(p, iv=None):
    return cmp0(p, ">=", iv)


def _cmp(a, b, op):
    d = sub(a, b)
    iv = (max(d.lo, _dn(a.lo - b.hi)), min(d.hi, _up(a.hi - b.lo)))
    r = cmp0(d.p, op, iv)
    if a.bad is not None or b.bad is not None:
        # inf constants compare exactly; NaN-ish values give an arbitrary answer
        if _isinf(a) or _isinf(b):
            if a.bad is TRUE and not _isinf(a) or b.bad is TRUE and not _isinf(b):
                pass
            else:
                return r
        bad = _bad2(a.bad, b.bad)
        key = (poly_key(d.p), op, bad.id)
        f = ctx.nanbools.get(key)
        if f is None:
            ctx.nfresh += 1
            f = ctx.nanbools[key] = boolvar("nan!%d" % ctx.nfresh)
        return ite_c(bad, f, r)
    return r


def _isinf(a):
    if len(a.p) == 1:
        (m, _), = a.p.items()
        return len(m) == 1 and ctx.atoms[m[0][0]].kind == "inf"
    return False


def lt(a, b):
    return _cmp(b, a, ">")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return _cmp(b, a, ">=")


def eq(a, b):
    return _cmp(a, b, "==")


def simp(c):
    """Decide c under current assumptions if the decision procedure can."""
    if c is TRUE or c is FALSE:
        return c
    key = (c.id, ctx.stamp)
    r = ctx.decide_memo.get(key)
    if r is None:
        r = c
        if ctx.decider is not None:
            v = ctx.decider(c)
            if v is not None:
                r = TRUE if v else FALSE
        ctx.decide_memo[key] = r
    return r


def assume(c):
    if c is TRUE:
        return
    ctx.assumptions.append(c)
    ctx.stamp += 1


# ----------------------------------------------------------------------------- traversal
def atoms_of(p, acc=None):
    """all atoms reachable from polynomial p (cone of influence), as set of ids"""
    acc = set() if acc is None else acc
    stack = [a for m in p for a, _ in m]
    while stack:
        a = stack.pop()
        if a in acc:
            continue
        acc.add(a)
        x = ctx.atoms[a]
        for arg in x.args:
            if isinstance(arg, dict):
                stack.extend(b for m in arg for b, _ in m)
            elif isinstance(arg, C):
                stack.extend(cond_atoms_direct(arg))
    return acc


def cond_atoms_direct(c):
    out = []
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind == "cmp":
            out.extend(a for m in x.args[0] for a, _ in m)
        else:
            st.extend(y for y in x.args if isinstance(y, C))
    return out


def cond_atoms(c):
    acc = set()
    atoms_of({((a, 1),): 1 for a in cond_atoms_direct(c)}, acc)
    return acc
