"""Decision layer: z3 over the symbolic scalars of core.py."""
from __future__ import annotations
import math
import time
from fractions import Fraction
import numpy as np
import z3

from . import core
from .core import ctx, S, C, poly_const, poly_interval, mono_interval, atoms_of


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.normal_form = 0
        self.paths = 0
        self.prune_queries = 0


stats = Stats()

# ------------------------------------------------------------------ translation
_avars = {}
_mvars = {}


def reset():
    core.reset()
    _avars.clear()
    _mvars.clear()
    global _lra
    _lra = None


def q(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


def avar(a):
    v = _avars.get(a)
    if v is None:
        v = _avars[a] = z3.Real("a%d" % a)
    return v


def ainv(a):
    return avar(-a - 1)


def z_poly(p):
    """genuine nonlinear translation (negative exponents through inverse variables)"""
    ts = []
    for m, c in p.items():
        f = []
        for a, e in m:
            v = avar(a) if e > 0 else ainv(a)
            f.extend([v] * abs(e))
        t = q(c)
        if f:
            pr = f[0]
            for x in f[1:]:
                pr = pr * x
            t = pr if c == 1 else t * pr
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def mvar(m):
    """LRA abstraction: one variable per monomial"""
    if len(m) == 1 and m[0][1] == 1:
        return avar(m[0][0])
    v = _mvars.get(m)
    if v is None:
        v = _mvars[m] = z3.Real("m%d" % len(_mvars))
    return v


def l_poly(p):
    ts = []
    for m, c in p.items():
        if not m:
            ts.append(q(c))
        else:
            ts.append(mvar(m) if c == 1 else q(c) * mvar(m))
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def rv(f):
    return q(Fraction(f))


def bounds_expr(v, lo, hi, out):
    if lo != -math.inf and lo > -1e300:
        out.append(v >= rv(lo))
    if hi != math.inf and hi < 1e300:
        out.append(v <= rv(hi))


def z_cond(c, P):
    memo = {}

    def go(c):
        r = memo.get(c.id)
        if r is not None:
            return r
        if c.kind == "T":
            r = z3.BoolVal(True)
        elif c.kind == "F":
            r = z3.BoolVal(False)
        elif c.kind == "cmp":
            e = P(c.args[0])
            z = z3.RealVal(0)
            r = e > z if c.args[1] == ">" else e >= z if c.args[1] == ">=" else e == z
        elif c.kind == "not":
            r = z3.Not(go(c.args[0]))
        elif c.kind == "and":
            r = z3.And(go(c.args[0]), go(c.args[1]))
        elif c.kind == "or":
            r = z3.Or(go(c.args[0]), go(c.args[1]))
        elif c.kind == "bv":
            r = z3.Bool("b_" + c.args[0])
        else:
            raise AssertionError(c.kind)
        memo[c.id] = r
        return r
    return go(c)


def monos_in_cond(c, acc):
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind == "cmp":
            acc.update(x.args[0])
        else:
            st.extend(y for y in x.args if isinstance(y, C))


# ------------------------------------------------------------------ LRA abstraction (pruning)
class LRA:
    """Persistent incremental solver; every nonlinear monomial is an uninterpreted bounded real."""

    def __init__(self):
        self.s = z3.SolverFor("QF_LRA")
        self.s.set("timeout", 2000)
        self.monos = set()
        self.atoms = set()
        self.nass = 0
        self.ass_ids = []

    def see_poly(self, p):
        for m in p:
            if not m or m in self.monos:
                continue
            self.monos.add(m)
            lo, hi = mono_interval(m)
            out = []
            bounds_expr(mvar(m), lo, hi, out)
            for o in out:
                self.s.add(o)
            for a, _ in m:
                self.see_atom(a)

    def see_cond(self, c):
        acc = set()
        monos_in_cond(c, acc)
        self.see_poly({m: 1 for m in acc})

    def see_atom(self, a):
        if a in self.atoms:
            return
        self.atoms.add(a)
        x = ctx.atoms[a]
        out = []
        bounds_expr(avar(a), x.lo, x.hi, out)
        for o in out:
            self.s.add(o)
        if x.kind == "ite":
            c, p1, p2 = x.args
            if len(p1) + len(p2) < 400:
                self.see_poly(p1)
                self.see_poly(p2)
                self.see_cond(c)
                zc = z_cond(c, l_poly)
                self.s.add(z3.If(zc, avar(a) == l_poly(p1), avar(a) == l_poly(p2)))
        elif x.kind == "floor":
            self.see_poly(x.args[0])
            e = l_poly(x.args[0])
            self.s.add(avar(a) <= e, e < avar(a) + 1)


_lra = None


def lra():
    global _lra
    if _lra is None:
        _lra = LRA()
    return _lra


def _sync(L):
    """make L's asserted assumptions equal ctx.assumptions (stack discipline)"""
    ids = [c.id for c in ctx.assumptions]
    k = 0
    while k < len(ids) and k < len(L.ass_ids) and ids[k] == L.ass_ids[k]:
        k += 1
    if k < len(L.ass_ids):
        # z3 pops lose learned bounds: rebuild from scratch
        global _lra
        n = LRA()
        _lra = n
        L = n
        k = 0
    for c in ctx.assumptions[k:]:
        L.see_cond(c)
        L.s.add(z_cond(c, l_poly))
        L.ass_ids.append(c.id)
    return L


PRUNE_NRA_MS = 0


def decide(c):
    if c.kind in ("bv",):
        return None
    L = _sync(lra())
    L.see_cond(c)
    zc = z_cond(c, l_poly)
    t = time.time()
    stats.prune_queries += 2
    r1 = L.s.check(zc)
    r = None
    if r1 == z3.unsat:
        r = False
    elif L.s.check(z3.Not(zc)) == z3.unsat:
        r = True
    if r is None and PRUNE_NRA_MS:
        # genuine nonlinear attempt
        if nra_check([c], PRUNE_NRA_MS, small=True) == "unsat":
            r = False
        elif nra_check([core.not_(c)], PRUNE_NRA_MS, small=True) == "unsat":
            r = True
    stats.solver_s += time.time() - t
    return r


core.ctx.decider = decide


# ------------------------------------------------------------------ nonlinear queries
def definitions(atom_ids, extra_assumptions=True):
    """defining constraints for the given atoms (cone), conditional on definedness"""
    out = []
    for a in sorted(atom_ids):
        x = ctx.atoms[a]
        v = avar(a)
        if x.kind != "var" or True:
            bounds_expr(v, x.lo, x.hi, out)
        if x.kind == "ite":
            c, p1, p2 = x.args
            out.append(z3.If(z_cond(c, z_poly), v == z_poly(p1), v == z_poly(p2)))
        elif x.kind == "inv":
            D = z_poly(x.args[0])
            if x.lo > 0 or x.hi < 0:
                out.append(v * D == 1)
            else:
                out.append(z3.Implies(D != 0, v * D == 1))
        elif x.kind == "sqrt":
            P = z_poly(x.args[0])
            if poly_interval(x.args[0])[0] >= 0:
                out.append(v * v == P)
            else:
                out.append(z3.Implies(P >= 0, v * v == P))
        elif x.kind == "floor":
            P = z_poly(x.args[0])
            k = z3.Int("i%d" % a)
            out.append(z3.ToReal(k) == v)
            out.append(z3.And(v <= P, P < v + 1))
        elif x.kind == "fn":
            pass
    fns = [ctx.atoms[a] for a in atom_ids if ctx.atoms[a].kind == "fn"]
    out.extend(fn_axioms(fns))
    return out


def fn_axioms(fns):
    """monotonicity of exp / log / pow(.,c>0) between pairs; exp(x)>=1+x; log(x)<=x-1; tangent facts"""
    out = []
    by = {}
    for x in fns:
        key = x.name if x.name in ("exp", "log") else None
        if x.name == "pow":
            c = poly_const(x.args[1])
            if c is not None:
                key = ("pow", c)
        if x.name == "cbrt":
            v = avar(x.id)
            out += [v * v * v == z_poly(x.args[0])]
        elif x.name == "exp":
            e = z_poly(x.args[0])
            v = avar(x.id)
            out += [v >= 1 + e, z3.Implies(e > 0, v > 1), z3.Implies(e < 0, v < 1), v > 0]
        elif x.name == "log":
            e = z_poly(x.args[0])
            v = avar(x.id)
            out += [z3.Implies(e > 0, v <= e - 1), z3.Implies(e > 1, v > 0), z3.Implies(z3.And(e > 0, e < 1), v < 0)]
        elif x.name == "pow" and key is not None:
            e = z_poly(x.args[0])
            v = avar(x.id)
            cc = q(x and poly_const(x.args[1]))
            c = poly_const(x.args[1])
            out += [z3.Implies(e > 0, v > 0), z3.Implies(e == 1, v == 1)]
            if c >= 1 or c < 0:         # Bernoulli
                out += [z3.Implies(e > 0, v >= 1 + cc * (e - 1))]
            else:
                out += [z3.Implies(e > 0, v <= 1 + cc * (e - 1))]
            if c > 0:
                out += [z3.Implies(e > 1, v > 1), z3.Implies(z3.And(e > 0, e < 1), v < 1)]
            else:
                out += [z3.Implies(e > 1, v < 1), z3.Implies(z3.And(e > 0, e < 1), v > 1)]
        if key is not None:
            by.setdefault(key, []).append(x)
    for key, xs in by.items():
        inc = not (isinstance(key, tuple) and key[1] < 0)
        for i in range(len(xs)):
            for j in range(i):
                a, b = xs[i], xs[j]
                ea, eb = z_poly(a.args[0]), z_poly(b.args[0])
                va, vb = avar(a.id), avar(b.id)
                if inc:
                    out += [z3.Implies(ea > eb, va > vb), z3.Implies(ea < eb, va < vb), z3.Implies(ea == eb, va == vb)]
                else:
                    out += [z3.Implies(ea > eb, va < vb), z3.Implies(ea < eb, va > vb), z3.Implies(ea == eb, va == vb)]
    return out


def laurent_defs(exprs_monos):
    """x * x^-1 == 1 for atoms used with a negative exponent"""
    out = []
    seen = set()
    for m in exprs_monos:
        for a, e in m:
            if e < 0 and a not in seen:
                seen.add(a)
                x = ctx.atoms[a]
                if x.lo > 0 or x.hi < 0:
                    out.append(avar(a) * ainv(a) == 1)
                    lo, hi = core.ipow((x.lo, x.hi), -1)
                    bounds_expr(ainv(a), lo, hi, out)
                else:
                    out.append(z3.Implies(avar(a) != 0, avar(a) * ainv(a) == 1))
    return out


def all_monos(conds, atom_ids):
    acc = set()
    for c in conds:
        monos_in_cond(c, acc)
    for a in atom_ids:
        for arg in ctx.atoms[a].args:
            if isinstance(arg, dict):
                acc.update(arg)
            elif isinstance(arg, C):
                monos_in_cond(arg, acc)
    return acc


def relevant_assumptions(conds):
    """assumptions sharing atoms (transitively) with conds; returns (assumptions, atoms)"""
    cone = set()
    for c in conds:
        cone |= core.cond_atoms(c)
    rest = [(a, core.cond_atoms(a)) for a in ctx.assumptions]
    used = []
    changed = True
    while changed:
        changed = False
        for item in list(rest):
            if item[1] & cone:
                used.append(item[0])
                cone |= item[1]
                rest.remove(item)
                changed = True
    return used, cone


def clear_cond(c):
    """multiply cmp conditions by positive denominators so that no inverse remains"""
    if c.kind == "cmp":
        p, op = c.args
        p2 = clear_denoms(p, need_sign=(op != "=="))
        if p2 is p:
            return c
        return C("cmp", (p2, op)) if poly_const(p2) is None else core.cmp0(p2, op)
    if c.kind == "not":
        r = clear_cond(c.args[0])
        return core.not_(r)
    if c.kind in ("and", "or"):
        f = core.and_ if c.kind == "and" else core.or_
        return f(clear_cond(c.args[0]), clear_cond(c.args[1]))
    return c


def clear_denoms(p, need_sign=True, maxterms=20000):
    """p * (positive quantity) without inv atoms / negative exponents (when signs are known)."""
    for _ in range(60):
        # negative exponents of plain atoms
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            sh = []
            sgn = 1
            for a, e in neg.items():
                x = ctx.atoms[a]
                if need_sign and x.lo < 0:
                    if x.hi <= 0:
                        sgn *= (-1) ** e
                    else:
                        e = e + (e % 2)
                sh.append((a, e))
            sh = tuple(sorted(sh))
            p = core.poly_mul(p, {sh: sgn})
            continue
        best = None
        for m in p:
            for a, e in m:
                if ctx.atoms[a].kind == "inv" and (best is None or a > best):
                    best = a
        if best is None:
            return p
        x = ctx.atoms[best]
        D = x.args[0]
        n = max(dict(m).get(best, 0) for m in p)
        sgn = 1
        if need_sign:
            if x.hi <= 0:
                sgn = (-1) ** n
            elif x.lo < 0 and n % 2:
                n += 1
        groups = {}
        for m, c in p.items():
            e = dict(m).get(best, 0)
            rest = tuple(t for t in m if t[0] != best)
            groups.setdefault(e, {})[rest] = c
        out = {}
        Dp = {0: {(): 1}}
        for e in range(1, n + 1):
            Dp[e] = core.poly_mul(Dp[e - 1], D)
        for e, g in groups.items():
            out = core.poly_add(out, core.poly_mul(g, Dp[n - e]))
            if len(out) > maxterms:
                raise core.TooBig("clear_denoms")
        p = core.poly_scale(out, sgn)
    return p


def nra_check(conds, timeout_ms, small=False, pins=None, want_model=False):
    """satisfiability of /\\ conds under ctx.assumptions and definitions. -> 'sat'/'unsat'/'unknown' [, model]"""
    t0 = time.time()
    used, cone = relevant_assumptions(conds)
    try:
        cs = [clear_cond(c) for c in conds]
        us = [clear_cond(c) for c in used]
    except core.TooBig:
        cs, us = list(conds), used
    cone = set()
    for c in cs + us:
        cone |= core.cond_atoms(c)
    if small and len(cone) > 14:
        return "unknown" if not want_model else ("unknown", None)
    cons = [z_cond(c, z_poly) for c in cs + us]
    cons += definitions(cone)
    cons += laurent_defs(all_monos(cs + us, cone))
    if pins:
        for a, val in pins.items():
            if a in cone:
                cons.append(avar(a) == q(val))
    res, model = "unknown", None
    order = ["nlsat", "default"] if not small else ["default"]
    hasint = any(ctx.atoms[a].kind == "floor" for a in cone)
    if hasint:
        order = ["default"]
    for which in order:
        if which == "nlsat":
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver() \
                if False else z3.SolverFor("QF_NRA")
        else:
            s = z3.Solver()
        s.set("timeout", max(1, int(timeout_ms / len(order))))
        s.add(cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if not small:
            stats.queries += 1
        if r == z3.unsat:
            res = "unsat"
            break
        if r == z3.sat:
            res = "sat"
            model = s.model()
            break
    if not small:
        stats.solver_s += time.time() - t0
        setattr(stats, res, getattr(stats, res) + 1)
    return (res, model) if want_model else res


def model_env(model, cone):
    env = {}
    for a in cone:
        if ctx.atoms[a].kind != "var":
            continue
        v = model.eval(avar(a), model_completion=True)
        try:
            env[a] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        except AttributeError:
            ap = v.approx(20)
            env[a] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
    return env


# ------------------------------------------------------------------ equality normal form
def cancel(p):
    """use d*D = 1 wherever the coefficient of d^k is divisible by D"""
    changed = True
    guard = 0
    while changed and p:
        changed = False
        guard += 1
        if guard > 50:
            break
        invs = sorted({a for m in p for a, e in m if ctx.atoms[a].kind == "inv"}, reverse=True)
        for d in invs:
            D = ctx.atoms[d].args[0]
            while True:
                n = max((dict(m).get(d, 0) for m in p), default=0)
                if n <= 0:
                    break
                A, rest = {}, {}
                for m, c in p.items():
                    if dict(m).get(d, 0) == n:
                        A[tuple(t for t in m if t[0] != d)] = c
                    else:
                        rest[m] = c
                qt = core.poly_divexact_laurent(A, D)
                if qt is None:
                    break
                f = {((d, n - 1),): 1} if n > 1 else {(): 1}
                p = core.poly_add(rest, core.poly_mul(qt, f))
                changed = True
    return p


def is_zero(p):
    """True if p vanishes identically wherever all its inverses/roots are defined"""
    if not p:
        return True
    p = cancel(p)
    if not p:
        return True
    if not any(ctx.atoms[a].kind == "inv" for m in p for a, _ in m):
        if not any(e < 0 for m in p for _, e in m):
            # a polynomial in algebraically independent atoms (or with ites): nonzero normal form
            return False
    try:
        r = clear_denoms(p, need_sign=False)
    except core.TooBig:
        return None
    return not r


# ------------------------------------------------------------------ rebuild under path assumptions
_rb = {}


def has_branch(p):
    """cone contains an ite (or floor) atom"""
    return any(ctx.atoms[a].kind in ("ite", "floor") for a in atoms_of(p))


def rebuild_atom(a):
    key = (a, ctx.stamp)
    r = _rb.get(key)
    if r is not None:
        return r
    x = ctx.atoms[a]
    if x.kind in ("var", "inf", "nan"):
        r = S({((a, 1),): 1}, x.lo, x.hi)
    elif x.kind == "ite":
        c = rebuild_cond(x.args[0])
        if c is core.TRUE:
            r = rebuild(x.args[1])
        elif c is core.FALSE:
            r = rebuild(x.args[2])
        else:
            r = core.ite(c, rebuild(x.args[1]), rebuild(x.args[2]))
            r = S(r.p, max(r.lo, x.lo), min(r.hi, x.hi)) if max(r.lo, x.lo) <= min(r.hi, x.hi) else r
    elif x.kind == "inv":
        r = core.div(core.const(1), rebuild(x.args[0]))
    elif x.kind == "sqrt":
        r = core.sqrt(rebuild(x.args[0]))
    elif x.kind == "floor":
        r = core.floor_(rebuild(x.args[0]))
    elif x.kind == "fn":
        args = [rebuild(p) for p in x.args]
        if x.name == "exp":
            r = core.exp_(args[0])
        elif x.name == "log":
            r = core.log_(args[0])
        elif x.name == "sin":
            r = core.sin_(args[0])
        elif x.name == "cos":
            r = core.cos_(args[0])
        elif x.name == "pow":
            r = core.pow_(args[0], args[1])
        elif x.name == "cbrt":
            r = core.cbrt_(args[0])
        else:
            r = core.generic_fn(x.name, args, x.lo, x.hi)
    else:
        raise AssertionError(x.kind)
    r = S(r.p, r.lo, r.hi)
    _rb[key] = r
    return r


def rebuild(p):
    branchy = {}
    for m in p:
        for a, _ in m:
            if a not in branchy:
                branchy[a] = has_branch({((a, 1),): 1})
    if not any(branchy.values()):
        lo, hi = poly_interval(p)
        return S(p, lo, hi)
    acc = []
    for m, c in p.items():
        t = core.const(c)
        plain = []
        for a, e in m:
            if branchy[a]:
                b = rebuild_atom(a)
                t = core.mul(t, core.ipow_s(b, e))
            else:
                plain.append((a, e))
        if plain:
            pm = tuple(plain)
            lo, hi = mono_interval(pm)
            t = core.mul(t, S({pm: 1}, lo, hi))
        acc.append(t)
    r = core.sum_(acc)
    return S(r.p, r.lo, r.hi)


def rebuild_cond(c):
    key = ("c", c.id, ctx.stamp)
    r = _rb.get(key)
    if r is not None:
        return r
    if c.kind == "cmp":
        s = core.simp(c)
        if s is core.TRUE or s is core.FALSE:
            r = s
        elif has_branch(c.args[0]):
            x = rebuild(c.args[0])
            r = core.cmp0(x.p, c.args[1], (x.lo, x.hi))
        else:
            r = c
    elif c.kind == "not":
        r = core.not_(rebuild_cond(c.args[0]))
    elif c.kind == "and":
        r = core.and_(rebuild_cond(c.args[0]), rebuild_cond(c.args[1]))
    elif c.kind == "or":
        r = core.or_(rebuild_cond(c.args[0]), rebuild_cond(c.args[1]))
    else:
        r = core.simp(c)
        if c.kind == "bv":
            for a in ctx.assumptions:
                if a is c:
                    r = core.TRUE
                elif a.kind == "not" and a.args[0] is c:
                    r = core.FALSE
    _rb[key] = r
    return r


_stampctr = [1000000]


class Assume:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.save = (list(ctx.assumptions), ctx.stamp)
        st = [self.c]
        while st:
            c = st.pop()
            if c.kind == "and":
                st.extend(c.args)
            elif c is not core.TRUE:
                ctx.assumptions.append(c)
        _stampctr[0] += 1
        ctx.stamp = _stampctr[0]

    def __exit__(self, *a):
        ctx.assumptions[:], ctx.stamp = self.save[0], self.save[1]


def pick_branch_cond(c):
    """an undecided leaf condition to split on: deepest = the one whose own cone has no branch"""
    ids = sorted(core.cond_atoms(c))
    for a in ids:
        x = ctx.atoms[a]
        if x.kind == "ite":
            st = [x.args[0]]
            while st:
                y = st.pop()
                if y.kind in ("cmp", "bv"):
                    if y.kind == "bv" or not any(ctx.atoms[b].kind == "ite" for b in core.cond_atoms(y)):
                        return y
                else:
                    st.extend(z for z in y.args if isinstance(z, C))
    return None


def pick_floor_split(c):
    """bisect the range of a floor atom with few values"""
    for a in core.cond_atoms(c):
        x = ctx.atoms[a]
        if x.kind == "floor" and x.hi - x.lo <= 16 and x.hi > x.lo:
            v = int((x.lo + x.hi + 1) // 2)
            b = core.cmp0(core.poly_add(x.args[0], {(): -v} if v else {}), ">=")
            if b.kind == "cmp":
                return b
    return None


def leaf_conds(c, acc=None):
    acc = [] if acc is None else acc
    st = [c]
    while st:
        y = st.pop()
        if y.kind in ("cmp", "bv"):
            acc.append(y)
        else:
            st.extend(z for z in y.args if isinstance(z, C))
    return acc


def lra_feasible():
    L = _sync(lra())
    stats.prune_queries += 1
    return L.s.check() != z3.unsat


class Result:
    def __init__(self, status, env=None, note="", paths=0):
        self.status, self.env, self.note, self.paths = status, env, note, paths


def refute(neg, budget, nra_ms=4000, depth=0, info=None):
    """Show that condition `neg` (the negated property) is unsatisfiable under ctx.assumptions.
    Returns 'unsat', ('sat', env) or 'unknown'."""
    info = info if info is not None else {"paths": 0, "why": None}
    c = rebuild_cond(neg)
    if c is core.FALSE:
        info["paths"] += 1
        return "unsat"
    # equality negations: p>0 or -p>0 (tolerance) are handled by normal form first
    c = nf_cond(c)
    if c is core.FALSE:
        info["paths"] += 1
        stats.normal_form += 1
        return "unsat"
    if time.time() > budget:
        info["why"] = "time budget"
        return "unknown"
    b = pick_branch_cond(c)
    if b is None:
        b = pick_floor_split(c)
    if b is None:
        info["paths"] += 1
        if c is core.TRUE:
            c2 = []
        else:
            c2 = [c]
        with Assume(c):
            if not lra_feasible():
                stats.queries += 1
                stats.unsat += 1
                return "unsat"
        # make sure path conditions themselves are included: they are in ctx.assumptions
        conds = c2 + [a for a in ctx.assumptions[info.get("base", 0):]]
        left = max(200, min(nra_ms, (budget - time.time()) * 1000))
        r, model = nra_check(conds or [core.TRUE], left, want_model=True)
        if r == "unsat":
            return "unsat"
        if r == "sat":
            cone = set()
            for x in conds:
                cone |= core.cond_atoms(x)
            used, cone2 = relevant_assumptions(conds)
            return ("sat", model_env(model, cone | cone2))
        info["why"] = "nra unknown: %s" % (str(c)[:200],)
        return "unknown"
    out = "unsat"
    for val in (b, core.not_(b)):
        with Assume(val):
            if not lra_feasible():
                info["paths"] += 1
                continue
            r = refute(c, budget, nra_ms, depth + 1, info)
        if r == "unsat":
            continue
        if isinstance(r, tuple):
            return r
        out = "unknown"
        if time.time() > budget:
            break
    return out


_nfmemo = {}


def nf_cond(c):
    """simplify each comparison by polynomial normal form (d*D=1 cancellation, vanishing polynomials)"""
    if c.kind == "cmp":
        key = (c.id, ctx.stamp)
        r = _nfmemo.get(key)
        if r is not None:
            return r
        p, op = c.args
        if any(ctx.atoms[a].kind == "inv" or e < 0 for m in p for a, e in m):
            const = p.get((), 0)
            p2 = cancel(p)
            if p2 is not p:
                r = core.cmp0(p2, op)
            else:
                r = c
            if r.kind == "cmp":
                # p = tau-shifted identity:  p - const vanishes?
                rest = dict(r.args[0])
                k = rest.pop((), 0)
                if rest and any(ctx.atoms[a].kind == "inv" or e < 0 for m in rest for a, e in m):
                    try:
                        z = clear_denoms(rest, need_sign=False)
                        if not z:
                            r = core.bconst(k > 0 if op == ">" else k >= 0 if op == ">=" else k == 0)
                    except core.TooBig:
                        pass
        else:
            r = c
        _nfmemo[key] = r
        return r
    if c.kind == "not":
        return core.not_(nf_cond(c.args[0]))
    if c.kind == "and":
        return core.and_(nf_cond(c.args[0]), nf_cond(c.args[1]))
    if c.kind == "or":
        return core.or_(nf_cond(c.args[0]), nf_cond(c.args[1]))
    return c


# ------------------------------------------------------------------ numeric evaluation (vectorised)
NPFN = {
    "exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh,
    "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "sinh": np.sinh, "cosh": np.cosh,
    "atan2": np.arctan2, "pow": np.power, "cbrt": np.cbrt, "log1p": np.log1p, "expm1": np.expm1,
    "asinh": np.arcsinh, "acosh": np.arccosh, "atanh": np.arctanh,
}


def _expm_entry(name):
    k, i, j = int(name[4]), int(name[6]), int(name[7])

    def f(*a):
        from scipy.linalg import expm
        a = np.broadcast_arrays(*a)
        r = np.full(a[0].shape, np.nan)
        for q in np.ndindex(*r.shape):
            m = np.array([x[q] for x in a]).reshape(k, k)
            if np.isfinite(m).all():
                r[q] = expm(m)[i, j]
        return r
    return f


class _NPFN(dict):
    def __missing__(self, name):
        if name.startswith("expm"):
            self[name] = _expm_entry(name)
            return self[name]
        raise KeyError(name)


NPFN = _NPFN(NPFN)


class NumEval:
    """env: atom id of variables -> float64 array of samples (shape n)"""

    def __init__(self, env, n):
        self.v = dict(env)
        self.n = n
        self.c = {}
        self.bv = {}

    def need(self, ids):
        for a in sorted(ids):
            if a in self.v:
                continue
            x = ctx.atoms[a]
            with np.errstate(all="ignore"):
                if x.kind == "var":
                    if x.name.startswith("havoc"):
                        r = np.full(self.n, np.nan)
                    elif not x.name.startswith("rnd"):
                        raise KeyError(x.name)
                    else:
                        r = np.zeros(self.n)
                elif x.kind == "ite":
                    c = self.cond(x.args[0])
                    r = np.where(c, self.poly(x.args[1]), self.poly(x.args[2]))
                elif x.kind == "inv":
                    r = 1.0 / self.poly(x.args[0])
                elif x.kind == "sqrt":
                    r = np.sqrt(np.maximum(self.poly(x.args[0]), 0.0))
                elif x.kind == "floor":
                    r = np.floor(self.poly(x.args[0]))
                elif x.kind == "fn":
                    f = NPFN[x.name]
                    r = f(*[self.poly(p) for p in x.args])
                elif x.kind == "inf":
                    r = np.full(self.n, np.inf)
                else:
                    r = np.full(self.n, np.nan)
            self.v[a] = r

    def poly(self, p):
        missing = {a for m in p for a, _ in m if a not in self.v}
        if missing:
            self.need(missing)
        t = np.zeros(self.n)
        with np.errstate(all="ignore"):
            for m, c in p.items():
                r = float(c)
                for a, e in m:
                    r = r * (self.v[a] if e == 1 else self.v[a] ** float(e) if e < 0 else self.v[a] ** e)
                t = t + r
        return t

    def cond(self, c):
        r = self.c.get(c.id)
        if r is not None:
            return r
        if c.kind == "T":
            r = np.ones(self.n, bool)
        elif c.kind == "F":
            r = np.zeros(self.n, bool)
        elif c.kind == "cmp":
            v = self.poly(c.args[0])
            r = v > 0 if c.args[1] == ">" else v >= 0 if c.args[1] == ">=" else v == 0
        elif c.kind == "not":
            r = ~self.cond(c.args[0])
        elif c.kind == "and":
            r = self.cond(c.args[0]) & self.cond(c.args[1])
        elif c.kind == "or":
            r = self.cond(c.args[0]) | self.cond(c.args[1])
        elif c.kind == "bv":
            r = np.zeros(self.n, bool)
        self.c[c.id] = r
        return r


def margin(c, ev):
    """signed slack of condition c at the samples (>=0 satisfied), used to pick robust candidates"""
    if c.kind == "T":
        return np.full(ev.n, np.inf)
    if c.kind == "F":
        return np.full(ev.n, -np.inf)
    if c.kind == "cmp":
        v = ev.poly(c.args[0])
        if c.args[1] == "==":
            return -np.abs(v) + 1e-300
        return v
    if c.kind == "not":
        x = c.args[0]
        if x.kind == "cmp" and x.args[1] == "==":
            return np.abs(ev.poly(x.args[0]))
        return -margin(x, ev)
    if c.kind == "and":
        return np.minimum(margin(c.args[0], ev), margin(c.args[1], ev))
    if c.kind == "or":
        return np.maximum(margin(c.args[0], ev), margin(c.args[1], ev))
    return np.where(ev.cond(c), np.inf, -np.inf)
