"""Symbolic interpreter for jaxprs.

Values: native numpy arrays for concrete ints/bools; object arrays of core.S (numbers) or core.C
(booleans) otherwise.  All floating values are object arrays of S (constants included)."""
from __future__ import annotations
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from jax.extend import core as jcore

from . import core
from .core import S, C, Unsupported, const, TRUE, FALSE

RULES = {}
prims_seen = {}


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f
    return d


def is_native(x):
    return x.dtype != object


def isfloat(dt):
    return jnp.issubdtype(dt, jnp.inexact)


def isbool(dt):
    return dt == np.bool_ or str(dt) == "bool"


def obj(a, shape=None):
    """python nested -> object array with exact shape"""
    out = np.empty(len(a), dtype=object)
    for i, x in enumerate(a):
        out[i] = x
    return out.reshape(shape) if shape is not None else out


def lift(x, dt):
    """concrete array -> interpreter value of abstract dtype dt"""
    x = np.asarray(x)
    if x.dtype == object:
        return x
    if isfloat(dt):
        flat = x.reshape(-1)
        out = np.empty(flat.shape[0], dtype=object)
        for i in range(flat.shape[0]):
            out[i] = core.S_(float(flat[i]))
        return out.reshape(x.shape)
    return x


def to_obj(x):
    """native -> object array of S or C"""
    if x.dtype == object:
        return x
    flat = x.reshape(-1)
    out = np.empty(flat.shape[0], dtype=object)
    if x.dtype == np.bool_:
        for i in range(flat.shape[0]):
            out[i] = core.bconst(bool(flat[i]))
    else:
        for i in range(flat.shape[0]):
            out[i] = const(int(flat[i]))
    return out.reshape(x.shape)


def try_native(x, dt):
    """object array whose entries are all concrete ints/bools -> native"""
    if x.dtype != object or isfloat(dt):
        return x
    flat = x.reshape(-1)
    vals = []
    if isbool(dt):
        for c in flat:
            if c is TRUE or core.simp(c) is TRUE:
                vals.append(True)
            elif c is FALSE or core.simp(c) is FALSE:
                vals.append(False)
            else:
                return x
        return np.array(vals, dtype=bool).reshape(x.shape)
    for s in flat:
        if s.bad is not None:
            return x
        k = core.poly_const(s.p)
        if k is None:
            return x
        vals.append(int(k))
    return np.array(vals, dtype=np.dtype(str(dt))).reshape(x.shape)


def elementwise(f, *xs):
    xs = [to_obj(x) for x in xs]
    if xs[0].size == 0:
        return np.empty(np.broadcast_shapes(*[x.shape for x in xs]), dtype=object)
    r = np.frompyfunc(f, len(xs), 1)(*xs)
    if not isinstance(r, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = r
        r = o
    return r


# ------------------------------------------------------------------------------------ structural
def structural(prim, params, xs, nops):
    """data movement primitives: run the primitive on element numbers and permute.
    xs[:nops] are data operands, remaining are concrete index operands."""
    data = xs[:nops]
    rest = xs[nops:]
    for r in rest:
        if not is_native(r):
            raise Unsupported("symbolic index in %s" % prim.name)
    off = 1
    ids = []
    allobj = any(not is_native(d) for d in data)
    flats = []
    for d in data:
        n = d.size
        ids.append(jnp.arange(off, off + n, dtype=jnp.int32).reshape(d.shape))
        off += n
        flats.append((to_obj(d) if allobj else d).reshape(-1))
    if allobj:
        pool = np.empty(off, dtype=object)
    else:
        pool = np.empty(off, dtype=np.result_type(*[f.dtype for f in flats]))
    pool[0] = None if allobj else 0
    k = 1
    for f in flats:
        pool[k:k + f.shape[0]] = f
        k += f.shape[0]
    idx = np.asarray(prim.bind(*ids, *[jnp.asarray(r) for r in rest], **params))
    return idx, pool


def take(idx, pool, fill=None):
    flat = idx.reshape(-1)
    oob = (flat <= 0) | (flat >= pool.shape[0])
    if oob.any():
        if fill is None:
            raise Unsupported("unexpected fill in structural primitive")
        out = np.empty(flat.shape[0], dtype=pool.dtype)
        ok = ~oob
        out[ok] = pool[flat[ok]]
        for i in np.nonzero(oob)[0]:
            out[i] = fill
        return out.reshape(idx.shape)
    return pool[flat].reshape(idx.shape)


def _struct(nops):
    def f(interp, eqn, xs):
        n = nops if nops is not None else len(xs)
        idx, pool = structural(eqn.primitive, eqn.params, xs, n)
        return [take(idx, pool)]
    return f


for _n in ("reshape", "transpose", "broadcast_in_dim", "broadcast_to", "tile", "squeeze", "expand_dims", "rev", "slice",
           "copy", "copy_p"):
    RULES[_n] = _struct(1)
RULES["stack"] = _struct(None)


@rule("unstack")
def _unstack(interp, eqn, xs):
    x = np.moveaxis(xs[0], eqn.params["axis"], 0)
    return [x[i] if x.ndim > 1 or is_native(x) else _sc(x[i]) for i in range(x.shape[0])]


@rule("empty", "empty2")
def _empty(interp, eqn, xs):
    aval = eqn.outvars[0].aval
    return [lift(np.zeros(aval.shape, np.float32), aval.dtype)]
RULES["concatenate"] = _struct(None)
RULES["pad"] = _struct(2)


@rule("dynamic_slice")
def _dynamic_slice(interp, eqn, xs):
    idx = xs[1:]
    if all(is_native(i) for i in idx):
        i, pool = structural(eqn.primitive, eqn.params, xs, 1)
        return [take(i, pool)]
    # symbolic start indices: clamp then select
    sizes = eqn.params["slice_sizes"]
    op = to_obj(xs[0])

    def rec(d, starts):
        if d == op.ndim:
            return op[tuple(slice(s, s + n) for s, n in zip(starts, sizes))]
        hi = op.shape[d] - sizes[d]
        s = idx[d]
        if is_native(s):
            return rec(d + 1, starts + [min(max(int(s), 0), hi)])
        s = s[()]
        out = rec(d + 1, starts + [hi])
        for k in range(hi - 1, -1, -1):
            c = core.le(s, const(k)) if k == 0 else core.le(s, const(k))
            out = elementwise(lambda a, b: gite(c, a, b), rec(d + 1, starts + [k]), out)
        return out
    return [rec(0, [])]


@rule("dynamic_update_slice")
def _dus(interp, eqn, xs):
    i, pool = structural(eqn.primitive, eqn.params, xs, 2)
    return [take(i, pool)]


def gite(c, a, b):
    if isinstance(a, C) or isinstance(b, C):
        return core.ite_c(core.simp(c), a, b)
    return core.ite(c, a, b)


@rule("gather")
def _gather(interp, eqn, xs):
    op, ind = xs
    fillv = eqn.params.get("fill_value")
    odt = eqn.outvars[0].aval.dtype
    if fillv is None:
        fill = core.S_(math.nan) if isfloat(odt) else None
    else:
        fill = core.S_(float(fillv)) if isfloat(odt) else (const(int(fillv)) if not isbool(odt) else core.bconst(bool(fillv)))
    params = dict(eqn.params)
    if is_native(ind):
        params["fill_value"] = -1 if "fill_value" in params else None
        idx, pool = structural(eqn.primitive, params, [op, ind], 1)
        if fill is not None and pool.dtype != object:
            fill = fill.const if isinstance(fill, S) else (fill is TRUE)
        if fill is None:
            if isfloat(odt):
                raise Unsupported("fill")
            fill = np.iinfo(np.dtype(str(odt))).min if not isbool(odt) else True
        return [take(idx, pool, fill)]
    # symbolic indices: enumerate the values each symbolic component may take
    flat = ind.reshape(-1)
    rngs = []
    tot = 1
    for s in flat:
        if isinstance(s, S) and s.const is not None:
            rngs.append([int(s.const)])
        else:
            if s.lo < -1e6 or s.hi > 1e6:
                raise Unsupported("unbounded symbolic gather index")
            rngs.append(list(range(math.ceil(s.lo), math.floor(s.hi) + 1)))
        tot *= len(rngs[-1])
    if tot > 512:
        # index vectors are independent: split along leading batch dims
        ivd = ind.shape[-1]
        if ind.ndim >= 2 and not eqn.params["dimension_numbers"].operand_batching_dims:
            dn = eqn.params["dimension_numbers"]
            bdims = [d for d in range(eqn.outvars[0].aval.ndim) if d not in dn.offset_dims]
            lead = int(np.prod(ind.shape[:-1]))
            find = ind.reshape(lead, ivd)
            outs = []
            for k in range(lead):
                outs.append(_gather_enum(eqn, params, op, find[k], odt, fill))
            # outs[k]: offset-shaped array
            off_shape = outs[0].shape
            res = np.empty(ind.shape[:-1] + off_shape, dtype=object)
            for k, i in enumerate(np.ndindex(*ind.shape[:-1])):
                res[i] = outs[k][()]
            nb = len(ind.shape) - 1
            perm = [None] * res.ndim
            oi = bi = 0
            for d in range(res.ndim):
                if d in dn.offset_dims:
                    perm[d] = nb + oi
                    oi += 1
                else:
                    perm[d] = bi
                    bi += 1
            return [res.transpose(perm)]
        raise Unsupported("symbolic gather with %d cases" % tot)
    out = None
    for combo in reversed(list(itertools.product(*rngs))):
        ci = np.array(combo, dtype=np.int32).reshape(ind.shape)
        p2 = dict(params)
        p2["fill_value"] = -1
        idx, pool = structural(eqn.primitive, p2, [op, ci], 1)
        val = to_obj(take(idx, pool, fill))
        if out is None:
            out = val
        else:
            cond = TRUE
            for s, k, r in zip(flat, combo, rngs):
                if len(r) > 1:
                    cond = core.and_(cond, core.eq(s, const(k)))
            out = elementwise(lambda a, b: gite(cond, a, b), val, out)
    return [out]


def _gather_enum(eqn, params, op, iv, odt, fill):
    dn = eqn.params["dimension_numbers"]
    rngs = []
    for s in iv:
        if isinstance(s, S) and s.const is None:
            if s.lo < -1e6 or s.hi > 1e6:
                raise Unsupported("unbounded symbolic gather index")
            rngs.append(list(range(math.ceil(s.lo), math.floor(s.hi) + 1)))
        else:
            rngs.append([int(s.const) if isinstance(s, S) else int(s)])
    p2 = dict(params)
    p2["fill_value"] = -1
    noff = len(dn.offset_dims)
    p2["dimension_numbers"] = lax.GatherDimensionNumbers(
        offset_dims=tuple(range(noff)), collapsed_slice_dims=dn.collapsed_slice_dims,
        start_index_map=dn.start_index_map)
    out = None
    for combo in reversed(list(itertools.product(*rngs))):
        ci = np.array(combo, dtype=np.int32)
        idx, pool = structural(eqn.primitive, p2, [op, ci], 1)
        val = to_obj(take(idx, pool, fill))
        if out is None:
            out = val
        else:
            cond = TRUE
            for s, k, r in zip(iv, combo, rngs):
                if len(r) > 1:
                    cond = core.and_(cond, core.eq(s, const(k)))
            out = elementwise(lambda a, b: gite(cond, a, b), val, out)
    return out


def scatter_targets(eqn, op, ind, upd):
    """for every update element, linear operand index (or -1 when dropped)"""
    dn = eqn.params["dimension_numbers"]
    if op.size > 2 ** 23:
        raise Unsupported("scatter too large")

    def f(u):
        return lax.scatter_add(jnp.zeros(op.shape, jnp.float32), jnp.asarray(ind), u, dn,
                               indices_are_sorted=False, unique_indices=False, mode=eqn.params.get("mode"))
    t = jax.linear_transpose(f, jax.ShapeDtypeStruct(upd.shape, jnp.float32))
    io = jnp.arange(1, op.size + 1, dtype=jnp.float32).reshape(op.shape)
    (tg,) = t(io)
    return np.asarray(tg).round().astype(np.int64).reshape(-1) - 1


def _scatter(kind):
    def f(interp, eqn, xs):
        op, ind, upd = xs
        if not is_native(ind):
            return _scatter_sym(kind, eqn, op, ind, upd)
        tg = scatter_targets(eqn, op, ind, upd)
        native = is_native(op) and is_native(upd)
        if native:
            dt = op.dtype
            out = op.reshape(-1).copy()
            u = upd.reshape(-1)
            for k, t in enumerate(tg):
                if t < 0:
                    continue
                if kind == "add":
                    out[t] = out[t] + u[k]
                elif kind == "sub":
                    out[t] = out[t] - u[k]
                elif kind == "mul":
                    out[t] = out[t] * u[k]
                elif kind == "min":
                    out[t] = min(out[t], u[k])
                elif kind == "max":
                    out[t] = max(out[t], u[k])
                else:
                    out[t] = u[k]
            return [out.reshape(op.shape).astype(dt)]
        o = to_obj(op).reshape(-1).copy()
        u = to_obj(upd).reshape(-1)
        acc = {}
        for k, t in enumerate(tg):
            if t >= 0:
                acc.setdefault(int(t), []).append(u[k])
        for t, us in acc.items():
            if kind == "add":
                o[t] = core.sum_([o[t]] + us)
            elif kind == "sub":
                o[t] = core.sub(o[t], core.sum_(us))
            elif kind == "mul":
                for x in us:
                    o[t] = core.mul(o[t], x)
            elif kind == "min":
                for x in us:
                    o[t] = core.min_(o[t], x)
            elif kind == "max":
                for x in us:
                    o[t] = core.max_(o[t], x)
            else:
                if len(us) > 1 and not all(same(us[0], x) for x in us[1:]):
                    raise Unsupported("scatter with conflicting duplicate indices")
                o[t] = us[-1]
        return [o.reshape(op.shape)]
    return f


def _scatter_sym(kind, eqn, op, ind, upd):
    """symbolic indices: every value an index row may take is enumerated, and each update is applied under the guard that
    its row has that value"""
    dn = eqn.params["dimension_numbers"]
    rows = list(np.ndindex(*ind.shape[:-1]))
    sdims = [d for d in range(upd.ndim) if d not in dn.update_window_dims]
    row_of = np.empty(upd.shape, dtype=np.int64)
    rid = {r: k for k, r in enumerate(rows)}
    for k in np.ndindex(*upd.shape):
        row_of[k] = rid[tuple(k[d] for d in sdims)]
    row_of = row_of.reshape(-1)
    memo = {}

    def targets(combo):
        if combo not in memo:
            if len(memo) > 1500:
                raise Unsupported("symbolic scatter index with too many values")
            c = np.broadcast_to(np.array(combo, dtype=np.int32), ind.shape)
            memo[combo] = scatter_targets(eqn, op, c, upd)
        return memo[combo]
    o = to_obj(op).reshape(-1).copy()
    u = to_obj(upd).reshape(-1)
    els = [np.nonzero(row_of == k)[0] for k in range(len(rows))]
    acc = {}
    for k, r in enumerate(rows):
        rngs = []
        for s in ind[r]:
            if isinstance(s, S) and s.const is None:
                if s.lo < -1e4 or s.hi > 1e4:
                    raise Unsupported("unbounded symbolic scatter index")
                rngs.append([(j, core.eq(s, const(j))) for j in range(math.ceil(s.lo), math.floor(s.hi) + 1)])
                rngs[-1] = [x for x in rngs[-1] if x[1] is not FALSE]
            else:
                rngs.append([(int(s.const) if isinstance(s, S) else int(s), TRUE)])
        for combo in itertools.product(*rngs):
            g = TRUE
            for _, c in combo:
                g = core.and_(g, c)
            if g is FALSE:
                continue
            tg = targets(tuple(j for j, _ in combo))
            for e in els[k]:
                if tg[e] >= 0:
                    acc.setdefault(int(tg[e]), []).append((g, u[e]))
    for t, gu in acc.items():
        if kind in ("add", "sub"):
            tot = core.sum_([gite(g, x, const(0)) for g, x in gu])
            o[t] = (core.add if kind == "add" else core.sub)(o[t], tot)
        else:
            h = {"mul": core.mul, "min": core.min_, "max": core.max_, "set": lambda a, b: b}[kind]
            for g, x in gu:
                o[t] = gite(g, h(o[t], x), o[t])
    return [o.reshape(op.shape)]


def same(a, b):
    if isinstance(a, C):
        return a is b
    return a.p == b.p and a.bad is b.bad


RULES["scatter-add"] = RULES["scatter_add"] = _scatter("add")
RULES["scatter-sub"] = RULES["scatter_sub"] = _scatter("sub")
RULES["scatter-mul"] = RULES["scatter_mul"] = _scatter("mul")
RULES["scatter-min"] = RULES["scatter_min"] = _scatter("min")
RULES["scatter-max"] = RULES["scatter_max"] = _scatter("max")
RULES["scatter"] = _scatter("set")


@rule("select_n")
def _select_n(interp, eqn, xs):
    pred, cases = xs[0], xs[1:]
    if is_native(pred):
        i, pool = structural(eqn.primitive, eqn.params, [pred] + list(cases), 0) if False else (None, None)
        p = pred.astype(np.int64)
        if all(is_native(c) for c in cases):
            return [np.choose(np.broadcast_to(p, cases[0].shape), cases).astype(cases[0].dtype)] \
                if cases[0].ndim else [cases[int(p)]]
        cs = [to_obj(c) for c in cases]
        p = np.broadcast_to(p, cs[0].shape)
        out = np.empty(cs[0].shape, dtype=object)
        for k in np.ndindex(*out.shape):
            out[k] = cs[int(p[k])][k]
        return [out]
    if len(cases) == 2 and isinstance(pred.reshape(-1)[0] if pred.size else TRUE, C):
        return [elementwise(lambda c, f, t: gite(c, t, f), pred, cases[0], cases[1])]
    # integer selector
    out = to_obj(cases[-1])
    for k in range(len(cases) - 2, -1, -1):
        out = elementwise(lambda s, a, b, k=k: gite(core.eq(s, const(k)), a, b), pred, cases[k], out)
    return [out]


# ------------------------------------------------------------------------------------ arithmetic
def _ew(f):
    def r(interp, eqn, xs):
        return [elementwise(f, *xs)]
    return r


RULES["add"] = RULES["add_any"] = _ew(lambda a, b: core.or_(a, b) if isinstance(a, C) else core.add(a, b))
RULES["sub"] = _ew(core.sub)
RULES["mul"] = _ew(lambda a, b: core.and_(a, b) if isinstance(a, C) else core.mul(a, b))
RULES["neg"] = _ew(core.neg)
RULES["abs"] = _ew(core.abs_)
RULES["max"] = _ew(lambda a, b: core.or_(a, b) if isinstance(a, C) else core.max_(a, b))
RULES["min"] = _ew(lambda a, b: core.and_(a, b) if isinstance(a, C) else core.min_(a, b))
RULES["sqrt"] = _ew(core.sqrt)
RULES["rsqrt"] = _ew(lambda a: core.div(const(1), core.sqrt(a)))
RULES["exp"] = _ew(core.exp_)
RULES["exp2"] = _ew(lambda a: core.pow_(const(2), a))
RULES["log"] = _ew(core.log_)
RULES["log1p"] = _ew(lambda a: core.log_(core.add(const(1), a)))
RULES["expm1"] = _ew(lambda a: core.sub(core.exp_(a), const(1)))
RULES["sin"] = _ew(core.sin_)
RULES["cos"] = _ew(core.cos_)
RULES["tan"] = _ew(lambda a: core.div(core.sin_(a), core.cos_(a)))
RULES["tanh"] = _ew(lambda a: core.generic_fn("tanh", [a], -1.0, 1.0) if a.p else a)
RULES["asin"] = _ew(lambda a: core.generic_fn("asin", [a], -1.5707964, 1.5707964) if a.p else a)
RULES["acos"] = _ew(lambda a: core.generic_fn("acos", [a], 0.0, 3.1415927))
RULES["atan"] = _ew(lambda a: core.generic_fn("atan", [a], -1.5707964, 1.5707964) if a.p else a)
RULES["atan2"] = _ew(core.atan2_)
RULES["cbrt"] = _ew(core.cbrt_)
RULES["sinh"] = _ew(lambda a: core.generic_fn("sinh", [a]) if a.p else a)
RULES["cosh"] = _ew(lambda a: core.generic_fn("cosh", [a], 1.0) if a.p else const(1))
RULES["logistic"] = _ew(lambda a: core.div(const(1), core.add(const(1), core.exp_(core.neg(a)))))
RULES["floor"] = _ew(core.floor_)
RULES["ceil"] = _ew(lambda a: core.neg(core.floor_(core.neg(a))))
RULES["sign"] = _ew(core.sign_)
RULES["square"] = _ew(lambda a: core.mul(a, a))
RULES["one_minus_square"] = _ew(lambda a: core.sub(const(1), core.mul(a, a)))
RULES["log2"] = _ew(lambda a: core.div(core.log_(a), core.log_(const(2))))
RULES["asinh"] = _ew(lambda a: core.generic_fn("asinh", [a]) if a.p else a)
RULES["atanh"] = _ew(lambda a: core.generic_fn("atanh", [a]) if a.p else a)
RULES["acosh"] = _ew(lambda a: core.generic_fn("acosh", [a], 0.0))
RULES["conj"] = _ew(lambda a: a)
RULES["reciprocal"] = _ew(lambda a: core.div(const(1), a))
RULES["stop_gradient"] = _ew(lambda a: a)
RULES["real"] = _ew(lambda a: a)
RULES["nextafter"] = _ew(lambda a, b: a)


@rule("round")
def _round(interp, eqn, xs):
    def f(a):
        k = a.const
        if k is not None:
            from fractions import Fraction
            return const(round(Fraction(k)))
        return core.floor_(core.add(a, core.S_(0.5)))
    return [elementwise(f, xs[0])]


@rule("integer_pow")
def _ipow(interp, eqn, xs):
    y = eqn.params["y"]
    return [elementwise(lambda a: core.ipow_s(a, y), xs[0])]


@rule("pow")
def _pow(interp, eqn, xs):
    return [elementwise(core.pow_, xs[0], xs[1])]


@rule("div")
def _div(interp, eqn, xs):
    if isfloat(eqn.outvars[0].aval.dtype):
        return [elementwise(core.div, *xs)]

    def idiv(a, b):
        # lax integer division truncates towards zero
        k = b.const
        if k is None or k == 0:
            raise Unsupported("symbolic integer division")
        return core.trunc_(core.div(a, b))
    return [elementwise(idiv, *xs)]


@rule("rem")
def _rem(interp, eqn, xs):
    def rem(a, b):
        k = b.const
        if k is None or k == 0:
            raise Unsupported("symbolic remainder")
        return core.sub(a, core.mul(b, core.trunc_(core.div(a, b))))
    return [elementwise(rem, *xs)]


@rule("clamp")
def _clamp(interp, eqn, xs):
    return [elementwise(lambda lo, x, hi: core.min_(core.max_(x, lo), hi), *xs)]


def _num(x):
    return core.S_(x) if isinstance(x, C) else x


RULES["lt"] = RULES["lt_to"] = _ew(lambda a, b: core.lt(_num(a), _num(b)))
RULES["le"] = RULES["le_to"] = _ew(lambda a, b: core.le(_num(a), _num(b)))
RULES["gt"] = _ew(lambda a, b: core.lt(_num(b), _num(a)))
RULES["ge"] = _ew(lambda a, b: core.le(_num(b), _num(a)))
RULES["eq_to"] = RULES["eq"] = _ew(lambda a, b: core.iff(a, b) if isinstance(a, C) else core.eq(a, b))
RULES["ne"] = _ew(lambda a, b: core.not_(core.iff(a, b)) if isinstance(a, C) else core.not_(core.eq(a, b)))


def _needbool(f):
    def g(*a):
        if f is core.and_ and len(a) == 2 and all(isinstance(x, S) for x in a):
            x, m = a if a[1].const is not None else a[::-1]
            if m.const is not None and m.const >= 0 and x.lo >= 0 and (int(m.const) + 1) & int(m.const) == 0:   # low-bit mask
                k = const(int(m.const) + 1)
                return core.sub(x, core.mul(k, core.floor_(core.div(x, k))))
        if not all(isinstance(x, C) for x in a):
            raise Unsupported("bitwise op on symbolic integers")
        return f(*a)
    return g


RULES["and"] = _ew(_needbool(core.and_))
RULES["or"] = _ew(_needbool(core.or_))
RULES["not"] = _ew(_needbool(core.not_))
RULES["xor"] = _ew(_needbool(lambda a, b: core.not_(core.iff(a, b))))


@rule("is_finite")
def _isfin(interp, eqn, xs):
    return [elementwise(lambda a: TRUE if a.bad is None else core.not_(a.bad), xs[0])]


@rule("convert_element_type")
def _cvt(interp, eqn, xs):
    x = xs[0]
    src = eqn.invars[0].aval.dtype
    dst = eqn.params["new_dtype"]
    if is_native(x):
        if isfloat(dst):
            return [lift(x, dst)]
        return [x.astype(np.dtype(str(dst)))]
    if isbool(src):
        if isbool(dst):
            return [x]
        return [elementwise(core.S_, x)]
    if isbool(dst):
        return [elementwise(lambda a: core.not_(core.eq(a, const(0))), x)]
    if isfloat(src) and not isfloat(dst):
        r = elementwise(core.trunc_, x)
        return [try_native(r, dst)]
    return [x]


@rule("reduce_precision", "device_put", "copy", "name", "layout_constraint", "sharding_constraint", "pvary")
def _identity(interp, eqn, xs):
    return list(xs)


RULES["optimization_barrier"] = _identity


# ------------------------------------------------------------------------------------ reductions
def _reduce(f, unit=None):
    def r(interp, eqn, xs):
        x = to_obj(xs[0])
        axes = tuple(eqn.params["axes"])
        keep = [d for d in range(x.ndim) if d not in axes]
        y = x.transpose(keep + list(axes)).reshape([x.shape[d] for d in keep] + [-1])
        out = np.empty([x.shape[d] for d in keep], dtype=object)
        for k in np.ndindex(*out.shape):
            out[k] = f(list(y[k]))
        return [out]
    return r


def _fold(g):
    def f(xs):
        r = xs[0]
        for x in xs[1:]:
            r = g(r, x)
        return r
    return f


def _prod(xs):
    r = const(1)
    for x in xs:
        r = core.mul(r, x)
    return r


RULES["reduce_sum"] = _reduce(core.sum_)
_MX, _MN = (lambda a, b: core.or_(a, b) if isinstance(a, C) else core.max_(a, b)), (lambda a, b: core.and_(a, b) if isinstance(a, C) else core.min_(a, b))
RULES["reduce_max"] = _reduce(_fold(_MX))
RULES["reduce_min"] = _reduce(_fold(_MN))
RULES["reduce_prod"] = _reduce(_prod)
RULES["reduce_and"] = _reduce(_fold(core.and_))
RULES["reduce_or"] = _reduce(_fold(core.or_))


def _arg(better):
    def r(interp, eqn, xs):
        x = to_obj(xs[0])
        (ax,) = eqn.params["axes"]
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape[:-1], dtype=object)
        for k in np.ndindex(*out.shape):
            row = [_num(e) for e in y[k]]
            best, bi = row[0], const(0)
            for i in range(1, len(row)):
                c = better(row[i], best)
                best = core.ite(c, row[i], best)
                bi = core.ite(c, const(i), bi)
            out[k] = bi
        return [try_native(out, eqn.outvars[0].aval.dtype)]
    return r


RULES["argmax"] = _arg(lambda a, b: core.lt(b, a))
RULES["argmin"] = _arg(lambda a, b: core.lt(a, b))


def _cum(g):
    def r(interp, eqn, xs):
        x = np.moveaxis(to_obj(xs[0]), eqn.params["axis"], 0)
        out = np.empty_like(x)
        n = x.shape[0]
        order = range(n - 1, -1, -1) if eqn.params.get("reverse") else range(n)
        acc = None
        for i in order:
            xi = x[i] if x.ndim > 1 else _sc(x[i])
            acc = xi if acc is None else elementwise(g, acc, xi)
            out[i] = acc if acc.ndim else acc[()]
        return [np.moveaxis(out, 0, eqn.params["axis"])]
    return r


RULES["cumsum"] = _cum(core.add)
RULES["cumprod"] = _cum(core.mul)
RULES["cummax"] = _cum(_MX)
RULES["cummin"] = _cum(_MN)


@rule("dot_general")
def _dot(interp, eqn, xs):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    a, b = (elementwise(_num, to_obj(x)) if x.size and isinstance(to_obj(x).reshape(-1)[0], C) else to_obj(x) for x in xs[:2])
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    bs = [a.shape[d] for d in lb]
    ks = [a.shape[d] for d in lc]
    ms = [a.shape[d] for d in lf]
    ns = [b.shape[d] for d in rf]
    B, K, M, N = (int(np.prod(v)) for v in (bs, ks, ms, ns))
    A = a.transpose(list(lb) + lf + list(lc)).reshape(B, M, K)
    Bm = b.transpose(list(rb) + rf + list(rc)).reshape(B, N, K)
    out = np.empty((B, M, N), dtype=object)
    for i in range(B):
        for m in range(M):
            ra = A[i, m]
            for n in range(N):
                rb_ = Bm[i, n]
                out[i, m, n] = core.sum_([core.mul(ra[k], rb_[k]) for k in range(K)
                                          if (ra[k].p or ra[k].bad is not None) and
                                          (rb_[k].p or rb_[k].bad is not None)] or [const(0)])
    return [out.reshape(bs + ms + ns)]


@rule("reduce")
def _reduce(interp, eqn, xs):
    n = len(eqn.outvars)
    ops, ini, j, dims = xs[:n], xs[n:], eqn.params["jaxpr"], eqn.params["dimensions"]
    ops = [np.moveaxis(to_obj(x), dims, range(len(dims))) for x in ops]
    ops = [x.reshape((-1,) + x.shape[len(dims):]) for x in ops]
    out = []
    acc = [np.broadcast_to(to_obj(i), x.shape[1:]) for i, x in zip(ini, ops)]
    shape = ops[0].shape[1:]
    res = [np.empty(shape, dtype=object) for _ in ops]
    for k in np.ndindex(*shape):
        a = [_sc(x[k]) for x in acc]
        for i in range(ops[0].shape[0]):
            a = interp.run(j.jaxpr, j.consts, a + [_sc(x[(i,) + k]) for x in ops])
        for r, y in zip(res, a):
            r[k] = to_obj(y)[()]
    return [try_native(r, v.aval.dtype) for r, v in zip(res, eqn.outvars)]


@rule("reduce_window_sum")
def _rwsum(interp, eqn, xs):
    p = eqn.params
    if any(tuple(x) != (0, 0) for x in p["padding"]) or any(d != 1 for d in p["base_dilation"] + p["window_dilation"]):
        raise Unsupported("reduce_window")
    x = to_obj(xs[0])
    out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
    for k in np.ndindex(*out.shape):
        out[k] = core.sum_([x[tuple(a * s + b for a, s, b in zip(k, p["window_strides"], w))] for w in np.ndindex(*p["window_dimensions"])])
    return [out]


@rule("unvmap_any", "unvmap_max")
def _unvmap_any(interp, eqn, xs):
    r = None
    for x in to_obj(xs[0]).reshape(-1):
        r = x if r is None else (core.or_(r, x) if isinstance(x, C) else core.max_(r, x))
    return [_sc(r)]


@rule("pure_callback")
def _callback(interp, eqn, xs):
    # only reached below a guard (eqx.error_if): whatever it returns is not a value of the program
    out = []
    for v in eqn.outvars:
        if not isfloat(v.aval.dtype):
            raise Unsupported("callback")
        out.append(_fill(v.aval.shape, lambda k: S(core.fresh("callback").p, -math.inf, math.inf, TRUE)))
    return out


@rule("shift_left", "shift_right_arithmetic", "shift_right_logical")
def _shift(interp, eqn, xs):
    left = eqn.primitive.name == "shift_left"

    def f(a, b):
        if b.const is None or not 0 <= b.const < 31 or (eqn.primitive.name == "shift_right_logical" and a.lo < 0):
            raise Unsupported("symbolic shift")
        k = const(2 ** int(b.const))
        return core.mul(a, k) if left else core.floor_(core.div(a, k))
    return [elementwise(f, *xs)]


@rule("call_hi_primitive")
def _hi(interp, eqn, xs):
    h = eqn.params.get("_prim")
    nm = type(h).__name__
    if nm == "SearchSorted" and h.batch_dims == 0 and xs[0].ndim == 1 and is_native(xs[0]) and np.all(np.diff(xs[0]) >= 0):
        cmp_ = core.lt if h.side == "left" else core.le
        a = [core.S_(float(v)) for v in xs[0]]
        return [elementwise(lambda q: core.sum_([core.ite(cmp_(b, q), const(1), const(0)) for b in a]), xs[1])]
    # otherwise: what the primitive is defined to compute, as ordinary operations
    closed = jax.make_jaxpr(lambda *a: h.expand(*a))(*[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
    return interp.run(closed.jaxpr, closed.consts, list(xs))


@rule("polynomial")
def _polyn(interp, eqn, xs):
    def f(x, *cs):
        r = cs[-1]
        for c in cs[-2::-1]:
            r = core.add(core.mul(r, x), c)
        return r
    return [elementwise(f, *xs)]


@rule("top_k")
def _topk(interp, eqn, xs):
    k = eqn.params["k"]
    x = to_obj(xs[0])
    n = x.shape[-1]
    if n > 8:
        raise Unsupported("top_k")
    v, ix = np.empty(x.shape[:-1] + (k,), dtype=object), np.empty(x.shape[:-1] + (k,), dtype=object)
    for b in np.ndindex(*x.shape[:-1]):
        a, i = list(x[b]), [const(j) for j in range(n)]
        for p in range(n):
            for j in range(n - 1 - p):
                c = core.lt(a[j], a[j + 1])
                a[j], a[j + 1] = core.ite(c, a[j + 1], a[j]), core.ite(c, a[j], a[j + 1])
                i[j], i[j + 1] = core.ite(c, i[j + 1], i[j]), core.ite(c, i[j], i[j + 1])
        for j in range(k):
            v[b + (j,)], ix[b + (j,)] = a[j], i[j]
    return [v, try_native(ix, eqn.outvars[1].aval.dtype)]


@rule("sort")
def _sort(interp, eqn, xs):
    dim = eqn.params["dimension"]
    nk = eqn.params.get("num_keys", 1)
    if nk != 1:
        raise Unsupported("multi-key sort")
    ys = [np.moveaxis(to_obj(x), dim, -1).copy() for x in xs]
    n = ys[0].shape[-1]
    if n > 8:
        raise Unsupported("sort of %d symbolic elements" % n)
    for k in np.ndindex(*ys[0].shape[:-1]):
        for i in range(n):              # bubble sort network (stable)
            for j in range(n - 1 - i):
                a, b = ys[0][k + (j,)], ys[0][k + (j + 1,)]
                c = core.lt(b, a)
                for y in ys:
                    u, v = y[k + (j,)], y[k + (j + 1,)]
                    y[k + (j,)], y[k + (j + 1,)] = gite(c, v, u), gite(c, u, v)
    return [np.moveaxis(y, -1, dim) for y in ys]


# linear algebra kernels used by jnp.linalg.{inv,solve,det} on small matrices (no pivoting needed
# symbolically: exact arithmetic; result equals the exact inverse whenever it is defined)
@rule("lu")
def _lu(interp, eqn, xs):
    raise Unsupported("lu")


@rule("triangular_solve")
def _trisolve(interp, eqn, xs):
    raise Unsupported("triangular_solve")


SVDS = []        # known factorisations (F, U, s, Vt) of the matrices a case is built from


@rule("svd")
def _svd(interp, eqn, xs):
    """contract of the singular value decomposition: a factorisation F = U diag(s) Vt known from the construction of F
    (the signs of the singular vectors are not determined; one mixed choice is used)"""
    x = to_obj(xs[0])
    n = x.shape[-1]
    us, ss, vs = np.empty(x.shape, dtype=object), np.empty(x.shape[:-1], dtype=object), np.empty(x.shape, dtype=object)
    for k in np.ndindex(*x.shape[:-2]):
        for Fm, U, s, Vt in SVDS:
            if all(core.sub(x[k][i, j], core.S_(Fm[i, j])).p == {} for i in range(n) for j in range(n)):
                break
        else:
            raise Unsupported("svd of a matrix whose factorisation is not known")
        for i in range(n):
            sg = core.const(-1 if i % 2 == 0 else 1)
            ss[k + (i,)] = core.S_(s[i])
            for j in range(n):
                us[k + (j, i)] = core.mul(core.S_(U[j, i]), sg)
                vs[k + (i, j)] = core.mul(core.S_(Vt[i, j]), sg)
    out = []
    mats = [us, vs]
    for v in eqn.outvars:
        out.append(ss if len(v.aval.shape) == x.ndim - 1 else mats.pop(0))
    return out


def det_(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return core.sub(core.mul(m[0, 0], m[1, 1]), core.mul(m[0, 1], m[1, 0]))
    t = []
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        x = core.mul(m[0, j], det_(minor))
        t.append(x if j % 2 == 0 else core.neg(x))
    return core.sum_(t)


def inv_(m):
    n = m.shape[0]
    d = det_(m)
    out = np.empty_like(m)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = det_(minor) if n > 1 else const(1)
            out[i, j] = core.div(c if (i + j) % 2 == 0 else core.neg(c), d)
    return out


def expm_(m):
    """matrix exponential (library contract): exact on zero, diagonal, nilpotent and plane-rotation blocks, otherwise an
    uninterpreted function of the entries"""
    n = m.shape[0]
    z = lambda i, j: not core.S_(m[i, j]).p
    out = np.empty((n, n), dtype=object)
    comp = list(range(n))                      # weakly connected components of the off-diagonal pattern
    for _ in range(n):
        for i in range(n):
            for j in range(n):
                if i != j and not (z(i, j) and z(j, i)):
                    comp[i] = comp[j] = min(comp[i], comp[j])
    for i in range(n):
        for j in range(n):
            out[i, j] = const(0)
    for c in sorted(set(comp)):
        ix = [i for i in range(n) if comp[i] == c]
        b = np.array([[core.S_(m[i, j]) for j in ix] for i in ix], dtype=object)
        k = len(ix)
        e = None
        if k == 1:
            e = np.array([[core.exp_(b[0, 0])]], dtype=object)
        else:
            pw, acc, f = b, [b], 1
            while len(acc) < k and any(x.p for x in pw.reshape(-1)):
                pw = _mm(pw, b)
                acc.append(pw)
            if not any(x.p for x in _mm(acc[-1], b).reshape(-1)) or not any(x.p for x in acc[-1].reshape(-1)):
                e = np.array([[const(int(i == j)) for j in range(k)] for i in range(k)], dtype=object)
                for q, a in enumerate(acc):
                    f *= q + 1
                    for u in np.ndindex(k, k):
                        e[u] = core.add(e[u], core.mul(a[u], const(core.Fraction(1, f))))
            elif k == 2 and not core.sub(b[0, 0], b[1, 1]).p and not core.add(b[0, 1], b[1, 0]).p:
                r, w = core.exp_(b[0, 0]), b[1, 0]
                cs, sn = core.mul(r, core.cos_(w)), core.mul(r, core.sin_(w))
                e = np.array([[cs, core.neg(sn)], [sn, cs]], dtype=object)
        if e is None:
            args = list(b.reshape(-1))
            e = np.empty((k, k), dtype=object)
            for u in np.ndindex(k, k):
                e[u] = core.generic_fn("expm%d_%d%d" % ((k,) + u), args)
        for a, i in enumerate(ix):
            for d, j in enumerate(ix):
                out[i, j] = e[a, d]
    return out


def _mm(a, b):
    n = a.shape[0]
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = core.sum_([core.mul(a[i, k], b[k, j]) for k in range(n)])
    return r


def _by_name(name):
    """pjit'ed library calls with an exact algebraic meaning"""
    if name == "inv":
        def f(x):
            out = np.empty_like(x)
            for k in np.ndindex(*x.shape[:-2]):
                out[k] = inv_(x[k])
            return out
        return f
    return None


# ------------------------------------------------------------------------------------ higher order
@rule("pjit", "jit", "closed_call", "core_call", "remat", "checkpoint", "remat2", "custom_lin",
      "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_vmap_call", "linear_call", "composite", "xla_call", "core_closed_call")
def _call(interp, eqn, xs):
    p = eqn.params
    j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr") or p.get("call") or p.get("callee")
    name = p.get("name")
    if name == "signbit" and len(xs) == 1 and not is_native(xs[0]) and isinstance(to_obj(xs[0]).reshape(-1)[0], S):
        return [elementwise(lambda a: core.lt(a, const(0)), xs[0])]
    if name == "slogdet" and len(xs) == 1 and len(eqn.outvars) == 2 and xs[0].shape[-1] <= 4 and _has_prim(j, "lu"):
        x = to_obj(xs[0])
        sg, lg = (np.empty(x.shape[:-2], dtype=object) for _ in range(2))
        for k in np.ndindex(*x.shape[:-2]):
            d = det_(x[k])
            sg[k], lg[k] = core.sign_(d), core.log_(core.abs_(d))
        return [sg, lg]
    if name in ("inv", "_inv") and len(xs) == 1 and xs[0].ndim >= 2 and xs[0].shape[-1] == xs[0].shape[-2] \
            and len(eqn.outvars) == 1 and eqn.outvars[0].aval.shape == xs[0].shape and xs[0].shape[-1] <= 4 \
            and _has_prim(j, "lu"):
        return [_by_name("inv")(to_obj(xs[0]))]
    if name in ("expm", "_expm") and len(xs) == 1 and xs[0].ndim >= 2 and xs[0].shape[-1] == xs[0].shape[-2] <= 3 \
            and len(eqn.outvars) == 1 and eqn.outvars[0].aval.shape == xs[0].shape:
        x = to_obj(xs[0])
        out = np.empty_like(x)
        for k in np.ndindex(*x.shape[:-2]):
            out[k] = expm_(x[k])
        return [out]
    if name in ("solve",) and len(xs) == 2 and _has_prim(j, "lu") and xs[0].ndim == 2:
        a, b = to_obj(xs[0]), to_obj(xs[1])
        ai = inv_(a)
        bb = b.reshape(b.shape[0], -1)
        out = np.empty(bb.shape, dtype=object)
        for i in range(bb.shape[0]):
            for k in range(bb.shape[1]):
                out[i, k] = core.sum_([core.mul(ai[i, m], bb[m, k]) for m in range(a.shape[0])])
        return [out.reshape(b.shape)]
    if hasattr(j, "jaxpr"):
        return interp.run(j.jaxpr, j.consts, xs)
    return interp.run(j, [], xs)


def _has_prim(j, name):
    jp = j.jaxpr if hasattr(j, "jaxpr") else j
    for e in jp.eqns:
        if e.primitive.name == name:
            return True
        for v in e.params.values():
            if hasattr(v, "eqns") or hasattr(v, "jaxpr"):
                if _has_prim(v, name):
                    return True
    return False


@rule("cond")
def _cond(interp, eqn, xs):
    branches = eqn.params["branches"]
    idx, ops = xs[0], xs[1:]
    if is_native(idx):
        i = int(np.clip(int(idx), 0, len(branches) - 1))
        b = branches[i]
        return interp.run(b.jaxpr, b.consts, ops)
    i = idx[()]
    if isinstance(i, C):
        s = core.simp(i)
        if s is TRUE or s is FALSE:
            b = branches[1 if s is TRUE else 0]
            return interp.run(b.jaxpr, b.consts, ops)
        conds = [core.not_(s), s]
    else:
        n = len(branches)
        conds = [core.le(i, const(0))] + [core.eq(i, const(k)) for k in range(1, n - 1)] + [core.le(const(n - 1), i)]
    outs = [interp.run(b.jaxpr, b.consts, ops) for b in branches]
    res = []
    for k in range(len(outs[0])):
        o = to_obj(outs[-1][k])
        for c, br in reversed(list(zip(conds[:-1], outs[:-1]))):
            o = elementwise(lambda a, b: gite(c, a, b), br[k], o)
        res.append(try_native(o, eqn.outvars[k].aval.dtype))
    return res


MAX_WHILE = 64


def _fixpoint(interp, body, carry, n, j, consts):
    """an iterative solve, started from the solution the case states: one pass of the loop body (which must stay there), and the
    rate at which the remaining error shrinks per pass (derivative of the body at the solution) left in interp.rates"""
    fl = [i for i, x in enumerate(carry) if x.size and isinstance(to_obj(x).reshape(-1)[0], S) and not (x.dtype != object and x.dtype.kind in "iub")]
    sizes = [carry[i].size for i in fl]
    first, settled = None, False
    cands = [np.array(c, dtype=object).reshape(-1) for c in interp.fix]
    keep, interp.fix = interp.fix, None
    try:
        for c in cands:
            if len(c) != sum(sizes):
                continue
            st, o = list(carry), 0
            for i, k in zip(fl, sizes):
                st[i] = c[o:o + k].reshape(carry[i].shape)
                o += k
            try:
                out = body(st)
            except Unsupported:
                if c is cands[-1] and first is None:
                    raise
                continue
            rest = all(same(a, b) for i in fl for a, b in zip(to_obj(out[i]).reshape(-1), st[i].reshape(-1)))
            if first is None or rest:
                first = (out, st)
            if rest:
                settled = True
                break
        if first is None:
            return None
        out, st = first
        interp.fixed.append(n)
        interp.rest &= settled
        if n is not None and len(fl) == 1:
            interp.rates.append((n, _rate(interp, j, consts, st, fl[0])))
        return list(out)
    finally:
        interp.fix = keep


def _rate(interp, j, consts, st, i):
    """matrix of derivatives of the loop body with respect to the iterate"""
    jp = getattr(j, "jaxpr", j)
    nc = len(consts)
    cs = list(getattr(j, "consts", ()))

    def f(args):
        return lambda x: jax.core.eval_jaxpr(jp, cs, *(args[:nc + i] + [x] + args[nc + i + 1:]))[i]

    def g(v, *args):
        args = list(args)
        return jax.jvp(f(args), (args[nc + i],), (v,))[1]
    specs = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in jp.invars]
    sp = specs[nc + i]
    closed = jax.make_jaxpr(g)(sp, *specs)
    cols = []
    size = int(np.prod(sp.shape))
    for k in range(size):
        v = np.array([const(int(m == k)) for m in range(size)], dtype=object).reshape(sp.shape)
        (o,) = interp.run(dce(closed.jaxpr), closed.consts, [v] + list(consts) + st)
        cols.append(to_obj(o).reshape(-1))
    return np.array(cols, dtype=object).T


@rule("while")
def _while(interp, eqn, xs):
    p = eqn.params
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, state = xs[:nc], xs[nc:nc + nb], list(xs[nc + nb:])
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    if interp.fix is not None:
        r = _fixpoint(interp, lambda st: interp.run(bj.jaxpr, bj.consts, list(bc) + st), state, None, bj, bc)
        if r is not None:
            return r
    for it in range(MAX_WHILE):
        (c,) = interp.run(cj.jaxpr, cj.consts, list(cc) + state)
        c = bool(c) if is_native(c) else core.simp(c[()])
        if c is False or c is FALSE:
            return state
        if c is True or c is TRUE:
            state = interp.run(bj.jaxpr, bj.consts, list(bc) + state)
            continue
        # symbolic trip count: unroll under guard up to interp.while_bound
        if it >= interp.while_bound:
            interp.unwind_left.append(c)
            return state
        new = interp.run(bj.jaxpr, bj.consts, list(bc) + state)
        state = [elementwise(lambda a, b: gite(c, a, b), n, s) for n, s in zip(new, state)]
        state = [try_native(s, v.aval.dtype) for s, v in zip(state, eqn.outvars)]
    raise Unsupported("while loop bound")


def _fill(shape, f):
    o = np.empty(shape, dtype=object)
    for k in np.ndindex(*o.shape):
        o[k] = f(k)
    return o


@rule("scan")
def _scan(interp, eqn, xs):
    p = eqn.params
    if "ft_in" in p:
        parts = [len(list(x)) for x in p["ft_in"].update(list(xs)).unpack()]
        nc, ncar = parts[0], parts[1]
    else:
        nc, ncar = p["num_consts"], p["num_carry"]
    consts, carry, seqs = xs[:nc], list(xs[nc:nc + ncar]), xs[nc + ncar:]
    n, j = p["length"], p["jaxpr"]
    if interp.fix is not None and n and not seqs:
        r = _fixpoint(interp, lambda st: interp.run(getattr(j, "jaxpr", j), getattr(j, "consts", ()), list(consts) + st), carry, n, j, consts)
        if r is not None:
            return r
    if interp.havoc:
        # iterative solve abstracted to an arbitrary function of its inputs (sound: nothing else is assumed about it)
        interp.havocked += 1
        key = tuple((x.shape, tuple(e.id if isinstance(e, C) else core.poly_key(e.p) for e in x.reshape(-1))) if x.dtype == object
                    else (x.shape, x.tobytes()) for x in xs) + (str(p["jaxpr"]), n) + tuple(
            (np.asarray(c).shape, np.asarray(c).tobytes()) for c in getattr(p["jaxpr"], "consts", ()))
        if key in core.ctx.havocs:
            return list(core.ctx.havocs[key])
        fr = lambda aval, iv=None: _fill(aval.shape, lambda k: core.fresh("havoc", *(iv[k] if iv is not None else ())))
        ivs = {}
        if n and not seqs:                       # bounds every last iteration establishes, whatever it starts from
            try:
                out = interp.run(getattr(j, "jaxpr", j), getattr(j, "consts", ()), list(consts) + [fr(v.aval) for v in eqn.outvars[:ncar]])
                for i in range(ncar):
                    o = to_obj(out[i])
                    ivs[i] = {k: (o[k].lo, o[k].hi) for k in np.ndindex(*o.shape)}
            except Unsupported:
                pass
        res = [fr(v.aval, ivs.get(i)) for i, v in enumerate(eqn.outvars)]
        core.ctx.havocs[key] = res
        return list(res)
    if n > 4096:
        raise Unsupported("scan length %d" % n)
    order = range(n - 1, -1, -1) if p["reverse"] else range(n)
    ys = [None] * n
    for i in order:
        out = interp.run(getattr(j, "jaxpr", j), getattr(j, "consts", ()), list(consts) + carry + [s[i] if s.dtype != object or s.ndim > 1 else _sc(s[i]) for s in seqs])
        carry, ys[i] = out[:ncar], out[ncar:]
    res = list(carry)
    for k in range(len(eqn.outvars) - ncar):
        aval = eqn.outvars[ncar + k].aval
        if n == 0:
            res.append(np.empty(aval.shape, dtype=object))
            continue
        items = [y[k] for y in ys]
        if all(is_native(i) for i in items):
            res.append(np.stack(items))
        else:
            o = np.empty(aval.shape, dtype=object)
            for i in range(n):
                o[i] = to_obj(items[i]) if items[i].ndim else to_obj(items[i])[()]
            res.append(o)
    return res


def _sc(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o


@rule("iota")
def _iota(interp, eqn, xs):
    r = np.asarray(eqn.primitive.bind(*xs, **eqn.params))
    return [lift(r, eqn.outvars[0].aval.dtype)]


@rule("split")
def _split(interp, eqn, xs):
    sizes, axis = eqn.params["sizes"], eqn.params["axis"]
    return list(np.split(xs[0], np.cumsum(sizes)[:-1], axis=axis))


@rule("clz", "population_count")
def _nope(interp, eqn, xs):
    raise Unsupported(eqn.primitive.name)


@rule("debug_callback", "debug_print")
def _dbg(interp, eqn, xs):
    return []


class Interp:
    def __init__(self, while_bound=0, havoc=False, fix=None):
        self.while_bound = while_bound
        self.havoc, self.havocked = havoc, 0
        self.fix, self.fixed, self.rates, self.rest = fix, [], [], True
        self.unwind_left = []
        self.neqns = 0

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                x = np.asarray(v.val)
                if x.dtype == object:
                    return x
                return lift(x, v.aval.dtype)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = lift(np.asarray(c), v.aval.dtype) if not (isinstance(c, np.ndarray) and c.dtype == object) else c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        # demand-driven: an equation is evaluated when its result is needed; of a select only the branch its predicate picks
        producer = {}
        for k, eqn in enumerate(jaxpr.eqns):
            for v in eqn.outvars:
                if type(v).__name__ != "DropVar":
                    producer[v] = k
        done = set()

        def need(vs):
            todo, want = list(vs), set()
            while todo:
                v = todo.pop()
                if isinstance(v, jcore.Literal) or v in env:
                    continue
                k = producer[v]
                if k in want or k in done:
                    continue
                want.add(k)
                e = jaxpr.eqns[k]
                todo.extend(e.invars[:1] if e.primitive.name == "select_n" else e.invars)
            for k in sorted(want):
                if k not in done:
                    step(jaxpr.eqns[k])
                    done.add(k)

        def step(eqn):
            name = eqn.primitive.name
            prims_seen[name] = prims_seen.get(name, 0) + 1
            self.neqns += 1
            if name == "select_n":
                pred = read(eqn.invars[0])
                if is_native(pred) and pred.size and (pred == pred.reshape(-1)[0]).all():
                    c = eqn.invars[1 + int(pred.reshape(-1)[0])]
                    need([c])
                    env[eqn.outvars[0]] = read(c)
                    return
                need(eqn.invars[1:])
            xs = [read(v) for v in eqn.invars]
            higher = any(hasattr(p, "jaxpr") or hasattr(p, "eqns") for p in eqn.params.values()) or "branches" in eqn.params
            if (not higher) and all(is_native(x) for x in xs) and all(
                    not isfloat(v.aval.dtype) for v in eqn.outvars) and not name.startswith("debug"):
                outs = eqn.primitive.bind(*[jnp.asarray(x) for x in xs], **eqn.params)
                if not eqn.primitive.multiple_results:
                    outs = [outs]
                outs = [np.asarray(o) for o in outs]
            else:
                r = RULES.get(name)
                if r is None:
                    raise Unsupported("primitive " + name)
                outs = r(self, eqn, xs)
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ == "DropVar":
                    continue
                if not isinstance(o, np.ndarray):
                    o2 = np.empty((), dtype=object)
                    o2[()] = o
                    o = o2
                if o.shape != tuple(v.aval.shape):
                    raise AssertionError("shape %s vs %s in %s" % (o.shape, v.aval.shape, name))
                if o.dtype == object and not isfloat(v.aval.dtype):
                    o = try_native(o, v.aval.dtype)
                env[v] = o

        need(jaxpr.outvars)
        return [read(v) for v in jaxpr.outvars]


def sym_eval(fn, args, while_bound=0, havoc=False, fix=None):
    """Trace fn (a JAX function of arrays) and execute its jaxpr on symbolic `args`
    (pytree of numpy object arrays / concrete arrays).  Returns (outputs pytree, info)."""
    flat, tree = jax.tree_util.tree_flatten(args, is_leaf=lambda x: isinstance(x, np.ndarray))
    specs = []
    vals = []
    for x in flat:
        x = x if isinstance(x, np.ndarray) else np.asarray(x)
        if x.dtype == object:
            e = x.reshape(-1)[0] if x.size else None
            dt = jnp.bool_ if isinstance(e, C) else jnp.float32
            specs.append(jax.ShapeDtypeStruct(x.shape, dt))
            vals.append(x)
        elif x.dtype.kind == "f":
            specs.append(jax.ShapeDtypeStruct(x.shape, jnp.float32))
            vals.append(lift(x, jnp.float32))
        elif x.dtype.kind in "iu":
            specs.append(jax.ShapeDtypeStruct(x.shape, jnp.int32))
            vals.append(x.astype(np.int32))
        else:
            specs.append(jax.ShapeDtypeStruct(x.shape, jnp.bool_))
            vals.append(x)
    out_tree = [None]

    def flat_fn(*leaves):
        o = fn(jax.tree_util.tree_unflatten(tree, leaves))
        of, ot = jax.tree_util.tree_flatten(o)
        out_tree[0] = ot
        return [jnp.asarray(x) for x in of]

    closed = jax.make_jaxpr(flat_fn)(*specs)
    it = Interp(while_bound, havoc, fix)
    jaxpr = dce(closed.jaxpr)
    outs = it.run(jaxpr, closed.consts, vals)
    outs = [to_obj(o) for o in outs]
    res = jax.tree_util.tree_unflatten(out_tree[0], outs)
    return res, {"eqns": it.neqns, "jaxpr_eqns": count_eqns(closed.jaxpr), "unwind_left": it.unwind_left, "fixed": it.fixed, "rates": it.rates, "rest": it.rest}


def dce(jaxpr):
    """drop equations no output depends on (inputs and constants are kept)"""
    try:
        from jax._src.interpreters import partial_eval as pe
        return pe.dce_jaxpr(jaxpr, [True] * len(jaxpr.outvars), instantiate=True)[0]
    except Exception:
        return jaxpr


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for w in (v if isinstance(v, (tuple, list)) else (v,)):
                if hasattr(w, "jaxpr"):
                    n += count_eqns(w.jaxpr)
                elif hasattr(w, "eqns"):
                    n += count_eqns(w)
    return n
