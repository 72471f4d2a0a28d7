from .common import *
from .c01 import KERNELS


def cases(tier, seed):
    out = []
    for kern in KERNELS:
        for dim in (1, 2, 3):
            for sub in itertools.product(range(KERNELS[kern][2]), repeat=dim):
                out.append(case(kern, dim, sub))
                if dim == 1:
                    out.append(case(kern, dim, sub, 0.5))
    return out


def case(kern, dim, sub, static_h=None):
    n, k, nsub = KERNELS[kern]
    w = F(1, nsub)
    first = {"linear": 0, "quadratic": None, "cubic": -1}[kern]
    win = {"linear": 2, "quadratic": 3, "cubic": 4}[kern]

    def build(P):
        o, h, xi = sl(P["o"]), P["h"], sl(P["xi"])
        if static_h:
            h = static_h
        pos = np.empty((1, dim), dtype=object)
        for d in range(dim):
            pos[0, d] = o[d] + h * (xi[d] + k)
        return {"pos": pos, "o": o, "ih": np.asarray(1 / h)}

    def fn(A):
        sm = hdx.ShapeFunctionMapping(kern, dim)
        ih = A["ih"] if static_h is None else 1.0 / static_h

        def f(pos):
            c = sm.compute(pos, A["o"], (n,) * dim, ih)
            return c.shape_vals, c
        out = []
        for d in range(dim):
            t = jnp.zeros_like(A["pos"]).at[:, d].set(1.0)
            _, dv, c = jax.jvp(f, (A["pos"],), (t,), has_aux=True)
            out.append(dv)
        return dict(N=c.shape_vals, dN=c.shape_grads, ids=c.node_hashes, rel=c.rel_dist, tang=jnp.stack(out, -1),
                    pid=c.point_ids)

    def post(P, A, O, obs):
        h = P["h"] if static_h is None else static_h
        xi = sl(P["xi"])
        # expected stencil (row-major, every node once), as a set over the returned ids
        exp = {}
        for off in itertools.product(range(win), repeat=dim):
            idx = []
            for d in range(dim):
                b = k + (first if first is not None else (-1 if sub[d] == 0 else 0))
                idx.append(b + off[d])
            hsh = 0
            for d in range(dim):
                hsh = hsh * n + idx[d]
            exp[hsh] = idx
        ids = [int(x) if not hasattr(x, "const") else x for x in O["ids"].reshape(-1)] if not issymarr(O["ids"]) else \
            [int(const_of(x)) for x in O["ids"].reshape(-1)]
        obs.true("every-stencil-node-once", sorted(ids) == sorted(exp))
        if sorted(ids) != sorted(exp):
            return
        X = np.array([exp[i] for i in ids], dtype=object)           # node index coordinates
        for d in range(dim):
            q = xi[d] + k
            obs.eq("relative-distance", O["rel"][:, d], np.array([q - x for x in X[:, d]], dtype=object), 1e-3)
            obs.eq("value-reproduced", dot(O["N"], X[:, d]), q, 1e-3)
            for e in range(dim):
                obs.eq("gradient-reproduced", dot(O["dN"][:, e], X[:, d]) * h, int(d == e), 2e-3)
            obs.eq("gradient-is-derivative", O["dN"][:, d] * h, O["tang"][:, d] * h, 1e-3)
        for d in range(dim, 3):
            obs.eq("padding", O["rel"][:, d], 0, 0)
    lo = [F(s) * w for s in sub]
    hi = [F(s + 1) * w for s in sub]

    def pre(P, A):
        xi = sl(P["xi"])
        c = [xi[d] < hi[d] for d in range(dim)]
        if kern == "linear":
            c += [xi[d] > F(0) for d in range(dim)]
        return c
    return Case("%s-%dd-%s%s" % (kern, dim, "".join(map(str, sub)), "" if static_h is None else "-h%s" % static_h),
                {"o": (dim, -5, 5), "h": (None, F(1, 10), 10), "xi": (dim, lo, hi)},
                build, fn, post, pre=pre, functions=["ShapeFunctionMapping.compute", kern + " kernel"],
                typed=static_h is not None,
                bounds="one particle, every in-cell position of an interior cell, origin in [-5,5]^d, cell size in [0.1,10]",
                weight=3 ** dim, fallback=None if static_h else (lambda: case(kern, dim, sub, 0.5)), nra_ms=4000)
