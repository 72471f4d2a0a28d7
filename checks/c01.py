from .common import *

KERNELS = {"linear": (3, 1, 1), "quadratic": (5, 2, 2), "cubic": (5, 1, 1)}   # grid nodes/dim, base cell, sub-cells


def cases(tier, seed):
    out = []
    for kern in KERNELS:
        for dim in (1, 2, 3):
            for sub in itertools.product(range(KERNELS[kern][2]), repeat=dim):
                out.append(case(kern, dim, sub))
                if dim == 1:
                    out.append(case(kern, dim, sub, 0.5))
    return out


def case(kern, dim, sub, static_h=None):
    n, k, nsub = KERNELS[kern]
    w = F(1, nsub)

    def build(P):
        o, h, xi = sl(P["o"]), P["h"], sl(P["xi"])
        if static_h:
            h = static_h
        pos = np.empty((1, dim), dtype=object)
        for d in range(dim):
            pos[0, d] = o[d] + h * (xi[d] + k)
        return {"pos": pos, "o": o, "ih": np.asarray(1 / h)}

    def fn(A):
        sm = hdx.ShapeFunctionMapping(kern, dim)
        c = sm.compute(A["pos"], A["o"], (n,) * dim, A["ih"] if static_h is None else 1.0 / static_h)
        return dict(N=c.shape_vals, dN=c.shape_grads, ids=c.node_hashes)

    def post(P, A, O, obs):
        obs.eq("partition-of-unity", total(O["N"]), 1, 1e-3)
        obs.ge("non-negative", O["N"], 0, 0)
        h = P["h"] if static_h is None else static_h
        for d in range(dim):
            obs.eq("gradient-nullity", total(O["dN"][:, d]) * h, 0, 1e-3)
        for d in range(dim, 3):
            obs.eq("gradient-padding", O["dN"][:, d], 0, 1e-3)
    lo = [F(s) * w for s in sub]
    hi = [F(s + 1) * w for s in sub]

    def pre(P, A):
        return [sl(P["xi"])[d] < hi[d] for d in range(dim)]
    return Case("%s-%dd-%s%s" % (kern, dim, "".join(map(str, sub)), "" if static_h is None else "-h%s" % static_h),
                {"o": (dim, -5, 5), "h": (None, F(1, 10), 10), "xi": (dim, lo, hi)},
                build, fn, post, pre=pre, functions=["ShapeFunctionMapping.compute", kern + " kernel"], typed=static_h is not None,
                bounds="one particle, every in-cell position of an interior cell, origin in [-5,5]^d, cell size in [0.1,10]",
                weight=dim, fallback=None if static_h else (lambda: case(kern, dim, sub, 0.5)), nra_ms=4000)
