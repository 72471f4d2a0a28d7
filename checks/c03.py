from .common import *
import importlib
from .c01 import KERNELS


def gridmod():
    return [importlib.import_module("hydraxmpm.grid.grid")]


def cases(tier, seed):
    out = []
    for pad in (0, 1, 2, 3):
        for k in ((1, 2, 3, 5, 7) if tier == "quick" else range(1, 21)):
            out.append(create_case(k, pad))
    for kern in KERNELS:
        for dim in (1, 2, 3):
            n = {1: (4,), 2: (4, 3), 3: (3, 2, 3)}[dim]
            half = 2 if kern == "quadratic" else 1
            cells = [list(range(-2 * half, (m + 1) * half)) for m in n]
            combos = list(itertools.product(*cells))
            if dim > 1:
                combos = pick(combos, n, half, dim, tier, seed)
            for c in combos:
                out.append(locate_case(kern, dim, n, c, half))
    for dim in (1, 2, 3):
        out.append(index_case(dim))
    return out


def pick(combos, n, half, dim, tier, seed):
    """quick: every class (outside low / first / inner / last / outside high) per axis, against each class of the others"""
    def cls(c, m):
        return 0 if c < 0 else (1 if c == 0 else (3 if c == m * half - half - 1 else (4 if c >= (m - 1) * half else 2)))
    import random
    rnd = random.Random(seed)
    by = {}
    for c in combos:
        by.setdefault(tuple(cls(x, m) for x, m in zip(c, n)), []).append(c)
    keys = sorted(by)
    if tier == "quick":
        if dim == 3:
            want = [(1, 1, 1), (0, 3, 1), (1, 4, 1), (3, 2, 0), (3, 1, 4), (2, 2, 2), (4, 0, 3), (1, 3, 3)]
        else:
            want = [(1, 1), (0, 1), (1, 0), (4, 1), (1, 4), (3, 3), (2, 4), (0, 3), (4, 4), (0, 4), (2, 1), (3, 2)]
        keys = [k for k in want if k in by]
    return [rnd.choice(by[k]) for k in keys]


def create_case(k, pad):
    """declared extent (k + r) cells"""
    def build(P):
        o, h, r = sl(P["o"]), P["h"], P["r"]
        e = sl([o[0] + h * (k + r), o[1] + h * k])
        return {"o": o, "e": e, "h": sl(h)}

    def fn(A):
        from jaxsym.pysym import X
        L = (lambda v: X(v)) if issymarr(sl(A["o"])) and not isinstance(sl(A["o"]).reshape(-1)[0], float) else float
        o = tuple(L(x) for x in A["o"])
        e = tuple(L(x) for x in A["e"])
        g = hdx.GridDomain.create(o, e, L(sl(A["h"])[()]), padding=pad)
        return dict(n=list(g.grid_size), o=list(g.origin), h=g.cell_size, ih=g._inv_cell_size)

    def post(P, A, O, obs):
        h = sl(A["h"])[()]
        e, o = A["e"], A["o"]
        for d in range(2):
            first, last = O["o"][d], O["o"][d] + (O["n"][d] - 1) * h
            obs.le("first-node-at-or-before-padded-origin", first, o[d] - h * pad, h * F(1, 1000))
            obs.ge("last-node-at-or-after-padded-end", last, e[d] + h * pad, h * F(1, 1000))
            obs.ge("origin-not-moved-away", first, o[d] - h * pad, h * F(1, 1000))
            obs.le("not-oversized", last, e[d] + h * pad, h * F(1001, 1000))
        obs.eq("cell-size", O["h"], h, h * F(1, 10 ** 6))
        obs.eq("inverse-cell-size", O["ih"] * h, 1, F(1, 10 ** 6))
    return Case("create-k%d-pad%d" % (k, pad), {"o": (2, -100, 100), "h": (None, F(1, 100), 10), "r": (None, 0, F(999, 1000))},
                build, fn, post, functions=["GridDomain.create"], typed=False, pymodules=gridmod, samples=4000,
                bounds="extent of (k+r) cells, r in [0,1), k listed, origin in [-100,100], cell size in [0.01,10], IEEE rounding error per operation",
                weight=0.5, atol=1e-6, rtol=1e-6)


def locate_case(kern, dim, n, cell, half):
    """particle anywhere (inside or outside) of a small grid: interactions name the right node, outside contributes nothing"""
    h = 0.5
    o0 = (-1.0, 0.5, 2.0)[:dim]

    def build(P):
        xi = sl(P["xi"])
        return {"pos": np.array([[sl(o0[d]) + xi[d] * F(1, 2) for d in range(dim)]], dtype=object)}

    def fn(A):
        dom = hdx.GridDomain.create(o0, tuple(o0[d] + h * (n[d] - 1) for d in range(dim)), h, padding=0)
        sm = hdx.ShapeFunctionMapping(kern, dim)
        c = sm.compute(A["pos"], dom.origin, dom.grid_size, dom._inv_cell_size)
        return dict(N=c.shape_vals, dN=c.shape_grads, rel=c.rel_dist, ids=c.node_hashes,
                    X=jnp.take(dom.position_stack, c.node_hashes, axis=0, mode="clip"),
                    one=jnp.zeros(dom.num_cells).at[c.node_hashes].add(c.shape_vals).sum())
    tot = 1
    for m in n:
        tot *= m
    inside = all(0 <= cell[d] < (n[d] - 1) * half for d in range(dim))
    reach = {"linear": (0, 0), "quadratic": (1, 1), "cubic": (1, 1)}[kern]
    full = all(cell[d] >= reach[0] * (2 if kern == "cubic" else 1) * (half if kern == "quadratic" else 1) * (1 if kern != "cubic" else F(1, 2))
               and cell[d] < (n[d] - 1 - (1 if kern == "cubic" else 0)) * half - (1 if kern == "quadratic" else 0) for d in range(dim))

    def post(P, A, O, obs):
        pos = A["pos"][0]
        for d in range(dim):
            obs.eq("weight-at-named-node", O["N"] * (O["X"][:, d] - (pos[d] - O["rel"][:, d] * F(1, 2))), 0, 1e-4)
            obs.eq("gradient-at-named-node", O["dN"][:, d] * (O["X"][:, d] - (pos[d] - O["rel"][:, d] * F(1, 2))), 0, 1e-4)
        obs.ge("weights-non-negative", O["N"], 0, 0)
        obs.le("weights-at-most-one", total(O["N"]), 1, 1e-4)
        obs.eq("grid-receives-all-weights", O["one"], total(O["N"]), 1e-4)
        if full:
            obs.eq("complete-stencil-inside", total(O["N"]), 1, 1e-4)
        # a weight is only dropped for nodes that do not exist
        for i in range(O["N"].shape[0]):
            # the node the offset points to, from the particle position
            where = [(pos[d] - O["rel"][i, d] * F(1, 2) - F(o0[d])) * 2 for d in range(dim)]
            ex = sp.and_(*[sp.and_(w > F(-1, 2), w < n[d] - F(1, 2)) for d, w in enumerate(where)])
            want = 1
            for d in range(dim):
                want = want * kernel1d(kern, O["rel"][i, d])
            obs.eq("weight-kept-for-existing-node", O["N"][i], want, 1e-4, when=ex)
            obs.eq("weight-dropped-for-missing-node", O["N"][i], 0, 0, when=sp.not_(ex))

    w = F(1, half)
    lo = [c * w for c in cell]
    hi = [(c + 1) * w for c in cell]

    def pre(P, A):
        return [sl(P["xi"])[d] < hi[d] for d in range(dim)]
    return Case("locate-%s-%dd-%s" % (kern, dim, "_".join(map(str, cell))), {"xi": (dim, lo, hi)}, build, fn, post, pre=pre,
                functions=["ShapeFunctionMapping.compute", "GridDomain.create", "GridDomain.position_stack"],
                bounds="one particle anywhere in the listed cell (two cells beyond either side included) of a small grid, fixed origin and cell size",
                weight=dim, typed=dim < 2)


def kernel1d(kern, r):
    a = sp.abs(r)
    if kern == "linear":
        return sp.max(0, 1 - a)
    if kern == "quadratic":
        return sp.ite(a <= F(1, 2), F(3, 4) - a * a, sp.ite(a <= F(3, 2), (F(3, 2) - a) * (F(3, 2) - a) * F(1, 2), 0))
    return sp.ite(a <= 1, F(2, 3) - a * a + a * a * a * F(1, 2), sp.ite(a <= 2, (2 - a) * (2 - a) * (2 - a) * F(1, 6), 0))


def index_case(dim):
    """node numbering is row-major and positions are origin + index*h"""
    n = {1: (5,), 2: (4, 3), 3: (3, 2, 4)}[dim]

    def build(P):
        return {"z": sl(P["z"])}

    def fn(A):
        dom = hdx.GridDomain.create((-1.0, 0.5, 2.0)[:dim], tuple(v + 0.25 * (m - 1) for v, m in zip((-1.0, 0.5, 2.0), n)), 0.25, padding=1)
        return dict(p=dom.position_stack + 0 * A["z"], mesh=dom.position_mesh.reshape(-1, dim) + 0 * A["z"], n=jnp.array(dom.num_cells), gs=jnp.array(dom.grid_size), d=jnp.array(dom.dim))

    def post(P, A, O, obs):
        N = [m + 2 for m in n]
        obs.shape("positions", O["p"], (int(np.prod(N)), dim))
        obs.eq("node-count", O["n"], int(np.prod(N)), 0)
        obs.eq("size", O["gs"], np.array(N, dtype=object), 0)
        obs.eq("dim", O["d"], dim, 0)
        for i, idx in enumerate(itertools.product(*[range(m) for m in N])):
            for d in range(dim):
                obs.eq("node-position", O["p"][i, d], F((-1.0, 0.5, 2.0)[d]) + F(1, 4) * (idx[d] - 1), 1e-5)
                obs.eq("mesh-position", O["mesh"][i, d], F((-1.0, 0.5, 2.0)[d]) + F(1, 4) * (idx[d] - 1), 1e-5)
    return Case("index-%dd" % dim, {"z": (None, 0, 1)}, build, fn, post, functions=["GridDomain.position_stack", "GridDomain.create"], bounds="one padded grid per dimension", weight=0.2)
