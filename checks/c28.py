"""generic scatter / gather of the shape-function mapping"""
from .steps import *
from .c06 import SYM, MG, pad3

TOL = F(1, 1000)
RANK = {"scalar": (), "vector": None, "tensor": (3, 3)}


def cases(tier, seed):
    out = []
    for kern in ("linear", "quadratic", "cubic"):
        for dim in (1, 2, 3):
            if tier != "thorough" and (kern, dim) in (("cubic", 3), ("quadratic", 3)):
                ranks = ("scalar",)
            else:
                ranks = ("scalar", "vector", "tensor")
            for r in ranks:
                for mode in ("same", "apart") if dim < 3 or tier == "thorough" else ("apart",):
                    out.append(transfer(kern, dim, r, mode))
    out += [transfer("linear", d, r, "same", light=True) for d in (1, 2) for r in ("scalar", "vector")]
    out += [edge(k, d) for k in ("linear", "quadratic", "cubic") for d in (1, 2)]
    out += [cutoff(d) for d in (1, 2)]
    return out


def shape(r, dim):
    return (dim,) if r == "vector" else RANK[r]


def setup(kern, dim, n):
    nn = SIZE[kern] + 1
    return hdx.ShapeFunctionMapping(kern, dim), domain(dim, nn), nn ** dim


def run(A, kern, dim, n, rank):
    m, dom, N = setup(kern, dim, n)
    c = m.compute(A["pos"], origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size)
    r = dict(val=c.shape_vals, hash=c.node_hashes, pid=c.point_ids)
    r["scat"] = m.scatter_to_grid(c, A["d"], A["mass"], N, normalize=False)
    r["avg"] = m.scatter_to_grid(c, A["d"], A["mass"], N)
    r["const"] = m.scatter_to_grid(c, jnp.broadcast_to(A["c"], A["d"].shape), A["mass"], N)
    r["gath"] = m.gather_from_grid(c, A["g"])
    r["gconst"] = m.gather_from_grid(c, jnp.broadcast_to(A["c"], A["g"].shape))
    return r


def weights(O, n, N):
    """W[p][i] total weight of particle p at node i (the connectivity is decided by the case)"""
    W = [[F(0)] * N for _ in range(n)]
    v = sl(O["val"])
    k = len(v) // n
    for q in range(len(v)):
        i = int(float(const_of(sl(O["hash"])[q])))
        W[q // k][i] = W[q // k][i] + v[q]
    return W


def identities(A, O, obs, n, N, dim, rank, inside=True):
    W = weights(O, n, N)
    m, d, g, c = A["mass"], A["d"], A["g"], A["c"]
    sh = shape(rank, dim)
    obs.shape("scatter", O["scat"], (N,) + sh)
    obs.shape("average", O["avg"], (N,) + sh)
    obs.shape("gather", O["gath"], (n,) + sh)
    k = int(np.prod(sh)) if sh else 1
    S, Av, G, D, g2, cf = (sl(x).reshape(-1, k) for x in (O["scat"], O["avg"], O["gath"], d, g, np.broadcast_to(np.asarray(c, dtype=object), sh)))
    Cn, Gc = sl(O["const"]).reshape(-1, k), sl(O["gconst"]).reshape(-1, k)
    for i in range(N):
        w = F(0)
        for p in range(n):
            w = W[p][i] * m[p] + w
        for q in range(k):
            t = F(0)
            for p in range(n):
                t = W[p][i] * m[p] * D[p, q] + t
            obs.eq("scatter", S[i, q], t, TOL)
            heavy = w > F(1, 1000)
            obs.eq("average", Av[i, q] * w, t, TOL)
            obs.eq("constant-reproduced", Cn[i, q], cf[0, q], 10 * TOL, when=heavy)
            if n == 2:
                obs.ge("average-not-below", Av[i, q], sp.min(D[0, q], D[1, q]), TOL, when=heavy)
                obs.le("average-not-above", Av[i, q], sp.max(D[0, q], D[1, q]), TOL, when=heavy)
    for q in range(k):
        tot, adj, want = F(0), F(0), F(0)
        for i in range(N):
            tot = tot + S[i, q]
            adj = adj + S[i, q] * g2[i, q]
        for p in range(n):
            want = want + m[p] * D[p, q]
        if inside:
            obs.eq("total-conserved", tot, want, TOL)
        t = F(0)
        for p in range(n):
            t = t + m[p] * D[p, q] * G[p, q]
            u = F(0)
            for i in range(N):
                u = u + W[p][i] * g2[i, q]
            obs.eq("gather", G[p, q], u, TOL)
            if inside:
                obs.eq("constant-gathered", Gc[p, q], cf[0, q], 10 * TOL)
        obs.eq("adjoint", adj, t, TOL)


def par(n, N, sh, sym, kern):
    return {"xi": cparam(sym, 2 if kern == "quadratic" else 1, MG[kern]), "mass": (n, F(1, 10), 5), "d": ((n,) + sh if sh else n, -5, 5), "g": ((N,) + sh if sh else N, -5, 5), "c": (sh or None, -5, 5)}


def transfer(kern, dim, rank, mode, light=False):
    n = 2
    sym = SYM[(kern, dim)]
    sh = shape(rank, dim)
    N = (SIZE[kern] + 1) ** dim
    cell = [[1] * dim, [1 if mode == "same" else 2 if kern != "cubic" else 2] + [1] * (dim - 1)]

    def build(P):
        return {"pos": where(coords(P, n, dim, sym, 2 if kern == "quadratic" else 1), cell), "mass": sl(P["mass"]), "d": sl(P["d"]), "g": sl(P["g"]), "c": sl(P["c"])}
    ps = par(n, N, sh, sym, kern)
    if light:           # masses in other units
        ps["mass"] = (n, F(1, 2000), F(1, 100))
        ps["xi"] = cparam(sym, 1, F(1, 16))
    return Case("transfer-%s-%dd-%s-%s%s" % (kern, dim, rank, mode, "-light" if light else ""), ps, build, lambda A: run(A, kern, dim, n, rank),
                lambda P, A, O, obs: identities(A, O, obs, n, N, dim, rank), pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1), functions=["ShapeFunctionMapping.scatter_to_grid", "ShapeFunctionMapping.gather_from_grid"],
                typed=False, weight=2 ** dim, eps0=True, bounds="two particles in %s, any data, masses and nodal values" % ("one cell" if mode == "same" else "neighbouring cells"))


def edge(kern, dim):
    """a particle whose stencil reaches outside the grid: still exact adjoints and averages"""
    sh = (dim,)
    N = (SIZE[kern] + 1) ** dim
    last = SIZE[kern] - 1
    if kern != "cubic":
        last = SIZE[kern]

    def build(P):
        xi = np.array([[sl(P["xi"])[0]] + [F(3, 10)] * (dim - 1), [F(1, 5)] * dim], dtype=object)
        return {"pos": where(xi, [[last] + [1] * (dim - 1), [1] * dim]), "mass": sl(P["mass"]), "d": sl(P["d"]), "g": sl(P["g"]), "c": sl(P["c"])}
    ps = par(2, N, sh, [(0, 0)], kern)
    return Case("edge-%s-%dd" % (kern, dim), ps, build, lambda A: run(A, kern, dim, 2, "vector"), lambda P, A, O, obs: identities(A, O, obs, 2, N, dim, "vector", inside=False),
                pre=lambda P, A: open_cell(P, 2 if kern == "quadratic" else 1), functions=["ShapeFunctionMapping.scatter_to_grid", "ShapeFunctionMapping.gather_from_grid"], typed=False, eps0=True,
                bounds="one particle in the last cell of the grid, one inside")


def cutoff(dim):
    """nodes lighter than the cutoff hold zero, all others the average"""
    kern, n = "linear", 2
    N = (SIZE[kern] + 1) ** dim

    def build(P):
        return {"pos": where(coords(P, n, dim, [(0, 0)]), [[1] * dim, [1] * dim]), "mass": sl(P["mass"]), "d": sl(P["d"]), "cut": sl(P["cut"])}

    def fn(A):
        m, dom, _ = setup(kern, dim, n)
        c = m.compute(A["pos"], origin=dom.origin, grid_size=dom.grid_size, inv_cell_size=dom._inv_cell_size)
        return dict(val=c.shape_vals, hash=c.node_hashes, avg=m.scatter_to_grid(c, A["d"], A["mass"], N, small_mass_cutoff=A["cut"]))

    def post(P, A, O, obs):
        W = weights(O, n, N)
        for i in range(N):
            w = W[0][i] * A["mass"][0] + W[1][i] * A["mass"][1]
            t = W[0][i] * A["mass"][0] * A["d"][0] + W[1][i] * A["mass"][1] * A["d"][1]
            obs.eq("light-node-empty", O["avg"][i], 0, 0, when=w < A["cut"][()] - F(1, 1000))
            obs.eq("heavy-node-average", O["avg"][i] * w, t, TOL, when=w > A["cut"][()] + F(1, 1000))
    return Case("cutoff-%dd" % dim, {"xi": cparam([(0, 0)]), "mass": (n, F(1, 100), 2), "d": (n, -5, 5), "cut": (None, F(1, 100), 1)}, build, fn, post, pre=lambda P, A: open_cell(P),
                functions=["ShapeFunctionMapping.scatter_to_grid"], typed=False, bounds="any cutoff between 0.01 and 1")
