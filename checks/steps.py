"""building simulation states from symbolic arrays and running real solver steps"""
from .common import *
from hydraxmpm.solvers.coupling import BodyCoupling
from hydraxmpm.common.simstate import WorldState, MechanicsState, SimState
from hydraxmpm.material_points.material_points import RigidMaterialPointState

H = 0.5                                    # cell size of the small grids used here
O0 = (-0.5, 0.25, 1.0)                     # their origin
SIZE = {"linear": 3, "quadratic": 4, "cubic": 4}       # nodes per axis (the particle cell(s) see their whole stencil)
BASE = {"linear": 1, "quadratic": 1, "cubic": 1}       # cell the reference particle sits in


class Inert(hdx.ConstitutiveLaw):
    """stand-in material: leaves the stress alone (the property is about the transfer, not the material)"""
    def update(self, mp, ls, dt):
        return mp, ls


def domain(dim, n, h=H):
    n = (n,) * dim if isinstance(n, int) else n
    return hdx.GridDomain.create(O0[:dim], tuple(O0[d] + h * (n[d] - 1) for d in range(dim)), h, padding=0)


def where(xi, cell, h=H):
    """(np, dim) in-cell coordinates -> positions (exact)"""
    xi = sl(xi)
    out = np.empty(xi.shape, dtype=object)
    for k in np.ndindex(*xi.shape):
        c = cell[k[0]][k[1]] if isinstance(cell, (list, tuple)) and isinstance(cell[0], (list, tuple)) else cell[k[1]] if isinstance(cell, (list, tuple)) else cell
        out[k] = F(O0[k[1]]) + (xi[k] + c) * F(h)
    return out


def mp_state(A, pre="", **kw):
    """MaterialPointState from arrays pos, vel, mass, vol, vol0, F, L, stress, force.  Where a check does not set them, the points are
    stretched to twice their initial volume (consistently: volume = det F * initial volume), so that neither can stand in for the other."""
    g = lambda k, d=None: A[pre + k] if pre + k in A else (kw[k] if k in kw else d)
    pos = g("pos")
    n, dim = pos.shape
    one = jnp.ones((n,))
    eye3 = jnp.tile(jnp.array([[2.0, 0.25, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]), (n, 1, 1))
    vol = g("vol", one)
    return hdx.MaterialPointState(
        position_stack=pos, velocity_stack=g("vel", jnp.zeros((n, dim))), mass_stack=g("mass", one),
        force_stack=g("force", jnp.zeros((n, dim))), volume_stack=vol, volume0_stack=g("vol0", 0.5 * vol),
        L_stack=g("L", jnp.zeros((n, 3, 3))), stress_stack=g("stress", jnp.zeros((n, 3, 3))),
        F_stack=g("F", eye3), F_store_stack=g("Fs", None))


SCHEMES = {"usl": hdx.USLSolver, "aflip": hdx.USLAFLIP}


def solver(scheme, dim, kern, doms, laws, forces=(), couplings=None, sdfs=(), **kw):
    if couplings is None:
        couplings = (BodyCoupling(shape_map=hdx.ShapeFunctionMapping(kern, dim), p_idx=0, g_idx=0, c_idx=0, s_idx=0),)
    return SCHEMES[scheme](grid_domains=tuple(doms), constitutive_laws=tuple(laws), couplings=couplings, forces=tuple(forces),
                           sdf_logics=tuple(sdfs), **kw)


def sim_state(mps, law_states=(None,), solver_states=(), force_states=(), sdf_states=(), dt=1e-3, time=0.0, step=0):
    return SimState(world=WorldState(material_points=tuple(mps), sdfs=tuple(sdf_states)),
                    mechanics=MechanicsState(constitutive_laws=tuple(law_states), solvers=tuple(solver_states), forces=tuple(force_states)),
                    time=time, step=step, dt=dt)


def one_body(A, scheme, dim, kern, law=None, law_state=None, forces=(), force_states=(), Bp=None, n=None, dt=None, sdfs=(), sdf_states=(),
             time=0.0, step=0, **kw):
    mp = mp_state(A)
    s = solver(scheme, dim, kern, [domain(dim, n or SIZE[kern])], [law if law is not None else Inert()], forces, sdfs=sdfs, **kw)
    ss = s.create_state(mp)
    if scheme == "aflip" and Bp is not None:
        ss = hdx.USLAFLIPState(Bp_stack=Bp)
    st = sim_state([mp], [law_state], [ss], force_states, sdf_states, dt if dt is not None else A.get("dt", 1e-2), time, step)
    return s, st


def out_mp(mp):
    return dict(pos=mp.position_stack, vel=mp.velocity_stack, mass=mp.mass_stack, vol=mp.volume_stack, vol0=mp.volume0_stack,
                F=mp.F_stack, L=mp.L_stack, stress=mp.stress_stack, force=mp.force_stack)


def hooks():
    """a Force that records nothing but lets a check read the grid: returned as (force, box)"""
    box = {}

    class Probe(hdx.Force):
        def apply_grid_forces(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
            box["before"] = list(sim_cache.grids)
            return world, mechanics, sim_cache

        def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
            box["after"] = list(sim_cache.grids)
            return world, mechanics, sim_cache
    return Probe(), box


def sym3(P, name, i=None):
    """symmetric 3x3 from 6 parameters [xx, yy, zz, xy, yz, xz]"""
    s = sl(P[name])
    s = s if i is None else s[i]
    return np.array([[s[0], s[3], s[5]], [s[3], s[1], s[4]], [s[5], s[4], s[2]]], dtype=object)


def plane(M):
    """2D gradient (4) -> 3x3"""
    z = F(0)
    return np.array([[M[0], M[1], z], [M[2], M[3], z], [z, z, z]], dtype=object)


TOL = 1e-3


# fixed in-cell coordinates used where a coordinate is not symbolic (generic, away from symmetric points)
FIX = [F(3, 10), F(7, 10), F(2, 5), F(4, 5), F(3, 20), F(11, 20), F(1, 4), F(13, 20), F(17, 20)]


def coords(P, n, dim, sym, sub=1, name="xi", rot=0):
    """(n, dim) in-cell coordinates; entries listed in sym are the parameters `name`, the others fixed rationals"""
    out = np.empty((n, dim), dtype=object)
    sym = list(sym)
    for k, (i, d) in enumerate(np.ndindex(n, dim)):
        if (i, d) in sym:
            out[i, d] = sl(P[name])[sym.index((i, d))]
        else:
            out[i, d] = FIX[(k + rot) % len(FIX)] / sub
    return out


def cparam(sym, sub=1, margin=0):
    return (len(list(sym)), F(margin), F(1, sub) - F(margin))


def open_cell(P, sub=1, names=("xi",)):
    """strictly inside the cell (faces are covered by the kernel properties)"""
    r = []
    for nm in names:
        for x in sl(P[nm]).reshape(-1):
            r += [x < F(1, sub), x > 0]
    return r
