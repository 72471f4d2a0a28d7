import itertools
from fractions import Fraction
import numpy as np
from jaxsym.harness import Case, Obs, sp, dot, matmul, det, trace, outer, eye, total, boot, ShapeError
import jax
import jax.numpy as jnp
import hydraxmpm as hdx

F = Fraction


def arr(x, shape=None):
    a = np.asarray(x, dtype=object)
    return a if shape is None else a.reshape(shape)


def sl(x):
    """numpy (object) array of any value"""
    return np.asarray(x, dtype=object)


def issymarr(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def const_of(x):
    """value of a scalar that must be a constant in the current case (int/float or constant symbolic)"""
    from jaxsym import core
    if isinstance(x, core.S):
        v = x.const
        if v is None:
            raise core.Unsupported("index is not determined by the case")
        return v
    return x
