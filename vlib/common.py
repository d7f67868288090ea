"""helpers shared by the harness files"""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import jax_galsim as jg

from . import term as t
from .prove import PF, Bo, Cx, F, I, Inp, Key, Ob, PI_, Res

PI = np.pi


def sym3(*names, lo=-0.9, hi=0.9):
    return [F(n, lo, hi) for n in names]
