"""sphere helpers shared by the celestial checks"""
from jax.tree_util import register_pytree_node_class

from vlib.common import *

PROJ = ["gnomonic", "stereographic", "lambert", "postel"]
RA = (-4, 4)
DEC = (-1.5, 1.5)


def vec(ra, dec):
    return jnp.stack([jnp.cos(dec) * jnp.cos(ra), jnp.cos(dec) * jnp.sin(ra), jnp.sin(dec)])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return jnp.stack([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def frame(ra, dec):
    """tangent-plane axes at (ra, dec): +u towards decreasing right ascension, +v to the north"""
    eu = jnp.stack([jnp.sin(ra), -jnp.cos(ra), 0.0 * ra])
    ev = jnp.stack([-jnp.sin(dec) * jnp.cos(ra), -jnp.sin(dec) * jnp.sin(ra), jnp.cos(dec)])
    return eu, ev


def coo(ra, dec):
    return jg.CelestialCoord(ra * jg.radians, dec * jg.radians)


def ang(*names):
    return [F(n, *(RA if n.startswith("r") else DEC)) for n in names]


def cosc(r, d, r2, d2):
    return dot(vec(r, d), vec(r2, d2))


@register_pytree_node_class
class Aux(jg.CelestialCoord):
    """a coordinate given by its auxiliary numbers (cos ra, sin ra, cos dec, sin dec)"""

    def __init__(self, *q):
        self.q = q

    @property
    def _ra(self):
        return jnp.arctan2(self.q[1], self.q[0]) * jg.radians

    def _get_aux(self):
        cr, sr, cd, sd = self.q
        return cr, sr, cd, sd, cd * cr, cd * sr, sd

    def tree_flatten(self):
        return self.q, None

    @classmethod
    def tree_unflatten(cls, aux, ch):
        return cls(*ch)


def auxs(n):
    return [F("%s%d" % (q, i), -1, 1) for i in range(n) for q in ("cr", "sr", "cd", "sd")]


def vecs(k, n):
    return [Aux(*[k["%s%d" % (q, i)] for q in ("cr", "sr", "cd", "sd")]) for i in range(n)]


def pts(k, n):
    return [jnp.stack([k["cd%d" % i] * k["cr%d" % i], k["cd%d" % i] * k["sr%d" % i], k["sd%d" % i]]) for i in range(n)]


def dsq(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2


def frame_aux(k, i):
    cr, sr, cd, sd = [k["%s%d" % (q, i)] for q in ("cr", "sr", "cd", "sd")]
    return jnp.stack([sr, -cr, 0.0 * sr]), jnp.stack([-sd * cr, -sd * sr, cd])


V = [dict(zip(("cr", "sr", "cd", "sd"), q)) for q in ((0.6, 0.8, 0.8, -0.6), (-0.28, 0.96, 0.96, 0.28))]


def law(pj, u, v):
    """(cos c, sin c / r) of a deprojection"""
    R2 = u * u + v * v
    if pj in ("gnomonic", None):
        n = jnp.sqrt(1 + R2)
        return 1 / n, 1 / n
    if pj == "stereographic":
        return (4 - R2) / (4 + R2), 4 / (4 + R2)
    if pj == "lambert":
        return 1 - R2 / 2, jnp.sqrt(4 - R2) / 2
    R = jnp.sqrt(R2)
    return jnp.cos(R), jnp.sin(R) / R


def point(pj, s0, c0, u, v):
    """the deprojected point seen in the meridian frame of the centre"""
    cc, ss = law(pj, u, v)
    return jnp.stack([cc * c0 - ss * v * s0, -ss * u, cc * s0 + ss * v * c0])
