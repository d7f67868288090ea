"""A profile with free (symbolic) values, used to observe what compound objects do to positions and amplitudes.

Probe(c) has surface brightness c0 + c1 x + c2 y + c3 x y and Fourier transform flux + k0 kx + i k1 ky + k2 kx ky: polynomial,
so that whatever the library does to arguments and results stays inside exact rational arithmetic.
"""
import jax.numpy as jnp
from jax.tree_util import register_pytree_node_class

import jax_galsim as jg
from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue


@register_pytree_node_class
class Probe(jg.GSObject):
    _has_hard_edges = False
    _is_axisymmetric = False
    _is_analytic_x = True
    _is_analytic_k = True
    _maxk = 3.0
    _stepk = 0.25

    def __init__(self, c, k, flux=1.0, cen=(0.0, 0.0), gsparams=None):
        super().__init__(c=c, k=k, flux=flux, cen=cen, gsparams=gsparams)

    @property
    def _centroid(self):
        return jg.PositionD(self.params["cen"][0], self.params["cen"][1])

    @property
    def _max_sb(self):
        return self.params["c"][0] + 7.0 * self.flux

    @property
    def _positive_flux(self):
        return jnp.maximum(self.flux, 0.0)

    @property
    def _negative_flux(self):
        return jnp.maximum(-self.flux, 0.0)

    def _xValue(self, pos):
        c = self.params["c"]
        return c[0] + c[1] * pos.x + c[2] * pos.y + c[3] * pos.x * pos.y

    def _kValue(self, kpos):
        k = self.params["k"]
        return self.flux + k[0] * kpos.x + 1j * k[1] * kpos.y + k[2] * kpos.x * kpos.y

    def _drawReal(self, image, jac=None, offset=(0.0, 0.0), flux_scaling=1.0):
        _jac = jnp.eye(2) if jac is None else jac
        return draw_by_xValue(self, image, _jac, jnp.asarray(offset), flux_scaling)

    def _drawKImage(self, image, jac=None):
        _jac = jnp.eye(2) if jac is None else jac
        return draw_by_kValue(self, image, _jac)

    def withFlux(self, flux):
        return Probe(self.params["c"], self.params["k"], flux, self.params["cen"], gsparams=self.gsparams)

    def _shoot(self, photons, rng):
        ud = jg.UniformDeviate(rng)
        photons.x = ud.generate(photons.x)
        photons.y = ud.generate(photons.y)
        photons.flux = self.flux / photons.size()

    @classmethod
    def tree_unflatten(cls, aux_data, children):
        p = children[0]
        return cls(p["c"], p["k"], flux=p["flux"], cen=p["cen"], **aux_data)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other


def poly(c, x, y):
    return c[0] + c[1] * x + c[2] * y + c[3] * x * y


def kpoly(k, fl, x, y):
    return fl + k[0] * x + 1j * k[1] * y + k[2] * x * y
