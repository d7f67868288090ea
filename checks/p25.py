from unittest import mock

from jax_galsim import exponential as expm
from jax_galsim import interpolant as itm
from jax_galsim import photon_array as pam
from jax_galsim import spergel as spm
from vlib.common import *

FUNCTIONS = ["_shoot of Gaussian, Exponential, Moffat, Spergel, Box, Pixel, DeltaFunction, Sum, Convolution, Transformation, InterpolatedImage and the interpolants",
             "exponential._shoot_cdf, Spergel._shoot_pos_cdf/_shoot_neg_cdf/_shoot_pos/_shoot_neg, Interpolant._shoot_cdf, GSObject.shoot/applyTo, PhotonArray._assign_from_categorical_index/convolve/scaleFlux"]
ASSUMPTIONS = [
    "2 or 3 photons; uniform and normal deviates are uninterpreted functions of the generator key (uniform in [0,1))",
    "profiles that invert a tabulated cumulative flux: the table is checked entry by entry with free abscissae (the 10000-point grid replaced by a free increasing grid of 3 or 4 points), and the inversion with a free table of 4 points",
    "Moffat with beta in {1.5, 2, 2.5, 3, 4} (truncated ones are not supported by the library); Spergel with free index, its two Bessel products replaced by quadratics with free coefficients, the radius solver replaced by a free positive radius",
    "sums and convolutions of 2 or 3 stand-in components shooting free positions with fluxes of either sign; interpolated images 2x2 to 2x3, free pixel values",
]


def arr(v):
    return jnp.asarray(v, dtype=float)


def fresh(key):
    return jg.BaseDeviate(key)


def uni(rng, n):
    return jg.UniformDeviate(rng).generate(jnp.zeros(n))


def keyeq(a, b):
    return jnp.all(jax.random.key_data(a._key) == jax.random.key_data(b._key))


@jax.tree_util.register_pytree_node_class
class Src(jg.GSObject):
    """stand-in profile: equal photons, positions a function of the deviates only"""

    _maxk = 10.0
    _stepk = 0.5
    _has_hard_edges = False
    _is_axisymmetric = False
    _is_analytic_x = True
    _is_analytic_k = True

    def __init__(self, flux=1.0, d=0.0, neg=0.0, gsparams=None):
        super().__init__(flux=flux, d=d, neg=neg, gsparams=gsparams)

    @property
    def _positive_flux(self):
        return jnp.maximum(self.flux, 0.0) + self._params["neg"]

    @property
    def _negative_flux(self):
        return jnp.maximum(-self.flux, 0.0) + self._params["neg"]

    @property
    def _centroid(self):
        return jg.PositionD(0.0, 0.0)

    def _shoot(self, photons, rng):
        u = jg.UniformDeviate(rng).generate(photons.x)
        photons.x = u + self._params["d"]
        photons.y = 1.0 - 2.0 * u
        photons.flux = self.flux / photons.size()


class NP:
    """numpy stand-in working on traced arrays, its grid replaced by the given abscissae"""

    def __init__(self, grid):
        self.grid = grid
        self.seen = []

    def linspace(self, a, b, n=None, **k):
        self.seen.append((a, b, n))
        return a + (b - a) * self.grid

    def __getattr__(self, k):
        return getattr(jnp, k)


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    KEY = [Key("key"), F("fl", -5, 5)]

    def common(o, n, kw, ref):
        """shoot n photons; each carries an equal share of the flux"""
        rng = fresh(kw["key"])
        p = o.shoot(n, rng)
        out = {"f": (p.flux * n, jnp.full(n, 1.0) * o.flux), "tot": (p.getTotalFlux(), o.flux), "n": jnp.asarray(p.size() == n)}
        out["other"] = ~(p.hasAllocatedAngles() | p.hasAllocatedWavelengths() | p.hasAllocatedPupil() | p.hasAllocatedTimes())
        return p, out, rng

    # ---- simple laws
    def gauss(n, **kw):
        ref = fresh(kw["key"])
        p, out, rng = common(jg.Gaussian(sigma=kw["s"], flux=kw["fl"]), n, kw, ref)
        g = jg.GaussianDeviate(ref)
        out["x"] = (p.x, kw["s"] * g.generate(jnp.zeros(n)))
        out["y"] = (p.y, kw["s"] * g.generate(jnp.zeros(n)))
        out["rng"] = keyeq(rng, ref)
        return out

    ob("gaussian", functools.partial(gauss, 3), KEY + [F("s", 0.1, 5)], validate=1)

    def box(n, px, **kw):
        ref = fresh(kw["key"])
        o = jg.Pixel(kw["s"], flux=kw["fl"]) if px else jg.Box(kw["s"], kw["h"], flux=kw["fl"])
        p, out, rng = common(o, n, kw, ref)
        out["x"] = (p.x, kw["s"] * (uni(ref, n) - 0.5))
        out["y"] = (p.y, (kw["s"] if px else kw["h"]) * (uni(ref, n) - 0.5))
        out["rng"] = keyeq(rng, ref)
        out["in"] = jnp.all(jnp.abs(p.x) <= kw["s"] / 2) & jnp.all(jnp.abs(p.y) <= (kw["s"] if px else kw["h"]) / 2)
        return out

    ob("box", functools.partial(box, 3, False), KEY + [F("s", 0.1, 5), F("h", 0.1, 5)], validate=1)
    ob("pixel", functools.partial(box, 2, True), KEY + [F("s", 0.1, 5)])

    def delta(n, **kw):
        p, out, rng = common(jg.DeltaFunction(flux=kw["fl"]), n, kw, None)
        out["x"] = (jnp.abs(p.x) + jnp.abs(p.y), jnp.zeros(n))
        return out

    ob("delta", functools.partial(delta, 3), KEY)

    # ---- radial laws: uniform angle, radius inverting the cumulative flux
    def radial(p, rng, n, out, r, ang):
        """positions are (r cos, r sin) of a uniform angle"""
        th = 2 * jnp.pi * ang
        out["px"] = (p.x, r * jnp.cos(th))
        out["py"] = (p.y, r * jnp.sin(th))

    def table(kw):
        c = jnp.concatenate([jnp.zeros(1), jnp.cumsum(kw["dc"])])
        x = jnp.concatenate([jnp.zeros(1), jnp.cumsum(kw["dx"])])
        return x / x[-1] * kw["top"], c / c[-1]

    def inv(x, c, u, i):
        """the table's piecewise linear inverse in its i-th cell"""
        return x[i] + (x[i + 1] - x[i]) * (u - c[i]) / (c[i + 1] - c[i])

    TI = [F("dc", 0.1, 1, shape=(3,)), F("dx", 0.1, 1, shape=(3,)), F("top", 0.5, 0.99999)]

    def expo(cell, **kw):
        x, c = table(kw)
        ref = fresh(kw["key"])
        with mock.patch.object(expm, "_shoot_cdf", lambda acc: (x, c)):
            p, out, rng = common(jg.Exponential(scale_radius=kw["s"], flux=kw["fl"]), 1, kw, ref)
        u = uni(ref, 1)
        r = -jnp.log(1 - inv(x, c, u, cell)) * kw["s"]
        radial(p, rng, 1, out, r, uni(ref, 1))
        out["rng"] = keyeq(rng, ref)
        return out

    def incell(cell, **kw):
        x, c = table(kw)
        u = uni(fresh(kw["key"]), 1)[0]
        return (u >= c[cell] + 1e-6) & (u <= c[cell + 1] - 1e-6)

    for cell in range(3):
        ob("exponential-%d" % cell, functools.partial(expo, cell), KEY + TI + [F("s", 0.1, 5)], assume=functools.partial(incell, cell))

    def expcdf(acc, **kw):
        """the table is the cumulative flux 1 - (1 + r) exp(-r) at r = -log(1 - u), cut at r = -log(accuracy)"""
        npx = NP(jnp.concatenate([jnp.zeros(1), kw["g"], jnp.ones(1)]))
        with mock.patch.object(expm, "np", npx):
            f = getattr(expm._shoot_cdf, "__wrapped__", expm._shoot_cdf)
            u, c = f(acc)
        umax = 1 - acc
        out = {"grid": (u, umax * npx.grid), "top": (c[-1], 1.0), "zero": (c[0], 0.0)}
        norm = 1 - acc * (1 - np.log(acc))
        for i in range(1, 3):
            # with v = 1 - u = exp(-r): 1 - v (1 - log v)
            v = 1 - umax * npx.grid[i]
            out["c%d" % i] = (c[i] * norm, 1 - v * (1 - jnp.log(v)))
        return out

    for acc in (1e-5, 1e-3):
        ob("exponential-table-%g" % acc, functools.partial(expcdf, acc), [F("g", 0.01, 0.99, shape=(2,))])

    def moff(beta, **kw):
        ref = fresh(kw["key"])
        o = jg.Moffat(beta=beta, scale_radius=kw["s"], flux=kw["fl"])
        p, out, rng = common(o, 1, kw, ref)
        a = uni(ref, 1)
        u = uni(ref, 1)
        # fraction of the flux inside the radius shot equals the deviate
        rsq = (p.x**2 + p.y**2) / kw["s"] ** 2
        out["cdf"] = (1 - jnp.power(1 + rsq, 1 - beta), u)
        out["dir"] = (p.x * jnp.sin(2 * jnp.pi * a), p.y * jnp.cos(2 * jnp.pi * a))
        out["same"] = (p.x * jnp.cos(2 * jnp.pi * a) >= 0) & jnp.all(p.y * jnp.sin(2 * jnp.pi * a) >= 0)
        out["rng"] = keyeq(rng, ref)
        return out

    for beta in (1.5, 2.0, 2.5, 3.0, 4.0):
        ob("moffat-%g" % beta, functools.partial(moff, beta), KEY + [F("s", 0.1, 5)])

    # ---- Spergel: table of the cumulative flux, inversion, linearised core for negative index
    def quad(q, z):
        return q[0] + q[1] * z + q[2] * z * z

    def unjit(f):
        return getattr(f, "__wrapped__", f)

    def sptable(kw, which, radii):
        it = iter(radii)
        npx = NP(jnp.concatenate([jnp.zeros(1), kw["g"], jnp.ones(1)]))
        fns = dict(fz_nu=lambda z, nu: quad(kw["p"], z), fz_nup1=lambda z, nu: quad(kw["q"], z), _gammap1=lambda nu: kw["gam"], fluxfractionFunc=unjit(spm.fluxfractionFunc), reducedfluxfractionFunc=unjit(spm.reducedfluxfractionFunc), jnp=npx, calculateFluxRadius=lambda *a, **k: next(it))
        o = jg.Spergel(0.7, scale_radius=1.0)
        with mock.patch.multiple(spm, **fns):
            z, c = getattr(o, which)
        return o, npx.grid, z, c

    def sppos(**kw):
        o, grid, z, c = sptable(kw, "_shoot_pos_cdf", [kw["zm"]])
        out = {"z": (z, kw["zm"] * grid), "top": (c[-1], 1.0)}
        n = 2.0**0.7 * kw["gam"]
        ff = lambda v: 1 - quad(kw["q"], v) / n
        for i in range(3):
            out["c%d" % i] = (c[i] * ff(kw["zm"]), ff(z[i]))
        return out

    SQ = [F("p", 0.1, 3, shape=(3,)), F("q", -3, -0.1, shape=(3,)), F("gam", 0.5, 4), F("zm", 5, 29), F("g", 0.001, 0.95, shape=(2,))]
    ob("spergel-table", sppos, SQ)

    def spneg(part, **kw):
        """below the inner radius the profile is replaced by a line a + b z that meets it there and encloses the target flux"""
        o, grid, z, c = sptable(kw, "_shoot_neg_cdf", [kw["zm"], kw["z0"]])
        n = 2.0**0.7 * kw["gam"]
        T = o.gsparams.shoot_accuracy * n  # integral of z f(z) inside z0 that the line must hold
        z0 = kw["z0"]
        fp = lambda v: quad(kw["p"], v)
        fq = lambda v: quad(kw["q"], v)
        # a + b z0 = k0, a z0^2 / 2 + b z0^3 / 3 = T
        b = 3 * (fp(z0) - 2 * T / z0**2) / z0
        a = fp(z0) - b * z0
        tot = T + fq(z0) - fq(kw["zm"])
        out = {"z": (z, kw["zm"] * grid), "zero": (c[0] * tot, 0.0), "top": (c[-1] * tot, tot)}
        v = z[1]
        out["c1"] = (c[1] * tot, a * v**2 / 2 + b * v**3 / 3 if part == "in" else T + fq(z0) - fq(v))
        return out

    SN = SQ + [F("z0", 0.01, 0.9)]
    ob("spergel-core", functools.partial(spneg, "in"), SN, assume=lambda zm, z0, g, **k: zm * g[0] <= z0 * 0.999)
    ob("spergel-tail", functools.partial(spneg, "out"), SN, assume=lambda zm, z0, g, **k: zm * g[0] >= z0 * 1.001)

    def spshoot(neg, cell, **kw):
        x, c = table(kw)
        ref = fresh(kw["key"])
        o = jg.Spergel(-0.4 if neg else 0.7, scale_radius=kw["s"], flux=kw["fl"])
        good = property(lambda s: (x, c))
        bad = property(lambda s: (x * 0, c))
        with mock.patch.object(jg.Spergel, "_shoot_pos_cdf", bad if neg else good), mock.patch.object(jg.Spergel, "_shoot_neg_cdf", good if neg else bad):
            p, out, rng = common(o, 1, kw, ref)
        r = inv(x, c, uni(ref, 1), cell) * kw["s"]
        radial(p, rng, 1, out, r, uni(ref, 1))
        out["rng"] = keyeq(rng, ref)
        return out

    for neg in (False, True):
        for cell in (0, 2):
            ob("spergel-shoot%s-%d" % ("-neg" if neg else "", cell), functools.partial(spshoot, neg, cell), KEY + TI + [F("s", 0.1, 5)], assume=functools.partial(incell, cell))

    # ---- compounds
    def summ(n, m, **kw):
        fl = [kw["f%d" % i] * s for i, s in zip(range(m), (1, -1, 1))]
        comps = [Src(fl[i], d=10.0 * (i + 1)) for i in range(m)]
        o = jg.Sum(comps)
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        p = o.shoot(n, rng)
        sub = ref._state.split_one()
        w = jnp.stack([jnp.abs(f) for f in fl])
        cat = jax.random.choice(sub, m, shape=(n,), replace=True, p=w / jnp.sum(w))
        us = [uni(ref, n) for _ in comps]
        out = {}
        tot = jnp.sum(w)
        for k in range(n):
            x, y, f = 0.0, 0.0, 0.0
            for i in range(m):
                on = cat[k] == i
                x = x + jnp.where(on, us[i][k] + 10.0 * (i + 1), 0.0)
                y = y + jnp.where(on, 1 - 2 * us[i][k], 0.0)
                # every photon carries the same absolute flux, with the sign of its component
                f = f + jnp.where(on, jnp.sign(fl[i]) * tot, 0.0)
            out["x%d" % k] = (p.x[k], x)
            out["y%d" % k] = (p.y[k], y)
            out["f%d" % k] = (p.flux[k] * n, f)
        out["rng"] = keyeq(rng, ref)
        # mean flux: chance of each component times what its photons carry
        out["mean"] = (sum(w[i] / tot * jnp.sign(fl[i]) * tot for i in range(m)), o.flux)
        return out

    for n, m in ((2, 2), (1, 3)):
        ob("sum-%d-%d" % (n, m), functools.partial(summ, n, m), [Key("key")] + [F("f%d" % i, 0.2, 4) for i in range(m)])

    def convo(n, m, **kw):
        fl = [kw["f%d" % i] for i in range(m)]
        o = jg.Convolve([Src(fl[i], d=10.0 * (i + 1)) for i in range(m)])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        p = o.shoot(n, rng)
        x, y, f = 0.0, 0.0, 1.0
        for i in range(m):
            u = uni(ref, n)
            x = x + u + 10.0 * (i + 1)
            y = y + 1 - 2 * u
            f = f * fl[i]
            if i:
                ref._state.split_one()  # the random order (unused here) advances the generator
        return {"x": (p.x, x), "y": (p.y, y), "f": (p.flux * n, jnp.full(n, 1.0) * f), "tot": (p.getTotalFlux(), o.flux)}

    for n, m in ((3, 2), (2, 3)):
        ob("convolve-%d-%d" % (n, m), functools.partial(convo, n, m), [Key("key")] + [F("f%d" % i, -3, 3) for i in range(m)])

    def trans(kind, **kw):
        s = Src(kw["fl"], d=1.0)
        a, b, c, d = [kw[k] for k in "abcd"]
        ox, oy = kw["ox"], kw["oy"]
        fr = 1.0
        if kind == "jac":
            o, fr = jg.Transformation(s, (a, b, c, d), jg.PositionD(ox, oy), kw["r"]), kw["r"]
            fr = fr * jnp.abs(a * d - b * c)
        elif kind == "rotflux":
            th = kw["th"]
            o, fr = (s.rotate(th * jg.radians).shift(ox, oy) * kw["r"]), kw["r"]
            a, b, c, d = jnp.cos(th), -jnp.sin(th), jnp.sin(th), jnp.cos(th)
        elif kind == "nest":
            o = s.dilate(kw["r"]).shift(ox, oy).expand(2.0).withFlux(3.0)
            a, b, c, d = 2 * kw["r"], 0.0, 0.0, 2 * kw["r"]
            ox, oy = 2 * ox, 2 * oy
            fr = 3.0 / kw["fl"]
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        p = o.shoot(2, rng)
        u = uni(ref, 2)
        x, y = u + 1.0, 1 - 2 * u
        out = {"x": (p.x, a * x + b * y + ox), "y": (p.y, c * x + d * y + oy), "rng": keyeq(rng, ref), "f": (p.flux * 2, jnp.full(2, 1.0) * kw["fl"] * fr)}
        out["tot"] = (p.getTotalFlux(), o.flux)
        return out

    TR = [Key("key"), F("fl", 0.3, 4), F("a", 0.4, 2), F("b", -0.3, 0.3), F("c", -0.3, 0.3), F("d", 0.4, 2), F("ox", -3, 3), F("oy", -3, 3), F("r", 0.2, 4), F("th", -3, 3)]
    for kind in ("jac", "rotflux", "nest"):
        ob("transform-" + kind, functools.partial(trans, kind), TR)
    ob("transform-jac-flip", functools.partial(trans, "jac"), TR[:5] + [F("d", -2, -0.4)] + TR[6:])

    def applyto(wcs, other, **kw):
        # using a profile as a photon operator: its own (unit) photons are added in image coordinates
        s = Src(kw["fl"], d=1.0)
        ph = jg.PhotonArray(2, x=kw["x"], y=kw["y"], flux=kw["f"], **(dict(wavelength=kw["x"] + 9, dxdz=kw["y"]) if other else {}))
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        w = jg.JacobianWCS(kw["a"], kw["b"], kw["c"], kw["d"]) if wcs else None
        s.applyTo(ph, local_wcs=w, rng=rng)
        u = uni(ref, 2)
        px, py = u + 1.0, 1 - 2 * u
        if wcs:
            det = kw["a"] * kw["d"] - kw["b"] * kw["c"]
            px, py = (kw["d"] * px - kw["b"] * py) / det, (-kw["c"] * px + kw["a"] * py) / det
        out = {"x": (ph.x, kw["x"] + px), "y": (ph.y, kw["y"] + py), "f": (ph.flux, kw["f"] * kw["fl"])}
        if other:
            out["w"] = (ph.wavelength, kw["x"] + 9)
            out["dx"] = (ph.dxdz, kw["y"])
        return out

    AP = TR[:6] + [F(k, -3, 3, shape=(2,)) for k in "xyf"]
    ob("applyto", functools.partial(applyto, False, True), AP)
    ob("applyto-wcs", functools.partial(applyto, True, False), AP)

    # ---- interpolants
    def interp(name, **kw):
        it = {"delta": jg.Delta, "nearest": jg.Nearest, "linear": jg.Linear}[name]()
        p = jg.PhotonArray(2)
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        it._shoot(p, rng)
        xs = []
        for _ in range(2):
            if name == "delta":
                xs.append(jnp.zeros(2))
            elif name == "nearest":
                xs.append(uni(ref, 2) - 0.5)
            else:
                xs.append(uni(ref, 2) + uni(ref, 2) - 1.0)
        return {"x": (p.x, xs[0]), "y": (p.y, xs[1]), "f": (p.flux * 2, jnp.ones(2)), "rng": keyeq(rng, ref)}

    for nm in ("delta", "nearest", "linear"):
        ob("interpolant-" + nm, functools.partial(interp, nm), [Key("key")])

    TX, TC = jnp.asarray([-1.0, -0.4, 0.25, 1.0]), jnp.asarray([0.0, 0.2, 0.65, 1.0])

    def interpgen(name, cell, **kw):
        """kernels with negative lobes: tabulated |kernel|, sign carried by the photon"""
        it = {"cubic": jg.Cubic, "quintic": jg.Quintic, "lanczos": lambda: jg.Lanczos(3)}[name]()
        x, c = TX * it.xrange, TC
        cls = type(it)
        p = jg.PhotonArray(1)
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        prop = property(lambda s: (x, c))
        with mock.patch.object(itm.Interpolant, "_shoot_cdf", prop):
            it._shoot(p, rng)
        ux, uy = uni(ref, 1), uni(ref, 1)
        wx = inv(x, c, ux, cell)
        wy = inv(x, c, uy, cell)
        out = {"x": (p.x, wx), "y": (p.y, wy), "rng": keyeq(rng, ref)}
        A = it.positive_flux + it.negative_flux
        kx, ky = it._xval_noraise(p.x), it._xval_noraise(p.y)
        out["abs"] = (jnp.abs(p.flux), jnp.where(kx * ky == 0, 0.0, A * A))
        out["sign"] = jnp.all(p.flux * kx * ky >= 0)
        return out

    def incell2(cell, **kw):
        c = TC
        r = fresh(kw["key"])
        u, v = uni(r, 1)[0], uni(r, 1)[0]
        return (u >= c[cell] + 1e-6) & (u <= c[cell + 1] - 1e-6) & (v >= c[cell] + 1e-6) & (v <= c[cell + 1] - 1e-6)

    for nm in ("cubic", "quintic"):
        for cell in (0, 2):
            ob("interpolant-%s-%d" % (nm, cell), functools.partial(interpgen, nm, cell), [Key("key")], assume=functools.partial(incell2, cell), thorough=nm == "quintic" and cell == 2)

    def interptab(name, **kw):
        """table entries are the running integral of |kernel| (trapezoids) over the kernel's range"""
        it = {"cubic": jg.Cubic, "quintic": jg.Quintic, "linear": jg.Linear}[name]()
        npx = NP(jnp.linspace(0, 1, 5))
        with mock.patch.object(itm, "jnp", npx):
            x, c = type(it)._shoot_cdf.fget(it)
        R = it.xrange
        out = {"x": (x, jnp.linspace(-R, R, 5)), "range": jnp.asarray(npx.seen[0][2] >= 1000)}
        k = jnp.abs(it._xval_noraise(jnp.linspace(-R, R, 5)))
        acc = jnp.concatenate([jnp.zeros(1), jnp.cumsum((k[1:] + k[:-1]) / 2)])
        out["c"] = (c, acc / acc[-1] + 0.0 * kw["z"])
        return out

    for nm in ("cubic", "quintic", "linear"):
        ob("interpolant-table-" + nm, functools.partial(interptab, nm), [F("z", 0, 1)])

    # ---- interpolated images: pixels chosen in proportion to |value|, spread by the kernel
    def iimage(shape, sgn, **kw):
        ny, nx = shape
        a = kw["a"] * np.asarray(sgn).reshape(shape)
        o = jg.InterpolatedImage(jg.Image(a, scale=1.0), x_interpolant="nearest", k_interpolant="quintic", pad_factor=1.0, offset=jg.PositionD(kw["ox"], kw["oy"]), _force_stepk=0.1, _force_maxk=3.0)
        impl = o._original
        p = jg.PhotonArray(1)
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        impl._shoot(p, rng)
        pad = impl._pad_image.array
        w = jnp.abs(pad.ravel())
        ind = jax.random.choice(ref._state.split_one(), w.shape[0], shape=(1,), replace=True, p=w / jnp.sum(w))[0]
        ux, uy = uni(ref, 1)[0] - 0.5, uni(ref, 1)[0] - 0.5
        off = impl._offset
        b = impl._pad_image.bounds
        wx = wy = wf = 0.0
        A = jnp.sum(w)
        for j in range(pad.shape[0]):
            for i in range(pad.shape[1]):
                on = ind == j * pad.shape[1] + i
                wx = wx + jnp.where(on, 1.0 * i, 0.0)
                wy = wy + jnp.where(on, 1.0 * j, 0.0)
                wf = wf + jnp.where(on, jnp.sign(pad[j, i]), 0.0)
        out = {"x": (p.x[0], wx + b.xmin - off.x + ux), "y": (p.y[0], wy + b.ymin - off.y + uy), "f": (p.flux[0], wf * jnp.sum(pad))}
        out["flux"] = (o.flux, jnp.sum(kw["a"] * np.asarray(sgn).reshape(shape)))
        return out

    for sh, sg in (((2, 2), (1, 1, 1, 1)), ((1, 3), (1, -1, 1))):
        ob("image-%dx%d" % sh, functools.partial(iimage, sh, sg), [Key("key"), F("a", 0.3, 2, shape=sh), F("ox", -2, 2), F("oy", -2, 2)], assume=(lambda a, **k: a[0, 0] + a[0, 2] >= a[0, 1] + 0.2) if sh == (1, 3) else None)
    return obs
