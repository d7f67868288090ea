import contextlib
import importlib
import types
from unittest import mock

import galsim as real_galsim

from vlib.common import *

FUNCTIONS = ["from_galsim and to_galsim of Angle, PositionD, PositionI, BoundsD, BoundsI, Shear, CelestialCoord, GSParams, PixelScale, ShearWCS, JacobianWCS, OffsetWCS, OffsetShearWCS, AffineTransform, GSFitsWCS, Image", "fits.read, readMulti, readCube, write, writeMulti, writeCube, _image_as_numpy"]
ASSUMPTIONS = [
    "GalSim's own classes are stand-ins with the same constructor signatures that record what they are given (they are compiled code); float() and int() of the conversion layer are the identity on numbers already of that kind",
    "images up to 2x3 pixels with free values and free integer origins; GSFitsWCS with and without TPV and SIP tables",
    "GalSim's FITS reader and writer are stand-ins that record the image they are given; bytes on disk are not modelled",
]
MODS = ["angle", "bounds", "celestial", "gsparams", "image", "position", "shear", "wcs", "fits"]


class Rec:
    pass


def make_gs():
    """a galsim namespace whose classes keep their arguments as attributes of GalSim's names"""

    class Position(Rec):
        def __init__(self, x, y):
            self.x, self.y = x, y

    class PositionD(Position):
        pass

    class PositionI(Position):
        pass

    class Bounds(Rec):
        def __init__(self, *a, xmin=None, xmax=None, ymin=None, ymax=None):
            if a:
                xmin, xmax, ymin, ymax = a
            self._def = xmin is not None
            self.xmin, self.xmax, self.ymin, self.ymax = xmin, xmax, ymin, ymax

        def isDefined(self):
            return self._def

    class BoundsD(Bounds):
        pass

    class BoundsI(Bounds):
        pass

    class Angle(Rec):
        def __init__(self, rad):
            self._rad = rad

        @property
        def rad(self):
            return self._rad

    def _Angle(rad):
        return Angle(rad)

    class Shear(Rec):
        def __init__(self, g1=None, g2=None):
            self.g1, self.g2 = g1, g2
            self.shear = None

    class CelestialCoord(Rec):
        def __init__(self, ra, dec):
            self.ra, self.dec = ra, dec

    class GSParams(Rec):
        def __init__(self, minimum_fft_size=128, maximum_fft_size=8192, folding_threshold=5.0e-3, stepk_minimum_hlr=5, maxk_threshold=1.0e-3, kvalue_accuracy=1.0e-5, xvalue_accuracy=1.0e-5, table_spacing=1, realspace_relerr=1.0e-4, realspace_abserr=1.0e-6, integration_relerr=1.0e-6, integration_abserr=1.0e-8, shoot_accuracy=1.0e-5):
            for k, v in list(locals().items()):
                if k not in ("self", "__class__"):
                    setattr(self, k, v)
                    setattr(self, "_" + k, v)

    class BaseWCS(Rec):
        pass

    class PixelScale(BaseWCS):
        def __init__(self, scale):
            self.scale = scale

    class ShearWCS(BaseWCS):
        def __init__(self, scale, shear):
            self.scale, self.shear = scale, shear

    class JacobianWCS(BaseWCS):
        def __init__(self, dudx, dudy, dvdx, dvdy):
            self.dudx, self.dudy, self.dvdx, self.dvdy = dudx, dudy, dvdx, dvdy

    class OffsetWCS(BaseWCS):
        def __init__(self, scale, origin=None, world_origin=None):
            self.scale, self.origin, self.world_origin = scale, origin, world_origin

    class OffsetShearWCS(BaseWCS):
        def __init__(self, scale, shear, origin=None, world_origin=None):
            self.scale, self.shear, self.origin, self.world_origin = scale, shear, origin, world_origin

    class AffineTransform(BaseWCS):
        def __init__(self, dudx, dudy, dvdx, dvdy, origin=None, world_origin=None):
            self.dudx, self.dudy, self.dvdx, self.dvdy, self.origin, self.world_origin = dudx, dudy, dvdx, dvdy, origin, world_origin

    class GSFitsWCS(BaseWCS):
        def __init__(self, _data=None):
            self.wcs_type, self.crpix, self.cd, self.center, self.pv, self.ab, self.abp = _data

    class Image(Rec):
        def __init__(self, array, bounds=None, wcs=None):
            self._array, self._bounds, self.wcs = array, bounds, wcs

        array = property(lambda self: self._array)
        bounds = property(lambda self: self._bounds)

    ns = types.SimpleNamespace(**{k: v for k, v in locals().items()})
    ns.angle = ns.bounds = ns.celestial = ns.position = ns.wcs = ns.shear = ns.gsparams = ns
    return ns


class NPid:
    def __getattr__(self, k):
        return {"asarray": lambda a, *b, **c: jnp.asarray(a), "array": lambda a, dtype=None, **c: jnp.asarray(a, dtype=dtype)}.get(k) or getattr(np, k)


def _like(base, conv):
    """a stand-in for float or int that leaves traced numbers traced; isinstance and subclass checks see the builtin"""

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, base)

        def __subclasscheck__(cls, x):
            return issubclass(x, base)

    class Like(base, metaclass=M):
        def __new__(cls, x=0):
            if isinstance(x, jax.Array):
                assert x.shape == (), "not a scalar"
                return conv(x)
            return base(x)

    return Like


as_float = _like(float, lambda x: x.astype(float))
as_int = _like(int, lambda x: x if jnp.issubdtype(x.dtype, jnp.integer) else jnp.trunc(x).astype(int))


@contextlib.contextmanager
def standin(gs, ints=True):
    with contextlib.ExitStack() as st:
        for m in MODS:
            mod = importlib.import_module("jax_galsim." + m)
            st.enter_context(mock.patch.object(mod, "_galsim", gs))
            if m in ("angle", "position", "shear", "wcs", "bounds"):
                st.enter_context(mock.patch.object(mod, "float", as_float, create=True))
            if ints and m in ("position", "bounds"):
                st.enter_context(mock.patch.object(mod, "int", as_int, create=True))
            if m in ("image", "fits", "wcs"):
                st.enter_context(mock.patch.object(mod, "np", NPid()))
        yield gs


def obligations(tier):
    obs = []

    def ob(name, f, ins, **kw):
        kw.setdefault("validate", 1)
        kw.setdefault("eager", False)
        kw.setdefault("fork", True)
        obs.append(Ob(name, f, ins, **kw))

    arr = lambda v: jnp.asarray(v, float)
    vec = lambda *v: jnp.stack([arr(x) for x in v])
    pos = lambda p: vec(p.x, p.y)
    bnd = lambda b: vec(b.xmin, b.xmax, b.ymin, b.ymax)
    is_ = lambda *c: jnp.asarray(all(bool(x) for x in c))

    # --- scalars, positions, bounds, angles, shears, coordinates
    def basic(x, y, i, j, dx, dy, g1, g2, ra, dec):
        gs = make_gs()
        out = {}
        with standin(gs):
            a = jg.Angle.from_galsim(gs.Angle(x))
            out["angle"] = (arr(a.rad), x)
            b = jg._Angle(x).to_galsim()
            out["angle2"] = (arr(b._rad), x)
            p = jg.PositionD.from_galsim(gs.PositionD(x, y))
            out["pos"] = (pos(p), vec(x, y))
            q = jg.PositionD(x, y).to_galsim()
            out["pos2"] = (pos(q), vec(x, y))
            r = jg.Position.from_galsim(q)
            out["pos3"] = (pos(r), vec(x, y))
            s = jg.Shear.from_galsim(gs.Shear(g1=g1, g2=g2))
            out["shear"] = (vec(s.g1, s.g2), vec(g1, g2))
            u = jg.Shear(g1=g1, g2=g2).to_galsim()
            out["shear2"] = (vec(u.g1, u.g2), vec(g1, g2))
            d = jg.BoundsD.from_galsim(gs.BoundsD(x, x + dx, y, y + dy))
            out["bd"] = (bnd(d), vec(x, x + dx, y, y + dy))
            c = jg.BoundsD(x, x + dx, y, y + dy)
            with mock.patch.object(type(c), "isDefined", lambda self: True):
                e = c.to_galsim()
            out["bd2"] = (bnd(e), vec(x, x + dx, y, y + dy))
            k = jg.CelestialCoord.from_galsim(gs.CelestialCoord(gs.Angle(ra), gs.Angle(dec)))
            out["cel"] = (vec(k.ra.rad, k.dec.rad), vec(ra, dec))
            l = jg.celestial._CelestialCoord(jg._Angle(ra), jg._Angle(dec)).to_galsim()
            out["cel2"] = (vec(l.ra._rad, l.dec._rad), vec(ra, dec))
            out["kinds"] = is_(isinstance(p, jg.PositionD), isinstance(r, jg.PositionD), type(q) is gs.PositionD, type(e) is gs.BoundsD, isinstance(d, jg.BoundsD), not jg.BoundsD.from_galsim(gs.BoundsD()).isDefined(), not jg.Bounds.from_galsim(gs.BoundsI()).isDefined(), not jg.BoundsD().to_galsim().isDefined(), type(jg.BoundsI().to_galsim()) is gs.BoundsI)
        return out

    ob("basic", basic, [F("x", -9, 9), F("y", -9, 9), I("i", -9, 9), I("j", -9, 9), F("dx", 0, 9), F("dy", 0, 9), F("g1", -0.5, 0.5), F("g2", -0.5, 0.5), F("ra", -7, 7), F("dec", -1.5, 1.5)])

    def ints(i, j, n, m):
        gs = make_gs()
        out = {}
        pm, bm = importlib.import_module("jax_galsim.position"), importlib.import_module("jax_galsim.bounds")
        with standin(gs, ints=False):
            p = jg.PositionI.from_galsim(gs.PositionI(i, j))
            out["pos"] = (pos(p), vec(i, j))
            r = jg.PositionI(i, j)
            b = jg.BoundsI.from_galsim(gs.BoundsI(i, i + n, j, j + m))
            out["b"] = (bnd(b), vec(i, i + n, j, j + m))
            c = jg.BoundsI(i, i + n, j, j + m)
            q, e = r.to_galsim(), c.to_galsim()
            out["pos2"] = (pos(q), vec(i, j))
            out["b2"] = (bnd(e), vec(i, i + n, j, j + m))
            out["kinds"] = is_(isinstance(p, jg.PositionI), isinstance(b, jg.BoundsI), type(q) is gs.PositionI, type(e) is gs.BoundsI)
        return out

    obs.append(Ob("integers", ints, [PI_("i", -40, 40), PI_("j", -40, 40), PI_("n", 0, 30), PI_("m", 0, 30)], fork=True, validate=1, eager=False))

    GP = ("minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr", "shoot_accuracy")

    def gspar(v, n):
        gs = make_gs()
        out = {}
        kw = {k: (n[("minimum_fft_size", "maximum_fft_size", "table_spacing").index(k)] if k in ("minimum_fft_size", "maximum_fft_size", "table_spacing") else v[j]) for j, k in enumerate(GP)}
        with standin(gs):
            g = gs.GSParams(**kw)
            a = jg.GSParams.from_galsim(g)
            b = jg.GSParams(**kw).to_galsim()
            try:
                jg.GSParams.from_galsim(jg.GSParams())
                bad = False
            except TypeError:
                bad = True
            d = jg.GSParams().to_galsim()
        for k in GP:
            out[k] = (arr(getattr(a, k)), arr(kw[k]))
            out[k + "2"] = (arr(getattr(b, k)), arr(kw[k]))
        out["type"] = is_(bad)
        e = real_galsim.GSParams()
        out["default"] = (vec(*[getattr(d, k) for k in GP]), vec(*[getattr(e, k) for k in GP]))
        return out

    ob("gsparams", gspar, [F("v", 0.001, 0.1, (13,)), I("n", 1, 9000, (3,))])

    # --- WCS
    W = [F("s", 0.1, 3), F("g1", -0.5, 0.5), F("g2", -0.5, 0.5), F("J", -3, 3, (4,)), F("o", -9, 9, (2,)), F("w", -9, 9, (2,))]

    def pairs(gs, kw):
        s, J, o, w = kw["s"], kw["J"], kw["o"], kw["w"]
        gsh, jsh = gs.Shear(g1=kw["g1"], g2=kw["g2"]), jg.Shear(g1=kw["g1"], g2=kw["g2"])
        go, gw = gs.PositionD(*o), gs.PositionD(*w)
        jo, jw = jg.PositionD(o[0], o[1]), jg.PositionD(w[0], w[1])
        return {
            "pixel": (gs.PixelScale(s), lambda: jg.PixelScale(s)),
            "shear": (gs.ShearWCS(s, gsh), lambda: jg.ShearWCS(s, jsh)),
            "jac": (gs.JacobianWCS(*J), lambda: jg.JacobianWCS(*J)),
            "offset": (gs.OffsetWCS(s, go, gw), lambda: jg.OffsetWCS(s, jo, jw)),
            "offsetshear": (gs.OffsetShearWCS(s, gsh, go, gw), lambda: jg.OffsetShearWCS(s, jsh, jo, jw)),
            "affine": (gs.AffineTransform(*J, origin=go, world_origin=gw), lambda: jg.AffineTransform(J[0], J[1], J[2], J[3], jo, jw)),
        }

    def flat(o):
        n = type(o).__name__
        if n in ("JacobianWCS", "AffineTransform"):
            r = [o.dudx, o.dudy, o.dvdx, o.dvdy]
        else:
            r = [o.scale]
        if n in ("ShearWCS", "OffsetShearWCS"):
            r += [o.shear.g1, o.shear.g2]
        if n in ("OffsetWCS", "OffsetShearWCS", "AffineTransform"):
            r += [o.origin.x, o.origin.y, o.world_origin.x, o.world_origin.y]
        return jnp.stack([arr(x) for x in r])

    def want(nm, kw):
        s, J, o, w = kw["s"], list(kw["J"]), list(kw["o"]), list(kw["w"])
        g = [kw["g1"], kw["g2"]]
        return jnp.stack({"pixel": [s], "shear": [s] + g, "jac": J, "offset": [s] + o + w, "offsetshear": [s] + g + o + w, "affine": J + o + w}[nm])

    def wcs(nm, **kw):
        gs = make_gs()
        with standin(gs):
            g, mk = pairs(gs, kw)[nm]
            j = jg.BaseWCS.from_galsim(g)
            b = mk().to_galsim()
            c = jg.BaseWCS.from_galsim(b)
            out = {"type": is_(type(b) is type(g), type(j).__name__ == type(g).__name__, type(c) is type(j))}
            out["to"] = (flat(b), want(nm, kw))
            out["from"] = (flat(j), want(nm, kw))
            out["round"] = (flat(c), want(nm, kw))
            # what the map does
            u = (mk()._u(1.5, -2.0), mk()._v(1.5, -2.0))
            out["u"] = (vec(j._u(1.5, -2.0), j._v(1.5, -2.0)), vec(*u))
        return out

    for nm in ("pixel", "shear", "jac", "offset", "offsetshear", "affine"):
        ob("wcs-" + nm, functools.partial(wcs, nm), W, assume=lambda nm=nm, **kw: kw["J"][0] * kw["J"][3] - kw["J"][1] * kw["J"][2] > 0.1 if nm in ("jac", "affine") else True)

    # origins on an axis
    def wcsaxis(nm, a, b, **kw):
        z = lambda v, on: (0.0, v[1]) if on == "x" else (v[0], 0.0) if on == "y" else (v[0], v[1])
        return wcs(nm, **dict(kw, o=z(kw["o"], a), w=z(kw["w"], b)))

    for nm in ("offset", "offsetshear", "affine"):
        for a, b in (("x", "y"), ("y", "x"), ("x", ""), ("", "x"), ("y", ""), ("", "y")):
            ob("wcs-%s-axis-%s-%s" % (nm, a, b), functools.partial(wcsaxis, nm, a, b), W, assume=lambda nm=nm, **kw: kw["J"][0] * kw["J"][3] - kw["J"][1] * kw["J"][2] > 0.1 if nm == "affine" else True, validate=0, thorough="" in (a, b))

    def fitsw(tables, crpix, cd, ra, dec, pv, ab, abp):
        gs = make_gs()
        from jax_galsim.fitswcs import GSFitsWCS

        pv, ab, abp = (x if t else None for x, t in zip((pv, ab, abp), tables))
        out = {}
        with standin(gs):
            cen = gs.CelestialCoord(gs.Angle(ra), gs.Angle(dec))
            j = jg.BaseWCS.from_galsim(gs.GSFitsWCS(_data=["TAN", crpix, cd, cen, pv, ab, abp]))
            k = GSFitsWCS(_data=["TAN", crpix, cd, jg.celestial._CelestialCoord(jg._Angle(ra), jg._Angle(dec)), pv, ab, abp])
            b = k.to_galsim()
            for nm, o in (("from", j), ("to", b)):
                out[nm + "p"] = (jnp.asarray(o.crpix), crpix)
                out[nm + "c"] = (jnp.asarray(o.cd), cd)
                out[nm + "r"] = (vec(o.center.ra.rad, o.center.dec.rad), vec(ra, dec))
                out[nm + "n"] = is_((o.pv is None) == (pv is None), (o.ab is None) == (ab is None), (o.abp is None) == (abp is None), o.wcs_type == "TAN")
                for q, v in (("pv", pv), ("ab", ab), ("abp", abp)):
                    if v is not None:
                        out[nm + q] = (jnp.asarray(getattr(o, q)), v)
        out["cls"] = is_(type(j) is GSFitsWCS, type(b) is gs.GSFitsWCS)
        return out

    FI = [F("crpix", -99, 99, (2,)), F("cd", -1, 1, (2, 2)), F("ra", -7, 7), F("dec", -1.5, 1.5), F("pv", -1, 1, (2, 4, 4)), F("ab", -1, 1, (2, 3, 3)), F("abp", -1, 1, (2, 3, 3))]
    for nm, tb in (("none", (0, 0, 0)), ("tpv", (1, 0, 0)), ("sip", (0, 1, 1)), ("sip1", (0, 1, 0))):
        ob("wcs-fits-" + nm, functools.partial(fitsw, tb), FI)

    # --- images
    def image(kind, **kw):
        gs = make_gs()
        out = {}
        x0, y0, v = kw["x0"], kw["y0"], kw["v"]
        with standin(gs):
            gw = {"none": lambda: None, "pixel": lambda: gs.PixelScale(kw["s"]), "affine": lambda: gs.AffineTransform(*kw["J"], origin=gs.PositionD(*kw["o"]), world_origin=gs.PositionD(*kw["w"]))}[kind]()
            jw = {"none": lambda: None, "pixel": lambda: jg.PixelScale(kw["s"]), "affine": lambda: jg.AffineTransform(*kw["J"], jg.PositionD(*kw["o"]), jg.PositionD(*kw["w"]))}[kind]()
            gi = gs.Image(v, bounds=gs.BoundsI(x0, x0 + 2, y0, y0 + 1), wcs=gw)
            gi.header = {"A": 1}
            im = jg.Image.from_galsim(gi)
            jim = jg.Image(v, xmin=x0, ymin=y0, wcs=jw)
            gb = jim.to_galsim()
            for nm, o in (("from", im), ("to", gb)):
                out[nm] = (jnp.asarray(o.array), v)
                out[nm + "b"] = (bnd(o.bounds), vec(x0, x0 + 2, y0, y0 + 1))
                out[nm + "w"] = is_((o.wcs is None) == (jw is None))
                if jw is not None:
                    out[nm + "wv"] = (flat(o.wcs), want(kind, dict(kw, g1=0, g2=0)))
            out["hdr"] = is_(im.header == {"A": 1}, type(gb) is gs.Image, isinstance(im, jg.Image))
            # the FITS layer hands GalSim exactly this image, and gives the image back unchanged
            seen = []

            def writer(image, *a, **k):
                seen.append((image.array, image.bounds, image.wcs, isinstance(image, gs.Image), a, k))

            gs.fits = types.SimpleNamespace(write=writer, read=lambda *a, **k: gi, readMulti=lambda *a, **k: [gi, gi], readCube=lambda *a, **k: [gi], writeMulti=lambda l, *a, **k: [writer(z, *a, **k) for z in l], writeCube=lambda l, *a, **k: [writer(z, *a, **k) for z in l])
            jg.fits.write(jim, "f.fits", clobber=True)
            jg.fits.writeMulti([jim, jim], "g.fits")
            jg.fits.writeCube([jim, jim], "h.fits")
            jim.write("k.fits")
            out["calls"] = is_(len(seen) == 6, all(z[3] for z in seen), seen[0][4] == ("f.fits",), seen[0][5] == {"clobber": True}, seen[1][4] == ("g.fits",), seen[3][4] == ("h.fits",), seen[5][4] == ("k.fits",))
            for k, z in enumerate(seen):
                out["w%d" % k] = (jnp.asarray(z[0]), v)
                out["wb%d" % k] = (bnd(z[1]), vec(x0, x0 + 2, y0, y0 + 1))

            def boom(*a, **k):
                raise OSError("disk full")

            gs.fits.write = boom
            try:
                jg.fits.write(jim, "f.fits")
                ok = False
            except OSError:
                ok = True
            out["restored"] = is_(ok, type(jim) is jg.Image)
            out["restoredv"] = (jim.array, v)
            for nm, r in (("read", jg.fits.read("a")), ("multi", jg.fits.readMulti("a")[1]), ("cube", jg.fits.readCube("a")[0])):
                out[nm] = (r.array, v)
                out[nm + "b"] = (bnd(r.bounds), vec(x0, x0 + 2, y0, y0 + 1))
                out[nm + "h"] = is_(r.header == {"A": 1})
        return out

    IM = [F("v", -9, 9, (2, 3)), I("x0", -20, 20), I("y0", -20, 20)] + [W[0]] + W[3:]
    for k in ("none", "pixel", "affine"):
        obs.append(Ob("image-" + k, functools.partial(image, k), IM, validate=0, eager=False, fork=True))
    return obs
