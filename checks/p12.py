from checks.p10 import KINDS, arr, build, dom, jac, params
from vlib import fork
from vlib.common import *
from jax_galsim.fits import FitsHeader
from jax_galsim.wcs import readFromFitsHeader

FUNCTIONS = ["BaseWCS.writeToFitsHeader", "_writeHeader/_readHeader of PixelScale, ShearWCS, JacobianWCS, OffsetWCS, OffsetShearWCS, AffineTransform", "AffineTransform._writeLinearWCS", "readFromFitsHeader", "_cast_to_python_float"]
ASSUMPTIONS = ["the header is a dictionary (astropy's text formatting of numbers is outside)", "parameters are Python floats (headers hold concrete numbers): scales 0.05..5, |shear|<=0.9, |det|>=0.05, origins within +-1000",
               "image bounds: origin -1000..1000 in x and y, symbolic"]


class Hdr(FitsHeader):
    """a header that keeps what is stored, without the astropy backend"""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        v = self.d[k]
        return v[0] if isinstance(v, tuple) else v

    def __setitem__(self, k, v):
        self.d[k] = v

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def keys(self):
        return self.d.keys()


def obligations(tier):
    obs = []
    for kind in KINDS:
        for off in (False, True):
            nm = kind + ("-origin" if off else "")

            def trip(kind=kind, off=off, **a):
                w = build(kind, a, off)
                J = jac(kind, {k: arr(v) for k, v in a.items()})
                x0, y0, u0, v0 = [a[n] for n in ("x0", "y0", "u0", "v0")] if off else (0.0, 0.0, 0.0, 0.0)
                h = Hdr()
                b = jg.BoundsI(xmin=a["i"], deltax=7, ymin=a["j"], deltay=5)
                w.writeToFitsHeader(h, b)
                w2, o = readFromFitsHeader(h)
                x, y = a["x"], a["y"]
                p = w2.toWorld(jg.PositionD(x, y))
                out = {"origin": (jnp.stack([arr(o.x), arr(o.y)]), jnp.stack([arr(a["i"]), arr(a["j"])])), "u": (arr(p.x), arr(J[0] * (x - x0) + J[1] * (y - y0) + u0)), "v": (arr(p.y), arr(J[2] * (x - x0) + J[3] * (y - y0) + v0))}
                # the standard keywords describe the same linear map with the corner pixel at (1,1)
                X, Y = x - a["i"] + 1 - h["CRPIX1"], y - a["j"] + 1 - h["CRPIX2"]
                out["std"] = (jnp.stack([arr(h["CD1_1"] * X + h["CD1_2"] * Y + h["CRVAL1"]), arr(h["CD2_1"] * X + h["CD2_2"] * Y + h["CRVAL2"])]), jnp.stack([arr(p.x), arr(p.y)]))
                lin = jg.AffineTransform._readHeader(h)
                q = lin.shiftOrigin(jg.PositionD(a["i"] - 1, a["j"] - 1)).toWorld(jg.PositionD(x, y))
                out["linear"] = (jnp.stack([arr(q.x), arr(q.y)]), jnp.stack([arr(p.x), arr(p.y)]))
                at1 = isinstance(w2, type(w))
                out["kind"] = jnp.asarray(at1 or type(w2).__name__ in ("OffsetWCS", "OffsetShearWCS", "AffineTransform"))
                return out

            obs.append(Ob("roundtrip-" + nm, trip, params(kind, off, PF) + [PI_("i", -1000, 1000), PI_("j", -1000, 1000), PF("x", -100, 100), PF("y", -100, 100)], assume=dom(kind)))

            def trip1(kind=kind, off=off, **a):
                w = build(kind, a, off)
                h = Hdr()
                w.writeToFitsHeader(h, jg.BoundsI(1, 7, 1, 5))
                w2, o = readFromFitsHeader(h)
                x, y = a["x"], a["y"]
                p, q = w2.toWorld(jg.PositionD(x, y)), w.toWorld(jg.PositionD(x, y))
                return {"type": jnp.asarray(type(w2) is type(w)), "o": jnp.asarray(o.x == 1 and o.y == 1), "map": (jnp.stack([arr(p.x), arr(p.y)]), jnp.stack([arr(q.x), arr(q.y)]))}

            obs.append(Ob("roundtrip-corner-" + nm, trip1, params(kind, off, PF) + [PF("x", -100, 100), PF("y", -100, 100)], assume=dom(kind)))

    def cdelt(a, d, x0, y0, u0, v0, x, y):
        w = jg.AffineTransform._readHeader(Hdr({"CDELT1": a, "CDELT2": d, "CRPIX1": x0, "CRPIX2": y0, "CRVAL1": u0, "CRVAL2": v0}))
        p = w.toWorld(jg.PositionD(x, y))
        e = jg.AffineTransform._readHeader(Hdr({})).toWorld(jg.PositionD(x, y))
        return {"p": (jnp.stack([arr(p.x), arr(p.y)]), jnp.stack([arr(a * (x - x0) + u0), arr(d * (y - y0) + v0)])), "e": (jnp.stack([arr(e.x), arr(e.y)]), jnp.stack([arr(x), arr(y)]))}

    obs.append(Ob("cdelt", cdelt, [PF(n, -100, 100) for n in ("a", "d", "x0", "y0", "u0", "v0", "x", "y")]))
    return obs
