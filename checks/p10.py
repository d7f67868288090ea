from vlib import fork
from vlib.common import *
from vlib.probe import Probe, poly

FUNCTIONS = ["PixelScale/ShearWCS/JacobianWCS/OffsetWCS/OffsetShearWCS/AffineTransform._u/_v/_x/_y", "BaseWCS.toWorld/toImage (positions, arrays, shears, profiles)",
             "EuclideanWCS._posToWorld/_posToImage/_xyTouv/_uvToxy", "UniformWCS.inverse", "_profileToWorld/_profileToImage", "_shearToWorld/_shearToImage", "EuclideanWCS (non-uniform) through a user-defined quadratic subclass"]
ASSUMPTIONS = ["scales 0.05..5, |shear| <= 0.9, Jacobian entries within [-3,3] with |det| >= 0.05, coordinates within +-1000",
               "profiles are Gaussians (sigma 0.5..3); shear conversions away from the tiny-ellipticity series (covered by P08)",
               "UVFunction and other functional WCS of GalSim are not part of this library; the generic EuclideanWCS code is checked through a subclass defined in the harness"]


def arr(x):
    return jnp.asarray(fork.unwrap(x)) * 1.0


def jac(kind, a):
    """documented Jacobian, from the parameters alone"""
    if kind == "pix":
        return a["s"], 0.0, 0.0, a["s"]
    if kind == "shear":
        f = a["s"] / jnp.sqrt(1 - a["g1"] ** 2 - a["g2"] ** 2)
        return f * (1 - a["g1"]), -f * a["g2"], -f * a["g2"], f * (1 + a["g1"])
    return a["a"], a["b"], a["c"], a["d"]


def build(kind, a, off):
    o = dict(origin=jg.PositionD(a["x0"], a["y0"]), world_origin=jg.PositionD(a["u0"], a["v0"])) if off else {}
    if kind == "pix":
        return (jg.OffsetWCS if off else jg.PixelScale)(a["s"], **o)
    if kind == "shear":
        return (jg.OffsetShearWCS if off else jg.ShearWCS)(a["s"], jg.Shear(g1=a["g1"], g2=a["g2"]), **o)
    return (jg.AffineTransform if off else jg.JacobianWCS)(a["a"], a["b"], a["c"], a["d"], **o)


def params(kind, off, mk=F):
    p = {"pix": [mk("s", 0.05, 5)], "shear": [mk("s", 0.05, 5), mk("g1", -0.9, 0.9), mk("g2", -0.9, 0.9)], "jac": [mk(n, -3, 3) for n in "abcd"]}[kind]
    if off:
        p = p + [mk(n, -1000, 1000) for n in ("x0", "y0", "u0", "v0")]
    return p


def dom(kind):
    if kind == "pix":
        return None
    if kind == "shear":
        return lambda **k: k["g1"] ** 2 + k["g2"] ** 2 <= 0.81
    return lambda **k: jnp.abs(k["a"] * k["d"] - k["b"] * k["c"]) >= 0.05


class Quad(jg.wcs.EuclideanWCS):
    """u = x + p x^2 + q y ; v = y + r x  (inverse is closed form only through v when q = 0)"""

    def __init__(self, p, q, r, origin=None, world_origin=None):
        self._color = None
        self._set_origin(origin, world_origin)
        self.p, self.q, self.r = p, q, r

    origin = property(lambda self: self._origin)
    world_origin = property(lambda self: self._world_origin)
    _isUniform = False
    _isLocal = False

    def _u(self, x, y, color=None):
        return x + self.q * y + self.p * y * y

    def _v(self, x, y, color=None):
        return y * self.r

    def _y(self, u, v, color=None):
        return v / self.r

    def _x(self, u, v, color=None):
        y = v / self.r
        return u - self.q * y - self.p * y * y

    def _newOrigin(self, origin, world_origin):
        return Quad(self.p, self.q, self.r, origin, world_origin)


class EShear(jg.Shear):
    """the shear with distortion e1 + i e2 (conversion between g and e is P08)"""

    def __init__(self, e1, e2):
        self._e = (e1, e2)

    e1 = property(lambda self: self._e[0])
    e2 = property(lambda self: self._e[1])

    @property
    def _g(self):
        e1, e2 = self._e
        return (e1 + 1j * e2) / (1 + jnp.sqrt(1 - e1**2 - e2**2))


def ellipse(j, e1, e2, inverse):
    M = [[1 + e1, e2], [e2, 1 - e1]]
    j = [[j[3], -j[1]], [-j[2], j[0]]] if inverse else [[j[0], j[1]], [j[2], j[3]]]
    JM = [[sum(j[p][k] * M[k][q] for k in (0, 1)) for q in (0, 1)] for p in (0, 1)]
    return [[sum(JM[p][k] * j[q][k] for k in (0, 1)) for q in (0, 1)] for p in (0, 1)]


KINDS = ["pix", "shear", "jac"]


def obligations(tier):
    obs = []
    for kind in KINDS:
        for off in (False, True):
            nm = kind + ("-origin" if off else "")

            def pos(kind=kind, off=off, **a):
                w = build(kind, a, off)
                x, y = a["x"], a["y"]
                J = jac(kind, a)
                x0, y0, u0, v0 = [a[n] for n in ("x0", "y0", "u0", "v0")] if off else (0.0, 0.0, 0.0, 0.0)
                u = J[0] * (x - x0) + J[1] * (y - y0) + u0
                v = J[2] * (x - x0) + J[3] * (y - y0) + v0
                p = jg.PositionD(x, y)
                q = w.toWorld(p)
                r = w.toImage(q)
                uu, vv = w.xyTouv(x, y)
                u1, v1 = w.toWorld(jnp.stack([arr(x), arr(x)]), jnp.stack([arr(y), arr(y)]))
                x1, y1 = w.toImage(arr(x), arr(y))  # (x,y) here used as world coordinates
                x2, y2 = w.uvToxy(x, y)
                inv = w.inverse()
                s, t_ = inv.toWorld(q), inv.toImage(p)
                f = w.toWorld(jg.PositionD(x1, y1))
                return {"u": (arr(q.x), arr(u)), "v": (arr(q.y), arr(v)), "uv": (jnp.stack([arr(uu), arr(vv)]), jnp.stack([arr(u), arr(v)])), "arr": (jnp.stack([u1[0], u1[1], v1[0], v1[1]]), jnp.stack([arr(z) for z in (u, u, v, v)])),
                        "back": (jnp.stack([arr(r.x), arr(r.y)]), jnp.stack([arr(x), arr(y)])), "inverse": (jnp.stack([arr(s.x), arr(s.y)]), jnp.stack([arr(x), arr(y)])),
                        "inverse2": (jnp.stack([arr(t_.x), arr(t_.y)]), jnp.stack([arr(u), arr(v)])), "fwd": (jnp.stack([arr(f.x), arr(f.y)]), jnp.stack([arr(x), arr(y)])),
                        "uvToxy": (jnp.stack([arr(x2), arr(y2)]), jnp.stack([arr(x1), arr(y1)])), "keep": (jnp.stack([arr(p.x), arr(p.y)]), jnp.stack([arr(x), arr(y)]))}

            obs.append(Ob("pos-" + nm, pos, params(kind, off) + [F("x", -1000, 1000), F("y", -1000, 1000)], assume=dom(kind)))
            if kind != "shear":
                obs.append(Ob("pos-py-" + nm, pos, params(kind, off, PF) + [PF("x", -1000, 1000), PF("y", -1000, 1000)], assume=dom(kind)))

            def ipos(kind=kind, off=off, **a):
                w = build(kind, a, off)
                q = w.toWorld(jg.PositionI(a["i"], a["j"]))
                e = w.toWorld(jg.PositionD(a["i"] * 1.0, a["j"] * 1.0))
                r = w.toImage(jg.PositionI(a["i"], a["j"]))
                s = w.toImage(jg.PositionD(a["i"] * 1.0, a["j"] * 1.0))
                return {"w": (jnp.stack([arr(q.x), arr(q.y)]), jnp.stack([arr(e.x), arr(e.y)])), "i": (jnp.stack([arr(r.x), arr(r.y)]), jnp.stack([arr(s.x), arr(s.y)]))}

            obs.append(Ob("ipos-" + nm, ipos, params(kind, off) + [I("i", -1000, 1000), I("j", -1000, 1000)], assume=dom(kind)))

            if not off or tier == "thorough":
                def prof(kind=kind, off=off, **a):
                    w = build(kind, a, off)
                    J = jac(kind, a)
                    det = jnp.abs(J[0] * J[3] - J[1] * J[2])
                    C = a["pc"]
                    g = Probe(C, jnp.zeros(3), flux=a["fl"])
                    u, v = a["x"], a["y"]
                    D = J[0] * J[3] - J[1] * J[2]
                    x, y = (J[3] * u - J[1] * v) / D, (-J[2] * u + J[0] * v) / D
                    xf, yf = J[0] * u + J[1] * v, J[2] * u + J[3] * v
                    W = w.toWorld(g)
                    B = w.toImage(W)
                    B2 = w.toWorld(w.toImage(g))
                    O = w.toWorld(g, flux_ratio=a["fr"], offset=(a["ox"], a["oy"]))
                    P = w.toImage(g, flux_ratio=a["fr"], offset=(a["ox"], a["oy"]))
                    E = w.profileToWorld(g)
                    E2 = w.profileToImage(g)
                    X = lambda p, s, t_: p.xValue(s, t_)
                    ref = poly(C, x, y)
                    return {"sb": (X(W, u, v) * det, ref), "flux": (W.flux, a["fl"]), "back": (X(B, u, v), poly(C, u, v)), "bflux": (B.flux, a["fl"]), "back2": (X(B2, u, v), poly(C, u, v)),
                            "off": (X(O, u + a["ox"], v + a["oy"]) * det, a["fr"] * ref), "oflux": (O.flux, a["fr"] * a["fl"]), "img": (X(P, u + a["ox"], v + a["oy"]), a["fr"] * det * poly(C, xf, yf)),
                            "iflux": (P.flux, a["fr"] * a["fl"]), "cen": (jnp.stack([O.centroid.x, O.centroid.y, P.centroid.x, P.centroid.y]), jnp.stack([a["ox"], a["oy"], a["ox"], a["oy"]])),
                            "same": (X(E, u, v) * det, ref), "same2": (X(E2, u, v), det * poly(C, xf, yf))}

                ex = [F("pc", -5, 5, shape=(4,)), F("fl", 0.1, 100), F("fr", 0.1, 10), F("x", -5, 5), F("y", -5, 5), F("ox", -3, 3), F("oy", -3, 3)]
                obs.append(Ob("profile-" + nm, prof, params(kind, off) + ex, assume=dom(kind)))

            def sh(kind=kind, off=off, inverse=False, **a):
                """ellipse matrix of the converted shear is J M J^T, M the ellipse matrix of the original"""
                w = build(kind, a, off)
                j = jac(kind, a)
                o = (w.toImage if inverse else w.toWorld)(EShear(a["e1"], a["e2"]))
                N = ellipse(j, a["e1"], a["e2"], inverse)
                tr = N[0][0] + N[1][1]
                r = jg.Shear(e1=(N[0][0] - N[1][1]) / tr, e2=2 * N[0][1] / tr)
                return {"g": (o.shear, r.shear)}

            def sdom(kind=kind, inverse=False, **a):
                N = ellipse(jac(kind, a), a["e1"], a["e2"], inverse)
                tr = N[0][0] + N[1][1]
                # the trace of a positive definite matrix and the length of the ellipticity vector: consequences of |e| < 1, det J != 0
                out = [a["e1"] ** 2 + a["e2"] ** 2 <= 0.9, tr > 0]
                if dom(kind):
                    out.append(dom(kind)(**a))
                return jnp.stack([jnp.asarray(z) for z in out])

            if not off:
                se = [F("e1", -0.95, 0.95), F("e2", -0.95, 0.95)]
                for inv in (False, True):
                    n2 = ("shear-image-" if inv else "shear-") + nm
                    obs.append(Ob(n2, functools.partial(sh, inverse=inv), params(kind, off) + se, assume=functools.partial(sdom, inverse=inv), timeout=60, thorough=kind != "shear"))
                    if kind == "jac":
                        for i, J in enumerate([(0.25, 0.0, 0.125, -0.5), (1.0, 2.0, -0.5, 0.25)]):
                            J = dict(zip("abcd", J))
                            obs.append(Ob("%s-J%d" % (n2, i), functools.partial(sh, inverse=inv, **J), se, assume=functools.partial(sdom, inverse=inv, **J)))
                        E = dict(e1=0.5, e2=0.25)
                        obs.append(Ob(n2 + "-E", functools.partial(sh, inverse=inv, **E), params(kind, off), assume=functools.partial(sdom, inverse=inv, **E)))
                    if kind == "pix":
                        obs.append(Ob(n2 + "-same", lambda s, e1, e2, inv=inv: {"g": ((jg.PixelScale(s).toImage if inv else jg.PixelScale(s).toWorld)(EShear(e1, e2)).shear, EShear(e1, e2).shear)},
                                      params(kind, off) + se, assume=lambda s, e1, e2: e1**2 + e2**2 <= 0.9))

    def quad(p, q, r, x, y, x0, y0, u0, v0):
        w = Quad(p, q, r, jg.PositionD(x0, y0), jg.PositionD(u0, v0))
        P = w.toWorld(jg.PositionD(x, y))
        Q = w.toImage(P)
        X, Y = x - x0, y - y0
        U, V = w.xyTouv(x, y)
        x2, y2 = w.uvToxy(U, V)
        return {"u": (P.x, X + q * Y + p * Y * Y + u0), "v": (P.y, r * Y + v0), "U": (U, P.x), "V": (V, P.y), "x": (Q.x, x), "y": (Q.y, y), "x2": (x2, x), "y2": (y2, y)}

    obs.append(Ob("generic", quad, [F("p", -0.1, 0.1), F("q", -1, 1), F("r", 0.1, 3)] + [F(n, -100, 100) for n in ("x", "y", "x0", "y0", "u0", "v0")]))

    def refuse(s, x):
        n = 0
        w = jg.PixelScale(s)
        for f in (lambda: w.toWorld(3.0), lambda: w.toImage(3.0), lambda: w.toWorld(1.0, 2.0, 3.0), lambda: w.local(3.0), lambda: w.shiftOrigin(3.0), lambda: jg.PixelScale(w), lambda: jg.OffsetWCS(s, origin=3.0),
                  lambda: jg.OffsetWCS(s, world_origin=3.0), lambda: w.posToWorld(x), lambda: w.posToImage(x)):
            try:
                f()
            except TypeError:
                n += 1
        return {"n": jnp.asarray(n == 10)}

    obs.append(Ob("refusals", refuse, [F("s", 0.1, 1), F("x", -1, 1)]))
    return obs
