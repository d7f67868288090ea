import numpy as np

from checks.p12 import Hdr
from vlib.sky import *
from jax_galsim.fitswcs import FitsWCS, GSFitsWCS, TanWCS
from jax_galsim.wcs import readFromFitsHeader

FUNCTIONS = ["GSFitsWCS._read_header/_read_tpv/_read_sip/_read_tnx/_parse_tnx_data/_uv/_radec/_xy/_local/_newOrigin/_writeHeader", "_invert_ab_noraise", "TanWCS", "FitsWCS", "horner2d",
             "CelestialCoord.project_rad/deproject_rad/jac_deproject_rad (as called)"]
ASSUMPTIONS = [
    "symbolic: CRPIX within +-1000, CD entries within +-0.01 deg with |det| >= 1e-8, distortion coefficients within +-1 (scaled), pixel positions within +-2000; tangent points dec in [-1.5,1.5]",
    "FITS header values are concrete (pairwise distinct) numbers: what is symbolic when headers are read or written is the pixel position",
    "inversion of polynomial distortions: exact for those polynomial maps z + d p(l.z), l.d=0, p of degree 2 and 3 with symbolic l and coefficients, which Newton's method solves in one step; accuracy for general distortions within the 10 iterations is outside",
]
DEG = PI / 180
TYPES = {"TAN": "gnomonic", "STG": "stereographic", "ZEA": "lambert", "ARC": "postel"}


def wcs(kind, a, ra, dec, pv=None, ab=None, abp=None):
    crpix = jnp.stack([a["x0"], a["y0"]])
    cd = jnp.stack([jnp.stack([a["c11"], a["c12"]]), jnp.stack([a["c21"], a["c22"]])])
    return GSFitsWCS(_data=[kind, crpix, cd, coo(ra, dec), pv, ab, abp])


CD = [F("c11", -1, 1), F("c12", -1, 1), F("c21", -1, 1), F("c22", -1, 1)]
ORG = [F("x0", -1000, 1000), F("y0", -1000, 1000)]
XY = [F("x", -2000, 2000), F("y", -2000, 2000)]


def cdet(a):
    return a["c11"] * a["c22"] - a["c12"] * a["c21"]


@register_pytree_node_class
class Flat:
    """a stand-in for the tangent point: (ra, dec) are the tangent-plane coordinates themselves, in degrees"""

    def project_rad(self, ra, dec, projection=None):
        return ra * DEG, dec * DEG

    def deproject_rad(self, u, v, projection=None):
        return u / DEG, v / DEG

    def tree_flatten(self):
        return (), None

    @classmethod
    def tree_unflatten(cls, aux, ch):
        return cls()


def concrete(f, *a, **kw):
    """headers hold concrete numbers, also while the pixel position is being traced"""
    with jax.ensure_compile_time_eval():
        return f(*a, **kw)


def poly(c, x, y, n):
    return sum(c[i, j] * x**i * y**j for i in range(n + 1) for j in range(n + 1 - i))


def spy(c, uv):
    """the sky position for tangent-plane coordinates (degrees, +u to the east)"""
    return jnp.stack(c.deproject_rad(-uv[0] * DEG, uv[1] * DEG))


def card(kind, crpix=(17.5, -3.25), cd=(0.0031, -0.0007, 0.0011, 0.0023), crval=(33.5, -21.25), **kw):
    h = {"CTYPE1": "RA---" + kind, "CTYPE2": "DEC--" + kind, "CRPIX1": crpix[0], "CRPIX2": crpix[1], "CRVAL1": crval[0], "CRVAL2": crval[1],
         "CD1_1": cd[0], "CD1_2": cd[1], "CD2_1": cd[2], "CD2_2": cd[3]}
    h.update(kw)
    return Hdr(h)


# the TPV terms (power of own axis, power of the other one) by index; odd radial terms are not supported
TPV = {}
k = 0
for n in range(8):
    for j in range(n + 1):
        TPV[k] = (n - j, j)
        k += 1
        if k in (3, 11, 23, 39):
            k += 1


def radec(w, x, y):
    p = w.toWorld(jg.PositionD(x, y))
    return jnp.stack([p.ra.rad, p.dec.rad])


def obligations(tier):
    obs = []
    A = CD + ORG

    def ob(name, f, ins, **kw):
        kw.setdefault("guards", False)
        kw.setdefault("validate", 2 if tier == "thorough" else 1)
        obs.append(Ob(name, f, ins, **kw))

    # pixel -> sky is deprojection of CD (x - crpix)
    for kind, pj in TYPES.items():
        def fwd(ra, dec, x, y, kind=kind, pj=pj, **a):
            w = wcs(kind, a, ra, dec)
            c = coo(ra, dec)
            dx, dy = x - a["x0"], y - a["y0"]
            u, v = a["c11"] * dx + a["c12"] * dy, a["c21"] * dx + a["c22"] * dy
            q = jnp.stack(c.deproject_rad(-u * DEG, v * DEG, projection=pj))
            r1, d1 = w.xyToradec(x, y, units=jg.radians)
            return {"world": (radec(w, x, y), q), "xyToradec": (jnp.stack([r1, d1]), q)}

        def dom(kind=kind, **a):
            dx, dy = a["x"] - a["x0"], a["y"] - a["y0"]
            u, v = a["c11"] * dx + a["c12"] * dy, a["c21"] * dx + a["c22"] * dy
            return u * u + v * v <= 12000.0  # (degrees): the Lambert plane ends at radius 2

        dom_ = dom if kind == "ZEA" else None
        ob("world-" + kind, fwd, A + XY + ang("ra", "dec"), assume=dom_)

        def inv(ra, dec, r1, d1, kind=kind, pj=pj, **a):
            w = wcs(kind, a, ra, dec)
            p = w.toImage(coo(r1, d1))
            u, v = coo(ra, dec).project_rad(r1, d1, projection=pj)
            dx, dy = p.x - a["x0"], p.y - a["y0"]
            D = cdet(a)
            x1, y1 = w.radecToxy(r1, d1, units=jg.radians)
            U, V = -u / DEG, v / DEG
            return {"xy": (jnp.stack([dx, dy]) * D, jnp.stack([a["c22"] * U - a["c12"] * V, a["c11"] * V - a["c21"] * U])), "radecToxy": (jnp.stack([x1, y1]), jnp.stack([p.x, p.y]))}

        ob("image-" + kind, inv, A + ang("ra", "dec", "r1", "d1"), thorough=kind == "ARC", assume=lambda pj=pj, **a: jnp.stack([jnp.abs(cdet(a)) >= 1e-3, cosc(a["ra"], a["dec"], a["r1"], a["d1"]) >= 0.05, cosc(a["ra"], a["dec"], a["r1"], a["d1"]) <= 0.9987]))

        def loc(ra, dec, x, y, kind=kind, pj=pj, **a):
            w = wcs(kind, a, ra, dec)
            j = w.local(jg.PositionD(x, y))
            dx, dy = x - a["x0"], y - a["y0"]
            u, v = a["c11"] * dx + a["c12"] * dy, a["c21"] * dx + a["c22"] * dy
            J = coo(ra, dec).jac_deproject_rad(-u * DEG, v * DEG, projection=pj)
            K = jnp.stack([jnp.stack([-a["c11"], -a["c12"]]), jnp.stack([a["c21"], a["c22"]])]) * 3600
            E = jnp.stack([jnp.stack([J[0, 0] * K[0, 0] + J[0, 1] * K[1, 0], J[0, 0] * K[0, 1] + J[0, 1] * K[1, 1]]), jnp.stack([J[1, 0] * K[0, 0] + J[1, 1] * K[1, 0], J[1, 0] * K[0, 1] + J[1, 1] * K[1, 1]])])
            return {"jac": (j.getMatrix(), E)}

        ob("local-" + kind, loc, A + XY + ang("ra", "dec"), assume=dom_)

    def shift(ra, dec, x, y, sx, sy, **a):
        w = wcs("TAN", a, ra, dec)
        s = w.shiftOrigin(jg.PositionD(sx, sy))
        t_ = w.withOrigin(jg.PositionD(sx, sy))
        return {"shift": (radec(s, x + sx, y + sy), radec(w, x, y)), "with": (radec(t_, x + sx, y + sy), radec(w, x, y)), "old": (w.crpix, jnp.stack([a["x0"], a["y0"]]))}

    ob("shift", shift, A + XY + [F("sx", -100, 100), F("sy", -100, 100)] + ang("ra", "dec"))

    # TanWCS: an affine map to the tangent plane
    for unit, nm in ((jg.arcsec, "arcsec"), (jg.degrees, "deg")):
        def tan(ra, dec, x, y, u0, v0, unit=unit, **a):
            af = jg.AffineTransform(a["c11"], a["c12"], a["c21"], a["c22"], origin=jg.PositionD(a["x0"], a["y0"]), world_origin=jg.PositionD(u0, v0))
            c = coo(ra, dec)
            w = TanWCS(af, c, units=unit)
            f = float(unit / jg.degrees)
            q = af.toWorld(jg.PositionD(x, y))
            return {"world": (radec(w, x, y), jnp.stack(c.deproject_rad(q.x * f * DEG, q.y * f * DEG)))}

        for i, m in enumerate(((0.6, -0.8, 0.8, 0.6), (-1.0, 0.0, 0.0, 1.0), (0.28, 0.96, 0.96, -0.28))):
            ob("tanwcs-%s-%d" % (nm, i), lambda tan=tan, m=m, **a: tan(**dict({k: v for k, v in a.items() if k != "c"}, **{n: a["c"] * q for n, q in zip(("c11", "c12", "c21", "c22"), m)})), [i_ for i_ in A if i_.name in ("x0", "y0")] + XY + [F("c", 0.05, 2), F("u0", -100, 100), F("v0", -100, 100)] + ang("ra", "dec"), thorough=i == 1)
        ob("tanwcs-noorigin-" + nm, functools.partial(tan, u0=0.0, v0=0.0), A + XY + ang("ra", "dec"), assume=lambda **a: jnp.abs(cdet(a)) >= 1e-3)

    # distortion polynomials: forward
    for n in (1, 2, 3):
        c = F("c", -1, 1, shape=(2, n + 1, n + 1))

        def sip(ra, dec, x, y, c, n=n, **a):
            tri = c * jnp.asarray(np.array([[i + j <= n for j in range(n + 1)] for i in range(n + 1)], dtype=float))
            w = wcs("TAN-SIP", a, ra, dec, ab=tri)
            dx, dy = x - a["x0"], y - a["y0"]
            X, Y = poly(c[0], dx, dy, n), poly(c[1], dx, dy, n)
            q = spy(coo(ra, dec), (a["c11"] * X + a["c12"] * Y, a["c21"] * X + a["c22"] * Y))
            return {"world": (radec(w, x, y), q)}

        def tpv(ra, dec, x, y, c, n=n, **a):
            tri = c * jnp.asarray(np.array([[i + j <= n for j in range(n + 1)] for i in range(n + 1)], dtype=float))
            w = wcs("TPV", a, ra, dec, pv=tri)
            dx, dy = x - a["x0"], y - a["y0"]
            u, v = a["c11"] * dx + a["c12"] * dy, a["c21"] * dx + a["c22"] * dy
            return {"world": (radec(w, x, y), spy(coo(ra, dec), (poly(c[0], u, v, n), poly(c[1], u, v, n))))}

        ob("sip-%d" % n, sip, A + XY + ang("ra", "dec") + [c], thorough=n > 2)
        fx = dict(c11=0.6, c12=-0.2, c21=0.1, c22=0.5)
        ob("tpv-%d" % n, functools.partial(tpv, **fx), ORG + XY + ang("ra", "dec") + [c], thorough=n > 2)

        # local Jacobian with distortions, by the chain rule
        def dloc(x, y, c, n=n, at="ab", **a):
            msk = jnp.asarray(np.array([[i + j <= n for j in range(n + 1)] for i in range(n + 1)], dtype=float))
            w = wcs("TAN-SIP" if at == "ab" else "TPV", a, 0.3, 0.4, **{at: c * msk})
            j = w.local(jg.PositionD(x, y)).getMatrix()
            C_ = jnp.stack([jnp.stack([a["c11"], a["c12"]]), jnp.stack([a["c21"], a["c22"]])])

            def uv(p):
                p = p - jnp.stack([a["x0"], a["y0"]])
                if at == "ab":
                    p = jnp.stack([poly(c[0], p[0], p[1], n), poly(c[1], p[0], p[1], n)])
                p = jnp.stack([C_[0, 0] * p[0] + C_[0, 1] * p[1], C_[1, 0] * p[0] + C_[1, 1] * p[1]])
                if at == "pv":
                    p = jnp.stack([poly(c[0], p[0], p[1], n), poly(c[1], p[0], p[1], n)])
                return jnp.stack([-p[0], p[1]]) * DEG

            p = jnp.stack([x, y])
            q, D = uv(p), jax.jacfwd(uv)(p)
            J = w.center.jac_deproject_rad(q[0], q[1])
            E = [[J[i, 0] * D[0, k] + J[i, 1] * D[1, k] for k in range(2)] for i in range(2)]
            return {"jac": (j, jnp.stack([jnp.stack(e) for e in E]) * (180 / PI * 3600))}

        for at in ("ab", "pv"):
            num = jnp.asarray(np.arange(1, 2 * (n + 1) ** 2 + 1).reshape(2, n + 1, n + 1) / 64.0 * (-1) ** np.arange(n + 1))
            ob("local-%s-%d" % (at, n), functools.partial(dloc, at=at, x0=3.0, y0=-2.0, c=num, **fx), XY, validate=0, thorough=(at, n) not in (("ab", 2), ("pv", 3)))
            ob("local-%s-%d-full" % (at, n), functools.partial(dloc, at=at, x0=3.0, y0=-2.0, **fx), XY + [c], thorough=True)

    # inversion of the distortion: linear distortions exactly, and polynomial maps z + d p(l.z) with l.d = 0
    def newton(kind, at, deg, guess):
        def f(l1, l2, x, y, **a):
            n = max(deg, 1)
            cs = [[[0.0] * (n + 1) for _ in range(n + 1)] for _ in range(2)]
            inv_ = [[[0.0] * (n + 1) for _ in range(n + 1)] for _ in range(2)]
            if deg == 1:
                m = [a[q] for q in ("m11", "m12", "m21", "m22")]
                cs[0][1][0], cs[0][0][1], cs[1][1][0], cs[1][0][1] = m
                cs[0][0][0], cs[1][0][0] = l1, l2
            else:
                cs[0][1][0] = cs[1][0][1] = inv_[0][1][0] = inv_[1][0][1] = 1.0
                import math

                for p in range(2, deg + 1):
                    for i in range(p + 1):
                        t_ = a["a%d" % p] * math.comb(p, i) * l1**i * l2 ** (p - i)
                        cs[0][i][p - i] = -l2 * t_
                        cs[1][i][p - i] = l1 * t_
                        inv_[0][i][p - i] = l2 * t_
                        inv_[1][i][p - i] = -l1 * t_
            mk = lambda q: jnp.stack([jnp.stack([jnp.stack([jnp.asarray(e, dtype=float) for e in r]) for r in s]) for s in q])
            kw = {at: mk(cs)}
            if guess:
                kw["abp"] = mk(inv_)
            w = GSFitsWCS(_data=[kind, jnp.array([3.5, -2.25]), jnp.eye(2), Flat(), kw.get("pv"), kw.get("ab"), kw.get("abp")])
            p = w.toImage(jg.CelestialCoord(x * jg.radians, y * jg.radians))
            U, V = -x, y
            if deg > 1:
                e = jnp.stack([poly(mk(inv_)[0], U, V, n), poly(mk(inv_)[1], U, V, n)])
                return {"xy": (jnp.stack([p.x - 3.5, p.y + 2.25]), e)}
            X, Y = p.x - 3.5, p.y + 2.25
            return {"xy": (jnp.stack([poly(kw[at][0], X, Y, n), poly(kw[at][1], X, Y, n)]), jnp.stack([U, V]))}

        ins = [F("l1", -0.5, 0.5), F("l2", -0.5, 0.5), F("x", -1.5, 1.5), F("y", -1.5, 1.5)]
        ins += [F(q, -1, 1) for q in ("m11", "m12", "m21", "m22")] if deg == 1 else [F("a%d" % p, -0.3, 0.3) for p in range(2, deg + 1)]
        ob("invert-%s-%d%s" % (at, deg, "-guess" if guess else ""), f, ins, assume=(lambda **a: jnp.abs(a["m11"] * a["m22"] - a["m12"] * a["m21"]) >= 0.1) if deg == 1 else None, validate=0, thorough=deg > 2 or (at, deg) == ("pv", 1))

    for at, kind in (("ab", "TAN-SIP"), ("pv", "TPV")):
        for deg in (1, 2, 3):
            newton(kind, at, deg, False)
    newton("TAN-SIP", "ab", 2, True)

    # headers
    def same(h, expect, x, y):
        w = concrete(GSFitsWCS, header=h)
        out = {"world": (radec(w, x, y), expect(x, y))}
        f = concrete(FitsWCS, header=h)
        out["factory"] = (radec(f, x, y), expect(x, y))
        return out

    def lin(h, x, y):
        dx, dy = x - 17.5, y + 3.25
        return 0.0031 * dx - 0.0007 * dy, 0.0011 * dx + 0.0023 * dy

    cen = coo(33.5 * DEG, -21.25 * DEG)

    def header(name, h, f, pj="gnomonic"):
        def go(x, y):
            def e(x, y):
                u, v = f(*lin(None, x, y))
                return jnp.stack(cen.deproject_rad(-u * DEG, v * DEG, projection=pj))

            return same(h, e, x, y)

        ob("header-" + name, go, XY)

        def rt(x, y):
            w = concrete(GSFitsWCS, header=h)
            out = {}
            for i, b in enumerate((jg.BoundsI(1, 8, 1, 9), jg.BoundsI(-4, 8, 11, 30))):
                h2 = Hdr()
                concrete(w.writeToFitsHeader, h2, b)
                w2, o = concrete(readFromFitsHeader, h2)
                out["rt%d" % i] = (radec(w2, x, y), radec(w, x, y))
                out["o%d" % i] = jnp.asarray(o.x == b.xmin and o.y == b.ymin)
            return out

        ob("write-" + name, rt, XY, thorough=name not in ("TAN", "ARC", "tpv-4_5_6_7_8_9_10", "tpv-24_30", "tnx-legendre"))

    ident = lambda u, v: (u, v)
    for kind, pj in TYPES.items():
        header(kind, card(kind), ident, pj)
    d = card("TAN").d
    pc = {k_: v_ for k_, v_ in d.items() if not k_.startswith("CD")}
    header("PC", Hdr(dict(pc, CDELT1=0.002, CDELT2=0.004, PC1_1=1.55, PC1_2=-0.35, PC2_1=0.275, PC2_2=0.575)), ident)
    header("flip", Hdr({"CTYPE1": "DEC--TAN", "CTYPE2": "RA---TAN", "CRPIX1": 17.5, "CRPIX2": -3.25, "CRVAL1": -21.25, "CRVAL2": 33.5, "CD1_1": 0.0011, "CD1_2": 0.0023, "CD2_1": 0.0031, "CD2_2": -0.0007}), ident)
    header("unit", card("TAN", CUNIT1="deg", CUNIT2="deg"), ident)

    def pv(ks, one=True):
        h = {}
        vals = {1: {}, 2: {}}
        for ax in (1, 2):
            if one:
                vals[ax][1] = 1.0 + 0.015625 * ax
            for q in ks:
                vals[ax][q] = (0.25 + 0.0625 * q + 0.03125 * ax) * (0.5 if q > 2 else 1)
            for q, v_ in vals[ax].items():
                h["PV%d_%d" % (ax, q)] = v_

        def f(u, v):
            return sum(v_ * u ** TPV[q][0] * v ** TPV[q][1] for q, v_ in vals[1].items()), sum(v_ * v ** TPV[q][0] * u ** TPV[q][1] for q, v_ in vals[2].items())

        return h, f

    for ks in ((0, 2), (0, 2, 4, 5, 6), (4,), (5,), (7,), (4, 5, 6, 7, 8, 9, 10), (12,), (12, 13, 16), (24, 30)):
        h, f = pv(ks)
        header("tpv-" + "_".join(map(str, ks)), card("TPV" if len(ks) != 2 else "TAN", **h), f)

    def siph(a, b, order, ap=None):
        h = {"A_ORDER": order, "B_ORDER": order}
        for nm, q in (("A", a), ("B", b)):
            for (i, j), v_ in q.items():
                h["%s_%d_%d" % (nm, i, j)] = v_
        return h

    a = {(0, 0): 0.5, (2, 0): 0.0078125, (1, 1): -0.01171875, (0, 2): 0.015625, (1, 0): 0.03125, (0, 1): 0.046875}
    b = {(0, 0): -0.25, (2, 0): -0.01953125, (1, 1): 0.0234375, (0, 2): 0.02734375, (1, 0): -0.0625, (0, 1): 0.0703125}

    def sipf(x, y):
        dx, dy = x - 17.5, y + 3.25
        X = dx + sum(v_ * dx**i * dy**j for (i, j), v_ in a.items())
        Y = dy + sum(v_ * dx**i * dy**j for (i, j), v_ in b.items())
        u, v = 0.0031 * X - 0.0007 * Y, 0.0011 * X + 0.0023 * Y
        return u, v

    for kind, pj in TYPES.items():
        def sh(x, y, kind=kind, pj=pj):
            def e(x, y):
                u, v = sipf(x, y)
                return jnp.stack(cen.deproject_rad(-u * DEG, v * DEG, projection=pj))

            h = card(kind + "-SIP", **siph(a, b, 2))  # (pixel positions near the centre: the Lambert plane ends)
            w = concrete(GSFitsWCS, header=h)
            h2 = Hdr()
            concrete(w.writeToFitsHeader, h2, jg.BoundsI(-4, 8, 11, 30))
            w2, _ = concrete(readFromFitsHeader, h2)
            return dict(same(h, e, x, y), rt=(radec(w2, x, y), e(x, y)))

        ob("header-sip-" + kind, sh, [F("x", -60, 60), F("y", -60, 60)])

    # the two distortion polynomials need not have the same order
    for oa, ob_ in ((2, 3), (3, 2)):
        def sho(x, y, oa=oa, ob_=ob_):
            lo, hi = ((a, b) if oa < ob_ else (b, a))
            hi = {**hi, (3, 0): 0.0009765625, (1, 2): -0.00048828125, (0, 3): 0.00146484375}
            pa_, pb_ = (lo, hi) if oa < ob_ else (hi, lo)
            h = card("TAN-SIP", **dict(siph(pa_, pb_, 0), A_ORDER=oa, B_ORDER=ob_))
            w = concrete(GSFitsWCS, header=h)
            dx, dy = x - 17.5, y + 3.25
            X = dx + sum(v_ * dx**i * dy**j for (i, j), v_ in pa_.items())
            Y = dy + sum(v_ * dx**i * dy**j for (i, j), v_ in pb_.items())
            u, v = 0.0031 * X - 0.0007 * Y, 0.0011 * X + 0.0023 * Y
            return {"at": (radec(w, x, y), jnp.stack(cen.deproject_rad(-u * DEG, v * DEG, projection="gnomonic")))}

        ob("header-sip-order%d%d" % (oa, ob_), sho, [F("x", -60, 60), F("y", -60, 60)])

    # TNX: surfaces in power, Chebyshev or Legendre polynomials of normalised coordinates
    co = {1: [0.5, 0.0625, 0.03125, 0.015625, -0.25, 0.046875, 0.0234375, 0.0390625, -0.0546875, 0.01171875], 2: [-0.375, 0.078125, -0.02734375, 0.0078125, 0.125, -0.03515625, 0.04296875, 0.05078125, 0.01953125, -0.05859375]}
    rng_ = (-0.5, 1.5, -1.0, 3.0)
    for code, nm in ((1, "chebyshev"), (2, "legendre"), (3, "power")):
        def wat(ax, code=code):
            s = 'wtype=tnx axtype=%s %scor = "%d. 4. 4. 2. %s %s "' % ("ra" if ax == 1 else "dec", "lng" if ax == 1 else "lat", code, " ".join(map(repr, rng_)), " ".join(map(repr, co[ax])))
            return {"WAT%d_%03d" % (ax, i + 1): s[60 * i : 60 * i + 60] for i in range((len(s) + 59) // 60)}

        def surf(ax, u, v, code=code):
            X = (2 * u - (rng_[0] + rng_[1])) / (rng_[1] - rng_[0]) if code < 3 else u
            Y = (2 * v - (rng_[2] + rng_[3])) / (rng_[3] - rng_[2]) if code < 3 else v
            P = lambda t_: [1.0, t_, t_ * t_, t_**3] if code == 3 else [1.0, t_, 2 * t_ * t_ - 1, 4 * t_**3 - 3 * t_] if code == 1 else [1.0, t_, 1.5 * t_ * t_ - 0.5, 2.5 * t_**3 - 1.5 * t_]
            px, py = P(X), P(Y)
            q = co[ax]
            m = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (0, 3)]
            return sum(c_ * px[i] * py[j] for c_, (i, j) in zip(q, m))

        header("tnx-" + nm, card("TNX", **dict(wat(1), **wat(2))), lambda u, v, surf=surf: (u + surf(1, u, v), v + surf(2, u, v)))
    return obs
