from checks.p10 import KINDS, Quad, arr, build, dom, jac, params
from vlib import fork
from vlib.common import *

FUNCTIONS = ["BaseWCS.local/jacobian/affine/shiftOrigin", "UniformWCS._local, EuclideanWCS._local (finite differences)", "pixelArea/minLinearScale/maxLinearScale", "JacobianWCS.getMatrix/getDecomposition", "_toJacobian of every class",
             "EuclideanWCS._makeSkyImage / UniformWCS._makeSkyImage", "compatible, __eq__"]
ASSUMPTIONS = ["as P10; sky images of 2x3 pixels", "finite-difference Jacobians checked on a coordinate system quadratic in the position (harness subclass), where central differences are exact"]


def obligations(tier):
    obs = []
    for kind in KINDS:
        for off in (False, True):
            nm = kind + ("-origin" if off else "")
            pp = params(kind, off)

            def loc(kind=kind, off=off, **a):
                w = build(kind, a, off)
                J = jnp.stack([arr(z) for z in jac(kind, a)])
                im = jg.PositionD(a["x"], a["y"])
                out = {}
                for n2, j in (("none", w.jacobian()), ("im", w.jacobian(image_pos=im)), ("world", w.jacobian(world_pos=im)), ("local", w.local(im).jacobian())):
                    out["J " + n2] = (jnp.stack([arr(z) for z in (j.dudx, j.dudy, j.dvdx, j.dvdy)]), J)
                out["matrix"] = (w.jacobian().getMatrix(), J.reshape(2, 2))
                det = J[0] * J[3] - J[1] * J[2]
                out["area"] = (w.pixelArea(), jnp.abs(det))
                out["area im"] = (w.pixelArea(image_pos=im), jnp.abs(det))
                A = w.affine(image_pos=im)
                B = w.affine(world_pos=im)
                p = jg.PositionD(a["z"], a["x"])
                q = w.toWorld(p)
                for n2, c in (("affine", A), ("affine world", B)):
                    r = c.toWorld(p)
                    out[n2] = (jnp.stack([r.x, r.y]), jnp.stack([q.x, q.y]))
                l = w.local(im).toWorld(p)
                out["local map"] = (jnp.stack([l.x, l.y]), jnp.stack([J[0] * a["z"] + J[1] * a["x"], J[2] * a["z"] + J[3] * a["x"]]))
                out["flags"] = jnp.asarray(w.isUniform() and not w.isCelestial() and w.local(im).isLocal() and (w.isLocal() == (not off)) and (w.isPixelScale() == (kind == "pix")))
                return out

            obs.append(Ob("local-" + nm, loc, pp + [F(n, -100, 100) for n in "xyz"], assume=dom(kind)))

            def scales(kind=kind, off=off, **a):
                w = build(kind, a, off)
                J = jac(kind, a)
                lo, hi = w.minLinearScale(), w.maxLinearScale()
                jlo, jhi = w.jacobian().minLinearScale(), w.jacobian().maxLinearScale()
                fr = J[0] ** 2 + J[1] ** 2 + J[2] ** 2 + J[3] ** 2
                det = jnp.abs(J[0] * J[3] - J[1] * J[2])
                return {"prod": (lo * hi, det), "sum": (lo**2 + hi**2, fr), "order": (lo <= hi + 1e-9), "pos": lo >= -1e-12, "jprod": (jlo * jhi, det), "jsum": (jlo**2 + jhi**2, fr)}

            obs.append(Ob("scales-" + nm, scales, pp, assume=dom(kind)))

            def shift(kind=kind, off=off, **a):
                w = build(kind, a, off)
                J = jac(kind, a)
                x, y, ox, oy, wx, wy = [a[n] for n in ("x", "y", "ox", "oy", "wx", "wy")]
                x0, y0, u0, v0 = [a[n] for n in ("x0", "y0", "u0", "v0")] if off else (0.0, 0.0, 0.0, 0.0)
                o = jg.PositionD(ox, oy)
                n1 = w.shiftOrigin(o)
                n2 = w.shiftOrigin(o, jg.PositionD(wx, wy))
                n3 = w.shiftOrigin(jg.PositionI(a["i"], a["j"]))
                n4 = n1.shiftOrigin(jg.PositionD(-ox, -oy))
                n5 = n2.shiftOrigin(jg.PositionD(wx, wy))
                P = jg.PositionD(x, y)

                def m(X, Y, uu, vv):
                    return jnp.stack([arr(z) for z in (J[0] * X + J[1] * Y + uu, J[2] * X + J[3] * Y + vv)])

                def at(c):
                    r = c.toWorld(P)
                    return jnp.stack([arr(r.x), arr(r.y)])

                return {"shift": (at(n1), m(x - x0 - ox, y - y0 - oy, u0, v0)), "world": (at(n2), m(x - ox, y - oy, wx, wy)), "int": (at(n3), m(x - x0 - a["i"], y - y0 - a["j"], u0, v0)),
                        "undo": (at(n4), at(w)), "again": (at(n5), m(x - ox - wx, y - oy - wy, wx, wy)), "keep": (jnp.stack([arr(w.x0), arr(w.y0), arr(w.u0), arr(w.v0), arr(o.x), arr(o.y)]), jnp.stack([arr(z) for z in (x0, y0, u0, v0, ox, oy)])),
                        "origin": (jnp.stack([arr(n1.x0), arr(n1.y0), arr(n1.u0), arr(n1.v0)]), jnp.stack([arr(z) for z in (x0 + ox, y0 + oy, u0, v0)]))}

            obs.append(Ob("shift-" + nm, shift, pp + [F(n, -100, 100) for n in ("x", "y", "ox", "oy", "wx", "wy")] + [I("i", -100, 100), I("j", -100, 100)], assume=dom(kind)))

            def sky(kind=kind, off=off, **a):
                w = build(kind, a, off)
                J = jac(kind, a)
                im = jg.Image(3, 2, wcs=w)
                w.makeSkyImage(im, a["sky"])
                im2 = jg.Image(3, 2, dtype=float, xmin=5, ymin=-2)
                w.makeSkyImage(im2, a["sky"])
                want = jnp.abs(J[0] * J[3] - J[1] * J[2]) * a["sky"] * jnp.ones((2, 3))
                return {"sky": (im2.array, want), "sky32": (im.array * 1.0, want)}

            obs.append(Ob("sky-" + nm, sky, pp + [F("sky", 0, 100)], assume=dom(kind)))

    def deco(a, b, c, d):
        scale, shear, th, flip = jg.JacobianWCS(a, b, c, d).getDecomposition()
        C, S = jnp.cos(th.rad), jnp.sin(th.rad)
        g1, g2 = shear.g1, shear.g2
        f = scale / jnp.sqrt(1 - g1**2 - g2**2)
        # f * [[1+g1, g2],[g2,1-g1]] . [[C,-S],[S,C]] . F ; F swaps the columns when flipped
        m00, m01 = (1 + g1) * C + g2 * S, -(1 + g1) * S + g2 * C
        m10, m11 = g2 * C + (1 - g1) * S, -g2 * S + (1 - g1) * C
        A, B_ = jnp.where(flip, m01, m00), jnp.where(flip, m00, m01)
        C_, D = jnp.where(flip, m11, m10), jnp.where(flip, m10, m11)
        # stated without the square root: direction of the matrix, sign at the first nonzero entries through the trace
        return {"flip": flip == (a * d - b * c < 0), "scale": (scale**2, jnp.abs(a * d - b * c)), "ab": (A * b, B_ * a), "ac": (A * c, C_ * a), "ad": (A * d, D * a), "bc": (B_ * c, C_ * b)}

    def nondeg(sign):
        return lambda a, b, c, d: jnp.stack([sign * (a * d - b * c) >= 0.05, jnp.abs(a + d) >= 0.05, jnp.abs(b + c) >= 0.05])

    obs.append(Ob("decomposition", deco, [F(n, -2, 2) for n in "abcd"], assume=nondeg(1), thorough=True))
    obs.append(Ob("decomposition-flip", deco, [F(n, -2, 2) for n in "abcd"], assume=nondeg(-1), thorough=True))

    def deco_fwd(s, g1, g2, th):
        C, S = jnp.cos(th), jnp.sin(th)
        f = s / jnp.sqrt(1 - g1**2 - g2**2)
        w = jg.JacobianWCS(f * ((1 + g1) * C + g2 * S), f * (-(1 + g1) * S + g2 * C), f * (g2 * C + (1 - g1) * S), f * (-g2 * S + (1 - g1) * C))
        scale, shear, t2, flip = w.getDecomposition()
        return {"scale": (scale, s), "g1": (shear.g1, g1), "g2": (shear.g2, g2), "cos": (jnp.cos(t2.rad), C), "sin": (jnp.sin(t2.rad), S), "flip": ~flip}

    def deco_fwdflip(s, g1, g2, th):
        C, S = jnp.cos(th), jnp.sin(th)
        f = s / jnp.sqrt(1 - g1**2 - g2**2)
        w = jg.JacobianWCS(f * (-(1 + g1) * S + g2 * C), f * ((1 + g1) * C + g2 * S), f * (-g2 * S + (1 - g1) * C), f * (g2 * C + (1 - g1) * S))
        scale, shear, t2, flip = w.getDecomposition()
        return {"scale": (scale, s), "g1": (shear.g1, g1), "g2": (shear.g2, g2), "cos": (jnp.cos(t2.rad), C), "sin": (jnp.sin(t2.rad), S), "flip": flip}

    gd = lambda s, g1, g2, th: g1**2 + g2**2 <= 0.81
    gi = [F("s", 0.05, 5), F("g1", -0.9, 0.9), F("g2", -0.9, 0.9), F("th", -3.1, 3.1)]
    obs.append(Ob("decompose-built", deco_fwd, gi, assume=gd))
    obs.append(Ob("decompose-built-flip", deco_fwdflip, gi, assume=gd))

    def quad(p, q, r, x, y, x0, y0, u0, v0, z):
        w = Quad(p, q, r, jg.PositionD(x0, y0), jg.PositionD(u0, v0))
        im = jg.PositionD(x, y)
        dudy = q + 2 * p * (y - y0)
        out = {}
        for nm, j in (("im", w.local(image_pos=im)), ("jac", w.jacobian(im)), ("world", w.local(world_pos=w.toWorld(im)))):
            out[nm] = (jnp.stack([j.dudx, j.dudy, j.dvdx, j.dvdy]), jnp.stack([jnp.ones_like(r), dudy, jnp.zeros_like(r), r]))
        out["area"] = (w.pixelArea(im), r)
        A = w.affine(im)
        B = w.affine(world_pos=w.toWorld(im))
        q0 = w.toWorld(im)
        for nm, c in (("aff", A), ("affw", B)):
            f = c.toWorld(jg.PositionD(z, x))
            out[nm] = (jnp.stack([f.x, f.y]), jnp.stack([(z - x) + dudy * (x - y) + q0.x, r * (x - y) + q0.y]))
        s1 = w.shiftOrigin(jg.PositionD(z, y)).toWorld(jg.PositionD(x + z, x + y))
        s0 = w.toWorld(jg.PositionD(x, x))
        out["shift"] = (jnp.stack([s1.x, s1.y]), jnp.stack([s0.x, s0.y]))
        s2 = w.shiftOrigin(jg.PositionD(z, y), jg.PositionD(x, u0))
        f = s2.toWorld(jg.PositionD(z, y))
        out["shiftw"] = (jnp.stack([f.x, f.y]), jnp.stack([x, u0]))
        return out

    qi = [F("p", -0.1, 0.1), F("q", -1, 1), F("r", 0.1, 3)] + [F(n, -100, 100) for n in ("x", "y", "x0", "y0", "u0", "v0", "z")]
    obs.append(Ob("generic", quad, qi))

    def qsky(p, q, r, x0, y0, sky, xm, ym):
        w = TwoD(p, q, r, jg.PositionD(x0, y0))
        out = {}
        im = jg.Image(3, 2, dtype=float, xmin=4, ymin=-7)
        w.makeSkyImage(im, sky)
        xs, ys = im.get_pixel_centers()
        X, Y = xs - x0, ys - y0
        # u = x + p x y, v = r y + q x y
        want = jnp.abs((1 + p * Y) * (r + q * X) - (p * X) * (q * Y)) * sky
        out["sky"] = (im.array, want)
        im2 = jg.ImageI(3, 2, xmin=4, ymin=-7)
        w.makeSkyImage(im2, sky)
        out["int"] = jnp.abs(im2.array - want) <= 0.5 + 1e-9
        return out

    obs.append(Ob("generic-sky", qsky, [F("p", -0.02, 0.02), F("q", -0.02, 0.02), F("r", 0.5, 3), F("x0", -8, 8), F("y0", -8, 8), F("sky", 0, 100), F("xm"), F("ym")]))

    def same(a, b, c, d, e):
        J = jg.JacobianWCS
        w1, w2, w3 = J(a, b, c, d), J(a, b, c, d), J(a, b, c, e)
        A1, A2 = jg.AffineTransform(a, b, c, d, jg.PositionD(e, 1.0)), jg.AffineTransform(a, b, c, d, jg.PositionD(e, 2.0))
        P, Q, O = jg.PixelScale(a), jg.PixelScale(e), jg.OffsetWCS(a, jg.PositionD(b, c))
        cm = jg.wcs.compatible
        bb = lambda z: jnp.asarray(fork.unwrap(z) if isinstance(z, fork.Num) else z)
        eq = arr(a) == arr(e)
        return {"eq": bb(w1 == w2), "ne": bb(w1 == w3) == (arr(d) == arr(e)), "ne2": bb(w1 != w3) == (arr(d) != arr(e)), "compat": bb(cm(A1, A2)), "aff": ~bb(A1 == A2), "affjac": bb(cm(A1, w1)), "pix": bb(P == Q) == eq, "offpix": bb(cm(P, O)),
                "type": jnp.asarray((P == w1) is False), "cop": bb(A1.copy() == A1) & bb(P.copy() == P) & bb(O.copy() == O) & bb(w1.copy() == w1)}

    obs.append(Ob("equality", same, [PF(n, -3, 3) for n in "abcde"]))
    return obs


class TwoD(Quad):
    def _u(self, x, y, color=None):
        return x + self.p * x * y

    def _v(self, x, y, color=None):
        return self.r * y + self.q * x * y
