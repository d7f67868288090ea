from vlib.common import *
from vlib import fork

FUNCTIONS = ["Image constructor (array, ncol/nrow, bounds, image, dtype)", "getValue/setValue/addValue/__getitem__/__setitem__/__call__",
             "subImage/setSubImage", "shift/setCenter/setOrigin/center/true_center/origin/outer_bounds", "fill/setZero/invertSelf/replaceNegative",
             "copy/copyFrom/resize/array setter", "get_pixel_centers", "real/imag/conjugate", "scale"]
ASSUMPTIONS = [
    "image shapes from 1x1 up to 4x3, image origins in [-50,50] (traced) or a fixed list (static)",
    "pixel values in [-100,100]; integer images hold exact integers",
]


def V(shape, nm="v", mk=F, lo=-100, hi=100):
    return mk(nm, lo, hi, shape=shape)


def arr(*x):
    return jnp.array([jnp.asarray(fork.unwrap(v)) for v in x])


def bnd(b):
    return arr(b.xmin, b.xmax, b.ymin, b.ymax)


def obligations(tier):
    obs = []
    for (ny, nx) in ((2, 3), (3, 2), (1, 1)):
        # traced origin and traced pixel position
        def rd(v, x0, y0, x, y, ny=ny, nx=nx):
            im = jg.Image(v, xmin=x0, ymin=y0)
            want = v[y - y0, x - x0]
            p = jg.PositionI(x, y)
            return {"getValue": (im.getValue(x, y), want), "item": (im[x, y], want), "call": (im(x, y), want), "pos": (im[p], want),
                    "callpos": (im(p), want), "_get": (im._getValue(x, y), want), "kw": (im(x=x, y=y), want)}

        def inb(v, x0, y0, x, y, ny=ny, nx=nx, **k):
            return jnp.array([x >= x0, x <= x0 + nx - 1, y >= y0, y <= y0 + ny - 1])

        pos = [I(n, -50, 50) for n in ("x0", "y0", "x", "y")]
        obs.append(Ob("read-%dx%d" % (ny, nx), rd, [V((ny, nx))] + pos, assume=inb, fork=True))

        def wr(v, x0, y0, x, y, z, ny=ny, nx=nx):
            def mk():
                return jg.Image(v, xmin=x0, ymin=y0)

            a, b, c, d, e, f = mk(), mk(), mk(), mk(), mk(), mk()
            a.setValue(x, y, z)
            b[x, y] = z
            c[jg.PositionI(x, y)] = z
            d.addValue(x, y, z)
            e._setValue(x, y, z)
            f._addValue(x, y, z)
            yy, xx = jnp.meshgrid(jnp.arange(ny), jnp.arange(nx), indexing="ij")
            hit = (yy == y - y0) & (xx == x - x0)
            s, ad = jnp.where(hit, z, v), jnp.where(hit, v + z, v)
            return {"set": (a.array, s), "item": (b.array, s), "pos": (c.array, s), "add": (d.array, ad), "_set": (e.array, s),
                    "_add": (f.array, ad), "bounds": (bnd(a.bounds), arr(x0, x0 + nx - 1, y0, y0 + ny - 1)), "readback": (a[x, y], z),
                    "addback": (d(x, y), v[y - y0, x - x0] + z)}

        obs.append(Ob("write-%dx%d" % (ny, nx), wr, [V((ny, nx))] + pos + [F("z", -100, 100)], assume=inb, fork=True))

        # reads outside are refused
        def out_(v, x0, y0, x, y, z, ny=ny, nx=nx):
            im = jg.Image(v, xmin=x0, ymin=y0)
            bad = 0
            for f in (lambda: im.getValue(x, y), lambda: im.setValue(x, y, z), lambda: im.addValue(x, y, z), lambda: im[jg.PositionI(x, y)]):
                try:
                    f()
                except Exception:
                    bad += 1
            return {"refused": jnp.asarray(bad == 4), "unchanged": (im.array, v)}

        obs.append(Ob("outside-%dx%d" % (ny, nx), out_, [V((ny, nx))] + pos + [F("z", -100, 100)],
                      assume=lambda v, x0, y0, x, y, z, ny=ny, nx=nx: (x < x0) | (x > x0 + nx - 1) | (y < y0) | (y > y0 + ny - 1), fork=True))

    # sub-images: traced origins, static sizes
    for (ny, nx), (sy, sx) in (((3, 4), (2, 2)), ((3, 3), (1, 3)), ((2, 3), (2, 3)), ((4, 3), (3, 1))):
        def sub(v, x0, y0, ox, oy, w, ny=ny, nx=nx, sy=sy, sx=sx):
            im = jg.Image(v, bounds=jg.BoundsI(xmin=x0, deltax=nx, ymin=y0, deltay=ny), scale=0.3)
            b = jg.BoundsI(xmin=x0 + ox, deltax=sx, ymin=y0 + oy, deltay=sy)
            s, s2 = im.subImage(b), im[b]
            want = jnp.array([[v[oy + j, ox + i] for i in range(sx)] for j in range(sy)])
            im2 = jg.Image(v, xmin=x0, ymin=y0)
            rhs = jg.Image(w, xmin=5, ymin=-7)
            im2.setSubImage(b, rhs)
            im3 = jg.Image(v, xmin=x0, ymin=y0)
            im3[b] = rhs
            J, K = jnp.meshgrid(jnp.arange(ny), jnp.arange(nx), indexing="ij")
            ins = (J >= oy) & (J < oy + sy) & (K >= ox) & (K < ox + sx)
            wp = jnp.where(ins, w[jnp.clip(J - oy, 0, sy - 1), jnp.clip(K - ox, 0, sx - 1)], v)
            return {"sub": (s.array, want), "item": (s2.array, want), "b": (bnd(s.bounds), arr(x0 + ox, x0 + ox + sx - 1, y0 + oy, y0 + oy + sy - 1)),
                    "set": (im2.array, wp), "setitem": (im3.array, wp), "scale": (jnp.asarray(s.scale), jnp.asarray(0.3)), "parent": (im.array, v)}

        obs.append(Ob("sub-%dx%d-%dx%d" % (ny, nx, sy, sx), sub, [V((ny, nx)), I("x0", -50, 50), I("y0", -50, 50), I("ox", 0, nx - sx), I("oy", 0, ny - sy), V((sy, sx), "w")]))

    # static (Python int) bounds: fixed lists of boxes
    def static(v, w):
        out = {}
        for (x0, y0) in ((1, 1), (-2, 5), (0, 0)):
            im = jg.Image(v, xmin=x0, ymin=y0)
            for (a, b, c, d) in ((0, 3, 0, 2), (1, 2, 1, 2), (3, 3, 0, 1), (0, 0, 2, 2), (2, 3, 1, 2)):
                bb = jg.BoundsI(x0 + a, x0 + b, y0 + c, y0 + d)
                s = im[bb]
                k = "%d,%d/%d%d%d%d" % (x0, y0, a, b, c, d)
                out[k] = (s.array, v[c : d + 1, a : b + 1])
                out[k + "b"] = (bnd(s.bounds), arr(x0 + a, x0 + b, y0 + c, y0 + d))
                im2 = jg.Image(v, xmin=x0, ymin=y0)
                im2[bb] = jg.Image(w[: d - c + 1, : b - a + 1])
                out[k + "set"] = (im2.array, v.at[c : d + 1, a : b + 1].set(w[: d - c + 1, : b - a + 1]))
                im2[bb].fill(3.0)
            for x in range(x0, x0 + 4):
                for y in range(y0, y0 + 3):
                    out["px%d,%d/%d,%d" % (x0, y0, x, y)] = (im[x, y], v[y - y0, x - x0])
        return out

    obs.append(Ob("static-sub", static, [V((3, 4)), V((3, 4), "w")]))

    def static_refuse(v):
        im = jg.Image(v)
        n = 0
        for bb in (jg.BoundsI(0, 2, 1, 2), jg.BoundsI(1, 5, 1, 2), jg.BoundsI(1, 2, 0, 2), jg.BoundsI(1, 2, 2, 4)):
            for f in (lambda: im[bb], lambda: im.setSubImage(bb, jg.Image(bb))):
                try:
                    f()
                except jg.GalSimBoundsError:
                    n += 1
        try:
            im.setSubImage(jg.BoundsI(1, 2, 1, 2), jg.Image(v))
        except jg.GalSimIncompatibleValuesError:
            n += 1
        try:
            im.copyFrom(jg.Image(v[:2]))
        except jg.GalSimIncompatibleValuesError:
            n += 1
        c = jg.Image(v, make_const=True)
        for f in (lambda: c.setValue(1, 1, 2.0), lambda: c.fill(1.0), lambda: c.setZero(), lambda: c.invertSelf(), lambda: c.addValue(1, 1, 2.0),
                  lambda: c.copyFrom(jg.Image(v)), lambda: c.resize(jg.BoundsI(1, 2, 1, 2)), lambda: c.setSubImage(jg.BoundsI(1, 4, 1, 3), jg.Image(v)),
                  lambda: c.replaceNegative(0.0)):
            try:
                f()
            except jg.GalSimImmutableError:
                n += 1
        return {"n": jnp.asarray(n == 19), "same": (c.array, v), "im": (im.array, v)}

    obs.append(Ob("refusals", static_refuse, [V((3, 4))]))

    # moving: only coordinates change
    for (ny, nx) in ((2, 3), (3, 4), (1, 2)):
        def mv(v, x0, y0, dx, dy, s, ny=ny, nx=nx):
            w = jg.AffineTransform(s, 0.1, -0.2, s, origin=jg.PositionD(0.3, 0.4), world_origin=jg.PositionD(2.0, -1.0))
            out = {}

            def chk(tag, im, ex, ey):
                out[tag + ".arr"] = (im.array, v)
                out[tag + ".b"] = (bnd(im.bounds), arr(ex, ex + nx - 1, ey, ey + ny - 1))
                # the world coordinate of each pixel is unchanged
                p = im.wcs.toWorld(jg.PositionD(ex + 0.0, ey + 1.0))
                q = w.toWorld(jg.PositionD(x0 + 0.0, y0 + 1.0))
                out[tag + ".wcs"] = (arr(p.x, p.y), arr(q.x, q.y))

            def mk():
                return jg.Image(v, xmin=x0, ymin=y0, wcs=w)

            a = mk()
            a.shift(dx, dy)
            chk("shift", a, x0 + dx, y0 + dy)
            a = mk()
            a.shift(jg.PositionI(dx, dy))
            chk("shiftpos", a, x0 + dx, y0 + dy)
            a = mk()
            a.setOrigin(dx, dy)
            chk("setOrigin", a, dx, dy)
            a = mk()
            a.setCenter(dx, dy)
            chk("setCenter", a, dx - nx // 2, dy - ny // 2)
            c = mk().copy(origin=jg.PositionI(dx, dy))
            chk("copyorigin", c, dx, dy)
            c = mk().copy(center=jg.PositionI(dx, dy))
            chk("copycenter", c, dx - nx // 2, dy - ny // 2)
            im = mk()
            c, tc, o, ob = im.center, im.true_center, im.origin, im.outer_bounds
            out["center"] = (arr(c.x, c.y), arr(x0 + nx // 2, y0 + ny // 2))
            out["tc"] = (arr(tc.x, tc.y), arr(x0 + (nx - 1) / 2, y0 + (ny - 1) / 2))
            out["origin"] = (arr(o.x, o.y), arr(x0, y0))
            out["outer"] = (bnd(ob), arr(x0 - 0.5, x0 + nx - 0.5, y0 - 0.5, y0 + ny - 0.5))
            out["xminmax"] = (arr(im.xmin, im.xmax, im.ymin, im.ymax), arr(x0, x0 + nx - 1, y0, y0 + ny - 1))
            px, py = im.get_pixel_centers()
            out["pxc"] = (px, jnp.broadcast_to(x0 + jnp.arange(nx) * 1.0, (ny, nx)))
            out["pyc"] = (py, jnp.broadcast_to((y0 + jnp.arange(ny) * 1.0)[:, None], (ny, nx)))
            return out

        obs.append(Ob("move-%dx%d" % (ny, nx), mv, [V((ny, nx))] + [I(n, -50, 50) for n in ("x0", "y0", "dx", "dy")] + [F("s", 0.2, 2)]))

    # whole-image operations
    def whole(v, w, z, x0):
        out = {}
        a = jg.Image(v, xmin=x0)
        a.fill(z)
        out["fill"] = (a.array, jnp.full(v.shape, z))
        a.setZero()
        out["zero"] = (a.array, jnp.zeros(v.shape))
        a = jg.Image(v)
        a.replaceNegative(z)
        out["neg"] = (a.array, jnp.where(v < 0, z, v))
        a = jg.Image(v, xmin=x0)
        a.copyFrom(jg.Image(w))
        out["copyFrom"] = (a.array, w)
        out["copyFromb"] = (bnd(a.bounds), arr(x0, x0 + 2, 1, 2))
        a = jg.Image(v)
        c = a.copy()
        c.fill(z)
        out["copyindep"] = (a.array, v)
        c2 = a.copy()
        a += 1.0
        out["copyindep2"] = (c2.array, v)
        a = jg.Image(v)
        a.array = w
        out["arrset"] = (a.array, w)
        a = jg.Image(v, xmin=x0)
        a.resize(jg.BoundsI(2, 5, -1, 0))
        out["resize"] = (a.array, jnp.zeros((2, 4)))
        out["resizeb"] = (bnd(a.bounds), arr(2, 5, -1, 0))
        i2 = jg.Image(jg.Image(v, xmin=x0, scale=0.7))
        out["fromimage"] = (i2.array, v)
        out["fromimageb"] = (bnd(i2.bounds), arr(x0, x0 + 2, 1, 2))
        out["fromimages"] = (jnp.asarray(i2.scale), jnp.asarray(0.7))
        out["kwarray"] = (jg.Image(array=v, xmin=x0).array, v)
        out["kwimage"] = (jg.Image(image=jg.Image(v)).array, v)
        out["nrow"] = jnp.asarray((i2.nrow == 2) & (i2.ncol == 3))
        out["ImageD"] = (jg.ImageD(v).array, v)
        return out

    obs.append(Ob("whole", whole, [V((2, 3)), V((2, 3), "w"), F("z", -10, 10), I("x0", -9, 9)],))

    def ctor(v, w, z):
        out = {}
        e = jg.Image(4, 2, init_value=z, dtype=float)
        out["init"] = (e.array, jnp.full((2, 4), z))
        out["initb"] = (bnd(e.bounds), arr(1, 4, 1, 2))
        e = jg.Image(jg.BoundsI(-1, 1, 3, 6), init_value=z, dtype=float)
        out["initb2"] = (e.array, jnp.full((4, 3), z))
        out["eq"] = jnp.asarray(jg.Image(v) == jg.Image(v.copy()))
        out["ne"] = jnp.asarray(jg.Image(v) == jg.Image(w)) == jnp.all(v == w)
        out["eqb"] = jnp.asarray(jg.Image(v, xmin=2) != jg.Image(v)) & jnp.asarray(jg.Image(v, scale=2.0) != jg.Image(v, scale=1.0))
        return out

    obs.append(Ob("ctor", ctor, [V((1, 2)), V((1, 2), "w"), F("z", -10, 10)], fork=True))

    def inv(v):
        a = jg.Image(v)
        a.invertSelf()
        return {"inv": (a.array * v, jnp.where(v == 0, 0.0, 1.0)), "zero": (jnp.where(v == 0, a.array, 0.0), jnp.zeros(v.shape))}

    obs.append(Ob("invertSelf", inv, [V((1, 2))]))

    def casts(v, w, k):
        out = {}
        for nm, dt in (("I", jnp.int32), ("S", jnp.int16)):
            r = jnp.round(v)
            out["ctor" + nm] = (jg.Image(v, dtype=dt).array * 1.0, r)
            out["img" + nm] = (jg.Image(jg.Image(v), dtype=dt).array * 1.0, r)
            out["copy" + nm] = (jg.Image(v).copy(dtype=dt).array * 1.0, r)
            a = jg.Image(k, dtype=dt)
            a.copyFrom(jg.Image(v))
            out["cf" + nm] = (a.array * 1.0, r)
            a = jg.Image(k, dtype=dt)
            a.array = v
            out["as" + nm] = (a.array * 1.0, r)
            a = jg.Image(k, dtype=dt)
            a[jg.BoundsI(2, 2, 1, 1)] = jg.Image(v[:, :1])
            out["ss" + nm] = (a.array * 1.0, (k * 1.0).at[0, 1].set(r[0, 0]))
            out["dt" + nm] = jnp.asarray((jg.Image(v, dtype=dt).dtype == dt) and (a.array.dtype == dt) and a.isinteger and not a.iscomplex)
        out["ImageI"] = (jg.ImageI(v).array * 1.0, jnp.round(v))
        out["ImageS"] = (jg.ImageS(v).array * 1.0, jnp.round(v))
        out["I2D"] = (jg.ImageD(jg.ImageI(k)).array, k * 1.0)
        return out

    obs.append(Ob("casts", casts, [V((1, 2)), V((1, 2), "w"), V((1, 2), "k", I)]))

    def cplx(z, x0):
        im = jg.Image(z, xmin=x0, scale=0.5)
        c = im.conjugate
        return {"re": (im.real.array, z.real), "im": (im.imag.array, z.imag), "conj": (c.array, jnp.conj(z)), "b": (bnd(c.bounds), bnd(im.bounds)),
                "br": (bnd(im.real.bounds), bnd(im.bounds)), "bi": (bnd(im.imag.bounds), bnd(im.bounds)), "isc": jnp.asarray(im.iscomplex and not im.real.iscomplex)}

    obs.append(Ob("complex", cplx, [Cx("z", (2, 2), -9, 9), I("x0", -9, 9)]))

    def undef():
        n = 0
        u = jg.Image()
        for f in (lambda: u.getValue(1, 1), lambda: u.setValue(1, 1, 1.0), lambda: u.fill(1.0), lambda: u[jg.BoundsI(1, 1, 1, 1)], lambda: u.invertSelf()):
            try:
                f()
            except jg.GalSimUndefinedBoundsError:
                n += 1
        return {"n": jnp.asarray(n == 5)}

    obs.append(Ob("undefined", undef, []))
    return obs
