import operator as op

from vlib.common import *

FUNCTIONS = ["Image_add/iadd/sub/rsub/isub/mul/imul/div/rdiv/idiv", "Image_floordiv/rfloordiv/ifloordiv/mod/rmod/imod", "Image_pow/ipow/neg",
             "Image_and/iand/xor/ixor/or/ior", "check_image_consistency", "_safe_cast"]
ASSUMPTIONS = [
    "1x2 and 2x2 images, pixel values in [-100,100] (divisors away from zero by 1/100), int32 values without overflow",
    "bitwise operations on integers are the machine operation applied pixel by pixel (uninterpreted in the solver)",
]
SH = (1, 2)


def V(nm, mk=F, lo=-100, hi=100, sh=SH):
    return mk(nm, lo, hi, shape=sh)


def bnd(b):
    return jnp.array([b.xmin, b.xmax, b.ymin, b.ymax])


def rnd(x):
    return jnp.round(x)


BIN = {"add": op.add, "sub": op.sub, "mul": op.mul, "div": op.truediv}
IBIN = {"add": op.iadd, "sub": op.isub, "mul": op.imul, "div": op.itruediv}


def nz(x, e=0.01):
    return jnp.abs(x) >= e


def obligations(tier):
    obs = []
    kinds = {"D": jnp.float64, "F": jnp.float32, "C": jnp.complex128}
    for o in ("add", "sub", "mul", "div"):
        def fl(v, w, z, x0, o=o):
            f, g = BIN[o], IBIN[o]
            out = {}
            im, jm = jg.Image(v, xmin=x0, ymin=-4, scale=0.3), jg.Image(w, xmin=7)
            r = f(im, jm)
            out["ii"] = (r.array, f(v, w))
            out["ii.b"] = (bnd(r.bounds), bnd(im.bounds))
            out["ii.s"] = (jnp.asarray(r.scale), jnp.asarray(0.3))
            out["left"] = (im.array, v)
            out["right"] = (jm.array, w)
            for nm, s in (("z", z), ("2", 2), ("-1.5", -1.5)):
                r = f(im, s)
                out["is" + nm] = (r.array, f(v, s))
                out["is" + nm + ".b"] = (bnd(r.bounds), bnd(im.bounds))
                if nm == "z":  # jax scalars on the left would broadcast over the image object
                    continue
                out["si" + nm] = (f(s, jm).array, f(s, w))
                out["si" + nm + "b"] = (bnd(f(s, im).bounds) if o != "div" else bnd(im.bounds), bnd(im.bounds))
            for nm, s, t_ in (("j", jm, w), ("z", z, z), ("2", 2, 2), ("f", 0.5, 0.5)):
                k = jg.Image(v, xmin=x0, ymin=-4, scale=0.3)
                k2 = g(k, s)
                out["ip" + nm] = (k.array, f(v, t_))
                out["ip" + nm + "r"] = (k2.array, f(v, t_))
                out["ip" + nm + "b"] = (bnd(k.bounds), bnd(im.bounds))
                out["ip" + nm + "t"] = jnp.asarray((k.dtype == jnp.float64) and (k.array.dtype == jnp.float64) and (k2 is k))
            out["right2"] = (jm.array, w)
            return out

        obs.append(Ob("float-" + o, fl, [V("v"), V("w"), F("z", -50, 50), I("x0", -9, 9)],
                      assume=lambda v, w, z, x0: jnp.array([nz(w).all(), nz(z)])))

        def ints(k, m, w, z, o=o):
            f, g = BIN[o], IBIN[o]
            out = {}
            a, b = jg.ImageI(k), jg.ImageI(m)
            r = f(a, b)
            out["ii"] = (r.array * 1.0, f(k, m) * 1.0)
            if o != "div":
                out["ii.t"] = jnp.asarray(r.isinteger)
            for nm, s, t_ in (("int image", b, m), ("int16 image", jg.ImageS(m), m), ("double image", jg.ImageD(w), w), ("int", 3, 3), ("float", 2.5, 2.5), ("z", z, z)):
                c = jg.ImageI(k)
                g(c, s)
                out["ip " + nm] = (c.array * 1.0, rnd(f(k * 1.0, t_)))
                out["ip " + nm + " dtype"] = jnp.asarray((c.array.dtype == jnp.int32) and (c.dtype == jnp.int32))
            c = f(a, 2.5)
            out["float result"] = (c.array, f(k * 1.0, 2.5))
            d = jg.ImageD(w)
            g(d, b)
            out["D+=I"] = (d.array, f(w, m * 1.0))
            out["D op I"] = (f(jg.ImageD(w), b).array, f(w, m * 1.0))
            return out

        obs.append(Ob("int-" + o, ints, [V("k", I, sh=(1, 1)), V("m", I, sh=(1, 1)), V("w", sh=(1, 1)), F("z", -9, 9)],
                      assume=lambda k, m, w, z: jnp.array([(m != 0).all(), nz(z, 0.25), nz(w, 0.25).all()])))

        def other(z, y, s, o=o):
            f, g = BIN[o], IBIN[o]
            out = {}
            a, b = jg.Image(z), jg.Image(y)
            out["cc"] = (f(a, b).array, f(z, y))
            c = jg.Image(z)
            g(c, b)
            out["ip"] = (c.array, f(z, y))
            c = jg.Image(z)
            g(c, s)
            out["ips"] = (c.array, f(z, s))
            out["cs"] = (f(a, 2.0).array, f(z, 2.0))
            e = jg.ImageF(z.real)
            g(e, 2.0)
            out["F"] = (e.array * 1.0, f(z.real, 2.0))
            out["Ft"] = jnp.asarray(e.array.dtype == jnp.float32)
            return out

        obs.append(Ob("complex-" + o, other, [Cx("z", (1, 1), -9, 9), Cx("y", (1, 1), 0.1, 9), F("s", 0.1, 9)]))

    def divmod_(k, m):
        out = {}
        a, b = jg.ImageI(k), jg.ImageI(m)
        for nm, f, g in (("floordiv", op.floordiv, op.ifloordiv), ("mod", op.mod, op.imod)):
            out[nm] = (f(a, b).array * 1.0, (jnp.floor(k / m) if nm == "floordiv" else k - m * jnp.floor(k / m)))
            out[nm + "3"] = (f(a, 3).array * 1.0, (jnp.floor(k / 3) if nm == "floordiv" else k - 3 * jnp.floor(k / 3)))
            out[nm + "r"] = (f(7, b).array * 1.0, (jnp.floor(7 / m) if nm == "floordiv" else 7 - m * jnp.floor(7 / m)))
            c = jg.ImageI(k)
            g(c, b)
            out["i" + nm] = (c.array, f(a, b).array)
            c = jg.ImageI(k)
            g(c, -4)
            out["i" + nm + "-4"] = (c.array * 1.0, (jnp.floor(k / -4) if nm == "floordiv" else k + 4 * jnp.floor(k / -4)))
            c = jg.ImageI(k)
            g(c, jg.ImageS(m))
            out["i" + nm + "S"] = (c.array, f(a, b).array)
            out["t" + nm] = jnp.asarray(c.array.dtype == jnp.int32)
        out["a"] = (a.array, k)
        return out

    obs.append(Ob("int-divmod", divmod_, [Inp("k", "i", (1, 1), -20, 20, jnp.int32), Inp("m", "i", (1, 1), -20, 20, jnp.int32)], assume=lambda k, m: (m != 0).all()))

    def bits(k, m):
        out = {}
        a, b = jg.ImageI(k), jg.ImageI(m)
        for nm, f, g in (("and", op.and_, op.iand), ("xor", op.xor, op.ixor), ("or", op.or_, op.ior)):
            out[nm] = (f(a, b).array, f(k, m))
            out[nm + "3"] = (f(a, 3).array, f(k, jnp.int32(3)))
            out[nm + "r"] = (f(5, b).array, f(m, jnp.int32(5)))
            c = jg.ImageI(k, xmin=4)
            g(c, b)
            out["i" + nm] = (c.array, f(k, m))
            g(c, 6)
            out["i" + nm + "6"] = (c.array, f(f(k, m), jnp.int32(6)))
            out["i" + nm + "b"] = (bnd(c.bounds), jnp.array([4, 5, 1, 1]))
        out["a"] = (a.array, k)
        return out

    obs.append(Ob("int-bits", bits, [Inp("k", "i", SH, -20, 20, jnp.int32), Inp("m", "i", SH, -20, 20, jnp.int32)]))

    def power(v, k, x0):
        out = {}
        a = jg.Image(v, xmin=x0, scale=0.2)
        for p in (2, 3, -1, 0.5, 1.7):
            out["p%s" % p] = ((a**p).array, v**p)
            c = jg.Image(v, xmin=x0)
            c **= p
            out["ip%s" % p] = (c.array, v**p)
            out["b%s" % p] = (bnd((a**p).bounds), bnd(a.bounds))
        i = jg.ImageI(k)
        out["int2"] = ((i**2).array * 1.0, k**2 * 1.0)
        c = jg.ImageI(k)
        c **= 3
        out["iint3"] = (c.array * 1.0, k**3 * 1.0)
        c = jg.ImageI(k)
        c **= 0.5
        out["iint.5"] = (c.array * 1.0, rnd(jnp.sqrt(k * 1.0)))
        n = -a
        out["neg"] = (n.array, -v)
        out["negb"] = (bnd(n.bounds), bnd(a.bounds))
        out["negi"] = ((-i).array, -k)
        out["a"] = (a.array, v)
        return out

    obs.append(Ob("power", power, [V("v", lo=0.1, hi=20), V("k", I, 0, 20), I("x0", -9, 9)], rtol=1e-5, atol=1e-6))

    def refuse(v, k):
        n = 0
        a, b = jg.Image(v), jg.Image(v.reshape(2, 1))
        i = jg.ImageI(k)
        for f in (op.add, op.sub, op.mul, op.truediv, op.iadd, op.isub, op.imul, op.itruediv):
            try:
                f(jg.Image(v), b)
            except jg.GalSimIncompatibleValuesError:
                n += 1
        for f in (op.floordiv, op.mod, op.and_, op.or_, op.xor, op.ifloordiv, op.imod, op.iand, op.ior, op.ixor):
            try:
                f(jg.ImageI(k), jg.ImageI(k.reshape(2, 1)))
            except jg.GalSimIncompatibleValuesError:
                n += 1
            try:
                f(jg.Image(v), jg.Image(v))
            except jg.GalSimValueError:
                n += 1
            try:
                f(jg.ImageI(k), jg.Image(v))
            except jg.GalSimValueError:
                n += 1
        return {"n": jnp.asarray(n == 38), "a": (a.array, v)}

    obs.append(Ob("refusals", refuse, [V("v"), V("k", I)]))
    return obs
