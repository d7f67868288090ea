from vlib.common import *
from vlib.probe import Probe, kpoly, poly

FUNCTIONS = ["reverse-mode derivatives (jax.grad, jax.vjp) of: xValue and kValue of Gaussian, Exponential, Moffat, Spergel, Box, Pixel, Sum, Convolution; GSObject.shear/rotate/expand/dilate/magnify/lens/shift/withFlux/transform; drawImage and drawKImage without pixel; Shear (every pair of conventions) and getMatrix; Jacobian, affine and shear WCS; Angle; CelestialCoord.deproject (Postel); interpolant kernels; Akima interpolation", "core.math.safe_sqrt, bessel.kv custom derivative, jnp.sinc"]
ASSUMPTIONS = [
    "first derivatives, reverse mode, double precision; sizes 0.2..5, fluxes -3..3, positions and frequencies within 5 of the centre",
    "the special points are exact: zero shear, zero radius, zero frequency, e, eta or g of zero, axis ratio one, tangent point; at the centre of a cusp (Exponential, Spergel nu=1/2) the derivative with respect to position is taken as zero, its mean over directions",
    "non-removable singularities (direction of a zero shear, largest and smallest scale of a conformal Jacobian, centre of Spergel with nu <= 0) are outside the property",
    "transformed profiles: a probe with free polynomial brightness; the oracle differentiates the formula brightness(J^-1 (x - offset))",
]


def obligations(tier):
    obs = []

    def ob(name, f, ins, **kw):
        kw.setdefault("validate", 0)
        kw.setdefault("eager", False)
        obs.append(Ob(name, f, ins, **kw))

    gs = jg.GSParams()
    arr = lambda v: jnp.asarray(v, float)
    S, FL, X, Y = F("s", 0.2, 5), F("fl", -3, 3), F("x", -5, 5), F("y", -5, 5)

    def grads(f, *a):
        v, back = jax.vjp(lambda *b: jnp.asarray(f(*b), float), *[arr(z) for z in a])
        return (v,) + back(jnp.ones_like(v))

    def both(tag, got, want, out, scale=1.0):
        for i, (g, w) in enumerate(zip(got, want)):
            if w is not None:
                out["%s%d" % (tag, i)] = (g * scale, w * scale)

    # ------------------------------------------------ real-space values
    PROF = {
        "gauss": lambda s, fl: jg.Gaussian(sigma=s, flux=fl),
        "exp": lambda s, fl: jg.Exponential(scale_radius=s, flux=fl),
        "moffat2.5": lambda s, fl: jg.Moffat(beta=2.5, scale_radius=s, flux=fl),
        "moffat3": lambda s, fl: jg.Moffat(beta=3.0, scale_radius=s, flux=fl),
        "spergel0.5": lambda s, fl: jg.Spergel(nu=0.5, scale_radius=s, flux=fl),
        "spergel1.5": lambda s, fl: jg.Spergel(nu=1.5, scale_radius=s, flux=fl),
        "box": lambda s, fl: jg.Box(s, 2 * s, flux=fl),
        "pixel": lambda s, fl: jg.Pixel(s, flux=fl),
    }

    def xform(n, s, fl, x, y, r):
        """value and its derivatives with respect to size, flux, x, y"""
        if n == "gauss":
            u = jnp.exp(-(x * x + y * y) / (2 * s * s)) / (2 * PI * s * s)
            return fl * u, fl * u * ((x * x + y * y) / s**3 - 2 / s), u, -fl * u * x / s**2, -fl * u * y / s**2
        if n in ("exp", "spergel0.5"):
            u = jnp.exp(-r / s) / (2 * PI * s * s)
            return fl * u, fl * u * (r / s**2 - 2 / s), u, -fl * u * x / (r * s), -fl * u * y / (r * s)
        if n == "spergel1.5":
            # z^1.5 K_1.5 = sqrt(pi/2) (1 + z) exp(-z); normalisation 1/(2 pi s^2 2^nu Gamma(nu+1)), (2^1.5 Gamma(2.5)) = sqrt(pi/2) * 3
            z = r / s
            e = jnp.exp(-z) / (6 * PI * s * s)
            u = (1 + z) * e
            return fl * u, fl * (z * z * e / s - 2 * u / s), u, -fl * e * x / s**2, -fl * e * y / s**2
        if n.startswith("moffat"):
            b = float(n[6:])
            q = 1 + (x * x + y * y) / s**2
            u = (b - 1) / (PI * s * s) * q ** (-b)
            return fl * u, fl * u * (-2 / s + 2 * b * (x * x + y * y) / s**3 / q), u, -fl * u * 2 * b * x / s**2 / q, -fl * u * 2 * b * y / s**2 / q
        if n in ("box", "pixel"):
            k = 2.0 if n == "box" else 1.0
            u = jnp.where((2 * jnp.abs(x) < s) & (2 * jnp.abs(y) < k * s), 1 / (k * s * s), 0.0)
            return fl * u, -2 * fl * u / s, u, 0.0, 0.0

    def xval(n, s, fl, r, t):
        # polar position with rational direction: x = r cos, y = r sin
        c, d = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        x, y = r * c, r * d
        got = grads(lambda s, fl, x, y: PROF[n](s, fl).xValue(x, y), s, fl, x, y)
        out = {}
        both("x", got, xform(n, s, fl, x, y, r), out)
        return out

    for n in PROF:
        ob("x-" + n, functools.partial(xval, n), [S, FL, F("r", 0.01, 0.5 if n.startswith("moffat") else 5), F("t", -3, 3)])

    def xzero(n, s, fl):
        got = grads(lambda s, fl, x, y: PROF[n](s, fl).xValue(x, y), s, fl, 0.0, 0.0)
        v = {"gauss": 1 / (2 * PI), "exp": 1 / (2 * PI), "moffat2.5": 1.5 / PI, "moffat3": 2 / PI, "spergel0.5": 1 / (2 * PI), "spergel1.5": 1 / (6 * PI), "box": 0.5, "pixel": 1.0}[n] / s**2
        out = {}
        both("x", got, (fl * v, -2 * fl * v / s, v, 0.0, 0.0), out)
        return out

    for n in PROF:
        ob("x0-" + n, functools.partial(xzero, n), [S, FL], validate=int(n in ("exp", "spergel1.5", "box")), thorough=n == "spergel0.5")

    # ------------------------------------------------ Fourier values
    def sinc(z):
        return jnp.sin(z) / z

    def kform(n, s, fl, x, y):
        k2 = x * x + y * y
        if n == "gauss":
            u = jnp.exp(-k2 * s * s / 2)
            return fl * u, -fl * u * k2 * s, u, -fl * u * x * s * s, -fl * u * y * s * s
        if n.startswith("spergel") or n == "exp":
            m = 1.5 if n == "exp" else 1 + float(n[7:])
            q = 1 + k2 * s * s
            u = q ** (-m)
            return fl * u, -2 * m * fl * u / q * k2 * s, u, -2 * m * fl * u / q * x * s * s, -2 * m * fl * u / q * y * s * s

    def kval(n, s, fl, x, y):
        got = grads(lambda s, fl, x, y: jnp.real(PROF[n](s, fl).kValue(x, y)), s, fl, x, y)
        out = {}
        both("k", got, kform(n, s, fl, x, y), out)
        return out

    for n in ("gauss", "exp", "spergel0.5", "spergel1.5"):
        ob("k-" + n, functools.partial(kval, n), [S, FL, X, Y])

    def kbox(n, s, fl, x, y):
        k = 2.0 if n == "box" else 1.0
        got = grads(lambda s, fl, x, y: jnp.real(PROF[n](s, fl).kValue(x, y)), s, fl, x, y)
        a, b = x * s / 2, k * y * s / 2
        sa, sb = jnp.sin(a) / a, jnp.sin(b) / b
        da, db = (jnp.cos(a) - sa) / a, (jnp.cos(b) - sb) / b
        want = (fl * sa * sb, fl * (da * sb * x / 2 + sa * db * k * y / 2), sa * sb, fl * da * sb * s / 2, fl * sa * db * k * s / 2)
        out = {}
        both("k", got, want, out, scale=a * a * b * b)
        return out

    for n in ("box", "pixel"):
        ob("k-" + n, functools.partial(kbox, n), [S, FL, F("x", 0.1, 5), F("y", 0.1, 5)])

    def kzero(n, s, fl):
        got = grads(lambda s, fl, x, y: jnp.real(PROF[n](s, fl).kValue(x, y)), s, fl, 0.0, 0.0)
        out = {}
        both("k", got, (fl, 0.0, 1.0, 0.0, 0.0), out)
        return out

    for n in PROF:
        if not n.startswith("moffat"):
            ob("k0-" + n, functools.partial(kzero, n), [S, FL])

    # (the Moffat transform is a 700-node table in k: fixed size and beta, free flux)
    def kzerom(beta, fl):
        got = grads(lambda fl, x, y: jnp.real(jg.Moffat(beta=beta, scale_radius=1.0, flux=fl).kValue(x, y)), fl, 0.0, 0.0)
        out = {}
        both("k", got, (None, None, 0.0, 0.0), out)
        return out

    for b_ in (2.5, 3.0):
        ob("k0-moffat%s" % b_, functools.partial(kzerom, b_), [FL], thorough=b_ != 2.5)

    def knu(nu, s, x, y):
        f = lambda nu: jnp.real(jg.Spergel(nu=nu, scale_radius=s).kValue(x, y))
        v, g = grads(f, nu)
        return {"v": (v, (1 + (x * x + y * y) * s * s) ** (-1.5)), "d": (g, -jnp.log(1 + (x * x + y * y) * s * s) * (1 + (x * x + y * y) * s * s) ** (-1.5))}

    ob("k-spergel-nu", functools.partial(knu, 0.5), [S, X, Y])

    def moffatbeta(s, x, y):
        v, g = grads(lambda b: jg.Moffat(beta=b, scale_radius=s).xValue(x, y), 3.0)
        q = 1 + (x * x + y * y) / s**2
        return {"v": (v, 2 / (PI * s * s) * q**-3.0), "d": (g, q**-3.0 / (PI * s * s) * (1 - 2 * jnp.log(q)))}

    ob("x-moffat-beta", moffatbeta, [S, F("x", -0.3, 0.3), F("y", -0.3, 0.3)])

    # ------------------------------------------------ compound profiles
    def comp(s, r, f, g, x, y):
        A = lambda s, f: jg.Gaussian(sigma=s, flux=f)
        B = lambda r, g: jg.Exponential(scale_radius=r, flux=g)
        out = {}
        q = (1 + (x * x + y * y) * r * r) ** -1.5
        e = jnp.exp(-(x * x + y * y) * s * s / 2)
        k2 = x * x + y * y
        got = grads(lambda s, r, f, g: jnp.real((A(s, f) + B(r, g)).kValue(x, y)), s, r, f, g)
        both("sum", got, (f * e + g * q, -f * e * k2 * s, -3 * g * q * k2 * r / (1 + k2 * r * r), e, q), out)
        got = grads(lambda s, r, f, g: jnp.real(jg.Convolve(A(s, f), B(r, g)).kValue(x, y)), s, r, f, g)
        both("conv", got, (f * e * g * q, -f * e * k2 * s * g * q, -3 * f * e * g * q * k2 * r / (1 + k2 * r * r), e * g * q, f * e * q), out)
        return out

    ob("compound", comp, [S, F("r", 0.2, 5), F("f", -3, 3), F("g", -3, 3), X, Y])

    # ------------------------------------------------ transformations of any profile
    CO = [F("c", -2, 2, shape=(4,))]

    def P(c):
        return Probe(c, jnp.zeros(3), 1.0)

    def xy(c, J, off, amp, x, y):
        d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        u, v = x - off[0], y - off[1]
        return amp * poly(c, (J[1][1] * u - J[0][1] * v) / d, (J[0][0] * v - J[1][0] * u) / d) / jnp.abs(d)

    def shm(a, b, m=1.0):
        w = m / jnp.sqrt(1 - a * a - b * b)
        return ((1 + a) * w, b * w), (b * w, (1 - a) * w)

    I2 = ((1.0, 0.0), (0.0, 1.0))
    Z = (0.0, 0.0)
    OPS = {
        "shear": ((F("p", -0.6, 0.6), F("q", -0.6, 0.6)), lambda o, p, q: o.shear(g1=p, g2=q), lambda p, q: (shm(p, q), Z, 1.0), (0.0, 0.0)),
        "lens": ((F("p", -0.6, 0.6), F("q", -0.6, 0.6), F("m", 0.3, 3)), lambda o, p, q, m: o.lens(p, q, m), lambda p, q, m: (shm(p, q, jnp.sqrt(m)), Z, m), (0.0, 0.0, 1.0)),
        "expand": ((F("p", 0.3, 3),), lambda o, p: o.expand(p), lambda p: (((p, 0.0), (0.0, p)), Z, p * p), (1.0,)),
        "dilate": ((F("p", 0.3, 3),), lambda o, p: o.dilate(p), lambda p: (((p, 0.0), (0.0, p)), Z, 1.0), (1.0,)),
        "magnify": ((F("p", 0.3, 3),), lambda o, p: o.magnify(p), lambda p: (((jnp.sqrt(p), 0.0), (0.0, jnp.sqrt(p))), Z, p), (1.0,)),
        "shift": ((F("p", -3, 3), F("q", -3, 3)), lambda o, p, q: o.shift(p, q), lambda p, q: (I2, (p, q), 1.0), (0.0, 0.0)),
        "flux": ((F("p", 0.3, 3),), lambda o, p: o.withScaledFlux(p), lambda p: (I2, Z, p), (1.0,)),
        "transform": ((F("p", 0.5, 3), F("q", -0.4, 0.4), F("m", -0.4, 0.4), F("n", 0.5, 3)), lambda o, p, q, m, n: o.transform(p, q, m, n), lambda p, q, m, n: (((p, q), (m, n)), Z, p * n - q * m), (1.0, 0.0, 0.0, 1.0)),
        "rotate": ((F("p", -3, 3),), lambda o, p: o.rotate(p * jg.radians), lambda p: (((jnp.cos(p), -jnp.sin(p)), (jnp.sin(p), jnp.cos(p))), Z, 1.0), (0.0,)),
    }

    def trans(op, special, c, x, y, **kw):
        ins, ap, fm, at = OPS[op]
        v = at if special else [kw[i.name] for i in ins]
        got = grads(lambda x, y, *a: ap(P(c), *a).xValue(x, y), x, y, *v)
        want = grads(lambda x, y, *a: xy(c, *fm(*a), x, y), x, y, *v)
        out = {}
        both("d", got, want, out)
        return out

    def shearflat(c, x, y):
        """first order in the shear, by hand: dI = -g1 (x Ix - y Iy) - g2 (y Ix + x Iy)"""
        got = grads(lambda a, b: P(c).shear(g1=a, g2=b).xValue(x, y), 0.0, 0.0)
        ix, iy = c[1] + c[3] * y, c[2] + c[3] * x
        lens = grads(lambda a, b, m: P(c).lens(a, b, m).xValue(x, y), 0.0, 0.0, 1.0)
        e1 = grads(lambda a, b: P(c).shear(e1=a, e2=b).xValue(x, y), 0.0, 0.0)
        et = grads(lambda a, b: P(c).shear(eta1=a, eta2=b).xValue(x, y), 0.0, 0.0)
        w = (poly(c, x, y), -(x * ix - y * iy), -(y * ix + x * iy))
        out = {}
        both("g", got, w, out)
        both("l", lens, w + (-(x * ix + y * iy) / 2,), out)
        both("e", e1, (w[0], w[1] / 2, w[2] / 2), out)
        both("n", et, (w[0], w[1] / 2, w[2] / 2), out)
        return out

    ob("shear-first-order", shearflat, CO + [X, Y])
    for q in (0.0, 0.25, -0.6):
        ob("t-shear-%g" % q, functools.partial(trans, "shear", False, q=q), CO + [X, Y, F("p", -0.6, 0.6)], thorough=q != 0.25)
        ob("t-shear'-%g" % q, functools.partial(trans, "shear", False, p=q), CO + [X, Y, F("q", -0.6, 0.6)], thorough=q != 0.25)
        ob("t-lens-%g" % q, functools.partial(trans, "lens", False, q=q), CO + [X, Y, F("p", -0.6, 0.6), F("m", 0.3, 3)], thorough=True)
    for op in OPS:
        if op not in ("shear", "lens"):
            ob("t-" + op, functools.partial(trans, op, False), CO + [X, Y] + list(OPS[op][0]))
        ob("t0-" + op, functools.partial(trans, op, True), CO + [X, Y], validate=int(op in ("shear", "lens", "rotate")))

    # ------------------------------------------------ drawn images
    def draw(kind, n, s, fl, dx, dy):
        def f(s, fl, dx, dy, a, b):
            o = PROF[n](s, fl)
            o = o.shear(g1=a, g2=b) if kind == "sheared" else o
            return o.shift(dx, dy).drawImage(nx=3, ny=3, scale=0.5, method="no_pixel", dtype=float).array

        v, back = jax.vjp(f, s, fl, dx, dy, arr(0.0), arr(0.0))
        out = {}
        for r, q in ((1, 1), (0, 2)):
            g = back(jnp.zeros((3, 3)).at[r, q].set(1.0))
            x, y = (q - 1) * 0.5 - dx, (r - 1) * 0.5 - dy
            w = xform(n, s, fl, x, y, None)
            out["v%d%d" % (r, q)] = (v[r, q], 0.25 * w[0])
            for i, z in enumerate((w[1], w[2], -w[3], -w[4])):
                out["g%d%d_%d" % (r, q, i)] = (g[i], 0.25 * z)
            if kind == "sheared":
                out["g%d%d_4" % (r, q)] = (g[4], -0.25 * (x * w[3] - y * w[4]))
                out["g%d%d_5" % (r, q)] = (g[5], -0.25 * (y * w[3] + x * w[4]))
        return out

    for n in ("gauss", "moffat3"):
        ob("draw-" + n, functools.partial(draw, "plain", n), [S, FL, F("dx", -1, 1), F("dy", -1, 1)])
        ob("draw-sheared-" + n, functools.partial(draw, "sheared", n), [S, FL, F("dx", -1, 1), F("dy", -1, 1)], thorough=n == "moffat3")

    def drawcen(n, s, fl):
        def f(s, fl, dx, dy, a, b):
            return PROF[n](s, fl).shear(g1=a, g2=b).shift(dx, dy).drawImage(nx=3, ny=3, scale=0.5, method="no_pixel", dtype=float).array

        z = arr(0.0)
        v, back = jax.vjp(f, s, fl, z, z, z, z)
        out = {}
        g = back(jnp.zeros((3, 3)).at[1, 1].set(1.0))
        w = 0.25 * {"exp": 1 / (2 * PI), "spergel1.5": 1 / (6 * PI), "gauss": 1 / (2 * PI), "spergel0.5": 1 / (2 * PI), "moffat2.5": 1.5 / PI}[n] / s**2
        for i, z in enumerate((-2 * fl * w / s, w, 0.0, 0.0, 0.0, 0.0)):
            out["c%d" % i] = (g[i], z)
        g = back(jnp.zeros((3, 3)).at[1, 2].set(1.0))
        w = xform(n, s, fl, 0.5, 0.0, 0.5)
        for i, z in enumerate((w[1], w[2], -w[3], 0.0, -0.5 * w[3], 0.0)):
            out["e%d" % i] = (g[i], 0.25 * z)
        return out

    for n in ("exp", "spergel1.5", "spergel0.5", "gauss", "moffat2.5"):
        ob("draw-centre-" + n, functools.partial(drawcen, n), [S, FL], thorough=n != "exp")

    def drawk(s, fl):
        def f(s, fl, dx):
            return jg.Gaussian(sigma=s, flux=fl).shift(dx, 0.0).drawKImage(nx=3, ny=3, scale=0.5).array

        v, back = jax.vjp(f, s, fl, arr(0.0))
        out = {}
        g = back(jnp.zeros((3, 3), complex).at[1, 2].set(1.0))
        h = back(jnp.zeros((3, 3), complex).at[1, 2].set(1j))
        e = jnp.exp(-0.125 * s * s)
        out["re"] = (jnp.stack(list(g)), jnp.stack([-fl * e * 0.25 * s, e, 0.0 * s]))
        out["im"] = (jnp.abs(h[2]), jnp.abs(fl) * e * 0.5)
        c = back(jnp.zeros((3, 3), complex).at[1, 1].set(1.0))
        out["zero"] = (jnp.stack(list(c)), jnp.stack([0.0 * s, 1.0 + 0.0 * s, 0.0 * s]))
        return out

    ob("draw-k", drawk, [S, FL])

    # ------------------------------------------------ shears
    KINDS = ("g", "e", "eta")
    SLOPE = {"g": 1.0, "e": 2.0, "eta": 2.0}  # d(kind)/dg at zero

    def sh0(z):
        out = {}
        for a in KINDS:
            for b in KINDS:
                for i in "12":
                    _, d1, d2 = grads(lambda p, q: getattr(jg.Shear(**{a + "1": p, a + "2": q}), b + i), z, z)
                    w = SLOPE[b] / SLOPE[a]
                    out["%s%s%s" % (a, b, i)] = (jnp.stack([d1, d2]), jnp.array([w, 0.0] if i == "1" else [0.0, w]))
            J = jax.jacrev(lambda p, q: jg.Shear(**{a + "1": p, a + "2": q}).getMatrix(), (0, 1))(z, z)
            w = 1 / SLOPE[a]
            out["m" + a] = (jnp.stack(J), w * jnp.array([[[1.0, 0.0], [0.0, -1.0]], [[0.0, 1.0], [1.0, 0.0]]]))
            _, d = grads(lambda p: jg.Shear(**{a: p, "beta": 0.0 * jg.radians}).g1, z)
            out["b" + a] = (d, w)
        _, d = grads(lambda q: jg.Shear(q=q, beta=0.0 * jg.radians).g1, 1.0 + z)
        out["q"] = (d, -0.5)
        return out

    ob("shear-zero", sh0, [F("z", 0, 0)], validate=1)

    def shg(g, t):
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        e = 2 * g / (1 + g * g)
        out = {}
        # radial and tangential derivative of the vector map e -> g
        de = (1 + g * g) ** 2 / (2 * (1 - g * g))
        J = [grads(lambda p, q: getattr(jg.Shear(e1=p, e2=q), k), e * c, e * s)[1:] for k in ("g1", "g2")]
        out["e-g"] = (jnp.stack([J[0][0] * c + J[0][1] * s, J[1][0] * c + J[1][1] * s]) * (1 - g * g), jnp.stack([c, s]) * de * (1 - g * g))
        out["e-gt"] = (jnp.stack([-J[0][0] * s + J[0][1] * c, -J[1][0] * s + J[1][1] * c]), jnp.stack([-s, c]) * (1 + g * g) / 2)
        K = [grads(lambda p, q: getattr(jg.Shear(g1=p, g2=q), k), g * c, g * s)[1:] for k in ("e1", "e2")]
        out["g-e"] = (jnp.stack([K[0][0] * c + K[0][1] * s, K[1][0] * c + K[1][1] * s]), jnp.stack([c, s]) * 2 * (1 - g * g) / (1 + g * g) ** 2)
        out["g-et"] = (jnp.stack([-K[0][0] * s + K[0][1] * c, -K[1][0] * s + K[1][1] * c]), jnp.stack([-s, c]) * 2 / (1 + g * g))
        return out

    ob("shear-e", shg, [F("g", 0.05, 0.9), F("t", -3, 3)])

    def sheta(g):
        # along axis 1: deta1/dg1 = 2/(1-g^2)
        _, d1, d2 = grads(lambda p, q: jg.Shear(g1=p, g2=q).eta1, g, 0.0)
        return {"1": (d1 * (1 - g * g), 2.0), "2": (d2, 0.0)}

    ob("shear-eta", sheta, [F("g", 0.05, 0.9)])

    def etash(n):
        _, d1, d2 = grads(lambda p, q: jg.Shear(eta1=p, eta2=q).g1, n, 0.0)
        th = jnp.tanh(n / 2)
        return {"1": (d1, (1 - th * th) / 2), "2": (d2, 0.0)}

    ob("shear-from-eta", etash, [F("n", 0.05, 3)])

    def shq(q):
        _, d = grads(lambda q: jg.Shear(q=q, beta=0.0 * jg.radians).g1, q)
        _, e = grads(lambda a: jg.Shear(g1=a, g2=0.0).q, (1 - q) / (1 + q))
        return {"d": (d * (1 + q) ** 2, -2.0), "e": (e, -((1 + q) ** 2) / 2)}

    ob("shear-q", shq, [F("q", 0.05, 0.99)])

    def smat(a, b):
        got = jax.jacrev(lambda a, b: jg.Shear(g1=a, g2=b).getMatrix(), (0, 1))(a, b)
        w2 = 1 - a * a - b * b
        w = jnp.sqrt(w2)
        A = jnp.array([[1 + a, b], [b, 1 - a]])
        return {"1": (got[0] * w * w2, jnp.array([[1.0, 0.0], [0.0, -1.0]]) * w2 + A * a), "2": (got[1] * w * w2, jnp.array([[0.0, 1.0], [1.0, 0.0]]) * w2 + A * b)}

    ob("shear-matrix", smat, [F("a", -0.6, 0.6), F("b", -0.6, 0.6)], assume=lambda a, b: 1 - a * a - b * b >= 0.2)

    # ------------------------------------------------ WCS
    def wcs(J, o, w, x, y):
        W = jg.AffineTransform(J[0], J[1], J[2], J[3], jg.PositionD(o[0], o[1]), jg.PositionD(w[0], w[1]))
        out = {}
        f = lambda x, y: (lambda p: jnp.stack([p.x, p.y]))(W.toWorld(jg.PositionD(x, y)))
        g = lambda x, y: (lambda p: jnp.stack([p.x, p.y]))(W.toImage(jg.PositionD(x, y)))
        A = jax.jacrev(f, (0, 1))(x, y)
        out["world"] = (jnp.stack(A), jnp.array([[J[0], J[2]], [J[1], J[3]]]))
        B = jax.jacrev(g, (0, 1))(x, y)
        det = J[0] * J[3] - J[1] * J[2]
        out["image"] = (jnp.stack(B) * det, jnp.array([[J[3], -J[2]], [-J[1], J[0]]]))
        # with respect to the parameters
        h = lambda a, b, c, d: (lambda p: p.x + 3 * p.y)(jg.AffineTransform(a, b, c, d, jg.PositionD(o[0], o[1]), jg.PositionD(w[0], w[1])).toWorld(jg.PositionD(x, y)))
        out["par"] = (jnp.stack(grads(h, *J)[1:]), jnp.stack([x - o[0], y - o[1], 3 * (x - o[0]), 3 * (y - o[1])]))
        k = lambda a, b: (lambda p: p.x + 3 * p.y)(jg.AffineTransform(J[0], J[1], J[2], J[3], jg.PositionD(a, b), jg.PositionD(b, a)).toWorld(jg.PositionD(x, y)))
        out["ori"] = (jnp.stack(grads(k, o[0], o[1])[1:]), jnp.stack([-J[0] - 3 * J[2] + 3, -J[1] - 3 * J[3] + 1]))
        l = lambda a: jg.JacobianWCS(a, J[1], J[2], J[3]).pixelArea()
        out["area"] = (grads(l, J[0])[1], J[3])
        return out

    ob("wcs", wcs, [F("J", -3, 3, (4,)), F("o", -9, 9, (2,)), F("w", -9, 9, (2,)), X, Y], assume=lambda J, **kw: J[0] * J[3] - J[1] * J[2] >= 0.1)

    def wcs2(s, g, x, y):
        W = lambda s, g: jg.ShearWCS(s, jg.Shear(g1=g, g2=0.0))
        out = {}
        for nm, a in (("z", 0.0), ("g", g)):
            f = lambda s, g: (lambda p: p.x + 3 * p.y)(W(s, g).toWorld(jg.PositionD(x, y)))
            d = grads(f, s, a)
            r = jnp.sqrt(1 - arr(a) * a)
            # world = s/sqrt(1-g^2) ((1-g) x, (1+g) y)
            out[nm + "s"] = (d[1] * r, (1 - a) * x + 3 * (1 + a) * y)
            out[nm + "g"] = (d[2] * r**3, s * ((a - 1) * x + 3 * (a + 1) * y))
        out["px"] = (grads(lambda s: jg.PixelScale(s).toWorld(jg.PositionD(x, y)).x, s)[1], x)
        out["area"] = (grads(lambda s: jg.PixelScale(s).pixelArea(), s)[1], 2 * s)
        return out

    ob("wcs-shear", wcs2, [S, F("g", -0.6, 0.6), X, Y])

    # ------------------------------------------------ angles, sky
    def ang(a, b):
        out = {}
        out["sin"] = (grads(lambda a: jg._Angle(a).sin(), a)[1], jnp.cos(a))
        out["cos"] = (grads(lambda a: jg._Angle(a).cos(), a)[1], -jnp.sin(a))
        out["tan"] = (grads(lambda a: jg._Angle(a).tan(), a)[1] * jnp.cos(a) ** 2, 1.0)
        out["deg"] = (grads(lambda b: (b * jg.degrees).rad, b)[1], PI / 180)
        out["wrap"] = (grads(lambda b: jg._Angle(b).wrap().rad, b)[1], 1.0)
        return out

    ob("angle", ang, [F("a", -1.5, 1.5), F("b", -9, 9)], assume=lambda a, b: jnp.cos(a) >= 0.01)

    def tangent(ra, dec):
        c = jg.celestial._CelestialCoord(jg._Angle(ra), jg._Angle(dec))
        out = {}
        for pr in ("gnomonic", "stereographic", "lambert", "postel"):
            f = lambda u, v: jnp.stack(c.deproject_rad(u, v, projection=pr))
            A = jax.jacrev(f, (0, 1))(arr(0.0), arr(0.0))
            out[pr] = (jnp.stack(A) * jnp.array([[1.0, 1.0]]) * jnp.stack([jnp.cos(dec), 1.0 + 0 * dec]), jnp.array([[-1.0, 0.0], [0.0, 1.0]]))
        return out

    ob("deproject-tangent", tangent, [F("ra", -3, 3), F("dec", -1.4, 1.4)], validate=1, assume=lambda ra, dec: jnp.cos(dec) >= 0.05)

    # ------------------------------------------------ interpolants
    def interp(x):
        out = {}
        d = lambda o, x: grads(lambda x: o.xval(x), x)[1]
        C, Q, L = jg.Cubic(), jg.Quintic(), jg.Linear()
        out["lin"] = (jnp.stack([d(L, x), d(L, -x), d(L, x + 1)]), jnp.array([-1.0, 1.0, 0.0]))
        out["c0"] = (jnp.stack([d(C, x), d(C, -x)]), jnp.stack([4.5 * x * x - 5 * x, 5 * x - 4.5 * x * x]))
        z = x + 1
        out["c1"] = (jnp.stack([d(C, z), d(C, -z)]), jnp.stack([-4 + 5 * z - 1.5 * z * z, 4 - 5 * z + 1.5 * z * z]))
        out["c2"] = (d(C, x + 2), 0.0)
        q = x * x * (-95.0 / 12 * 3 + x * (23.0 / 2 * 4 - x * 55.0 / 12 * 5))
        out["q0"] = (jnp.stack([d(Q, x), d(Q, -x)]), jnp.stack([q, -q]))
        return out

    ob("interpolants", interp, [F("x", 0.001, 0.999)])

    def interp0(z):
        out = {}
        for nm, o in (("cubic", jg.Cubic()), ("quintic", jg.Quintic())):
            out[nm] = (grads(lambda x: o.xval(x), z)[1], 0.0)
        for nm, o in (("near", jg.Nearest()), ("lin", jg.Linear())):
            out[nm + "k"] = (grads(lambda x: o.kval(x), z)[1], 0.0)
        return out

    ob("interpolants-zero", interp0, [F("z", 0, 0)], validate=1)

    def akima(x, y):
        from jax_galsim.core import interpolate as ci

        X = np.array([0.0, 1.0, 2.5, 3.0, 4.0, 6.0])
        co = ci.akima_interp_coeffs(X, y, use_jax=True)
        out = {}
        f = lambda t, fixed=False: ci.akima_interp(t, X, y, co)
        for i in range(5):
            h = X[i + 1] - X[i]
            t = X[i] + x * h
            out["d%d" % i] = (grads(f, t)[1], co[1][i] + 2 * co[2][i] * x * h + 3 * co[3][i] * (x * h) ** 2)
        return out

    ob("akima", akima, [F("x", 0.001, 0.999), F("y", -3, 3, (6,))])
    return obs
