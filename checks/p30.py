import importlib
from unittest import mock

from vlib.common import *
from jax_galsim import utilities as ju
from jax_galsim.core import integrate as cint
from jax_galsim.core import math as cmath_
from jax_galsim.core import utils as cu

bes = importlib.import_module("jax_galsim.bessel")

FUNCTIONS = ["core.utils.bisect_for_root, is_equal_with_arrays", "core.integrate: abs_weights, ClenshawCurtisQuad, quad_integral", "core.math.safe_sqrt", "utilities: horner, horner2d, unweighted_moments, unweighted_shape, g1g2_to_e1e2, parse_pos_args", "bessel: kv and its derivative rule, j0, si (|x| <= 4)"]
ASSUMPTIONS = [
    "bisection: every function on a bracket of 8 or 16 steps (a table of free values), free linear and cubic functions on free brackets for up to 4 steps, and the full default number of steps for functions whose root is at an end of a free bracket",
    "quadrature orders 1 to 8 (3 to 17 nodes), all polynomials of the supported degree with free coefficients, free interval, one or two intervals",
    "polynomials of up to 5 coefficients, 3x3 coefficient tables",
    "K_nu: half-integer orders up to 6.5 for free x > 2 (the continued fraction ends there), order recurrence for free integer offset orders with the two starting values free, power series for the first 8 terms at orders 0 and free |u| < 1/2, Olver's expansion at free argument; j0 for |x| <= 4 and si for |x| <= 4 against the Taylor series; asymptotic ranges of si and j0 and the stopping rules of the series are not decided",
]


def cu_niter(n):
    return dict(niter=n)


class FakeLax:
    """jax.lax with while_loop replaced by exactly n steps"""

    def __init__(self, n):
        self.n = n

    def __getattr__(self, k):
        return getattr(jax.lax, k)


def obligations(tier):
    obs = []

    def ob(name, f, ins, **kw):
        kw.setdefault("validate", 1)
        kw.setdefault("eager", False)
        obs.append(Ob(name, f, ins, **kw))

    P = jax.tree_util.Partial
    # ------------------------------------------------------------- bisection
    def tab(n, v):
        # any function: its values at the 2^n + 1 points bisection can visit
        f = P(lambda v, x: v[jnp.asarray(jnp.round(x), int)], v)
        r = cu.bisect_for_root(f, 0.0, float(2**n), niter=n)
        k = jnp.asarray(jnp.round(r), int)
        return {"point": (r, jnp.asarray(k, float)), "range": (k >= 1) & (k <= 2**n), "sign": v[k - 1] * v[k] <= 0}

    for n in (2, 3, 4):
        ob("bisect-any-%d" % n, functools.partial(tab, n), [F("v", -1, 1, (2**n + 1,))], assume=lambda v, n=n: (v[0] * v[2**n] <= 0) & jnp.all(v[1:-1] != 0), thorough=n > 3)
        ob("bisect-zero-%d" % n, functools.partial(tab, n), [F("v", -1, 1, (2**n + 1,))], assume=lambda v, n=n: (v[0] * v[2**n] <= 0), thorough=n > 2)

    def lin(n, lo, w, fr, s):
        r0 = lo + fr * w
        f = P(lambda r0, s, x: s * (x - r0), r0, s)
        r = cu.bisect_for_root(f, lo, lo + w, niter=n)
        return {"above": r >= r0 - 1e-9, "near": r <= r0 + w / 2**n + 1e-9}

    for n in (1, 3):
        ob("bisect-linear-%d" % n, functools.partial(lin, n), [F("lo", -50, 50), F("w", 0.1, 50), F("fr", 0, 1), F("s", -3, 3)], assume=lambda lo, w, fr, s: jnp.abs(s) > 0.1)

    def cubic(lo, w, c):
        g = lambda x: c[0] + c[1] * x + c[2] * x * x + c[3] * x**3
        f = P(lambda lo, w, c, x: c[0] + c[1] * ((x - lo) / w) + c[2] * ((x - lo) / w) ** 2 + c[3] * ((x - lo) / w) ** 3, lo, w, c)
        u = (cu.bisect_for_root(f, lo, lo + w, niter=2) - lo) / w
        return {"grid": (u - 0.25) * (u - 0.5) * (u - 0.75) * (u - 1) <= 1e-9, "grid2": -(u - 0.25) * (u - 0.5) * (u - 0.75) * (u - 1) <= 1e-9, "sign": g(u - 0.25) * g(u) <= 1e-6}

    ob("bisect-cubic", cubic, [F("lo", -5, 5), F("w", 0.1, 5), F("c", -3, 3, (4,))], assume=lambda lo, w, c: c[0] * (c[0] + c[1] + c[2] + c[3]) < 0, thorough=True)

    def full(lo, w):
        a = cu.bisect_for_root(P(lambda lo, x: x - lo, lo), lo, lo + w)
        b = cu.bisect_for_root(P(lambda hi, x: hi - x, lo + w), lo, lo + w)
        return {"width": jnp.abs(a - lo) <= w * 2.0**-50, "side": a >= lo, "high": (b, lo + w)}

    ob("bisect-default", full, [F("lo", -50, 50), F("w", 0.1, 50)])

    def flux(fr, z):
        """the way Spergel uses it: decreasing or increasing function on a numeric bracket"""
        r = cu.bisect_for_root(P(lambda z, x: x * x - z * z, z), 0.0, 40.0, niter=5)
        return {"above": r >= z - 1e-9, "near": r <= z + 40.0 / 32 + 1e-9}

    ob("bisect-square", flux, [F("fr", 0, 1), F("z", 0.1, 40)])

    # ------------------------------------------------------------- quadrature
    def quad(order, a, w, c):
        n = 2 * order + 1
        q = cint.ClenshawCurtisQuad.init(order)
        # the polynomial in the scaled variable u = (x - a)/w
        f = lambda x: sum(c[k] * ((x - a) / w) ** k for k in range(n))
        want = w * sum(c[k] / (k + 1) for k in range(n))
        return {"n": jnp.asarray(q.absc.shape == (n,) and q.absw.shape == (n,)), "int": (cint.quad_integral.__wrapped__(f, a, a + w, q), want)}

    for o in (1, 2, 3, 5, 8):
        ob("quad-%d" % o, functools.partial(quad, o), [F("a", -20, 20), F("w", 0.1, 10), F("c", -5, 5, (2 * o + 1,))], tol=1e-8, thorough=o in (1, 3, 8), validate=int(o == 2))

    def quadraw(a, b, c):
        q = cint.ClenshawCurtisQuad.init(1)
        f = lambda x: c[0] + c[1] * x + c[2] * x * x
        F_ = lambda x: c[0] * x + c[1] * x * x / 2 + c[2] * x**3 / 3
        return {"int": (cint.quad_integral(f, a, b, q), F_(b) - F_(a)), "rev": (cint.quad_integral(f, b, a, q), F_(a) - F_(b))}

    ob("quad-interval", quadraw, [F("a", -5, 5), F("b", -5, 5), F("c", -5, 5, (3,))], tol=1e-8)

    def quadtwo(a, b, c):
        q = cint.ClenshawCurtisQuad.init(2)
        f = lambda x: c[0] + c[1] * x + c[2] * x * x
        F_ = lambda x: c[0] * x + c[1] * x * x / 2 + c[2] * x**3 / 3
        return (cint.quad_integral(f, a, b, q), F_(b) - F_(a))

    ob("quad-two", quadtwo, [F("a", -5, 5, (2,)), F("b", -5, 5, (2,)), F("c", -5, 5, (3,))], tol=1e-8)

    def rule(n, c):
        x, w, e = cint.ClenshawCurtisQuad.compute_weights(n)
        out = {"ends": ((x[0], x[-1]), (-1.0, 1.0)) if False else (x[0] + x[-1], 0.0)}
        px = sum(c[k] * x**k for k in range(n))
        out["full"] = (jnp.sum(w * px), sum(2 * c[k] / (k + 1) for k in range(0, n, 2)))
        m = (n + 1) // 2
        ps = sum(c[k] * x**k for k in range(m))
        out["error"] = (jnp.sum(e * ps), 0.0)
        y, v = cint.ClenshawCurtisQuad.rescale_weights(x, w, interval_out=(c[0], c[0] + 2))
        out["scaled"] = (y, c[0] + 1 + x)
        out["scaledw"] = (jnp.sum(v), 2.0)
        y, v = cint.ClenshawCurtisQuad.rescale_weights(x, w, interval_in=(-1, 1), interval_out=(c[1], c[1] + 3))
        out["scaled3"] = (y, c[1] + 1.5 * (1 + x))
        out["scaled3w"] = (v, 1.5 * w)
        return out

    for n in (3, 5, 7, 9, 13):
        ob("rule-%d" % n, functools.partial(rule, n), [F("c", -5, 5, (n,))], tol=1e-8, thorough=n in (5, 7), validate=int(n == 3))

    # ------------------------------------------------------------- polynomials
    def horn(n, x, c):
        want = sum(c[k] * x**k for k in range(n))
        out = {"vec": (ju.horner(x, c), want), "sc": (ju.horner(x[0], c), want[0]), "dt": jnp.asarray(ju.horner(x, c).dtype == jnp.float64)}
        out["cd"] = (ju.horner(x, c, dtype=complex).real, want)
        out["ci"] = jnp.asarray(ju.horner(x, c, dtype=complex).dtype == jnp.complex128)
        out["xi"] = (ju.horner(jnp.arange(3), c), sum(c[k] * jnp.arange(3.0) ** k for k in range(n)))
        out["shape"] = (ju.horner(x.reshape(1, 2, 1), c), want.reshape(1, 2, 1))
        return out

    for n in (1, 2, 3, 5):
        ob("horner-%d" % n, functools.partial(horn, n), [F("x", -5, 5, (2,)), F("c", -5, 5, (n,))])

    def horni(x, c):
        r = ju.horner(x, c)
        return {"v": (r, c[0] + c[1] * x + c[2] * x * x), "d": jnp.asarray(jnp.issubdtype(r.dtype, jnp.integer))}

    ob("horner-int", horni, [I("x", -20, 20), I("c", -20, 20, (3,))])

    def hornz(x, z):
        r = ju.horner(x, z)
        w = z[0] + z[1] * x + z[2] * x * x
        return {"re": (r.real, w.real), "im": (r.imag, w.imag)}

    ob("horner-complex", hornz, [F("x", -5, 5, (2,)), Cx("z", (3,), -5, 5)])

    def horn2(ny, nx, tri, x, y, c):
        want = sum(c[i, j] * x**i * y**j for i in range(ny) for j in range(nx) if not tri or i + j < ny)
        out = {"vec": (ju.horner2d(x, y, c, triangle=tri), want), "sc": (ju.horner2d(x[1], y[1], c, triangle=tri), want[1])}
        r = ju.horner2d(x, y, c, dtype=complex, triangle=tri)
        out["cplx"] = (r.real, want)
        out["dt"] = jnp.asarray(r.dtype == jnp.complex128)
        return out

    for ny, nx, tri in ((1, 1, False), (2, 3, False), (3, 2, False), (3, 3, False), (2, 2, True), (3, 3, True), (4, 4, True)):
        ob("horner2d-%dx%d%s" % (ny, nx, "t" if tri else ""), functools.partial(horn2, ny, nx, tri), [F("x", -3, 3, (2,)), F("y", -3, 3, (2,)), F("c", -5, 5, (ny, nx))])

    # ------------------------------------------------------------- moments, shapes
    def mom(ny, nx, v, x0, y0, ox, oy):
        im = jg.Image(v, xmin=x0, ymin=y0)
        X = [[x0 + c for c in range(nx)] for r in range(ny)]
        Y = [[y0 + r for c in range(nx)] for r in range(ny)]
        px = [(r, c) for r in range(ny) for c in range(nx)]
        out = {}
        for nm, a, b, m in (("0", 0.0, 0.0, ju.unweighted_moments(im)), ("o", ox, oy, ju.unweighted_moments(im, origin=jg.PositionD(ox, oy)))):
            M0 = sum(v[p] for p in px)
            mx = sum(v[r, c] * (X[r][c] - a) for r, c in px) / M0
            my = sum(v[r, c] * (Y[r][c] - b) for r, c in px) / M0
            out["M0" + nm] = (m["M0"], M0)
            out["Mx" + nm] = (m["Mx"], mx)
            out["My" + nm] = (m["My"], my)
            out["Mxx" + nm] = (m["Mxx"] * M0, sum(v[r, c] * (X[r][c] - a - mx) ** 2 for r, c in px))
            out["Myy" + nm] = (m["Myy"] * M0, sum(v[r, c] * (Y[r][c] - b - my) ** 2 for r, c in px))
            out["Mxy" + nm] = (m["Mxy"] * M0, sum(v[r, c] * (X[r][c] - a - mx) * (Y[r][c] - b - my) for r, c in px))
        return out

    for ny, nx in ((1, 2), (2, 2), (2, 3)):
        ob("moments-%dx%d" % (ny, nx), functools.partial(mom, ny, nx), [F("v", 0.1, 5, (ny, nx)), I("x0", -20, 20), I("y0", -20, 20), F("ox", -9, 9), F("oy", -9, 9)], thorough=ny * nx > 4)

    def shape(m):
        d = dict(Mxx=m[0], Myy=m[1], Mxy=m[2])
        s = ju.unweighted_shape(d)
        return {"r": (s["rsqr"], m[0] + m[1]), "e1": (s["e1"] * (m[0] + m[1]), m[0] - m[1]), "e2": (s["e2"] * (m[0] + m[1]), 2 * m[2])}

    ob("shape", shape, [F("m", 0.1, 9, (3,))])

    def shapeim(v):
        im = jg.Image(v, xmin=-1, ymin=3)
        m = ju.unweighted_moments(im)
        s = ju.unweighted_shape(im)
        return {"r": (s["rsqr"], m["Mxx"] + m["Myy"]), "e1": (s["e1"], (m["Mxx"] - m["Myy"]) / (m["Mxx"] + m["Myy"])), "e2": (s["e2"], 2 * m["Mxy"] / (m["Mxx"] + m["Myy"]))}

    ob("shape-image", shapeim, [F("v", 0.1, 5, (2, 2))])

    def g2e(g, t):
        # t: tangent of half the position angle
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        e1, e2 = ju.g1g2_to_e1e2(g * c, g * s)
        return {"1": (e1 * (1 + g * g), 2 * g * c), "2": (e2 * (1 + g * g), 2 * g * s)}

    ob("g2e", g2e, [F("g", 0.001, 0.999), F("t", -9, 9)], fork=True)
    ob("g2e-zero", lambda g: {"1": (ju.g1g2_to_e1e2(g, g)[0], 0.0), "2": (ju.g1g2_to_e1e2(g, g)[1], 0.0)}, [F("g", 0, 0)], fork=True)

    # ------------------------------------------------------------- safe square root
    def ssq(x):
        r = cmath_.safe_sqrt(x)
        d = jax.grad(cmath_.safe_sqrt)(x)
        return {"sq": (r * r, jnp.where(x > 0, x, 0.0)), "pos": r >= 0, "d": (d * r * 2, jnp.where(x > 0, 1.0, 0.0)), "d0": (x > 0) | (d == 0)}

    ob("safe-sqrt", ssq, [F("x", -9, 9)])

    # ------------------------------------------------------------- structural equality
    def eqs(a, b, k):
        e = bool(a[0] == b[0]) and bool(a[1] == b[1])
        f = e and bool(k[0] == k[1])
        E = cu.is_equal_with_arrays
        r = [bool(E(a, b)) == e, bool(E([a, k[0]], [b, k[1]])) == f, bool(E((a, (k[0],)), (b, (k[1],)))) == f,
             bool(E({"p": a, "q": k[0]}, {"p": b, "q": k[1]})) == f, not bool(E([a], [a, a])), not bool(E(a, a[:1])), not bool(E({"p": a}, {"q": a})), not bool(E((a,), [a])), not bool(E(a, 1.0))]
        return jnp.asarray(all(r))

    ob("equal", eqs, [F("a", -1, 1, (2,)), F("b", -1, 1, (2,)), I("k", -2, 2, (2,))], fork=True)

    # ------------------------------------------------------------- positions from arguments
    def pos(x, y, z, i, j):
        A = lambda p: jnp.array([p.x, p.y])
        w = jnp.array([x, y])
        PP = ju.parse_pos_args
        out = {}
        for nm, r in (("xy", PP((x, y), {}, "x", "y")), ("t", PP(((x, y),), {}, "x", "y")), ("p", PP((jg.PositionD(x, y),), {}, "x", "y")), ("k", PP((), {"dx": x, "dy": y}, "dx", "dy"))):
            out[nm] = (A(r), w)
            out[nm + "c"] = jnp.asarray(isinstance(r, jg.PositionD))
        for nm, r in (("xyo", PP((x, y, z), {}, "x", "y", others=["z"])), ("to", PP(((x, y), z), {}, "x", "y", others=["z"])), ("po", PP((jg.PositionD(x, y), z), {}, "x", "y", others=["z"])), ("ko", PP((), {"x": x, "y": y, "z": z}, "x", "y", others=["z"])), ("mo", PP((x, y), {"z": z}, "x", "y", others=["z"]))):
            out[nm] = (A(r[0]), w)
            out[nm + "z"] = (r[1], z)
        for nm, r in (("ixy", PP((i, j), {}, "x", "y", integer=True)), ("ip", PP((jg.PositionI(i, j),), {}, "x", "y", integer=True))):
            out[nm] = (A(r), jnp.array([i, j]))
            out[nm + "c"] = jnp.asarray(isinstance(r, jg.PositionI))

        def bad(*a, **k):
            try:
                PP(*a, **k)
            except TypeError:
                return True
            return False

        out["errors"] = jnp.asarray(bad((x,), {}, "x", "y") and bad((x, y, z), {}, "x", "y") and bad((), {"x": x}, "x", "y") and bad((x, y), {"q": z}, "x", "y") and bad((jg.PositionD(x, y),), {}, "x", "y", integer=True))
        return out

    ob("positions", pos, [F("x", -9, 9), F("y", -9, 9), F("z", -9, 9), I("i", -9, 9), I("j", -9, 9)])

    # ------------------------------------------------------------- Bessel K
    def khalf(n, x):
        """K_{n+1/2}(x) exp(x) sqrt(2x/pi) = sum (n+k)!/(k!(n-k)!) (2x)^-k"""
        import math

        want = sum(math.factorial(n + k) / (math.factorial(k) * math.factorial(n - k)) / (2 * x) ** k for k in range(n + 1))
        out = {}
        # orders below 50 do not use the large-order expansion
        with mock.patch.object(bes, "_olver_kve", lambda v, z: jnp.zeros(())):
            for nm, nu in (("+", n + 0.5), ("-", -n - 0.5)):
                got = bes._kv_scalar(jnp.asarray(nu), x)
                out[nm] = (got * jnp.exp(x) * jnp.sqrt(2 * x / PI), want)
        return out

    have = all(hasattr(bes, k) for k in ("_temme_kve", "_temme_series_kve", "_continued_fraction_kve", "_olver_kve", "_kv_scalar"))
    for n in range(7) if have else ():
        ob("kv-half-%d" % n, functools.partial(khalf, n), [F("x", 2.001, 30)], thorough=n in (3, 5), validate=0 if n > 1 else 1)

    def kedge(nu):
        K = lambda x: bes.kv(jnp.asarray(nu), jnp.asarray(x))
        return jnp.asarray(bool(jnp.isposinf(K(0.0))) and bool(jnp.isnan(K(-1.0))) and bool(jnp.isnan(K(-1e-8))) and bool(jnp.isfinite(K(1e-8))))

    def krec(n, u, x, k):
        """forward recurrence from two free starting values"""
        with mock.patch.object(bes, "_temme_series_kve", lambda v, z: (k[0], k[1])), mock.patch.object(bes, "_continued_fraction_kve", lambda v, z: (k[0], k[1])):
            got = [bes._temme_kve(jnp.asarray(s * (n + u)), x) for s in (1, -1)]
        a, b = k[0], k[1]
        for m in range(1, n + 1):
            a, b = b, a + 2 * (u + m) / x * b
        return {"+": (got[0] * x**n, a * x**n), "-": (got[1] * x**n, a * x**n)}

    if have:
        for n in (0, 1, 2, 4):
            for u in (-0.3, 0.0, 0.25):
                ob("kv-recurrence-%d-%g" % (n, u), functools.partial(krec, n, u), [F("x", 0.1, 30), F("k", -3, 3, (2,))], thorough=u == 0.25)

    def kgrad(nu, x, g):
        """d/dx K_nu = -(K_{nu-1} + K_{nu+1})/2, at half-integer orders where the values are closed forms"""
        val, vjp = jax.vjp(lambda y: bes.kv(jnp.asarray(nu), y), x)
        d = vjp(g)[0]
        K = lambda m: bes.kv(jnp.asarray(m), x)
        return {"rule": (d, -0.5 * g * (K(nu - 1) + K(nu + 1))), "val": (val, K(nu)), "order": (2 * nu * K(nu), x * (K(nu + 1) - K(nu - 1)))}

    class Steps:
        """jax.lax whose while loops run exactly n steps (the stopping rule is left out)"""

        def __init__(self, n):
            self.n = n

        def __getattr__(self, k):
            return getattr(jax.lax, k)

        def while_loop(self, cond, body, state):
            for _ in range(self.n):
                state = body(state)
            return state

    class JX:
        def __init__(self, n):
            self.lax = Steps(n)

        def __getattr__(self, k):
            return getattr(jax, k)

    class NoEps:
        """jnp with zero machine epsilon: the series never stops early; log(z/2) is a free value"""

        def __init__(self, L):
            self.L = L

        def __getattr__(self, k):
            return getattr(jnp, k)

        def finfo(self, d):
            import types

            return types.SimpleNamespace(eps=0.0)

        def log(self, x):
            return self.L

        def sinh(self, x):
            return (jnp.exp(x) - jnp.exp(-x)) / 2

        def cosh(self, x):
            return (jnp.exp(x) + jnp.exp(-x)) / 2

    def kseries(N, z, L):
        """Temme's series at order 0 and 1: K0 = sum (z^2/4)^k/(k!)^2 (psi(k+1) - L), K1 from the same terms"""
        import math

        with mock.patch.object(bes, "jax", JX(N)), mock.patch.object(bes, "jnp", NoEps(L)):
            k0, k1 = bes._temme_series_kve(jnp.asarray(0.0), z)
        w, eu = z * z / 4, 0.57721566490153286
        psi = lambda n: -eu + sum(1.0 / j for j in range(1, n))
        a = sum(w**k / math.factorial(k) ** 2 * (psi(k + 1) - L) for k in range(N + 1))
        # z K1 = 1 + sum_{k>=1} 2 w^k/(k!)^2 (1/2 + k (L - psi(k+1)))  (coefficients of p_k - k f_k)
        b = 1 + sum(2 * w**k / math.factorial(k) ** 2 * (0.5 - k * (psi(k + 1) - L)) for k in range(1, N + 1))
        return {"k0": (k0 / jnp.exp(z), a), "k1": (k1 * z / jnp.exp(z), b)}

    def ksym(u, N, z, L):
        """K_{-u} = K_u and K_{1+u} - K_{1-u} = 2 u K_u / z hold term by term"""
        with mock.patch.object(bes, "jax", JX(N)), mock.patch.object(bes, "jnp", NoEps(L)):
            a0, a1 = bes._temme_series_kve(jnp.asarray(u), z)
            b0, b1 = bes._temme_series_kve(jnp.asarray(-u), z)
        e = jnp.exp(z)
        return {"sym": (a0 / e, b0 / e), "step": ((a1 - b1) * z / e, 2 * u * a0 / e)}

    def kgam(v):
        """1/Gamma(1+v) 1/Gamma(1-v) = sin(pi v)/(pi v)"""
        c1, c2, gp, gm = bes._evaluate_temme_coeffs(v)
        y = (PI * v) ** 2
        import math

        sinc = sum((-1) ** k * y**k / math.factorial(2 * k + 1) for k in range(9))
        d = gp * gm - sinc
        return {"hi": d <= 1e-9, "lo": d >= -1e-9, "c1": (2 * v * c1, gm - gp), "c2": (2 * c2, gm + gp)}

    if have and hasattr(bes, "_evaluate_temme_coeffs"):
        ob("kv-gamma", kgam, [F("v", -0.5, 0.5)])
    if have:
        for u in (0.3, -0.45):
            for L in (-1.3, 0.0):
                ob("kv-symmetry-%g%g" % (u, L), functools.partial(ksym, u, 6, L=jnp.asarray(L)), [F("z", 0.01, 2)], validate=0, tol=1e-8)
        ob("kv-series", functools.partial(kseries, 6), [F("z", 0.01, 2), F("L", -6, 0)], validate=0)

    # ------------------------------------------------------------- Taylor series
    import math

    def j0s(x):
        want = sum((-1) ** k / math.factorial(k) ** 2 * (x * x / 4) ** k for k in range(18))
        got = bes.j0(jnp.atleast_1d(x))[0]
        return {"hi": got <= want + 1e-8, "lo": got >= want - 1e-8}

    ob("j0-taylor", j0s, [F("x", 0, 4)])

    def sis(x):
        want = x * sum((-1) ** k / math.factorial(2 * k + 1) / (2 * k + 1) * (x * x) ** k for k in range(14))
        got = bes.si(x)
        return {"hi": got <= want + 1e-8, "lo": got >= want - 1e-8}

    ob("si-taylor", sis, [F("x", 0, 4)])

    for nu in (0.5, 1.5, 2.5):
        ob("kv-derivative-%g" % nu, functools.partial(kgrad, nu), [F("x", 0.1, 30), F("g", -3, 3)])
    return obs
