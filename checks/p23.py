from jax_galsim.core import interpolate as ci
from vlib.common import *

FUNCTIONS = ["core/interpolate.py: akima_interp_coeffs (jax and numpy variants), akima_interp (fixed and free spacing)"]
ASSUMPTIONS = [
    "tables of 4 to 7 nodes with free values (slopes within 30); free spacings 0.2..2 for the free-spacing search, free uniform spacing for the fixed one",
    "the numpy variant is executed on symbolic entries with its boolean decisions explored path by path; where both weights are below 1e-12 the mean slope is required, as documented",
]


def arr(v):
    return jnp.asarray(v, dtype=float)


def slopes(x, y):
    """Akima (1970) slopes, ends as documented"""
    n = len(x)
    m = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
    s = [None] * n
    s[0], s[1] = m[0], (m[0] + m[1]) / 2
    s[n - 1], s[n - 2] = m[n - 2], (m[n - 3] + m[n - 2]) / 2
    for i in range(2, n - 2):
        w1, w2 = jnp.abs(m[i + 1] - m[i]), jnp.abs(m[i - 1] - m[i - 2])
        den = w1 + w2
        tiny = den < 1e-12
        s[i] = jnp.where(tiny, (m[i - 1] + m[i]) / 2, (w1 * m[i - 1] + w2 * m[i]) / jnp.where(tiny, 1.0, den))
    return s, m


def hermite(x, y, s, i, t):
    """cubic through both ends with the given end slopes, at x[i] + t (x[i+1]-x[i])"""
    h = x[i + 1] - x[i]
    return y[i] * (1 + 2 * t) * (1 - t) ** 2 + h * s[i] * t * (1 - t) ** 2 + y[i + 1] * t * t * (3 - 2 * t) + h * s[i + 1] * t * t * (t - 1)


def nodes(kw, n):
    if "h" in kw and n:
        h = kw["h"]
        if getattr(h, "ndim", 0):
            xs = [kw["x0"]]
            for i in range(n - 1):
                xs.append(xs[-1] + h[i])
            return xs
        return [kw["x0"] + i * h for i in range(n)]


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    Y = lambda n: F("y", -3, 3, shape=(n,))
    U = [F("x0", -5, 5), F("h", 0.2, 2)]
    V = lambda n: [F("x0", -5, 5), F("h", 0.2, 2, shape=(n - 1,))]

    def build(kw, n):
        xs = nodes(kw, n)
        return xs, jnp.stack([arr(v) for v in xs])

    # ---- coefficients: value, slope at both ends of every piece
    def coef(n, use_jax, **kw):
        xs, X = build(kw, n)
        y = kw["y"]
        if use_jax:
            a, b, c, d = ci.akima_interp_coeffs(X, y)
        else:
            ox, oy = np.empty(n, dtype=object), np.empty(n, dtype=object)
            for i in range(n):
                ox[i], oy[i] = X[i], y[i]
            a, b, c, d = ci.akima_interp_coeffs(ox, oy, use_jax=False)
            a, b, c, d = [jnp.stack([arr(v) for v in q]) for q in (a, b, c, d)]
        s, m = slopes(xs, y)
        out = {}
        for i in range(n - 1):
            h = xs[i + 1] - xs[i]
            out["left%d" % i] = (a[i], y[i])
            out["right%d" % i] = (a[i] + h * (b[i] + h * (c[i] + h * d[i])), y[i + 1])
            out["sl%d" % i] = (b[i], s[i])
            out["sr%d" % i] = (b[i] + h * (2 * c[i] + 3 * h * d[i]), s[i + 1])
        out["len"] = jnp.asarray(a.shape == (n - 1,))
        return out

    for n in (4, 5, 6, 7):
        ob("coef-u%d" % n, functools.partial(coef, n, True), U + [Y(n)], thorough=n == 7)
        ob("coef-v%d" % n, functools.partial(coef, n, True), V(n) + [Y(n)], thorough=n > 5)
        ob("coefnp-u%d" % n, functools.partial(coef, n, False), U + [Y(n)], fork=True, thorough=n > 6)
        ob("coefnp-v%d" % n, functools.partial(coef, n, False), V(n) + [Y(n)], fork=True, thorough=n > 4)

    def equal(n, **kw):
        # the flat spots of the data: equal neighbouring slopes
        y = kw["y"]
        X = np.arange(n, dtype=float) * 0.5
        z = jnp.concatenate([jnp.stack([y[0], y[0] + y[1], y[0] + 2 * y[1]]), y[0] + 2 * y[1] + y[2] * jnp.arange(1, n - 2)])
        s, m = slopes(list(X), z)
        a, b, c, d = ci.akima_interp_coeffs(X, z)
        return {"mean": (b[2], y[1] + y[2]), "all": (b, jnp.stack([arr(v) for v in s[:-1]]))}

    ob("equal-slopes", functools.partial(equal, 6), [Y(3)], assume=lambda y: jnp.abs(y[1] - y[2]) >= 0.01)

    # ---- evaluation in every interval, free position
    def ev(n, fixed, i, **kw):
        xs, X = build(kw, n)
        y = kw["y"]
        co = ci.akima_interp_coeffs(X, y)
        s, m = slopes(xs, y)
        x = xs[i] + kw["t"] * (xs[i + 1] - xs[i])
        got = ci.akima_interp(x, X, y, co, fixed_spacing=fixed)
        return {"v": (arr(got), hermite(xs, y, s, i, kw["t"]))}

    T = [F("t", 1e-6, 1 - 1e-6)]
    for n in (4, 5, 6):
        for i in range(n - 1):
            ob("eval-fixed%d-%d" % (n, i), functools.partial(ev, n, True, i), U + [Y(n)] + T, thorough=n == 6 and i not in (1, 2, 4))
            ob("eval-free%d-%d" % (n, i), functools.partial(ev, n, False, i), (V(n) if n < 6 else U) + [Y(n)] + T, thorough=n > 5 or (n == 5 and i in (1, 2, 3)))

    # any position, coefficients free: the piece is chosen by the position alone
    def pick(n, fixed, **kw):
        xs, X = build(kw, n)
        co = tuple(kw["co"])
        x = kw["x0"] + kw["r"] * kw["h"] if fixed else kw["x0"] + kw["r"]
        got = ci.akima_interp(x, X, kw["co"][0], co, fixed_spacing=fixed)
        want = jnp.asarray(0.0)
        for i in range(n - 1):
            d = x - xs[i]
            v = co[0][i] + d * (co[1][i] + d * (co[2][i] + d * co[3][i]))
            ins = (x >= xs[i]) & ((x < xs[i + 1]) if i < n - 2 else (x <= xs[i + 1]))
            want = jnp.where(ins, v, want)
        return {"v": (arr(got), want)}

    def offnode(**kw):
        return jnp.abs(kw["r"] - jnp.round(kw["r"])) >= 1e-9

    for n in (4, 6):
        CO = F("co", -3, 3, shape=(4, n - 1))
        A = F("a", -3, 3, shape=(n - 1,))
        ob("pick-fixed%d" % n, functools.partial(pick, n, True), [F("x0", -5, 5), F("h", 0.2, 2), F("r", -3, n + 2), CO], assume=offnode, thorough=True)
        ob("pick-fixedc%d" % n, lambda a, n=n, **kw: pick(n, True, x0=-0.75, h=0.5, co=jnp.stack([a, 2 * a, a * 0, a * 0]), **kw), [F("r", -3, n + 2), A], assume=offnode)
        ob("pick-freec%d" % n, lambda a, n=n, **kw: pick(n, False, x0=-0.75, h=jnp.array([0.5, 0.25, 1.5, 2.0, 0.125])[: n - 1], co=jnp.stack([a, 2 * a, a * 0, a * 0]), **kw), [F("r", -3, 2 * n + 2), A])

    # ---- nodes, ends, outside
    def atnodes(n, fixed, **kw):
        y = kw["y"]
        X = np.linspace(-1.5, -1.5 + 0.5 * (n - 1), n) if fixed else np.cumsum(np.array([0.5, 0.25, 1.5, 0.5, 0.125, 2.0, 1.0])[:n]) - 2
        co = ci.akima_interp_coeffs(X, y)
        v = ci.akima_interp(jnp.asarray(X), X, y, co, fixed_spacing=fixed)
        sc = jnp.stack([arr(ci.akima_interp(float(q), X, y, co, fixed_spacing=fixed)) for q in X])
        lo = ci.akima_interp(X[0] - kw["e"], X, y, co, fixed_spacing=fixed)
        hi = ci.akima_interp(X[-1] + kw["e"], X, y, co, fixed_spacing=fixed)
        return {"node": (v, y), "scalar": (sc, y), "below": (arr(lo), 0.0), "above": (arr(hi), 0.0)}

    for n in (4, 5, 7):
        for fixed in (True, False):
            ob("nodes-%s%d" % ("fixed" if fixed else "free", n), functools.partial(atnodes, n, fixed), [Y(n), F("e", 1e-6, 100)])

    # ---- straight lines
    def line(n, fixed, i, **kw):
        xs, X = build(kw, n)
        y = kw["al"] + kw["be"] * X
        co = ci.akima_interp_coeffs(X, y)
        x = xs[i] + kw["t"] * (xs[i + 1] - xs[i])
        return {"v": (arr(ci.akima_interp(x, X, y, co, fixed_spacing=fixed)), kw["al"] + kw["be"] * x)}

    AB = [F("al", -3, 3), F("be", -3, 3)]
    for i in (0, 2, 4):
        ob("line-fixed-%d" % i, functools.partial(line, 6, True, i), U + AB + T)
        ob("line-free-%d" % i, functools.partial(line, 6, False, i), V(6) + AB + T, thorough=i == 2)

    # ---- locality: far nodes do not matter
    def local(i, **kw):
        n = 9
        y, z = kw["y"], kw["z"]
        X = np.arange(n) * 0.5 - 1.0
        near = [j for j in range(n) if i - 2 <= j <= i + 3]
        w = jnp.stack([y[j] if j in near else z[j] for j in range(n)])
        x = X[i] + 0.5 * kw["t"]
        f = lambda v: arr(ci.akima_interp(x, X, v, ci.akima_interp_coeffs(X, v), fixed_spacing=True))
        return {"same": (f(y), f(w))}

    for i in (0, 3, 7):
        ob("local-%d" % i, functools.partial(local, i), [F("y", -3, 3, shape=(9,)), F("z", -3, 3, shape=(9,))] + T)

    # ---- arrays of positions and nested calls give the same as single ones
    def batch(**kw):
        y, t = kw["y"], kw["t"]
        X = np.arange(5) * 0.5
        co = ci.akima_interp_coeffs(X, y)
        q = jnp.stack([0.5 * t, 0.5 + 0.5 * t, 1.5 + 0.5 * t, -t, 2.0 + t]).reshape(5, 1)
        got = ci.akima_interp(q, X, y, co)
        one = jnp.stack([arr(ci.akima_interp(q[i, 0], X, y, co, fixed_spacing=True)) for i in range(5)])
        return {"b": (got[:, 0], one), "shape": jnp.asarray(got.shape == (5, 1))}

    ob("batch", batch, [Y(5)] + T)
    return obs
