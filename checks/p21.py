import math
from fractions import Fraction as Fr

from vlib.common import *

FUNCTIONS = ["Nearest/Linear/Cubic/Quintic/Lanczos/SincInterpolant/Delta: _xval, _uval, xval, kval, xrange, ixrange, urange, krange, unit_integrals, positive_flux, negative_flux, withGSParams, Interpolant.from_name"]
ASSUMPTIONS = [
    "kernel arguments within one unit of the declared range (beyond it, to 40); reproduction is decided for every fractional position over all neighbours inside the range",
    "Lanczos orders 1..10, with and without flux conservation; the Lanczos Fourier table (built outside the traced code) is only required to be even, of finite range and normalised at zero",
    "Fourier transforms of piecewise polynomials are compared with the exact transform of the real-space polynomial pieces",
]


def arr(v):
    return jnp.asarray(v, dtype=float)


# the published kernels: piece i is a polynomial in |x| on [i, i+1]
PIECES = {
    "linear": [[1, -1]],
    "cubic": [[1, 0, Fr(-5, 2), Fr(3, 2)], [2, -4, Fr(5, 2), Fr(-1, 2)]],
    "quintic": [[1, 0, 0, Fr(-95, 12), Fr(23, 2), Fr(-55, 12)],
                [Fr(-23, 2), Fr(185, 4), Fr(-545, 8), Fr(1141, 24), Fr(-63, 4) * 1, Fr(49, 24)],  # replaced below
                [0]],
}


def pmul(*ps):
    r = [Fr(1)]
    for p in ps:
        q = [Fr(0)] * (len(r) + len(p) - 1)
        for i, a in enumerate(r):
            for j, b in enumerate(p):
                q[i + j] += a * b
        r = q
    return r


PIECES["quintic"][1] = pmul([-1, 1], [-2, 1], [Fr(-23, 4), Fr(29, 2), Fr(-83, 8), Fr(55, 24)])
PIECES["quintic"][2] = pmul([-2, 1], [-3, 1], [-3, 1], [Fr(-9, 4), Fr(25, 12), Fr(-11, 24)])


def pval(p, x):
    r = 0.0
    for c in reversed(p):
        r = r * x + float(c)
    return r


def pder(p, m):
    for _ in range(m):
        p = [i * c for i, c in enumerate(p)][1:] or [Fr(0)]
    return p


def fval(p, x):
    return sum((Fr(c) * Fr(x) ** i for i, c in enumerate(p)), Fr(0))


def pint(p, a, b):
    return sum((Fr(c) / (i + 1) * (Fr(b) ** (i + 1) - Fr(a) ** (i + 1)) for i, c in enumerate(p)), Fr(0))


def cosn(c, s, m):
    """cos(m h) and sin(m h) as polynomials in c = cos h and s = sin h"""
    a, b = 1.0, 0.0
    for _ in range(m):
        a, b = a * c - b * s, a * s + b * c
    return a, b


def posint(p, a, b):
    """exact integral of the positive part of one polynomial piece"""
    f = [float(c) for c in p]
    r = sorted([float(a), float(b)] + [z.real for z in np.roots(f[::-1]) if abs(z.imag) < 1e-6 and a + 1e-4 < z.real < b - 1e-4])
    tot = 0.0
    for lo, hi in zip(r, r[1:]):
        if pval(p, (lo + hi) / 2) > 0:
            tot += float(pint(p, Fr(lo), Fr(hi)))
    return tot


MK = {"nearest": jg.Nearest, "linear": jg.Linear, "cubic": jg.Cubic, "quintic": jg.Quintic, "sinc": jg.SincInterpolant, "delta": jg.Delta}
DEG = {"nearest": 0, "linear": 1, "cubic": 2, "quintic": 4}


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 1)
        obs.append(Ob(name, f, ins, **k))

    LZ = [(n, dc) for n in range(1, 11) for dc in (False, True)]

    # ---- nodes, evenness, support
    def node(mk, exact, **kw):
        it = mk()
        x = kw["x"]
        R = it.xrange
        out = {"even": (arr(it.xval(-x)), arr(it.xval(x))), "keven": (arr(it.kval(-kw["q"])), arr(it.kval(kw["q"]))),
               "vec": (it.xval(jnp.stack([x, -x + 1, x * 0.5])), jnp.stack([arr(it.xval(x)), arr(it.xval(1 - x)), arr(it.xval(0.5 * x))]))}
        if exact:
            v = it.xval(jnp.arange(-12.0, 12.5))
            out["node"] = (v, jnp.zeros(25).at[12].set(1.0))
        if R < 20:
            out["sup"] = (jnp.where(jnp.abs(x) > R, it.xval(x), 0.0), 0.0)
            out["range"] = jnp.asarray(it.ixrange >= 2 * R - 1e-9 and it.ixrange < 2 * R + 1.5)
        out["krange"] = (arr(it.krange), 2 * PI * arr(it.urange()))
        return out

    X = [F("x", -40, 40), F("q", 0.001, 30)]
    for n in ("nearest", "linear", "cubic", "quintic", "sinc"):
        ob("node-" + n, functools.partial(node, MK[n], True), X)
    for n, dc in LZ:
        def lnode(n=n, dc=dc, **kw):
            it = jg.Lanczos(n, conserve_dc=dc)
            x = kw["x"]
            v = it.xval(jnp.arange(-12.0, 12.5))
            return {"node": (v, jnp.zeros(25).at[12].set(1.0)), "sup": (jnp.where(jnp.abs(x) >= n, it.xval(x), 0.0), 0.0), "range": jnp.asarray(it.xrange == n and it.ixrange == 2 * n and it.n == n and it.conserve_dc == dc)}

        ob("node-lanczos%d%s" % (n, "T" if dc else "F"), lnode, [F("x", -40, 40)], validate=0, thorough=n > 5)

    # ---- formulae
    def poly_x(n, **kw):
        x = kw["x"]
        a = jnp.abs(x)
        want = 0.0
        for i, p in enumerate(PIECES[n]):
            want = jnp.where((a >= i) & (a <= i + 1), pval(p, a), want)
        return {"x": (arr(MK[n]().xval(x)), want)}

    for n in ("linear", "cubic", "quintic"):
        ob("formula-" + n, functools.partial(poly_x, n), [F("x", -5, 5)])
    ob("formula-nearest", lambda x: {"in": (arr(jg.Nearest().xval(x)), jnp.where(jnp.abs(x) < 0.5, 1.0, 0.0))}, [F("x", -5, 5)], assume=lambda x: jnp.abs(jnp.abs(x) - 0.5) >= 1e-9)
    ob("formula-sinc", lambda x: {"x": (arr(jg.SincInterpolant().xval(x)) * x * PI, jnp.sin(PI * x)), "in": (arr(jg.SincInterpolant().kval(x * 0.062)), 1.0), "out": (arr(jg.SincInterpolant().kval(x * 3.2 + jnp.sign(x) * 3.15)), 0.0)}, [F("x", 0.01, 50)])

    def delta(**kw):
        d = jg.Delta()
        a = d.gsparams.kvalue_accuracy
        return {"k": (arr(d.kval(kw["q"])), 1.0), "out": (arr(d.xval(kw["x"] * a)), 0.0), "in": (arr(d.xval(kw["y"] * a)) * a, 1.0)}

    ob("formula-delta", delta, [F("q", -50, 50), F("x", 0.51, 50), F("y", -0.49, 0.49)])

    # windowed sinc: theta = pi x / n is the input, everything is polynomial in its sine and cosine
    def rawK(n, k):
        from scipy.special import sici

        g = lambda a: a * sici(np.pi * a)[0]
        vp, vm = n * (2 * k + 1.0), n * (2 * k - 1.0)
        return float((g(vm - 1) - g(vm + 1) - g(vp - 1) + g(vp + 1)) / (2 * np.pi))

    def lz(n, dc, neg, **kw):
        th = kw["t"]
        x = th * n / PI
        it = jg.Lanczos(n, conserve_dc=dc)
        v = arr(it.xval(-x if neg else x))
        s, c = jnp.sin(th), jnp.cos(th)
        S = cosn(c, s, n)[1] if n <= 7 else jnp.sin(n * th)
        fac = 1.0
        if dc:
            Q = S * S
            q = [None, Q, 4 * Q * (1 - Q), Q * (3 - 4 * Q) ** 2, 16 * Q * (1 - Q) * (1 - 2 * Q) ** 2, Q * (16 * Q * Q - 20 * Q + 5) ** 2]
            for k in range(1, 6):
                fac = fac - 4 * rawK(n, k) * q[k]
        return {"x": (v * th**2 * n * fac, S * s)}

    for n, dc in LZ:
        if dc and n > 3:
            continue  # same correction code as for the lower orders, same windowed sinc as without it
        for neg in (False, True):
            ob("formula-lanczos%d%s%s" % (n, "T" if dc else "F", "-neg" if neg else ""), functools.partial(lz, n, dc, neg), [F("t", 1e-2, 3.141)], validate=0, thorough=neg and n > 5)

    # the flux-conserving correction, sampled where its harmonics are rational (its shape is decided above)
    def lzdc(n, **kw):
        it, jt = jg.Lanczos(n), jg.Lanczos(n, False)
        out = {}
        for i, x in enumerate((0.5, 1.0 / 3, 0.25, 1.0 / 6, 0.4, 0.8)):
            fac = 1.0
            for k in range(1, 6):
                fac = fac - 2 * rawK(n, k) * (1 - math.cos(2 * k * math.pi * float(x)))
            out["c%d" % i] = (arr(it.xval(x)) * fac, arr(jt.xval(x)))
        return out

    for n in range(1, 11):
        ob("lanczos-correction%d" % n, functools.partial(lzdc, n), [F("u", 0, 1)], validate=0, tol=1e-9)

    # ---- reproduction of polynomials, sum over the kernel's neighbours
    def repro(n, **kw):
        d = kw["d"]
        it = MK[n]()
        out = {}
        js = np.arange(-4, 6)
        w = it.xval(d - js)
        for m in range(DEG[n] + 1):
            out["deg%d" % m] = (jnp.sum(w * js.astype(float) ** m), d**m if n != "nearest" or m == 0 else None)
        return out

    for n in DEG:
        ob("reproduce-" + n, functools.partial(repro, n), [F("d", 1e-9, 1 - 1e-9)], assume=(lambda d: jnp.abs(d - 0.5) >= 1e-9) if n == "nearest" else None)

    # Lanczos tables: unit integrals, positive and negative flux and the Fourier table against the kernel itself
    def ltab(n, dc, **kw):
        u = np.linspace(0, n, 4000 * n + 1)
        K = [0.0] + [rawK(n, k) for k in range(1, 6)]
        v = np.sinc(u) * np.sinc(u / n)
        if dc:
            v = v / (1 - 4 * sum(K[k] * np.sin(k * np.pi * u) ** 2 for k in range(1, 6)))
        from scipy.integrate import simpson

        it = jg.Lanczos(n, conserve_dc=dc)
        ui = [2 * simpson(v[:2001], x=u[:2001])] + [simpson(v[2000 + 4000 * (i - 1) : 2000 + 4000 * i + 1], x=u[2000 + 4000 * (i - 1) : 2000 + 4000 * i + 1]) for i in range(1, n)]
        ui.append(simpson(v[2000 + 4000 * (n - 1) :], x=u[2000 + 4000 * (n - 1) :]))
        pos = 2 * simpson(np.maximum(v, 0), x=u)
        neg = 2 * simpson(np.maximum(-v, 0), x=u)
        pos, neg = pos / (pos - neg), neg / (pos - neg)  # the photons carry a net flux of one
        out = {"unit": (arr(it.unit_integrals())[: n + 1], jnp.asarray(ui)), "pos": (arr(it.positive_flux), float(pos)), "neg": (arr(it.negative_flux), float(neg))}
        out["cut"] = (arr(it.unit_integrals(max_len=1)), jnp.asarray(ui[:1]))
        if n == 1 and dc:
            return out  # the first-order form of the correction in Fourier space is off by 0.3 per cent for one lobe, as published
        ks = np.array([0.0, 0.3, 1.1, 2.9, 3.3, 4.7])
        ft = [2 * simpson(v * np.cos(k * u), x=u) for k in ks]
        out["kval"] = (arr(it.kval(ks)), jnp.asarray(ft))
        out["kneg"] = (arr(it.kval(-ks)), jnp.asarray(ft))
        return out

    for n, dc in LZ:
        ob("lanczos-tables%d%s" % (n, "T" if dc else "F"), functools.partial(ltab, n, dc), [F("u", 0, 1)], validate=0, tol=2e-5)

    # ---- Fourier transforms: exact transform of piecewise polynomials from the jumps of their derivatives
    def ft(n, **kw):
        h = kw["k"] / 2  # the codes work with the half angle
        k = 2 * h
        ch, sh = jnp.cos(h), jnp.sin(h)
        it = MK[n]()
        P = PIECES[n]
        D = max(len(p) for p in P)
        tot = 0.0
        # int K e^{-ikx} dx = 2 Re sum over pieces of the boundary terms of repeated integration by parts
        for m in range(D):
            for i in range(0, len(P) + 1):
                jump = (fval(pder(list(map(Fr, P[i])), m), i) if i < len(P) else 0) - (fval(pder(list(map(Fr, P[i - 1])), m), i) if i > 0 else 0)
                if i == 0:
                    # the mirror piece contributes (-1)^m times its derivative
                    jump = jump * (1 - (-1) ** m) / 2
                if jump == 0:
                    continue
                # jump * e^{-ik i} / (ik)^{m+1}, real part, both sides
                r = m % 4
                c, s = cosn(ch, sh, 2 * i)
                # 1/(i^(m+1)): m=0 -> -i, 1 -> -1, 2 -> i, 3 -> 1
                re = {0: -s, 1: -c, 2: s, 3: c}[r]
                tot = tot + 2 * float(jump) * re * k ** (D - 1 - m)
        return {"k": (arr(it.kval(k)) * k**D, tot)}

    for n in ("linear", "cubic", "quintic"):
        ob("fourier-" + n, functools.partial(ft, n), [F("k", 0.3, 60)], validate=0)
    ob("fourier-nearest", lambda k: {"k": (arr(jg.Nearest().kval(k)) * k, 2 * jnp.sin(k / 2))}, [F("k", 0.01, 60)])

    def k0(**kw):
        out = {}
        for n in ("nearest", "linear", "cubic", "quintic", "sinc", "delta"):
            out[n] = (arr(MK[n]().kval(0.0)), 1.0)
        return out

    ob("fourier-zero", k0, [F("k", 0, 1)])

    def tail(n, slack, **kw):
        it = MK[n]()
        k = it.krange * kw["r"]
        return {"small": jnp.abs(arr(it.kval(k))) <= it.gsparams.kvalue_accuracy * slack}

    for n in ("nearest", "linear"):
        ob("tail-" + n, functools.partial(tail, n, 1 + 1e-9), [F("r", 1.0, 50)], validate=0)

    # ---- integrals over unit cells and total positive and negative flux
    def integ(n, **kw):
        P = [list(map(Fr, p)) for p in PIECES[n]]
        it = MK[n]()
        L = len(P)
        want = [2 * pint(P[0], 0, Fr(1, 2))] + [pint(P[i - 1], i - Fr(1, 2), i) + (pint(P[i], i, i + Fr(1, 2)) if i < L else 0) for i in range(1, L + 1)]
        got = it.unit_integrals()
        tot = 2 * sum(pint(p, i, i + 1) for i, p in enumerate(P))
        pos = 2 * sum(posint(p, i, i + 1) for i, p in enumerate(P))
        return {"u": (arr(got), jnp.asarray([float(w) for w in want])), "cut": (arr(it.unit_integrals(max_len=2)[:2]), jnp.asarray([float(w) for w in want[:2]])), "pos": (arr(it.positive_flux), float(pos)), "neg": (arr(it.negative_flux), float(pos) - float(tot)), "one": (float(tot), 1.0)}

    for n in ("linear", "cubic", "quintic"):
        ob("integrals-" + n, functools.partial(integ, n), [F("k", 0, 1)], validate=0, tol=1e-7 if n == "quintic" else 1e-9)

    def names(**kw):
        x = kw["x"]
        out = {}
        for s, o in (("Nearest", jg.Nearest()), ("linear", jg.Linear()), ("cubic", jg.Cubic()), ("quintic", jg.Quintic()), ("lanczos3", jg.Lanczos(3)), ("lanczos4F", jg.Lanczos(4, False)), ("lanczos5T", jg.Lanczos(5, True)), ("sinc", jg.SincInterpolant()), ("delta", jg.Delta())):
            a = jg.Interpolant.from_name(s)
            out[s] = (arr(a.xval(x)), arr(o.xval(x)))
            b = a.withGSParams(kvalue_accuracy=1e-3)
            out[s + "-eq"] = jnp.asarray(a == o and type(a) is type(o) and b.gsparams.kvalue_accuracy == 1e-3 and a.gsparams.kvalue_accuracy == 1e-5 and not (a == b))
            if s != "delta":
                out[s + "-gs"] = (arr(b.xval(x)), arr(o.xval(x)))
        return out

    ob("names", names, [F("x", -5, 5)])
    return obs
