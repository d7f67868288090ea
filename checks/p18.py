import math

from vlib.common import *

FUNCTIONS = ["Gaussian/Exponential/Moffat/Spergel/Box/Pixel: __init__ (every size parameter), sigma/fwhm/half_light_radius/scale_radius/beta/nu/width/height/scale, _xValue, _kValue, _maxk, _stepk, _max_sb", "Spergel.calculateIntegratedFlux/calculateFluxRadius, spergel.fz_nu/fz_nup1/fsmallz_nu/fsmallz_nup1/fluxfractionFunc",
             "Moffat._kValue (Akima table and tail)", "bessel.kv replaced by its closed form at half-integer order, left uninterpreted otherwise (P30 decides kv)"]
ASSUMPTIONS = [
    "sizes 0.1..10, fluxes within 5, radii within 20 sizes; half-integer Bessel orders (Moffat beta 1.5, 2.5, 3.5; Spergel nu -0.5, 0.5, 1.5, 2.5, 3.5) where a closed form exists, symbolic index elsewhere",
    "Moffat Fourier table: windows of the 700 nodes, with exp bracketed by its Taylor polynomials inside one node spacing",
    "thresholds: default GSParams and two other settings; Spergel radii of enclosed flux to 1e-6",
]
PT = [F("x", -20, 20), F("y", -20, 20)]
FL = F("fl", -5, 5)
S = F("s", 0.1, 10)
LN2 = float(np.log(2.0))


def arr(v):
    return jnp.asarray(v, dtype=float)


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 1)
        obs.append(Ob(name, f, ins, **k))

    # ---- Gaussian
    def g_val(**kw):
        s, fl, r2 = kw["s"], kw["fl"], kw["x"] ** 2 + kw["y"] ** 2
        o = jg.Gaussian(sigma=s, flux=fl)
        return {"x": (arr(o.xValue(kw["x"], kw["y"])) * 2 * PI * s**2, fl * jnp.exp(-r2 / (2 * s**2))), "k": (arr(o.kValue(kw["x"], kw["y"])), fl * jnp.exp(-r2 * s**2 / 2)), "sb": (arr(o.max_sb) * 2 * PI * s**2, fl)}

    ob("gauss-values", g_val, PT + [S, FL])

    def g_size(**kw):
        s = kw["s"]
        out = {}
        for nm in ("sigma", "fwhm", "half_light_radius"):
            o = jg.Gaussian(**{nm: s}, flux=2.0)
            sg = o.sigma
            out[nm] = (arr(getattr(o, nm)), s)
            out[nm + "-half"] = (arr(o.xValue(o.fwhm / 2, 0.0)), 0.5 * arr(o.max_sb))
            # flux inside R is 1 - exp(-R^2/2 sigma^2)
            out[nm + "-hlr"] = (jnp.exp(-(o.half_light_radius**2) / (2 * sg**2)), 0.5)
        return out

    ob("gauss-sizes", g_size, [S])

    GS = [jg.GSParams(), jg.GSParams(maxk_threshold=0.05, folding_threshold=1e-7, stepk_minimum_hlr=3.0), jg.GSParams(maxk_threshold=1e-4, folding_threshold=0.05, stepk_minimum_hlr=5.0)]

    def g_lim(**kw):
        out = {}
        for i, g in enumerate(GS):
            o = jg.Gaussian(sigma=kw["s"], flux=kw["fl"], gsparams=g)
            R = PI / o.stepk
            out["maxk%d" % i] = (arr(o.kValue(o.maxk, 0.0)), g.maxk_threshold * kw["fl"])
            out["hlr%d" % i] = R >= g.stepk_minimum_hlr * o.half_light_radius * (1 - 1e-9)
            big = i == 1  # which of the two bounds is the binding one
            out["fold%d" % i] = (jnp.exp(-(R**2) / (2 * kw["s"] ** 2)), g.folding_threshold) if big else (R, g.stepk_minimum_hlr * o.half_light_radius)
        return out

    ob("gauss-limits", g_lim, [S, F("fl", 0.1, 5)])

    # ---- Exponential
    def e_val(**kw):
        s, fl = kw["s"], kw["fl"]
        o = jg.Exponential(scale_radius=s, flux=fl)
        R = kw["r"]
        k2 = kw["x"] ** 2 + kw["y"] ** 2
        q = 1 + k2 * s**2
        z = arr(o.kValue(kw["x"], kw["y"]))
        return {"x": (arr(o.xValue(0.6 * R, -0.8 * R)) * 2 * PI * s**2, fl * jnp.exp(-R / s)), "k": (z * q * jnp.sqrt(q), fl), "ksq": (z * z * q**3, fl**2)}

    ob("exp-values", e_val, PT + [S, FL, F("r", 0.001, 100)])

    def e_size(**kw):
        s = kw["s"]
        a, b = jg.Exponential(scale_radius=s, flux=2.0), jg.Exponential(half_light_radius=s, flux=2.0)
        out = {"scale": (arr(a.scale_radius), s), "hlr": (arr(b.half_light_radius), s)}
        for i, o in enumerate((a, b)):
            h = o.half_light_radius / o.scale_radius  # flux inside R is 1 - (1 + R/r0) exp(-R/r0)
            out["half%d" % i] = ((1 + h) * jnp.exp(-h), 0.5)
        return out

    ob("exp-sizes", e_size, [S])

    def e_lim(**kw):
        out = {}
        for i, g in enumerate(GS):
            o = jg.Exponential(scale_radius=kw["s"], flux=kw["fl"], gsparams=g)
            R = PI / o.stepk
            out["maxk%d" % i] = ((arr(o.maxk) * kw["s"]) ** 3 * g.maxk_threshold, 1.0)
            out["kmax%d" % i] = arr(o.kValue(0.0, o.maxk)) <= g.maxk_threshold * kw["fl"] * (1 + 1e-9)
            out["hlr%d" % i] = R >= g.stepk_minimum_hlr * o.half_light_radius * (1 - 1e-9)
            if i == 1:  # fixed-point iteration of R = log(1 + R) - log(threshold), three steps
                h = R / kw["s"]
                out["fold"] = jnp.abs(h - jnp.log(1 + h) + np.log(g.folding_threshold)) <= 0.02
            else:
                out["bind%d" % i] = (R, g.stepk_minimum_hlr * o.half_light_radius)
        return out

    ob("exp-limits", e_lim, [S, F("fl", 0.1, 5)])

    # ---- Moffat
    def m_val(beta=None, **kw):
        b = kw["b"] if beta is None else beta
        s, fl = kw["s"], kw["fl"]
        o = jg.Moffat(beta=b, scale_radius=s, flux=fl)
        r2 = (kw["x"] ** 2 + kw["y"] ** 2) / s**2
        return {"x": (arr(o.xValue(kw["x"], kw["y"])) * PI * s**2, fl * (b - 1) * (1 + r2) ** (-b)), "sb": (arr(o.max_sb) * PI * s**2, fl * (b - 1)), "beta": (arr(o.beta), b * 1.0), "scale": (arr(o.scale_radius), s)}

    # the profile is cut where the flux outside falls below xvalue_accuracy
    inside = lambda beta=None, **kw: 1 + (kw["x"] ** 2 + kw["y"] ** 2) / kw["s"] ** 2 <= 0.99 * 1e5 ** (1 / ((kw["b"] if beta is None else beta) - 1))
    ob("moffat-values", m_val, PT + [S, FL, F("b", 1.3, 4)], guards=False, assume=inside)
    for b in (1.5, 2.5, 3.0):
        ob("moffat-values-%s" % b, functools.partial(m_val, b), PT + [S, FL], assume=functools.partial(inside, b), thorough=b != 2.5)

    def m_cut(beta, **kw):
        o = jg.Moffat(beta=beta, scale_radius=kw["s"], flux=kw["fl"])
        edge = (1e5 ** (1 / (beta - 1)) - 1) ** 0.5
        return {"out": (arr(o.xValue(kw["r"] * edge * kw["s"] * 0.6, -0.8 * kw["r"] * edge * kw["s"])), 0.0)}

    ob("moffat-cut", functools.partial(m_cut, 3.0), [S, FL, F("r", 1.001, 10)])

    def m_size(beta=None, **kw):
        b = kw["b"] if beta is None else beta
        out = {}
        for nm in ("scale_radius", "fwhm", "half_light_radius"):
            o = jg.Moffat(beta=b, **{nm: kw["s"]}, flux=2.0)
            h = o.half_light_radius / o.scale_radius
            w = o.fwhm / o.scale_radius / 2
            out[nm] = (arr(getattr(o, nm)), kw["s"])
            out[nm + "-half"] = ((1 + h**2) ** (1 - b), 0.5)  # flux outside R is (1 + R^2/rd^2)^(1-beta)
            out[nm + "-fwhm"] = ((1 + w**2) ** (-b), 0.5)
        return out

    ob("moffat-sizes", m_size, [S, F("b", 1.3, 6)], guards=False)
    for b in (1.5, 2.5, 3.0):
        ob("moffat-sizes-%s" % b, functools.partial(m_size, b), [S], thorough=b != 2.5)

    def m_lim(beta, **kw):
        out = {}
        for i, g in enumerate(GS):
            o = jg.Moffat(beta=beta, scale_radius=kw["s"], flux=kw["fl"], gsparams=g)
            R = PI / o.stepk / kw["s"]
            hl = g.stepk_minimum_hlr * (0.5 ** (1 / (1 - beta)) - 1) ** 0.5
            edge = (g.xvalue_accuracy ** (1 / (1 - beta)) - 1) ** 0.5
            fold = g.folding_threshold ** (0.5 / (1 - beta))
            out["stepk%d" % i] = (R, max(min(fold, edge), hl))
        return out

    for b in (1.5, 2.5, 5.0):
        ob("moffat-stepk-%s" % b, functools.partial(m_lim, b), [S, F("fl", 0.1, 5)], thorough=b == 5.0, validate=0)

    # Fourier transform: flux e^-q (1 + q + ...) / ... for half-integer order, q = k rd
    def mk_poly(beta, q):
        return {1.5: 1.0, 2.5: 1 + q, 3.5: 1 + q + q * q / 3}[beta]

    def m_tail(beta, **kw):
        s, fl, q = kw["s"], kw["fl"], kw["q"]
        o = jg.Moffat(beta=beta, scale_radius=s, flux=fl)
        return {"k": (arr(o.kValue(0.6 * q / s, 0.8 * q / s)) * jnp.exp(q) / fl, mk_poly(beta, q))}

    for b in (1.5, 2.5):
        mx = float(jg.Moffat(beta=b, scale_radius=1.0).maxk)
        ob("moffat-tail-%s" % b, functools.partial(m_tail, b, s=2.0), [F("fl", 0.1, 5), F("q", mx * 1.001, mx * 10)], tol=1e-6, validate=0, thorough=b == 2.5)

    def m_tab(beta, i, mx, **kw):
        """inside the table: e^-q = e^-q_i e with Taylor polynomials bracketing e over one spacing"""
        h = mx / 699
        q = h * (i + kw["d"])
        o = jg.Moffat(beta=beta, scale_radius=1.0, flux=1.0)
        return {"k": jnp.abs(arr(o.kValue(q, 0.0)) - float(np.exp(-h * i)) * kw["e"] * mk_poly(beta, q)) <= (3e-5 if i == 0 else 1e-6)}

    def m_tab_ok(mx, d, e):
        t_ = mx / 699 * d
        lo = 1 - t_ + t_**2 / 2 - t_**3 / 6
        return jnp.stack([e >= lo, e <= lo + t_**4 / 24])

    for b in (1.5, 2.5, 3.5):
        mx = float(jg.Moffat(beta=b, scale_radius=1.0).maxk)
        for i in (0, 1, 2, 50, 333, 600, 697, 698):
            ob("moffat-table-%s-%d" % (b, i), functools.partial(m_tab, b, i, mx), [F("d", 1e-4, 1 - 1e-6), F("e", 0.5, 1.0)], assume=functools.partial(m_tab_ok, mx), validate=0, thorough=(b, i) not in ((2.5, 1), (2.5, 333), (1.5, 698)))

    # ---- Spergel
    def sp_k(**kw):
        o = jg.Spergel(nu=kw["n"], scale_radius=kw["s"], flux=kw["fl"])
        q = 1 + (kw["x"] ** 2 + kw["y"] ** 2) * kw["s"] ** 2
        return {"k": (arr(o.kValue(kw["x"], kw["y"])), kw["fl"] * q ** (-1 - kw["n"])), "maxk": (arr(o.kValue(0.0, o.maxk)), o.gsparams.maxk_threshold * kw["fl"]), "par": (jnp.stack([arr(o.nu), arr(o.scale_radius)]), jnp.stack([kw["n"], kw["s"]]))}

    ob("spergel-k", sp_k, PT + [S, FL, F("n", -0.8, 3.9)])

    # closed forms: z^nu K_nu(z) = sqrt(pi/2) z^(nu-1/2) e^-z p(1/z); norm 2 pi 2^nu Gamma(1+nu)
    def zk(nu, z):
        n = int(abs(nu) - 0.5)
        p = sum(math.factorial(n + j) / (math.factorial(j) * math.factorial(n - j)) / (2 * z) ** j for j in range(n + 1))
        return float(np.sqrt(PI / 2)) * z ** (nu - 0.5) * jnp.exp(-z) * p

    def zk1(nu, z):
        n = int(nu + 0.5)
        p = sum(math.factorial(n + j) / (math.factorial(j) * math.factorial(n - j)) / 2**j * z ** (n - j) for j in range(n + 1))
        return float(np.sqrt(PI / 2)) * jnp.exp(-z) * p

    def sp_x(nu, **kw):
        s, fl, z = kw["s"], kw["fl"], kw["z"]
        o = jg.Spergel(nu=nu, scale_radius=s, flux=fl)
        nm = 2 * PI * 2**nu * math.gamma(1 + nu)
        return {"x": (arr(o.xValue(0.6 * z * s, -0.8 * z * s)) * s**2 * nm, fl * zk(nu, z)), "in": (arr(o.calculateIntegratedFlux(z * s)), 1 - zk1(nu, z) / (2**nu * math.gamma(1 + nu)))}

    for nu in (-0.5, 0.5, 1.5, 2.5, 3.5):
        ob("spergel-x-%s" % nu, functools.partial(sp_x, nu), [S, FL, F("z", 0.01, 20)], validate=0 if nu != 0.5 else 1, thorough=nu in (2.5, 3.5))

    def sp_size(nu, **kw):
        a, b = jg.Spergel(nu=nu, scale_radius=kw["s"]), jg.Spergel(nu=nu, half_light_radius=kw["s"])
        out = {"hlr": (arr(b.half_light_radius), kw["s"]), "scale": (arr(a.scale_radius), kw["s"])}
        for i, o in enumerate((a, b)):
            out["half%d" % i] = jnp.abs(1 - zk1(nu, o.half_light_radius / o.scale_radius) / (2**nu * math.gamma(1 + nu)) - 0.5) <= 1e-6
        return out

    for nu in (-0.5, 0.5, 1.5, 2.5, 3.5):
        ob("spergel-sizes-%s" % nu, functools.partial(sp_size, nu), [S], validate=0, thorough=nu in (2.5,))

    def sp_step(nu, g, f, **kw):
        o = jg.Spergel(nu=nu, scale_radius=kw["s"], gsparams=g)
        out = {}
        z = arr(o.calculateFluxRadius(f)) / kw["s"]
        out["radius"] = jnp.abs(1 - zk1(nu, z) / (2**nu * math.gamma(1 + nu)) - f) <= 1e-6
        R = PI / o.stepk / kw["s"]
        h = g.stepk_minimum_hlr * o.half_light_radius / kw["s"]
        t_ = 1 - zk1(nu, R) / (2**nu * math.gamma(1 + nu))
        out["fold"] = t_ >= 1 - g.folding_threshold * (1 + 1e-6)
        out["hlr"] = R >= h * (1 - 1e-9)
        out["tight"] = jnp.minimum(jnp.abs(t_ - 1 + g.folding_threshold) - 1e-6 * g.folding_threshold, jnp.abs(R - h) - 1e-7) <= 0
        return out

    for nu, gi, f in ((0.5, 0, 0.5), (0.5, 1, 0.9), (-0.5, 0, 0.3), (1.5, 2, 0.7)):
        ob("spergel-radius-%s-%d" % (nu, gi), functools.partial(sp_step, nu, GS[gi], f), [S], validate=0, thorough=nu in (1.5,))

    # radii enclosing nearly all of the flux
    def sp_far(nu, f, **kw):
        z = arr(jg.Spergel(nu=nu, scale_radius=kw["s"]).calculateFluxRadius(f)) / kw["s"]
        return {"out": jnp.abs(zk1(nu, z) / (2**nu * math.gamma(1 + nu)) - (1 - f)) <= 1e-3 * (1 - f)}

    for nu, f in ((0.5, 1 - 1e-9), (1.5, 1 - 1e-7), (-0.5, 1 - 1e-10), (3.5, 1 - 1e-8)):
        ob("spergel-far-%s" % nu, functools.partial(sp_far, nu, f), [S], validate=0, thorough=nu in (3.5,))

    # very small radii: series on the first 1e-10 scale radii
    def sp_small(nu, **kw):
        o = jg.Spergel(nu=nu, scale_radius=1.0, flux=kw["fl"])
        return {"x": jnp.abs(arr(o.xValue(kw["z"] * 1e-11, 0.0)) - o.max_sb) <= 1e-6 * kw["fl"], "centre": (arr(o.xValue(0.0, 0.0)), o.max_sb)}

    for nu in (1.0, 2.0, 3.0, 1.5, 2.5):
        ob("spergel-centre-%s" % nu, functools.partial(sp_small, nu), [F("fl", 0.1, 5), F("z", 0.01, 9.9)], validate=0, thorough=nu not in (1.0, 2.0, 1.5))

    # ---- Box, Pixel
    def b_val(**kw):
        w, h, fl, x, y = kw["w"], kw["h"], kw["fl"], kw["x"], kw["y"]
        o = jg.Box(w, h, flux=fl)
        ins = (x > -w / 2) & (x < w / 2) & (y > -h / 2) & (y < h / 2)
        edge = (x == w / 2) | (x == -w / 2) | (y == h / 2) | (y == -h / 2)
        v = arr(o.xValue(x, y))
        return {"x": (jnp.where(edge, 0.0, v * w * h), jnp.where(ins & ~edge, fl, 0.0)), "sb": (arr(o.max_sb) * w * h, fl), "par": (jnp.stack([arr(o.width), arr(o.height)]), jnp.stack([w, h])), "lim": (jnp.stack([arr(o.stepk) * jnp.maximum(w, h), arr(o.maxk) * jnp.minimum(w, h) * o.gsparams.maxk_threshold]), jnp.asarray([PI, 2.0]))}

    ob("box-values", b_val, PT + [F("w", 0.1, 10), F("h", 0.1, 10), FL])

    def b_k(**kw):
        w, h, fl, x, y = kw["w"], kw["h"], kw["fl"], kw["x"], kw["y"]
        o = jg.Box(w, h, flux=fl)
        return {"k": (arr(o.kValue(x, y)) * (w * x / 2) * (h * y / 2), fl * jnp.sin(w * x / 2) * jnp.sin(h * y / 2)), "kx": (arr(o.kValue(x, 0.0)) * (w * x / 2), fl * jnp.sin(w * x / 2)), "ky": (arr(o.kValue(0.0, y)) * (h * y / 2), fl * jnp.sin(h * y / 2))}

    ob("box-k", b_k, [F("x", 0.01, 20), F("y", -20, -0.01), F("w", 0.1, 10), F("h", 0.1, 10), FL])

    def pix(**kw):
        s, x, y = kw["s"], kw["x"], kw["y"]
        o, b = jg.Pixel(s, flux=kw["fl"]), jg.Box(s, s, flux=kw["fl"])
        return {"x": (arr(o.xValue(x, y)), arr(b.xValue(x, y))), "k": (arr(o.kValue(x, y)), arr(b.kValue(x, y))), "s": (jnp.stack([arr(o.scale), arr(o.width), arr(o.height), arr(o.maxk), arr(o.stepk), arr(o.max_sb)]), jnp.stack([s, s, s, arr(b.maxk), arr(b.stepk), arr(b.max_sb)]))}

    ob("pixel", pix, PT + [S, FL])

    # ---- point source: flat spectrum, nothing away from the origin
    def delta(**kw):
        o = jg.DeltaFunction(flux=kw["fl"])
        return {"k": (o.kValue(kw["x"], kw["y"]) + 0j, kw["fl"] + 0j), "x": (arr(o.xValue(kw["x"], kw["y"])), 0.0)}

    ob("delta", delta, PT + [FL], assume=lambda **kw: kw["x"] ** 2 + kw["y"] ** 2 >= 1e-6)
    return obs
