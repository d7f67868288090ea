from vlib.common import *

FUNCTIONS = ["Gaussian/Exponential/Moffat/Spergel/Box/Pixel/DeltaFunction: __init__, _xValue, _kValue, withFlux, withGSParams, _max_sb, _maxk, _stepk, flux, positive_flux, negative_flux, centroid", "GSObject.withFlux/withScaledFlux/xValue/kValue/nyquist_scale/__mul__/__neg__",
             "Moffat._kValue_untrunc_interp_coeffs, akima_interp_coeffs, akima_interp (700 nodes)", "bessel.kv is replaced by its closed form at half-integer order, by values at constants, and left uninterpreted otherwise (P30 decides kv)"]
ASSUMPTIONS = [
    "sizes 0.1..10, fluxes within 5, positions within 20 (k within 20); Moffat beta and Spergel nu: a list of values in quick, symbolic where the formula allows",
    "default and two further GSParams settings",
]
PT = [F("x", -20, 20), F("y", -20, 20)]
FL = F("fl", -5, 5)
S = F("s", 0.1, 10)


def arr(v):
    return jnp.asarray(v, dtype=float)


def mk(name, gs=None):
    """profile of the given kind: (size, flux) -> object"""
    k, _, a = name.partition(":")
    return {
        "gauss": lambda s, f: jg.Gaussian(sigma=s, flux=f, gsparams=gs),
        "gauss-fwhm": lambda s, f: jg.Gaussian(fwhm=s, flux=f, gsparams=gs),
        "gauss-hlr": lambda s, f: jg.Gaussian(half_light_radius=s, flux=f, gsparams=gs),
        "exp": lambda s, f: jg.Exponential(scale_radius=s, flux=f, gsparams=gs),
        "exp-hlr": lambda s, f: jg.Exponential(half_light_radius=s, flux=f, gsparams=gs),
        "moffat": lambda s, f: jg.Moffat(beta=float(a), scale_radius=s, flux=f, gsparams=gs),
        "moffat-fwhm": lambda s, f: jg.Moffat(beta=float(a), fwhm=s, flux=f, gsparams=gs),
        "moffat-hlr": lambda s, f: jg.Moffat(beta=float(a), half_light_radius=s, flux=f, gsparams=gs),
        "spergel": lambda s, f: jg.Spergel(nu=float(a), scale_radius=s, flux=f, gsparams=gs),
        "spergel-hlr": lambda s, f: jg.Spergel(nu=float(a), half_light_radius=s, flux=f, gsparams=gs),
        "box": lambda s, f: jg.Box(s, float(a) * s, flux=f, gsparams=gs),
        "pixel": lambda s, f: jg.Pixel(s, flux=f, gsparams=gs),
        "delta": lambda s, f: jg.DeltaFunction(flux=f, gsparams=gs),
    }[k]


ALL = ["gauss", "gauss-fwhm", "gauss-hlr", "exp", "exp-hlr", "moffat:2.5", "moffat:1.5", "moffat:3.1", "moffat-fwhm:2.5", "moffat-hlr:3.5", "spergel:0.5", "spergel:-0.5", "spergel:1.5", "spergel:-0.3", "spergel-hlr:0.5", "box:1.0", "box:2.5", "pixel", "delta"]
QUICK = ["gauss", "gauss-hlr", "exp", "moffat:2.5", "moffat:1.5", "spergel:0.5", "spergel:-0.3", "box:2.5", "pixel", "delta"]
ROUND = ("gauss", "exp", "moffat", "spergel")
SIZES = {"gauss": ("sigma", "fwhm", "half_light_radius"), "exp": ("scale_radius", "half_light_radius"), "moffat": ("scale_radius", "beta", "trunc", "fwhm", "half_light_radius"), "spergel": ("scale_radius", "nu", "half_light_radius"), "box": ("width", "height"), "pixel": ("width", "height", "scale"), "delta": ()}


def kind(n):
    return n.split(":")[0].split("-")[0]


def obligations(tier):
    obs = []
    VAL = 1 if tier == "thorough" else 0
    for n in ALL:
        th = n not in QUICK
        kd = kind(n)
        slow = kd == "moffat"  # 700-node Fourier table
        inf = n.startswith("spergel:-")  # infinite surface brightness at the centre: stay away from it
        away = lambda **kw: kw["x"] ** 2 + kw["y"] ** 2 >= 0.0001 * kw.get("s", 1.0) ** 2
        asm = away if kd in ("spergel", "exp") else None

        def k0(n=n, kd=kd, **kw):
            o = mk(n)(kw["s"], kw["fl"])
            z = o.kValue(0.0, 0.0)
            return {"k0": (z + 0j, kw["fl"] + 0j), "flux": (arr(o.flux), kw["fl"]), "cen": (jnp.stack([arr(o.centroid.x), arr(o.centroid.y)]), jnp.zeros(2)), "pos": (arr(o.positive_flux) - arr(o.negative_flux), kw["fl"]), "neg": arr(o.negative_flux) >= 0,
                    "nyquist": (arr(o.nyquist_scale) * arr(o.maxk) if kd != "delta" else arr(PI), PI)}

        obs.append(Ob("k0-" + n, k0, [S, F("fl", 0.1, 5) if slow else FL], validate=1, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))
        if slow:
            obs.append(Ob("k0-neg-" + n, k0, [S, F("fl", -5, -0.1)], validate=0, thorough=True))

        # values scale with flux; withFlux, withScaledFlux and the operators agree
        if kd != "delta":
            def xlin(n=n, **kw):
                o, u = mk(n)(kw["s"], kw["fl"]), mk(n)(kw["s"], 1.0)
                p = jg.PositionD(kw["x"], kw["y"])
                w = o.withFlux(kw["w"])
                b = u.xValue(p)
                return {"x": (arr(o.xValue(p)), kw["fl"] * b), "withFlux": (arr(w.xValue(p)), kw["w"] * b), "mul": (arr((u * kw["w"]).xValue(p)), kw["w"] * b), "neg": (arr((-u).xValue(p)), -b),
                        "wflux": (jnp.stack([arr(w.flux), arr((o * 2.0).flux), arr((-o).flux), arr((o / 4.0).flux)]), jnp.stack([kw["w"], 2 * kw["fl"], -kw["fl"], kw["fl"] / 4]))}

            obs.append(Ob("xflux-" + n, xlin, PT + [S, FL, F("w", -5, 5)], assume=asm, validate=1, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

        if not slow:
            def klin(n=n, **kw):
                o, u = mk(n)(kw["s"], kw["fl"]), mk(n)(kw["s"], 1.0)
                p = jg.PositionD(kw["x"], kw["y"])
                w = o.withFlux(kw["w"])
                b = u.kValue(p) + 0j
                return {"k": (o.kValue(p) + 0j, kw["fl"] * b), "withFlux": (w.kValue(p) + 0j, kw["w"] * b), "mul": ((u * kw["w"]).kValue(p) + 0j, kw["w"] * b), "real": (jnp.imag(b), 0.0)}

            obs.append(Ob("kflux-" + n, klin, PT + [S, FL, F("w", -5, 5)], validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

        # size scaling law: f_{a s}(a p) = f_s(p)/a^2, F_{a s}(k/a) = F_s(k)
        if kd != "delta":
            def xscale(n=n, **kw):
                o, u = mk(n)(kw["s"] * kw["a"], kw["fl"]), mk(n)(kw["s"], kw["fl"])
                return {"x": (arr(o.xValue(kw["x"] * kw["a"], kw["y"] * kw["a"])) * kw["a"] ** 2, arr(u.xValue(kw["x"], kw["y"]))), "lim": (jnp.stack([arr(o.maxk), arr(o.stepk)]) * kw["a"], jnp.stack([arr(u.maxk), arr(u.stepk)])), "sb": (arr(o.max_sb) * kw["a"] ** 2, arr(u.max_sb)) if not inf else (arr(0.0), 0.0)}

            obs.append(Ob("xscale-" + n, xscale, PT + [S, FL, F("a", 0.2, 5)], assume=asm, validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

            if not slow:
                def kscale(n=n, **kw):
                    o, u = mk(n)(kw["s"] * kw["a"], kw["fl"]), mk(n)(kw["s"], kw["fl"])
                    return {"k": (o.kValue(kw["x"] / kw["a"], kw["y"] / kw["a"]) + 0j, u.kValue(kw["x"], kw["y"]) + 0j)}

                obs.append(Ob("kscale-" + n, kscale, PT + [S, FL, F("a", 0.2, 5)], validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

        # symmetry
        if kd in ROUND:
            def xsym(n=n, kd=kd, slow=slow, **kw):
                o = mk(n)(kw["s"], kw["fl"])
                x, y = kw["x"], kw["y"]
                b = arr(o.xValue(x, y))
                out = {"even": (arr(o.xValue(-x, -y)), b), "turn": (arr(o.xValue(0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y)), b), "swap": (arr(o.xValue(y, x)), b)}
                if not slow:
                    c = o.kValue(x, y) + 0j
                    out.update(keven=(o.kValue(-x, -y) + 0j, c), kturn=(o.kValue(-0.28 * x - 0.96 * y, 0.96 * x - 0.28 * y) + 0j, c))
                return dict(out, flags=jnp.asarray([o.is_axisymmetric, o.is_analytic_x, o.is_analytic_k, not o.has_hard_edges]))

            obs.append(Ob("sym-" + n, xsym, PT + [S, FL], assume=asm, validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))
        elif kd in ("box", "pixel"):
            def bsym(n=n, **kw):
                o = mk(n)(kw["s"], kw["fl"])
                x, y = kw["x"], kw["y"]
                b, c = arr(o.xValue(x, y)), o.kValue(x, y) + 0j
                return {"mx": (arr(o.xValue(-x, y)), b), "my": (arr(o.xValue(x, -y)), b), "kmx": (o.kValue(-x, y) + 0j, c), "kmy": (o.kValue(x, -y) + 0j, c), "flags": jnp.asarray([not o.is_axisymmetric, o.is_analytic_x, o.is_analytic_k, o.has_hard_edges])}

            obs.append(Ob("sym-" + n, bsym, PT + [S, FL], validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

        # withFlux and withGSParams leave everything else alone
        def keep(n=n, kd=kd, **kw):
            o = mk(n)(kw["s"], kw["fl"])
            g = jg.GSParams(folding_threshold=0.02, maxk_threshold=0.01, kvalue_accuracy=1e-6, xvalue_accuracy=1e-7, stepk_minimum_hlr=7.0)
            out = {}
            og = mk(n, g)(kw["s"], kw["fl"])
            for i, q in enumerate((o.withFlux(kw["w"]), og.withFlux(kw["w"]), o.withGSParams(g), o.withGSParams(folding_threshold=0.1))):
                out["sizes%d" % i] = (jnp.stack([arr(getattr(q, a)) for a in SIZES[kd]] + [arr(q.flux)]), jnp.stack([arr(getattr(o, a)) for a in SIZES[kd]] + [kw["w"] if i < 2 else kw["fl"]]))
            q = o.withGSParams(g)
            if kd != "delta":
                out["lim"] = (jnp.stack([arr(q.maxk), arr(q.stepk)]), jnp.stack([arr(og.maxk), arr(og.stepk)]))
            out["gs"] = jnp.asarray([o.withFlux(kw["w"]).gsparams == o.gsparams, og.withFlux(kw["w"]).gsparams == g, q.gsparams == g, o.withGSParams(folding_threshold=0.1).gsparams == jg.GSParams(folding_threshold=0.1), o.gsparams == jg.GSParams(), type(q) is type(o), type(o.withFlux(2.0)) is type(o)])
            return out

        obs.append(Ob("keep-" + n, keep, [S, FL, F("w", -5, 5)], validate=VAL, thorough=th or n in ("spergel:-0.3", "moffat:1.5")))

    # brightest at the centre
    for n in ("gauss", "exp", "moffat:2.5", "spergel:0.5", "spergel:1.5", "box:2.5", "pixel"):
        def peak(n=n, **kw):
            o = mk(n)(kw["s"], kw["fl"])
            m = arr(o.max_sb)
            return {"centre": (arr(o.xValue(0.0, 0.0)), m)}

        obs.append(Ob("peak-" + n, peak, [S, F("fl", 0.1, 5)], validate=VAL))

    def bound(n, **kw):
        o = mk(n)(kw["s"], kw["fl"])
        v = arr(o.xValue(kw["x"], kw["y"]))
        return {"le": v <= arr(o.max_sb) * (1 + 1e-9), "ge": v >= 0, "k": jnp.abs(o.kValue(kw["x"], kw["y"])) <= kw["fl"] * (1 + 1e-9) if kind(n) not in ("moffat", "box", "pixel") else jnp.asarray(True)}

    for n in ("gauss", "exp", "moffat:2.0", "box:2.5", "pixel"):
        obs.append(Ob("bound-" + n, functools.partial(bound, n), PT + [S, F("fl", 0.1, 5)], validate=2, thorough=n in ("moffat:2.0",)))

    # symbolic index
    def mof(**kw):
        o, u = jg.Moffat(beta=kw["b"], scale_radius=kw["s"], flux=kw["fl"]), jg.Moffat(beta=kw["b"], scale_radius=kw["s"], flux=1.0)
        x, y = kw["x"], kw["y"]
        b = arr(o.xValue(x, y))
        return {"lin": (b, kw["fl"] * arr(u.xValue(x, y))), "turn": (arr(o.xValue(0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y)), b), "w": (arr(o.withFlux(2.0).xValue(x, y)), 2 * arr(u.xValue(x, y))), "peak": (arr(o.xValue(0.0, 0.0)), arr(o.max_sb))}

    obs.append(Ob("moffat-beta", mof, PT + [S, FL, F("b", 1.3, 6)], validate=1, guards=False))

    def sp(**kw):
        o, u = jg.Spergel(nu=kw["n"], scale_radius=kw["s"], flux=kw["fl"]), jg.Spergel(nu=kw["n"], scale_radius=kw["s"], flux=1.0)
        x, y = kw["x"], kw["y"]
        c = o.kValue(x, y)
        return {"k0": (arr(o.kValue(0.0, 0.0)), kw["fl"]), "klin": (c, kw["fl"] * u.kValue(x, y)), "kturn": (o.kValue(0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y), c), "w": (o.withFlux(2.0).kValue(x, y), 2 * u.kValue(x, y))}

    obs.append(Ob("spergel-nu", sp, PT + [S, FL, F("n", -0.8, 3.9)], validate=1))

    # Moffat Fourier values: linear in flux and size-free, in windows of the table and beyond its end
    def mk_(beta, lo, **kw):
        r = kw["r"]
        o, u, b = jg.Moffat(beta=beta, scale_radius=1.0, flux=kw["fl"]), jg.Moffat(beta=beta, scale_radius=1.0, flux=1.0), jg.Moffat(beta=beta, scale_radius=2.0, flux=kw["fl"])
        c = o.kValue(r, 0.0)
        out = {"lin": (c, kw["fl"] * u.kValue(0.0, -r)), "size": (b.kValue(-0.3 * r, 0.4 * r), c)}
        if tier == "thorough":
            out.update({"even": (o.kValue(-r, 0.0), c), "turn": (o.kValue(0.6 * r, 0.8 * r), c), "y": (o.kValue(0.0, -r), c)})
        return out

    for beta in (2.5, 3.1):
        mx = float(jg.Moffat(beta=beta, scale_radius=1.0).maxk)
        h = mx / 699
        for nm, lo, hi in (("start", 1e-6, 1.5 * h), ("mid", 200.2 * h, 201.7 * h), ("end", 698.3 * h, mx * (1 - 1e-9)), ("tail", mx * 1.0001, mx * 20)):
            obs.append(Ob("moffat-k-%s-%s" % (beta, nm), functools.partial(mk_, beta, lo), [F("r", lo, hi), F("fl", 0.1, 5)], validate=VAL, thorough=not (beta == 2.5 and nm in ("start", "tail"))))
    return obs
