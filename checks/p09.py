import re

from vlib import fork
from vlib.common import *

FUNCTIONS = ["Angle.__init__/rad/deg/+,-,*,/,neg,abs,comparisons", "Angle.wrap", "Angle.sin/cos/tan/sincos", "AngleUnit", "AngleUnit.from_name",
             "Angle.dms/hms/from_dms/from_hms", "_Angle"]
ASSUMPTIONS = ["angles up to 100 turns (strings: up to 1000 degrees / 60 hours, prec in {None,0,2,3})",
               "string formatting is followed symbolically: each printed integer is a token standing for its symbolic value"]
UN = [("radians", 1.0), ("hours", PI / 12), ("degrees", PI / 180), ("arcmin", PI / 10800), ("arcsec", PI / 648000)]


def arr(x):
    return jnp.asarray(fork.unwrap(x))


def val(tok):
    """integer printed in a string"""
    return arr(fork.to_int(tok))


def obligations(tier):
    obs = []
    for nm, sz in UN:
        def units(v, u, sz=sz, nm=nm):
            U = getattr(jg, nm)
            a = v * U
            b = jg.Angle(v, U)
            w = jg.AngleUnit(u)
            out = {"rad": (arr(a.rad), arr(v) * sz), "ctor": (arr(b.rad), arr(v) * sz), "deg": (arr(a.deg), arr(v) * sz * 180 / PI),
                   "back": (arr(a / U), arr(v)), "custom": (arr((v * w).rad), arr(v) * arr(u)), "ratio": (arr(U / w) * arr(u), sz), "copy": (arr(jg.Angle(a).rad), arr(v) * sz),
                   "value": (arr(w.value), arr(u)), "_": (arr(jg._Angle(v).rad), arr(v))}
            for n2, s2 in UN:
                out["to " + n2] = (arr(a / getattr(jg, n2)), arr(v) * sz / s2)
                out["unit " + n2] = (arr(U / getattr(jg, n2)), sz / s2)
            for s in {"radians": ["rad", "radians", " Radians"], "degrees": ["deg", "degrees", "DEGREES"], "hours": ["hr", "hour", "hours"], "arcmin": ["arcmin", "arcminutes"],
                      "arcsec": ["arcsec", "arcseconds "]}[nm]:
                out["name " + s] = (arr(jg.AngleUnit.from_name(s).value), sz)
            return out

        R = 700 / sz
        obs.append(Ob("unit-" + nm, units, [F("v", -R, R), F("u", 0.001, 10)]))
        obs.append(Ob("unit-py-" + nm, units, [PF("v", -R, R), PF("u", 0.001, 10)]))
        obs.append(Ob("unit-int-" + nm, units, [PI_("v", -1000, 1000), PF("u", 0.001, 10)]))

    def arith(a, b, k):
        A, B = a * jg.radians, jg._Angle(b)
        out = {"+": (arr((A + B).rad), arr(a) + arr(b)), "-": (arr((A - B).rad), arr(a) - arr(b)), "neg": (arr((-A).rad), -arr(a)), "pos": (arr((+A).rad), arr(a)), "abs": (arr(abs(A).rad), jnp.abs(arr(a))),
               "*": (arr((A * k).rad), arr(a) * arr(k)), "*2": (arr((A * 2).rad), 2 * arr(a)), "2*": (arr((2 * A).rad), 2 * arr(a)), "/": (arr((A / k).rad) * arr(k), arr(a)),
               "/4": (arr((A / 4).rad), arr(a) / 4), "keep": (arr(A.rad), arr(a)), "keepb": (arr(B.rad), arr(b)),
               "lt": arr(A < B) == (arr(a) < arr(b)), "le": arr(A <= B) == (arr(a) <= arr(b)), "gt": arr(A > B) == (arr(a) > arr(b)), "ge": arr(A >= B) == (arr(a) >= arr(b)),
               "eq": arr(A == B) == (arr(a) == arr(b)), "ne": arr(A != B) == (arr(a) != arr(b)), "eqself": arr(A == jg._Angle(a)), "sin": (arr(A.sin()), jnp.sin(arr(a))),
               "cos": (arr(A.cos()), jnp.cos(arr(a))), "tan": (arr(A.tan()) * jnp.cos(arr(a)), jnp.sin(arr(a))), "sc0": (arr(A.sincos()[0]), jnp.sin(arr(a))), "sc1": (arr(A.sincos()[1]), jnp.cos(arr(a)))}
        return out

    nz = lambda a, b, k: jnp.stack([jnp.abs(k) > 0.01, jnp.abs(jnp.cos(a)) > 0.01])
    ar = lambda mk: [mk("a", -20, 20), mk("b", -20, 20), mk("k", -50, 50)]
    obs.append(Ob("arith", arith, ar(F), assume=nz, fork=True))
    obs.append(Ob("arith-py", arith, ar(PF), assume=nz))

    def equal(a):
        A, B = a * jg.degrees, a * jg.degrees
        return {"eq": arr(A == B), "ne": ~arr(A != B), "le": arr(A <= B), "ge": arr(A >= B), "lt": ~arr(A < B), "gt": ~arr(A > B), "u": arr(jg.degrees == jg.AngleUnit(PI / 180)),
                "un": arr(jg.degrees != jg.hours), "type": jnp.asarray((A == 3) is False), "utype": jnp.asarray((jg.degrees == 3) is False)}

    obs.append(Ob("compare-equal", equal, [F("a", -1000, 1000)], fork=True))

    def refuse(a):
        n = 0
        A = a * jg.degrees
        for f in (lambda: A + 1.0, lambda: A - 1.0, lambda: A * A, lambda: A / A, lambda: A * jg.degrees, lambda: jg.Angle(A, jg.degrees), lambda: jg.Angle(3.0), lambda: jg.Angle(3.0, 4.0),
                  lambda: A < 3.0, lambda: A <= 3.0, lambda: A > 3.0, lambda: A >= 3.0, lambda: jg.AngleUnit(jg.degrees), lambda: jg.degrees / 3.0, lambda: jg.AngleUnit(jg.AngleUnit(1.0))):
            try:
                f()
            except TypeError:
                n += 1
        for f in (lambda: jg.AngleUnit.from_name("furlong"), lambda: jg.Angle.from_dms("12"), lambda: A.dms(sep="::::"), lambda: A.hms(prec=-1)):
            try:
                f()
            except ValueError:
                n += 1
        return {"n": jnp.asarray(n == 19)}

    obs.append(Ob("refusals", refuse, [F("a", -10, 10)]))

    def wrap(a, c):
        A, Cn = a * jg.radians, c * jg.radians
        w = A.wrap(Cn)
        k = (arr(a) - arr(w.rad)) / (2 * PI)
        return {"turns": (k, jnp.round(k)), "lo": arr(w.rad) >= arr(c) - PI - 1e-9, "hi": arr(w.rad) <= arr(c) + PI + 1e-9}

    def wrap0(a):
        w = (a * jg.radians).wrap()
        k = (arr(a) - arr(w.rad)) / (2 * PI)
        return {"turns": (k, jnp.round(k)), "lo": arr(w.rad) >= -PI - 1e-9, "hi": arr(w.rad) <= PI + 1e-9}

    R = 628 if tier == "thorough" else 314
    obs.append(Ob("wrap", wrap, [F("a", -R, R), F("c", -20, 20)]))
    obs.append(Ob("wrap0", wrap0, [F("a", -R, R)]))
    obs.append(Ob("wrap-py", wrap, [PF("a", -R, R), PF("c", -20, 20)]))
    obs.append(Ob("wrap0-py", wrap0, [PF("a", -R, R)]))

    for kind, top, unit in (("dms", 1000, PI / 180), ("hms", 60, PI / 12)):
        for prec in (None, 0, 2, 3):
            def string(v, kind=kind, unit=unit, prec=prec):
                A = jg._Angle(v * unit)
                s = getattr(A, kind)(prec=prec)
                m = re.fullmatch(r"(-?)(\d+):(\d+):(\d+)(?:\.(\d+))?", s)
                if not m:
                    return {"format": jnp.asarray(False)}
                sg, d, mi, se, fr = m.groups()
                n = 8 if prec is None else prec
                tot = val(d) * 3600 + val(mi) * 60 + val(se)
                if fr is not None:
                    if int(fr) not in (fork.Forker.cur.tokens if fork.Forker.cur else {}):
                        fr = fr + "0" * (n - len(fr))
                    tot = tot + val(fr) / 10.0**n
                    fok = (val(fr) >= 0) & (val(fr) < 10**n)
                else:
                    fok = jnp.asarray(True)
                x = arr(v)
                err = tot - jnp.abs(x) * 3600
                return {"sign": (x < 0) == jnp.asarray(sg == "-"), "min": (val(mi) >= 0) & (val(mi) < 60), "sec": (val(se) >= 0) & (val(se) < 60), "frac": fok,
                        "value": (err <= 0.5 * 10.0**-n + 1e-9) & (err >= -0.5 * 10.0**-n - 1e-9)}

            obs.append(Ob("%s-%s" % (kind, prec), string, [PF("v", -top, top)]))
            obs.append(Ob("%s-%s-jax" % (kind, prec), string, [F("v", -top, top)], fork=True))

        def styles(v, kind=kind, unit=unit):
            A = jg._Angle(v * unit)
            out = {}
            ref = getattr(A, kind)(prec=2)
            rv = re.split(r"[:.]", ref.lstrip("-"))
            for nm, kw, pat in (("sep3", {"sep": "dms"}, r"(-?)(\d+)d(\d+)m(\d+)\.(\d+)s"), ("seps", {"sep": ("h", "m", "s")}, r"(-?)(\d+)h(\d+)m(\d+)\.(\d+)s"),
                                ("sep2", {"sep": "ab"}, r"(-?)(\d+)a(\d+)b(\d+)\.(\d+)"), ("sep1", {"sep": " "}, r"(-?)(\d+) (\d+) (\d+)\.(\d+)"),
                                ("plus", {"plus_sign": True}, r"([-+])(\d+):(\d+):(\d+)\.(\d+)"), ("nopad", {"pad": False}, r"(-?)(\d+):(\d+):(\d+)\.(\d+)")):
                m = re.fullmatch(pat, getattr(A, kind)(prec=2, **kw))
                if not m:
                    return {nm: jnp.asarray(False)}
                neg = jnp.asarray(m.group(1) == "-")
                out[nm] = (arr(v) < 0) == neg
                out[nm + "s"] = jnp.asarray(nm != "plus" or m.group(1) in "+-" and m.group(1) != "")
                out[nm + "v"] = (jnp.stack([val(g) for g in m.groups()[1:]]), jnp.stack([val(g) for g in rv]))
                if nm == "nopad":
                    out[nm + "p"] = jnp.asarray(all(g == "0" or not g.startswith("0") for g in m.groups()[1:4]))
                else:
                    out[nm + "p"] = jnp.asarray(all(len(g) >= 2 for g in m.groups()[1:]))
            return out

        obs.append(Ob(kind + "-styles", styles, [PF("v", -top, top)], validate=6))

        def parse(d, m, s, kind=kind, unit=unit):
            f = lambda x: "%d" % x if isinstance(x, fork.Num) else "%.12f" % x
            g = getattr(jg.Angle, "from_" + kind)
            D, M, S = arr(d), arr(m), arr(s)
            tot = D + M / 60 + S / 3600
            out = {}
            for nm, st, w in (("full", "%s:%s:%s" % (f(d), f(m), f(s)), tot), ("neg", "-%s:%s:%s" % (f(d), f(m), f(s)), -tot), ("plus", "+%s:%s:%s" % (f(d), f(m), f(s)), tot),
                              ("sp", " %s %s %s" % (f(d), f(m), f(s)), tot), ("let", "%sh%sm%ss" % (f(d), f(m), f(s)), tot), ("negsp", "-%s %s %s" % (f(d), f(m), f(s)), -tot),
                              ("two", "%s:%s" % (f(d), f(m)), D + M / 60), ("twoneg", "-%s:%s" % (f(d), f(m)), -(D + M / 60)), ("letneg", "-%sd%sm" % (f(d), f(m)), -(D + M / 60))):
                out[nm] = (arr(g(st).rad), w * unit)
            return out

        obs.append(Ob("from_" + kind, parse, [PF("d", 0, 1000), PF("m", 0, 60), PF("s", 0, 60)], atol=1e-6))
    return obs
