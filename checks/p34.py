import itertools

from vlib import fork
from vlib.common import *

FUNCTIONS = ["GSParams.combine", "GSParams.withParams", "GSParams.check", "Sum/Convolution/Deconvolution/Transformation gsparams propagation", "GSObject.withGSParams"]
ASSUMPTIONS = ["at most two parameters symbolic at a time, the others at distinct fixed values per input; up to three inputs",
               "parameter values are Python numbers up to 10^6"]
MAXF = ["minimum_fft_size", "maximum_fft_size", "stepk_minimum_hlr"]
FIELDS = ["minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing",
          "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr", "shoot_accuracy"]
INTF = ["minimum_fft_size", "maximum_fft_size", "table_spacing"]


def arr(x):
    return jnp.asarray(fork.unwrap(x)) * 1.0


def base(k):
    """three sets that differ in every field, in different orders"""
    out = {}
    for i, f in enumerate(FIELDS):
        out[f] = (64 + 32 * ((i + k) % 3)) if f in INTF else 1e-3 * (1 + (i * 2 + k) % 3)
    return out


class V(dict):
    """field -> value; comparison of two of them is a goal"""

    def at(self, f, x):
        return V(self, **{f: x})


def allf(g):
    return V({f: getattr(g, f) for f in FIELDS})


def want(*gs):
    out = V()
    for f in FIELDS:
        vs = [getattr(g, f) for g in gs]
        if any(isinstance(v, fork.Num) for v in vs):
            out[f] = (jnp.max if f in MAXF else jnp.min)(jnp.stack([arr(v) for v in vs]))
        else:
            out[f] = (max if f in MAXF else min)(vs)
    return out


def goals(d):
    """equal parameter sets: fixed fields are compared as Python numbers, symbolic ones become goals"""
    out = {}
    for nm, (a, b) in d.items():
        ok = True
        for f in FIELDS:
            x, y = a[f], b[f]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, fork.Num) and not isinstance(y, fork.Num):
                ok = ok and x == y
            else:
                out[nm + "." + f] = (arr(x), arr(y))
        out[nm] = jnp.asarray(ok)
    return out


def obligations(tier):
    obs = []
    top = lambda f: 0.1 if f == "maxk_threshold" else 10**6  # documented limit of the Moffat profile
    for f in FIELDS:
        mk = PI_ if f in INTF else PF

        def comb(a, b, c, f=f):
            gs = [jg.GSParams(**dict(base(k), **{f: x})) for k, x in enumerate((a, b, c))]
            g1, g2, g3 = gs
            C = jg.GSParams.combine
            out = {"12": (allf(C([g1, g2])), want(g1, g2)), "21": (allf(C([g2, g1])), want(g1, g2)), "123": (allf(C(gs)), want(*gs)), "312": (allf(C([g3, g1, g2])), want(*gs)),
                   "(12)3": (allf(C([C([g1, g2]), g3])), want(*gs)), "1(23)": (allf(C([g1, C([g2, g3])])), want(*gs)), "11": (allf(C([g1, g1])), allf(g1)), "1": (allf(C([g1])), allf(g1)),
                   "1N2": (allf(C([g1, None, g2])), want(g1, g2))}
            return goals(out)

        obs.append(Ob("combine-" + f, comb, [mk(n, 1 if mk is PI_ else 1e-12, 10**6) for n in "abc"]))

        def comb1(a, b, f=f):
            # only this field differs
            g1, g2 = jg.GSParams(**{f: a}), jg.GSParams(**{f: b})
            C = jg.GSParams.combine
            return goals({"12": (allf(C([g1, g2])), want(g1, g2)), "112": (allf(C([g1, g1, g2])), want(g1, g2)), "211": (allf(C([g2, g1, g1])), want(g1, g2))})

        obs.append(Ob("combine1-" + f, comb1, [mk(n, 1 if mk is PI_ else 1e-12, 10**6) for n in "ab"]))

        def withp(a, b, f=f):
            g = jg.GSParams(**base(0))
            h = g.withParams(**{f: a})
            i = FIELDS.index(f)
            exp = allf(g).at(f, a)
            out = {"with": (allf(h), exp), "keep": (allf(g), V(base(0))), "check": (allf(jg.GSParams.check(g, **{f: a})), exp), "none": (allf(g.withParams()), allf(g)),
                   "default": (allf(jg.GSParams.check(None, g, **{f: a})), exp), "default0": (allf(jg.GSParams.check(None, **{f: a})), allf(jg.GSParams()).at(f, a))}
            f2 = FIELDS[(i + 1) % len(FIELDS)]
            out["two"] = (allf(g.withParams(**{f: a, f2: b})), exp.at(f2, b))
            p = jg.Gaussian(sigma=1.3, gsparams=g)
            for nm, o in (("G", p), ("E", jg.Exponential(scale_radius=1.1, gsparams=g)), ("M", jg.Moffat(beta=2.5, scale_radius=1.0, gsparams=g)), ("S", jg.Spergel(nu=0.5, scale_radius=1.0, gsparams=g)),
                          ("B", jg.Box(1.0, 2.0, gsparams=g)), ("P", jg.Pixel(1.0, gsparams=g)), ("D", jg.DeltaFunction(gsparams=g))):
                out[nm] = (allf(o.withGSParams(**{f: a}).gsparams), exp)
                out[nm + "k"] = (allf(o.gsparams), allf(g))
                out[nm + "g"] = (allf(o.withGSParams(g.withParams(**{f: a})).gsparams), exp)
            return goals(out)

        obs.append(Ob("with-" + f, withp, [mk("a", 1 if mk is PI_ else 1e-12, top(f)), PF("b", 1e-12, 0.1)]))

    COMP = ["folding_threshold", "maximum_fft_size", "kvalue_accuracy"] if tier == "quick" else FIELDS
    for f in COMP:
        mk = PI_ if f in INTF else PF

        def comp(a, b, c, f=f):
            ga, gb = (jg.GSParams(**dict(base(k), **{f: x})) for k, x in enumerate((a, b)))
            gc = jg.GSParams(**dict(base(2), **{f: c}))
            p, q = jg.Gaussian(sigma=1.3, gsparams=ga), jg.Exponential(scale_radius=0.7, gsparams=gb)
            out = {}
            for nm, k in (("sum", jg.Sum), ("conv", jg.Convolve)):
                o = k([p, q])
                out[nm] = (allf(o.gsparams), want(ga, gb))
                for i, x in enumerate(o.obj_list):
                    out[nm + "%d" % i] = (allf(x.gsparams), want(ga, gb))
                o = k([p, q], propagate_gsparams=False)
                out[nm + "np"] = (allf(o.gsparams), want(ga, gb))
                for i, x in enumerate(o.obj_list):
                    out[nm + "np%d" % i] = (allf(x.gsparams), allf((ga, gb)[i]))
                o2 = o.withGSParams(gc)
                out[nm + "npw"] = (allf(o2.gsparams), allf(gc))
                for i, x in enumerate(o2.obj_list):
                    out[nm + "npw%d" % i] = (allf(x.gsparams), allf((ga, gb)[i]))
                o = k([p, q], gsparams=gc)
                out[nm + "g"] = (allf(o.gsparams), allf(gc))
                for i, x in enumerate(o.obj_list):
                    out[nm + "g%d" % i] = (allf(x.gsparams), allf(gc))
                o = k([p, q]).withGSParams(gc)
                out[nm + "w"] = (allf(o.gsparams), allf(gc))
                for i, x in enumerate(o.obj_list):
                    out[nm + "w%d" % i] = (allf(x.gsparams), allf(gc))
                o = k([p, q]).withGSParams(**{f: c})
                e = want(ga, gb).at(f, c)
                out[nm + "wk"] = (allf(o.gsparams), e)
                for i, x in enumerate(o.obj_list):
                    out[nm + "wk%d" % i] = (allf(x.gsparams), e)
            d = jg.Deconvolve(p)
            out["dec"] = (allf(d.gsparams), allf(ga))
            d = jg.Deconvolve(p, gsparams=gc)
            out["decg"] = (allf(d.gsparams), allf(gc))
            out["decg0"] = (allf(d.orig_obj.gsparams), allf(gc))
            d = jg.Deconvolve(p, gsparams=gc, propagate_gsparams=False)
            out["decn0"] = (allf(d.orig_obj.gsparams), allf(ga))
            d = jg.Deconvolve(p).withGSParams(gc)
            out["decw"] = (allf(d.gsparams), allf(gc))
            out["decw0"] = (allf(d.orig_obj.gsparams), allf(gc))
            t_ = p.shear(g1=0.1, g2=0.2)
            out["tr"] = (allf(t_.gsparams), allf(ga))
            out["tr0"] = (allf(t_.original.gsparams), allf(ga))
            t2 = t_.withGSParams(gc)
            out["trw"] = (allf(t2.gsparams), allf(gc))
            out["trw0"] = (allf(t2.original.gsparams), allf(gc))
            t3 = jg.Transform(p, jac=(1.0, 0.1, 0.0, 1.0), gsparams=gc, propagate_gsparams=False)
            out["trn"] = (allf(t3.gsparams), allf(gc))
            out["trn0"] = (allf(t3.original.gsparams), allf(ga))
            return goals(out)

        obs.append(Ob("compound-" + f, comp, [mk(n, 2 if mk is PI_ else 1e-9, min(top(f), 10**4)) for n in "abc"]))
    return obs
