import concurrent.futures

from jax_galsim import interpolatedimage as iim
from jax_galsim.fitswcs import GSFitsWCS
from vlib.common import *

FUNCTIONS = ["tree_flatten/tree_unflatten of every registered class: BoundsD/I, PositionD/I, Angle, AngleUnit, Shear, CelestialCoord, PixelScale, ShearWCS, JacobianWCS, OffsetWCS, OffsetShearWCS, AffineTransform, GSFitsWCS, Image, PhotonArray, Sensor, interpolants, profiles (Gaussian, Exponential, Moffat, Spergel, Box, Pixel, DeltaFunction, Sum, Convolution, Deconvolution, Transformation, InterpolatedImage), deviates, noise models"]
ASSUMPTIONS = [
    "one object of each registered class with free leaf values (and one or more variants: undefined and moving bounds, images with header, photons, added flux, each data type, constness; distorted celestial WCS); a second independent object for vmap over a stack of two",
    "sent through flatten/unflatten (once and twice), tree map, jit, lax.cond with a free predicate, lax.scan as a carry of two steps, vmap; what is compared afterwards: type, static attributes, every leaf, and the values the object computes at free arguments",
    "profile values that need tables (Moffat Fourier values, Spergel with general index) are compared through the parameters, the flux and the sizes only; random draws are functions of the generator key",
]
PH = ("x", "y", "flux", "dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time")


def arr(v):
    v = jnp.asarray(v)
    if jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
        v = jax.random.key_data(v)
    return v


class Case:
    def __init__(self, name, ins, make, obs, static=None, args=(), **opt):
        self.name, self.ins, self.make, self.obs, self.static, self.args, self.opt = name, ins, make, obs, static or (lambda o: ()), list(args), opt


def put(out, tag, a, b):
    """equality goal for a pair of values of one observable"""
    a, b = arr(a), arr(b)
    out[tag + ":sh"] = jnp.asarray(a.shape == b.shape and a.dtype == b.dtype)
    if a.shape != b.shape:
        return
    if jnp.issubdtype(a.dtype, jnp.inexact):
        out[tag] = (a, b)
    else:
        out[tag] = jnp.all(a == b)


def attrs(o):
    """names of everything stored on the object"""
    return sorted(k for k in getattr(o, "__dict__", {}) if k not in ("_hash", "_workspace"))


def same(out, tag, c, o, p, want, kw, vals=True):
    out[tag + "type"] = jnp.asarray(type(o) is type(p))
    la, da = jax.tree.flatten(o)
    lb, db = jax.tree.flatten(p)
    out[tag + "tree"] = jnp.asarray(da == db)
    for i, (x, y) in enumerate(zip(la, lb)):
        put(out, tag + "leaf%d" % i, x, y)
    out[tag + "static"] = jnp.asarray(bool(c.static(o) == c.static(p)))
    if vals:
        got = c.obs(p, kw)
        for k, v in got.items():
            put(out, tag + k, v, want[k])


def pick(kw, c, suf=""):
    return {i.name: kw[i.name + suf] for i in c.ins}


def clone(i, suf):
    import copy as _c

    j = _c.copy(i)
    j.name = i.name + suf
    return j


def cases():
    P, A = [], P_args()
    out = []

    def add(*a, **k):
        out.append(Case(*a, **k))

    x, y = F("x", -9, 9), F("y", -9, 9)
    # ---- positions, bounds, angles, shears, coordinates
    pos = lambda o, kw: {"x": o.x, "y": o.y, "xn": (-o).x, "yn": (o * 2).y}
    add("positionD", [x, y], lambda a: jg.PositionD(a["x"], a["y"]), pos)
    add("positionI", [I("x", -9, 9), I("y", -9, 9)], lambda a: jg.PositionI(a["x"], a["y"]), pos)
    bd = lambda o, kw: {"xmin": o.xmin, "xmax": o.xmax, "ymin": o.ymin, "ymax": o.ymax, "area": o.area(), "cx": o.center.x, "cy": o.true_center.y}
    pt = [F("px", -30, 30), F("py", -30, 30)]
    pti = [I("px", -30, 30), I("py", -30, 30)]
    add("boundsD", [x, F("w", 0.1, 9), y, F("h", 0.1, 9)], lambda a: jg.BoundsD(a["x"], a["x"] + a["w"], a["y"], a["y"] + a["h"]), bd, lambda o: (bool(o.isDefined()), o.isStatic()), args=pt)
    add("boundsD-size", [x, F("w", 0.1, 9), y, F("h", 0.1, 9)], lambda a: jg.BoundsD(xmin=a["x"], deltax=a["w"], ymin=a["y"], deltay=a["h"]), bd, lambda o: bool(o.isDefined()), args=pt)
    add("boundsD-none", [], lambda a: jg.BoundsD(), lambda o, kw: {"area": o.area()}, lambda o: (o.isDefined(), str(o), repr(o)), args=pt)
    add("boundsI", [], lambda a: jg.BoundsI(-3, 7, 2, 5), bd, lambda o: (o.isDefined(), o.isStatic(), repr(o), o.numpyShape()), args=pti)
    add("boundsI-none", [], lambda a: jg.BoundsI(), lambda o, kw: {"area": o.area()}, lambda o: (o.isDefined(), repr(o)), args=pti)
    add("boundsI-inverted", [], lambda a: jg.BoundsI(5, 3, 1, 2), lambda o, kw: {"area": o.area()}, lambda o: (o.isDefined(), repr(o)), args=pti)
    add("boundsI-moving", [I("x", -9, 9), I("y", -9, 9)], lambda a: jg.BoundsI(xmin=a["x"], deltax=4, ymin=a["y"], deltay=3), bd, lambda o: (o.isDefined(), o.isStatic(), o.numpyShape()), args=pti)
    add("angle", [F("t", -20, 20)], lambda a: jg.Angle(a["t"], jg.degrees), lambda o, kw: {"rad": o.rad, "deg": o / jg.degrees, "w": (o * 2).rad, "n": (-o).rad})
    add("angleunit", [F("t", 0.1, 20)], lambda a: jg.AngleUnit(a["t"]), lambda o, kw: {"v": o.value, "a": (kw["px"] * o).rad}, args=pt[:1])
    sh = lambda o, kw: {"g1": o.g1, "g2": o.g2, "e1": o.e1, "g": o.g, "q": o.q, "m": o.getMatrix()}
    add("shear", [F("a", -0.6, 0.6), F("b", -0.6, 0.6)], lambda a: jg.Shear(g1=a["a"], g2=a["b"]), sh)
    add("shear-e", [F("a", -0.6, 0.6), F("b", -0.6, 0.6)], lambda a: jg.Shear(e1=a["a"], e2=a["b"]), sh)
    add("celestial", [F("ra", 0, 6), F("dec", -1.5, 1.5)], lambda a: jg.CelestialCoord(a["ra"] * jg.radians, a["dec"] * jg.radians), lambda o, kw: {"ra": o.ra.rad, "dec": o.dec.rad, "xyz": jnp.stack(o.get_xyz())})

    # ---- WCS
    JAC = [F("c11", 0.5, 2), F("c12", -0.3, 0.3), F("c21", -0.3, 0.3), F("c22", 0.5, 2)]
    OR = [F("x0", -9, 9), F("y0", -9, 9), F("u0", -9, 9), F("v0", -9, 9)]
    SH = [F("sc", 0.1, 2), F("a", -0.6, 0.6), F("b", -0.6, 0.6)]
    oo = lambda a: dict(origin=jg.PositionD(a["x0"], a["y0"]), world_origin=jg.PositionD(a["u0"], a["v0"]))
    jj = lambda a: (a["c11"], a["c12"], a["c21"], a["c22"])

    def wob(o, kw):
        w = o.toWorld(jg.PositionD(kw["px"], kw["py"]))
        i = o.toImage(jg.PositionD(kw["px"], kw["py"]))
        return {"u": w.x, "v": w.y, "ix": i.x, "iy": i.y, "area": o.pixelArea(jg.PositionD(kw["px"], kw["py"])), "ox": o.origin.x, "wy": o.world_origin.y}

    wst = lambda o: (o.isLocal(), o.isUniform(), o.isPixelScale(), o.isCelestial())
    add("pixelscale", SH[:1], lambda a: jg.PixelScale(a["sc"]), lambda o, kw: {"s": o.scale, **wob(o, kw)}, wst, args=pt)
    add("shearwcs", SH, lambda a: jg.ShearWCS(a["sc"], jg.Shear(g1=a["a"], g2=a["b"])), lambda o, kw: {"s": o.scale, "g1": o.shear.g1, **wob(o, kw)}, wst, args=pt)
    add("jacobian", JAC, lambda a: jg.JacobianWCS(*jj(a)), lambda o, kw: {"dudx": o.dudx, "dudy": o.dudy, "dvdx": o.dvdx, "dvdy": o.dvdy, **wob(o, kw)}, wst, args=pt)
    add("offsetwcs", SH[:1] + OR, lambda a: jg.OffsetWCS(a["sc"], **oo(a)), wob, wst, args=pt)
    add("offsetshear", SH + OR, lambda a: jg.OffsetShearWCS(a["sc"], jg.Shear(g1=a["a"], g2=a["b"]), **oo(a)), wob, wst, args=pt)
    add("affine", JAC + OR, lambda a: jg.AffineTransform(*jj(a), **oo(a)), wob, wst, args=pt)
    add("affine-default", JAC, lambda a: jg.AffineTransform(*jj(a)), wob, wst, args=pt)

    def fob(o, kw):
        r, d = o._radec(kw["px"], kw["py"])
        return {"ra": r, "dec": d, "crpix": o.crpix, "cd": o.cd, "cra": o.center.ra.rad, "cdec": o.center.dec.rad}

    FI = JAC + [F("p1", -9, 9), F("p2", -9, 9), F("ra", 0.1, 6), F("dec", -1.5, 1.5)]

    def fits(kind, a, pv=None, ab=None, abp=None):
        return GSFitsWCS(_data=[kind, jnp.stack([a["p1"], a["p2"]]), jnp.stack(jj(a)).reshape(2, 2), jg.CelestialCoord(a["ra"] * jg.radians, a["dec"] * jg.radians), pv, ab, abp])

    fst = lambda o: (o.wcs_type, o.pv is None, o.ab is None, o.abp is None, o.isCelestial())
    add("fitswcs-tan", FI, lambda a: fits("TAN", a), fob, fst, args=pt)
    add("fitswcs-stg", FI, lambda a: fits("STG", a), fob, fst, args=pt)
    add("fitswcs-arc", FI, lambda a: fits("ARC", a), fob, fst, args=pt)
    add("fitswcs-zea", FI, lambda a: fits("ZEA", a), fob, fst, args=pt)
    add("fitswcs-tpv", FI + [F("pv", -1, 1, shape=(2, 2, 2))], lambda a: fits("TPV", a, pv=a["pv"]), lambda o, kw: {"pv": o.pv, **fob(o, kw)}, fst, args=pt)
    add("fitswcs-sip", FI + [F("ab", -1, 1, shape=(2, 2, 2)), F("abp", -1, 1, shape=(2, 2, 2))], lambda a: fits("TAN", a, ab=a["ab"], abp=a["abp"]), lambda o, kw: {"ab": o.ab, "abp": o.abp, **fob(o, kw)}, fst, args=pt)

    # ---- images
    Z = [F("z", -9, 9, shape=(2, 3))]

    def iob(o, kw):
        b = o.bounds
        return {"a": o.array, "xmin": b.xmin, "xmax": b.xmax, "ymin": b.ymin, "ymax": b.ymax, **({"px": o(b.xmin + 1, b.ymin)} if b.isStatic() else {}), "c": o.true_center.x, "sum": jnp.sum(o.array)}

    ist = lambda o: (o.dtype, o.isconst, o.iscomplex, o.array.dtype, o.array.shape, o.bounds.isStatic(), o.wcs is None, type(o.wcs), getattr(o, "header", "none"), hasattr(o, "photons"), hasattr(o, "added_flux"))

    def im(a, **k):
        return jg.Image(a["z"], **k)

    def extra(o, **k):
        for nm, v in k.items():
            setattr(o, nm, v)
        return o

    def ph(a):
        return jg.PhotonArray(2, **{k: a["q"][i % 3] for i, k in enumerate(PH)})

    Q = [F("q", -9, 9, shape=(3, 2))]
    pob = lambda o, kw: {"phx": o.photons.x, "phf": o.photons.flux, **iob(o, kw)}
    add("image", Z, lambda a: im(a, xmin=-3, ymin=4), iob, ist)
    add("image-scale", Z + [F("sc", 0.1, 2)], lambda a: im(a, scale=a["sc"]), lambda o, kw: {"s": o.scale, **iob(o, kw)}, ist)
    add("image-affine", Z + JAC + OR, lambda a: im(a, wcs=jg.AffineTransform(*jj(a), **oo(a))), lambda o, kw: {**iob(o, kw), **wob(o.wcs, kw)}, ist, args=pt)
    add("image-celestial", Z + FI, lambda a: im(a, wcs=fits("TAN", a)), lambda o, kw: {**iob(o, kw), **fob(o.wcs, kw)}, ist, args=pt)
    add("image-moving", Z + [I("x", -9, 9), I("y", -9, 9)], lambda a: jg.Image(a["z"], bounds=jg.BoundsI(xmin=a["x"], deltax=3, ymin=a["y"], deltay=2)), iob, ist)
    add("image-const", Z, lambda a: im(a, make_const=True), iob, ist)
    add("image-header", Z, lambda a: extra(im(a), header={"EXPTIME": 3.5}), iob, ist)
    add("image-addedflux", Z + [F("af", -9, 9)], lambda a: extra(im(a), added_flux=a["af"]), lambda o, kw: {"af": o.added_flux, **iob(o, kw)}, ist)
    add("image-photons", Z + Q, lambda a: extra(im(a), photons=ph(a)), pob, ist)
    add("image-everything", Z + Q + [F("af", -9, 9), F("sc", 0.1, 2)], lambda a: extra(im(a, scale=a["sc"]), photons=ph(a), added_flux=a["af"], header={"A": 1}), lambda o, kw: {"af": o.added_flux, **pob(o, kw)}, ist)
    add("image-moving-photons", Z + Q + [I("x", -9, 9)], lambda a: extra(jg.Image(a["z"], bounds=jg.BoundsI(xmin=a["x"], deltax=3, ymin=2, deltay=2)), photons=ph(a)), pob, ist)
    add("image-moving-both", Z + Q + [I("x", -9, 9), F("af", -9, 9)], lambda a: extra(jg.Image(a["z"], bounds=jg.BoundsI(xmin=a["x"], deltax=3, ymin=2, deltay=2)), photons=ph(a), added_flux=a["af"]), lambda o, kw: {"af": o.added_flux, **pob(o, kw)}, ist)
    for nm in ("ImageS", "ImageI", "ImageUS", "ImageUI"):
        add("image-" + nm, [I("z", 0, 9, shape=(2, 3))], functools.partial(lambda nm, a: getattr(jg, nm)(a["z"]), nm), iob, ist)
    add("image-ImageF", Z, lambda a: jg.ImageF(a["z"]), iob, ist)
    add("image-ImageCD", Z, lambda a: jg.ImageCD(a["z"] + 2j * a["z"][:, ::-1]), lambda o, kw: {"re": o.real.array, "im": o.imag.array}, ist)

    # ---- photons, sensor
    phob = lambda o, kw: {**{k: getattr(o, k) for k in PH}, "tot": o.getTotalFlux(), "n": o.size()}
    phst = lambda o: (o.hasAllocatedAngles() is not None, o._Ntot)
    add("photons", [F("q", -9, 9, shape=(9, 2))], lambda a: jg.PhotonArray(2, **{k: a["q"][i] for i, k in enumerate(PH)}), phob, phst)
    add("photons-masked", [F("q", -9, 9, shape=(9, 2)), Bo("m", shape=(2,))], lambda a: jg.PhotonArray(2, _nokeep=a["m"], **{k: a["q"][i] for i, k in enumerate(PH)}), lambda o, kw: {"m": o._nokeep, **phob(o, kw)}, phst)
    add("photons-corr", [F("q", -9, 9, shape=(3, 2)), Bo("corr")], lambda a: extra(jg.PhotonArray(2, x=a["q"][0], y=a["q"][1], flux=a["q"][2]), _is_corr=a["corr"]), lambda o, kw: {"x": o.x, "y": o.y, "f": o.flux, "c": o.isCorrelated()}, phst)
    add("sensor", [], lambda a: jg.Sensor(), lambda o, kw: {"a": o.calculate_pixel_areas(jg.Image(np.zeros((2, 2))))})

    # ---- accuracy parameters and interpolants
    gsp = jg.GSParams(folding_threshold=1e-3, maxk_threshold=2e-3, kvalue_accuracy=3e-6, minimum_fft_size=32)
    ist2 = lambda o: (repr(o), o.gsparams, o == eval("jg" + repr(o)[6:]))
    kob = lambda o, kw: {"x": o.xval(kw["px"] / 10), "xr": o.xrange, "pf": o.positive_flux}
    INTERP = {"delta": jg.Delta, "nearest": jg.Nearest, "linear": jg.Linear, "cubic": jg.Cubic, "quintic": jg.Quintic, "sinc": jg.SincInterpolant}
    for nm, cl in INTERP.items():
        add("interpolant-" + nm, [], functools.partial(lambda cl, a: cl(gsparams=gsp), cl), lambda o, kw: {"xr": arr(o.xrange), **({"x": o.xval(kw["px"] / 10)} if not isinstance(o, jg.Delta) else {})}, lambda o: (repr(o), o.gsparams), args=pt[:1])
    for n, dc in ((3, True), (3, False), (5, True)):
        add("interpolant-lanczos%d%s" % (n, "" if dc else "-raw"), [], functools.partial(lambda n, dc, a: jg.Lanczos(n, conserve_dc=dc, gsparams=gsp), n, dc), lambda o, kw: {"xr": arr(o.xrange)}, lambda o: (repr(o), o.gsparams, o.n, o.conserve_dc))

    # ---- profiles
    FL = F("fl", -9, 9)
    S = F("s", 0.5, 2)
    gst = lambda o: (o.gsparams, o.is_axisymmetric, o.has_hard_edges, o.is_analytic_x, o.is_analytic_k)

    gst2 = lambda o: (o.gsparams, o.has_hard_edges, o.is_analytic_x, o.is_analytic_k)

    def pr(x=True, k=True, mk=True, extra=None):
        def f(o, kw):
            r = {"flux": o.flux}
            if x:
                r["x"] = o.xValue(kw["px"], kw["py"])
                r["sb"] = o.max_sb
            if k:
                r["k"] = o.kValue(kw["px"], kw["py"])
            if mk:
                r["maxk"], r["stepk"] = o.maxk, o.stepk
            r["cx"] = o.centroid.x
            r["nf"] = o.negative_flux
            if extra:
                r.update(extra(o))
            return r

        return f

    pts = [F("px", 0.1, 3), F("py", 0.1, 3)]
    add("gaussian", [S, FL], lambda a: jg.Gaussian(sigma=a["s"], flux=a["fl"], gsparams=gsp), pr(extra=lambda o: {"sigma": o.sigma, "hlr": o.half_light_radius}), gst, args=pts)
    add("gaussian-fwhm", [S, FL], lambda a: jg.Gaussian(fwhm=a["s"], flux=a["fl"]), pr(), gst, args=pts)
    add("exponential", [S, FL], lambda a: jg.Exponential(scale_radius=a["s"], flux=a["fl"], gsparams=gsp), pr(mk=False, extra=lambda o: {"sr": o.scale_radius}), gst, args=pts)
    add("exponential-hlr", [S, FL], lambda a: jg.Exponential(half_light_radius=a["s"], flux=a["fl"]), pr(mk=False), gst, args=pts)
    gm = jg.GSParams(folding_threshold=1e-3, maxk_threshold=2e-3)
    add("moffat", [S, FL, F("b", 2, 4)], lambda a: jg.Moffat(beta=a["b"], scale_radius=a["s"], flux=a["fl"], gsparams=gm), pr(k=False, mk=False, extra=lambda o: {"b": o.beta, "sr": o.scale_radius, "tr": o.trunc}), gst, args=pts)
    add("spergel", [S, FL], lambda a: jg.Spergel(nu=0.5, scale_radius=a["s"], flux=a["fl"], gsparams=gsp), pr(x=False, mk=False, extra=lambda o: {"nu": o.nu, "sr": o.scale_radius}), gst, args=pts)
    add("box", [F("w", 0.5, 2), F("h", 0.5, 2), FL], lambda a: jg.Box(a["w"], a["h"], flux=a["fl"], gsparams=gsp), pr(extra=lambda o: {"w": o.width, "h": o.height}), gst, args=pts)
    add("pixel", [F("w", 0.5, 2), FL], lambda a: jg.Pixel(a["w"], flux=a["fl"], gsparams=gsp), pr(extra=lambda o: {"w": o.scale}), gst, args=pts)
    add("delta", [FL], lambda a: jg.DeltaFunction(flux=a["fl"], gsparams=gsp), pr(x=False, mk=False), gst, args=pts)

    gau = lambda a, **k: jg.Gaussian(sigma=a["s"], flux=a["fl"], **k)
    bx = lambda a, **k: jg.Box(a["w"], a["h"], **k)
    WH = [F("w", 0.5, 2), F("h", 0.5, 2)]
    add("sum", [S, FL] + WH, lambda a: gau(a) + bx(a), pr(mk=False), lambda o: (gst(o), [type(x) for x in o.obj_list], o._propagate_gsparams), args=pts)
    add("sum-gs", [S, FL] + WH, lambda a: jg.Sum([gau(a), bx(a)], gsparams=gsp, propagate_gsparams=False), pr(mk=False, extra=lambda o: {"n": len(o.obj_list)}), lambda o: (gst(o), [x.gsparams for x in o.obj_list], o._propagate_gsparams), args=pts)
    add("convolution", [S, FL] + WH, lambda a: jg.Convolve(gau(a), bx(a)), pr(x=False, mk=False), lambda o: (gst(o), [type(x) for x in o.obj_list], o.real_space, o._propagate_gsparams), args=pts)
    add("convolution-gs", [S, FL] + WH, lambda a: jg.Convolution([gau(a), bx(a)], gsparams=gsp, propagate_gsparams=False), pr(x=False, mk=False), lambda o: (gst(o), [x.gsparams for x in o.obj_list], o._propagate_gsparams), args=pts)
    add("deconvolution", [S, F("fl", 0.5, 9)], lambda a: jg.Deconvolve(gau(a), gsparams=gsp, propagate_gsparams=False), pr(x=False, mk=False), lambda o: (gst(o), o._propagate_gsparams, o.orig_obj.gsparams), args=pts)
    add("transformed", [S, FL] + JAC + OR[:2], lambda a: gau(a).transform(*jj(a)).shift(a["x0"], a["y0"]), pr(mk=False, extra=lambda o: {"jac": o.jac, "off": o.offset.x, "fr": o.flux_ratio}), gst2, args=pts)
    add("transformed-gs", [S, FL] + JAC + OR[:2], lambda a: jg.Transform(gau(a), jac=jj(a), offset=jg.PositionD(a["x0"], a["y0"]), flux_ratio=1.5, gsparams=gsp, propagate_gsparams=False), pr(mk=False), lambda o: (gst2(o), o.original.gsparams, o._propagate_gsparams), args=pts)
    add("sheared-sum", [S, FL] + WH + SH[1:], lambda a: (gau(a) + bx(a)).shear(g1=a["a"], g2=a["b"]) * 2.5, pr(mk=False), gst2, args=pts)
    iiob = lambda o, kw: {"flux": o.flux, "x": o.xValue(kw["px"], kw["py"]), "maxk": o.maxk, "stepk": o.stepk, "cx": o.centroid.x, "im": o.image.array}
    iist = lambda o: (gst(o), o.x_interpolant, o.k_interpolant, o.image.bounds, o._jax_aux_data["_force_stepk"], o._jax_aux_data["use_true_center"], o._jax_aux_data["normalization"], o._jax_aux_data["pad_factor"])
    IZ = [F("z", 1, 9, shape=(3, 2))]
    ik = dict(x_interpolant="linear", k_interpolant="cubic", pad_factor=1.0, _force_stepk=0.3, _force_maxk=2.0, gsparams=gsp)
    add("interpolated", IZ + [F("sc", 0.5, 2)], lambda a: jg.InterpolatedImage(jg.Image(a["z"], scale=a["sc"]), **ik), iiob, iist, args=pts)
    add("interpolated-wcs", IZ + JAC + [FL, F("ox", -0.4, 0.4)], lambda a: jg.InterpolatedImage(jg.Image(a["z"], xmin=4), wcs=jg.JacobianWCS(*jj(a)), flux=a["fl"], offset=jg.PositionD(a["ox"], 0.2), use_true_center=False, **ik), iiob, iist, args=pts)
    add("interpolated-sb", IZ, lambda a: jg.InterpolatedImage(jg.Image(a["z"]), scale=0.7, normalization="sb", **ik), iiob, iist, args=pts)
    add("interpolated-sheared", IZ + SH, lambda a: jg.InterpolatedImage(jg.Image(a["z"], scale=a["sc"]), **ik).shear(g1=a["a"], g2=a["b"]), lambda o, kw: {"flux": o.flux, "x": o.xValue(kw["px"], kw["py"]), "cx": o.centroid.x}, gst2, args=pts)

    # ---- deviates and noise
    KY = [Key("key")]
    rob = lambda *props: (lambda o, kw: {"v": arr(o.duplicate()()), "k": arr(o._key), **{p: getattr(o, p) for p in props}})
    add("dev-base", KY, lambda a: jg.BaseDeviate(a["key"]), lambda o, kw: {"k": arr(o._key), "r": o.duplicate().raw()})
    add("dev-uniform", KY, lambda a: jg.UniformDeviate(a["key"]), rob())
    add("dev-gaussian", KY + [x, F("s", 0, 4)], lambda a: jg.GaussianDeviate(a["key"], mean=a["x"], sigma=a["s"]), rob("mean", "sigma"))
    add("dev-poisson", KY + [F("s", 0, 40)], lambda a: jg.PoissonDeviate(a["key"], mean=a["s"]), rob("mean"))
    add("dev-weibull", KY + [S, F("b", 0.5, 3)], lambda a: jg.WeibullDeviate(a["key"], a=a["s"], b=a["b"]), rob("a", "b"))
    add("dev-gamma", KY + [S, F("b", 0.5, 3)], lambda a: jg.GammaDeviate(a["key"], k=a["s"], theta=a["b"]), rob("k", "theta"))
    add("dev-chi2", KY + [F("b", 0.5, 3)], lambda a: jg.Chi2Deviate(a["key"], n=a["b"]), rob("n"))
    add("dev-binomial", KY + [F("p", 0.1, 0.9)], lambda a: jg.BinomialDeviate(a["key"], N=3, p=a["p"]), rob("p"), lambda o: o.n)

    def nob(*props, var=True):
        def f(o, kw):
            c = o.copy(jg.BaseDeviate(o.rng._key))
            i = jg.Image(jnp.ones((1, 2)))
            c.applyTo(i)
            r = {"im": i.array, "k": arr(o.rng._key), **{p: getattr(o, p) for p in props}}
            if var:
                r["var"] = o.getVariance()
            return r

        return f

    BD = lambda a: jg.BaseDeviate(a["key"])
    add("noise-gaussian", KY + [S], lambda a: jg.GaussianNoise(BD(a), a["s"]), nob("sigma"))
    add("noise-poisson", KY + [S], lambda a: jg.PoissonNoise(BD(a), a["s"]), nob("sky_level"))
    add("noise-ccd", KY + [S, F("g", 0.5, 3), F("b", 0.5, 3)], lambda a: jg.CCDNoise(BD(a), a["s"], a["g"], a["b"]), nob("sky_level", "gain", "read_noise"))
    add("noise-deviate", KY + [x, F("s", 0, 4)], lambda a: jg.DeviateNoise(jg.GaussianDeviate(a["key"], mean=a["x"], sigma=a["s"])), nob(var=False), lambda o: type(o.rng))
    add("noise-variable", KY + [F("v", 0, 9, shape=(1, 2))], lambda a: jg.VariableGaussianNoise(BD(a), jg.Image(a["v"])), nob(var=False))
    return out


def P_args():
    return []


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    def trip(c, **kw):
        out = {}
        o = c.make(pick(kw, c))
        want = c.obs(o, kw)
        leaves, td = jax.tree.flatten(o)
        same(out, "flat.", c, o, jax.tree.unflatten(td, leaves), want, kw)
        same(out, "twice.", c, o, jax.tree.unflatten(*reversed(jax.tree.flatten(jax.tree.unflatten(td, leaves)))), want, kw)
        same(out, "map.", c, o, jax.tree.map(lambda v: v, o), want, kw)
        same(out, "arr.", c, jax.tree.map(jnp.asarray, o), jax.tree.map(lambda v: jnp.asarray(v), o), want, kw)
        out["attrs"] = jnp.asarray(attrs(o) == attrs(jax.tree.unflatten(td, leaves)))
        # the original is not disturbed by having been flattened
        again = c.obs(o, kw)
        for k, v in again.items():
            put(out, "orig." + k, v, want[k])
        return out

    def bound(c, **kw):
        out = {}
        o = c.make(pick(kw, c))
        want = c.obs(o, kw)
        same(out, "jit.", c, o, jax.jit(lambda v: v)(o), want, kw)
        got = jax.jit(lambda v: c.obs(v, kw))(o)
        for k, v in got.items():
            put(out, "in." + k, v, want[k])
        if jax.tree.leaves(o):
            same(out, "cond.", c, jax.tree.map(jnp.asarray, o), jax.lax.cond(kw["flag"], lambda v: v, lambda v: jax.tree.map(lambda w: w, v), jax.tree.map(jnp.asarray, o)), want, kw)
            p, _ = jax.lax.scan(lambda v, _: (v, None), jax.tree.map(jnp.asarray, o), None, length=2)
            same(out, "scan.", c, jax.tree.map(jnp.asarray, o), p, want, kw)
        return out

    def vm(c, **kw):
        out = {}
        os = [jax.tree.map(jnp.asarray, c.make(pick(kw, c, s))) for s in ("", "_2")]
        out["tree"] = jnp.asarray(jax.tree.structure(os[0]) == jax.tree.structure(os[1]))
        st = jax.tree.map(lambda a, b: jnp.stack([a, b]), *os)
        back = jax.vmap(lambda v: v)(st)
        got = jax.vmap(lambda v: c.obs(v, kw))(st)
        built = jax.vmap(lambda a: c.make(a))({i.name: jnp.stack([kw[i.name], kw[i.name + "_2"]]) for i in c.ins})
        for i in (0, 1):
            want = c.obs(os[i], kw)
            same(out, "back%d." % i, c, os[i], jax.tree.map(lambda v: v[i], back), want, kw)
            same(out, "built%d." % i, c, os[i], jax.tree.map(lambda v: v[i], built), want, kw)
            for k, v in got.items():
                put(out, "in%d." % i + k, v[i], want[k])
        return out

    def const(c, **kw):
        """an object built from plain Python numbers, values at free arguments"""
        a = {}
        for n, i in enumerate(c.ins):
            lo, hi = max(i.lo, -50), min(i.hi, 50)
            v = np.array([lo + (hi - lo) * ((0.37 + 0.29 * j + 0.11 * n) % 1) for j in range(int(np.prod(i.shape)))]).reshape(i.shape)
            v = v > (lo + hi) / 2 if i.kind == "b" else np.rint(v).astype(int) if i.kind == "i" else v
            a[i.name] = v if i.shape else v.item()
        # tracing is per thread: built in another thread, the object is made of concrete values
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            o = ex.submit(lambda: c.make({k: jnp.asarray(v) if isinstance(v, np.ndarray) else v for k, v in a.items()})).result()
        out = {}
        want = c.obs(o, kw)
        same(out, "flat.", c, o, jax.tree.unflatten(*reversed(jax.tree.flatten(o))), want, kw)
        same(out, "jit.", c, o, jax.jit(lambda v: v)(o), want, kw)
        return out

    for c in cases():
        if c.ins and not any(i.kind in ("key", "b") for i in c.ins):
            ob("const-" + c.name, functools.partial(const, c), c.args, **c.opt)
        opt = dict(c.opt)
        ob("trip-" + c.name, functools.partial(trip, c), c.ins + c.args, **opt)
        ob("jit-" + c.name, functools.partial(bound, c), c.ins + c.args + [Bo("flag")], **opt)
        if c.ins:
            ob("vmap-" + c.name, functools.partial(vm, c), c.ins + [clone(i, "_2") for i in c.ins] + c.args, **opt)
    return obs
