from jax_galsim.core.draw import apply_kImage_phases, draw_by_kValue, draw_by_xValue
from vlib.common import *
from vlib.probe import Probe, kpoly, poly

FUNCTIONS = ["GSObject.drawImage/_setup_image/_local_wcs/_parse_offset/_parse_center/_get_new_bounds/_adjust_offset/_determine_wcs/drawReal/drawKImage/drawFFT/drawFFT_makeKImage/drawFFT_finish/getGoodImageSize",
             "draw_by_xValue, draw_by_kValue, apply_kImage_phases", "BaseWCS.profileToImage/shiftOrigin/local as used by drawImage", "Convolve(profile, Pixel) as drawn by method auto/fft"]
ASSUMPTIONS = [
    "the drawn profile is a probe with free polynomial surface brightness / Fourier transform: what is decided is where and how the library samples and scales any profile",
    "stamps up to 4x4; pixel scales 0.1..3, Jacobians with |det| >= 0.05, offsets and centres within 20 pixels, area, exposure time and gain 0.1..10",
    "Fourier drawing: transforms of 4 to 8 pixels, sizes fixed per obligation, Fourier values free",
]
CO = [F("c", -2, 2, shape=(4,)), F("k", -2, 2, shape=(3,)), F("fl", -3, 3)]
OFF = [F("ox", -5, 5), F("oy", -5, 5)]
EXP = [F("ar", 0.1, 10), F("ex", 0.1, 10), F("ga", 0.1, 10)]
JAC = [F(n, -2, 2) for n in "pqrs"]


def arr(v):
    return jnp.asarray(v, dtype=float)


def probe(kw, **k):
    return Probe(kw["c"], kw["k"], kw["fl"], **k)


def grid(xmin, nx, ymin, ny):
    return np.meshgrid(np.arange(nx), np.arange(ny))


def mat(kw):
    return jnp.stack([jnp.stack([arr(kw["p"]), arr(kw["q"])]), jnp.stack([arr(kw["r"]), arr(kw["s"])])])


def nonsing(**kw):
    return jnp.abs(kw["p"] * kw["s"] - kw["q"] * kw["r"]) >= 0.05


class Herm(Probe):
    """probe whose Fourier transform is that of a real function; Fourier limits chosen per obligation"""

    def __init__(self, c, k, flux=1.0, cen=(0.0, 0.0), gsparams=None, lim=(3.0, 0.25)):
        super().__init__(c, k, flux, cen, gsparams)
        self.lim = lim

    _maxk = property(lambda self: self.lim[0])
    _stepk = property(lambda self: self.lim[1])
    _is_analytic_x = False

    def _kValue(self, p):
        k = self.params["k"]
        return self.flux + k[0] * p.x * p.x + 1j * k[1] * p.y + 1j * k[2] * p.x

    def tree_flatten(self):
        return (self.params,), {"gsparams": self.gsparams, "lim": self.lim}

    @classmethod
    def tree_unflatten(cls, aux_data, children):
        p = children[0]
        return cls(p["c"], p["k"], flux=p["flux"], cen=p["cen"], **aux_data)


jax.tree_util.register_pytree_node_class(Herm)


def hval(kw, x, y):
    k = kw["k"]
    return kw["fl"] + k[0] * x * x + 1j * k[1] * y + 1j * k[2] * x


class Bowl(jg.wcs.EuclideanWCS):
    """a non-uniform coordinate system: u = x + e x y, v = y + e x^2"""

    _isUniform = False
    _isCelestial = False

    def __init__(self, e):
        self._e = e
        self._color = None

    x0 = y0 = 0.0
    origin = property(lambda self: jg.PositionD(0, 0))
    world_origin = property(lambda self: jg.PositionD(0, 0))

    def _newOrigin(self, origin, world_origin):
        return self

    def _local(self, image_pos, color=None):
        x, y = image_pos.x, image_pos.y
        return jg.JacobianWCS(1 + self._e * y, self._e * x, 2 * self._e * x, 1.0)

    def _posToWorld(self, image_pos, color=None):
        return jg.PositionD(image_pos.x + self._e * image_pos.x * image_pos.y, image_pos.y + self._e * image_pos.x**2)

    def tree_flatten(self):
        return (self._e,), None

    @classmethod
    def tree_unflatten(cls, aux, ch):
        return cls(*ch)


jax.tree_util.register_pytree_node_class(Bowl)


def obligations(tier):
    obs = []
    V = 2 if tier == "thorough" else 0

    def ob(name, f, ins, **k):
        k.setdefault("validate", V)
        obs.append(Ob(name, f, ins, **k))

    # ---- sampling primitives
    def xval(nx, ny, x0, y0, full, **kw):
        J = mat(kw) if full else jnp.eye(2)
        im = jg.ImageD(jnp.full((ny, nx), 9.0), xmin=x0, ymin=y0, scale=kw["sc"])
        r = draw_by_xValue(probe(kw), im, J, jnp.stack([kw["ox"], kw["oy"]]), kw["w"])
        gx, gy = np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0)
        u, v = gx * kw["sc"] - kw["ox"], gy * kw["sc"] - kw["oy"]
        d = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
        qx, qy = (J[1, 1] * u - J[0, 1] * v) / d, (J[0, 0] * v - J[1, 0] * u) / d
        return {"pix": (r.array, poly(kw["c"], qx, qy) * kw["sc"] ** 2 * kw["w"] / jnp.abs(d)), "old": (im.array, jnp.full((ny, nx), 9.0)), "b": r.bounds == im.bounds, "sc": (arr(r.scale), kw["sc"])}

    DR = CO + OFF + [F("sc", 0.1, 3), F("w", -3, 3)]
    for nx, ny, x0, y0 in ((3, 3, -1, -1), (4, 2, -2, -1), (2, 3, 5, -7)):
        ob("xvalue-%dx%d%+d%+d" % (nx, ny, x0, y0), functools.partial(xval, nx, ny, x0, y0, False), DR)
        ob("xvalue-jac-%dx%d%+d%+d" % (nx, ny, x0, y0), functools.partial(xval, nx, ny, x0, y0, True), DR + JAC, assume=nonsing, thorough=True)
        ob("xvalue-tri-%dx%d%+d%+d" % (nx, ny, x0, y0), lambda a=(nx, ny, x0, y0), **kw: xval(*a, True, **dict(kw, q=0.5, r=0.0, s=-1.5)), DR + [F("p", 0.2, 2)], thorough=nx != 4)

    def kval(nx, ny, x0, y0, cls, **kw):
        J = mat(kw)
        im = cls(jnp.full((ny, nx), 9.0 + 0j), xmin=x0, ymin=y0, scale=kw["sc"])
        r = draw_by_kValue(probe(kw), im, J)
        gx, gy = np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0)
        u, v = gx * kw["sc"], gy * kw["sc"]
        ph = apply_kImage_phases(jg.PositionD(kw["ox"], kw["oy"]), jg.ImageCD(jnp.asarray(np.arange(nx * ny).reshape(ny, nx) + 1j), xmin=x0, ymin=y0, scale=kw["sc"]), J)
        kx, ky = J[0, 0] * u + J[1, 0] * v, J[0, 1] * u + J[1, 1] * v
        arg = kx * kw["ox"] + ky * kw["oy"]
        e = jnp.asarray(np.arange(nx * ny).reshape(ny, nx) + 1j)
        return {"pix": (r.array, kpoly(kw["k"], kw["fl"], kx, ky)), "b": r.bounds == im.bounds, "sc": (arr(r.scale), kw["sc"]), "dt": jnp.asarray(r.array.dtype == im.array.dtype), "phase": (ph.array, e * (jnp.cos(arg) - 1j * jnp.sin(arg)))}

    for nx, ny, x0, y0 in ((3, 3, -1, -1), (2, 4, 0, -2)):
        ob("kvalue-%dx%d" % (nx, ny), functools.partial(kval, nx, ny, x0, y0, jg.ImageCD), CO + OFF + JAC + [F("sc", 0.1, 3)])
    ob("kvalue-c64", functools.partial(kval, 2, 2, 0, -1, jg.ImageCF), CO + OFF + JAC + [F("sc", 0.1, 3)], rtol=1e-4, atol=1e-3, thorough=True)

    # ---- drawImage: everything in one formula
    def expect(kw, xs, ys, cx, cy, J, method):
        dx, dy = xs - cx - kw["ox"], ys - cy - kw["oy"]
        u, v = J[0][0] * dx + J[0][1] * dy, J[1][0] * dx + J[1][1] * dy
        amp = kw["ar"] * kw["ex"] / kw["ga"]
        if method != "sb":
            amp = amp * jnp.abs(J[0][0] * J[1][1] - J[0][1] * J[1][0])
        return poly(kw["c"], u, v) * amp

    def draw(nx=3, ny=3, x0=1, y0=1, method="no_pixel", wcs="scale", how="array", add=False, cen=None, true=True, dt=None, off="tuple", **kw):
        args = dict(method=method, area=kw["ar"], exptime=kw["ex"], gain=kw["ga"], add_to_image=add, use_true_center=true)
        args["offset"] = {"tuple": (kw["ox"], kw["oy"]), "pos": jg.PositionD(kw["ox"], kw["oy"]), "array": jnp.stack([arr(kw["ox"]), arr(kw["oy"])]), None: None}[off]
        w = iw = None
        e = (np.arange(2) * 0 + 1).tolist()
        cx, cy = x0 + (nx - 1) / 2, y0 + (ny - 1) / 2
        if not true:
            cx, cy = float(np.floor(cx + 0.5)), float(np.floor(cy + 0.5))
        if cen:
            cx, cy = kw["cx"], kw["cy"]
            args["center"] = (cx, cy) if cen == "tuple" else jg.PositionD(cx, cy)
        ox, oy = (kw["ox"], kw["oy"]) if off else (0.0, 0.0)
        kw = dict(kw, ox=ox, oy=oy)
        if wcs in ("scale", "im-scale", "pixel"):
            J = [[kw["sc"], 0.0], [0.0, kw["sc"]]]
            if wcs == "scale":
                args["scale"] = kw["sc"]
            elif wcs == "pixel":
                args["wcs"] = jg.PixelScale(kw["sc"])
            else:
                iw = jg.PixelScale(kw["sc"])
        elif wcs in ("jac", "im-jac", "affine"):
            J = [[kw["p"], kw["q"]], [kw["r"], kw["s"]]]
            w = jg.JacobianWCS(kw["p"], kw["q"], kw["r"], kw["s"])
            if wcs == "affine":
                w = jg.AffineTransform(kw["p"], kw["q"], kw["r"], kw["s"], origin=jg.PositionD(3.0, -2.5), world_origin=jg.PositionD(0.5, 7.0))
            if wcs == "im-jac":
                iw = w
            else:
                args["wcs"] = w
        elif wcs == "bowl":
            X, Y = cx + ox, cy + oy
            J = [[1 + kw["e"] * Y, kw["e"] * X], [2 * kw["e"] * X, 1.0]]
            args["wcs"] = Bowl(kw["e"])
        if dt is not None:
            args["dtype"] = dt
        shift_to = None
        if how == "array":
            im = jg.Image(jnp.asarray(np.arange(nx * ny).reshape(ny, nx) * 0.5), xmin=x0, ymin=y0, wcs=iw)
            old = jnp.asarray(np.arange(nx * ny).reshape(ny, nx) * 0.5)
            r = probe(kw).drawImage(im, **args)
        else:
            old = 0.0
            if how == "nxny":
                r = probe(kw).drawImage(nx=nx, ny=ny, **args)
            else:
                r = probe(kw).drawImage(bounds=jg.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1), **args)
            im = r
        gx, gy = np.meshgrid(np.arange(nx), np.arange(ny))
        bx, by = r.bounds.xmin, r.bounds.ymin
        if how == "nxny" and cen:
            # an image of the requested size placed so that the centre falls in its middle pixel
            pass
        want = expect(kw, gx + bx, gy + by, cx, cy, J, method)
        out = {"pix": (r.array, want + (old if add else 0.0)), "added": (arr(r.added_flux) * kw["ar"] * kw["ex"] / kw["ga"] if method == "no_pixel" else 0.0, jnp.sum(want) if method == "no_pixel" else 0.0), "same": jnp.asarray(im is r)}
        if how == "array" or how == "bounds" or not cen:
            out["b"] = (jnp.stack([arr(t_) for t_ in (bx, by, r.bounds.xmax, r.bounds.ymax)]), jnp.asarray([x0, y0, x0 + nx - 1, y0 + ny - 1], dtype=float))
        else:
            mx, my = bx + (nx - 1) / 2, by + (ny - 1) / 2
            out["b"] = (mx - cx <= 0.5 + 1e-9) & (cx - mx <= 0.5 + 1e-9) & (my - cy <= 0.5 + 1e-9) & (cy - my <= 0.5 + 1e-9)
            out["n"] = jnp.asarray(r.array.shape == (ny, nx))
        if wcs in ("scale", "pixel", "im-scale"):
            out["wcs"] = (arr(r.scale), kw["sc"])
        elif wcs != "bowl":
            out["wcs"] = (jnp.stack([arr(r.wcs.dudx), arr(r.wcs.dudy), arr(r.wcs.dvdx), arr(r.wcs.dvdy)]), jnp.stack([arr(kw[n]) for n in "pqrs"]))
        else:
            out["wcs"] = jnp.asarray(isinstance(r.wcs, Bowl))
        return out

    SC = [F("sc", 0.1, 3)]
    CEN = [F("cx", -20, 20), F("cy", -20, 20)]
    base = CO + OFF + EXP

    def case(name, ins=None, assume=None, thorough=False, fix=None, **k):
        ins = base + (SC if k.get("wcs", "scale") in ("scale", "pixel", "im-scale") else JAC if k.get("wcs") != "bowl" else [F("e", 0.01, 0.05)]) + (CEN if k.get("cen") else [])
        if fix:
            ins = [i for i in ins if i.name not in fix]
        if k.get("off", "x") is None:
            ins = [i for i in ins if i.name not in ("ox", "oy")] + []
            fix = dict(fix or {}, ox=0.0, oy=0.0)
        f = functools.partial(draw, **k)
        if fix:
            f = lambda f=f, fix=dict(fix), **kw: f(**dict(kw, **{a: jnp.asarray(b) for a, b in fix.items()}))
        ob(name, f, ins, assume=assume, thorough=thorough)

    FJ = dict(q=0.5, r=0.0, s=-1.5)
    case("odd")
    case("even", nx=4, ny=2)
    case("even-nominal", nx=4, ny=3, true=False, x0=-7, y0=20)
    case("sb", nx=2, ny=3, method="sb")
    case("add", nx=3, ny=2, add=True, off="pos")
    case("sb-add", nx=2, ny=2, method="sb", add=True, wcs="im-scale", thorough=True)
    case("image-scale", nx=2, ny=2, wcs="im-scale", off="array")
    case("pixel-wcs", nx=2, ny=2, wcs="pixel", off=None)
    case("bounds", nx=2, ny=3, how="bounds", x0=-3, y0=5)
    case("nxny", nx=4, ny=3, how="nxny", dt=float)
    case("center", nx=3, ny=2, cen="tuple", x0=-5, y0=8)
    case("center-even", nx=4, ny=4, cen="pos", thorough=True)
    case("center-nominal", nx=2, ny=2, cen="pos", true=False)
    case("center-bounds", nx=2, ny=2, cen="pos", how="bounds", x0=4, y0=-3)
    case("center-nxny-odd", nx=3, ny=3, cen="tuple", how="nxny", dt=float)
    case("center-nxny-even", nx=2, ny=4, cen="pos", how="nxny", dt=float)
    for wcs in ("jac", "im-jac", "affine"):
        case(wcs + "-fixed", nx=2, ny=3, wcs=wcs, fix=FJ, assume=lambda **kw: kw["p"] >= 0.1)
        case(wcs, nx=2, ny=3, wcs=wcs, assume=nonsing, thorough=True)
    case("affine-center", nx=2, ny=2, wcs="affine", cen="pos", fix=FJ, assume=lambda **kw: kw["p"] >= 0.1)
    case("jac-sb", nx=2, ny=2, wcs="jac", method="sb", fix=FJ, assume=lambda **kw: kw["p"] >= 0.1)
    case("jac-add-even", nx=4, ny=2, wcs="im-jac", add=True, fix=FJ, assume=lambda **kw: kw["p"] >= 0.1, thorough=True)
    big = lambda **kw: (1 + kw["e"] * (kw.get("cy", 0) + kw["oy"]) >= 0.1)
    fb = dict(ar=2.0, ex=0.5, ga=4.0)
    case("local-at-object", nx=2, ny=2, wcs="bowl", x0=7, y0=12, fix=dict(fb, e=0.03125, oy=0.75))
    case("local-at-center", nx=2, ny=2, wcs="bowl", cen="pos", x0=7, y0=12, fix=dict(fb, e=0.03125, cx=8.25, cy=11.0, oy=0.75))
    case("local-at-center-any", nx=2, ny=2, wcs="bowl", cen="pos", x0=7, y0=12, fix=dict(fb, e=0.03125, ox=0.5, oy=0.75, cy=11.0), thorough=True)
    case("local-at-nominal", nx=2, ny=2, wcs="bowl", true=False, x0=7, y0=12, fix=dict(fb, e=0.03125, ox=1.5, oy=-0.25))

    # data types: integer images hold the rounded values
    def ints(kind, add, **kw):
        im = kind(jnp.full((2, 3), 4), xmin=2, ymin=-1, scale=kw["sc"]) if add else kind(3, 2, xmin=2, ymin=-1, scale=kw["sc"])
        p = probe(kw)
        d = p.drawImage(jg.ImageD(3, 2, xmin=2, ymin=-1, scale=kw["sc"]), method="no_pixel", offset=(kw["ox"], kw["oy"]))
        r = p.drawImage(im, method="no_pixel", offset=(kw["ox"], kw["oy"]), add_to_image=add)
        v = d.array + (4 if add else 0)
        out = {"dt": jnp.asarray(r.array.dtype == jnp.dtype(im.dtype)) & jnp.asarray(r.dtype == im.dtype)}
        if jnp.issubdtype(im.dtype, jnp.integer):
            out["round"] = jnp.abs(r.array - v) <= 0.5 + 1e-9
        else:
            out["pix"] = (r.array, v)
        return out

    for kind in (jg.ImageI, jg.ImageS, jg.ImageF):
        for add in (False, True):
            ob("dtype-%s%s" % (kind.__name__ if hasattr(kind, "__name__") else kind, "-add" if add else ""), functools.partial(ints, kind, add), CO + OFF + SC, rtol=1e-4, atol=1e-3, thorough=kind is jg.ImageS)

    # ---- automatic sizes
    def size(**kw):
        p = Herm(kw["c"], kw["k"], kw["fl"], lim=(3.0, kw["st"]))
        N = p.getGoodImageSize(kw["sc"])
        nd = 2 * PI / (kw["sc"] * kw["st"])
        return {"even": (N // 2) * 2 == N, "big": N >= nd * (1 - 1e-11), "small": N - 2 < nd}

    ob("auto-size", size, CO + [F("sc", 0.1, 3), F("st", 0.1, 2)])

    def sized(n, f):
        """run f with the library's choice of automatic size replaced by n (the choice itself is decided by auto-size)"""
        old = jg.GSObject.getGoodImageSize
        jg.GSObject.getGoodImageSize = lambda self, pixel_scale: n
        try:
            return f()
        finally:
            jg.GSObject.getGoodImageSize = old

    def auto(cen, n=4, **kw):
        p = probe(kw)
        cx, cy = (kw["cx"], kw["cy"]) if cen else ((n + 1) / 2,) * 2
        r = sized(n, lambda: p.drawImage(scale=kw["sc"], method="no_pixel", dtype=float, center=(cx, cy) if cen else None, offset=(kw["ox"], kw["oy"])))
        xs, ys = np.meshgrid(np.arange(n), np.arange(n))
        out = {"pix": (r.array, poly(kw["c"], (xs + arr(r.xmin) - cx - kw["ox"]) * kw["sc"], (ys + arr(r.ymin) - cy - kw["oy"]) * kw["sc"]) * kw["sc"] ** 2)}
        mx, my = arr(r.xmin) + (n - 1) / 2, arr(r.ymin) + (n - 1) / 2
        out["mid"] = (mx - cx <= 0.5 + 1e-9) & (cx - mx <= 0.5 + 1e-9) & (my - cy <= 0.5 + 1e-9) & (cy - my <= 0.5 + 1e-9)
        return out

    ob("auto-image", functools.partial(auto, False), CO + OFF + SC)
    ob("auto-center", functools.partial(auto, True), CO + OFF + SC + CEN)

    def nyq(**kw):
        r = sized(4, lambda: probe(kw).drawImage(method="no_pixel", dtype=float))
        r2 = sized(4, lambda: probe(kw).drawImage(method="no_pixel", dtype=float, scale=-1.0))
        xs, ys = np.meshgrid(np.arange(4) - 1.5, np.arange(4) - 1.5)
        s = PI / 3.0
        want = poly(kw["c"], xs * s, ys * s) * s**2
        return {"sc": (arr(r.scale), s), "pix": (r.array, want), "pix2": (r2.array, want)}

    ob("auto-scale", nyq, CO)

    # ---- Fourier drawing
    def dk(nx, ny, x0, y0, how, add, recen, **kw):
        p = probe(kw)
        if how == "image":
            im = jg.Image(jnp.full((ny, nx), 2.0 + 1j), xmin=x0, ymin=y0, scale=kw["sc"])
            r = p.drawKImage(im, add_to_image=add, recenter=recen)
        elif how == "nxny":
            r = p.drawKImage(nx=nx, ny=ny, scale=kw["sc"])
        else:
            r = p.drawKImage(bounds=jg.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1), scale=kw["sc"], recenter=recen)
        X0, Y0 = (-(nx // 2), -(ny // 2)) if recen else (x0, y0)
        gx, gy = np.meshgrid(np.arange(nx) + X0, np.arange(ny) + Y0)
        want = kpoly(kw["k"], kw["fl"], gx * kw["sc"], gy * kw["sc"]) + ((2.0 + 1j) if add else 0)
        return {"pix": (r.array, want), "sc": (arr(r.scale), kw["sc"]), "b": (jnp.stack([arr(r.xmin), arr(r.ymin)]), jnp.asarray([X0, Y0], dtype=float))}

    for i, a in enumerate([(3, 3, 1, 1, "image", False, True), (3, 3, -1, -1, "image", True, True), (4, 2, 5, -3, "image", True, False), (4, 3, 1, 1, "nxny", False, True), (2, 3, 4, 4, "bounds", False, False), (4, 4, 4, 4, "bounds", False, True)]):
        ob("drawk-%d" % i, functools.partial(dk, *a), CO + SC, fork=True)

    def dkauto(**kw):
        r = sized(4, lambda: probe(kw).drawKImage())
        gx, gy = np.meshgrid(np.arange(5) - 2, np.arange(5) - 2)
        return {"dk": (arr(r.scale), 0.25), "pix": (r.array, kpoly(kw["k"], kw["fl"], gx * 0.25, gy * 0.25))}

    ob("drawk-auto", dkauto, CO)

    # the drawn image is the discrete Fourier synthesis over the full (folded) frequency square
    GSF = lambda n, m: jg.GSParams(minimum_fft_size=n, maximum_fft_size=m)

    def synth(f, N, Nk, xs, ys):
        tot = 0.0
        for a in range(-(Nk // 2), Nk // 2 + 1):
            for b in range(-(Nk // 2), Nk // 2 + 1):
                z = f(a, b)
                ph = 2 * PI / N
                c, s = np.cos(ph * ((a * xs + b * ys) % N)), np.sin(ph * ((a * xs + b * ys) % N))
                tot = tot + (jnp.real(z) * c - jnp.imag(z) * s)
        return tot / N**2

    def fft(N, Nk, nx, ny, add, x0=None, y0=None, dt=float, fixed=False, **kw):
        sc = kw.get("sc", 1.0)
        lim = (2 * PI / (N * sc) * Nk / 2 * (0.999 if Nk != N else 0.49), 2 * PI / (N * 0.99 * sc)) if not fixed else (3.0, 0.25)
        p = Herm(kw["c"], kw["k"], kw["fl"], lim=lim, gsparams=GSF(N, N if fixed else 64))
        x0 = -(nx // 2) if x0 is None else x0
        y0 = -(ny // 2) if y0 is None else y0
        im = jg.Image(jnp.full((ny, nx), 3.0), xmin=x0, ymin=y0, scale=sc)
        if fixed:
            ret = p.drawFFT(im, add_to_image=add)
        else:
            with jax.ensure_compile_time_eval():  # transform sizes are chosen from concrete numbers
                k, wrap = p.drawFFT_makeKImage(im)
            ret = p.drawFFT_finish(im, p._drawKImage(k), wrap, add)
        dk_ = 2 * PI / (N * sc)
        xs, ys = np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0)
        want = synth(lambda a, b: hval(kw, a * dk_, b * dk_), N, Nk, xs, ys)
        return {"pix": (im.array, want + (3.0 if add else 0.0)), "sum": (arr(ret), jnp.sum(want)), "b": (jnp.stack([arr(im.xmin), arr(im.ymin)]), jnp.asarray([x0, y0], dtype=float))}

    for N, Nk, nx, ny, add, x0, y0 in ((4, 4, 4, 4, False, None, None), (4, 8, 3, 4, True, None, None), (6, 6, 3, 2, False, 0, -3), (6, 8, 3, 3, False, None, None), (8, 8, 5, 4, True, None, None), (8, 12, 4, 4, False, None, None)):
        ob("fft-%d-%d-%dx%d" % (N, Nk, nx, ny), functools.partial(fft, N, Nk, nx, ny, add, x0, y0), CO, thorough=N == 8)
    for N in (4, 6):
        ob("fft-fixed-%d" % N, functools.partial(fft, N, N, 3, 3, False, fixed=True), CO + SC)

    def finish(N, Nk, nx, ny, x0, y0, add, **kw):
        v = kw["kr"] + 1j * kw["ki"]
        kim = jg.ImageCD(v, xmin=0, ymin=-(Nk // 2), scale=0.5)
        im = jg.ImageD(jnp.full((ny, nx), 3.0), xmin=x0, ymin=y0, scale=1.0)
        p = Herm(jnp.zeros(4), jnp.zeros(3), 1.0)
        ret = p.drawFFT_finish(im, kim, N, add)
        xs, ys = np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0)

        def f(a, b):
            return v[b + Nk // 2, a] if a > 0 else jnp.conj(v[-b + Nk // 2, -a]) if a < 0 else (v[b + Nk // 2, 0] + jnp.conj(v[-b + Nk // 2, 0])) / 2

        want = synth(f, N, Nk, xs, ys)
        return {"pix": (im.array, want + (3.0 if add else 0.0)), "sum": (arr(ret), jnp.sum(want))}

    for N, Nk, nx, ny, x0, y0, add in ((2, 4, 2, 2, -1, -1, False), (4, 4, 3, 4, -1, -2, True), (4, 6, 2, 2, 0, -1, False), (4, 8, 2, 2, 0, -1, False)):
        K = [F("kr", -2, 2, shape=(Nk + 1, Nk // 2 + 1)), F("ki", -2, 2, shape=(Nk + 1, Nk // 2 + 1))]
        herm = None
        ob("finish-%d-%d" % (N, Nk), functools.partial(finish, N, Nk, nx, ny, x0, y0, add), K, thorough=Nk == 8)

    # sizes of the transform
    def mk(st, mk_, sc, b, mn, N, Nk, **kw):
        p = Herm(kw["c"], kw["k"], kw["fl"], lim=(mk_, st), gsparams=GSF(mn, 4096))
        im = jg.ImageD(bounds=jg.BoundsI(*b), scale=sc)
        with jax.ensure_compile_time_eval():
            k, wrap = p.drawFFT_makeKImage(im)
        ok = wrap >= 2 * PI / (sc * st) * (1 - 2e-5) and wrap >= 2 * max(map(abs, b)) and wrap >= mn
        nk = 2 * k.bounds.xmax
        return {"n": jnp.asarray(bool(ok)), "N": (arr(wrap), float(N)), "k": (jnp.stack([arr(k.xmin), arr(k.xmax), arr(k.ymin), arr(k.ymax)]), jnp.asarray([0.0, Nk / 2, -Nk / 2, Nk / 2])), "dk": (arr(k.scale), 2 * PI / (N * sc)), "cover": jnp.asarray(bool(nk * k.scale / 2 >= mk_ * (1 - 1e-9)))}

    for i, a in enumerate(((0.3, 3.0, 1.0, (-2, 2, -2, 2), 4, 24, 24), (0.3, 30.0, 1.0, (-2, 2, -2, 2), 4, 24, 230), (2.0, 1.0, 0.5, (-9, 2, -2, 5), 4, 24, 24), (2.0, 1.0, 0.5, (-2, 2, -2, 2), 128, 128, 128), (2.0, 50.0, 0.5, (-2, 2, -2, 2), 32, 32, 256))):
        ob("fft-size-%d" % i, functools.partial(mk, *a), CO, validate=0)

    # drawImage with pixel convolution, in Fourier space
    def auto_fft(N, nx, ny, method, even, **kw):
        p = Herm(kw["c"], kw["k"], kw["fl"], lim=(1.0, 10.0), gsparams=GSF(N, N))
        im = jg.ImageD(jnp.full((ny, nx), 3.0), xmin=4, ymin=-2, scale=kw["sc"])
        r = p.drawImage(im, method=method, area=kw["ar"], exptime=kw["ex"], gain=kw["ga"], offset=(0.25, -0.5) if not even else None, add_to_image=even)
        xs, ys = np.meshgrid(np.arange(nx) - nx // 2, np.arange(ny) - ny // 2)
        d = 2 * PI / N
        # offset of the profile from the middle pixel of the transform
        ox, oy = (0.25, -0.5) if not even else (0.0, 0.0)
        ox, oy = ox - 0.5 * ((nx + 1) % 2), oy - 0.5 * ((ny + 1) % 2)
        amp = kw["ar"] * kw["ex"] / kw["ga"]

        def f(a, b):
            s = float(np.sinc(a / N) * np.sinc(b / N))
            ph = (a * ox + b * oy) * d
            return hval(kw, a * d / kw["sc"], b * d / kw["sc"]) * s * complex(np.cos(ph), -np.sin(ph)) * amp

        want = synth(f, N, N, xs, ys)
        return {"pix": (r.array, want + (3.0 if even else 0.0)), "added": (arr(r.added_flux) * amp, jnp.sum(want))}

    ob("auto-fft", functools.partial(auto_fft, 6, 3, 3, "auto", False), CO + SC + EXP)
    ob("fft-fft-even", functools.partial(auto_fft, 6, 4, 2, "fft", True), CO + SC + EXP)
    return obs
