import math

from jax_galsim import interpolatedimage as iim
from vlib.common import *

FUNCTIONS = ["InterpolatedImage, _InterpolatedImageImpl: construction, _xValue, _kValue, _drawReal, _drawKImage, _offset, _wcs, _xim, _kim, _flux, _flux_ratio, _centroid, _max_sb, _positive_flux, _negative_flux, _getStepK, _getMaxK",
             "_draw_with_interpolant_xval, _draw_with_interpolant_kval, _kValue_arr, _interp_weight_1d_xval/kval, _flux_frac, _calculate_size_containing_flux, _find_maxk"]
ASSUMPTIONS = [
    "images up to 4x4 (7x3 for sizes) with free pixel values; every position within the named cell and the fraction inside it free; image origin, scale, offset, requested flux free",
    "interpolants Nearest, Linear, Cubic and Quintic (their kernels are decided by P21); points exactly half way between two pixels excluded for Nearest, which GalSim counts twice",
    "Fourier side: transforms of 4 to 8 pixels, free complex values in the half plane",
]
IN = {"nearest": jg.Nearest(), "linear": jg.Linear(), "cubic": jg.Cubic(), "quintic": jg.Quintic()}


def arr(v):
    return jnp.asarray(v, dtype=float)


def kern(it, d):
    return arr(it.xval(d))


def ksum(it, zp, u, v, xmin, ymin):
    """sum over every pixel of value times kernel, no index arithmetic"""
    ny, nx = zp.shape
    wx = [kern(it, u - (xmin + i)) for i in range(nx)]
    wy = [kern(it, v - (ymin + j)) for j in range(ny)]
    return sum(zp[j, i] * wx[i] * wy[j] for j in range(ny) for i in range(nx))


def nohalf(*names):
    def a(**kw):
        return jnp.all(jnp.stack([jnp.abs(kw[n] - 0.5) >= 1e-6 for n in names]))

    return a


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 1)
        obs.append(Ob(name, f, ins, **k))

    # ---- real-space kernel sums: every cell around and inside the image
    Z = [F("z", -3, 3, shape=(3, 4)), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)]

    def xcell(it, ci, cj, z, fx, fy):
        x, y = ci - 2 + fx, cj + 5 + fy
        return {"v": (iim._draw_with_interpolant_xval(jnp.stack([x]), jnp.stack([y]), -2, 5, z, IN[it])[0], ksum(IN[it], z, x, y, -2, 5))}

    for it in IN:
        R = math.ceil(IN[it].xrange)
        cells = [(ci, cj) for ci in range(-R - 1, 4 + R) for cj in range(-R - 1, 3 + R)]
        for n, (ci, cj) in enumerate(cells):
            inside = (ci, cj) in ((1, 1), (0, 2), (-1, 0), (3, 1), (2, -1)) or (ci, cj) in ((-R, 0), (3 + R - 1, 1), (1, 2 + R - 1), (1, -R))
            ob("xcell-%s-%d,%d" % (it, ci, cj), functools.partial(xcell, it, ci, cj), Z, assume=nohalf("fx", "fy") if it == "nearest" else None, validate=0, thorough=not inside or (it == "quintic" and (ci, cj) not in ((1, 1), (-3, 0), (3, 1))))

    def xnode(it, z, fx, fy):
        g = np.meshgrid(np.arange(-2.0, 2.0), np.arange(5.0, 8.0))
        out = {"px": (iim._draw_with_interpolant_xval(jnp.asarray(g[0]), jnp.asarray(g[1]), -2, 5, z, IN[it]), z)}
        x = fx * 30
        sx = jnp.where(fy < 0.5, -x - 2 - 3.5, x + 1 + 3.5)
        out["out"] = (iim._draw_with_interpolant_xval(jnp.stack([sx]), jnp.stack([6.0 + fy]), -2, 5, z, IN[it])[0], 0.0)
        return out

    for it in IN:
        ob("xnode-" + it, functools.partial(xnode, it), Z, validate=0)

    # every position at once, small image
    def xany(it, z, x, y):
        return {"v": (iim._draw_with_interpolant_xval(jnp.stack([x]), jnp.stack([y]), 0, 0, z, IN[it])[0], ksum(IN[it], z, x, y, 0, 0))}

    ob("xany-linear", functools.partial(xany, "linear"), [F("z", -3, 3, shape=(1, 2)), F("x", -2, 3), F("y", -2, 2)], thorough=True)

    # ---- Fourier-space kernel sums over the periodic Hermitian extension
    def ext(zp, kx, ky):
        n = zp.shape[0]
        kx = (kx + n // 2) % n - n // 2
        ky = (ky + n // 2) % n - n // 2
        if kx >= 0:
            return zp[ky + n // 2, kx]
        my = (-ky + n // 2) % n - n // 2
        return jnp.conj(zp[my + n // 2, -kx])

    def kcell(it, n, ci, cj, z, fx, fy):
        zc = z[0] + 1j * z[1]
        R = math.ceil(IN[it].xrange)
        kx, ky = ci + fx, cj + fy
        got = iim._draw_with_interpolant_kval(jnp.stack([kx]), jnp.stack([ky]), -n // 2, -n // 2, zc, IN[it])[0]
        wx = {i: kern(IN[it], kx - i) for i in range(ci - R + 1 - (R == 1), ci + R + 1)}
        wy = {i: kern(IN[it], ky - i) for i in range(cj - R + 1 - (R == 1), cj + R + 1)}
        want = sum(ext(zc, i, j) * wx[i] * wy[j] for i in wx for j in wy)
        return {"re": (got.real, want.real), "im": (got.imag, want.imag)}

    for it in IN:
        for n in (4, 6, 8):
            ZC = [F("z", -3, 3, shape=(2, n, n // 2 + 1)), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)]
            for ci in range(-n, n):
                for cj in range(-n, n):
                    quick = n == 4 and (ci, cj) in ((0, 0), (-1, 1), (1, -2), (-2, -1), (2, 3)) and it != "quintic" or (it == "quintic" and n == 6 and (ci, cj) == (-1, 1))
                    if quick or (ci + 3 * cj) % 5 == 0 and abs(ci) <= n // 2 + 1 and abs(cj) <= n // 2 + 1:
                        ob("kcell-%s%d-%d,%d" % (it, n, ci, cj), functools.partial(kcell, it, n, ci, cj), ZC, assume=nohalf("fx", "fy") if it == "nearest" else None, validate=0, thorough=not quick)

    def knode(it, n, z, fx, fy):
        zc = z[0] + 1j * z[1]
        g = np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1))
        got = iim._draw_with_interpolant_kval(jnp.asarray(g[0], dtype=float), jnp.asarray(g[1], dtype=float), -n // 2, -n // 2, zc, IN[it])
        want = jnp.stack([jnp.stack([ext(zc, i, j) for i in range(-n, n + 1)]) for j in range(-n, n + 1)])
        return {"re": (got.real, want.real), "im": (got.imag, want.imag)}

    for it in IN:
        ob("knode-" + it, functools.partial(knode, it, 4), [F("z", -3, 3, shape=(2, 4, 3)), F("fx", 0, 1), F("fy", 0, 1)], validate=0)

    # ---- the assembled Fourier value: phase of the offset, transform of the kernel, band limit
    def kasm(xi, z, fx, fy, ox, oy, dk):
        zc = z[0] + 1j * z[1]
        kx, ky = (1 + fx) * dk, (-2 + fy) * dk
        got = iim._kValue_arr(jnp.stack([kx]), jnp.stack([ky]), ox, oy, 0, -2, zc, dk, IN[xi], IN["linear"])[0]
        v = iim._draw_with_interpolant_kval(jnp.stack([1 + fx]), jnp.stack([-2 + fy]), -2, -2, zc, IN["linear"])[0]
        ph = kx * ox + ky * oy
        c, s = jnp.cos(ph), jnp.sin(ph)
        w = arr(IN[xi].kval(kx)) * arr(IN[xi].kval(ky))
        return {"re": (got.real, w * (c * v.real - s * v.imag)), "im": (got.imag, w * (s * v.real + c * v.imag))}

    ZK = [F("z", -3, 3, shape=(2, 4, 3)), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6), F("ox", -3, 3), F("oy", -3, 3), F("dk", 0.05, 1.5)]
    ob("kasm-linear", functools.partial(kasm, "linear"), ZK, validate=0)
    ob("kasm-nearest", functools.partial(kasm, "nearest"), ZK, validate=0)
    ob("kasm-cubic", functools.partial(kasm, "cubic"), ZK, validate=0, thorough=True)

    def kband(z, r, q, dk):
        zc = z[0] + 1j * z[1]
        lim = 2 * PI * IN["cubic"].urange()
        # r is the frequency in units of the band limit of the real-space kernel, scaled by the grid as the library does
        kx, ky = r * lim, q * lim
        out = iim._kValue_arr(jnp.stack([kx, ky]), jnp.stack([ky, kx]), 0.3, 0.2, 0, -2, zc, dk, IN["cubic"], IN["linear"])
        return {"x": (out[0].real, 0.0), "y": (out[1].real, 0.0), "xi": (out[0].imag, 0.0), "yi": (out[1].imag, 0.0)}

    ob("kband", kband, [F("z", -3, 3, shape=(2, 4, 3)), F("r", 1.0001, 5), F("q", 0.001, 0.01), F("dk", 0.2, 1.5)], validate=0, thorough=True)

    # ---- the assembled object
    W = [F("a", 0.2, 3, shape=(3, 3)), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)]

    def make(kw, shape, it, tc, norm, flux, wcsk, off, **k):
        a = kw["a"]
        im = jg.Image(a, xmin=4, ymin=-3)
        opt = dict(x_interpolant=IN[it], k_interpolant=IN["linear"], use_true_center=tc, normalization=norm, calculate_stepk=False, calculate_maxk=False)
        opt.update(k)
        if flux:
            opt["flux"] = kw["fl"]
        if off:
            opt["offset"] = jg.PositionD(kw["ox"], kw["oy"])
        if wcsk == "scale":
            opt["scale"] = kw["s"]
            J = (kw["s"], 0.0, 0.0, kw["s"])
        elif wcsk == "imscale":
            im.wcs = jg.PixelScale(kw["s"])
            J = (kw["s"], 0.0, 0.0, kw["s"])
        elif wcsk == "jac":
            opt["wcs"] = jg.JacobianWCS(kw["s"], 0.3, -0.4, kw["q"])
            J = (kw["s"], 0.3, -0.4, kw["q"])
        elif wcsk == "affine":
            im.wcs = jg.AffineTransform(kw["s"], 0.3, -0.4, kw["q"], origin=jg.PositionD(2.0, 3.0), world_origin=jg.PositionD(20.0, -7.0))
            J = (kw["s"], 0.3, -0.4, kw["q"])
        elif wcsk == "shear":
            opt["wcs"] = jg.ShearWCS(kw["s"], jg.Shear(g1=0.6, g2=0.0))
            # e^{eta}: g1 = 0.6 stretches u by 1/2 ... of the pixel scale
            J = (kw["s"] * 0.5, 0.0, 0.0, kw["s"] * 2.0)
        return jg.InterpolatedImage(im, **opt), J, im

    def cen(shape, tc, off, kw):
        ny, nx = shape
        cx, cy = 4 + (nx - 1) / 2, -3 + (ny - 1) / 2
        if not tc:
            cx, cy = 4 + nx // 2, -3 + ny // 2
        if off:
            return cx + kw["ox"], cy + kw["oy"]
        return cx, cy

    def objx(shape, it, tc, norm, flux, wcsk, off, cell, **kw):
        ii, J, im = make(kw, shape, it, tc, norm, flux, wcsk, off)
        a = kw["a"]
        px, py = 4 + cell[0] + kw["fx"], -3 + cell[1] + kw["fy"]
        cx, cy = cen(shape, tc, off, kw)
        dx, dy = px - cx, py - cy
        pos = jg.PositionD(J[0] * dx + J[1] * dy, J[2] * dx + J[3] * dy)
        det = J[0] * J[3] - J[1] * J[2]
        tot = jnp.sum(a)
        if flux:
            sc = kw["fl"] / tot / det
        elif norm in ("sb", "surface brightness"):
            sc = 1.0
        else:
            sc = 1.0 / det
        want = ksum(IN[it], a, px, py, 4, -3) * sc
        return {"v": (arr(ii.xValue(pos)), want), "flux": (arr(ii.flux), kw["fl"] if flux else tot * det if norm in ("sb", "surface brightness") else tot)}

    def OI(shape, flux, wcsk, off):
        r = [F("a", 0.2, 3, shape=shape), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)]
        r.append(F("s", 0.2, 3))
        if wcsk in ("jac", "affine"):
            r.append(F("q", 0.2, 3))
        if flux:
            r.append(F("fl", 0.5, 9))
        if off:
            r += [F("ox", -2, 2), F("oy", -2, 2)]
        return r

    CASES = [
        ((2, 3), "linear", True, "flux", False, "scale", False, (1, 0)),
        ((2, 3), "linear", True, "sb", False, "scale", True, (0, 0)),
        ((3, 2), "linear", False, "flux", False, "imscale", False, (0, 1)),
        ((2, 2), "linear", False, "sb", True, "scale", True, (0, 0)),
        ((2, 2), "linear", True, "flux", True, "jac", True, (0, 0)),
        ((3, 3), "linear", True, "flux", False, "affine", False, (1, 1)),
        ((1, 2), "linear", True, "sb", False, "jac", False, (-1, 0)),
        ((2, 2), "cubic", True, "f", False, "scale", False, (0, 0)),
        ((2, 2), "quintic", True, "flux", False, "scale", False, (0, 1)),
        ((2, 2), "linear", False, "surface brightness", False, "imscale", True, (0, 0)),
        ((3, 2), "nearest", True, "flux", False, "scale", True, (0, 1)),
        ((3, 4), "linear", True, "flux", False, "shear", False, (2, 1)),
    ]
    for i, c in enumerate(CASES):
        ob("object-%d-%s" % (i, c[1]), functools.partial(objx, *c), OI(c[0], c[4], c[5], c[6]), assume=nohalf("fx", "fy") if c[1] == "nearest" else None, validate=i in (1, 4))

    def default(a, s, fx, fy):
        im = jg.Image(a, scale=s, xmin=4, ymin=-3)
        ii = jg.InterpolatedImage(im, calculate_stepk=False, calculate_maxk=False)
        q = jg.Quintic()
        return {"v": (arr(ii.xValue(jg.PositionD(s * (fx - 0.5), s * (fy - 0.5)))), ksum(q, a, 4 + fx, -3 + fy, 4, -3) / s**2), "int": jnp.asarray(ii.x_interpolant == q and ii.k_interpolant == q), "im": (ii.image.array, a)}

    ob("default", default, [F("a", 0.2, 3, shape=(2, 2)), F("s", 0.2, 3), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)], validate=0)

    # the profile belongs to the image as it was when the profile was made
    def alias(change, a, b, s, q, fx, fy):
        def v(o):
            p = jg.PositionD(s * (fx - 0.5), s * (fy - 0.5))
            return {"x": arr(o.xValue(p)), "flux": arr(o.flux), "cx": o.centroid.x, "cy": o.centroid.y}

        def build():
            im = jg.Image(a, scale=s, xmin=4, ymin=-3)
            return im, jg.InterpolatedImage(im, x_interpolant="linear", calculate_stepk=False, calculate_maxk=False)

        im, ii = build()
        want = v(build()[1])
        {"add": lambda: im.__iadd__(jg.Image(b, xmin=4, ymin=-3)), "scale": lambda: im.__imul__(q), "set": lambda: im.setValue(5, -3, q), "fill": lambda: im.fill(q), "array": lambda: setattr(im, "array", b),
         "origin": lambda: im.setOrigin(20, 31), "wcs": lambda: setattr(im, "wcs", jg.PixelScale(q)), "sub": lambda: im.setSubImage(jg.BoundsI(4, 5, -3, -3), jg.Image(b[:1], xmin=4, ymin=-3))}[change]()
        out = {}
        for k, w in v(ii).items():
            out[k] = (w, want[k])
        for k, w in v(jax.jit(lambda o: o)(ii)).items():
            out["jit-" + k] = (w, want[k])
        return out

    for ch in ("add", "scale", "set", "fill", "array", "origin", "wcs", "sub"):
        ob("later-" + ch, functools.partial(alias, ch), [F("a", 0.2, 3, shape=(2, 2)), F("b", 0.2, 3, shape=(2, 2)), F("s", 0.2, 3), F("q", 0.2, 3), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)], validate=0, thorough=ch in ("sub", "fill", "scale"))

    # linear in the pixel values
    def linear(a, b, al, fx, fy):
        def v(z):
            ii = jg.InterpolatedImage(jg.Image(z), scale=0.7, x_interpolant="linear", calculate_stepk=False, calculate_maxk=False)
            return arr(ii.xValue(jg.PositionD(0.7 * (fx - 0.5), 0.7 * (fy - 0.5))))

        return {"sum": (v(a + al * b), v(a) + al * v(b))}

    ob("linear", linear, [F("a", 0.2, 3, shape=(2, 2)), F("b", 0.2, 3, shape=(2, 2)), F("al", 0.1, 3), F("fx", 1e-6, 1 - 1e-6), F("fy", 1e-6, 1 - 1e-6)], validate=0)

    # ---- scalar summaries
    def summ(shape, tc, off, wcsk, **kw):
        ii, J, im = make(kw, shape, "cubic", tc, "flux", False, wcsk, off)
        a = kw["a"]
        ny, nx = shape
        X, Y = np.meshgrid(4 + np.arange(nx), -3 + np.arange(ny))
        cx, cy = cen(shape, tc, off, kw)
        tot = jnp.sum(a)
        mx, my = jnp.sum(a * X) - tot * cx, jnp.sum(a * Y) - tot * cy
        c = ii.centroid
        p, n = IN["cubic"].positive_flux, IN["cubic"].negative_flux
        pf, nf = jnp.sum(jnp.where(a > 0, a, 0.0)), jnp.sum(jnp.where(a < 0, -a, 0.0))
        det = J[0] * J[3] - J[1] * J[2]
        return {"cx": (arr(c.x) * tot, J[0] * mx + J[1] * my), "cy": (arr(c.y) * tot, J[2] * mx + J[3] * my),
                "pos": (arr(ii.positive_flux), (p * p + n * n) * pf + 2 * p * n * nf), "neg": (arr(ii.negative_flux), (p * p + n * n) * nf + 2 * p * n * pf),
                "maxsb": (arr(ii.max_sb) * det, jnp.max(jnp.abs(a))), "flux": (arr(ii.flux), tot)}

    def nz(**kw):
        return jnp.sum(kw["a"]) >= 0.1

    for i, c in enumerate([((2, 2), True, False, "scale"), ((2, 3), True, True, "scale"), ((3, 2), False, True, "jac"), ((2, 2), False, False, "jac")]):
        ob("summary-%d" % i, functools.partial(summ, *c), [F("a", -3, 3, shape=c[0])] + OI(c[0], False, c[3], c[2])[3:], assume=nz, validate=0)

    # ---- Fourier transform of the assembled object
    def objk(shape, tc, off, kints, **kw):
        ii, J, im = make(kw, shape, "linear", tc, "flux", False, "scale", off, pad_factor=1.0, k_interpolant=IN[kints[2]])
        a = kw["a"]
        n = jg.Image.good_fft_size(max(shape))
        out = {}
        cx, cy = cen(shape, tc, off, kw)
        s = kw["s"]
        for i, j in kints[:2]:
            kx, ky = 2 * math.pi * i / n, 2 * math.pi * j / n
            v = ii.kValue(jg.PositionD(kx / s, ky / s))
            re = im_ = 0.0
            for y in range(shape[0]):
                for x in range(shape[1]):
                    ph = kx * (4 + x - cx) + ky * (-3 + y - cy)
                    re = re + a[y, x] * jnp.cos(ph)
                    im_ = im_ - a[y, x] * jnp.sin(ph)
            w = float(np.sinc(i / n) ** 2 * np.sinc(j / n) ** 2)
            out["re%d,%d" % (i, j)] = (v.real, re * w)
            out["im%d,%d" % (i, j)] = (v.imag, im_ * w)
        return out

    KI = {"linear": [(0, 0), (1, 0), "linear"], "b": [(-1, 1), (1, -2), "linear"], "cubic": [(0, 1), (2, 1), "cubic"]}
    for i, c in enumerate([((2, 2), True, False, KI["linear"]), ((4, 4), True, False, KI["b"]), ((3, 3), False, False, KI["cubic"]), ((4, 2), True, True, KI["linear"]), ((3, 4), False, False, KI["b"])]):
        ob("objectk-%d" % i, functools.partial(objk, *c), OI(c[0], False, "scale", c[2]), validate=0)

    def k0(shape, pf, norm, flux, wcsk, **kw):
        ii, J, im = make(kw, shape, "cubic", True, norm, flux, wcsk, False, pad_factor=pf, k_interpolant=IN["quintic"])
        v = ii.kValue(jg.PositionD(0.0, 0.0))
        return {"re": (v.real, ii.flux), "im": (v.imag, 0.0)}

    for i, c in enumerate([((2, 2), 2.0, "flux", False, "scale"), ((3, 2), 4.0, "sb", False, "jac"), ((4, 4), 1.0, "flux", True, "scale")]):
        ob("kzero-%d" % i, functools.partial(k0, *c), OI(c[0], c[3], c[4], False), validate=0)

    # ---- padding
    def pad(shape, pf, **kw):
        ii, J, im = make(kw, shape, "linear", True, "flux", False, "scale", False, pad_factor=pf)
        x = ii._xim
        a = kw["a"]
        ny, nx = shape
        size = jg.Image.good_fft_size(int(math.ceil(pf * max(shape))) if pf > 1 else max(shape))
        k = ii._original._kim
        want = jnp.zeros(x.array.shape)
        j0, i0 = -(ny // 2) - x.ymin, -(nx // 2) - x.xmin
        want = want.at[j0 : j0 + ny, i0 : i0 + nx].set(a)
        return {"x": (x.array, want), "size": jnp.asarray(max(x.array.shape) in (size, size - 1) and k.array.shape == (size + 0, size // 2 + 1)), "orig": (im.array, a), "b": jnp.asarray(im.bounds == jg.BoundsI(4, 3 + nx, -3, ny - 4))}

    for i, c in enumerate([((2, 3), 1.0), ((3, 3), 2.0), ((2, 2), 4.0), ((4, 2), 1.5)]):
        ob("pad-%d" % i, functools.partial(pad, *c), OI(c[0], False, "scale", False), validate=0)

    # ---- drawing onto the same grid returns the pixels
    def same(it, **kw):
        a, s = kw["a"], kw["s"]
        im = jg.Image(a, scale=s, xmin=2, ymin=7)
        ii = jg.InterpolatedImage(im, x_interpolant=IN[it], calculate_stepk=False, calculate_maxk=False)
        out = ii.drawImage(image=jg.Image(jnp.zeros(a.shape), xmin=2, ymin=7), scale=s, method="no_pixel")
        big = ii.drawImage(nx=a.shape[1] + 4, ny=a.shape[0] + 4, scale=s, method="no_pixel", dtype=float)
        want = jnp.zeros((a.shape[0] + 4, a.shape[1] + 4)).at[2:-2, 2:-2].set(a)
        return {"px": (out.array, a), "big": (big.array, want)}

    for it in IN:
        ob("redraw-" + it, functools.partial(same, it), [F("a", 0.2, 3, shape=(3, 2)), F("s", 0.2, 3)], validate=0)

    def drawk(**kw):
        dk = 0.37
        ii, J, im = make(kw, (2, 2), "linear", True, "flux", False, "scale", False, pad_factor=1.0)
        k = ii.drawKImage(nx=3, ny=3, scale=dk)
        out = {}
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                v = ii.kValue(jg.PositionD(i * dk, j * dk))
                out["re%d,%d" % (i, j)] = (k(i, j).real, v.real)
                out["im%d,%d" % (i, j)] = (k(i, j).imag, v.imag)
        return out

    ob("drawk", drawk, [F("a", 0.2, 3, shape=(2, 2)), F("s", 0.5, 0.5000001)], validate=0)

    # ---- size estimators
    def stepk(shape, **kw):
        a, th = kw["a"], kw["th"]
        ny, nx = shape
        im = jg.Image(a, xmin=-(nx // 2), ymin=-(ny // 2), scale=1.0)
        R = iim._calculate_size_containing_flux(im, th)
        X, Y = np.meshgrid(np.arange(nx) - nx // 2, np.arange(ny) - ny // 2)
        D = np.maximum(abs(X), abs(Y))
        want = None
        for d in range(D.max(), -1, -1):
            s = jnp.sum(jnp.where(D <= d, a, 0.0))
            want = d + 0.5 if want is None else jnp.where(s >= th, d + 0.5, want)
        return {"R": (arr(R), want)}

    def enough(**kw):
        return jnp.sum(kw["a"]) >= kw["th"]

    for sh in ((3, 3), (4, 4), (3, 7), (5, 2)):
        ob("size-%dx%d" % sh, functools.partial(stepk, sh), [F("a", 0.0, 3, shape=sh), F("th", 0.1, 60)], assume=enough, validate=0)

    def steps(**kw):
        a, s = kw["a"], kw["s"]
        im = jg.Image(a, scale=s)
        ii = jg.InterpolatedImage(im, x_interpolant="cubic", calculate_maxk=False)
        # all the flux in the central pixel and a free surrounding ring
        thr = (1 - ii.gsparams.folding_threshold) * jnp.sum(a)
        R = jnp.where(a[1, 1] >= thr, 0.5, 1.5)
        jj = jg.InterpolatedImage(im, x_interpolant="cubic", calculate_maxk=False, calculate_stepk=False)
        kk = jg._InterpolatedImage(im, x_interpolant=jg.Cubic(), force_stepk=0.3, force_maxk=0.7)
        return {"step": (arr(ii.stepk) ** 2 * (R**2 + 4) * s**2, PI**2), "nocalc": (arr(jj.stepk) ** 2 * (1.0 + 4) * s**2, PI**2), "maxk": (arr(jj.maxk) * s, ii.x_interpolant.krange), "force": (jnp.stack([arr(kk.stepk), arr(kk.maxk)]), jnp.array([0.3, 0.7]))}

    ob("stepk", steps, [F("a", 0.1, 3, shape=(3, 3)), F("s", 0.2, 3)], validate=0)

    # largest frequency above the threshold, ring by ring
    def maxk(n, **kw):
        g = kw["g"]
        ky, kx = np.meshgrid(np.arange(-n // 2, n // 2), np.arange(0, n // 2 + 1), indexing="ij")
        ring = np.maximum(abs(kx), abs(ky))
        vals = jnp.stack([jnp.where(g[i], 2.0, 0.5) for i in range(n // 2 + 1)])
        im = jg.Image(vals[ring] * (0.6 + 0.8j), xmin=0, ymin=-n // 2, scale=0.25)
        got = iim._find_maxk(im, 1e9, 1.0)
        m = n // 2 + 1
        # five frequencies in a row without a new value above the threshold end the search
        want = (m - 1) + 1.0
        for i in range(m - 1, -1, -1):
            quiet = jnp.asarray(True)
            for q in range(i, min(i + 5, m)):
                if q > 0:
                    quiet = quiet & ~g[q]
            want = jnp.where(quiet, float(i), want)
        return {"k": (arr(got), want * 0.25), "cap": (arr(iim._find_maxk(im, 0.3, 1.0)), jnp.minimum(0.3, want * 0.25))}

    for n in (4, 8, 16):
        ob("maxk-%d" % n, functools.partial(maxk, n), [Bo("g", shape=(n // 2 + 1,))], validate=0)
    return obs
