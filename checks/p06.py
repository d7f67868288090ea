from vlib.common import *

FUNCTIONS = ["Image.calculate_fft", "Image.calculate_inverse_fft", "Image._wrap (hermitian, via the inverse FFT)", "jnp.fft.rfft2/irfft2/fftshift as called"]
ASSUMPTIONS = [
    "image bounds enumerated (up to 4x4 padded to 6x6 quick, 8x8 thorough); pixel values in [-9,9], pixel scale in [0.05,5] symbolic",
    "the fft primitive is interpreted as the discrete Fourier sum",
]


def bnd(b):
    return jnp.array([b.xmin, b.xmax, b.ymin, b.ymax])


def half(b):
    return max(-b[0], b[1] + 1, -b[2], b[3] + 1)


def dft(vals, n):
    """vals: dict (x,y)->value; sum over pixels of value * exp(-i pi (kx x + ky y)/n)"""
    out = []
    for ky in range(-n, n):
        row = []
        for kx in range(0, n + 1):
            s = 0j
            for (x, y), v in vals.items():
                ph = -np.pi * ((kx * x + ky * y) % (2 * n)) / n
                s = s + v * complex(np.cos(ph), np.sin(ph))
            row.append(s)
        out.append(row)
    return jnp.array(out)


def obligations(tier):
    obs = []
    FW = [(-1, 0, -1, 0), (0, 1, 0, 1), (-2, 1, -2, 1), (-2, 0, -1, 1), (1, 2, -2, -1), (0, 2, 0, 0), (-3, -2, 0, 1)]
    if tier == "thorough":
        FW += [(-3, 2, -3, 2), (-1, 3, 0, 1), (2, 3, 1, 3), (-4, -3, -2, 3)]
    for b in FW:
        sh = (b[3] - b[2] + 1, b[1] - b[0] + 1)
        n = half(b)
        for kind in ("D", "I", "F") if b == (-2, 0, -1, 1) else ("D",):
            def f(v, dx, b=b, n=n, kind=kind):
                im = {"D": jg.ImageD, "F": jg.ImageF, "I": jg.ImageI}[kind](v, xmin=b[0], ymin=b[2], scale=dx)
                k = im.calculate_fft()
                vals = {(x, y): v[y - b[2], x - b[0]] * 1.0 for y in range(b[2], b[3] + 1) for x in range(b[0], b[1] + 1)}
                return {"k": (k.array, dft(vals, n) * dx * dx), "b": (bnd(k.bounds), jnp.array([0, n, -n, n - 1])),
                        "dk": (jnp.asarray(k.scale) * n * dx, np.pi), "dt": jnp.asarray(k.iscomplex), "same": (im.array * 1.0, v * 1.0),
                        "sb": (bnd(im.bounds), jnp.array(b))}

            mk = I("v", -9, 9, shape=sh) if kind == "I" else F("v", -9, 9, shape=sh)
            obs.append(Ob("fft-%s-%s" % (kind, b), f, [mk, F("dx", 0.05, 5)], validate=2, rtol=1e-5 if kind == "F" else 1e-6,
                          atol=1e-4 if kind == "F" else 1e-7))

        def rt(v, dx, b=b, n=n):
            im = jg.Image(v, xmin=b[0], ymin=b[2], scale=dx)
            r = im.calculate_fft().calculate_inverse_fft()
            want = jnp.zeros((2 * n, 2 * n)).at[b[2] + n:b[3] + n + 1, b[0] + n:b[1] + n + 1].set(v)
            return {"r": (r.array, want), "b": (bnd(r.bounds), jnp.array([-n, n - 1, -n, n - 1])), "dx": (jnp.asarray(r.scale), dx)}

        obs.append(Ob("roundtrip-%s" % (b,), rt, [F("v", -9, 9, shape=sh), F("dx", 0.05, 5)], validate=2))

    INV = [(0, 1, -1, 0), (0, 2, -2, 1), (0, 1, -1, 1), (0, 2, -1, 1), (-1, 1, -1, 1), (0, 1, -2, 2), (-2, 0, -1, 0), (0, 0, -1, 1), (-1, 2, -1, 2), (0, 1, -1, 3), (0, 3, -1, 1), (0, 1, -3, 0)]
    if tier == "thorough":
        INV += [(0, 3, -3, 2), (0, 3, -3, 3), (-3, 3, -1, 1), (0, 3, 0, 1), (0, 4, -4, 3)]
    for b in INV:
        sh = (b[3] - b[2] + 1, b[1] - b[0] + 1)
        n = max(b[1], -b[2], b[3])

        def g(z, dk, b=b, n=n):
            im = jg.Image(z, xmin=b[0], ymin=b[2], scale=dk)
            r = im.calculate_inverse_fft()
            G = {}
            native = b == (0, n, -n, n - 1)
            for u in range(-n, n + 1):
                for v in range(-n, n + 1):
                    uu, vv = (u, v) if u >= 0 else (-u, -v)
                    if uu > b[1] or vv < b[2] or vv > b[3]:
                        continue
                    if native and (u == -n or v == n):
                        continue
                    val = z[vv - b[2], uu - b[0]]
                    if u < 0:
                        val = jnp.conj(val)
                    G[(u % (2 * n), v % (2 * n))] = G.get((u % (2 * n), v % (2 * n)), 0) + val
            if native:
                # the half plane is complete: every frequency but 0 and the Nyquist column appears with its mirror
                for u in range(1, n):
                    for v in range(-n, n):
                        G[((-u) % (2 * n), (-v) % (2 * n))] = jnp.conj(z[v + n, u])
            rows = []
            for y in range(-n, n):
                row = []
                for x in range(-n, n):
                    s = 0.0
                    for (u, v), c in G.items():
                        ph = np.pi * ((u * x + v * y) % (2 * n)) / n
                        s = s + c.real * np.cos(ph) - c.imag * np.sin(ph)
                    row.append(s)
                rows.append(row)
            return {"f": (r.array, jnp.array(rows) * (dk / (2 * np.pi)) ** 2), "b": (bnd(r.bounds), jnp.array([-n, n - 1, -n, n - 1])),
                    "dx": (jnp.asarray(r.scale) * n * dk, np.pi), "same": (im.array, z)}

        obs.append(Ob("ifft-%s" % (b,), g, [Cx("z", sh, -9, 9), F("dk", 0.05, 5)], validate=2))

    def refuse(v, z):
        n = 0
        for mk in (lambda: jg.Image(v).calculate_fft(), lambda: jg.Image(z, scale=1.0).calculate_fft(), lambda: jg.Image(z, scale=1.0).calculate_inverse_fft(),
                   lambda: jg.Image(v, wcs=jg.JacobianWCS(1.0, 0.1, 0.0, 1.0)).calculate_fft(), lambda: jg.Image(z, xmin=0, ymin=0).calculate_inverse_fft(),
                   lambda: jg.Image(z, xmin=0, ymin=0, wcs=jg.JacobianWCS(1.0, 0.1, 0.0, 1.0)).calculate_inverse_fft()):
            try:
                mk()
            except (jg.GalSimError, jg.GalSimNotImplementedError, jg.GalSimBoundsError):
                n += 1
        return {"n": jnp.asarray(n == 6)}

    obs.append(Ob("refusals", refuse, [F("v", -9, 9, shape=(2, 2)), Cx("z", (2, 2), -9, 9)]))
    return obs
