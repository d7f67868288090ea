from unittest import mock

from vlib.common import *

FUNCTIONS = ["BaseNoise, GaussianNoise, PoissonNoise, CCDNoise, DeviateNoise, VariableGaussianNoise: _applyTo, getVariance, withVariance, withScaledVariance, *, /, copy, rng, pytree", "Image.addNoise, Image.addNoiseSNR"]
ASSUMPTIONS = [
    "the generator key is free and normal/Poisson variates are uninterpreted functions of the (split) key and their parameter: independence of two draws is decided as the draws coming from distinct successive keys of the generator, and the advertised variance as the factor multiplying a unit normal, or the mean of a Poisson draw",
    "images of 1x2 to 2x2 pixels, float64 and int32, free pixel values in [-1e4, 1e4]; variances, sky levels, gains and read noises free and non-negative; Poisson means both sides of the normal-approximation threshold",
    "integer images: noise is truncated to the image type exactly as the reference does (Gaussian/deviate noise truncated before the addition; Poisson/CCD truncated with the integer part of the sky still in)",
]

K = [Key("key")]


def arr(v):
    return jnp.asarray(v, dtype=float)


def split(key):
    a, b = jax.random.split(key)
    return a, b


def kd(key):
    return jax.random.key_data(key)


def keq(a, b):
    return jnp.all(kd(a) == kd(b))


def normals(key, n):
    r = []
    for _ in range(n):
        key, s = split(key)
        r.append(jax.random.normal(s, dtype=float))
    return key, jnp.stack(r)


def poissons(key, mean):
    r = []
    for i in range(mean.shape[0]):
        key, s = split(key)
        m = mean[i]
        r.append(jnp.where(m < 2**17, jax.random.poisson(s, m, dtype=int).astype(float), jax.random.normal(s, dtype=float) * jnp.sqrt(m) + m))
    return key, jnp.stack(r)


def advance(key, n):
    for _ in range(n):
        key, _ = split(key)
    return key


def raises(exc, f, *a):
    try:
        f(*a)
    except exc:
        return jnp.asarray(True)
    return jnp.asarray(False)


def image(v, integer=False, x0=1, y0=1):
    return jg.Image(v.astype(jnp.int32) if integer else v, xmin=x0, ymin=y0)


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    def PIX(integer, shape=(2, 2), name="v", lo=-1e4, hi=1e4):
        return [I(name, int(lo), int(hi), shape=shape) if integer else F(name, lo, hi, shape=shape)]

    def out_im(im, want, out, tag, integer=False):
        a = im.array
        out[tag + "dtype"] = jnp.asarray(a.dtype == (jnp.int32 if integer else jnp.float64)) & jnp.asarray(im.dtype == (jnp.int32 if integer else jnp.float64))
        if integer:
            out[tag] = jnp.all(a.astype(int) == want.reshape(a.shape).astype(int))
        else:
            out[tag] = (arr(a), want.reshape(a.shape))

    # ---- Gaussian
    def gauss(integer, **kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        noise = jg.GaussianNoise(r, sigma=kw["sg"])
        im = image(kw["v"], integer, -3, 7)
        n = kw["v"].size
        v = kw["v"].ravel()
        k, z1 = normals(kw["key"], n)
        d1 = kw["sg"] * z1
        w1 = v + (jnp.trunc(d1) if integer else d1)
        noise.applyTo(im)
        out_im(im, w1, out, "first", integer)
        out["bounds"] = jnp.asarray(im.bounds.xmin == -3) & jnp.asarray(im.bounds.ymin == 7)
        out["key1"] = keq(r._key, k)
        im2 = image(kw["v"], integer)
        im2.addNoise(noise)
        k, z2 = normals(k, n)
        d2 = kw["sg"] * z2
        out_im(im2, v + (jnp.trunc(d2) if integer else d2), out, "second", integer)
        out["key2"] = keq(noise.rng._key, k) & keq(r._key, k)
        return out

    ob("gaussian-float", functools.partial(gauss, False), K + [F("sg", 0, 50)] + PIX(False), validate=1)
    ob("gaussian-int", functools.partial(gauss, True), K + [F("sg", 0, 50)] + PIX(True, (1, 2)))

    def gaussvar(**kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        n0 = jg.GaussianNoise(r, sigma=kw["sg"])
        out["sigma"] = (arr(n0.sigma), kw["sg"])
        out["var"] = (arr(n0.getVariance()), kw["sg"] ** 2)
        forms = {"with": (n0.withVariance(kw["var"]), kw["var"]), "scaled": (n0.withScaledVariance(kw["ratio"]), kw["sg"] ** 2 * kw["ratio"]),
                 "mul": (n0 * kw["ratio"], kw["sg"] ** 2 * kw["ratio"]), "rmul": (kw["ratio"] * n0, kw["sg"] ** 2 * kw["ratio"]),
                 "div": (n0 / kw["ratio"], kw["sg"] ** 2 / kw["ratio"]), "copy": (n0.copy(), kw["sg"] ** 2), "chain": ((n0 * kw["ratio"]).withVariance(kw["var"]) / kw["ratio"], kw["var"] / kw["ratio"])}
        k = kw["key"]
        for nm, (x, v) in forms.items():
            out[nm + "-var"] = (arr(x.getVariance()), v)
            out[nm + "-type"] = jnp.asarray(type(x) is jg.GaussianNoise)
            im = image(kw["v"])
            x.applyTo(im)
            k, z = normals(k, 2)
            d = arr(im.array - kw["v"]).ravel()
            out[nm + "-applied"] = (d**2, v * z**2)
            out[nm + "-sign"] = jnp.all(d * z >= 0)
            out[nm + "-linked"] = keq(r._key, k)
        out["orig"] = (arr(n0.getVariance()), kw["sg"] ** 2)
        return out

    ob("gaussian-variance", gaussvar, K + [F("sg", 0.1, 50), F("var", 0, 100), F("ratio", 0.1, 10)] + PIX(False, (1, 2)))

    # ---- Poisson
    def pois_want(v, sky, integer):
        """image after Poisson noise, given the draws of successive keys"""
        def f(key):
            k, d = poissons(key, jnp.maximum(v + sky, 0.0))
            if integer:
                isky = jnp.trunc(sky)
                return k, jnp.trunc(d - (sky - isky)) - isky
            return k, d - sky
        return f

    def pois(integer, sky=None, **kw):
        out = {}
        sky = kw["sky"] if sky is None else sky
        r = jg.BaseDeviate(kw["key"])
        noise = jg.PoissonNoise(r, sky_level=sky)
        im = image(kw["v"], integer)
        v = kw["v"].ravel().astype(float)
        k = kw["key"]
        noise.applyTo(im)
        k, w = pois_want(v, jnp.asarray(sky, float), integer)(k)
        out_im(im, w, out, "first", integer)
        out["key1"] = keq(r._key, k)
        im2 = image(kw["v"], integer)
        im2.addNoise(noise)
        k, w = pois_want(v, jnp.asarray(sky, float), integer)(k)
        out_im(im2, w, out, "second", integer)
        out["key2"] = keq(noise.rng._key, k) & keq(r._key, k)
        out["sky"] = (arr(noise.sky_level), arr(sky))
        out["var"] = (arr(noise.getVariance()), arr(sky))
        return out

    ob("poisson-float", functools.partial(pois, False), K + [F("sky", 0, 1e3)] + PIX(False, (1, 2)))
    ob("poisson-nosky", functools.partial(pois, False, 0.0), K + PIX(False, (1, 2)))
    ob("poisson-bright", functools.partial(pois, False), K + [F("sky", 0, 1e6)] + PIX(False, (1, 2), lo=-1e3, hi=1e7))
    ob("poisson-int-fracsky", functools.partial(pois, True, 20.625), K + PIX(True, (1, 2)))
    ob("poisson-int-intsky", functools.partial(pois, True, 40.0), K + PIX(True, (1, 2)))
    ob("poisson-int-nosky", functools.partial(pois, True, 0.0), K + PIX(True, (1, 2)))
    ob("poisson-int", functools.partial(pois, True), K + [F("sky", 0, 1e3)] + PIX(True, (1, 1)), thorough=True)

    def poisvar(**kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        n0 = jg.PoissonNoise(r, sky_level=kw["sky"])
        forms = {"with": (n0.withVariance(kw["var"]), kw["var"]), "scaled": (n0.withScaledVariance(kw["ratio"]), kw["sky"] * kw["ratio"]),
                 "mul": (n0 * kw["ratio"], kw["sky"] * kw["ratio"]), "rmul": (kw["ratio"] * n0, kw["sky"] * kw["ratio"]),
                 "div": (n0 / kw["ratio"], kw["sky"] / kw["ratio"]), "copy": (n0.copy(), kw["sky"])}
        k = kw["key"]
        for nm, (x, v) in forms.items():
            out[nm + "-var"] = (arr(x.getVariance()), v)
            out[nm + "-type"] = jnp.asarray(type(x) is jg.PoissonNoise)
        for nm in ("with", "mul", "copy"):
            x, v = forms[nm]
            # on an empty image the noise is a Poisson draw of mean equal to the variance, about zero
            im = image(jnp.zeros((1, 1)))
            x.applyTo(im)
            k, d = poissons(k, jnp.stack([v]))
            out[nm + "-applied"] = (arr(im.array).ravel(), d - v)
            out[nm + "-linked"] = keq(r._key, k)
        return out

    ob("poisson-variance", poisvar, K + [F("sky", 0.1, 1e3), F("var", 0, 1e3), F("ratio", 0.1, 10)])

    # ---- CCD
    def ccd_want(v, sky, gain, rn, integer):
        def f(key):
            n = v.shape[0]
            if gain is not None:
                key, d = poissons(key, jnp.maximum((v + sky) * gain, 0.0))
                d = d / gain
            else:
                d = v + sky
            if rn is not None:
                key, z = normals(key, n)
                d = d + z * (rn / gain if gain is not None else rn)
            if integer:
                isky = jnp.trunc(sky)
                return key, jnp.trunc(d - (sky - isky)) - isky
            return key, d - sky
        return f

    def ccd(integer, hasg, hasr, fsky, **kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        sky = jnp.asarray(kw["sky"] if fsky is None else fsky, float)
        g = kw["gain"] if hasg else None
        s = kw["rn"] if hasr else None
        noise = jg.CCDNoise(r, sky_level=sky, gain=g if hasg else 0.0, read_noise=s if hasr else 0.0)
        im = image(kw["v"], integer)
        v = kw["v"].ravel().astype(float)
        k = kw["key"]
        noise.applyTo(im)
        want = ccd_want(v, sky, g, s, integer)
        k, w = want(k)
        out_im(im, w, out, "first", integer)
        out["key1"] = keq(r._key, k)
        im2 = image(kw["v"], integer)
        im2.addNoise(noise)
        k, w = want(k)
        out_im(im2, w, out, "second", integer)
        out["key2"] = keq(noise.rng._key, k) & keq(r._key, k)
        out["sky"] = (arr(noise.sky_level), sky)
        out["gain"] = (arr(noise.gain), arr(g if hasg else 0.0))
        out["rn"] = (arr(noise.read_noise), arr(s if hasr else 0.0))
        out["var"] = (arr(noise.getVariance()), sky / g + (s / g if hasr else 0.0) ** 2 if hasg else (arr(s) if hasr else arr(0.0)) ** 2)
        return out

    G, R, S = F("gain", 0.1, 10), F("rn", 0.1, 30), F("sky", 0, 1e3)
    ob("ccd-float", functools.partial(ccd, False, True, True, None), K + [G, R, S] + PIX(False, (1, 2)))
    ob("ccd-noread", functools.partial(ccd, False, True, False, None), K + [G, S] + PIX(False, (1, 2)))
    ob("ccd-nogain", functools.partial(ccd, False, False, True, None), K + [R, S] + PIX(False, (1, 2)))
    ob("ccd-nothing", functools.partial(ccd, False, False, False, None), K + [S] + PIX(False, (1, 2)))
    ob("ccd-nosky", functools.partial(ccd, False, True, True, 0.0), K + [G, R] + PIX(False, (1, 2)))
    ob("ccd-int-fracsky", functools.partial(ccd, True, True, True, 20.625), K + [G, R] + PIX(True, (1, 1)))
    ob("ccd-int-intsky", functools.partial(ccd, True, True, True, 40.0), K + [G, R] + PIX(True, (1, 1)))

    def ccdvar(hasg, drawn=1, **kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        g = kw["gain"] if hasg else 0.0
        n0 = jg.CCDNoise(r, sky_level=kw["sky"], gain=g, read_noise=kw["rn"])
        v0 = kw["sky"] / g + (kw["rn"] / g) ** 2 if hasg else kw["rn"] ** 2
        q = kw["ratio"]
        forms = {"with": (n0.withVariance(kw["var"]), kw["var"], kw["var"] / v0), "scaled": (n0.withScaledVariance(q), v0 * q, q),
                 "mul": (n0 * q, v0 * q, q), "rmul": (q * n0, v0 * q, q), "div": (n0 / q, v0 / q, 1 / q), "copy": (n0.copy(), v0, 1.0)}
        out["var"] = (arr(n0.getVariance()), v0)
        k = kw["key"]
        for nm, (x, v, f) in forms.items():
            out[nm + "-var"] = (arr(x.getVariance()), v)
            out[nm + "-type"] = jnp.asarray(type(x) is jg.CCDNoise)
            out[nm + "-sky"] = (arr(x.sky_level), kw["sky"] * f)
            out[nm + "-rn2"] = (arr(x.read_noise) ** 2, kw["rn"] ** 2 * f)
            out[nm + "-gain"] = (arr(x.gain), arr(g))
        for nm in ("with", "mul", "copy"):
            x, v, f = forms[nm]
            im = image(jnp.zeros((1, 1)))
            x.applyTo(im)
            k = advance(k, (1 if hasg else 0) + drawn)
            out[nm + "-linked"] = keq(r._key, k) & keq(n0.rng._key, k) & keq(x.rng._key, k)
        return out

    ob("ccd-variance", functools.partial(ccdvar, True), K + [G, R, F("sky", 0.1, 1e3), F("var", 0.1, 1e3), F("ratio", 0.1, 10)])
    ob("ccd-variance-nogain", functools.partial(ccdvar, False), K + [R, F("sky", 0.1, 1e3), F("var", 0.1, 1e3), F("ratio", 0.1, 10)])

    def ccdpart(on, **kw):
        return ccdvar(True, 0 if on else 1, **dict(kw, **({"rn": jnp.asarray(0.0)} if on else {"sky": jnp.asarray(0.0)})))

    ob("ccd-variance-nosky", functools.partial(ccdpart, False), K + [G, R, F("var", 0.1, 1e3), F("ratio", 0.1, 10)])
    ob("ccd-variance-noread", functools.partial(ccdpart, True), K + [G, F("sky", 0.1, 1e3), F("var", 0.1, 1e3), F("ratio", 0.1, 10)])

    def ccdzero(**kw):
        """a noiseless model asked for a variance becomes pure sky noise"""
        r = jg.BaseDeviate(kw["key"])
        n0 = jg.CCDNoise(r, sky_level=0.0, gain=kw["gain"], read_noise=0.0)
        x = n0.withVariance(kw["var"])
        im = image(jnp.zeros((1, 1)))
        x.applyTo(im)
        k, d = poissons(kw["key"], jnp.stack([kw["var"]]))
        return {"v0": (arr(n0.getVariance()), arr(0.0)), "var": (arr(x.getVariance()), kw["var"]), "applied": (arr(im.array).ravel(), d - kw["var"]), "linked": keq(r._key, k)}

    ob("ccd-variance-zero", ccdzero, K + [G, F("var", 0.1, 1e3)])

    # ---- DeviateNoise and VariableGaussianNoise
    def devn(mk, integer, **kw):
        out = {}
        d, e = mk(jg.BaseDeviate(kw["key"]), kw), mk(jg.BaseDeviate(kw["key"]), kw)
        noise = jg.DeviateNoise(d)
        for i in range(2):
            im = image(kw["v"], integer)
            im.addNoise(noise)
            w = jnp.stack([arr(e()) for _ in range(kw["v"].size)]).reshape(kw["v"].shape)
            out_im(im, kw["v"] + (jnp.trunc(w) if integer else w), out, "im%d" % i, integer)
            out["key%d" % i] = keq(d._key, e._key) & keq(noise.rng._key, e._key)
        for nm, f in {"get": noise.getVariance, "with": lambda: noise.withVariance(3.0), "scaled": lambda: noise.withScaledVariance(3.0), "mul": lambda: noise * 2.0, "div": lambda: noise / 2.0}.items():
            out[nm] = raises(jg.GalSimError, f)
        return out

    DEV = {"uniform": ([], lambda r, kw: jg.UniformDeviate(r)), "gaussian": ([F("mu", -3, 3), F("sg", 0, 4)], lambda r, kw: jg.GaussianDeviate(r, mean=kw["mu"], sigma=kw["sg"])),
           "poisson": ([F("m", 0, 100)], lambda r, kw: jg.PoissonDeviate(r, mean=kw["m"])), "weibull": ([F("a", 0.3, 4), F("b", 0.3, 4)], lambda r, kw: jg.WeibullDeviate(r, a=kw["a"], b=kw["b"])),
           "gamma": ([F("k", 0.3, 4), F("th", 0.3, 4)], lambda r, kw: jg.GammaDeviate(r, k=kw["k"], theta=kw["th"])), "chi2": ([F("dof", 0.5, 8)], lambda r, kw: jg.Chi2Deviate(r, n=kw["dof"]))}
    for nm, (ins, mk) in DEV.items():
        ob("deviate-%s" % nm, functools.partial(devn, mk, False), K + ins + PIX(False, (1, 2)), thorough=nm in ("weibull", "chi2"))
    ob("deviate-int", functools.partial(devn, DEV["gaussian"][1], True), K + DEV["gaussian"][0] + PIX(True, (1, 2)))

    def devcopy(**kw):
        """a copy follows the given generator, keeps the kind and parameters of the deviate, and is independent of the original"""
        d = jg.GaussianDeviate(jg.BaseDeviate(kw["key"]), mean=kw["mu"], sigma=kw["sg"])
        noise = jg.DeviateNoise(d)
        r2 = jg.BaseDeviate(kw["key2"])
        c = noise.copy(r2)
        im = image(kw["v"])
        c.applyTo(im)
        k, z = normals(kw["key2"], 2)
        out = {"v": (arr(im.array).ravel(), kw["v"].ravel() + kw["mu"] + kw["sg"] * z), "linked": keq(r2._key, k), "orig": keq(d._key, kw["key"])}
        s = noise.copy()
        im = image(kw["v"])
        s.applyTo(im)
        k, z = normals(kw["key"], 2)
        out["share"] = keq(d._key, k)
        out["v2"] = (arr(im.array).ravel(), kw["v"].ravel() + kw["mu"] + kw["sg"] * z)
        return out

    K2 = K + [Key("key2")]
    ob("deviate-copy", devcopy, K2 + DEV["gaussian"][0] + PIX(False, (1, 2)))

    def varg(integer, vdt, **kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        vi = jg.Image(kw["w"].astype(jnp.int32) if vdt else kw["w"], xmin=5)
        noise = jg.VariableGaussianNoise(r, vi)
        k = kw["key"]
        v = kw["v"].ravel()
        for i in range(2):
            im = image(kw["v"], integer)
            im.addNoise(noise)
            k, z = normals(k, v.size)
            d = jnp.sqrt(kw["w"].ravel().astype(float)) * z
            out_im(im, v + (jnp.trunc(d) if integer else d), out, "im%d" % i, integer)
            out["key%d" % i] = keq(r._key, k)
        out["var"] = (arr(noise.var_image.array), kw["w"].astype(float))
        out["vardt"] = jnp.asarray(noise.var_image.array.dtype == jnp.float64)
        for nm, f in {"get": noise.getVariance, "with": lambda: noise.withVariance(3.0), "scaled": lambda: noise.withScaledVariance(3.0), "mul": lambda: noise * 2.0}.items():
            out[nm] = raises(jg.GalSimError, f)
        out["shape"] = raises(jg.GalSimIncompatibleValuesError, noise.applyTo, image(jnp.zeros((3, 2))))
        out["type"] = raises(TypeError, noise.applyTo, jnp.zeros((1, 2)))
        c = noise.copy(jg.BaseDeviate(kw["key2"]))
        im = image(kw["v"].astype(float))
        c.applyTo(im)
        _, z = normals(kw["key2"], v.size)
        out["copy"] = (arr(im.array).ravel(), v + jnp.sqrt(kw["w"].ravel().astype(float)) * z)
        out["copy-indep"] = keq(r._key, k)
        return out

    ob("variable-float", functools.partial(varg, False, False), K2 + PIX(False, (1, 2)) + [F("w", 0, 100, shape=(1, 2))])
    ob("variable-int", functools.partial(varg, True, False), K2 + PIX(True, (1, 2)) + [F("w", 0, 100, shape=(1, 2))])
    ob("variable-intvar", functools.partial(varg, False, True), K2 + PIX(False, (1, 2)) + [I("w", 0, 100, shape=(1, 2))])

    # ---- addNoiseSNR
    def snr(kind, preserve, **kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        var, v = kw["sg"] ** 2, kw["v"]
        noise = jg.GaussianNoise(r, sigma=kw["sg"]) if kind == "g" else jg.PoissonNoise(r, sky_level=var) if kind == "p" else jg.CCDNoise(r, sky_level=var / 2, gain=1.0, read_noise=0.0)
        v0 = var if kind != "c" else var / 2
        S2 = jnp.sum(v * v)
        im = image(v)
        seen = {}
        real = jg.Image.addNoise

        def spy(self, nz):
            seen["im"], seen["noise"] = self.array, nz
            return real(self, nz)

        with mock.patch.object(jg.Image, "addNoise", spy):
            ret = im.addNoiseSNR(noise, kw["snr"], preserve_flux=preserve)
        k = kw["key"]
        before, used = arr(seen["im"]), arr(seen["noise"].getVariance())
        out["ret"] = (arr(ret), used)
        # signal-to-noise of the noiseless image against the noise that was added
        out["snr"] = (jnp.sum(before**2), kw["snr"] ** 2 * used)
        if preserve:
            out["flux"] = (before, v)
        else:
            out["var"] = (used, v0)
            out["shape"] = (before[0, 0] * v[0, 1], before[0, 1] * v[0, 0])
            out["sign"] = jnp.all(before * v >= 0)
        if kind == "g":
            k, z = normals(k, 2)
            d = arr(im.array).ravel() - before.ravel()
            out["applied"] = (d**2, used * z**2)
            out["sgn"] = jnp.all(d * z >= 0)
        else:
            k = advance(k, 2)
        out["key"] = keq(r._key, k)
        out["orig"] = (arr(noise.getVariance()), v0)
        return out

    for kind in "gpc":
        for preserve in (True, False):
            ob("snr-%s-%s" % (kind, "preserve" if preserve else "scale"), functools.partial(snr, kind, preserve), K + [F("sg", 0.1, 10), F("snr", 0.5, 100)] + PIX(False, (1, 2), lo=0.1, hi=1e3))

    # ---- sharing and copying
    MODELS = {
        "gaussian": (lambda r, kw: jg.GaussianNoise(r, sigma=kw["a"]), 2),
        "poisson": (lambda r, kw: jg.PoissonNoise(r, sky_level=kw["a"]), 2),
        "ccd": (lambda r, kw: jg.CCDNoise(r, sky_level=kw["a"], gain=kw["b"], read_noise=kw["a"]), 4),
        "deviate": (lambda r, kw: jg.DeviateNoise(jg.GaussianDeviate(r, sigma=kw["a"])), 2),
        "variable": (lambda r, kw: jg.VariableGaussianNoise(r, jg.Image(jnp.stack([kw["a"], kw["b"]])[None])), 2),
    }
    P = [F("a", 0.1, 10), F("b", 0.1, 10)]

    def share(mk, cnt, **kw):
        out = {}
        v = kw["v"]

        def app(n):
            im = image(v)
            n.applyTo(im)
            return arr(im.array)

        r = jg.BaseDeviate(kw["key"])
        n0 = mk(r, kw)
        a1, a2 = app(n0), app(n0)
        out["count"] = keq(r._key, advance(kw["key"], 2 * cnt))
        # the same model started where the first application left off
        b = mk(jg.BaseDeviate(advance(kw["key"], cnt)), kw)
        out["second"] = (a2, app(b))
        # copy() continues the same stream; copy(rng) follows the other generator and leaves this one alone
        r = jg.BaseDeviate(kw["key"])
        n0 = mk(r, kw)
        c = n0.copy()
        out["copy1"] = (app(c), a1)
        out["copy2"] = (app(n0), a2)
        out["copykey"] = keq(r._key, advance(kw["key"], 2 * cnt)) & keq(c.rng._key, n0.rng._key)
        r, r2 = jg.BaseDeviate(kw["key"]), jg.BaseDeviate(kw["key2"])
        n0 = mk(r, kw)
        c = n0.copy(rng=r2)
        x = app(c)
        out["other"] = (x, app(mk(jg.BaseDeviate(kw["key2"]), kw)))
        out["otherkeys"] = keq(r2._key, advance(kw["key2"], cnt)) & keq(r._key, kw["key"])
        # a model driven through a parent generator that was used for something else in between
        r = jg.BaseDeviate(kw["key"])
        n0 = mk(r, kw)
        jg.UniformDeviate(r)()
        out["between"] = (app(n0), app(mk(jg.BaseDeviate(advance(kw["key"], 1)), kw)))
        # inside a jitted function with the noise rebuilt from its leaves
        n0 = mk(jg.BaseDeviate(kw["key"]), kw)

        def f(n, arr_):
            im = image(arr_)
            n.applyTo(im)
            return im, n

        im, nn = jax.jit(f)(n0, v)
        out["jit"] = (arr(im.array), a1)
        im2, nn = jax.jit(f)(nn, v)
        out["jit2"] = (arr(im2.array), a2)
        out["jitkey"] = keq(nn.rng._key, advance(kw["key"], 2 * cnt))
        return out

    for nm, (mk, cnt) in MODELS.items():
        ob("share-%s" % nm, functools.partial(share, mk, cnt), K2 + P + PIX(False, (1, 2)))

    def hist(n, **kw):
        """any sequence of noise applications through one generator uses each key once"""
        key, cnt = kw["key"], jnp.asarray(0)
        for i in range(n):
            def br(mk, c):
                def f(key):
                    r = jg.BaseDeviate(key)
                    im = image(kw["v"])
                    mk(r, kw).applyTo(im)
                    return r._key, arr(im.array)
                return f

            key, im = jax.lax.switch(kw["ops"][i], [br(*m) for m in MODELS.values()], key)
            cnt = cnt + jnp.asarray([c for _, c in MODELS.values()])[kw["ops"][i]]
        b = jg.BaseDeviate(kw["key"])
        b.discard(cnt)
        return keq(b._key, key)

    ob("history2", functools.partial(hist, 2), K + [I("ops", 0, 4, shape=(2,))] + P + PIX(False, (1, 2)), thorough=True)

    # ---- argument checks
    def args(**kw):
        out = {}
        r = jg.BaseDeviate(kw["key"])
        for nm, n in {"g": jg.GaussianNoise(r), "p": jg.PoissonNoise(r), "c": jg.CCDNoise(r), "d": jg.DeviateNoise(jg.UniformDeviate(r))}.items():
            out[nm] = raises(TypeError, n.applyTo, kw["v"])
        out["rng"] = raises(TypeError, jg.CCDNoise, 1234)
        base = jg.noise.BaseNoise(r)
        out["b1"] = raises(NotImplementedError, base.getVariance)
        out["b2"] = raises(NotImplementedError, base.withVariance, 1.0)
        out["b3"] = raises(NotImplementedError, base.withScaledVariance, 1.0)
        out["b4"] = raises(NotImplementedError, base.applyTo, image(kw["v"]))
        out["defaults"] = (jnp.stack([arr(jg.GaussianNoise(r).getVariance()), arr(jg.PoissonNoise(r).getVariance()), arr(jg.CCDNoise(r).getVariance())]), jnp.asarray([1.0, 0.0, 0.0]))
        out["key"] = keq(r._key, kw["key"])
        return out

    ob("arguments", args, K + PIX(False, (1, 2)))
    return obs
