from jax_galsim import photon_array as pam
from jax_galsim.core.draw import calculate_mean_n_photons, calculate_n_photons
from vlib.common import *

FUNCTIONS = ["calculate_n_photons, calculate_mean_n_photons, _sample_zero, _sample_nonzero, _sample_poisson_flux, _adjust_flux_g_poisson, _scale_extra_noise, _calculate_n_photons_flux_nonzero",
             "GSObject._calculate_nphotons, makePhot, drawPhot, _draw_phot_while_loop, _draw_phot_while_loop_shoot, shoot, drawImage(method='phot')", "Transformation._shoot, PhotonArray._num_keep/scaleFlux/addTo, Sensor.accumulate"]
ASSUMPTIONS = [
    "the profile is a stand-in that shoots photons of equal flux (its own flux divided by the count) at positions that are a fixed function of fresh uniform deviates, so what is decided is the bookkeeping for any profile",
    "uniform and Poisson draws are uninterpreted functions of the generator key (deviates in [0,1), counts non-negative integers); Poisson means below 2**17",
    "up to 6 photons, chunks of 1 to 4 photons, images of 1x2 pixels; photons exactly on a pixel edge excluded where images are compared",
    "free: flux of either sign, fraction of negative photons, peak surface brightness, extra noise, gain, area, exposure time, pixel scale, key",
]


def arr(v):
    return jnp.asarray(v, dtype=float)


@jax.tree_util.register_pytree_node_class
class Src(jg.GSObject):
    """stand-in profile: equal photons, positions a function of the deviates only"""

    def __init__(self, flux=1.0, eta=1.0, msb=1.0, gsparams=None):
        super().__init__(flux=flux, eta=eta, msb=msb, gsparams=gsparams)

    @property
    def _flux_per_photon(self):
        return self._params["eta"]

    @property
    def _max_sb(self):
        return self._params["msb"]

    _maxk = 10.0
    _stepk = 0.5

    @property
    def _centroid(self):
        return jg.PositionD(0.0, 0.0)

    def _shoot(self, photons, rng):
        u = jg.UniformDeviate(rng).generate(photons.x)
        photons.x = 2.0 * u - 0.5
        photons.y = 0.3
        photons.flux = self.flux / photons.size()


def fresh(key):
    return jg.BaseDeviate(key)


def keyeq(a, b):
    return jnp.all(jax.random.key_data(a._key) == jax.random.key_data(b._key))


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    def pois(kw, flux, rng):
        mean = kw["eta"] * kw["eta"] * jnp.abs(flux)
        n = jg.PoissonDeviate(rng, mean)()
        return (n - mean + jnp.abs(flux)) / jnp.abs(flux), n, mean

    # ---- the count and the correction factor
    def count(sign, poisson, extra, **kw):
        fl = sign * kw["fl"]
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        ex = kw["nu"] if extra else 0.0
        N, g, r = calculate_n_photons(fl, kw["eta"], kw["msb"], n_photons=0.0, rng=rng, max_extra_noise=ex, poisson_flux=poisson)
        raw = jnp.abs(fl) / kw["eta"] ** 2
        gf = 1 + kw["nu"] / jnp.abs(kw["msb"]) if extra else 1.0
        if poisson:
            ratio, n, mean = pois(kw, fl, ref)
        else:
            ratio = 1.0
        want = jnp.abs(raw * ratio) / gf
        out = {"ceil": (N >= want - 1e-9) & (N < want + 1 + 1e-9), "g": (g, ratio * gf), "int": jnp.asarray(jnp.issubdtype(jnp.asarray(N).dtype, jnp.integer))}
        out["rng"] = keyeq(r, ref)
        if poisson:
            # the total flux has the drawn count in place of its mean
            out["tot"] = (g / gf * jnp.abs(fl), n + jnp.abs(fl) - mean)
        N2, g2 = Src(fl, kw["eta"], kw["msb"])._calculate_nphotons(0.0, poisson, ex if extra else None, rng)
        out["mrng"] = keyeq(rng, ref)
        out["meth"] = (arr(N2), arr(N))
        out["methg"] = (g2, g)
        if not poisson and not extra:
            out["mean"] = (arr(calculate_mean_n_photons(fl, kw["eta"], kw["msb"])), arr(N))
        return out

    CI = [F("fl", 0.01, 1e4), F("eta", 0.05, 1), F("msb", 1e-6, 1e3), F("nu", 0.001, 1e3), Key("key")]
    for sg in (1, -1):
        for po in (False, True):
            for ex in (False, True):
                ob("count%+d%s%s" % (sg, "-poisson" if po else "", "-extra" if ex else ""), functools.partial(count, sg, po, ex), CI, validate=1 if sg > 0 else 0)

    def countneg(**kw):
        # a negative peak surface brightness limits the noise like its absolute value
        a = calculate_n_photons(kw["fl"], kw["eta"], -kw["msb"], rng=fresh(kw["key"]), max_extra_noise=kw["nu"], poisson_flux=False)
        b = calculate_n_photons(kw["fl"], kw["eta"], kw["msb"], rng=fresh(kw["key"]), max_extra_noise=kw["nu"], poisson_flux=False)
        c = calculate_n_photons(kw["fl"], kw["eta"], kw["msb"], rng=fresh(kw["key"]), max_extra_noise=0.0, poisson_flux=False)
        d = calculate_n_photons(kw["fl"], kw["eta"], kw["msb"], rng=None, poisson_flux=False)
        return {"n": (arr(a[0]), arr(b[0])), "g": (a[1], b[1]), "fewer": b[0] <= c[0], "one": (arr(c[1]), 1.0), "norng": (arr(d[0]), arr(c[0]))}

    ob("count-signs", countneg, CI)

    def zero(poisson, **kw):
        rng = fresh(kw["key"])
        N, g, r = calculate_n_photons(kw["fl"] * 0.0, kw["eta"], kw["msb"], n_photons=0.0, rng=rng, max_extra_noise=kw["nu"], poisson_flux=poisson)
        return {"n": (arr(N), 0.0), "g": (g, 1.0), "rng": keyeq(r, fresh(kw["key"]))}

    for po in (False, True):
        ob("zero%s" % ("-poisson" if po else ""), functools.partial(zero, po), CI)

    def given(poisson, sign, **kw):
        fl = kw["fl"] * sign
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        N, g, r = calculate_n_photons(fl, kw["eta"], kw["msb"], n_photons=kw["n"], rng=rng, max_extra_noise=kw["nu"], poisson_flux=poisson)
        out = {"n": jnp.abs(N - kw["n"]) <= 0.5}
        out["g"] = (g, pois(kw, fl, ref)[0] if poisson else 1.0)
        out["rng"] = keyeq(r, ref)
        return out

    for po in (False, True):
        for sg in (1, -1):
            ob("given%+d%s" % (sg, "-poisson" if po else ""), functools.partial(given, po, sg), CI + [F("n", 0.6, 1e4)])

    # ---- lists of photons
    def expect(kw, n, rng):
        u = jg.UniformDeviate(rng).generate(jnp.zeros(n))
        return 2 * u - 0.5, u

    def make(n, poisson, op, **kw):
        fl = kw["sg"] * kw["fl"] if "sg" in kw else kw["fl"]
        src = Src(fl, kw["eta"], kw["msb"])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        a = {} if poisson is None else dict(poisson_flux=poisson)
        p = src.makePhot(n_photons=n, rng=rng, **a)
        g = pois(kw, fl, ref)[0] if poisson else 1.0
        x, _ = expect(kw, n, ref)
        return {"n": jnp.asarray(p.size() == n), "x": (p.x, x), "y": (p.y, jnp.full(n, 0.3)), "f": (p.flux, jnp.full(n, 1.0) * fl * g / n), "tot": (p.getTotalFlux(), fl * g), "rng": keyeq(rng, ref)}

    SI = [F("fl", 0.5, 20), F("eta", 0.05, 1), F("msb", 1e-6, 1e3), Key("key")]
    for n, po in ((1, None), (3, False), (3, True), (5, None)):
        ob("make-%d-%s" % (n, po), functools.partial(make, n, po, False), SI, validate=1 if po else 0)

    def makefixed(size, poisson, extra, **kw):
        # the count is worked out from the flux; only that many photons of the fixed-size array are kept
        src = Src(kw["fl"], kw["eta"], kw["msb"])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        with pam.fixed_photon_array_size(size):
            p = src.makePhot(rng=rng, poisson_flux=poisson, max_extra_noise=kw["nu"] if extra else None)
        gf = 1 + kw["nu"] / kw["msb"] if extra else 1.0
        ratio = pois(kw, kw["fl"], ref)[0] if poisson else 1.0
        want = kw["fl"] / kw["eta"] ** 2 * ratio / gf
        k = p._num_keep
        x, _ = expect(kw, size, ref)
        return {"k": (k >= want - 1e-9) & (k < want + 1 + 1e-9), "tot": (p.getTotalFlux(), kw["fl"] * ratio * gf), "f": (p.flux * k, jnp.where(jnp.arange(size) < k, kw["fl"] * ratio * gf, 0.0)), "x": (p.x, x)}

    for size, po, ex in ((4, False, False), (4, False, True)):
        ob("makefixed-%d%s%s" % (size, "-poisson" if po else "", "-extra" if ex else ""), functools.partial(makefixed, size, po, ex), [F("fl", 0.5, 3.2), F("eta", 0.9, 1), F("msb", 0.1, 10), F("nu", 0.01, 10), Key("key")])

    # ---- drawing: spec walks through the photons chunk by chunk
    def spec(kw, Ntot, chunk, rng, each, scale=1.0, x0=0, size=None):
        """pixel sums of Ntot photons shot in chunks"""
        pix = [0.0, 0.0]
        left = Ntot
        edge = True
        while left > 0:
            k = min(left, chunk)
            x, u = expect(kw, size or chunk, rng)
            x = x / scale
            for i in range(k):
                for j in range(2):
                    pix[j] = pix[j] + jnp.where((x[i] > x0 + j - 0.5) & (x[i] < x0 + j + 0.5), each, 0.0)
            left -= k
        return jnp.stack(pix)

    def noedge(n, chunk, scale=1.0, x0=0, size=None, **kw):
        rng = fresh(kw["key"])
        ok = True
        left = n
        while left > 0:
            x, u = expect(kw, size or chunk, rng)
            x = x / scale
            for j in range(3):
                ok = ok & jnp.all(jnp.abs(x - (x0 + j - 0.5)) >= 1e-6)
            left -= chunk
        return ok

    def draw(n, chunk, mode, poisson, add, dtype, **kw):
        fl = kw["fl"]
        src = Src(fl, kw["eta"], kw["msb"])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        im0 = kw["im"]
        im = jg.Image(im0, xmin=0, ymin=0, scale=1.0)
        g = kw["gain"]
        a = dict(n_photons=n, rng=rng, gain=g, add_to_image=add, poisson_flux=poisson)
        if mode == "maxN":
            added, p = src.drawPhot(im, maxN=chunk, **a)
        elif mode == "fixed":
            with pam.fixed_photon_array_size(chunk):
                added, p = src.drawPhot(im, **a)
        elif mode == "both":
            with pam.fixed_photon_array_size(chunk + 3):
                added, p = src.drawPhot(im, maxN=chunk, **a)
        else:
            added, p = src.drawPhot(im, **a)
        ratio = pois(kw, fl, ref)[0] if poisson else 1.0
        each = fl * ratio / g / n
        pix = spec(kw, n, chunk or n, ref, each, size=chunk + 3 if mode == "both" else None)
        base = im0[0] if add else jnp.zeros(2)
        out = {"im": (im.array[0], base + pix), "added": (added, pix[0] + pix[1]), "rng": keyeq(rng, ref)}
        if not chunk or chunk >= n:
            out["kept"] = (arr(p._num_keep), float(n))
            out["total"] = (p.getTotalFlux(), fl * ratio / g)
        return out

    DI = SI + [F("gain", 0.3, 4), F("im", -2, 2, shape=(1, 2))]
    for n, chunk, mode, po, add, th in (
        (2, None, "", None, False, False), (2, None, "", None, True, False), (3, 1, "maxN", False, False, False), (3, 2, "maxN", None, True, False),
        (2, 3, "maxN", None, False, False), (3, 2, "fixed", None, False, False), (3, 2, "both", None, False, False), (4, 4, "maxN", None, True, False), (5, 2, "maxN", None, False, False), (6, 4, "fixed", None, True, False), (8, 3, "maxN", None, True, True)):
        ob("draw-%d-%s%s%s%s" % (n, mode, chunk, "-poisson" if po else "", "-add" if add else ""), functools.partial(draw, n, chunk, mode, po, add, float), DI,
           assume=functools.partial(noedge, n, chunk or n, size=chunk + 3 if mode == "both" else None), thorough=th, validate=1 if th is False and n == 2 else 0)

    def drawp(n, chunk, add, **kw):
        # Poisson variation on: everything lands on the wide image
        src = Src(kw["fl"], kw["eta"], kw["msb"])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        im = jg.Image(kw["im"], xmin=-1, ymin=0, scale=1.0)
        added, p = src.drawPhot(im, n_photons=n, rng=rng, gain=kw["gain"], add_to_image=add, poisson_flux=True, maxN=chunk)
        ratio = pois(kw, kw["fl"], ref)[0]
        left = n
        while left > 0:
            expect(kw, chunk or n, ref)
            left -= chunk or n
        tot = kw["fl"] * ratio / kw["gain"]
        return {"added": (added, tot), "sum": (jnp.sum(im.array), tot + (jnp.sum(kw["im"]) if add else 0.0)), "rng": keyeq(rng, ref)}

    for n, chunk, add in ((2, None, True), (3, 2, False), (3, 2, True)):
        ob("drawpoisson-%d-%s%s" % (n, chunk, "-add" if add else ""), functools.partial(drawp, n, chunk, add), SI + [F("gain", 0.3, 4), F("im", -2, 2, shape=(1, 4))])

    def drawauto(chunk, **kw):
        # count from the flux, in chunks: everything shot lands on the wide image
        src = Src(kw["fl"], kw["eta"], kw["msb"])
        rng = fresh(kw["key"])
        im = jg.Image(jnp.zeros((1, 4)), xmin=-1, ymin=0, scale=1.0)
        added, p = src.drawPhot(im, rng=rng, gain=kw["gain"], poisson_flux=False, maxN=chunk)
        return {"added": (added * kw["gain"], kw["fl"]), "sum": (jnp.sum(im.array) * kw["gain"], kw["fl"])}

    for chunk in (1, 2, 4):
        ob("drawauto-%d" % chunk, functools.partial(drawauto, chunk), [F("fl", 0.3, 2.7), F("eta", 0.97, 1), F("msb", 1e-6, 1e3), Key("key"), F("gain", 0.3, 4)])

    # ---- the full drawing call: area, exposure, gain, pixel scale, centring
    def image(n, scale, save, **kw):
        src = Src(kw["fl"], kw["eta"], kw["msb"])
        rng, ref = fresh(kw["key"]), fresh(kw["key"])
        im = jg.Image(kw["im"], xmin=3, ymin=5, scale=scale)
        r = src.drawImage(im, method="phot", n_photons=n, rng=rng, area=kw["area"], exptime=kw["exp"], gain=kw["gain"], center=jg.PositionD(3.0, 5.0), save_photons=save, add_to_image=True)
        tot = kw["fl"] * kw["area"] * kw["exp"] / kw["gain"]
        pix = spec(kw, n, n, ref, tot / n, scale=scale)
        out = {"im": (r.array[0], kw["im"][0] + pix), "added": (r.added_flux * kw["area"] * kw["exp"], pix[0] + pix[1]), "rng": keyeq(rng, ref)}
        out["b"] = jnp.asarray(r.bounds == jg.BoundsI(3, 4, 5, 5)) if not isinstance(r.bounds.xmin, jax.core.Tracer) else jnp.asarray(True)
        if save:
            x, _ = expect(kw, n, fresh(kw["key"]))
            # saved positions are relative to the image centre (4, 5)
            out["px"] = (r.photons.x, x / scale + 3 - 4)
            out["py"] = (r.photons.y, jnp.full(n, 0.3 / scale))
            out["pt"] = (r.photons.getTotalFlux(), tot)
        return out

    for n, sc, sv in ((2, 1.0, True), (3, 0.8, False), (2, 2.0, True)):
        ob("image-%d-%g" % (n, sc), functools.partial(image, n, sc, sv), SI + [F("gain", 0.3, 4), F("area", 0.3, 4), F("exp", 0.3, 4), F("im", -2, 2, shape=(1, 2))], assume=functools.partial(noedge, n, n, sc))

    def ops(**kw):
        # photon operations are applied in order, each seeing the scaled photons
        src = Src(kw["fl"], kw["eta"], kw["msb"])

        @jax.tree_util.register_pytree_node_class
        class Sh:
            def __init__(self, d):
                self.d = d

            def applyTo(self, photons, local_wcs=None, rng=None):
                photons.x = photons.x * self.d + 1.0

            def tree_flatten(self):
                return (self.d,), None

            @classmethod
            def tree_unflatten(cls, a, c):
                return cls(*c)

        lst = [Sh(kw["d"]), Sh(kw["e"])]
        p = src.makePhot(n_photons=2, rng=fresh(kw["key"]), photon_ops=lst)
        x, _ = expect(kw, 2, fresh(kw["key"]))
        want = (x * kw["d"] + 1) * kw["e"] + 1
        out = {"mk": (p.x, want)}
        for tag, l2 in (("list", list(lst)), ("tuple", tuple(lst))):
            im = jg.Image(jnp.zeros((1, 2)), xmin=0, ymin=0, scale=1.0)
            added, q = src.drawPhot(im, n_photons=2, rng=fresh(kw["key"]), photon_ops=l2)
            out[tag] = (q.x, want)
        return out

    ob("ops", ops, SI + [F("d", 0.3, 2), F("e", 0.3, 2)])
    return obs
