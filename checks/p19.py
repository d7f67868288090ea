from vlib.common import *
from vlib.probe import Probe, kpoly, poly

FUNCTIONS = ["Add, Sum.__init__/_xValue/_kValue/flux/_centroid/_max_sb/_maxk/_stepk/_positive_flux/_negative_flux/_drawReal/_drawKImage/withGSParams/obj_list", "GSObject.__add__/__sub__/withFlux",
             "Convolve, Convolution._kValue/_flux/_centroid/_calc_pn/_max_sb/_maxk/_stepk/_drawKImage/withGSParams", "Deconvolve, Deconvolution._kValue/_drawKImage/_flux/_centroid/_max_sb/_maxk/_stepk", "tree_flatten/tree_unflatten of the three"]
ASSUMPTIONS = [
    "components are probes with free polynomial surface brightness and Fourier transform, and transformed probes; 1-4 components",
    "fluxes within 3 in magnitude and total flux away from zero by 0.05 for centroids",
    "drawn stamps 3x2 with symbolic pixel scale and Jacobian",
]
PT = [F("x", -10, 10), F("y", -10, 10)]


def arr(v):
    return jnp.asarray(v, dtype=float)


def CO(i, lo=-3, hi=3):
    return [F("c%d" % i, -2, 2, shape=(4,)), F("k%d" % i, -2, 2, shape=(3,)), F("f%d" % i, lo, hi), F("u%d" % i, -3, 3, shape=(2,))]


def pr(i, kw, gs=None):
    return Probe(kw["c%d" % i], kw["k%d" % i], kw["f%d" % i], cen=(kw["u%d" % i][0], kw["u%d" % i][1]), gsparams=gs)


def X(i, kw, x=None, y=None):
    return poly(kw["c%d" % i], kw["x"] if x is None else x, kw["y"] if y is None else y)


def K(i, kw, x=None, y=None):
    return kpoly(kw["k%d" % i], kw["f%d" % i], kw["x"] if x is None else x, kw["y"] if y is None else y)


class Band(Probe):
    """probe with its own Fourier limits"""

    @property
    def _maxk(self):
        return self.params["k"][0]

    @property
    def _stepk(self):
        return self.params["k"][1]

    @classmethod
    def tree_unflatten(cls, aux_data, children):
        p = children[0]
        return cls(p["c"], p["k"], flux=p["flux"], cen=p["cen"], **aux_data)


jax.tree_util.register_pytree_node_class(Band)


def obligations(tier):
    obs = []

    def facts(s, idx, kw, sign=None):
        sg = sign or [1.0] * len(idx)
        fl = [g * kw["f%d" % i] for g, i in zip(sg, idx)]
        tot = sum(fl)
        k = jg.PositionD(kw["x"], kw["y"])
        cx = sum(f * kw["u%d" % i][0] for f, i in zip(fl, idx))
        cy = sum(f * kw["u%d" % i][1] for f, i in zip(fl, idx))
        cen = s.centroid
        return {"x": (arr(s.xValue(k)), sum(g * X(i, kw) for g, i in zip(sg, idx))), "k": (s.kValue(k), sum(g * K(i, kw) for g, i in zip(sg, idx))), "k0": (s.kValue(0.0, 0.0), tot + 0j), "flux": (arr(s.flux), tot),
                "cen": (jnp.stack([cen.x * tot, cen.y * tot]), jnp.stack([cx, cy])), "sb": (arr(s.max_sb), sum(g * (kw["c%d" % i][0] + 7 * kw["f%d" % i]) for g, i in zip(sg, idx))),
                "pos": (arr(s.positive_flux), sum(jnp.where(f > 0, f, 0.0) for f in fl)), "neg": (arr(s.negative_flux), sum(jnp.where(f < 0, -f, 0.0) for f in fl))}

    def nz(idx, kw, sign=None):
        sg = sign or [1.0] * len(idx)
        return jnp.abs(sum(g * kw["f%d" % i] for g, i in zip(sg, idx))) >= 0.05

    def sums(name, build, idx, **opt):
        def f(**kw):
            return facts(build(kw), idx, kw)

        obs.append(Ob(name, f, PT + sum([CO(i) for i in idx], []), assume=lambda **kw: nz(idx, kw), validate=2, **opt))

    sums("sum-1", lambda kw: jg.Sum(pr(0, kw)), [0])
    sums("sum-2", lambda kw: jg.Sum(pr(0, kw), pr(1, kw)), [0, 1])
    sums("sum-list-3", lambda kw: jg.Sum([pr(0, kw), pr(1, kw), pr(2, kw)]), [0, 1, 2])
    sums("add-tuple", lambda kw: jg.Add((pr(0, kw), pr(1, kw), pr(2, kw))), [0, 1, 2], thorough=True)
    sums("operator", lambda kw: pr(0, kw) + pr(1, kw) + pr(2, kw), [0, 1, 2])
    sums("nested-left", lambda kw: jg.Sum([jg.Sum([pr(0, kw), pr(1, kw)]), pr(2, kw)]), [0, 1, 2])
    sums("nested-right", lambda kw: pr(0, kw) + (pr(1, kw) + (pr(2, kw) + pr(3, kw))), [0, 1, 2, 3])
    sums("nested-middle", lambda kw: jg.Sum([pr(0, kw), jg.Sum([pr(1, kw), pr(2, kw)]), pr(3, kw)]), [0, 1, 2, 3], thorough=True)
    sums("repeated", lambda kw: (lambda p: jg.Sum([p, p, pr(1, kw)]))(pr(0, kw)), [0, 0, 1])

    def minus(**kw):
        s = pr(0, kw) - pr(1, kw)
        k = jg.PositionD(kw["x"], kw["y"])
        return {"x": (arr(s.xValue(k)), X(0, kw) - X(1, kw)), "k": (s.kValue(k), K(0, kw) - K(1, kw)), "flux": (arr(s.flux), kw["f0"] - kw["f1"])}

    obs.append(Ob("minus", minus, PT + CO(0) + CO(1), validate=2))

    def nested_tr(**kw):
        inner = jg.Sum([pr(0, kw), pr(1, kw)]).shift(kw["s"], 0.5) * kw["w"]
        s = inner + pr(2, kw)
        x, y = kw["x"], kw["y"]
        return {"x": (arr(s.xValue(x, y)), kw["w"] * (X(0, kw, x - kw["s"], y - 0.5) + X(1, kw, x - kw["s"], y - 0.5)) + X(2, kw)), "flux": (arr(s.flux), kw["w"] * (kw["f0"] + kw["f1"]) + kw["f2"]),
                "k": (s.kValue(x, y), kw["w"] * (K(0, kw) + K(1, kw)) * (jnp.cos(kw["s"] * x + 0.5 * y) - 1j * jnp.sin(kw["s"] * x + 0.5 * y)) + K(2, kw))}

    obs.append(Ob("sum-of-transformed-sum", nested_tr, PT + CO(0) + CO(1) + CO(2) + [F("s", -5, 5), F("w", -3, 3)], validate=2))

    def wf(**kw):
        s = (pr(0, kw) + pr(1, kw)).withFlux(kw["w"])
        k = jg.PositionD(kw["x"], kw["y"])
        tot = kw["f0"] + kw["f1"]
        return {"flux": (arr(s.flux), kw["w"]), "x": (arr(s.xValue(k)) * tot, kw["w"] * (X(0, kw) + X(1, kw))), "k": (s.kValue(k) * tot, kw["w"] * (K(0, kw) + K(1, kw)))}

    obs.append(Ob("sum-withFlux", wf, PT + CO(0) + CO(1) + [F("w", -3, 3)], assume=lambda **kw: nz([0, 1], kw), validate=2))

    # Fourier limits
    def band(i, kw):
        return Band(jnp.zeros(4), jnp.stack([kw["m%d" % i], kw["s%d" % i], 0.0]), 1.0)

    BI = sum([[F("m%d" % i, 0.5, 20), F("s%d" % i, 0.01, 0.4)] for i in range(3)], [])

    def lims(**kw):
        ps = [band(i, kw) for i in range(3)]
        m, s = [kw["m%d" % i] for i in range(3)], [kw["s%d" % i] for i in range(3)]
        S, Cv = jg.Sum(ps), jg.Convolve(ps)
        D = jg.Deconvolve(ps[0])
        mx = jnp.maximum(m[0], jnp.maximum(m[1], m[2]))
        mn = jnp.minimum(m[0], jnp.minimum(m[1], m[2]))
        return {"sum-maxk": (arr(S.maxk), mx), "sum-stepk": (arr(S.stepk), jnp.minimum(s[0], jnp.minimum(s[1], s[2]))), "conv-maxk": (arr(Cv.maxk), mn),
                "conv-stepk": (arr(Cv.stepk) ** -2, s[0] ** -2 + s[1] ** -2 + s[2] ** -2), "dec": (jnp.stack([arr(D.maxk), arr(D.stepk)]), jnp.stack([m[0], s[0]]))}

    obs.append(Ob("limits", lims, BI, validate=2))

    # gsparams reach the components
    def gsp(**kw):
        g0, g1 = jg.GSParams(folding_threshold=0.001, maxk_threshold=0.02), jg.GSParams(kvalue_accuracy=1e-7)
        a, b = pr(0, kw, g0), pr(1, kw, g1)
        best = jg.GSParams.combine([g0, g1])
        new = jg.GSParams(minimum_fft_size=64)
        ok = []
        k = jg.PositionD(kw["x"], kw["y"])
        out = {}
        for nm, mk, val in (("sum", jg.Sum, lambda: K(0, kw) + K(1, kw)), ("conv", jg.Convolve, lambda: K(0, kw) * K(1, kw))):
            s = mk([a, b])
            ok += [s.gsparams == best] + [o.gsparams == best for o in s.obj_list]
            s2 = s.withGSParams(new)
            ok += [s2.gsparams == new] + [o.gsparams == new for o in s2.obj_list] + [s.gsparams == best] + [o.gsparams == best for o in s.obj_list]
            s3 = s.withGSParams(folding_threshold=0.25)
            ok += [o.gsparams.folding_threshold == 0.25 and o.gsparams.kvalue_accuracy == 1e-7 for o in s3.obj_list]
            s4 = mk([a, b], propagate_gsparams=False)
            ok += [s4.obj_list[0].gsparams == g0, s4.obj_list[1].gsparams == g1, s4.gsparams == best]
            s5 = mk([a, b], gsparams=new)
            ok += [o.gsparams == new for o in s5.obj_list]
            s6 = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(s2)))
            ok += [s6.gsparams == new] + [o.gsparams == new for o in s6.obj_list]
            for i, q in enumerate((s, s2, s3, s4, s5, s6)):
                out["%s%d" % (nm, i)] = (q.kValue(k), val())
        d = jg.Deconvolve(a)
        d2 = d.withGSParams(new)
        ok += [d.gsparams == g0, d2.gsparams == new, d2.orig_obj.gsparams == new, d.orig_obj.gsparams == g0]
        return dict(out, gs=jnp.asarray(ok))

    obs.append(Ob("gsparams", gsp, PT + CO(0) + CO(1), validate=2))

    # convolution
    def cfacts(c, idx, kw):
        k = jg.PositionD(kw["x"], kw["y"])
        kv, fl, P, N = 1.0, 1.0, 1.0, 0.0
        area = 0.0
        cx = cy = 0.0
        for i in idx:
            kv, fl = kv * K(i, kw), fl * kw["f%d" % i]
            p, n = jnp.where(kw["f%d" % i] > 0, kw["f%d" % i], 0.0), jnp.where(kw["f%d" % i] < 0, -kw["f%d" % i], 0.0)
            P, N = P * p + N * n, P * n + N * p
            cx, cy = cx + kw["u%d" % i][0], cy + kw["u%d" % i][1]
            area = area + kw["f%d" % i] / (kw["c%d" % i][0] + 7 * kw["f%d" % i])
        return {"k": (c.kValue(k), kv), "k0": (c.kValue(0.0, 0.0), fl + 0j), "flux": (arr(c.flux), fl), "cen": (jnp.stack([c.centroid.x, c.centroid.y]), jnp.stack([cx, cy])), "pos": (arr(c.positive_flux), P), "neg": (arr(c.negative_flux), N), "net": (arr(c.positive_flux) - arr(c.negative_flux), fl)}, area

    def conv(name, build, idx, **opt):
        def f(**kw):
            return cfacts(build(kw), idx, kw)[0]

        obs.append(Ob(name, f, PT + sum([CO(i) for i in idx], []), validate=2, **opt))

    conv("conv-1", lambda kw: jg.Convolve(pr(0, kw)), [0])
    conv("conv-2", lambda kw: jg.Convolve(pr(0, kw), pr(1, kw)), [0, 1])
    conv("conv-list-3", lambda kw: jg.Convolve([pr(0, kw), pr(1, kw), pr(2, kw)]), [0, 1, 2])
    conv("conv-class", lambda kw: jg.Convolution((pr(0, kw), pr(1, kw))), [0, 1], thorough=True)
    conv("conv-nested", lambda kw: jg.Convolve(pr(0, kw), jg.Convolve(pr(1, kw), pr(2, kw))), [0, 1, 2])

    def csb(**kw):
        c = jg.Convolve(pr(0, kw), pr(1, kw))
        _, area = cfacts(c, [0, 1], kw)
        return {"sb": (arr(c.max_sb) * area, kw["f0"] * kw["f1"])}

    obs.append(Ob("conv-maxsb", csb, PT + CO(0, 0.5) + CO(1, 0.5), validate=2))

    def distribute(**kw):
        """convolution distributes over sums; transformations of factors combine"""
        c = jg.Convolve(jg.Sum(pr(0, kw), pr(1, kw)), pr(2, kw).shift(kw["s"], 0.5))
        k = jg.PositionD(kw["x"], kw["y"])
        ph = kw["s"] * kw["x"] + 0.5 * kw["y"]
        d = jg.Convolve(pr(0, kw).shift(kw["s"], 0.5), pr(2, kw)) + jg.Convolve(pr(1, kw), pr(2, kw)).shift(kw["s"], 0.5)
        e = (K(0, kw) + K(1, kw)) * K(2, kw) * (jnp.cos(ph) - 1j * jnp.sin(ph))
        return {"k": (c.kValue(k), e), "d": (d.kValue(k), e)}

    obs.append(Ob("distributes", distribute, PT + CO(0) + CO(1) + CO(2) + [F("s", -5, 5)], validate=2))

    def conv_tr(**kw):
        p, q, r, s = [kw[n] for n in "pqrs"]
        c = jg.Convolve(pr(0, kw), pr(1, kw)).transform(p, q, r, s) * kw["w"]
        x, y = p * kw["x"] + r * kw["y"], q * kw["x"] + s * kw["y"]
        d = jnp.abs(p * s - q * r)
        return {"k": (c.kValue(kw["x"], kw["y"]), K(0, kw, x, y) * K(1, kw, x, y) * d * kw["w"]), "flux": (arr(c.flux), kw["f0"] * kw["f1"] * d * kw["w"])}

    obs.append(Ob("conv-transformed", conv_tr, PT + CO(0) + CO(1) + [F(n, -3, 3) for n in "pqrsw"], assume=lambda **kw: jnp.abs(kw["p"] * kw["s"] - kw["q"] * kw["r"]) >= 0.05, validate=2))

    # deconvolution
    def cmul(z):
        return jnp.real(z) ** 2 + jnp.imag(z) ** 2

    thr = 1e-5

    def dec(**kw):
        d = jg.Deconvolve(pr(0, kw))
        k = jg.PositionD(kw["x"], kw["y"])
        return {"k": (d.kValue(k) * K(0, kw), 1.0 + 0j), "flux": (arr(d.flux) * kw["f0"], 1.0), "cen": (jnp.stack([d.centroid.x, d.centroid.y]), -kw["u0"]), "sb": (arr(d.max_sb) * kw["f0"] ** 2, -(kw["c0"][0] + 7 * kw["f0"]))}

    obs.append(Ob("dec", dec, PT + CO(0, 0.5), assume=lambda **kw: cmul(K(0, kw)) >= 0.01, validate=2))

    def dec2(small=False, kk=0.0, **kw):
        # Fourier value real (or purely imaginary offset): the threshold kvalue_accuracy * flux decides
        p = Probe(jnp.zeros(4), jnp.stack([kw["a"], jnp.asarray(kk), jnp.asarray(0.0)]), kw["f0"])
        v = kw["f0"] + kw["a"] * kw["x"] + 1j * kk * 0.0
        d = jg.Deconvolve(p)
        z = d.kValue(kw["x"], 0.0)
        return {"k": (z * (thr * kw["f0"] if small else v), 1.0 + 0j)}

    DI = [F("f0", 0.5, 3), F("a", -2, 2), F("x", -10, 10)]
    obs.append(Ob("dec-threshold-below", functools.partial(dec2, True), DI, assume=lambda f0, a, x: jnp.abs(f0 + a * x) <= 0.999 * thr * f0, validate=0))
    obs.append(Ob("dec-threshold-above", functools.partial(dec2, False), DI, assume=lambda f0, a, x: jnp.abs(f0 + a * x) >= 1.001 * thr * f0, validate=2))

    def cd(**kw):
        c = jg.Convolve(pr(1, kw), pr(0, kw), jg.Deconvolve(pr(0, kw)))
        k = jg.PositionD(kw["x"], kw["y"])
        return {"k": (c.kValue(k), K(1, kw)), "flux": (arr(c.flux), kw["f1"]), "cen": (jnp.stack([c.centroid.x, c.centroid.y]), kw["u1"])}

    obs.append(Ob("conv-dec", cd, PT + CO(0, 0.5) + CO(1), assume=lambda **kw: cmul(K(0, kw)) >= 0.01, validate=2))

    # drawing
    JAC = [F(n, -2, 2) for n in "pqrs"] + [F("sc", 0.1, 2)]
    gx, gy = np.meshgrid(np.arange(3) - 1, np.arange(2) - 1)

    def mat(kw):
        return jnp.stack([jnp.stack([kw["p"], kw["q"]]), jnp.stack([kw["r"], kw["s"]])])

    def dreal(n=2, **kw):
        s = jg.Sum([pr(i, kw) for i in range(n)])
        im = jg.ImageD(jnp.full((2, 3), 5.0), xmin=-1, ymin=-1, scale=kw["sc"])
        ret = s._drawReal(im, mat(kw), jnp.stack([kw["ox"], kw["oy"]]), kw["w"])
        d = kw["p"] * kw["s"] - kw["q"] * kw["r"]
        ux, uy = gx * kw["sc"] - kw["ox"], gy * kw["sc"] - kw["oy"]
        qx, qy = (kw["s"] * ux - kw["q"] * uy) / d, (kw["p"] * uy - kw["r"] * ux) / d
        return {"pix": (ret.array, sum(X(i, kw, qx, qy) for i in range(n)) * kw["sc"] ** 2 * kw["w"] / jnp.abs(d)), "untouched": (im.array, jnp.full((2, 3), 5.0))}

    DR = JAC + [F("ox", -3, 3), F("oy", -3, 3), F("w", -3, 3)]
    for n in (1, 2, 3):
        obs.append(Ob("sum-drawReal-%d-diag" % n, lambda n=n, **kw: dreal(n, **dict(kw, q=jnp.asarray(0.5), r=jnp.asarray(-0.25), s=jnp.asarray(1.5))), [i for i in DR if i.name not in "pqrs"] + [F("p", 0.2, 2)] + sum([CO(i) for i in range(n)], []), validate=2, thorough=n != 2))
        obs.append(Ob("sum-drawReal-%d" % n, functools.partial(dreal, n), DR + sum([CO(i) for i in range(n)], []), assume=lambda **kw: jnp.abs(kw["p"] * kw["s"] - kw["q"] * kw["r"]) >= 0.05, validate=2, thorough=True))

    def dk(kind="sum", n=2, **kw):
        o = (jg.Sum if kind == "sum" else jg.Convolve)([pr(i, kw) for i in range(n)])
        im = jg.Image(jnp.full((2, 3), 5.0 + 1j), xmin=-1, ymin=-1, scale=kw["sc"])
        ret = o._drawKImage(im, mat(kw))
        kx, ky = gx * kw["sc"], gy * kw["sc"]
        tx, ty = kw["p"] * kx + kw["r"] * ky, kw["q"] * kx + kw["s"] * ky
        v = [K(i, kw, tx, ty) for i in range(n)]
        e = sum(v[1:], v[0]) if kind == "sum" else functools.reduce(lambda a, b: a * b, v)
        return {"pix": (ret.array, e), "untouched": (im.array, jnp.full((2, 3), 5.0 + 1j))}

    for kind, n in (("sum", 1), ("sum", 2), ("sum", 3), ("conv", 1), ("conv", 2), ("conv", 3)):
        obs.append(Ob("%s-drawK-%d" % (kind, n), functools.partial(dk, kind, n), JAC + sum([CO(i) for i in range(n)], []), validate=2, thorough=n == 2))

    def deck(x0, y0, out, **kw):
        """one-pixel Fourier stamp at (x0, y0): inverse inside the object's maxk (3), zero outside"""
        d = jg.Deconvolve(pr(0, kw))
        im = jg.Image(jnp.full((1, 1), 5.0 + 1j), xmin=x0, ymin=y0, scale=kw["sc"])
        ret = d._drawKImage(im, mat(kw))
        tx, ty = dk_at(x0, y0, kw)
        return {"pix": (ret.array[0, 0] * (1.0 if out else K(0, kw, tx, ty)), (0.0 if out else 1.0) + 0j), "untouched": (im.array, jnp.full((1, 1), 5.0 + 1j))}

    def dk_at(x0, y0, kw):
        kx, ky = x0 * kw["sc"], y0 * kw["sc"]
        return kw["p"] * kx + kw["r"] * ky, kw["q"] * kx + kw["s"] * ky

    def deck_ok(x0, y0, out, **kw):
        tx, ty = dk_at(x0, y0, kw)
        return jnp.stack([tx * tx + ty * ty >= 9.001 if out else tx * tx + ty * ty <= 8.999, cmul(K(0, kw, tx, ty)) >= 0.01])

    for x0, y0, out in ((0, 0, False), (1, 0, False), (-2, 1, False), (0, -1, True), (3, 2, True)):
        obs.append(Ob("dec-drawK-%d%d%s" % (x0, y0, "-out" if out else ""), functools.partial(deck, x0, y0, out), JAC + CO(0, 0.5), assume=functools.partial(deck_ok, x0, y0, out), validate=2, thorough=(x0, y0) in ((-2, 1), (3, 2))))

    def deck_small(**kw):
        p = Probe(jnp.zeros(4), jnp.stack([kw["a"], jnp.asarray(0.0), jnp.asarray(0.0)]), kw["f0"])
        im = jg.Image(jnp.zeros((1, 1), dtype=complex), xmin=1, ymin=0, scale=kw["x"])
        return {"k": (jg.Deconvolve(p)._drawKImage(im).array[0, 0] * thr * kw["f0"], 1.0 + 0j)}

    obs.append(Ob("dec-drawK-threshold", deck_small, [F("f0", 0.5, 3), F("a", -2, 2), F("x", 0.1, 2.9)], assume=lambda f0, a, x: jnp.abs(f0 + a * x) <= 0.999 * thr * f0, validate=0))

    # a list of stamps shares nothing: same stamp drawn twice
    def twice(**kw):
        s = jg.Sum([pr(0, kw), pr(1, kw)])
        im = jg.Image(jnp.zeros((2, 3), dtype=complex), xmin=-1, ymin=-1, scale=kw["sc"])
        a, b = s._drawKImage(im), s._drawKImage(im)
        d = jg.Deconvolve(s)._drawKImage(im)
        kx, ky = gx * kw["sc"], gy * kw["sc"]
        e = K(0, kw, kx, ky) + K(1, kw, kx, ky)
        return {"a": (a.array, e), "b": (b.array, e)}

    obs.append(Ob("sum-drawK-twice", twice, [F("sc", 0.1, 2)] + CO(0, 0.5) + CO(1, 0.5), validate=2, thorough=True))

    # nothing is shared between a compound and its parts
    def fresh(**kw):
        a, b = pr(0, kw), pr(1, kw)
        lst = [a, b]
        s, c = jg.Sum(lst), jg.Convolve(lst)
        t_ = s + pr(2, kw)
        u = jg.Sum([s, pr(2, kw)])
        k = jg.PositionD(kw["x"], kw["y"])
        lst.append(pr(2, kw))
        return {"s": (arr(s.xValue(k)), X(0, kw) + X(1, kw)), "c": (c.kValue(k), K(0, kw) * K(1, kw)), "t": (arr(t_.xValue(k)), X(0, kw) + X(1, kw) + X(2, kw)), "u": (arr(u.xValue(k)), X(0, kw) + X(1, kw) + X(2, kw)),
                "a": (arr(a.xValue(k)), X(0, kw)), "n": jnp.asarray([len(t_.obj_list) == 3, len(u.obj_list) == 3])}

    obs.append(Ob("no-aliasing", fresh, PT + CO(0) + CO(1) + CO(2), validate=2))

    def tree(**kw):
        s = jg.Sum([pr(0, kw), jg.Convolve(pr(1, kw), pr(2, kw)), jg.Deconvolve(pr(0, kw))])
        r = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(s)))
        m = jax.tree_util.tree_map(lambda v: 2 * v, s)
        k = jg.PositionD(kw["x"], kw["y"])
        return {"k": (r.kValue(k), K(0, kw) + K(1, kw) * K(2, kw) + 1 / K(0, kw)), "m": (m.kValue(k), 2 * K(0, kw) + 4 * K(1, kw) * K(2, kw) + 1 / (2 * K(0, kw)))}

    obs.append(Ob("pytree", tree, PT + CO(0, 0.5) + CO(1) + CO(2), assume=lambda **kw: cmul(K(0, kw)) >= 0.01, validate=2))
    return obs
