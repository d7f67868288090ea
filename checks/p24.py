import os
import tempfile
from unittest import mock

from jax_galsim import photon_array as pam
from vlib.common import *

FUNCTIONS = ["PhotonArray: construction, fromArrays, every property setter, allocation flags, getTotalFlux, setTotalFlux, scaleFlux, scaleXY, copyFrom, assignAt, _assign_from_categorical_index, _num_keep, convolve, addTo, makeFromImage, write, read, ==, pytree",
             "_add_photons_to_image, fixed_photon_array_size, Sensor.accumulate"]
ASSUMPTIONS = [
    "arrays of 2 to 5 photons with free positions, fluxes and masks; images of 2x2 to 3x2 pixels with free origin; photons exactly on a pixel edge excluded",
    "makeFromImage: fixed pixel values, free deviates (the generator replaced by a stand-in); file round trip: one masked and one unmasked array",
    "a photon order drawn at random is left free: the claim is about every order",
]
OTHER = ("dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time")


def arr(v):
    return jnp.asarray(v, dtype=float)


def FA(n, *names, lo=-3, hi=3):
    return [F(k, lo, hi, shape=(n,)) for k in names]


def pa(kw, p="", other=True, n=None, nokeep=None):
    """photon array with free x, y, flux and other data"""
    o = {}
    if other:
        w = kw[p + "w"]
        o = {k: w[i] for i, k in enumerate(OTHER)}
    return jg.PhotonArray(n or kw[p + "x"].shape[0], x=kw[p + "x"], y=kw[p + "y"], flux=kw[p + "f"], _nokeep=nokeep, **o)


def PI_IN(n, p="", other=True):
    r = FA(n, p + "x", p + "y", p + "f")
    if other:
        r.append(F(p + "w", -3, 3, shape=(6, n)))
    return r


def data(p):
    return {k: getattr(p, k) for k in ("x", "y", "flux") + OTHER}


def same(p, want, out, tag=""):
    for k, v in want.items():
        out[tag + k] = (getattr(p, k), v)


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    N = 3

    # ---- construction and properties
    def ctor(**kw):
        p = pa(kw)
        out = {}
        want = dict(x=kw["x"], y=kw["y"], flux=kw["f"], **{k: kw["w"][i] for i, k in enumerate(OTHER)})
        same(p, want, out)
        q = jg.PhotonArray.fromArrays(kw["x"], kw["y"], kw["f"], *kw["w"])
        same(q, want, out, "fa-")
        b = jg.PhotonArray(N)
        out["zero"] = (jnp.stack([b.x, b.y, b.flux]), jnp.zeros((3, N)))
        out["flags"] = jnp.stack([p.hasAllocatedAngles(), p.hasAllocatedWavelengths(), p.hasAllocatedPupil(), p.hasAllocatedTimes()] + [~b.hasAllocatedAngles(), ~b.hasAllocatedWavelengths(), ~b.hasAllocatedPupil(), ~b.hasAllocatedTimes()])
        out["len"] = jnp.asarray(len(p) == N and p.size() == N and b.size() == N)
        l, td = jax.tree_util.tree_flatten(p)
        same(jax.tree_util.tree_unflatten(td, l), want, out, "tree-")
        same(jax.jit(lambda a: a)(p), want, out, "jit-")
        return out

    ob("construct", ctor, PI_IN(N), validate=1)

    def setters(**kw):
        out = {}
        for i, k in enumerate(("x", "y", "flux") + OTHER):
            b = jg.PhotonArray(N)
            setattr(b, k, kw["x"])
            out[k] = (getattr(b, k), kw["x"])
            if k in ("x", "y", "flux"):
                out[k + "-rest"] = (sum(jnp.sum(jnp.abs(getattr(b, j))) for j in ("x", "y", "flux") if j != k), 0.0)
            setattr(b, k, kw["s"])
            out[k + "-scalar"] = (getattr(b, k), jnp.full(N, kw["s"]))
            pair = {"dxdz": "dydz", "dydz": "dxdz", "pupil_u": "pupil_v", "pupil_v": "pupil_u"}.get(k)
            fl = [b.hasAllocatedAngles(), b.hasAllocatedWavelengths(), b.hasAllocatedPupil(), b.hasAllocatedTimes()]
            exp = [k in ("dxdz", "dydz"), k == "wavelength", k in ("pupil_u", "pupil_v"), k == "time"]
            out[k + "-flags"] = jnp.all(jnp.stack([f == e for f, e in zip(fl, exp)]))
            if pair:
                out[k + "-pair"] = (getattr(b, pair), jnp.zeros(N))
                setattr(b, pair, kw["y"])
                out[k + "-keep"] = (getattr(b, k), jnp.full(N, kw["s"]))
                out[k + "-pair2"] = (getattr(b, pair), kw["y"])
        return out

    ob("setters", setters, FA(N, "x", "y") + [F("s", -3, 3)])

    def scale(**kw):
        out = {}
        p = pa(kw)
        d = data(p)
        r = p.scaleFlux(kw["s"])
        out["tot"] = (p.getTotalFlux(), kw["s"] * jnp.sum(kw["f"]))
        d["flux"] = kw["f"] * kw["s"]
        same(p, d, out, "sf-")
        p.scaleXY(kw["s"])
        d["x"], d["y"] = kw["x"] * kw["s"], kw["y"] * kw["s"]
        same(p, d, out, "sxy-")
        q = pa(kw, other=False)
        q.setTotalFlux(kw["t"])
        out["st"] = (q.getTotalFlux(), kw["t"])
        out["st-each"] = (q.flux * jnp.sum(kw["f"]), kw["f"] * kw["t"])
        out["st-xy"] = (q.x + 10 * q.y, kw["x"] + 10 * kw["y"])
        out["ret"] = jnp.asarray(r is p)
        return out

    ob("scale", scale, PI_IN(N) + [F("s", 0.1, 3), F("t", -5, 5)], assume=lambda f, **k: jnp.sum(f) >= 0.1, validate=1)

    # ---- masks: only the kept photons count, and they carry the flux of all
    def mask(**kw):
        m = kw["m"]
        out = {}
        n = jnp.sum(~m)
        p = pa(kw, other=False, nokeep=m)
        out["get"] = (p.flux, jnp.where(m, 0.0, kw["f"]))
        out["x"] = (p.x, kw["x"])
        out["nk"] = (arr(p._num_keep), arr(n))
        p.scaleFlux(kw["s"])
        out["sc"] = (p.flux, jnp.where(m, 0.0, kw["f"] * kw["s"]))
        out["tot"] = (p.getTotalFlux(), jnp.sum(jnp.where(m, 0.0, kw["f"] * kw["s"])))
        p.flux = kw["f"]
        out["set"] = (p.flux, jnp.where(m, 0.0, kw["f"]))
        return out

    ob("mask", mask, PI_IN(N, other=False) + [Bo("m", shape=(N,)), F("s", 0.1, 3)])

    def nkeep(k, **kw):
        out = {}
        p = pa(kw)
        p._num_keep = k
        n = kw["x"].shape[0]
        want = jnp.where(jnp.arange(n) < k, kw["f"] * n / max(k, 1), 0.0)
        out["flux"] = (p.flux, want)
        out["tot"] = (p.getTotalFlux(), jnp.sum(want))
        out["xy"] = (jnp.stack([p.x, p.y]), jnp.stack([kw["x"], kw["y"]]))
        out["w"] = (jnp.stack([getattr(p, q) for q in OTHER]), kw["w"])
        out["count"] = (arr(p._num_keep), float(k))
        return out

    for k in range(5):
        ob("numkeep-%d" % k, functools.partial(nkeep, k), PI_IN(4))

    def nkeepsym(**kw):
        # free count, free previous mask: as many photons kept as asked, the kept ones first among those kept before
        out = {}
        m, k = kw["m"], kw["k"]
        p = pa(kw, other=False, nokeep=m)
        old = p._flux
        p._num_keep = k
        out["count"] = (arr(p._num_keep), arr(k))
        kept = ~p._nokeep
        out["sub"] = jnp.where(k <= jnp.sum(~m), ~jnp.any(kept & m), ~jnp.any(~kept & ~m))
        out["xy"] = (jnp.stack([p.x, p.y]), jnp.stack([kw["x"], kw["y"]]))
        out["flux"] = (p.flux * k, jnp.where(kept, old * 3, 0.0))
        return out

    ob("numkeep-free", nkeepsym, PI_IN(3, other=False) + [Bo("m", shape=(3,)), I("k", 1, 3)], assume=lambda m, **k: ~jnp.all(m))

    def fixedsize(n, size, **kw):
        with pam.fixed_photon_array_size(size):
            p = jg.PhotonArray(n)
            x = jnp.concatenate([kw["x"], kw["y"]])[:size]
            p.x = x
            p.flux = kw["s"] / n
            out = {"tot": (p.getTotalFlux(), kw["s"]), "each": (p.flux, jnp.where(jnp.arange(size) < n, kw["s"] / n, 0.0)), "x": (p.x, x), "size": jnp.asarray(p.size() == size)}
            q = jg.PhotonArray.fromArrays(x, x, x)
            out["fa"] = (q.flux, x)
        r = jg.PhotonArray(n)
        out["after"] = jnp.asarray(r.size() == n and pam._JAX_GALSIM_PHOTON_ARRAY_SIZE is None)
        return out

    for n, size in ((2, 5), (5, 5), (1, 4)):
        ob("fixedsize-%d-%d" % (n, size), functools.partial(fixedsize, n, size), FA(3, "x", "y") + [F("s", -3, 3)])

    # ---- copying parts of one array into another
    IDX = {"slice": (slice(1, 3), slice(0, 2)), "all": (slice(None), slice(None)), "int": (2, 0), "neg": (-1, -2), "step": (slice(0, 4, 2), slice(1, 3)), "list": (np.array([3, 0]), np.array([1, 2])), "rev": (slice(0, 3), slice(2, None, -1))}

    def copy(ix, xy, fl, ot, **kw):
        t, s = ix
        a, b = pa(kw), pa(kw, "b")
        d, e = data(a), data(b)
        a.copyFrom(b, t, s, do_xy=xy, do_flux=fl, do_other=ot)
        out = {}
        for k in d:
            on = xy if k in ("x", "y") else fl if k == "flux" else ot
            out[k] = (getattr(a, k), d[k].at[t].set(e[k][s]) if on else d[k])
        same(b, e, out, "src-")
        return out

    for nm, ix in IDX.items():
        nb = 4 if nm == "all" else 3
        for fl in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):
            quick = fl == (True, True, True) or nm == "slice"
            ob("copy-%s-%d%d%d" % ((nm,) + fl), functools.partial(copy, ix, *fl), PI_IN(4) + PI_IN(nb, "b"), thorough=not quick)

    def copymask(**kw):
        # copying between partly kept arrays conserves every photon's own flux
        a, b = pa(kw, other=False, nokeep=kw["m"]), pa(kw, "b", other=False, nokeep=kw["bm"])
        d, e = data(a), data(b)
        a.copyFrom(b, slice(0, 2), slice(0, 2))
        out = {}
        for k in ("x", "y", "flux"):
            out[k] = (getattr(a, k), d[k].at[:2].set(e[k][:2]))
        out["m"] = jnp.all(a._nokeep == jnp.concatenate([kw["bm"], kw["m"][2:]]))
        return out

    ob("copy-masked", copymask, PI_IN(3, other=False) + PI_IN(2, "b", other=False) + [Bo("m", shape=(3,)), Bo("bm", shape=(2,))], assume=lambda m, bm, **k: ~m[2] & ~jnp.all(bm))

    def copynone(**kw):
        # data absent from the source leave the target's alone
        a, b = pa(kw), pa(kw, "b", other=False)
        d = data(a)
        a.copyFrom(b, slice(0, 2), slice(1, 3))
        out = {}
        for k in OTHER:
            out[k] = (getattr(a, k), d[k])
        out["x"] = (a.x, d["x"].at[:2].set(kw["bx"][1:]))
        c = pa(kw)
        c.assignAt(1, pa(kw, "c"))
        for k in d:
            v = kw["c" + k[0]] if k in ("x", "y", "flux") else kw["cw"][OTHER.index(k)]
            out["at-" + k] = (getattr(c, k), d[k].at[1:3].set(v))
        return out

    ob("copy-absent", copynone, PI_IN(3) + PI_IN(3, "b", other=False) + PI_IN(2, "c"))

    def categ(**kw):
        a, b = pa(kw), pa(kw, "b")
        d, e = data(a), data(b)
        a._assign_from_categorical_index(kw["c"], 1, b)
        out = {}
        for k in d:
            out[k] = (getattr(a, k), jnp.where(kw["c"] == 1, e[k], d[k]))
        return out

    ob("categorical", categ, PI_IN(3) + PI_IN(3, "b") + [I("c", 0, 2, shape=(3,))])

    def categm(**kw):
        a, b = pa(kw, other=False, nokeep=kw["m"]), pa(kw, "b", other=False, nokeep=kw["bm"])
        d, e = data(a), data(b)
        a._assign_from_categorical_index(kw["c"], 1, b)
        return {k: (getattr(a, k), jnp.where(kw["c"] == 1, e[k], d[k])) for k in ("x", "y", "flux")}

    ob("categorical-masked", categm, PI_IN(3, other=False) + PI_IN(3, "b", other=False) + [I("c", 0, 2, shape=(3,)), Bo("m", shape=(3,)), Bo("bm", shape=(3,))], assume=lambda m, bm, c, **k: ~jnp.all(m) & ~jnp.all(bm) & jnp.any(~jnp.where(c == 1, bm, m)))

    # ---- convolution
    def conv(mine, theirs, **kw):
        a, b = pa(kw, other=mine), pa(kw, "b", other=theirs)
        n = a.size()
        d, e = data(a), data(b)
        a.convolve(b, jg.BaseDeviate(kw["key"]))
        out = {"x": (a.x, d["x"] + e["x"]), "y": (a.y, d["y"] + e["y"]), "flux": (a.flux, d["flux"] * e["flux"] * n)}
        for k in OTHER:
            src = d if mine else e if theirs else None
            if src:
                out[k] = (getattr(a, k), src[k])
        same(b, {k: e[k] for k in ("x", "y", "flux")}, out, "rhs-")
        if not mine and not theirs:
            out["none"] = ~(a.hasAllocatedAngles() | a.hasAllocatedWavelengths() | a.hasAllocatedPupil() | a.hasAllocatedTimes())
        return out

    for mine in (True, False):
        for theirs in (True, False):
            ob("convolve-%d%d" % (mine, theirs), functools.partial(conv, mine, theirs), PI_IN(3, other=mine) + PI_IN(3, "b", other=theirs) + [Key("key")])

    def convmask(k, j, **kw):
        # both arrays keep the same number of photons in different places: kept ones pair up in order
        ma = np.array([i in k for i in range(3)])
        mb = np.array([i in j for i in range(3)])
        a, b = pa(kw, other=False, nokeep=jnp.asarray(~ma)), pa(kw, "b", other=False, nokeep=jnp.asarray(~mb))
        n = len(k)
        fa, fb = a._flux, b._flux
        a.convolve(b, jg.BaseDeviate(kw["key"]))
        out = {"keep": jnp.all(a._nokeep == jnp.asarray(~ma)) & jnp.all(b._nokeep == jnp.asarray(~mb)), "b": (b.x, kw["bx"]), "bf": (b._flux, fb)}
        for p, q in zip(sorted(k), sorted(j)):
            out["x%d" % p] = (a.x[p], kw["x"][p] + kw["bx"][q])
            out["f%d" % p] = (a._flux[p], fa[p] * fb[q] * 3)
        return out

    for k, j in (((0, 1), (0, 1)), ((1, 2), (0, 2)), ((2,), (0,)), ((0, 2), (1, 2))):
        ob("convolve-mask%s%s" % ("".join(map(str, k)), "".join(map(str, j))), functools.partial(convmask, k, j), PI_IN(3, other=False) + PI_IN(3, "b", other=False) + [Key("key")])

    def convcorr(**kw):
        # both arrays correlated: some order of the second one, its data moving together
        a, b = pa(kw, other=False), pa(kw, "b", other=False)
        a.setCorrelated(), b.setCorrelated()
        d, e = data(a), data(b)
        a.convolve(b, jg.BaseDeviate(kw["key"]))
        n = a.size()
        dx = a.x - d["x"]
        out = {"sum": (jnp.sum(dx), jnp.sum(e["x"])), "sq": (jnp.sum(dx**2), jnp.sum(e["x"] ** 2)), "tie": (jnp.sum(dx * (a.y - d["y"])), jnp.sum(e["x"] * e["y"])), "src": (b.x, e["x"])}
        out["corr"] = a._is_corr
        return out

    ob("convolve-correlated", convcorr, PI_IN(2, other=False) + PI_IN(2, "b", other=False) + [Key("key")])

    def convcorr2(mine, **kw):
        # angles, wavelengths, pupil positions and times come with the photons that carry them
        a, b = pa(kw, other=mine), pa(kw, "b", other=not mine)
        a.setCorrelated(), b.setCorrelated()
        d, e = data(a), data(b)
        a.convolve(b, jg.BaseDeviate(kw["key"]))
        out = {}
        if mine:
            for k in OTHER:
                out[k] = (getattr(a, k), d[k])
        else:
            dx = a.x - d["x"]
            for k in OTHER:
                out["tie-" + k] = (jnp.sum(dx * getattr(a, k)), jnp.sum(e["x"] * e[k]))
                out["sum-" + k] = (jnp.sum(getattr(a, k)), jnp.sum(e[k]))
        return out

    for mine in (True, False):
        ob("convolve-correlated-%s" % ("mine" if mine else "theirs"), functools.partial(convcorr2, mine), PI_IN(2, other=mine) + PI_IN(2, "b", other=not mine) + [Key("key")])

    def convflag(ca, cb, **kw):
        a, b = pa(kw, other=False), pa(kw, "b", other=False)
        a.setCorrelated(ca), b.setCorrelated(cb)
        d, e = data(a), data(b)
        a.convolve(b, jg.BaseDeviate(kw["key"]))
        out = {"corr": jnp.asarray(a.isCorrelated()) == (ca or cb), "b": jnp.asarray(b.isCorrelated()) == cb}
        if not (ca and cb):
            out["x"] = (a.x, d["x"] + e["x"])
        return out

    for ca, cb in ((True, False), (False, True), (False, False)):
        ob("convolve-corrflag-%d%d" % (ca, cb), functools.partial(convflag, ca, cb), PI_IN(2, other=False) + PI_IN(2, "b", other=False) + [Key("key")])

    # ---- depositing photons
    def add(shape, n, sens, masked, **kw):
        ny, nx = shape
        m = kw["m"] if masked else None
        p = pa(kw, other=False, nokeep=m)
        f = p.flux
        xm, ym = kw["xm"], kw["ym"]
        im = jg.Image(kw["im"], xmin=2, ymin=-1)
        added = jg.Sensor().accumulate(p, im) if sens else p.addTo(im)
        want = kw["im"]
        tot = 0.0
        rows = []
        for j in range(ny):
            row = []
            for i in range(nx):
                ins = (kw["x"] > 2 + i - 0.5) & (kw["x"] < 2 + i + 0.5) & (kw["y"] > -1 + j - 0.5) & (kw["y"] < -1 + j + 0.5)
                s = jnp.sum(jnp.where(ins, f, 0.0))
                tot = tot + s
                row.append(want[j, i] + s)
            rows.append(jnp.stack(row))
        return {"im": (im.array, jnp.stack(rows)), "added": (added, tot), "xy": (p.x + 10 * p.y, kw["x"] + 10 * kw["y"])}

    def offedge(**kw):
        x, y = kw["x"], kw["y"]
        return jnp.all(jnp.abs(x - 0.5 - jnp.round(x - 0.5)) >= 1e-6) & jnp.all(jnp.abs(y - 0.5 - jnp.round(y - 0.5)) >= 1e-6) & (jnp.all(~kw["m"][:1]) if "m" in kw else True)

    def ADD(shape, n, masked):
        return [F("x", 0.3, 5, shape=(n,)), F("y", -2.6, 2, shape=(n,)), F("f", -3, 3, shape=(n,)), F("im", -3, 3, shape=shape), F("xm", 0, 1), F("ym", 0, 1)] + ([Bo("m", shape=(n,))] if masked else [])

    ob("add-1", functools.partial(add, (2, 3), 1, False, False), ADD((2, 3), 1, False), assume=offedge)
    ob("add-2", functools.partial(add, (2, 2), 2, True, False), ADD((2, 2), 2, False), assume=offedge)
    ob("add-masked", functools.partial(add, (1, 2), 2, False, True), ADD((1, 2), 2, True), assume=offedge)

    def addmany(cells, dtype, **kw):
        # photons in known pixels, free fractions
        out = {}
        n = len(cells)
        x = jnp.stack([4 + c[0] + kw["x"][i] for i, c in enumerate(cells)])
        y = jnp.stack([-7 + c[1] + kw["y"][i] for i, c in enumerate(cells)])
        p = jg.PhotonArray(n, x=x, y=y, flux=kw["f"])
        im = jg.Image(jnp.asarray(kw["im"], dtype=dtype), xmin=4, ymin=-7)
        added = p.addTo(im)
        want = arr(kw["im"])
        tot = 0.0
        for i, (cx, cy) in enumerate(cells):
            if 0 <= cx < 3 and 0 <= cy < 2:
                want = want.at[cy, cx].add(kw["f"][i])
                tot = tot + kw["f"][i]
        got = arr(im.array)
        if dtype is not float:
            out["im"] = jnp.max(jnp.abs(got - want)) <= 0.5 + 1e-9
        else:
            out["im"] = (got, want)
        out["added"] = (added, tot)
        out["dt"] = jnp.asarray(im.array.dtype == jnp.asarray(kw["im"], dtype=dtype).dtype)
        return out

    C1 = ((0, 0), (1, 1), (2, 0), (1, 1), (-1, 0), (3, 1), (0, 2), (2, -1))
    ob("deposit", functools.partial(addmany, C1, float), FA(8, "x", "y", lo=-0.499999, hi=0.499999) + FA(8, "f") + [F("im", -3, 3, shape=(2, 3))], validate=1)
    ob("deposit-int", functools.partial(addmany, C1[:5], jnp.int32), FA(5, "x", "y", lo=-0.499999, hi=0.499999) + FA(5, "f") + [I("im", -5, 5, shape=(2, 3))])

    # ---- photons made from an image
    class Stub:
        """stand-in for the uniform generator: hands out free deviates"""

        pool = []

        def __init__(self, rng=None):
            pass

        def generate(self, a):
            return Stub.pool.pop(0)[: a.shape[0]]

    def fromimage(scale, **kw):
        vals = np.array([[2.5, -1.25], [0.0, 0.75]])
        counts = [3, 2, 1, 1]
        n = sum(counts)
        Stub.pool = [kw["u"], kw["v"]]
        with mock.patch.object(pam, "UniformDeviate", Stub), jax.ensure_compile_time_eval():
            im = jg.Image(jnp.asarray(vals), xmin=3, ymin=-2, scale=scale)
            p = jg.PhotonArray.makeFromImage(im, max_flux=1.0)
        out = {"n": jnp.asarray(p.size() == n)}
        i = 0
        s = scale
        for c, (j, k) in zip(counts, ((0, 0), (0, 1), (1, 0), (1, 1))):
            for _ in range(c):
                out["x%d" % i] = (p.x[i], s * (3 + k - 0.5 + kw["u"][i]))
                out["y%d" % i] = (p.y[i], s * (-2 + j - 0.5 + kw["v"][i]))
                out["f%d" % i] = (p.flux[i], vals[j, k] / c)
                i += 1
        out["tot"] = (p.getTotalFlux(), float(vals.sum()))
        return out

    for s in (1.0, 0.5):
        ob("fromimage-%g" % s, functools.partial(fromimage, s), FA(7, "u", "v", lo=0, hi=1))

    # ---- equality
    def eq(k, **kw):
        a, b = pa(kw), pa(kw)
        if k != "self":
            setattr(b, k, getattr(b, k).at[1].add(kw["s"]))
        return jnp.asarray((a == b) == (k == "self"))

    for k in ("self", "x", "y", "flux") + OTHER:
        ob("equality-" + k, functools.partial(eq, k), PI_IN(2) + [F("s", 0.5, 3)], fork=True, thorough=k in OTHER[1:])

    # ---- file round trip
    def io(u):
        out = {}
        with jax.ensure_compile_time_eval(), tempfile.TemporaryDirectory() as td:
            rs = np.random.RandomState(7)
            for tag, mask, oth in (("plain", None, False), ("full", None, True), ("masked", np.array([False, True, False, False]), True)):
                o = {k: jnp.asarray(rs.rand(4)) for k in OTHER} if oth else {}
                p = jg.PhotonArray(4, x=jnp.asarray(rs.rand(4)), y=jnp.asarray(rs.rand(4)), flux=jnp.asarray(rs.rand(4) - 0.3), _nokeep=None if mask is None else jnp.asarray(mask), **o)
                f = os.path.join(td, "p.fits")
                if os.path.exists(f):
                    os.unlink(f)
                p.write(f)
                q = jg.PhotonArray.read(f)
                for k in ("x", "y", "flux") + (OTHER if oth else ()):
                    out[tag + k] = (np.asarray(getattr(q, k)), np.asarray(getattr(p, k)))
                out[tag + "m"] = jnp.asarray(bool(np.all(np.asarray(p._nokeep) == np.asarray(q._nokeep))))
        return {k: ((jnp.asarray(v[0]), jnp.asarray(v[1])) if isinstance(v, tuple) else v) for k, v in out.items()}

    ob("file", io, [F("u", 0, 1)])
    return obs
