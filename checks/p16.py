from vlib.common import *
from vlib.probe import Probe, kpoly, poly

FUNCTIONS = ["Transform, Transformation.__init__/_xValue/_kValue/_kfactor/_drawReal/_drawKImage/_shoot/_centroid/_max_sb/_maxk/_stepk/_flux/_positive_flux/_negative_flux/withGSParams", "GSObject.shear/_shear/rotate/expand/dilate/magnify/lens/_lens/transform/shift/_shift/withFlux/withScaledFlux/__mul__/__rmul__/__truediv__/__neg__",
             "draw_by_xValue/draw_by_kValue/apply_kImage_phases", "Shear.getMatrix"]
ASSUMPTIONS = [
    "the transformed profile is a probe with free polynomial surface brightness and Fourier transform (8 symbolic coefficients): what is decided is what transforming does to any profile's values",
    "matrices with |det| >= 0.05 and entries within 3, |g| <= 0.9, scales 0.1..5, magnifications 0.1..5, shifts within 100",
    "drawn stamps 3x3, 4x2 with symbolic pixel scale",
]
CO = [F("c", -2, 2, shape=(4,)), F("k", -2, 2, shape=(3,)), F("fl", 0.5, 3)]
PT = [F("x", -10, 10), F("y", -10, 10)]


def G(n):
    return F(n, -0.63, 0.63)


def mat(a, b, c, d):
    return jnp.stack([jnp.stack([a, b]), jnp.stack([c, d])])


def mul(A, B):
    return mat(A[0, 0] * B[0, 0] + A[0, 1] * B[1, 0], A[0, 0] * B[0, 1] + A[0, 1] * B[1, 1], A[1, 0] * B[0, 0] + A[1, 1] * B[1, 0], A[1, 0] * B[0, 1] + A[1, 1] * B[1, 1])


def ap(A, v):
    return jnp.stack([A[0, 0] * v[0] + A[0, 1] * v[1], A[1, 0] * v[0] + A[1, 1] * v[1]])


def apT(A, v):
    return jnp.stack([A[0, 0] * v[0] + A[1, 0] * v[1], A[0, 1] * v[0] + A[1, 1] * v[1]])


def det(A):
    return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]


I2 = np.eye(2)


def shmat(g1, g2):
    # unit determinant, distortion (1+g)/(1-g) along the shear direction
    return mat(1 + g1, g2, g2, 1 - g1) / jnp.sqrt(1 - g1 * g1 - g2 * g2)


def arr(v):
    return jnp.asarray(v, dtype=float)


# name -> (parameters, apply, (J, offset, amplitude))
OPS = {
    "shear": ([G("p"), G("q")], lambda o, p, q: o.shear(g1=p, g2=q), lambda p, q: (shmat(p, q), 0, 1.0)),
    "shear-obj": ([G("p"), G("q")], lambda o, p, q: o.shear(jg.Shear(g1=p, g2=q)), lambda p, q: (shmat(p, q), 0, 1.0)),
    "_shear": ([G("p"), G("q")], lambda o, p, q: o._shear(jg.Shear(g1=p, g2=q)), lambda p, q: (shmat(p, q), 0, 1.0)),
    "rotate": ([F("p", -7, 7)], lambda o, p: o.rotate(p * jg.radians), lambda p: (mat(jnp.cos(p), -jnp.sin(p), jnp.sin(p), jnp.cos(p)), 0, 1.0)),
    "expand": ([F("p", 0.1, 5)], lambda o, p: o.expand(p), lambda p: (p * arr(I2), 0, 1.0)),
    "dilate": ([F("p", 0.1, 5)], lambda o, p: o.dilate(p), lambda p: (p * arr(I2), 0, 1 / (p * p))),
    "magnify": ([F("p", 0.1, 5)], lambda o, p: o.magnify(p), lambda p: (jnp.sqrt(p) * arr(I2), 0, 1.0)),
    "lens": ([G("p"), G("q"), F("r", 0.1, 5)], lambda o, p, q, r: o.lens(p, q, r), lambda p, q, r: (shmat(p, q) * jnp.sqrt(r), 0, 1.0)),
    "_lens": ([G("p"), G("q"), F("r", 0.1, 5)], lambda o, p, q, r: o._lens(p, q, r), lambda p, q, r: (shmat(p, q) * jnp.sqrt(r), 0, 1.0)),
    "transform": ([F(n, -3, 3) for n in "pqrs"], lambda o, p, q, r, s: o.transform(p, q, r, s), lambda p, q, r, s: (mat(p, q, r, s), 0, 1.0)),
    "shift": ([F("p", -100, 100), F("q", -100, 100)], lambda o, p, q: o.shift(p, q), lambda p, q: (arr(I2), jnp.stack([p, q]), 1.0)),
    "shift-pos": ([F("p", -100, 100), F("q", -100, 100)], lambda o, p, q: o.shift(jg.PositionD(p, q)), lambda p, q: (arr(I2), jnp.stack([p, q]), 1.0)),
    "shift-kw": ([F("p", -100, 100), F("q", -100, 100)], lambda o, p, q: o.shift(dx=p, dy=q), lambda p, q: (arr(I2), jnp.stack([p, q]), 1.0)),
    "_shift": ([F("p", -100, 100), F("q", -100, 100)], lambda o, p, q: o._shift(p, q), lambda p, q: (arr(I2), jnp.stack([p, q]), 1.0)),
    "scaled": ([F("p", 0.1, 5)], lambda o, p: o.withScaledFlux(p), lambda p: (arr(I2), 0, p)),
    "mul": ([F("p", -5, 5)], lambda o, p: o * p, lambda p: (arr(I2), 0, p)),
    "rmul": ([F("p", -5, 5)], lambda o, p: p * o, lambda p: (arr(I2), 0, p)),
    "div": ([F("p", 0.1, 5)], lambda o, p: o / p, lambda p: (arr(I2), 0, 1 / p)),
    "neg": ([], lambda o: -o, lambda: (arr(I2), 0, -1.0)),
    "Transform": ([F(n, -3, 3) for n in "pqrs"] + [F("u", -9, 9), F("v", -9, 9), F("w", -3, 3)],
                  lambda o, p, q, r, s, u, v, w: jg.Transform(o, jac=(p, q, r, s), offset=jg.PositionD(u, v), flux_ratio=w),
                  lambda p, q, r, s, u, v, w: (mat(p, q, r, s), jnp.stack([u, v]), w)),
}


def pars(op, tag=""):
    return [Inp(i.name + tag, "f", (), i.lo, i.hi) for i in OPS[op][0]]


def vals(op, kw, tag=""):
    return [kw[i.name + tag] for i in OPS[op][0]]


def wellposed(op, kw, tag=""):
    a = {i.name: kw[i.name + tag] for i in OPS[op][0]}
    if op in ("transform", "Transform"):
        d = a["p"] * a["s"] - a["q"] * a["r"]
        return [jnp.abs(d) >= 0.05]
    if "shear" in op or "lens" in op:
        return [1 - a["p"] ** 2 - a["q"] ** 2 >= 0.19]
    return []


def comp(*maps):
    """first map applied first"""
    J, off, amp = arr(I2), jnp.zeros(2), 1.0
    for j, o, a in maps:
        J = mul(j, J)
        off = ap(j, off) + o
        amp = amp * a
    return J, off, amp


def probe(kw):
    return Probe(kw["c"], kw["k"], kw["fl"], cen=(kw["c"][1], kw["c"][2]))


def expect(kw, M, p0, full=True):
    """values of the transformed probe at the image of p0"""
    J, off, amp = M
    D = jnp.abs(det(J))
    k = jnp.stack([kw["x"], kw["y"]])
    t_ = apT(J, k)
    ph = off[0] * k[0] + off[1] * k[1]
    return {"at": ap(J, p0) + off, "x": amp * poly(kw["c"], p0[0], p0[1]), "k": amp * D * kpoly(kw["k"], kw["fl"], t_[0], t_[1]) * (jnp.cos(ph) - 1j * jnp.sin(ph)), "flux": amp * D * kw["fl"], "cen": ap(J, kw["c"][1:3]) + off, "sb": amp * (kw["c"][0] + 7 * kw["fl"])}


def obligations(tier):
    obs = []

    def values(o, kw, M):
        e = expect(kw, M, jnp.stack([kw["x"], kw["y"]]))
        p, k = e["at"], jg.PositionD(kw["x"], kw["y"])
        return {"x": (arr(o.xValue(p[0], p[1])), arr(e["x"])), "k": (o.kValue(k), e["k"]), "k0": (o.kValue(0.0, 0.0), e["flux"] + 0j), "flux": (arr(o.flux), arr(e["flux"])),
                "cen": (jnp.stack([o.centroid.x, o.centroid.y]), e["cen"]), "sb": (arr(o.max_sb), arr(e["sb"]))}

    for op in OPS:
        def one(op=op, **kw):
            v = vals(op, kw)
            o = OPS[op][1](probe(kw), *v)
            M = comp(OPS[op][2](*v))
            out = values(o, kw, M)
            out["parts"] = (jnp.concatenate([o.jac.ravel(), o.offset._array, arr(o.flux_ratio)[None]]), jnp.concatenate([M[0].ravel(), M[1], arr(M[2])[None]]))
            return out

        obs.append(Ob(op, one, CO + PT + pars(op), assume=lambda op=op, **kw: jnp.stack(wellposed(op, kw) + [kw["fl"] >= 0]), validate=2))

        if op not in ("neg", "mul", "rmul", "Transform"):
            def fl(op=op, **kw):
                o = OPS[op][1](probe(kw), *vals(op, kw))
                s = jnp.abs(det(OPS[op][2](*vals(op, kw))[0])) * OPS[op][2](*vals(op, kw))[2]
                return {"pos": (arr(o.positive_flux), s * kw["fl"]), "neg": (arr(o.negative_flux), 0.0 * s)}

            obs.append(Ob("posneg-" + op, fl, CO + pars(op), assume=lambda op=op, **kw: jnp.stack(wellposed(op, kw) + [kw["fl"] >= 0]), validate=1, thorough=op not in ("transform", "shear", "dilate")))

    # two transformations, every order of the distinct kinds
    two = ["shear", "rotate", "dilate", "transform", "shift", "mul"]
    for a in two:
        for b in two:
            if a == b and a in ("mul", "dilate"):
                continue

            def both(a=a, b=b, **kw):
                va, vb = vals(a, kw, "1"), vals(b, kw, "2")
                o = OPS[b][1](OPS[a][1](probe(kw), *va), *vb)
                return values(o, kw, comp(OPS[a][2](*va), OPS[b][2](*vb)))

            hard = {a, b} <= {"shear", "transform", "rotate"}
            obs.append(Ob("%s-%s" % (a, b), both, CO + PT + pars(a, "1") + pars(b, "2"), assume=lambda a=a, b=b, **kw: jnp.stack(wellposed(a, kw, "1") + wellposed(b, kw, "2") + [kw["fl"] >= 0]), validate=1, thorough=hard and a != b))

    def chain(**kw):
        o = probe(kw).shift(kw["u"], kw["v"]).dilate(kw["s"]).shift(kw["v"], kw["u"]) * kw["w"]
        M = comp(OPS["shift"][2](kw["u"], kw["v"]), OPS["dilate"][2](kw["s"]), OPS["shift"][2](kw["v"], kw["u"]), OPS["mul"][2](kw["w"]))
        return values(o, kw, M)

    obs.append(Ob("chain", chain, CO + PT + [F("u", -5, 5), F("v", -5, 5), F("s", 0.1, 5), F("w", -3, 3)], validate=2))

    def withflux(**kw):
        o = probe(kw).transform(kw["p"], kw["q"], kw["r"], kw["s"]).shift(kw["u"], 0.5).withFlux(kw["w"])
        d = kw["p"] * kw["s"] - kw["q"] * kw["r"]
        return {"flux": (arr(o.flux), kw["w"]), "x": (arr(o.xValue(kw["p"] * kw["x"] + kw["q"] * kw["y"] + kw["u"], kw["r"] * kw["x"] + kw["s"] * kw["y"] + 0.5)) * kw["fl"] * jnp.abs(d), poly(kw["c"], kw["x"], kw["y"]) * kw["w"])}

    obs.append(Ob("withFlux", withflux, CO + PT + pars("transform") + [F("u", -5, 5), F("w", 0.1, 3)], assume=lambda **kw: jnp.stack(wellposed("transform", kw)), validate=2))

    # the original is left alone, parameters of the combination are independent
    def fresh(**kw):
        p = probe(kw)
        o = p.shift(kw["u"], kw["v"])
        q = o.shift(kw["v"], kw["s"]).dilate(kw["s"]) * kw["w"]
        pos = jg.PositionD(kw["x"], kw["y"])
        q.xValue(pos), q.kValue(pos), o.kValue(pos)
        return {"off": (o.offset._array, jnp.stack([kw["u"], kw["v"]])), "ratio": (arr(o.flux_ratio), 1.0), "x": (arr(o.xValue(kw["x"] + kw["u"], kw["y"] + kw["v"])), poly(kw["c"], kw["x"], kw["y"])), "pos": (pos._array, jnp.stack([kw["x"], kw["y"]])),
                "px": (arr(p.xValue(pos)), poly(kw["c"], kw["x"], kw["y"]))}

    obs.append(Ob("no-aliasing", fresh, CO + PT + [F("u", -5, 5), F("v", -5, 5), F("s", 0.1, 5), F("w", -3, 3)], validate=2))

    def gs(**kw):
        v = vals("Transform", kw)
        o = OPS["Transform"][1](probe(kw), *v)
        g = jg.GSParams(folding_threshold=0.01, maxk_threshold=0.02)
        n = o.withGSParams(g)
        out = values(n, kw, comp(OPS["Transform"][2](*v)))
        m = o.withGSParams(xvalue_accuracy=0.5)
        return dict(out, same=jnp.asarray(n.gsparams == g and n.original.gsparams == g and m.gsparams.xvalue_accuracy == 0.5 and m.original.gsparams.xvalue_accuracy == 0.5 and o.gsparams == jg.GSParams()))

    obs.append(Ob("withGSParams", gs, CO + PT + pars("Transform"), assume=lambda **kw: jnp.stack(wellposed("Transform", kw)), validate=2))

    # Fourier-space limits follow the extreme singular values
    def lim(**kw):
        p, q, r, s = [kw[n] for n in "pqrs"]
        o = jg.Transform(probe(kw), jac=(p, q, r, s), offset=jg.PositionD(kw["u"], kw["v"]))
        h1, h2 = jnp.sqrt((p + s) ** 2 + (q - r) ** 2), jnp.sqrt((p - s) ** 2 + (q + r) ** 2)
        big, small = 0.5 * (h1 + h2), 0.5 * jnp.abs(h1 - h2)
        R = PI / 0.25 * big + jnp.sqrt(kw["u"] ** 2 + kw["v"] ** 2)
        return {"maxk": (arr(o.maxk) * small, 3.0), "stepk": (arr(o.stepk) * R, PI)}

    obs.append(Ob("limits", lim, CO + pars("transform") + [F("u", -5, 5), F("v", -5, 5)], assume=lambda **kw: jnp.stack(wellposed("transform", kw) + [kw["u"] ** 2 + kw["v"] ** 2 >= 0.01]), validate=2, thorough=True))

    # (h1, h2 taken as the free quantities: p + s = h1 cos a, r - q = h1 sin a, p - s = h2 cos b, q + r = h2 sin b)
    def lim2(h1, h2, a, b, sg, **kw):
        A, B, C, D = h1 * np.cos(a), h1 * np.sin(a), h2 * np.cos(b), h2 * np.sin(b)
        o = jg.Transform(Probe(jnp.zeros(4), jnp.zeros(3)), jac=((A + C) / 2, (D - B) / 2, (D + B) / 2, (A - C) / 2), offset=jg.PositionD(kw["u"] * 0.6, kw["u"] * 0.8))
        R = PI / 0.25 * (h1 + h2) / 2 + kw["u"]
        return {"maxk": (arr(o.maxk) * (h1 - h2) * sg / 2, 3.0), "stepk": (arr(o.stepk) * R, PI)}

    for sg in (1, -1):
        for i, (a, b) in enumerate(((0.0, 0.0), (0.0, PI / 2), (PI / 2, PI / 2), (PI, 0.0))):
            obs.append(Ob("limits%d%s" % (i, "" if sg > 0 else "-flip"), functools.partial(lim2, a=a, b=b, sg=sg), [F("h1", 0.1, 5), F("h2", 0.1, 5), F("u", 0.1, 9)], assume=lambda h1, h2, sg=sg, **kw: sg * (h1 - h2) >= 0.05, validate=2))

    # drawing: real space and Fourier space
    for nx, ny in ((3, 3), (4, 2)):
        def real(nx=nx, ny=ny, **kw):
            v = vals("Transform", kw)
            M = comp(OPS["Transform"][2](*v))
            o = OPS["Transform"][1](probe(kw), *v)
            im = jg.ImageD(jnp.zeros((ny, nx)), xmin=-1, ymin=-1, scale=kw["sc"])
            o.drawReal(im)
            J, off, amp = M
            d = det(J)
            X, Y = np.meshgrid(np.arange(nx) - 1, np.arange(ny) - 1)
            ux, uy = X * kw["sc"] - off[0], Y * kw["sc"] - off[1]
            qx, qy = (J[1, 1] * ux - J[0, 1] * uy) / d, (J[0, 0] * uy - J[1, 0] * ux) / d
            return {"pix": (im.array, poly(kw["c"], qx, qy) * amp * kw["sc"] ** 2)}

        obs.append(Ob("drawReal-%dx%d" % (nx, ny), real, CO + pars("Transform") + [F("sc", 0.1, 3)], assume=lambda **kw: jnp.stack(wellposed("Transform", kw)), validate=2, thorough=nx == 4))

        def kim(nx=nx, ny=ny, **kw):
            v = vals("Transform", kw)
            J, off, amp = comp(OPS["Transform"][2](*v))
            o = OPS["Transform"][1](probe(kw), *v)
            im = jg.Image(jnp.zeros((ny, nx), dtype=complex), xmin=-1, ymin=-1, scale=kw["sc"])
            im = o._drawKImage(im)
            X, Y = np.meshgrid(np.arange(nx) - 1, np.arange(ny) - 1)
            kx, ky = X * kw["sc"], Y * kw["sc"]
            tx, ty = J[0, 0] * kx + J[1, 0] * ky, J[0, 1] * kx + J[1, 1] * ky
            ph = off[0] * kx + off[1] * ky
            return {"pix": (im.array, kpoly(kw["k"], kw["fl"], tx, ty) * amp * jnp.abs(det(J)) * (jnp.cos(ph) - 1j * jnp.sin(ph)))}

        obs.append(Ob("drawK-%dx%d" % (nx, ny), kim, CO + pars("Transform") + [F("sc", 0.1, 3)], assume=lambda **kw: jnp.stack(wellposed("Transform", kw)), validate=2, thorough=nx == 4))

    # nested (not merged) transformations inside a sum
    def nested(**kw):
        a, b = vals("transform", kw), vals("shift", kw, "2")
        o = jg.Sum([probe(kw).transform(*a), probe(kw)]).shift(*b) * 2.0
        M = comp(OPS["transform"][2](*a), OPS["shift"][2](*b), OPS["mul"][2](2.0))
        N = comp(OPS["shift"][2](*b), OPS["mul"][2](2.0))
        k = jg.PositionD(kw["x"], kw["y"])
        p0 = jnp.zeros(2)
        return {"k": (o.kValue(k), expect(kw, M, p0)["k"] + expect(kw, N, p0)["k"]), "flux": (arr(o.flux), expect(kw, M, p0)["flux"] + expect(kw, N, p0)["flux"])}

    obs.append(Ob("nested", nested, CO + PT + pars("transform") + pars("shift", "2"), assume=lambda **kw: jnp.stack(wellposed("transform", kw)), validate=2))

    # photons move with the profile
    def shoot(key, **kw):
        v = vals("Transform", kw)
        J, off, amp = comp(OPS["Transform"][2](*v))
        o = OPS["Transform"][1](probe(kw), *v)
        a = probe(kw).shoot(3, jg.BaseDeviate(5))
        b = o.shoot(3, jg.BaseDeviate(5))
        P = jnp.stack([a.x, a.y])
        return {"pos": (jnp.stack([b.x, b.y]), jnp.stack([J[0, 0] * P[0] + J[0, 1] * P[1] + off[0], J[1, 0] * P[0] + J[1, 1] * P[1] + off[1]])), "flux": (b.flux, a.flux * amp * jnp.abs(det(J)))}

    obs.append(Ob("shoot", functools.partial(shoot, None), CO + pars("Transform"), assume=lambda **kw: jnp.stack(wellposed("Transform", kw)), validate=2))
    return obs
