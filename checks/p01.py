from vlib.common import *

FUNCTIONS = ["BoundsI/BoundsD constructors (4 args, positions, copy, xmin/deltax)", "__and__", "__add__ (bounds, position)", "includes",
             "withBorder", "expand", "shift", "area", "center", "true_center", "origin", "numpyShape", "isDefined", "__eq__", "tree_flatten/unflatten"]
ASSUMPTIONS = [
    "integer box coordinates are Python ints in [-30, 30] (static boxes) or traced integer arrays with static sizes 0..6",
    "float box coordinates in [-50, 50]",
    "path forking: every feasible outcome of each Python-level comparison is explored",
]
R = 30


def B4(n, lo=-R, hi=R, mk=PI_):
    return [mk(n + k, lo, hi) for k in ("a", "b", "c", "d")]


def lst(b):
    return (b.xmin, b.xmax, b.ymin, b.ymax)


def inside(v, px, py):
    a, b, c, d = v
    return (a <= px) & (px <= b) & (c <= py) & (py <= d)


def ok4(a, b, c, d):
    return (a <= b) & (c <= d)


def arr(*x):
    return jnp.array([jnp.asarray(v) for v in x])


def mn(a, b):
    return jnp.minimum(jnp.asarray(a), jnp.asarray(b))


def mx(a, b):
    return jnp.maximum(jnp.asarray(a), jnp.asarray(b))


def obligations(tier):
    obs = []
    for nm, cls, pos, mk, one in (("I", jg.BoundsI, jg.PositionI, PI_, 1), ("D", jg.BoundsD, jg.PositionD, PF, 0),
                                  ("Dj", jg.BoundsD, jg.PositionD, F, 0), ("Ij", jg.BoundsI, jg.PositionI, I, 1)):
        def ctor(ba, bb, bc, bd, cls=cls, pos=pos, one=one):
            b = cls(ba, bb, bc, bd)
            d = jnp.asarray((ba <= bb) & (bc <= bd))
            out = {"defined": jnp.asarray(b.isDefined()) == d}
            if b.isDefined():
                out["coords"] = (arr(*lst(b)), arr(ba, bb, bc, bd))
                out["get"] = (arr(b.getXMin(), b.getXMax(), b.getYMin(), b.getYMax()), arr(ba, bb, bc, bd))
                out["area"] = (arr(b.area()), arr((bb - ba + one) * (bd - bc + one)))
                c = b.center
                t_ = b.true_center
                o = b.origin
                out["origin"] = (arr(o.x, o.y), arr(ba, bc))
                out["true_center"] = (arr(t_.x, t_.y) * 2.0, arr(ba + bb, bc + bd) * 1.0)
                if one:
                    out["center"] = (arr(c.x, c.y), jnp.ceil(arr(ba + bb, bc + bd) / 2.0).astype(int))
                    out["ci"] = jnp.array([jnp.issubdtype(jnp.asarray(v).dtype, jnp.integer) for v in (c.x, c.y, b.xmin, b.xmax, b.ymax)])
                    s = b.numpyShape()
                    out["shape"] = (arr(*s), arr(bd - bc + 1, bb - ba + 1))
                else:
                    out["center"] = (arr(c.x, c.y) * 2.0, arr(ba + bb, bc + bd) * 1.0)
                k = cls(xmin=ba, xmax=bb, ymin=bc, ymax=bd)
                k2 = cls(xmin=ba, deltax=bb - ba + one, ymin=bc, deltay=bd - bc + one)
                p = cls(pos(ba, bd), pos(bb, bc))
                out["kw"] = (arr(*lst(k)), arr(ba, bb, bc, bd))
                out["kwdelta"] = (arr(*lst(k2)), arr(ba, bb, bc, bd))
                out["corners"] = (arr(*lst(p)), arr(ba, bb, bc, bd))
                out["eq"] = jnp.asarray((b == k) & (b == k2) & (b == cls(b)))
                out["alldef"] = jnp.asarray(k.isDefined() & k2.isDefined() & p.isDefined())
                q = cls(pos(ba, bc))
                out["point"] = (arr(*lst(q)), arr(ba, ba, bc, bc))
                out["pointdef"] = jnp.asarray(q.isDefined())
            else:
                u = cls()
                out["copyundef"] = jnp.asarray(not cls(b).isDefined())
                out["copyundef2"] = jnp.asarray(not cls(u).isDefined())
                out["undef=="] = jnp.asarray(b == u)
                out["area0"] = (arr(u.area()) * 1.0, arr(0.0))
                if one:
                    out["ushape"] = (arr(*b.numpyShape()), arr(0, 0))
            return out

        # a BoundsD of jax arrays does not test validity (documented), so only valid boxes are in scope there
        val = (lambda ba, bb, bc, bd: jnp.array([ba <= bb, bc <= bd])) if nm == "Dj" else None
        obs.append(Ob("ctor-" + nm, ctor, B4("b", mk=mk), assume=val, fork=True))

        def meet(aa, ab, ac, ad, ba, bb, bc, bd, px, py, cls=cls, pos=pos):
            x, y = cls(aa, ab, ac, ad), cls(ba, bb, bc, bd)
            r = x & y
            q = pos(px, py)
            out = {"incl": jnp.asarray(r.includes(q)) == jnp.asarray(x.includes(q) & y.includes(q)),
                   "xincl": jnp.asarray(x.includes(q)) == jnp.asarray(inside((aa, ab, ac, ad), px, py)),
                   "defined": jnp.asarray(r.isDefined()) == jnp.asarray((mx(aa, ba) <= mn(ab, bb)) & (mx(ac, bc) <= mn(ad, bd)))}
            if r.isDefined():
                out["box"] = (arr(*lst(r)), arr(mx(aa, ba), mn(ab, bb), mx(ac, bc), mn(ad, bd)))
                out["sub"] = jnp.asarray(x.includes(r) & y.includes(r))
            return out

        def A2(aa, ab, ac, ad, ba, bb, bc, bd, **k):
            return jnp.array([aa <= ab, ac <= ad, ba <= bb, bc <= bd])

        obs.append(Ob("meet-" + nm, meet, B4("a", mk=mk) + B4("b", mk=mk) + [mk("px", -R, R), mk("py", -R, R)], assume=A2, fork=True))

        def join(aa, ab, ac, ad, ba, bb, bc, bd, px, py, cls=cls, pos=pos):
            x, y = cls(aa, ab, ac, ad), cls(ba, bb, bc, bd)
            r = x + y
            out = {"box": (arr(*lst(r)), arr(mn(aa, ba), mx(ab, bb), mn(ac, bc), mx(ad, bd))), "def": jnp.asarray(r.isDefined())}
            q = pos(px, py)
            s = x + q
            out["pt"] = (arr(*lst(s)), arr(mn(aa, px), mx(ab, px), mn(ac, py), mx(ad, py)))
            s = q + x
            out["ptr"] = (arr(*lst(s)), arr(mn(aa, px), mx(ab, px), mn(ac, py), mx(ad, py)))
            u = cls()
            out["u+"] = (arr(*lst(u + x)), arr(aa, ab, ac, ad))
            out["+u"] = (arr(*lst(x + u)), arr(aa, ab, ac, ad))
            out["u&"] = jnp.asarray((not (u & x).isDefined()) and not (x & u).isDefined() and not (u + u).isDefined())
            out["u+pt"] = (arr(*lst(u + q)), arr(px, px, py, py))
            out["uin"] = jnp.asarray((not u.includes(q)) and (not u.includes(x)) and (not x.includes(u)))
            return out

        obs.append(Ob("join-" + nm, join, B4("a", mk=mk) + B4("b", mk=mk) + [mk("px", -R, R), mk("py", -R, R)], assume=A2, fork=True))

        def incl(aa, ab, ac, ad, ba, bb, bc, bd, cls=cls, pos=pos):
            x, y = cls(aa, ab, ac, ad), cls(ba, bb, bc, bd)
            e = arr(aa == ba, ab == bb, ac == bc, ad == bd).all()
            return {"b": jnp.asarray(x.includes(y)) == jnp.asarray((aa <= ba) & (ab >= bb) & (ac <= bc) & (ad >= bd)),
                    "xy": jnp.asarray(x.includes(ba, bc)) == jnp.asarray(inside((aa, ab, ac, ad), ba, bc)),
                    "eq": jnp.asarray(x == y) == e, "ne": jnp.asarray(x != y) != e}

        obs.append(Ob("includes-" + nm, incl, B4("a", mk=mk) + B4("b", mk=mk), assume=A2, fork=True))

        def move(aa, ab, ac, ad, dx, dy, cls=cls, pos=pos, one=one):
            x = cls(aa, ab, ac, ad)
            s = x.shift(pos(dx, dy))
            out = {"shift": (arr(*lst(s)), arr(aa + dx, ab + dx, ac + dy, ad + dy)), "sdef": jnp.asarray(s.isDefined())}
            w = x.withBorder(dx, dy)
            d = jnp.asarray((aa - dx <= ab + dx) & (ac - dy <= ad + dy))
            out["wdef"] = jnp.asarray(w.isDefined()) == d
            if w.isDefined():
                out["border"] = (arr(*lst(w)), arr(aa - dx, ab + dx, ac - dy, ad + dy))
            w = x.withBorder(dx)
            if w.isDefined():
                out["border1"] = (arr(*lst(w)), arr(aa - dx, ab + dx, ac - dx, ad + dx))
            return out

        obs.append(Ob("move-" + nm, move, B4("a", mk=mk) + [mk("dx", 0 if nm == "Dj" else -R, R), mk("dy", 0 if nm == "Dj" else -R, R)],
                      assume=lambda aa, ab, ac, ad, **k: jnp.array([aa <= ab, ac <= ad]), fork=True))

        fm = PF if mk in (PI_, PF) else F

        def expand(aa, ab, ac, ad, fx, fy, cls=cls, pos=pos, one=one):
            x = cls(aa, ab, ac, ad)
            ex, ey = x.expand(fx, fy), x.expand(fx)
            gx, gy = (ab - aa) * 0.5 * (fx - 1.0), (ad - ac) * 0.5 * (fy - 1.0)
            gz = (ad - ac) * 0.5 * (fx - 1.0)
            if one:
                gx, gy, gz = [jnp.ceil(jnp.asarray(v)) for v in (gx, gy, gz)]
            return {"xy": (arr(*lst(ex)) * 1.0, arr(aa - gx, ab + gx, ac - gy, ad + gy) * 1.0),
                    "x": (arr(*lst(ey)) * 1.0, arr(aa - gx, ab + gx, ac - gz, ad + gz) * 1.0)}

        obs.append(Ob("expand-" + nm, expand, B4("a", mk=mk) + [fm("fx", 1, 4), fm("fy", 1, 4)],
                      assume=lambda aa, ab, ac, ad, **k: jnp.array([aa <= ab, ac <= ad]), fork=True))
        # shrinking; the boxes stay non-empty
        obs.append(Ob("shrink-" + nm, expand, B4("a", mk=mk) + [fm("fx", 0.25, 1), fm("fy", 0.25, 1)],
                      assume=lambda aa, ab, ac, ad, **k: jnp.array([aa + 2 <= ab, ac + 2 <= ad]), fork=True))

    # traced origin, static size (the form that lives inside jit)
    for dx, dy in ((1, 1), (4, 3), (5, 6), (0, 3), (3, 0)):
        def traced(x0, y0, sx, sy, dx=dx, dy=dy):
            b = jg.BoundsI(xmin=x0, deltax=dx, ymin=y0, deltay=dy)
            if dx < 1 or dy < 1:
                return {"undef": jnp.asarray(not b.isDefined()), "shape": (arr(*b.numpyShape()), arr(0, 0)),
                        "area": (arr(b.area()), arr(0))}
            s = b.shift(jg.PositionI(sx, sy))
            w = b.withBorder(2, 1)
            c = b.center
            l, td = jax.tree_util.tree_flatten(s)
            s2 = jax.tree_util.tree_unflatten(td, l)
            return {"b": (arr(*lst(b)), arr(x0, x0 + dx - 1, y0, y0 + dy - 1)), "s": (arr(*lst(s)), arr(x0 + sx, x0 + sx + dx - 1, y0 + sy, y0 + sy + dy - 1)),
                    "w": (arr(*lst(w)), arr(x0 - 2, x0 + dx + 1, y0 - 1, y0 + dy)), "c": (arr(c.x, c.y), arr(x0 + dx // 2, y0 + dy // 2)),
                    "tc": (arr(b.true_center.x, b.true_center.y), arr(x0 + (dx - 1) / 2, y0 + (dy - 1) / 2)),
                    "rt": (arr(*lst(s2)), arr(*lst(s))), "shape": (arr(*s2.numpyShape()), arr(dy, dx)), "area": (arr(b.area()), arr(dx * dy)),
                    "in": b.includes(jg.PositionI(sx, sy)) == inside((x0, x0 + dx - 1, y0, y0 + dy - 1), sx, sy),
                    "inD": b.includes(jg.PositionD(sx + 0.5, sy)) == inside((x0, x0 + dx - 1, y0, y0 + dy - 1), sx + 0.5, sy)}

        obs.append(Ob("traced-%dx%d" % (dx, dy), traced, [I(n, -1000, 1000) for n in ("x0", "y0", "sx", "sy")]))

    def convert(aa, ab, ac, ad):
        bi = jg.BoundsI(aa, ab, ac, ad)
        bd = jg.BoundsD(bi)
        back = jg.BoundsI(bd)
        return {"d": (arr(*lst(bd)), arr(aa, ab, ac, ad) * 1.0), "back": (arr(*lst(back)), arr(aa, ab, ac, ad))}

    for mk, nm in ((PI_, "py"), (I, "jax")):
        obs.append(Ob("convert-" + nm, convert, B4("a", mk=mk), assume=lambda aa, ab, ac, ad: jnp.array([aa <= ab, ac <= ad]), fork=True))
    return obs
