from vlib import fork
from vlib.common import *

FUNCTIONS = ["PositionD/PositionI construction, +, -, neg, *, /, ==", "Position.shear", "Position.round", "check_is_int_then_cast", "parse_pos_args"]
ASSUMPTIONS = ["coordinates up to 10^6 in size; Python numbers and traced jax values both"]


def arr(x):
    return jnp.asarray(fork.unwrap(x))


def xy(p):
    return jnp.stack([arr(p.x) * 1.0, arr(p.y) * 1.0])


def v(x, y):
    return jnp.stack([arr(x) * 1.0, arr(y) * 1.0])


def isfloat(p):
    return jnp.asarray(all(jnp.issubdtype(arr(q).dtype, jnp.floating) for q in (p.x, p.y)))


def isint(p):
    return jnp.asarray(all(jnp.issubdtype(arr(q).dtype, jnp.integer) for q in (p.x, p.y)))


def obligations(tier):
    obs = []
    R = 1e6

    def arith(a, b, c, d, k):
        p, q = jg.PositionD(a, b), jg.PositionD(c, d)
        out = {"+": (xy(p + q), v(a, b) + v(c, d)), "-": (xy(p - q), v(a, b) - v(c, d)), "neg": (xy(-p), -v(a, b)), "*": (xy(p * k), v(a, b) * arr(k)), "/": (xy(p / k) * arr(k), v(a, b)),
               "*3": (xy(p * 3), 3 * v(a, b)), "3*": (xy(3 * p), 3 * v(a, b)), "/4": (xy(p / 4), v(a, b) / 4), "-1.5*": (xy(-1.5 * p), -1.5 * v(a, b)), "keep": (xy(p), v(a, b)), "keepq": (xy(q), v(c, d)),
               "arr": (p._array, v(a, b))}
        for nm, r in (("tuple", jg.PositionD((a, b))), ("list", jg.PositionD([a, b])), ("kw", jg.PositionD(x=a, y=b)), ("kw2", jg.PositionD(y=b, x=a)), ("pos", jg.PositionD(p))):
            out[nm] = (xy(r), v(a, b))
            out[nm + "t"] = isfloat(r)
        out["zero"] = (xy(jg.PositionD()), jnp.zeros(2))
        out["type"] = jnp.asarray(all(type(z) is jg.PositionD for z in (p + q, p - q, -p, p * 2, p / 2)))
        return out

    nz = lambda a, b, c, d, k: jnp.abs(k) > 0.01
    for nm, mk in (("jax", F), ("py", PF)):
        ins = [mk(n, -R, R) for n in "abcd"] + [mk("k", -100, 100)]
        obs.append(Ob("D-arith-" + nm, arith, ins, assume=nz))
        ins = [(I if nm == "jax" else PI_)(n, -10**6, 10**6) for n in "ab"] + [mk(n, -R, R) for n in "cd"] + [mk("k", -100, 100)]
        obs.append(Ob("D-from-int-" + nm, arith, ins, assume=nz))

    def ints(a, b, c, d, k):
        p, q = jg.PositionI(a, b), jg.PositionI(c, d)
        out = {"+": (xy(p + q), v(a, b) + v(c, d)), "-": (xy(p - q), v(a, b) - v(c, d)), "neg": (xy(-p), -v(a, b)), "*": (xy(p * k), v(a, b) * arr(k)), "3*": (xy(3 * p), 3 * v(a, b)),
               "*-2": (xy(p * -2), -2 * v(a, b)), "back": (xy((p * 4) / 4), v(a, b)), "keep": (xy(p), v(a, b))}
        for nm, r in (("tuple", jg.PositionI((a, b))), ("kw", jg.PositionI(x=a, y=b)), ("pos", jg.PositionI(p)), ("posD", jg.PositionI(jg.PositionD(a, b))), ("float", jg.PositionI(a * 1.0, b * 1.0)),
                      ("+", p + q), ("-", p - q), ("neg", -p), ("*", p * k), ("*3", p * 3)):
            out[nm + "v"] = (xy(r), {"+": v(a, b) + v(c, d), "-": v(a, b) - v(c, d), "neg": -v(a, b), "*": v(a, b) * arr(k), "*3": 3 * v(a, b)}.get(nm, v(a, b)))
            out[nm + "t"] = isint(r) & jnp.asarray(type(r) is jg.PositionI)
        return out

    for nm, mk in (("jax", I), ("py", PI_)):
        obs.append(Ob("I-arith-" + nm, ints, [mk(n, -10**6, 10**6) for n in "abcd"] + [mk("k", -100, 100)]))

    def mixed(a, b, c, d):
        p, q = jg.PositionI(a, b), jg.PositionD(c, d)
        out = {}
        for nm, r, w in (("I+D", p + q, v(a, b) + v(c, d)), ("D+I", q + p, v(a, b) + v(c, d)), ("I-D", p - q, v(a, b) - v(c, d)), ("D-I", q - p, v(c, d) - v(a, b)), ("D(I)", jg.PositionD(p), v(a, b))):
            out[nm] = (xy(r), w)
            out[nm + "t"] = isfloat(r) & jnp.asarray(type(r) is jg.PositionD)
        return out

    for nm, mi, mf in (("jax", I, F), ("py", PI_, PF), ("mix", PI_, F), ("mix2", I, PF)):
        obs.append(Ob("mixed-" + nm, mixed, [mi(n, -10**6, 10**6) for n in "ab"] + [mf(n, -R, R) for n in "cd"]))

    def rnd(a, b):
        p = jg.PositionD(a, b)
        r = p.round()
        e = xy(r) - v(a, b)
        return {"near": (e <= 0.5) & (e >= -0.5), "int": (xy(r), jnp.round(xy(r))), "t": isint(r) & jnp.asarray(type(r) is jg.PositionI)}

    obs.append(Ob("round-jax", rnd, [F(n, -1e5, 1e5) for n in "ab"]))
    obs.append(Ob("round-py", rnd, [PF(n, -1e5, 1e5) for n in "ab"]))

    def roundi(a, b):
        r = jg.PositionI(a, b).round()
        return {"v": (xy(r), v(a, b)), "t": isint(r)}

    obs.append(Ob("roundI", roundi, [I(n, -10**5, 10**5) for n in "ab"]))

    def shear(a, b, g1, g2):
        s = jg.Shear(g1=g1, g2=g2)
        f = 1 / jnp.sqrt(1 - g1**2 - g2**2)
        w = jnp.stack([(1 + g1) * a + g2 * b, g2 * a + (1 - g1) * b]) * f
        return {"D": (xy(jg.PositionD(a, b).shear(s)), w), "inv": (xy(jg.PositionD(a, b).shear(s).shear(-s)), v(a, b)), "t": isfloat(jg.PositionD(a, b).shear(s))}

    gd = lambda a, b, g1, g2: g1**2 + g2**2 < 0.81
    obs.append(Ob("shear", shear, [F("a", -1000, 1000), F("b", -1000, 1000), F("g1", -0.9, 0.9), F("g2", -0.9, 0.9)], assume=gd))

    def sheari(a, b, g1, g2):
        s = jg.Shear(g1=g1, g2=g2)
        f = 1 / jnp.sqrt(1 - g1**2 - g2**2)
        w = jnp.stack([(1 + g1) * a + g2 * b, g2 * a + (1 - g1) * b]) * f
        p = jg.PositionI(a, b).shear(s)
        return {"I": (xy(p), w), "t": isfloat(p) & jnp.asarray(type(p) is jg.PositionD)}

    obs.append(Ob("shearI", sheari, [I("a", -1000, 1000), I("b", -1000, 1000), F("g1", -0.9, 0.9), F("g2", -0.9, 0.9)], assume=gd))

    def eq(a, b, c, d):
        p, q = jg.PositionD(a, b), jg.PositionD(c, d)
        same = (arr(a) == arr(c)) & (arr(b) == arr(d))
        return {"==": arr(p == q) == same, "!=": arr(p != q) == ~same, "self": arr(p == p), "copy": arr(p == jg.PositionD(p)), "kind": jnp.asarray(not (p == 3))}

    obs.append(Ob("eq-py", eq, [PF(n, -100, 100) for n in "abcd"]))
    obs.append(Ob("eq-jax", eq, [F(n, -100, 100) for n in "abcd"], fork=True))
    obs.append(Ob("eq-same", lambda a, b: eq(a, b, a, b), [PF(n, -100, 100) for n in "ab"]))

    def refuse(a, b):
        n = 0
        p, q = jg.PositionD(a, b), jg.PositionI(1, 2)
        for f in (lambda: p + 3, lambda: p - 3, lambda: p * p, lambda: q * 1.5, lambda: q / 1.5, lambda: p / "a", lambda: p * "2", lambda: jg.PositionI(1.5, 2), lambda: jg.PositionI(1, 2.25),
                  lambda: jg.PositionD(1, 2, 3), lambda: jg.PositionD(5), lambda: jg.PositionD(x=3), lambda: jg.PositionD(3, x=4), lambda: q - 2):
            try:
                f()
            except TypeError:
                n += 1
        return {"n": jnp.asarray(n == 14)}

    obs.append(Ob("refusals", refuse, [F("a", -10, 10), F("b", -10, 10)]))
    return obs
