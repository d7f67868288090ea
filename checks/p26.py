from vlib.common import *

FUNCTIONS = ["BaseDeviate, _DeviateState: reset, seed, discard, raw, duplicate, generate, add_generate, __call__, ==, serialize keys, pytree", "UniformDeviate, GaussianDeviate, PoissonDeviate, BinomialDeviate, WeibullDeviate, GammaDeviate, Chi2Deviate: _generate, _generate_one, generate_from_variance/_from_expectation, parameter accessors", "random.permute"]
ASSUMPTIONS = [
    "the generator key is free; splitting a key and drawing bits, uniforms, normals, Poisson and gamma variates from it are uninterpreted functions of the key and the parameters (uniforms in [0,1), counts non-negative): what is decided is how the library threads the key and builds each distribution from those draws",
    "histories of up to 4 operations (draw, fill an array of 2, discard of free length 0..3, raw, duplicate and draw from the copy, draw through a linked deviate, reset to another deviate), the operation at each step free; arrays of up to 4 values in any shape",
    "binomial counts 1 to 3; parameters free within positive ranges; Poisson means on both sides of the normal-approximation threshold 2**17",
]


def arr(v):
    return jnp.asarray(v, dtype=float)


def split(key):
    a, b = jax.random.split(key)
    return a, b


def kd(key):
    return jax.random.key_data(key)


def keq(a, b):
    return jnp.all(kd(a) == kd(b))


def advance(key, n):
    for _ in range(n):
        key, _ = split(key)
    return key


class Dist:
    """name, parameters, constructor, the documented law as a function of a fresh subkey"""

    def __init__(self, name, ins, make, law, props):
        self.name, self.ins, self.make, self.law, self.props = name, ins, make, law, props


def pois_law(k, kw, mean=None):
    m = kw["m"] if mean is None else mean
    return jnp.where(m < 2**17, jax.random.poisson(k, m, dtype=int).astype(float), jax.random.normal(k, dtype=float) * jnp.sqrt(m) + m)


def weib_law(k, kw):
    # scale b, shape a
    return jax.random.weibull_min(k, kw["b"], kw["a"], dtype=float)


def binom_law(n):
    def f(k, kw):
        u = jax.random.uniform(k, (n,), dtype=float)
        return jnp.sum(jnp.where(u < kw["p"], 1, 0))

    return f


DISTS = [
    Dist("uniform", [], lambda r, kw: jg.UniformDeviate(r), lambda k, kw: jax.random.uniform(k, dtype=float), {}),
    Dist("gaussian", [F("mu", -3, 3), F("sg", 0, 4)], lambda r, kw: jg.GaussianDeviate(r, mean=kw["mu"], sigma=kw["sg"]), lambda k, kw: kw["mu"] + kw["sg"] * jax.random.normal(k, dtype=float), {"mean": "mu", "sigma": "sg"}),
    Dist("poisson", [F("m", 0, 1e5)], lambda r, kw: jg.PoissonDeviate(r, mean=kw["m"]), pois_law, {"mean": "m"}),
    Dist("poisson-large", [F("m", 2**17, 1e9)], lambda r, kw: jg.PoissonDeviate(r, mean=kw["m"]), pois_law, {"mean": "m"}),
    Dist("weibull", [F("a", 0.3, 4), F("b", 0.3, 4)], lambda r, kw: jg.WeibullDeviate(r, a=kw["a"], b=kw["b"]), weib_law, {"a": "a", "b": "b"}),
    Dist("gamma", [F("k", 0.3, 4), F("th", 0.3, 4)], lambda r, kw: jg.GammaDeviate(r, k=kw["k"], theta=kw["th"]), lambda k, kw: jax.random.gamma(k, kw["k"], dtype=float) * kw["th"], {"k": "k", "theta": "th"}),
    Dist("chi2", [F("dof", 0.5, 8)], lambda r, kw: jg.Chi2Deviate(r, n=kw["dof"]), lambda k, kw: jax.random.chisquare(k, kw["dof"], dtype=float), {"n": "dof"}),
    Dist("binomial2", [F("p", 0.01, 0.99)], lambda r, kw: jg.BinomialDeviate(r, N=2, p=kw["p"]), binom_law(2), {"p": "p"}),
]


def obligations(tier):
    obs = []

    def ob(name, f, ins, **k):
        k.setdefault("validate", 0)
        obs.append(Ob(name, f, ins, **k))

    K = [Key("key")]

    def seq(d, n, **kw):
        """n single draws, an array of n, and the law applied to successive subkeys agree; the state advances by n"""
        key = kw["key"]
        out = {}
        want = []
        k = key
        for _ in range(n):
            k, s = split(k)
            want.append(arr(d.law(s, kw)))
        want = jnp.stack(want)
        a = d.make(jg.BaseDeviate(key), kw)
        out["calls"] = (jnp.stack([arr(a()) for _ in range(n)]), want)
        out["calls-key"] = keq(a._key, k)
        b = d.make(jg.BaseDeviate(key), kw)
        out["array"] = (arr(b.generate(jnp.zeros(n))), want)
        out["array-key"] = keq(b._key, k)
        if n == 4:
            c = d.make(jg.BaseDeviate(key), kw)
            out["shape"] = (arr(c.generate(jnp.zeros((2, 2)))), want.reshape(2, 2))
            c = d.make(jg.BaseDeviate(key), kw)
            base = jnp.asarray([[1.0, -2.0], [5.0, 0.5]])
            out["add"] = (arr(c.add_generate(base)), want.reshape(2, 2) + base)
            out["add-key"] = keq(c._key, k)
        for prop, nm in d.props.items():
            out["p-" + prop] = (arr(getattr(a, prop)), kw[nm])
        return out

    for d in DISTS:
        ob("draws-%s" % d.name, functools.partial(seq, d, 2), K + d.ins, validate=1 if d.name in ("gaussian", "weibull") else 0)
        ob("fill-%s" % d.name, functools.partial(seq, d, 4), K + d.ins, thorough=d.name not in ("uniform", "gaussian", "poisson"))

    def empty(d, **kw):
        a = d.make(jg.BaseDeviate(kw["key"]), kw)
        r = a.generate(jnp.zeros((0,)))
        return {"n": jnp.asarray(r.shape == (0,)), "key": keq(a._key, kw["key"])}

    for d in DISTS[:3]:
        ob("empty-%s" % d.name, functools.partial(empty, d), K + d.ins)

    # ---- laws in terms of uniforms
    def weib(**kw):
        a = jg.WeibullDeviate(jg.BaseDeviate(kw["key"]), a=kw["a"], b=kw["b"])
        v = a()
        _, s = split(kw["key"])
        u = jax.random.uniform(s, dtype=float)
        # survival function exp(-(v/b)^a) is a uniform deviate
        return {"surv": (jnp.power(v / kw["b"], kw["a"]), -jnp.log1p(-u)), "pos": v >= 0}

    for sh in (1.0, 2.0, 0.5):
        ob("weibull-law-%g" % sh, functools.partial(lambda sh, **kw: weib(a=sh, **kw), sh), K + [F("b", 0.3, 4)])

    def gausv(**kw):
        v = kw["v"]
        a = jg.GaussianDeviate(jg.BaseDeviate(kw["key"]), mean=kw["mu"], sigma=kw["sg"])
        got = a.generate_from_variance(v)
        k = kw["key"]
        want = []
        for i in range(3):
            k, s = split(k)
            want.append(jax.random.normal(s, dtype=float) * jnp.sqrt(v[i]))
        return {"v": (got, jnp.stack(want)), "sq": (got**2, jnp.stack(want) ** 2), "key": keq(a._key, k)}

    ob("gaussian-variance", gausv, K + [F("mu", -3, 3), F("sg", 0, 4), F("v", 0, 9, shape=(3,))])

    def poise(**kw):
        v = kw["v"]
        a = jg.PoissonDeviate(jg.BaseDeviate(kw["key"]), mean=kw["m"])
        got = a.generate_from_expectation(v)
        k = kw["key"]
        want = []
        for i in range(2):
            k, s = split(k)
            want.append(pois_law(s, kw, v[0, i]))
        return {"v": (got, jnp.stack(want)[None]), "key": keq(a._key, k), "mean": (a.mean, kw["m"])}

    ob("poisson-expectation", poise, K + [F("m", 0, 5), F("v", 0, 1e6, shape=(1, 2))])

    def binom(n, **kw):
        a = jg.BinomialDeviate(jg.BaseDeviate(kw["key"]), N=n, p=kw["p"])
        v = arr(a())
        _, s = split(kw["key"])
        u = jax.random.uniform(s, (n,), dtype=float)
        w = arr(a.generate(jnp.zeros(2)))
        return {"v": (v, jnp.sum(jnp.where(u < kw["p"], 1.0, 0.0))), "range": (v >= 0) & (v <= n) & jnp.all(w >= 0) & jnp.all(w <= n), "n": jnp.asarray(a.n == n), "key": keq(a._key, advance(kw["key"], 3))}

    for n in (1, 3):
        ob("binomial-law-%d" % n, functools.partial(binom, n), K + [F("p", 0.01, 0.99)])

    # ---- state handling
    def disc(d, **kw):
        n = kw["n"]
        a, b = d.make(jg.BaseDeviate(kw["key"]), kw), d.make(jg.BaseDeviate(kw["key"]), kw)
        a.discard(n)
        k = kw["key"]
        want = k
        for i in range(4):
            want = jax.lax.cond(n == i, lambda w, kk: kk, lambda w, kk: w, want, k)
            k, _ = split(k)
        out = {"key": keq(a._key, want)}
        b2 = d.make(jg.BaseDeviate(kw["key"]), kw)
        for _ in range(3):
            b2()
        c = d.make(jg.BaseDeviate(kw["key"]), kw)
        c.discard(3)
        out["3"] = keq(b2._key, c._key)
        e = d.make(jg.BaseDeviate(kw["key"]), kw)
        e.discard(1), e.discard(2)
        out["split"] = keq(e._key, c._key)
        out["next"] = (arr(b2()), arr(c()))
        r = d.make(jg.BaseDeviate(kw["key"]), kw)
        r.raw()
        out["raw"] = keq(r._key, advance(kw["key"], 1))
        return out

    for d in DISTS:
        ob("discard-%s" % d.name, functools.partial(disc, d), K + [I("n", 0, 3)] + d.ins, thorough=d.name in ("poisson-large", "chi2", "weibull"))

    def rawlaw(**kw):
        a = jg.BaseDeviate(kw["key"])
        v = a.raw()
        _, s = split(kw["key"])
        return {"v": v == jax.random.bits(s, dtype=jnp.uint32), "dt": jnp.asarray(v.dtype == jnp.uint32)}

    ob("raw", rawlaw, K)

    def dup(d, **kw):
        """a duplicate continues identically; drawing from either does not touch the other"""
        a = d.make(jg.BaseDeviate(kw["key"]), kw)
        v0 = a()
        b = a.duplicate()
        import copy

        c = copy.copy(a)
        k1 = a._key
        x = arr(a())
        out = {"alone": keq(b._key, k1) & keq(c._key, k1)}
        y, z = arr(b()), arr(c())
        out["same"] = (jnp.stack([y, z]), jnp.stack([x, x]))
        out["keys"] = keq(a._key, b._key) & keq(a._key, c._key)
        b()
        out["alone2"] = ~keq(a._key, b._key) | keq(a._key, advance(kw["key"], 2))
        out["a"] = keq(a._key, advance(kw["key"], 2))
        for p, nm in d.props.items():
            out["p-" + p] = (arr(getattr(b, p)), kw[nm])
        out["type"] = jnp.asarray(type(b) is type(a))
        return out

    for d in DISTS:
        ob("duplicate-%s" % d.name, functools.partial(dup, d), K + d.ins, thorough=d.name in ("poisson-large", "chi2"))

    def link(d, **kw):
        """deviates built on the same parent share one state; reset re-links"""
        r = jg.BaseDeviate(kw["key"])
        a = d.make(r, kw)
        u = jg.UniformDeviate(a)
        g = jg.GaussianDeviate(r)
        vals = [arr(a()), arr(u()), arr(g()), arr(a())]
        k = kw["key"]
        want = []
        for f in (lambda s: d.law(s, kw), lambda s: jax.random.uniform(s, dtype=float), lambda s: jax.random.normal(s, dtype=float), lambda s: d.law(s, kw)):
            k, s = split(k)
            want.append(arr(f(s)))
        out = {"v": (jnp.stack(vals), jnp.stack(want)), "k": keq(r._key, k) & keq(a._key, k) & keq(u._key, k) & keq(g._key, k)}
        r.discard(2)
        out["d"] = keq(a._key, advance(k, 2)) & keq(u._key, advance(k, 2))
        o = jg.UniformDeviate(kw["other"])
        a.reset(o)
        a()
        out["reset"] = keq(o._key, advance(kw["other"], 1)) & keq(a._key, o._key) & keq(u._key, advance(k, 2))
        a.reset(kw["key"])
        out["resetkey"] = keq(a._key, kw["key"]) & keq(o._key, advance(kw["other"], 1))
        a.reset(o._state)
        o()
        out["resetstate"] = keq(a._key, advance(kw["other"], 2))
        return out

    for d in DISTS:
        ob("link-%s" % d.name, functools.partial(link, d), K + [Key("other")] + d.ins, thorough=d.name not in ("uniform", "gaussian", "poisson", "gamma"))

    def tree(d, **kw):
        """flattening, jit and restoring continue the sequence"""
        a = d.make(jg.BaseDeviate(kw["key"]), kw)
        a()
        l, td = jax.tree_util.tree_flatten(a)
        b = jax.tree_util.tree_unflatten(td, l)
        k1 = advance(kw["key"], 1)
        out = {"key": keq(b._key, k1), "type": jnp.asarray(type(b) is type(a))}

        @jax.jit
        def f(x):
            v = x()
            return x, v

        c, v = f(a)
        w = b()
        out["jit"] = (arr(v), arr(w))
        out["jitkey"] = keq(c._key, b._key)
        out["orig"] = keq(a._key, k1)
        a.reset(c)
        out["back"] = keq(a._key, advance(kw["key"], 2))
        for p, nm in d.props.items():
            out["p-" + p] = (arr(getattr(c, p)), kw[nm])
        return out

    for d in DISTS:
        if d.name.startswith("binomial"):
            continue  # its count is a leaf: it cannot be drawn from inside jit
        ob("tree-%s" % d.name, functools.partial(tree, d), K + d.ins, thorough=d.name in ("poisson-large", "chi2"))

    def ser(**kw):
        """the two words of the state restore it"""
        a = jg.UniformDeviate(jg.BaseDeviate(kw["key"]))
        a()
        w = kd(a._key)
        b = jg.UniformDeviate((w[0], w[1]))
        out = {"key": keq(a._key, b._key)}
        out["next"] = (a(), b())
        return out

    ob("serialize", ser, K)

    def serstr(u):
        out = {}
        with jax.ensure_compile_time_eval():
            for s in (1, 5, 2**31 - 1, 123456789012):
                a = jg.UniformDeviate(s)
                a()
                b = jg.UniformDeviate(a.serialize())
                c = eval(repr(a), {"galsim": jg})
                out["s%d" % s] = jnp.asarray(bool(a == b) and bool(a == c) and float(a()) == float(b()))
                d = jg.BaseDeviate(s)
                e = jg.BaseDeviate(s + 1)
                e.seed(s)
                out["seed%d" % s] = jnp.asarray(bool(d == e) and bool(d == jg.BaseDeviate(np.int64(s))))
        return out

    ob("serialize-text", serstr, [F("u", 0, 1)])

    def seeds(**kw):
        # reseeding through the shared state reseeds every linked deviate
        a = jg.UniformDeviate(jg.BaseDeviate(kw["key"]))
        b = jg.GaussianDeviate(a)
        a.seed(77)
        c = jg.BaseDeviate(77)
        return {"k": keq(a._key, c._key) & keq(b._key, c._key)}

    ob("seed", seeds, K)

    # ---- free histories
    def hist(d, n, **kw):
        r = jg.BaseDeviate(kw["key"])
        a = d.make(r, kw)
        ops = kw["ops"]
        cnt = jnp.asarray(0)
        key = kw["key"]

        def walk(key, op, m):
            x = d.make(jg.BaseDeviate(key), kw)

            def o_draw(key):
                x = d.make(jg.BaseDeviate(key), kw)
                x()
                return x._key

            def o_fill(key):
                x = d.make(jg.BaseDeviate(key), kw)
                x.generate(jnp.zeros((1, 2)))
                return x._key

            def o_disc(key):
                x = d.make(jg.BaseDeviate(key), kw)
                x.discard(m)
                return x._key

            def o_raw(key):
                x = d.make(jg.BaseDeviate(key), kw)
                x.raw()
                return x._key

            def o_dup(key):
                x = d.make(jg.BaseDeviate(key), kw)
                y = x.duplicate()
                y(), y.discard(2)
                return x._key

            def o_link(key):
                p = jg.BaseDeviate(key)
                x = d.make(p, kw)
                jg.GaussianDeviate(x)()
                return p._key

            return jax.lax.switch(op, [o_draw, o_fill, o_disc, o_raw, o_dup, o_link], key), jnp.asarray([1, 2, 0, 1, 0, 1])[op] + jnp.where(op == 2, m, 0)

        for i in range(n):
            key, c = walk(key, ops[i], kw["cnt"][i])
            cnt = cnt + c
        b = d.make(jg.BaseDeviate(kw["key"]), kw)
        b.discard(cnt)
        return keq(b._key, key)

    for d in DISTS[:3]:
        ob("history2-%s" % d.name, functools.partial(hist, d, 2), K + [I("ops", 0, 5, shape=(2,)), I("cnt", 0, 2, shape=(2,))] + d.ins)
    ob("history3", functools.partial(hist, DISTS[0], 3), K + [I("ops", 0, 5, shape=(3,)), I("cnt", 0, 2, shape=(3,))], thorough=True)

    # ---- permute: one order for all the arrays, generator advanced once
    def perm(**kw):
        r = jg.UniformDeviate(jg.BaseDeviate(kw["key"]))
        a, b = jg.random.permute(r, kw["a"], kw["b"])
        out = {"sum": (jnp.sum(a), jnp.sum(kw["a"])), "sq": (jnp.sum(a**2), jnp.sum(kw["a"] ** 2)), "tied": (jnp.sum(a * b), jnp.sum(kw["a"] * kw["b"])), "cube": (jnp.sum(a**3), jnp.sum(kw["a"] ** 3))}
        out["key"] = keq(r._key, advance(kw["key"], 1))
        return out

    ob("permute", perm, K + [F("a", -3, 3, shape=(3,)), F("b", -3, 3, shape=(3,))])

    def eq(d, **kw):
        a, b = d.make(jg.BaseDeviate(kw["key"]), kw), d.make(jg.BaseDeviate(kw["key"]), kw)
        e1 = bool(a == b)
        b()
        e2 = bool(a == b)
        # after one draw they are equal only if the key repeats
        rep = bool(keq(advance(kw["key"], 1), kw["key"]))
        return jnp.asarray(e1 and (e2 == rep))

    ob("equality", functools.partial(eq, DISTS[0]), K, fork=True)
    return obs
