from vlib.common import *

FUNCTIONS = ["Shear.__init__ (g1/g2, e1/e2, eta1/eta2, g|e|eta|q with beta, complex)", "Shear.{g1,g2,g,beta,e1,e2,e,esq,eta1,eta2,eta,q,shear}",
             "Shear.__neg__/__add__/__sub__", "Shear.getMatrix", "Shear.rotationWith", "_Shear"]
ASSUMPTIONS = [
    "shear magnitudes bounded: |g| <= 0.95, |e| <= 0.99, |eta| <= 4, q in [1/20,1]",
]


def rng_g(m):
    def a(**k):
        v = list(k.values())
        return jnp.stack([v[i] ** 2 + v[i + 1] ** 2 <= m * m for i in range(0, len(v), 2)])

    return a


def big(lo, hi):
    return lambda a, b: jnp.stack([a**2 + b**2 > lo * lo, a**2 + b**2 < hi * hi])


def obligations(tier):
    obs = []

    def ctor_g(a, b):
        s = jg.Shear(g1=a, g2=b)
        c = jg._Shear(a + 1j * b)
        g = jnp.sqrt(a**2 + b**2)
        return {"g1": (s.g1, a), "g2": (s.g2, b), "g": (s.g, g), "shear": (s.shear, a + 1j * b), "_Shear": (c.shear, s.shear),
                "e1": (s.e1, 2 * a / (1 + a**2 + b**2)), "e2": (s.e2, 2 * b / (1 + a**2 + b**2)), "e": (s.e, 2 * g / (1 + g * g)),
                "esq": (s.esq, (2 * g / (1 + g * g)) ** 2), "q": (s.q, (1 - g) / (1 + g)),
                "beta": (g * jnp.cos(2 * s.beta.rad), a), "beta_s": (g * jnp.sin(2 * s.beta.rad), b),
                "range": (s.beta.rad <= PI / 2 + 1e-9) & (s.beta.rad >= -PI / 2 - 1e-9)}

    obs.append(Ob("g1g2", ctor_g, [F("a", -0.95, 0.95), F("b", -0.95, 0.95)], assume=rng_g(0.95)))
    obs.append(Ob("g1only", lambda a: {"g1": (jg.Shear(g1=a).shear, a + 0j), "g2": (jg.Shear(g2=a).shear, 1j * a),
                                        "e1": (jg.Shear(e1=a).e2, 0.0 * a), "e2": (jg.Shear(e2=a).g1, 0.0 * a), "eta1": (jg.Shear(eta1=a).g2, 0.0 * a),
                                        "eta2": (jg.Shear(eta2=a).g1, 0.0 * a)}, [F("a", -0.95, 0.95)]))

    def ctor_e(a, b):
        s = jg.Shear(e1=a, e2=b)
        return {"e1": (s.e1, a), "e2": (s.e2, b), "esq": (s.esq, a**2 + b**2), "dir": (s.g1 * b, s.g2 * a)}

    obs.append(Ob("e1e2", ctor_e, [F("a", -0.99, 0.99), F("b", -0.99, 0.99)], assume=big(0.0101, 0.99)))

    def ctor_e_small(e, th):
        a, b = e * jnp.cos(th), e * jnp.sin(th)
        s = jg.Shear(e1=a, e2=b)
        f = 1 / (1 + jnp.sqrt(1 - e * e))
        return {"g1": (s.g1, a * f), "g2": (s.g2, b * f)}

    obs.append(Ob("e1e2-small", ctor_e_small, [F("e", 0.0, 0.0099), F("th", -3.2, 3.2)], tol=1e-10))

    def ctor_eta(a, b):
        s = jg.Shear(eta1=a, eta2=b)
        et = jnp.sqrt(a**2 + b**2)
        return {"g": (s.g1, a * jnp.tanh(et / 2) / et), "g2": (s.g2, b * jnp.tanh(et / 2) / et)}

    obs.append(Ob("eta1eta2", ctor_eta, [F("a", -4, 4), F("b", -4, 4)], assume=big(1.01e-4, 4)))

    def prop_eta(a, b):
        s = jg.Shear(g1=a, g2=b)
        g = jnp.sqrt(a**2 + b**2)
        return {"eta1": (s.eta1, a * 2 * jnp.arctanh(g) / g), "eta2": (s.eta2, b * 2 * jnp.arctanh(g) / g), "eta": (s.eta, 2 * jnp.arctanh(g))}

    obs.append(Ob("eta-of-g", prop_eta, [F("a", -0.95, 0.95), F("b", -0.95, 0.95)], assume=big(1.01e-4, 0.95)))

    # Taylor branches near zero: the scale factors agree with the exact ones
    def tiny(e, th):
        a, b = e * jnp.cos(th), e * jnp.sin(th)
        s = jg.Shear(eta1=a, eta2=b)
        r = jg.Shear(g1=a, g2=b)
        return {"g1": (s.g1, 0.5 * a), "g2": (s.g2, 0.5 * b), "eta1": (r.eta1, 2 * a), "eta2": (r.eta2, 2 * b), "eta": (r.eta, 2 * e)}

    obs.append(Ob("tiny-eta", tiny, [F("e", 0.0, 0.99e-4), F("th", -3.2, 3.2)], tol=2e-12, atol=3e-12, rtol=1e-12))

    def polar(g, th):
        b = th * jg.radians
        s = jg.Shear(g=g, beta=b)
        z = g * jnp.exp(2j * th)
        out = {"g": (s.shear, z)}
        return out

    obs.append(Ob("g-beta", polar, [F("g", 0, 0.95), F("th", -7, 7)]))

    def polar_e(e, th):
        s = jg.Shear(e=e, beta=th * jg.radians)
        return {"e1": (s.e1, e * jnp.cos(2 * th)), "e2": (s.e2, e * jnp.sin(2 * th))}

    obs.append(Ob("e-beta", polar_e, [F("e", 0.0101, 0.99), F("th", -7, 7)]))
    obs.append(Ob("e-beta-small", lambda e, th: {"g": (jg.Shear(e=e, beta=th * jg.radians).shear, e / (1 + jnp.sqrt(1 - e * e)) * jnp.exp(2j * th))},
                  [F("e", 0, 0.0099), F("th", -7, 7)], tol=1e-10))

    def polar_eta(n, th):
        s = jg.Shear(eta=n, beta=th * jg.radians)
        return {"g": (s.shear, jnp.tanh(n / 2) * jnp.exp(2j * th))}

    obs.append(Ob("eta-beta", polar_eta, [F("n", 1.01e-4, 4), F("th", -7, 7)]))

    def polar_q(q, th):
        s = jg.Shear(q=q, beta=th * jg.radians)
        return {"g": (s.shear, (1 - q) / (1 + q) * jnp.exp(2j * th)), "q": (s.q, q)}

    obs.append(Ob("q-beta", polar_q, [F("q", 0.05, 0.9998), F("th", -7, 7)]))

    def mat(a, b):
        s = jg.Shear(g1=a, g2=b)
        m = s.getMatrix()
        f = 1 / jnp.sqrt(1 - a * a - b * b)
        im = (-s).getMatrix()
        return {"m": (m, f * jnp.array([[1 + a, b], [b, 1 - a]])), "det": (m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0], 1.0),
                "inv": (jnp.array([[m[0, 0] * im[0, 0] + m[0, 1] * im[1, 0], m[0, 0] * im[0, 1] + m[0, 1] * im[1, 1]],
                                    [m[1, 0] * im[0, 0] + m[1, 1] * im[1, 0], m[1, 0] * im[0, 1] + m[1, 1] * im[1, 1]]]), jnp.eye(2)),
                "neg": ((-s).shear, -(a + 1j * b)), "zero+": ((s + jg.Shear()).shear, a + 1j * b), "+zero": ((jg.Shear() + s).shear, a + 1j * b),
                "self-": ((s - s).shear, 0j * a), "(-s)+s": (((-s) + s).shear, 0j * a)}

    obs.append(Ob("matrix", mat, [F("a", -0.95, 0.95), F("b", -0.95, 0.95)], assume=rng_g(0.95)))

    def compose(a, b, c, d):
        s, u = jg.Shear(g1=a, g2=b), jg.Shear(g1=c, g2=d)
        w = s + u
        z1, z2 = a + 1j * b, c + 1j * d
        x = s - u
        return {"+": (w.shear * (1 + jnp.conj(z1) * z2), z1 + z2), "-": (x.shear * (1 - jnp.conj(z1) * z2), z1 - z2),
                "back": (((-s) + w).shear, z2), "g<1": ((1 - w.g1**2 - w.g2**2) * ((1 + a * c + b * d) ** 2 + (a * d - b * c) ** 2), (1 - a * a - b * b) * (1 - c * c - d * d))}

    obs.append(Ob("compose", compose, [F(n, -0.9, 0.9) for n in "abcd"], assume=rng_g(0.9)))

    def matprod(a, b, c, d):
        # S(a) S(b) = S(a+b) R  with R a pure rotation, stated without dividing: S(-(a+b)) S(a) S(b) is orthogonal
        s, u = jg.Shear(g1=a, g2=b), jg.Shear(g1=c, g2=d)
        w = s + u
        n1, n2 = jnp.sqrt(1 - a**2 - b**2), jnp.sqrt(1 - c**2 - d**2)
        m1 = s.getMatrix() * n1
        m2 = u.getMatrix() * n2
        p = jnp.array([[m1[0, 0] * m2[0, 0] + m1[0, 1] * m2[1, 0], m1[0, 0] * m2[0, 1] + m1[0, 1] * m2[1, 1]],
                       [m1[1, 0] * m2[0, 0] + m1[1, 1] * m2[1, 0], m1[1, 0] * m2[0, 1] + m1[1, 1] * m2[1, 1]]])
        # (S1 S2)(S1 S2)^T = S3 S3^T ; S3^2 has entries [1+g^2+2g1, 2g2; ..]/(1-g^2)
        q = jnp.array([p[0, 0] ** 2 + p[0, 1] ** 2, p[0, 0] * p[1, 0] + p[0, 1] * p[1, 1], p[1, 0] ** 2 + p[1, 1] ** 2])
        g = w.g1**2 + w.g2**2
        r = jnp.array([1 + g + 2 * w.g1, 2 * w.g2, 1 + g - 2 * w.g1])
        return {"SST": (q * (1 - g), r * (1 - a**2 - b**2) * (1 - c**2 - d**2))}

    obs.append(Ob("matrix-product", matprod, [F(n, -0.9, 0.9) for n in "abcd"], assume=rng_g(0.9)))

    def rotw(a, b, c, d):
        s, u = jg.Shear(g1=a, g2=b), jg.Shear(g1=c, g2=d)
        th = s.rotationWith(u).rad
        z = 1 + (a + 1j * b) * (c - 1j * d)
        # rotation angle is the phase of 1 + g1 conj(g2): the cross product vanishes everywhere, and the sign is fixed at the
        # concrete validation points (the domain is connected and the phase never jumps)
        return {"cross": (jnp.cos(th) * z.imag - jnp.sin(th) * z.real, 0.0)}

    def rotw0(a, b):
        th = jg.Shear(g1=a, g2=b).rotationWith(jg.Shear(g1=a, g2=b)).rad
        return {"cos": (jnp.cos(th), 1.0)}

    obs.append(Ob("rotationWith-self", rotw0, [F(n, -0.6, 0.6) for n in "ab"], assume=rng_g(0.6)))

    obs.append(Ob("rotationWith", rotw, [F(n, -0.6, 0.6) for n in "abcd"], assume=rng_g(0.6), timeout=60, thorough=True))
    obs.append(Ob("rotationWith-axes", lambda a, d: rotw(a, 0.0, 0.0, d), [F(n, -0.6, 0.6) for n in "ad"]))
    obs.append(Ob("rotationWith-general-1", lambda a, d: rotw(a, 0.25, 0.5, d), [F(n, -0.6, 0.6) for n in "ad"]))
    return obs
