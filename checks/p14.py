from vlib.sky import *

FUNCTIONS = ["CelestialCoord.jac_deproject/jac_deproject_rad/_jac_deproject", "CelestialCoord.deproject_rad/_deproject (differentiated)"]
ASSUMPTIONS = [
    "declination of the tangent point in [-1.5,1.5] rad; deprojected points at least 0.01 rad off the poles",
    "|u|,|v| <= 4 (gnomonic, stereographic), 1.3 (Lambert), 2 (Postel); the centre of the tangent plane is a separate obligation",
]


def obligations(tier):
    obs = []

    def deriv(pj, s0, c0, u, v):
        """rows (-cos dec d ra, d dec) by (u, v), from the derivative of the point on the sphere"""
        w = point(pj, s0, c0, u, v)
        J = jnp.stack(jax.jacfwd(lambda a, b: point(pj, s0, c0, a, b), (0, 1))(u, v), axis=1)
        h = jnp.sqrt(w[0] ** 2 + w[1] ** 2)
        return jnp.stack([-(w[0] * J[1] - w[1] * J[0]), J[2]]), h

    def wellposed(u, v, s0, c0, pj):
        w = point(pj, s0, c0, u, v)
        r = [u * u + v * v >= 1e-4] if pj == "postel" else []
        return jnp.stack([w[0] ** 2 + w[1] ** 2 >= 1e-4, 1 - w[2] ** 2 >= 1e-4] + r)

    for pj in PROJ + [None]:
        m = {"lambert": 1.3, "postel": 2.0}.get(pj, 4.0)
        uv = [F("u", -m, m), F("v", -m, m)]

        def jac(ra, dec, u, v, pj=pj):
            c = coo(ra, dec)
            j = c.jac_deproject_rad(u, v, projection=pj)
            k = c.jac_deproject(u * jg.radians, v * jg.radians, projection=pj)
            d, h = deriv(pj, jnp.sin(dec), jnp.cos(dec), u, v)
            return {"jac": (j * h, d), "same": (j, k)}

        def jac_ad(ra, dec, u, v, pj=pj):
            c = coo(ra, dec)
            j = c.jac_deproject_rad(u, v, projection=pj)
            f = lambda a, b: jnp.stack(c.deproject_rad(a, b, projection=pj))
            J = jnp.stack(jax.jacfwd(f, (0, 1))(u, v), axis=1)
            d, h = deriv(pj, jnp.sin(dec), jnp.cos(dec), u, v)
            cd = jnp.cos(f(u, v)[1])
            return {"ra": (-J[0] * cd, j[0]), "dec": (J[1], j[1])}

        as_ = lambda ra, dec, u, v, pj=pj: wellposed(u, v, jnp.sin(dec), jnp.cos(dec), pj)
        obs.append(Ob("jac-%s" % pj, jac, ang("ra", "dec") + uv, assume=as_, guards=False, validate=2, thorough=pj == "postel"))
        obs.append(Ob("jac-ad-%s" % pj, jac_ad, ang("ra", "dec") + uv, assume=as_, guards=False, validate=2, thorough=pj in ("stereographic", "postel")))
        for j in (0, 1):
            q = [V[j][n] for n in ("cr", "sr", "cd", "sd")]

            def at(u, v, pj=pj, q=q):
                c = Aux(*q)
                j = c.jac_deproject_rad(u, v, projection=pj)
                d, h = deriv(pj, q[3], q[2], u, v)
                return {"jac": (j * h, d)}

            if pj == "postel":
                polar = lambda R, ph, at=at: at(R * jnp.cos(ph), R * jnp.sin(ph))
                obs.append(Ob("jac-postel-polar%d" % j, polar, [F("R", 0.05, 2.0), F("ph", -4, 4)], guards=False, validate=2,
                              assume=lambda R, ph, q=q: wellposed(R * jnp.cos(ph), R * jnp.sin(ph), q[3], q[2], "postel")[:2]))
            obs.append(Ob("jac-%s-at%d" % (pj, j), at, uv, thorough=pj == "postel", guards=False, validate=2, assume=lambda u, v, q=q, pj=pj: wellposed(u, v, q[3], q[2], pj)))

        def centre(ra, dec, pj=pj):
            j = coo(ra, dec).jac_deproject_rad(0.0, 0.0, projection=pj)
            c = jnp.cos(dec)
            q = jnp.sqrt(1 - jnp.sin(dec) ** 2)  # = c
            return {"I": (jnp.stack([j[0, 0] * c, j[0, 1], j[1, 0], j[1, 1] * q]), jnp.stack([q, 0 * q, 0 * q, c]))}

        obs.append(Ob("centre-%s" % pj, centre, ang("ra", "dec"), guards=False, validate=2))
    return obs
