from vlib.sky import *

FUNCTIONS = ["CelestialCoord.__init__/_get_aux/get_xyz/from_xyz/radec_to_xyz/xyz_to_radec/normal", "CelestialCoord.project/project_rad/deproject/deproject_rad", "CelestialCoord.distanceTo/angleBetween/area/greatCirclePoint",
             "CelestialCoord.galactic/from_galactic/ecliptic/from_ecliptic/precess"]
ASSUMPTIONS = [
    "right ascension in [-4,4] rad, declination in [-1.5,1.5] rad (quick); tangent points within the hemisphere of validity of each projection",
    "gnomonic: angular distance with cosine >= 0.05; stereographic, Lambert: cosine >= -0.9; Postel: 0.05 <= c <= 3",
]


def obligations(tier):
    obs = []
    full = tier == "thorough"

    def ob(name, f, names, extra=(), assume=None, fixed=None, **kw):
        """quick: the angles in `fixed` are given numbers; thorough: everything symbolic as well"""
        fixed = fixed or {}
        g = functools.partial(f, **fixed)
        obs.append(Ob(name, g, ang(*[n for n in names if n not in fixed]) + list(extra), assume=assume and functools.partial(assume, **fixed), validate=2, **kw))
        if fixed and full:
            obs.append(Ob(name + "-full", f, ang(*names) + list(extra), assume=assume, validate=2, timeout=300, **kw))


    def xyz(ra, dec, s):
        c = coo(ra, dec)
        n = c.normal()
        p = jg.CelestialCoord.radec_to_xyz(ra, dec, s)
        return {"xyz": (jnp.stack(c.get_xyz()), vec(ra, dec)), "static": (jnp.stack(p), s * vec(ra, dec)), "rad": (jnp.stack(c.rad), jnp.stack([ra, dec])),
                "normal": (jnp.stack(n.get_xyz()), vec(ra, dec)), "range": (n.ra.rad >= -1e-9) & (n.ra.rad <= 2 * PI + 1e-9),
                "copy": (jnp.stack(jg.CelestialCoord(c).rad), jnp.stack([ra, dec]))}

    obs.append(Ob("xyz", xyz, ang("ra", "dec") + [F("s", 0.1, 10)]))

    def back(x, y, z):
        c = jg.CelestialCoord.from_xyz(x, y, z)
        ra, dec, r = jg.CelestialCoord.xyz_to_radec(x, y, z, return_r=True)
        n = jnp.sqrt(x * x + y * y + z * z)
        v = jnp.stack([x, y, z])
        return {"v": (jnp.stack(c.get_xyz()) * n, v), "r": (r, n), "v2": (vec(ra, dec) * n, v), "decrange": jnp.abs(c.dec.rad) <= PI / 2 + 1e-9, "rarange": (c.ra.rad >= -1e-9) & (c.ra.rad <= 2 * PI + 1e-9)}

    obs.append(Ob("from-xyz", back, [F(n, -3, 3) for n in "xyz"], assume=lambda x, y, z: x * x + y * y >= 0.01))

    # the four auxiliary numbers (cos/sin of ra, dec) left free: what the maps do with them is polynomial.  That get_xyz and the
    # auxiliary numbers are those of ra and dec is the obligation "xyz" above.
    def dist(**k):
        a, b = vecs(k, 2)
        th, ht = a.distanceTo(b).rad, b.distanceTo(a).rad
        d = dsq(*pts(k, 2))
        return {"cos": (jnp.cos(th), 1 - d / 2), "sym": (th, ht), "sin": jnp.sin(th) >= -1e-9}

    obs.append(Ob("distance", dist, auxs(2), assume=lambda **k: dsq(*pts(k, 2)) <= 3.98, validate=2))

    def dist2(ra, dec, rb, db):
        a, b = coo(ra, dec), coo(rb, db)
        return {"cos": (jnp.cos(a.distanceTo(b).rad), cosc(ra, dec, rb, db)), "sym": (a.distanceTo(b).rad, b.distanceTo(a).rad)}

    for nm, fx in (("a", dict(dec=0.4, db=-1.1)), ("b", dict(rb=0.0, db=0.0))):
        ob("distance-angles-" + nm, dist2, ("ra", "dec", "rb", "db"), fixed=fx)

    def far(**k):
        a, b = vecs(k, 2)
        A, B = pts(k, 2)
        th, ht = a.distanceTo(b).rad, b.distanceTo(a).rad
        x = cross(A, B)
        return {"sin": (jnp.sin(th) ** 2, dot(x, x)), "sym": (th, ht), "obtuse": jnp.cos(th) <= 1e-9, "sin>0": jnp.sin(th) >= -1e-9}

    obs.append(Ob("distance-far", far, auxs(2), assume=lambda **k: jnp.stack([dsq(*pts(k, 2)) >= 3.992, dot(cross(*pts(k, 2)), cross(*pts(k, 2))) <= 0.9, dot(cross(*pts(k, 2)), cross(*pts(k, 2))) >= 1e-6]), thorough=True, validate=0))

    def self_(ra, dec):
        a = coo(ra, dec)
        return {"zero": (a.distanceTo(coo(ra, dec)).rad, 0.0)}

    obs.append(Ob("distance-self", self_, ang("ra", "dec")))


    # projections
    for pj in PROJ + [None]:
        def radial(k, pj=pj):
            return {"gnomonic": lambda: 1 / k, None: lambda: 1 / k, "stereographic": lambda: 2 / (1 + k), "lambert": lambda: jnp.sqrt(2 / (1 + k)),
                    "postel": lambda: jnp.arccos(k) / jnp.sqrt(1 - k * k)}[pj]()

        def tang(k):
            eu, ev = frame_aux(k, 0)
            A, B = pts(k, 2)
            return dot(A, B), dot(B, eu), dot(B, ev)

        def proj(pj=pj, radial=radial, **k):
            a, b = vecs(k, 2)
            c, x, y = tang(k)
            u, v = a.project(b, projection=pj)
            f = radial(c)
            return {"uv": (jnp.stack([u.rad, v.rad]), jnp.stack([f * x, f * y]))}

        lim = {"gnomonic": 0.05, None: 0.05, "stereographic": -0.9, "lambert": -0.9, "postel": -0.98}[pj]
        hi = 0.9987 if pj == "postel" else 2.0
        obs.append(Ob("project-%s" % pj, proj, auxs(2), assume=lambda lim=lim, hi=hi, **k: jnp.stack([tang(k)[0] >= lim, tang(k)[0] <= hi]), validate=2))

        def proj_rad(r0, d0, r1, d1, pj=pj, radial=radial):
            c = coo(r0, d0)
            u, v = c.project_rad(r1, d1, projection=pj)
            k = cosc(r0, d0, r1, d1)
            eu, ev = frame(r0, d0)
            f = radial(k)
            x = vec(r1, d1)
            return {"uv": (jnp.stack([u, v]), jnp.stack([f * dot(x, eu), f * dot(x, ev)]))}

        obs.append(Ob("project-rad-%s" % pj, proj_rad, ang("r0", "d0", "r1", "d1"), validate=2, thorough=pj == "postel",
                      assume=lambda r0, d0, r1, d1, lim=lim, hi=hi: jnp.stack([cosc(r0, d0, r1, d1) >= lim, cosc(r0, d0, r1, d1) <= hi])))

        def point_(r0, d0, u, v, pj=pj):
            return point(pj, jnp.sin(d0), jnp.cos(d0), u, v)

        def deproj(r0, d0, u, v, pj=pj, point=point_):
            c = coo(r0, d0)
            q = c.deproject(u * jg.radians, v * jg.radians, projection=pj)
            ra, dec = c.deproject_rad(u, v, projection=pj)
            w = point(r0, d0, u, v)
            h = jnp.sqrt(w[0] ** 2 + w[1] ** 2)
            return {"sindec": (jnp.sin(dec), w[2]), "cosdec": jnp.cos(dec) >= -1e-9, "ra": (jnp.stack([jnp.cos(ra - r0) * h, jnp.sin(ra - r0) * h]), w[:2]),
                    "same": (jnp.stack([q.ra.rad, q.dec.rad]), jnp.stack([ra, dec]))}

        m = {"lambert": 1.3, "postel": 2.0}.get(pj, 4.0)
        uv = [F("u", -m, m), F("v", -m, m)]

        def off(r0, d0, u, v, point=point_):
            w = point(r0, d0, u, v)
            return jnp.stack([w[0] ** 2 + w[1] ** 2 >= 1e-4, 1 - w[2] ** 2 >= 1e-4, u * u + v * v >= 1e-4])

        hard = pj in ("stereographic", "postel")
        obs.append(Ob("deproject-%s" % pj, deproj, ang("r0", "d0") + uv, validate=2, guards=False, thorough=hard, assume=off))
        if hard:
            for j in (0, 1):
                cd_, sd = V[j]["cd"], V[j]["sd"]

                def dep(u, v, pj=pj, cd_=cd_, sd=sd):
                    c = Aux(1.0, 0.0, cd_, sd)
                    ra, dec = c.deproject_rad(u, v, projection=pj)
                    cc, ss = law(pj, u, v)
                    a, b, z = cc * cd_ - ss * v * sd, -ss * u, cc * sd + ss * v * cd_
                    x, y = a, b
                    h = jnp.sqrt(x * x + y * y)
                    return {"sindec": (jnp.sin(dec), z), "ra": (jnp.stack([jnp.cos(ra) * h, jnp.sin(ra) * h]), jnp.stack([x, y]))}

                if pj == "postel":
                    obs.append(Ob("deproject-postel-polar%d" % j, lambda R, ph, dep=dep: dep(R * jnp.cos(ph), R * jnp.sin(ph)), [F("R", 0.05, 2.0), F("ph", -4, 4)], validate=2, guards=False,
                                  assume=lambda R, ph, cd_=cd_, sd=sd: (jnp.cos(R) * cd_ - jnp.sin(R) * jnp.sin(ph) * sd) ** 2 + (jnp.sin(R) * jnp.cos(ph)) ** 2 >= 1e-4))
                obs.append(Ob("deproject-%s-at%d" % (pj, j), dep, uv, validate=2, guards=False, thorough=pj == "postel", assume=lambda u, v: u * u + v * v >= 1e-4))

        def round_(r0, d0, u, v, pj=pj):
            c = coo(r0, d0)
            ra, dec = c.deproject_rad(u, v, projection=pj)
            u2, v2 = c.project_rad(ra, dec, projection=pj)
            return {"uv": (jnp.stack([u2, v2]), jnp.stack([u, v]))}

        obs.append(Ob("roundtrip-%s" % pj, round_, ang("r0", "d0") + uv, validate=2, guards=False, thorough=pj not in ("gnomonic", None), assume=lambda r0, d0, u, v, point=point_: jnp.stack([point(r0, d0, u, v)[0] ** 2 + point(r0, d0, u, v)[1] ** 2 >= 1e-4, 1 - point(r0, d0, u, v)[2] ** 2 >= 1e-4, u * u + v * v >= 1e-4])))

    # spherical trigonometry; A.B is written 1 - |A-B|^2/2, which needs no normalisation
    def cd(A, B):
        return 1 - dsq(A, B) / 2

    def trip(k):
        C_, A, B = pts(k, 3)
        return dot(cross(A, C_), B)


    def fx(i, j):
        return {n + str(i): v for n, v in V[j].items()}

    for sign, at in ((1, 0), (-1, 1), (1, 2)):
        fixed = fx(at, 0)
        free = [q for q in auxs(3) if q.name not in fixed]

        def between(fixed=fixed, **k):
            k = dict(k, **fixed)
            c, a, b = vecs(k, 3)
            C_, A, B = pts(k, 3)
            th = c.angleBetween(a, b).rad
            t1, t2 = trip(k), cd(A, B) - cd(A, C_) * cd(B, C_)
            h = jnp.sqrt(t1 * t1 + t2 * t2)
            return {"cos": (jnp.cos(th) * h, t2), "sin": (jnp.sin(th) * h, t1)}

        def hsq(k):
            C_, A, B = pts(k, 3)
            return trip(k) ** 2 + (cd(A, B) - cd(A, C_) * cd(B, C_)) ** 2

        obs.append(Ob("angle%d" % at, between, free, assume=lambda sign=sign, fixed=fixed, **k: jnp.stack([sign * trip(dict(k, **fixed)) >= 0.01, hsq(dict(k, **fixed)) >= 1e-4]), validate=2))

        def den(k):
            C_, A, B = pts(k, 3)
            return 1 + cd(A, B) + cd(B, C_) + cd(A, C_)

        def area(sign=sign, fixed=fixed, **k):
            k = dict(k, **fixed)
            c, a, b = vecs(k, 3)
            return {"E": (c.area(a, b), 2 * jnp.arctan(sign * trip(k) / den(k)))}

        obs.append(Ob("area%d" % at, area, free, validate=2, assume=lambda sign=sign, fixed=fixed, **k: jnp.stack([sign * trip(dict(k, **fixed)) >= 0.01, den(dict(k, **fixed)) >= 0.05])))

    def great(th, **k):
        a, b = vecs(k, 2)
        p = a.greatCirclePoint(b, th * jg.radians)
        A, B = pts(k, 2)
        w = B - A * cd(A, B)
        w = w / jnp.sqrt(dot(w, w))
        r = A * jnp.cos(th) + w * jnp.sin(th)
        n = jnp.sqrt(dot(r, r))
        h = jnp.sqrt(r[0] ** 2 + r[1] ** 2)
        return {"ra": (jnp.stack([jnp.cos(p.ra.rad) * h, jnp.sin(p.ra.rad) * h]), r[:2]), "dec": (jnp.stack([jnp.cos(p.dec.rad) * n, jnp.sin(p.dec.rad) * n]), jnp.stack([h, r[2]]))}

    obs.append(Ob("great-circle", great, [F("th", -3, 3)] + auxs(2), guards=False, validate=2, thorough=True))

    def great2(ra, th, rb):
        # along the equator and along a meridian
        p = coo(ra, 0.0).greatCirclePoint(coo(rb, 0.0), th * jg.radians)
        d = jnp.sign(jnp.sin(rb - ra))
        return {"eq": (vec(p.ra.rad, p.dec.rad), vec(ra + d * th, 0.0))}

    obs.append(Ob("great-equator", great2, [F("ra", -1, 1), F("th", -1.5, 1.5), F("rb", 1.1, 2)], guards=False, thorough=True, validate=2))

    def great3(ra, d1, d2, th):
        p = coo(ra, d1).greatCirclePoint(coo(ra, d2), th * jg.radians)
        return {"mer": (jnp.stack(p.get_xyz()), vec(ra, d1 + th))}

    obs.append(Ob("great-meridian", great3, [F("ra", -1, 1), F("d1", -1, 0), F("d2", 0.01, 1), F("th", 0.01, 0.5)], guards=False, thorough=True, validate=2))

    # changes of coordinate frame are rotations
    def gal(ra, dec):
        el, b = coo(ra, dec).galactic()
        r0, d0, l0 = 282.859481208 * PI / 180, 62.8717488056 * PI / 180, 32.93191857 * PI / 180
        x, y, z = vec(ra - r0, dec)
        g = jnp.stack([x, y * np.cos(d0) + z * np.sin(d0), z * np.cos(d0) - y * np.sin(d0)])
        return {"g": (vec(el.rad - l0, b.rad), g), "range": (el.rad >= -1e-9) & (el.rad <= 2 * PI + 1e-9)}

    def offgal(ra, dec):
        d0, r0 = 62.8717488056 * PI / 180, 282.859481208 * PI / 180
        x, y, z = vec(ra - r0, dec)
        return jnp.stack([1 - (z * np.cos(d0) - y * np.sin(d0)) ** 2 >= 1e-4, x * x + (y * np.cos(d0) + z * np.sin(d0)) ** 2 >= 1e-4])

    obs.append(Ob("galactic", gal, ang("ra", "dec"), assume=offgal, validate=2))

    def ungal(ra, dec):
        c = jg.CelestialCoord.from_galactic(ra * jg.radians, dec * jg.radians)
        r0, d0, l0 = 282.859481208 * PI / 180, 62.8717488056 * PI / 180, 32.93191857 * PI / 180
        x, y, z = vec(ra - l0, dec)
        g = jnp.stack([x, y * np.cos(d0) - z * np.sin(d0), z * np.cos(d0) + y * np.sin(d0)])
        return {"g": (vec(c.ra.rad - r0, c.dec.rad), g)}

    def offpole(ra, dec):
        d0, l0 = 62.8717488056 * PI / 180, 32.93191857 * PI / 180
        x, y, z = vec(ra - l0, dec)
        return x * x + (y * np.cos(d0) - z * np.sin(d0)) ** 2 >= 1e-4

    obs.append(Ob("from-galactic", ungal, ang("ra", "dec"), assume=offpole, validate=2))

    ep = (23 + 26 / 60 + 21.406 / 3600) * PI / 180

    def ecl(ra, dec):
        lam, beta = coo(ra, dec).ecliptic()
        x, y, z = vec(ra, dec)
        return {"e": (vec(lam.rad, beta.rad), jnp.stack([x, y * np.cos(ep) + z * np.sin(ep), z * np.cos(ep) - y * np.sin(ep)]))}

    def unecl(ra, dec):
        back = jg.CelestialCoord.from_ecliptic(ra * jg.radians, dec * jg.radians)
        x, y, z = vec(ra, dec)
        return {"b": (jnp.stack(back.get_xyz()), jnp.stack([x, y * np.cos(ep) - z * np.sin(ep), z * np.cos(ep) + y * np.sin(ep)]))}

    for sg, f, nm in ((1, ecl, "ecliptic"), (-1, unecl, "from-ecliptic")):
        obs.append(Ob(nm, f, ang("ra", "dec"), validate=2, assume=lambda ra, dec, sg=sg: vec(ra, dec)[0] ** 2 + (vec(ra, dec)[1] * np.cos(ep) + sg * vec(ra, dec)[2] * np.sin(ep)) ** 2 >= 1e-4))

    import galsim

    for e1, e2 in ((2000.0, 1950.0), (1991.25, 2030.0)):
        M = np.array([galsim.CelestialCoord(r * galsim.radians, d * galsim.radians).precess(e1, e2).get_xyz() for r, d in ((0, 0), (PI / 2, 0), (0, PI / 2))]).T

        def prec(ra, dec, e1=e1, e2=e2, M=M):
            p = coo(ra, dec).precess(e1, e2)
            x = vec(ra, dec)
            return {"rot": (vec(p.ra.rad, p.dec.rad), jnp.stack([dot(M[i], x) for i in range(3)]))}

        off_pole = lambda ra, dec, M=M: dot(M[0], vec(ra, dec)) ** 2 + dot(M[1], vec(ra, dec)) ** 2 >= 1e-4
        ob("precess-%g-%g-dec0" % (e1, e2), prec, ("ra", "dec"), fixed=dict(dec=0.0), guards=False, assume=off_pole)
        ob("precess-%g-%g-ra0" % (e1, e2), prec, ("ra", "dec"), fixed=dict(ra=0.0), guards=False, assume=off_pole)

    def noprec(ra, dec, e1):
        return {"same": (jnp.stack(coo(ra, dec).precess(e1, e1).get_xyz()), vec(ra, dec))}

    obs.append(Ob("precess-none", noprec, ang("ra", "dec") + [F("e1", 1900, 2100)], validate=2))
    return obs
