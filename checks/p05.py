from vlib.common import *

FUNCTIONS = ["Image.wrap", "Image._wrap", "wrap_nonhermitian", "_block_reduce_loop", "_block_reduce_index", "wrap_hermitian_x", "wrap_hermitian_y",
             "expand_hermitian_x/y", "contract_hermitian_x/y"]
ASSUMPTIONS = [
    "images up to 8x8 (real) and 9x5 (hermitian); every listed combination of image shape, box shape and box position",
]


def bnd(b):
    return jnp.array([b.xmin, b.xmax, b.ymin, b.ymax])


def obligations(tier):
    obs = []
    cases = [((4, 6), (2, 3), 1, 2), ((5, 4), (2, 2), 0, 1), ((3, 5), (3, 2), 3, 0), ((4, 4), (4, 4), 0, 0), ((5, 7), (3, 4), 2, 2), ((6, 3), (1, 3), 0, 5),
             ((8, 7), (1, 1), 3, 4), ((6, 12), (1, 1), 0, 0), ((8, 14), (2, 1), 5, 1), ((11, 10), (2, 1), 4, 3), ((2, 134), (1, 2), 0, 0), ((134, 2), (2, 1), 1, 60)]
    if tier == "thorough":
        cases += [((ny, nx), (by, bx), ox, oy) for ny in (3, 4) for nx in (3, 5) for by in (1, 2, 3) for bx in (1, 2, 3)
                  for ox in range(0, nx - bx + 1, 2) for oy in range(0, ny - by + 1)]
    for (ny, nx), (by, bx), ox, oy in cases:
        for kind in ("static", "traced"):
            if kind == "traced" and ny * nx > 60:
                continue

            def f(v, x0, y0, ny=ny, nx=nx, by=by, bx=bx, ox=ox, oy=oy, kind=kind):
                if kind == "static":
                    x0, y0 = -3, 2
                im = jg.Image(v, xmin=x0, ymin=y0)
                b = jg.BoundsI(xmin=x0 + ox, deltax=bx, ymin=y0 + oy, deltay=by)
                r = im.wrap(b)
                want = [[0.0] * bx for _ in range(by)]
                for j in range(ny):
                    for i in range(nx):
                        want[(j - oy) % by][(i - ox) % bx] += v[j, i]
                want = jnp.array(want)
                J, K = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
                out_ = ~((J >= oy) & (J < oy + by) & (K >= ox) & (K < ox + bx))
                return {"r": (r.array, want), "b": (bnd(r.bounds), bnd(b)), "total": (r.array.sum(), v.sum()),
                        "in": (im[b].array, want), "rest": (im.array[out_], v[out_]), "ib": (bnd(im.bounds), jnp.array([x0, x0 + nx - 1, y0, y0 + ny - 1]))}

            obs.append(Ob("wrap-%dx%d-%dx%d@%d,%d-%s" % (ny, nx, by, bx, ox, oy, kind), f, [F("v", -9, 9, (ny, nx)), I("x0", -50, 50), I("y0", -50, 50)], validate=2))

    # symbolic box position
    for (ny, nx), (by, bx) in (((3, 4), (2, 2)), ((4, 3), (3, 1))):
        def g(v, ox, oy, ny=ny, nx=nx, by=by, bx=bx):
            im = jg.Image(v, xmin=2, ymin=-1)
            b = jg.BoundsI(xmin=2 + ox, deltax=bx, ymin=-1 + oy, deltay=by)
            r = im.wrap(b)
            J, K = jnp.meshgrid(jnp.arange(ny), jnp.arange(nx), indexing="ij")
            want = jnp.array([[jnp.sum(jnp.where(((J - oy - jj) % by == 0) & ((K - ox - kk) % bx == 0), v, 0.0)) for kk in range(bx)] for jj in range(by)])
            return {"r": (r.array, want)}

        obs.append(Ob("wrap-sym-%dx%d-%dx%d" % (ny, nx, by, bx), g, [F("v", -9, 9, (ny, nx)), I("ox", 0, nx - bx), I("oy", 0, ny - by)]))

    # hermitian
    hc = [(3, 2, 2, (-1, 2)), (2, 3, 2, (-2, 2)), (4, 3, 2, (-1, 1)), (3, 1, 1, (-1, 0)), (4, 4, 3, (-2, 1)), (3, 3, 3, (-3, 3))]
    for N, M, bx, (l, h) in hc:
        for mode in ("x", "y"):
            def f(z, N=N, M=M, bx=bx, l=l, h=h, mode=mode):
                # z[v + M, u]: the value at (u, v), u = 0..N along the hermitian axis
                if mode == "x":
                    im = jg.Image(z, xmin=0, ymin=-M)
                    b = jg.BoundsI(0, bx, l, h)
                else:
                    im = jg.Image(z.T, xmin=-M, ymin=0)
                    b = jg.BoundsI(l, h, 0, bx)
                r = im.wrap(b, hermitian=mode)
                per = h - l + 1
                acc = {}
                for u in range(-N, N + 1):
                    for v in range(-M, M + 1):
                        val = z[v + M, u] if u >= 0 else jnp.conj(z[-v + M, -u])
                        k = (u % (2 * bx), (v - l) % per)
                        acc[k] = acc.get(k, 0) + val
                want = jnp.array([[acc.get((u % (2 * bx), (v - l) % per), 0j) for u in range(bx + 1)] for v in range(l, h + 1)])
                got = r.array if mode == "x" else r.array.T
                return {"r": (got, want), "b": (bnd(r.bounds), bnd(b))}

            obs.append(Ob("herm-%s-%d,%d-%d,%d:%d" % (mode, N, M, bx, l, h), f, [Cx("z", (2 * M + 1, N + 1), -9, 9)],
                          validate=2))

    def refuse(z):
        n = 0
        for x0, y0, b, m in ((1, 0, jg.BoundsI(1, 2, 0, 1), "x"), (0, 0, jg.BoundsI(1, 2, 0, 1), "x"), (0, 1, jg.BoundsI(0, 1, 1, 2), "y"), (0, 0, jg.BoundsI(0, 1, 1, 2), "y")):
            try:
                jg.Image(z, xmin=x0, ymin=y0).wrap(b, hermitian=m)
            except jg.GalSimIncompatibleValuesError:
                n += 1
        try:
            jg.Image(z).wrap(jg.BoundsI(1, 2, 1, 2), hermitian="z")
        except jg.GalSimValueError:
            n += 1
        return {"n": jnp.asarray(n == 5)}

    obs.append(Ob("refusals", refuse, [Cx("z", (3, 3), -9, 9)]))
    return obs
