from vlib.common import *

FUNCTIONS = ["Image.transpose", "Image.flip_lr", "Image.flip_ud", "Image.rot_cw", "Image.rot_ccw", "Image.rot_180", "_Image"]
ASSUMPTIONS = [
    "shapes 1x1, 1x3, 2x3, 3x2, 3x4, 3x3; origins traced in [-50,50] and static; float, complex and integer pixels",
]


def arr(*x):
    return jnp.array([jnp.asarray(v) for v in x])


def bnd(b):
    return arr(b.xmin, b.xmax, b.ymin, b.ymax)


def want(op, v):
    ny, nx = v.shape
    if op == "transpose":
        return jnp.array([[v[c, r] for c in range(ny)] for r in range(nx)])
    if op == "flip_lr":
        return jnp.array([[v[r, nx - 1 - c] for c in range(nx)] for r in range(ny)])
    if op == "flip_ud":
        return jnp.array([[v[ny - 1 - r, c] for c in range(nx)] for r in range(ny)])
    if op == "rot_180":
        return jnp.array([[v[ny - 1 - r, nx - 1 - c] for c in range(nx)] for r in range(ny)])
    if op == "rot_cw":  # (x, y) -> (y, -x): the right-most column becomes the bottom row
        return jnp.array([[v[c, nx - 1 - r] for c in range(ny)] for r in range(nx)])
    if op == "rot_ccw":  # the left-most column becomes the bottom row, order reversed
        return jnp.array([[v[ny - 1 - c, r] for c in range(ny)] for r in range(nx)])


def obligations(tier):
    obs = []
    for ny, nx in ((1, 1), (1, 3), (2, 3), (3, 2), (3, 4), (3, 3)):
        for kind in ("traced", "static"):
            def f(v, x0, y0, ny=ny, nx=nx, kind=kind):
                if kind == "static":
                    x0, y0 = -2, 7
                im = jg.Image(v, bounds=jg.BoundsI(xmin=x0, deltax=nx, ymin=y0, deltay=ny), scale=0.4)
                out = {}
                for op in ("transpose", "flip_lr", "flip_ud", "rot_180", "rot_cw", "rot_ccw"):
                    r = getattr(im, op)()
                    out[op] = (r.array, want(op, v))
                    sw = op in ("transpose", "rot_cw", "rot_ccw")
                    out[op + ".b"] = (bnd(r.bounds), arr(y0, y0 + ny - 1, x0, x0 + nx - 1) if sw else arr(x0, x0 + nx - 1, y0, y0 + ny - 1))
                    out[op + ".wcs"] = jnp.asarray((r.wcs is None) and (r.dtype == im.dtype) and (not r.isconst))
                    inv = {"rot_cw": "rot_ccw", "rot_ccw": "rot_cw"}.get(op, op)
                    q = getattr(r, inv)()
                    out[op + ".inv"] = (q.array, v)
                    out[op + ".invb"] = (bnd(q.bounds), bnd(im.bounds))
                    l, td = jax.tree_util.tree_flatten(r)
                    out[op + ".tree"] = (jax.tree_util.tree_unflatten(td, l).array, r.array)
                out["orig"] = (im.array, v)
                out["cw2"] = (im.rot_cw().rot_cw().array, im.rot_180().array)
                out["cw4"] = (im.rot_cw().rot_cw().rot_cw().rot_cw().array, v)
                out["lr_ud"] = (im.flip_lr().flip_ud().array, im.rot_180().array)
                out["T_ud"] = (im.transpose().flip_ud().array, im.rot_cw().array)
                return out

            obs.append(Ob("f%dx%d-%s" % (ny, nx, kind), f, [F("v", -100, 100, (ny, nx)), I("x0", -50, 50), I("y0", -50, 50)], validate=2))

    def other(z, k):
        out = {}
        for nm, v in (("c", z), ("i", k)):
            im = jg.Image(v, dtype=jnp.complex128 if nm == "c" else jnp.int32)
            for op in ("transpose", "flip_lr", "flip_ud", "rot_180", "rot_cw", "rot_ccw"):
                out[nm + op] = (getattr(im, op)().array, want(op, im.array))
                out[nm + op + "t"] = jnp.asarray(getattr(im, op)().dtype == im.dtype)
        return out

    obs.append(Ob("dtypes", other, [Cx("z", (2, 3), -9, 9), I("k", -99, 99, (3, 2))]))
    return obs
