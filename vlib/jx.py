"""jaxpr -> symbolic terms.

`run(fn, args)` traces the *real* function with jax.make_jaxpr and interprets the
resulting intermediate representation over symbolic terms.  Sub-computations whose
inputs are all concrete are executed by jax itself.
"""
import itertools
import math
from fractions import Fraction as Fr

import jax
import jax.numpy as jnp
import numpy as np

from . import term as t
from .term import B, C, T, Unsupported

OBJ = np.dtype(object)


class NeedConcrete(Unsupported):
    pass


class CX:
    """complex number re + i im"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return "(%r + i %r)" % (self.re, self.im)


STATS = {"eqns": 0, "calls": 0, "prims": {}}
FRAMES = {}
SIDE = []  # error_if side conditions: B that must be False
OPTS = {"unroll": 12, "known_select": True, "max_branch": 64, "unwind": []}


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == OBJ


def mkobj(shape):
    return np.empty(shape, dtype=object)


_F2T = {}


def conc_to_obj(x, aval=None):
    """concrete array -> object array of terms"""
    if is_sym(x):
        return x
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        kd = np.asarray(jax.random.key_data(x))
        out = mkobj(x.shape)
        for ix in np.ndindex(*x.shape):
            out[ix] = t.fn("keyc", *[C(int(v)) for v in kd[ix]])
        return out
    a = np.asarray(x)
    out = mkobj(a.shape)
    flat = out.reshape(-1) if a.shape else None
    kd = a.dtype.kind
    if kd == "b":
        conv = t.blit
    elif kd in "iu":
        conv = lambda v: C(Fr(int(v)), "I")
    elif kd == "f" or a.dtype.name == "bfloat16":
        a = a.astype(np.float64) if a.dtype.itemsize > 4 else a

        def conv(v):
            v = float(v)
            r = _F2T.get(v)
            if r is None:
                r = C(t.read_float(v), "R") if math.isfinite(v) else t.special(v)
                if math.isfinite(v):
                    _F2T[v] = r
            return r
    elif kd == "c":
        conv = lambda v: CX(cf(v.real), cf(v.imag))
    else:
        raise Unsupported("dtype %s" % a.dtype)
    if not a.shape:
        out[()] = conv(a[()])
        return out
    src = a.reshape(-1)
    flat = np.empty(src.shape, dtype=object)
    for i in range(src.shape[0]):
        flat[i] = conv(src[i])
    return flat.reshape(a.shape)


def cf(v):
    v = float(v)
    return C(t.read_float(v), "R") if math.isfinite(v) else t.special(v)


def obj(x):
    return x if is_sym(x) else conc_to_obj(x)


def exact_float(fr):
    try:
        f = float(fr)
    except OverflowError:
        return None
    return f if math.isfinite(f) and t.read_float(f) == fr else None


def simplify_out(x, dtype):
    """object array with only exactly representable constants -> concrete"""
    if not is_sym(x):
        return x
    if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key):
        return x
    kind = np.dtype(dtype).kind
    flat = x.reshape(-1)
    if kind == "b":
        for v in flat:
            if v is not t.TRUE and v is not t.FALSE:
                return x
        return np.array([v is t.TRUE for v in flat], dtype=bool).reshape(x.shape)
    if kind in "iu":
        for v in flat:
            if not v.isconst():
                return x
        return np.array([int(v.const()) for v in flat], dtype=dtype).reshape(x.shape)
    if kind == "f":
        vals = []
        for v in flat:
            if not v.isconst():
                return x
            f = exact_float(v.const())
            if f is None:
                return x
            vals.append(f)
        a = np.array(vals, dtype=dtype).reshape(x.shape)
        if np.dtype(dtype).itemsize < 8 and not np.array_equal(a.astype(float), np.array(vals).reshape(x.shape)):
            return x
        return a
    if kind == "c":
        vals = []
        for v in flat:
            if not (v.re.isconst() and v.im.isconst()):
                return x
            a, b = exact_float(v.re.const()), exact_float(v.im.const())
            if a is None or b is None:
                return x
            vals.append(complex(a, b))
        return np.array(vals, dtype=dtype).reshape(x.shape)
    return x


# ------------------------------------------------------------------ scalar ops (T / CX / B aware)
def s_add(a, b):
    if isinstance(a, CX):
        return CX(t.add(a.re, b.re), t.add(a.im, b.im))
    if isinstance(a, B):
        return t.bor(a, b)
    return t.add(a, b)


def s_sub(a, b):
    if isinstance(a, CX):
        return CX(t.sub(a.re, b.re), t.sub(a.im, b.im))
    return t.sub(a, b)


def s_mul(a, b):
    if isinstance(a, CX):
        return CX(
            t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)), t.add(t.mul(a.re, b.im), t.mul(a.im, b.re))
        )
    if isinstance(a, B):
        return t.band(a, b)
    if (not a.m and is_special(b)) or (not b.m and is_special(a)):
        return t.special(float("nan"))  # zero times infinity or nan
    return t.mul(a, b)


def is_special(x):
    if len(x.m) != 1:
        return False
    (mono,) = x.m
    return any(t.ATOMS[i].kind in ("inf", "nan") for i, e in mono)


def s_div_f(a, b):
    if isinstance(a, CX):
        if not b.im.m:
            return CX(t.div(a.re, b.re), t.div(a.im, b.re))
        d = t.add(t.mul(b.re, b.re), t.mul(b.im, b.im))
        n = s_mul(a, CX(b.re, t.neg(b.im)))
        return CX(t.div(n.re, d), t.div(n.im, d))
    return t.div(a, b)


def s_neg(a):
    return CX(t.neg(a.re), t.neg(a.im)) if isinstance(a, CX) else t.neg(a)


def s_ite(c, a, b):
    if c is t.TRUE:
        return a
    if c is t.FALSE:
        return b
    if isinstance(a, CX):
        return CX(t.ite(c, a.re, b.re), t.ite(c, a.im, b.im))
    if isinstance(a, B):
        return t.bite(c, a, b)
    return t.ite(c, a, b)


def s_eq(a, b):
    if isinstance(a, CX):
        return t.band(t.beq(a.re, b.re), t.beq(a.im, b.im))
    if isinstance(a, B):
        return t.bnot(t.bxor(a, b))
    if a == b:
        return t.TRUE
    return t.beq(a, b)


def s_ne(a, b):
    return t.bnot(s_eq(a, b))


def s_lt(a, b):
    if isinstance(a, B):
        return t.band(t.bnot(a), b)
    return t.lt(a, b)


def s_le(a, b):
    if isinstance(a, B):
        return t.bor(t.bnot(a), b)
    return t.le(a, b)


def s_exp(a):
    if isinstance(a, CX):
        c, s = t.cossin(a.im)
        e = t.exp(a.re)
        return CX(t.mul(e, c), t.mul(e, s))
    return t.exp(a)


def s_abs(a):
    if isinstance(a, CX):
        return t.sqrt(t.add(t.mul(a.re, a.re), t.mul(a.im, a.im)))
    return t.absT(a)


def s_sqrt(a):
    if isinstance(a, CX):
        raise Unsupported("complex sqrt")
    return t.sqrt(a)


def ew(f):
    def g(*xs):
        xs = [obj(x) for x in xs]
        shp = np.broadcast_shapes(*[x.shape for x in xs])
        xs = [np.broadcast_to(x, shp) for x in xs]
        out = mkobj(shp)
        if shp == ():
            out[()] = f(*[x[()] for x in xs])
            return out
        of = out.reshape(-1)
        fl = [x.reshape(-1) for x in xs]
        for i in range(of.shape[0]):
            of[i] = f(*[x[i] for x in fl])
        return of.reshape(shp)

    return g


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def simple(name, f):
    RULES[name] = lambda eqn, *xs: ew(f)(*xs)


simple("add", s_add)
simple("add_any", s_add)
simple("sub", s_sub)
simple("mul", s_mul)
simple("neg", s_neg)
simple("max", lambda a, b: t.bor(a, b) if isinstance(a, B) else t.tmax(a, b))
simple("min", lambda a, b: t.band(a, b) if isinstance(a, B) else t.tmin(a, b))
simple("eq", s_eq)
simple("ne", s_ne)
simple("lt", s_lt)
simple("le", s_le)
simple("lt_to", s_lt)  # total order: agrees with < on the (finite, unsigned-zero) values of the encoding
simple("le_to", s_le)
simple("gt", lambda a, b: s_lt(b, a))
simple("ge", lambda a, b: s_le(b, a))
simple("exp", s_exp)
simple("exp2", lambda a: t.exp(t.mul(a, C(Fr(math.log(2.0)), "R"))))
simple("log", lambda a: t.log(a))
simple("log1p", lambda a: t.log(t.add(C(1), a)))
simple("expm1", lambda a: t.sub(s_exp(a), C(1)))
simple("sqrt", s_sqrt)
simple("rsqrt", lambda a: t.inv(t.sqrt(a)))
simple("cbrt", lambda a: t.tpow(a, C(Fr(1, 3))))
simple("abs", s_abs)
simple("sin", lambda a: t.sin(a))
simple("cos", lambda a: t.cos(a))
simple("tan", lambda a: t.tan(a))
simple("sign", lambda a: t.sgn(a))
simple("floor", lambda a: T(t.floor(a).m, "I"))
simple("ceil", lambda a: T(t.ceil(a).m, "I"))
simple("square", lambda a: s_mul(a, a))
simple("is_finite", lambda a: t.blit(not _has_special(a)))
simple("real", lambda a: a.re)
simple("imag", lambda a: a.im)
simple("conj", lambda a: CX(a.re, t.neg(a.im)) if isinstance(a, CX) else CX(a, C(0)))
simple("complex", lambda a, b: CX(a, b))
simple("atan2", lambda a, b: t.atan2(a, b))
simple("atan", lambda a: t.atan2(a, C(1)))
simple("asin", lambda a: t.atan2(a, t.sqrt(t.sub(C(1), t.mul(a, a)))))
simple("acos", lambda a: t.atan2(t.sqrt(t.sub(C(1), t.mul(a, a))), a))
simple("sinh", lambda a: t.scale(t.sub(t.exp(a), t.exp(t.neg(a))), Fr(1, 2)))
simple("cosh", lambda a: t.scale(t.add(t.exp(a), t.exp(t.neg(a))), Fr(1, 2)))
simple("atanh", lambda a: t.scale(t.log(t.div(t.add(C(1), a), t.sub(C(1), a))), Fr(1, 2)))
simple("asinh", lambda a: t.log(t.add(a, t.sqrt(t.add(t.mul(a, a), C(1))))))
simple("acosh", lambda a: t.log(t.add(a, t.sqrt(t.sub(t.mul(a, a), C(1))))))
simple("stop_gradient", lambda a: a)
simple("optimization_barrier", lambda a: a)
simple("nextafter", lambda a, b: a)


def s_tanh(a):
    e = t.exp(t.scale(a, Fr(2)))
    return t.div(t.sub(e, C(1)), t.add(e, C(1)))


simple("tanh", s_tanh)
simple("logistic", lambda a: t.inv(t.add(C(1), t.exp(t.neg(a)))))


def _has_special(a):
    if isinstance(a, CX):
        return _has_special(a.re) or _has_special(a.im)
    for k in a.m:
        for aid, _ in k:
            if t.ATOMS[aid].kind in ("nan", "inf"):
                return True
    return False


def _unary_fn(name, lo=-t.INF, hi=t.INF, odd=None):
    def f(a):
        if a.isconst():
            return cf(t.NUM_FN[name](float(a.const())))
        r = t.with_ite(f, a)
        if r is not None:
            return r
        if odd is not None:
            k = max(a.m, key=t._order_key)
            if a.m[k] < 0:
                r = t.fn(name, t.neg(a), lo=lo, hi=hi)
                return t.neg(r) if odd else r
        return t.fn(name, a, lo=lo, hi=hi)

    return f


simple("lgamma", _unary_fn("lgamma"))
simple("digamma", _unary_fn("digamma"))
simple("erf", _unary_fn("erf", -1, 1, odd=True))
simple("erfc", lambda a: t.sub(C(1), _unary_fn("erf", -1, 1, odd=True)(a)))
simple("erf_inv", _unary_fn("erf_inv", odd=True))
simple("bessel_i0e", _unary_fn("i0e"))
simple("bessel_i1e", _unary_fn("i1e"))


def _np1(f):
    def g(*xs):
        return float(f(*[jnp.float64(x) for x in xs]))

    return g


t.NUM_FN.update(
    lgamma=_np1(jax.lax.lgamma),
    digamma=_np1(jax.lax.digamma),
    erf=_np1(jax.lax.erf),
    erf_inv=_np1(jax.lax.erf_inv),
    i0e=_np1(jax.lax.bessel_i0e),
    i1e=_np1(jax.lax.bessel_i1e),
)


@rule("conv_general_dilated")
def _conv1d(eqn, a, b):
    p = eqn.params
    dn = p["dimension_numbers"]
    a, b = obj(a), obj(b)
    if a.ndim != 3 or a.shape[:2] != (1, 1) or b.shape[:2] != (1, 1) or p["feature_group_count"] != 1 or p["batch_group_count"] != 1:
        raise Unsupported("convolution other than one-dimensional, one channel")
    if dn.lhs_spec != (0, 1, 2) or dn.rhs_spec != (0, 1, 2) or dn.out_spec != (0, 1, 2) or any(tuple(p[k]) != (1,) for k in ("lhs_dilation", "rhs_dilation", "window_strides")):
        raise Unsupported("dilated or strided convolution")
    (lo, hi), n, m = p["padding"][0], a.shape[2], b.shape[2]
    out = mkobj((1, 1, n + lo + hi - m + 1))
    zero = C(Fr(0), "I" if eqn.outvars[0].aval.dtype.kind in "iu" else "R")
    for i in range(out.shape[2]):
        acc = zero
        for j in range(m):
            q = i + j - lo
            if 0 <= q < n:
                acc = s_add(acc, s_mul(a[0, 0, q], b[0, 0, j]))
        out[0, 0, i] = acc
    return out


@rule("div")
def r_div(eqn, a, b):
    if np.dtype(eqn.outvars[0].aval.dtype).kind in "iu":
        return ew(t.idiv_trunc)(a, b)
    return ew(s_div_f)(a, b)


@rule("rem")
def r_rem(eqn, a, b):
    return ew(t.rem_trunc)(a, b)


@rule("pow")
def r_pow(eqn, a, b):
    def f(x, y):
        if isinstance(x, CX):
            raise Unsupported("complex pow")
        return t.tpow(x, y)

    return ew(f)(a, b)


@rule("integer_pow")
def r_ipow(eqn, a):
    n = eqn.params["y"]

    def f(x):
        if isinstance(x, CX):
            if n < 0:
                raise Unsupported("complex neg pow")
            r = CX(C(1), C(0))
            for _ in range(n):
                r = s_mul(r, x)
            return r
        return t.ipow(x, n) if n >= 0 else t.inv(t.ipow(x, -n))

    return ew(f)(a)


@rule("round")
def r_round(eqn, a):
    m = eqn.params["rounding_method"]
    f = t.rint if int(m) == 1 else t.round_away
    return ew(f)(a)


@rule("clamp")
def r_clamp(eqn, lo, x, hi):
    return ew(lambda l, v, h: t.tmin(t.tmax(v, l), h))(lo, x, hi)


@rule("and")
def r_and(eqn, a, b):
    def f(x, y):
        if isinstance(x, B):
            return t.band(x, y)
        return int_bitop("and", x, y, eqn)

    return ew(f)(a, b)


@rule("or")
def r_or(eqn, a, b):
    def f(x, y):
        if isinstance(x, B):
            return t.bor(x, y)
        return int_bitop("or", x, y, eqn)

    return ew(f)(a, b)


@rule("xor")
def r_xor(eqn, a, b):
    def f(x, y):
        if isinstance(x, B):
            return t.bxor(x, y)
        return int_bitop("xor", x, y, eqn)

    return ew(f)(a, b)


@rule("not")
def r_not(eqn, a):
    def f(x):
        if isinstance(x, B):
            return t.bnot(x)
        if np.dtype(eqn.outvars[0].aval.dtype).kind == "i":
            return t.sub(C(-1), x)
        bits = np.dtype(eqn.outvars[0].aval.dtype).itemsize * 8
        return t.sub(C(2**bits - 1), x)

    return ew(f)(a)


def int_bitop(op, x, y, eqn):
    if x.isconst() and y.isconst():
        a, b = int(x.const()), int(y.const())
        return C({"and": a & b, "or": a | b, "xor": a ^ b}[op])
    # booleans stored as 0/1 ints
    if op == "and":
        for u, v in ((x, y), (y, x)):
            if u.isconst():
                c = int(u.const())
                if c == 0:
                    return C(0)
                if c > 0 and (c & (c + 1)) == 0:
                    # v mod (c+1)
                    q = t.floor(T(t.scale(v, Fr(1, c + 1)).m, "R"))
                    return t.sub(v, t.scale(q, Fr(c + 1)))
                if c < 0 and ((-c) & (-c - 1)) == 0:
                    q = t.floor(T(t.scale(v, Fr(1, -c)).m, "R"))
                    return t.scale(q, Fr(-c))
    return t.fn("bit" + op, x, y, sort="I")


for _n, _f in (("bitand", lambda a, b: int(a) & int(b)), ("bitor", lambda a, b: int(a) | int(b)), ("bitxor", lambda a, b: int(a) ^ int(b))):
    t.NUM_FN[_n] = _f


@rule("shift_left")
def r_shl(eqn, a, b):
    def f(x, y):
        if y.isconst():
            return t.scale(x, Fr(2) ** int(y.const()))
        raise Unsupported("symbolic shift")

    return ew(f)(a, b)


@rule("shift_right_arithmetic", "shift_right_logical")
def r_shr(eqn, a, b):
    def f(x, y):
        if y.isconst():
            return t.floor(T(t.scale(x, Fr(1, 2 ** int(y.const()))).m, "R"))
        raise Unsupported("symbolic shift")

    return ew(f)(a, b)


@rule("convert_element_type")
def r_cet(eqn, a):
    src = eqn.invars[0].aval.dtype
    dst = np.dtype(eqn.params["new_dtype"])

    def f(x):
        if isinstance(x, B):
            if dst.kind == "b":
                return x
            r = t.b2t(x)
            if dst.kind == "c":
                return CX(r, C(0))
            return r
        if isinstance(x, CX):
            if dst.kind == "c":
                return x
            x = x.re
        if dst.kind == "b":
            return t.bne(x, C(0))
        if dst.kind == "c":
            return CX(x, C(0))
        if dst.kind in "iu":
            if np.dtype(src).kind in "iub":
                return x
            return T(t.trunc(x).m, "I")
        if dst.kind == "f":
            return x
        raise Unsupported("convert to %s" % dst)

    return ew(f)(a)


@rule("reduce_precision")
def r_rp(eqn, a):
    return a


@rule("copy", "copy_p", "sharding_constraint", "pvary")
def r_copy(eqn, a):
    return a


@rule("select_n")
def r_sel(eqn, which, *cases):
    wd = eqn.invars[0].aval.dtype
    if not is_sym(which):
        w = np.asarray(which)
        cs = [obj(c) for c in cases]
        shp = cs[0].shape
        w = np.broadcast_to(w.astype(int), shp)
        out = mkobj(shp)
        for ix in np.ndindex(*shp):
            out[ix] = cs[w[ix]][ix]
        return out
    cs = [obj(c) for c in cases]
    shp = cs[0].shape
    w = np.broadcast_to(which, shp)
    out = mkobj(shp)
    for ix in np.ndindex(*shp):
        x = w[ix]
        if isinstance(x, B):
            out[ix] = s_ite(x, cs[1][ix], cs[0][ix]) if len(cs) == 2 else cs[0][ix]
        else:
            r = cs[-1][ix]
            for j in range(len(cs) - 2, -1, -1):
                r = s_ite(t.le(x, C(j)), cs[j][ix], r)
            out[ix] = r
    return out


# ------------------------------------------------------------------ data movement through index arrays
def via_index(eqn, *xs, ndata=1):
    """apply a pure data-movement primitive to index arrays"""
    data = [obj(x) for x in xs[:ndata]]
    off = 0
    idxs = []
    pool = []
    for d in data:
        idxs.append((np.arange(d.size, dtype=np.int64) + off).reshape(d.shape))
        off += d.size
        pool.append(d.reshape(-1))
    pool = np.concatenate(pool) if pool else mkobj((0,))
    out = eqn.primitive.bind(*[jnp.asarray(i) for i in idxs], *xs[ndata:], **_bindp(eqn))
    return take(pool, out)


def take(pool, idx):
    idx = np.asarray(idx)
    if idx.shape == ():
        o = mkobj(())
        o[()] = pool[int(idx)]
        return o
    return pool[idx]


def _bindp(eqn):
    return dict(eqn.params)


for _n in ("reshape", "transpose", "squeeze", "expand_dims", "slice", "rev", "split"):
    pass


@rule("reshape")
def r_reshape(eqn, a):
    return obj(a).reshape(eqn.params["new_sizes"])


@rule("transpose")
def r_transpose(eqn, a):
    return np.transpose(obj(a), eqn.params["permutation"])


@rule("squeeze")
def r_squeeze(eqn, a):
    return obj(a).reshape(eqn.outvars[0].aval.shape)


@rule("expand_dims")
def r_expand(eqn, a):
    return obj(a).reshape(eqn.outvars[0].aval.shape)


@rule("slice")
def r_slice(eqn, a):
    p = eqn.params
    st = p["strides"] or (1,) * len(p["start_indices"])
    return obj(a)[tuple(slice(s, l, k) for s, l, k in zip(p["start_indices"], p["limit_indices"], st))]


@rule("rev")
def r_rev(eqn, a):
    return np.flip(obj(a), eqn.params["dimensions"])


@rule("broadcast_in_dim")
def r_bid(eqn, a, *dyn):
    a = obj(a)
    shp = eqn.params["shape"]
    bd = eqn.params["broadcast_dimensions"]
    s2 = [1] * len(shp)
    for i, d in enumerate(bd):
        s2[d] = a.shape[i]
    return np.broadcast_to(a.reshape(s2), shp)


@rule("concatenate")
def r_concat(eqn, *xs):
    return np.concatenate([obj(x) for x in xs], axis=eqn.params["dimension"])


@rule("split")
def r_split(eqn, a):
    a = obj(a)
    ax = eqn.params["axis"]
    pts = np.cumsum(eqn.params["sizes"])[:-1]
    return list(np.split(a, pts, axis=ax))


@rule("pad")
def r_pad(eqn, a, pv):
    a = obj(a)
    pv = obj(pv)
    idx = np.arange(a.size, dtype=np.int64).reshape(a.shape)
    out = np.asarray(jax.lax.pad(jnp.asarray(idx), jnp.int64(-1), eqn.params["padding_config"]))
    pool = np.empty(a.size + 1, dtype=object)
    pool[:-1] = a.reshape(-1)
    pool[-1] = pv[()]
    return take(pool, np.where(out < 0, a.size, out))


@rule("iota")
def r_iota(eqn):
    raise Unsupported("iota dyn")


# ------------------------------------------------------------------ reductions
def reduce_rule(name, op, unit=None):
    @rule(name)
    def f(eqn, a):
        a = obj(a)
        axes = tuple(eqn.params["axes"])
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes))
        shp = tuple(a.shape[i] for i in keep)
        b = b.reshape(shp + (-1,))
        out = mkobj(shp)
        for ix in np.ndindex(*shp):
            out[ix] = op(list(b[ix]), eqn)
        return out


def _rsum(l, eqn):
    if not l:
        return C(0)
    if isinstance(l[0], CX):
        return CX(t.addn([x.re for x in l]), t.addn([x.im for x in l]))
    return t.addn(l)


def _fold(f):
    def g(l, eqn):
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r

    return g


def _rprod(l, eqn):
    r = l[0] if l else C(1)
    for x in l[1:]:
        r = s_mul(r, x)
    return r


reduce_rule("reduce_sum", _rsum)
reduce_rule("reduce_prod", _rprod)
reduce_rule("reduce_max", _fold(lambda a, b: t.bor(a, b) if isinstance(a, B) else t.tmax(a, b)))
reduce_rule("reduce_min", _fold(lambda a, b: t.band(a, b) if isinstance(a, B) else t.tmin(a, b)))
reduce_rule("reduce_and", lambda l, e: t.band(*l) if l else t.TRUE)
reduce_rule("reduce_or", lambda l, e: t.bor(*l) if l else t.FALSE)


def _argred(better):
    def g(l, eqn):
        l = [t.ite(x, C(1), C(0)) if isinstance(x, B) else x for x in l]
        bi, bv = C(0), l[0]
        for i, x in enumerate(l[1:], 1):
            c = better(x, bv)
            bi = t.ite(c, C(i), bi)
            bv = t.ite(c, x, bv)
        return bi

    return g


reduce_rule("argmax", _argred(lambda x, b: t.lt(b, x)))
reduce_rule("argmin", _argred(lambda x, b: t.lt(x, b)))


def cum_rule(name, op):
    @rule(name)
    def f(eqn, a):
        a = obj(a)
        ax = eqn.params["axis"]
        rev = eqn.params["reverse"]
        b = np.moveaxis(a, ax, 0)
        if rev:
            b = b[::-1]
        out = mkobj(b.shape)
        for i in range(b.shape[0]):
            if i == 0:
                out[0] = b[0]
            else:
                out[i : i + 1] = ew(op)(out[i - 1 : i], b[i : i + 1])
        if rev:
            out = out[::-1]
        return np.moveaxis(out, 0, ax)


cum_rule("cumsum", s_add)
cum_rule("cumprod", s_mul)
cum_rule("cummax", t.tmax)
cum_rule("cummin", t.tmin)


@rule("dot_general")
def r_dot(eqn, a, b):
    a, b = obj(a), obj(b)
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    Bm = np.transpose(b, list(bb) + fb + list(cb))
    bs = tuple(a.shape[i] for i in ba)
    fas = tuple(a.shape[i] for i in fa)
    fbs = tuple(b.shape[i] for i in fb)
    n = int(np.prod([a.shape[i] for i in ca], dtype=int))
    A = A.reshape(bs + (int(np.prod(fas, dtype=int)), n))
    Bm = Bm.reshape(bs + (int(np.prod(fbs, dtype=int)), n))
    out = mkobj(bs + (A.shape[-2], Bm.shape[-2]))
    okind = np.dtype(eqn.outvars[0].aval.dtype).kind
    for ix in np.ndindex(*bs):
        for i in range(A.shape[-2]):
            for j in range(Bm.shape[-2]):
                l = []
                for k in range(n):
                    x, y = A[ix + (i, k)], Bm[ix + (j, k)]
                    if okind == "c":
                        x = x if isinstance(x, CX) else CX(x, C(0))
                        y = y if isinstance(y, CX) else CX(y, C(0))
                    if isinstance(x, T) and (not x.m or not y.m):
                        continue
                    l.append(s_mul(x, y))
                if l:
                    out[ix + (i, j)] = _rsum(l, eqn)
                else:
                    out[ix + (i, j)] = CX(C(0), C(0)) if okind == "c" else C(0)
    return out.reshape(eqn.outvars[0].aval.shape)


# ------------------------------------------------------------------ gather / scatter
def const_int(x):
    return int(x.const()) if x.isconst() else None


def int_choices(x, lo, hi):
    """possible integer values of x clipped to [lo,hi] -> list of (value, cond)"""
    if x.isconst():
        v = min(max(int(x.const()), lo), hi)
        return [(v, t.TRUE)]
    l, h = t.iv(x)
    l = lo if l == -t.INF else max(lo, min(hi, math.floor(l)))
    h = hi if h == t.INF else min(hi, max(lo, math.ceil(h)))
    out = []
    for v in range(l, h + 1):
        if l == h:
            c = t.TRUE
        elif v == lo and v == l:
            c = t.le(x, C(v))
        elif v == hi and v == h:
            c = t.le(C(v), x)
        else:
            c = t.beq(x, C(v))
        if c is t.FALSE:
            continue
        out.append((v, c))
    return out


def combos(idxs, los, his):
    chs = [int_choices(x, lo, hi) for x, lo, hi in zip(idxs, los, his)]
    n = 1
    for c in chs:
        n *= len(c)
    if n > 4096:
        raise Unsupported("symbolic index over %d positions" % n)
    for prod in itertools.product(*chs):
        yield tuple(p[0] for p in prod), t.band(*[p[1] for p in prod])


def oob_cond(idxs, los, his):
    return t.bor(*[t.bor(t.lt(x, C(lo)), t.lt(C(hi), x)) for x, lo, hi in zip(idxs, los, his)])


def merge_blocks(blocks):
    """[(cond, object array)] -> ITE-merged block"""
    r = blocks[-1][1]
    for c, b in reversed(blocks[:-1]):
        if c is t.TRUE:
            r = b
            continue
        r = ew(lambda x, y, c=c: s_ite(c, x, y))(b, r)
    return r


@rule("gather")
def r_gather(eqn, operand, indices):
    p = eqn.params
    dn = p["dimension_numbers"]
    mode = p["mode"]
    op = obj(operand)
    ss = p["slice_sizes"]
    oshape = eqn.outvars[0].aval.shape
    ind = obj(indices)
    conc = all(x.isconst() for x in ind.reshape(-1))
    modes = jax.lax.GatherScatterMode
    if conc:
        idx = np.arange(op.size, dtype=np.int64).reshape(op.shape)
        ii = np.array([int(x.const()) for x in ind.reshape(-1)], dtype=np.int64).reshape(ind.shape)
        pp = dict(p)
        pp["fill_value"] = -1
        out = np.asarray(jax.lax.gather_p.bind(jnp.asarray(idx), jnp.asarray(ii), **pp))
        pool = np.empty(op.size + 1, dtype=object)
        pool[:-1] = op.reshape(-1)
        pool[-1] = fill_elem(eqn, p.get("fill_value"))
        return take(pool, np.where(out < 0, op.size, out))
    obd = tuple(dn.operand_batching_dims)
    bshape = ind.shape[:-1]
    out = mkobj(oshape)
    offset = dn.offset_dims
    batch_dims = [i for i in range(len(oshape)) if i not in offset]
    keep = [d for d in range(op.ndim) if d not in dn.collapsed_slice_dims and d not in obd]
    for bix in np.ndindex(*bshape):
        vec = list(ind[bix])
        los = [0] * len(vec)
        his = [op.shape[d] - ss[d] for d in dn.start_index_map]
        blocks = []
        for vals, c in combos(vec, los, his):
            start = [0] * op.ndim
            for d, v in zip(dn.start_index_map, vals):
                start[d] = v
            for d, bd in zip(obd, dn.start_indices_batching_dims):
                start[d] = bix[bd]
            blk = op[tuple(slice(s, s + n) for s, n in zip(start, ss))]
            blk = blk.reshape([ss[d] for d in keep])
            blocks.append((c, blk))
        blk = merge_blocks(blocks)
        if mode == modes.FILL_OR_DROP:
            oc = oob_cond(vec, los, his)
            if oc is not t.FALSE and not t.known(t.bnot(oc)):
                fe = fill_elem(eqn, p.get("fill_value"))
                blk = ew(lambda x: s_ite(oc, fe, x))(blk)
        sl = [None] * len(oshape)
        for d, i in zip(batch_dims, bix):
            sl[d] = i
        for d in offset:
            sl[d] = slice(None)
        if blk.shape == ():
            out[tuple(sl)] = blk[()]
        else:
            out[tuple(sl)] = blk
    return out


def fill_elem(eqn, fv):
    dt = eqn.outvars[0].aval.dtype
    kd = np.dtype(dt).kind
    if fv is not None:
        return obj(np.asarray(fv, dtype=dt))[()]
    if kd == "b":
        return t.TRUE
    if kd == "f":
        return t.special(float("nan"))
    if kd == "c":
        return CX(t.special(float("nan")), t.special(float("nan")))
    if kd == "i":
        return C(int(np.iinfo(dt).min))
    return C(int(np.iinfo(dt).max))


def scatter_rule(name, comb):
    @rule(name)
    def f(eqn, operand, indices, updates):
        p = eqn.params
        dn = p["dimension_numbers"]
        mode = p["mode"]
        op = np.array(obj(operand), dtype=object, copy=True)
        up = obj(updates)
        ind = obj(indices)
        obd = tuple(dn.operand_batching_dims)
        uwd = dn.update_window_dims
        bdims = [i for i in range(up.ndim) if i not in uwd]
        win_dims = [d for d in range(op.ndim) if d not in dn.inserted_window_dims and d not in obd]
        wsz = [1] * op.ndim
        for d, ud in zip(win_dims, uwd):
            wsz[d] = up.shape[ud]
        bshape = ind.shape[:-1]
        modes = jax.lax.GatherScatterMode
        for bix in np.ndindex(*bshape):
            vec = list(ind[bix])
            sl = [slice(None)] * up.ndim
            for d, i in zip(bdims, bix):
                sl[d] = i
            u = up[tuple(sl)]
            if not isinstance(u, np.ndarray) or u.dtype != OBJ:
                x = mkobj(())
                x[()] = u
                u = x
            u = u.reshape([wsz[d] for d in range(op.ndim)])
            los = [0] * len(vec)
            his = [op.shape[d] - wsz[d] for d in dn.scatter_dims_to_operand_dims]
            if mode == modes.FILL_OR_DROP:
                oc = oob_cond(vec, los, his)
                if oc is t.TRUE:
                    continue
            else:
                oc = t.FALSE
            newop = op
            for vals, c in list(combos(vec, los, his)):
                start = [0] * op.ndim
                for d, v in zip(dn.scatter_dims_to_operand_dims, vals):
                    start[d] = v
                for d, bd in zip(obd, dn.scatter_indices_batching_dims):
                    start[d] = bix[bd]
                reg = tuple(slice(s, s + n) for s, n in zip(start, wsz))
                cc = t.band(c, t.bnot(oc))
                if cc is t.FALSE:
                    continue
                cur = newop[reg]
                new = ew(lambda x, y: comb(x, y))(cur, u)
                if cc is not t.TRUE:
                    if comb is s_add and not isinstance(cur.reshape(-1)[0], CX):
                        # keep sums flat:  cur + ite(c, u, 0)
                        new = ew(lambda x, y: t.add(x, t.mul(t.b2t(cc), y)))(cur, u)
                    else:
                        new = ew(lambda x, y: s_ite(cc, x, y))(new, cur)
                newop[reg] = new
            op = newop
        return op


scatter_rule("scatter", lambda x, y: y)
scatter_rule("scatter-add", s_add)
scatter_rule("scatter_add", s_add)
scatter_rule("scatter-mul", s_mul)
scatter_rule("scatter_mul", s_mul)
scatter_rule("scatter_sub", s_sub)
scatter_rule("scatter-sub", s_sub)
scatter_rule("scatter-min", t.tmin)
scatter_rule("scatter-max", t.tmax)
scatter_rule("scatter_min", t.tmin)
scatter_rule("scatter_max", t.tmax)


@rule("dynamic_slice")
def r_ds(eqn, a, *starts):
    a = obj(a)
    ss = eqn.params["slice_sizes"]
    vec = [obj(s)[()] for s in starts[: a.ndim]]
    his = [n - k for n, k in zip(a.shape, ss)]
    blocks = []
    for vals, c in combos(vec, [0] * a.ndim, his):
        blocks.append((c, a[tuple(slice(v, v + k) for v, k in zip(vals, ss))]))
    return merge_blocks(blocks)


@rule("dynamic_update_slice")
def r_dus(eqn, a, u, *starts):
    a, u = np.array(obj(a), dtype=object, copy=True), obj(u)
    vec = [obj(s)[()] for s in starts]
    his = [n - k for n, k in zip(a.shape, u.shape)]
    blocks = []
    for vals, c in combos(vec, [0] * a.ndim, his):
        b = a.copy()
        reg = tuple(slice(v, v + k) for v, k in zip(vals, u.shape))
        if u.shape == ():
            b[()] = u[()]
        else:
            b[reg] = u
        blocks.append((c, b))
    return merge_blocks(blocks)


@rule("sort")
def r_sort(eqn, *xs):
    dim = eqn.params["dimension"]
    nk = eqn.params["num_keys"]
    xs = [np.moveaxis(np.array(obj(x), dtype=object, copy=True), dim, -1) for x in xs]
    shp = xs[0].shape
    n = shp[-1]
    for ix in np.ndindex(*shp[:-1]):
        rows = [[x[ix + (j,)] for x in xs] for j in range(n)]
        # stable insertion (bubble) network
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = rows[j], rows[j + 1]
                c = t.FALSE
                eqp = t.TRUE
                for k in range(nk):
                    c = t.bor(c, t.band(eqp, s_lt(b[k], a[k])))
                    eqp = t.band(eqp, s_eq(a[k], b[k]))
                if c is t.FALSE:
                    continue
                rows[j] = [s_ite(c, y, x) for x, y in zip(a, b)]
                rows[j + 1] = [s_ite(c, x, y) for x, y in zip(a, b)]
        for j in range(n):
            for x, v in zip(xs, rows[j]):
                x[ix + (j,)] = v
    return [np.moveaxis(x, -1, dim) for x in xs]


@rule("triangular_solve")
def r_trisolve(eqn, a, b):
    p = eqn.params
    a, b = obj(a), obj(b)
    if not p["left_side"] or a.ndim != 2:
        raise Unsupported("triangular_solve right side")
    A = a.T if p["transpose_a"] else a
    lower = p["lower"] != p["transpose_a"]
    n = A.shape[0]
    out = np.array(b, dtype=object, copy=True)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        for c in range(out.shape[1]):
            s = out[i, c]
            for j in range(i) if lower else range(i + 1, n):
                s = s_sub(s, s_mul(A[i, j], out[j, c]))
            if not p["unit_diagonal"]:
                s = s_div_f(s, A[i, i])
            out[i, c] = s
    return out


# ------------------------------------------------------------------ fft
def dft(x, sign):
    """1-d DFT of list of CX"""
    n = len(x)
    tw = []
    for k in range(n):
        c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)
        tw.append((t._snap(c), t._snap(s) * sign))
    out = []
    for k in range(n):
        re, im = [], []
        for j in range(n):
            c, s = tw[(j * k) % n]
            z = x[j]
            if c:
                re.append(t.scale(z.re, c))
                im.append(t.scale(z.im, c))
            if s:
                re.append(t.scale(z.im, -s))
                im.append(t.scale(z.re, s))
        out.append(CX(t.addn(re) if re else C(0), t.addn(im) if im else C(0)))
    return out


def _cx(v):
    return v if isinstance(v, CX) else CX(v, C(0))


def fft_axis(a, ax, sign):
    b = np.moveaxis(a, ax, -1)
    out = mkobj(b.shape)
    for ix in np.ndindex(*b.shape[:-1]):
        r = dft([_cx(v) for v in b[ix]], sign)
        for j, v in enumerate(r):
            out[ix + (j,)] = v
    return np.moveaxis(out, -1, ax)


@rule("fft")
def r_fft(eqn, a):
    a = obj(a)
    ft = jax.lax.FftType(eqn.params["fft_type"]).name
    lens = eqn.params["fft_lengths"]
    nd = len(lens)
    axes = list(range(a.ndim - nd, a.ndim))
    sc = Fr(1)
    for n in lens:
        sc /= n
    if ft.endswith("IRFFT") or "IRFFT" in ft:
        for ax in axes[:-1]:
            a = fft_axis(a, ax, 1)
        # last axis hermitian
        n = lens[-1]
        b = a
        out = mkobj(b.shape[:-1] + (n,))
        for ix in np.ndindex(*b.shape[:-1]):
            row = [_cx(v) for v in b[ix]]
            full = [None] * n
            for k in range(n):
                if k <= n // 2:
                    z = row[k]
                    if k == 0 or 2 * k == n:
                        z = CX(z.re, C(0))
                    full[k] = z
                else:
                    z = row[n - k]
                    full[k] = CX(z.re, t.neg(z.im))
            r = dft(full, 1)
            for j in range(n):
                out[ix + (j,)] = t.scale(r[j].re, sc)
        return out
    if "RFFT" in ft:
        n = lens[-1]
        a = fft_axis(a, a.ndim - 1, -1)
        a = a[..., : n // 2 + 1]
        for ax in axes[:-1]:
            a = fft_axis(a, ax, -1)
        return a
    sign = 1 if "IFFT" in ft else -1
    for ax in axes:
        a = fft_axis(a, ax, sign)
    if sign == 1:
        a = ew(lambda z: CX(t.scale(z.re, sc), t.scale(z.im, sc)))(a)
    return a


# ------------------------------------------------------------------ PRNG as uninterpreted functions
def _key(x):
    return obj(x)


@rule("random_split")
def r_rsplit(eqn, k):
    k = _key(k)
    shp = eqn.params["shape"]
    out = mkobj(k.shape + tuple(shp))
    for ix in np.ndindex(*k.shape):
        for j in np.ndindex(*shp):
            out[ix + j] = t.fn("split", k[ix], *([C(len(shp))] + [C(n) for n in shp] + [C(i) for i in j]))
    return out


@rule("random_bits")
def r_rbits(eqn, k):
    k = _key(k)
    shp = eqn.params["shape"]
    bw = eqn.params["bit_width"]
    out = mkobj(k.shape + tuple(shp))
    for ix in np.ndindex(*k.shape):
        for j in np.ndindex(*shp):
            out[ix + j] = t.fn(
                "bits", k[ix], *([C(bw), C(len(shp))] + [C(n) for n in shp] + [C(i) for i in j]),
                lo=0, hi=2**bw - 1, sort="I",
            )
    return out


@rule("random_fold_in")
def r_fold(eqn, k, d):
    return ew(lambda a, b: t.fn("fold_in", a, b))(_key(k), d)


@rule("random_unwrap")
def r_unwrap(eqn, k):
    k = _key(k)
    out = mkobj(k.shape + (2,))
    for ix in np.ndindex(*k.shape):
        sa = t.single_atom(k[ix])
        for j in range(2):
            if sa and sa[1].kind == "fn" and sa[1].args[0] == "keyc":
                out[ix + (j,)] = sa[1].args[1 + j]
            elif sa and sa[1].kind == "fn" and sa[1].args[0] == "wrap":
                out[ix + (j,)] = sa[1].args[1 + j]
            else:
                out[ix + (j,)] = t.fn("keydata", k[ix], C(j), lo=0, hi=2**32 - 1, sort="I")
    return out


@rule("random_wrap")
def r_wrap(eqn, d):
    d = obj(d)
    out = mkobj(d.shape[:-1])
    for ix in np.ndindex(*d.shape[:-1]):
        a, b = d[ix + (0,)], d[ix + (1,)]
        sa, sb = t.single_atom(a), t.single_atom(b)
        if (
            sa and sb and sa[1].kind == "fn" and sb[1].kind == "fn" and sa[1].args[0] == "keydata"
            and sb[1].args[0] == "keydata" and sa[1].args[1] == sb[1].args[1]
        ):
            out[ix] = sa[1].args[1]
        elif a.isconst() and b.isconst():
            out[ix] = t.fn("keyc", a, b)
        else:
            out[ix] = t.fn("wrap", a, b)
    return out


@rule("random_seed")
def r_seed(eqn, s):
    return ew(lambda x: t.fn("seed", x))(s)


@rule("random_gamma")
def r_gamma(eqn, k, a):
    return ew(lambda kk, aa: t.fn("gamma_draw", kk, aa, C(1 if eqn.params.get("log_space") else 0)))(_key(k), a)


NAMED = {}


def named(*names):
    def deco(f):
        for n in names:
            NAMED[n] = f
        return f

    return deco


def _shape_fn(name, eqn, k, extra, lo=-t.INF, hi=t.INF, sort="R"):
    av = eqn.outvars[0].aval
    out = mkobj(av.shape)
    kk = _key(k)
    # a batch of keys draws once per key: the shape drawn is what is left of the output shape
    shp = tuple(av.shape[kk.ndim:])
    drawn = _bits_shape(eqn.params["jaxpr"].jaxpr)
    if drawn is not None and drawn != shp:
        raise Unsupported("draw of shape %r batched to %r" % (drawn, shp))
    for ix in np.ndindex(*av.shape):
        kx = kk[ix[: kk.ndim]]
        ex = [obj(e) for e in extra]
        ex = [e[()] if e.shape == () else np.broadcast_to(e.reshape(e.shape + (1,) * (len(av.shape) - e.ndim)) if e.shape == kk.shape else e, av.shape)[ix] for e in ex]
        out[ix] = t.fn(
            name, kx, *([C(len(shp))] + [C(n) for n in shp] + [C(i) for i in ix[kk.ndim:]] + ex), lo=lo, hi=hi, sort=sort
        )
    return out


def _bits_shape(jaxpr):
    """shape of the first draw of random bits made inside"""
    for e in jaxpr.eqns:
        if e.primitive.name == "random_bits":
            return tuple(e.params["shape"])
        for v in e.params.values():
            for w in v if isinstance(v, (tuple, list)) else [v]:
                w = getattr(w, "jaxpr", w)
                if hasattr(w, "eqns"):
                    r = _bits_shape(w)
                    if r is not None:
                        return r
    return None


@named("_uniform")
def n_uniform(eqn, k, lo, hi):
    u = _shape_fn("unif", eqn, k, [], lo=0, hi=1)
    lo, hi = obj(lo), obj(hi)
    return [ew(lambda x, l, h: t.add(l, t.mul(x, t.sub(h, l))))(u, lo, hi)]


def _ax_unif(conv, e, args, a):
    return [e < 1]


t.FN_AXIOMS["unif"] = _ax_unif


@named("_poisson")
def n_poisson(eqn, k, lam):
    return [_shape_fn("poisson", eqn, k, [lam], lo=0, sort="I")]


@named("_binomial")
def n_binomial(eqn, k, n, p):
    return [_shape_fn("binomial", eqn, k, [n, p], lo=0, sort="I")]


@named("_shuffle")
def n_shuffle(eqn, k, x):
    # the order drawn is free: one of the n! orders, a function of the key and the size
    import itertools
    import math

    x = obj(x)
    n = x.shape[0]
    if x.ndim != 1 or n > 4:
        raise Unsupported("shuffle of shape %r" % (x.shape,))
    nf = math.factorial(n)
    which = t.fn("perm", _key(k)[()], C(n), lo=0, hi=nf - 1, sort="I")
    out = mkobj((n,))
    perms = list(itertools.permutations(range(n)))
    for j in range(n):
        r = x[perms[-1][j]]
        for q in range(nf - 2, -1, -1):
            r = t.ite(t.beq(which, C(q)), x[perms[q][j]], r)
        out[j] = r
    return [out]


# linear algebra with pivoting -> exact formula
@named("_solve", "solve", "inv", "_inv")
def n_unused(eqn, *xs):
    return None


def small_inv(a):
    n = a.shape[-1]
    if n == 1:
        out = mkobj((1, 1))
        out[0, 0] = t.inv(a[0, 0])
        return out
    det = small_det(a)
    di = t.inv(det)
    out = mkobj((n, n))
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            m = small_det(minor)
            out[i, j] = t.mul(di, m if (i + j) % 2 == 0 else t.neg(m))
    return out


def small_det(a):
    n = a.shape[0]
    if n == 0:
        return C(1)
    if n == 1:
        return a[0, 0]
    r = C(0)
    for j in range(n):
        if not a[0, j].m:
            continue
        m = small_det(np.delete(np.delete(a, 0, 0), j, 1))
        r = t.add(r, t.mul(a[0, j], m if j % 2 == 0 else t.neg(m)))
    return r


def _batched(f, *xs):
    return f(*xs)


@named("inv")
def n_inv(eqn, a):
    a = obj(a)
    if a.ndim == 2:
        return [small_inv(a)]
    out = mkobj(a.shape)
    for ix in np.ndindex(*a.shape[:-2]):
        out[ix] = small_inv(a[ix])
    return [out]


# the closed forms stand for the plain calls only; under differentiation the calls of the same name carry residuals and are followed inside
NARITY = {"inv": (1, 1), "_inv": (1, 1), "slogdet": (1, 2), "solve": (2, 1), "_solve": (2, 1)}


@named("slogdet")
def n_slogdet(eqn, a):
    a = obj(a)
    if a.ndim != 2:
        raise Unsupported("batched slogdet")
    d = small_det(a)
    sg = t.sgn(d)
    out = [mkobj(()), mkobj(())]
    out[0][()] = sg
    out[1][()] = t.log(t.absT(d))
    return out


@named("solve", "_solve")
def n_solve(eqn, a, b):
    a, b = obj(a), obj(b)
    if a.ndim != 2:
        raise Unsupported("batched solve")
    ia = small_inv(a)
    b2 = b.reshape(b.shape[0], -1)
    out = mkobj(b2.shape)
    for i in range(b2.shape[0]):
        for j in range(b2.shape[1]):
            out[i, j] = t.addn([t.mul(ia[i, k], b2[k, j]) for k in range(b2.shape[0])])
    return [out.reshape(b.shape)]


_LU = [0]


@rule("lu")
def r_lu(eqn, a):
    """The factors are unconstrained unknowns: nothing can be concluded from them.  Their one use here is as constants of custom_linear_solve, which is followed through its matvec."""
    outs = []
    for v in eqn.outvars:
        o = mkobj(v.aval.shape)
        for ix in np.ndindex(*v.aval.shape):
            _LU[0] += 1
            o[ix] = t.var("lu!%d" % _LU[0], "I" if np.issubdtype(v.aval.dtype, np.integer) else "R")
        outs.append(o)
    return outs


@rule("custom_linear_solve")
def r_linsolve(eqn, *xs):
    """x with matvec(x) = b: the matrix is read off matvec applied to unit vectors (small systems, exact inverse)."""
    ncl, js = eqn.params["const_lengths"], eqn.params["jaxprs"]
    mv, mc = _closed(js.matvec)
    n = ncl.matvec
    if n is None or len(eqn.outvars) != 1:
        raise Unsupported("custom_linear_solve")
    consts, b = list(xs[:n]), obj(xs[sum(c for c in ncl if c is not None)])
    N = b.size
    if N > 16:
        raise Unsupported("custom_linear_solve of %d unknowns" % N)
    A = mkobj((N, N))
    for j in range(N):
        e = np.zeros(b.shape)
        e.flat[j] = 1.0
        A[:, j] = obj(eval_jaxpr(mv, mc, consts + [e])[0]).reshape(-1)
    x = block_solve(A, b.reshape(-1))
    return [x.reshape(b.shape)]


def block_solve(A, b):
    """solve by connected blocks of the matrix's non-zero pattern"""
    N = len(b)
    lab = list(range(N))
    for i in range(N):
        for j in range(N):
            if A[i, j].m and lab[i] != lab[j]:
                lo, hi = sorted((lab[i], lab[j]))
                lab = [lo if q == hi else q for q in lab]
    x = mkobj((N,))
    for q in set(lab):
        ix = [i for i in range(N) if lab[i] == q]
        if len(ix) > 4:
            raise Unsupported("custom_linear_solve with a block of %d" % len(ix))
        ia = small_inv(A[np.ix_(ix, ix)])
        for r, i in enumerate(ix):
            x[i] = t.addn([t.mul(ia[r, k], b[ix[k]]) for k in range(len(ix))])
    return x


# ------------------------------------------------------------------ interpreter
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v).__name__ == "Literal" or hasattr(v, "val"):
            return v.val
        return env[v]

    def write(v, x):
        env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c)
    for v, x in zip(jaxpr.invars, args):
        write(v, x)
    for eqn in jaxpr.eqns:
        invals = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, invals)
        for v, x in zip(eqn.outvars, outs):
            if type(v).__name__ == "DropVar":
                continue
            x = simplify_out(x, v.aval.dtype)
            if tuple(np.shape(x)) != tuple(v.aval.shape):
                raise Unsupported("shape mismatch in %s: %s vs %s" % (eqn.primitive.name, np.shape(x), v.aval.shape))
            write(v, x)
    return [read(v) for v in jaxpr.outvars]


def _closed(j):
    if hasattr(j, "jaxpr"):
        return j.jaxpr, j.consts
    return j, []


CALLS = {
    "jit": "jaxpr",
    "pjit": "jaxpr",
    "closed_call": "call_jaxpr",
    "core_call": "call_jaxpr",
    "custom_jvp_call": "call_jaxpr",
    "custom_vjp_call": "call_jaxpr",
    "custom_vjp_call_jaxpr": "fun_jaxpr",
    "remat": "jaxpr",
    "remat2": "jaxpr",
    "checkpoint": "jaxpr",
    "custom_lin": "jaxpr",
    "run_state": "jaxpr",
}


def eval_eqn(eqn, invals):
    STATS["eqns"] += 1
    name = eqn.primitive.name
    anysym = any(is_sym(x) for x in invals)
    if name in ("while",):
        return eval_while(eqn, invals)
    if name == "cond":
        return eval_cond(eqn, invals)
    if not anysym and name not in ("pure_callback", "io_callback", "debug_callback", "debug_print") and not _has_callback(eqn):
        outs = concrete_bind(eqn, invals)
        return outs
    if name == "scan":
        return eval_scan(eqn, invals)
    if name in CALLS:
        key = CALLS[name] if CALLS[name] in eqn.params else None
        if key is None:
            for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
                if k in eqn.params:
                    key = k
        nm = eqn.params.get("name")
        STATS["calls"] += 1
        if nm:
            FRAMES[nm] = FRAMES.get(nm, 0) + 1
        if name in ("jit", "pjit") and nm in NAMED and anysym and NARITY.get(nm, (len(eqn.invars), len(eqn.outvars))) == (len(eqn.invars), len(eqn.outvars)):
            r = NAMED[nm](eqn, *invals)
            if r is not None:
                return r
        j, consts = _closed(eqn.params[key])
        return eval_jaxpr(j, consts, invals)
    STATS["prims"][name] = STATS["prims"].get(name, 0) + 1
    if name in ("debug_callback", "debug_print"):
        return []
    r = RULES.get(name)
    if r is None:
        raise Unsupported("primitive %s" % name)
    out = r(eqn, *invals)
    if eqn.primitive.multiple_results:
        return out
    return [out]


_CB = {}


def _has_callback(eqn):
    for k in ("jaxpr", "call_jaxpr", "branches", "body_jaxpr", "fun_jaxpr"):
        v = eqn.params.get(k)
        if v is None:
            continue
        vs = v if isinstance(v, (tuple, list)) else (v,)
        for j in vs:
            if _jaxpr_cb(_closed(j)[0]):
                return True
    return False


def _jaxpr_cb(j):
    r = _CB.get(id(j))
    if r is None:
        r = False
        for e in j.eqns:
            if e.primitive.name in ("pure_callback", "io_callback", "debug_callback") or _has_callback(e):
                r = True
                break
        _CB[id(j)] = (r, j)
        return r
    return r[0]


def concrete_bind(eqn, invals):
    invals = [x if hasattr(x, "dtype") and not isinstance(x, np.ndarray) else jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in invals]
    bp = eqn.primitive.get_bind_params(eqn.params)
    if isinstance(bp, tuple) and len(bp) == 2:
        subfuns, params = bp
    else:
        subfuns, params = [], dict(bp)
    out = eqn.primitive.bind(*subfuns, *invals, **params)
    return list(out) if eqn.primitive.multiple_results else [out]


def _err_branch(j):
    """does the branch run an (equinox) error callback unconditionally?"""
    for e in j.eqns:
        n = e.primitive.name
        if n in ("pure_callback", "io_callback"):
            return True
        if n in ("cond", "while", "scan"):
            continue
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            v = e.params.get(k)
            if v is not None and _err_branch(_closed(v)[0]):
                return True
    return False


PATHC = []  # conditions of the enclosing symbolic cond branches


def eval_cond(eqn, invals):
    branches = eqn.params["branches"]
    idx, ops = invals[0], invals[1:]
    o = obj(idx)[()]
    n = len(branches)
    isb = isinstance(o, B)
    cb = [_err_branch(_closed(b)[0]) for b in branches]
    if any(cb) and not all(cb):
        # equinox.error_if style: record side condition, take the non-error branch
        good = [i for i in range(n) if not cb[i]]
        bad = [i for i in range(n) if cb[i]]
        for i in bad:
            c = _idx_is(o, i, n)
            if c is t.FALSE:
                continue
            SIDE.append(t.band(c, *PATHC))
        # dispatch among good ones
        if len(good) == 1:
            j, consts = _closed(branches[good[0]])
            return eval_jaxpr(j, consts, ops)
    if isb:
        if o is t.TRUE or o is t.FALSE:
            k = 1 if o is t.TRUE else 0
        elif t.known(o):
            k = 1
        elif t.known(t.bnot(o)):
            k = 0
        else:
            k = None
    else:
        if o.isconst():
            k = min(max(int(o.const()), 0), n - 1)
        else:
            k = None
    if k is not None:
        j, consts = _closed(branches[k])
        return eval_jaxpr(j, consts, ops)
    res = None
    conds = []
    for i in range(n):
        c = _idx_is(o, i, n)
        if c is t.FALSE:
            continue
        with t.assuming(c):
            j, consts = _closed(branches[i])
            PATHC.append(c)
            try:
                outs = [obj(x) for x in eval_jaxpr(j, consts, ops)]
            finally:
                PATHC.pop()
        conds.append((c, outs))
    res = conds[-1][1]
    for c, outs in reversed(conds[:-1]):
        res = [ew(lambda x, y, c=c: s_ite(c, x, y))(a, b) for a, b in zip(outs, res)]
    return res


def _idx_is(o, i, n):
    if isinstance(o, B):
        return o if i == 1 else t.bnot(o)
    if i == 0:
        return t.le(o, C(0))
    if i == n - 1:
        return t.le(C(i), o)
    return t.beq(o, C(i))


class UnwindLimit(Unsupported):
    pass


def eval_while(eqn, invals):
    p = eqn.params
    cj, cc = _closed(p["cond_jaxpr"])
    bj, bc = _closed(p["body_jaxpr"])
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cconst, bconst, state = invals[:nc], invals[nc : nc + nb], list(invals[nc + nb :])
    if not any(is_sym(x) for x in invals) and not (_jaxpr_cb(cj) or _jaxpr_cb(bj)):
        return concrete_bind(eqn, invals)
    n = 0
    guards = []  # conditions under which we are still iterating (symbolic)
    pend = []  # (exit cond, state)
    nsym = 0
    while True:
        c = obj(eval_jaxpr(cj, cc, cconst + state)[0])[()]
        if c is not t.TRUE and c is not t.FALSE:
            if t.known(c):
                c = t.TRUE
            elif t.known(t.bnot(c)):
                c = t.FALSE
        if c is t.FALSE:
            break
        if c is t.TRUE:
            state = eval_jaxpr(bj, bc, bconst + state)
            n += 1
            if n > 4000:
                raise UnwindLimit("while loop > 4000 iterations")
            continue
        nsym += 1
        if nsym > OPTS["unroll"]:
            OPTS["unwind"].append(c)
            raise UnwindLimit("unwinding assertion: loop may run more than %d symbolic iterations" % OPTS["unroll"])
        pend.append((c, state))
        t.CTX.stack.append(_ctx_entry(c))
        guards.append(c)
        state = eval_jaxpr(bj, bc, bconst + state)
        n += 1
    for c, st in reversed(pend):
        t.CTX.stack.pop()
        state = [ew(lambda x, y, c=c: s_ite(c, x, y))(a, b) for a, b in zip(state, st)]
    return state


def _ctx_entry(b):
    a = t.assuming(b)
    a.__enter__()
    return t.CTX.stack.pop()


def eval_scan(eqn, invals):
    p = eqn.params
    j, consts = _closed(p["jaxpr"])
    nc, ncar = p["num_consts"], p["num_carry"]
    L = p["length"]
    rev = p["reverse"]
    cs, carry, xs = invals[:nc], list(invals[nc : nc + ncar]), invals[nc + ncar :]
    ys = None
    order = range(L - 1, -1, -1) if rev else range(L)
    acc = {}
    for i in order:
        sl = []
        for x in xs:
            if is_sym(x):
                v = x[i]
                if not (isinstance(v, np.ndarray) and v.dtype == OBJ):
                    o = mkobj(())
                    o[()] = v
                    v = o
                sl.append(v)
            else:
                sl.append(jnp.asarray(x)[i] if not (hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key)) else x[i])
        outs = eval_jaxpr(j, consts, cs + carry + sl)
        carry = outs[:ncar]
        acc[i] = outs[ncar:]
    nys = len(eqn.outvars) - ncar
    ysout = []
    for k in range(nys):
        av = eqn.outvars[ncar + k].aval
        out = mkobj(av.shape)
        for i in range(L):
            v = obj(acc[i][k])
            if v.shape == ():
                out[i] = v[()]
            else:
                out[i] = v
        ysout.append(out)
    return carry + ysout


# ------------------------------------------------------------------ entry
def trace(fn, example):
    return jax.make_jaxpr(fn)(*example)


def run_jaxpr(closed, symargs):
    return eval_jaxpr(closed.jaxpr, closed.consts, symargs)


@rule("unvmap_any", "unvmap_all", "unvmap_max")
def r_unvmap(eqn, a):
    a = obj(a)
    n = eqn.primitive.name
    fl = list(a.reshape(-1))
    out = mkobj(())
    out[()] = t.bor(*fl) if n.endswith("any") else (t.band(*fl) if n.endswith("all") else fl[0])
    if n.endswith("max"):
        r = fl[0]
        for x in fl[1:]:
            r = t.tmax(r, x)
        out[()] = r
    return out


@rule("nonbatchable")
def r_nonbatch(eqn, a):
    return a


@rule("stack")
def r_stack(eqn, *xs):
    return np.stack([obj(x) for x in xs], axis=eqn.params["axis"])


@rule("unstack")
def r_unstack(eqn, a):
    a = obj(a)
    ax = eqn.params.get("axis", 0)
    out = []
    for i in range(a.shape[ax]):
        v = np.take(a, i, axis=ax)
        if not isinstance(v, np.ndarray):
            o = mkobj(())
            o[()] = v
            v = o
        out.append(v)
    return out


@rule("tile")
def r_tile(eqn, a):
    return np.tile(obj(a), eqn.params["reps"])


@rule("empty", "empty2")
def r_empty(eqn):
    return np.zeros(eqn.outvars[0].aval.shape, eqn.outvars[0].aval.dtype)


# --------------------------------------------------------------------------- modified Bessel function K
@named("_kv_impl")
def n_kv(eqn, nu, x):
    """K_nu(x): closed form for half-integer order, value for constants, uninterpreted otherwise (kv itself is a P30 subject)"""
    shape = eqn.outvars[0].aval.shape
    nu, x = (np.broadcast_to(obj(v), shape) for v in (nu, x))
    out = mkobj(shape)
    for ix in np.ndindex(*shape):
        out[ix] = s_kv(nu[ix], x[ix])
    return [out]


def s_kv(nu, x):
    if nu.isconst():
        v = abs(Fr(nu.const()))
        if x.isconst():
            return cf(t.NUM_FN["kv"](float(v), float(x.const())))
        n = v - Fr(1, 2)
        if abs(n - round(n)) < Fr(1, 10**9) and 0 <= round(n) <= 8:
            n = int(round(n))
            r = t.with_ite(lambda y: s_kv(nu, y), x)
            if r is not None:
                return r
            ix = t.inv(x)
            s = t.addn([t.scale(t.ipow(ix, k), Fr(math.factorial(n + k), math.factorial(k) * math.factorial(n - k) * 2**k)) for k in range(n + 1)])
            return t.mul(t.mul(t.sqrt(t.scale(ix, t.PI_FR / 2)), t.exp(t.neg(x))), s)
        return t.fn("kv", C(v), x, lo=0)
    return t.fn("kv", nu, x, lo=0)


def _num_kv(nu, x):
    import scipy.special

    return float(scipy.special.kv(nu, x))


t.NUM_FN["kv"] = _num_kv
