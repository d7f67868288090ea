"""Path-forking execution of Python code on symbolic numbers.

The harness runs inside one jax.make_jaxpr trace.  jax arrays are ordinary tracers, Python ints/floats are `Num` proxies
around tracers.  Whenever the code under test asks for a concrete truth value (`if x > y:`), the forker answers from the
current path script and records the condition; the condition becomes an output of the jaxpr, so the path condition and
the goals are interpreted symbolically together.  run_paths explores every feasible path.
"""
import builtins
import math
import operator
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore

_int, _float, _bool = builtins.int, builtins.float, builtins.bool
MAXDEC = 400


class Forker:
    cur = None

    def __init__(self, script):
        self.script = list(script)
        self.dec = []
        self.conds = []
        self.trace = None
        self.tokens = {}

    def decide(self, tr):
        i = len(self.dec)
        d = self.script[i] if i < len(self.script) else True
        if i > MAXDEC:
            raise RuntimeError("fork: too many decisions")
        self.dec.append(d)
        self.conds.append(tr)
        return d


def _is_outer(x):
    return Forker.cur is not None and isinstance(x, jcore.Tracer) and getattr(x, "_trace", None) is Forker.cur.trace


def unwrap(x):
    return x._t if isinstance(x, Num) else x


def _is_tr(x):
    return isinstance(x, jcore.Tracer)


def _is_arr(x):
    return isinstance(x, (jax.Array, np.ndarray))


def _mk(v, kind):
    return Num(v, kind)


class Num:
    """Python number proxy; kind 'int' | 'float' | 'bool'"""

    __slots__ = ("_t", "kind")
    __array_priority__ = 1000

    def __init__(self, tr, kind):
        self._t = tr
        self.kind = kind

    def __jax_array__(self):
        return self._t

    # numpy scalars on the left would otherwise try to build an object array
    __array_ufunc__ = None

    def __repr__(self):
        return "<Num %s>" % self.kind

    def __hash__(self):
        raise TypeError("symbolic number hashed")

    def _bin(self, o, op, kind=None, rev=False):
        if isinstance(o, (Num,)):
            ok, ov = o.kind, o._t
        elif isinstance(o, (_bool, np.bool_)):
            ok, ov = "bool", jnp.asarray(_bool(o))
        elif isinstance(o, (_int, np.integer)):
            ok, ov = "int", jnp.asarray(_int(o), jnp.int64)
        elif isinstance(o, (_float, np.floating)):
            ok, ov = "float", jnp.asarray(_float(o), jnp.float64)
        elif isinstance(o, complex):
            ok, ov = "complex", jnp.asarray(o)
        elif _is_arr(o):
            a, b = (o, self._t) if rev else (self._t, o)
            return op(jnp.asarray(a), jnp.asarray(b))
        else:
            return NotImplemented
        sk = "int" if self.kind == "bool" else self.kind
        ok = "int" if ok == "bool" else ok
        k = kind or ("complex" if ok == "complex" else "float" if "float" in (sk, ok) else "int")
        a, b = (ov, self._t) if rev else (self._t, ov)
        if k == "cmp":
            return Num(op(a, b), "bool")
        if k in ("int", "float") and kind is None:
            a, b = [jnp.asarray(z, jnp.int64) if z.dtype == jnp.bool_ else z for z in (a, b)]
        if k == "float" and kind != "float":
            a, b = jnp.asarray(a, jnp.float64), jnp.asarray(b, jnp.float64)
        return Num(op(a, b), k)

    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, rev=True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, rev=True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return NotImplemented
        return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._bin(o, operator.mul, rev=True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: jnp.true_divide(a, b), kind="float")
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: jnp.true_divide(a, b), kind="float", rev=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: jnp.floor_divide(a, b))
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: jnp.floor_divide(a, b), rev=True)
    def __mod__(self, o): return self._bin(o, lambda a, b: jnp.mod(a, b))
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, lambda a, b: jnp.mod(a, b), rev=True)
    def __pow__(self, o):
        if isinstance(o, (_int, np.integer)) and not isinstance(o, _bool):
            if o >= 0:
                return Num(jax.lax.integer_pow(self._t, _int(o)), self.kind)
            return Num(jax.lax.integer_pow(jnp.asarray(self._t, jnp.float64), _int(o)), "float")
        return self._bin(o, lambda a, b: jnp.power(a, b), kind=None)
    def __rpow__(self, o): return self._bin(o, lambda a, b: jnp.power(a, b), rev=True)
    def __neg__(self): return Num(-self._t, self.kind)
    def __pos__(self): return self
    def __abs__(self): return Num(jnp.abs(self._t), self.kind)
    def __lt__(self, o): return self._bin(o, operator.lt, kind="cmp")
    def __le__(self, o): return self._bin(o, operator.le, kind="cmp")
    def __gt__(self, o): return self._bin(o, operator.gt, kind="cmp")
    def __ge__(self, o): return self._bin(o, operator.ge, kind="cmp")

    def __eq__(self, o):
        r = self._bin(o, operator.eq, kind="cmp")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, operator.ne, kind="cmp")
        return True if r is NotImplemented else r

    def __and__(self, o): return self._bin(o, operator.and_, kind="cmp") if self.kind == "bool" else self._bin(o, operator.and_)
    def __rand__(self, o): return self._bin(o, operator.and_, kind="cmp", rev=True) if self.kind == "bool" else self._bin(o, operator.and_, rev=True)
    def __or__(self, o): return self._bin(o, operator.or_, kind="cmp") if self.kind == "bool" else self._bin(o, operator.or_)
    def __ror__(self, o): return self._bin(o, operator.or_, kind="cmp", rev=True) if self.kind == "bool" else self._bin(o, operator.or_, rev=True)
    def __invert__(self): return Num(~self._t, self.kind)

    def __bool__(self):
        if Forker.cur is None:
            raise RuntimeError("Num outside a fork run")
        c = self._t if self.kind == "bool" else self._t != 0
        return Forker.cur.decide(c)

    def __round__(self, n=None):
        if n is not None:
            return Num(jnp.round(self._t, n), self.kind)
        return Num(jnp.round(self._t).astype(jnp.int64), "int")

    def __ceil__(self): return Num(jnp.ceil(self._t).astype(jnp.int64), "int")
    def __floor__(self): return Num(jnp.floor(self._t).astype(jnp.int64), "int")
    def __trunc__(self): return Num(jnp.trunc(self._t).astype(jnp.int64), "int")

    # formatting: a unique token stands for the number, harnesses map tokens back
    def __int__(self): return self.__index__()

    def __index__(self):
        f = Forker.cur
        for k, v in f.tokens.items():
            if v is self:
                return k
        k = 80000001 + 10 * len(f.tokens)
        f.tokens[k] = self
        return k

    def __float__(self):
        raise TypeError("symbolic number concretised by float()")

    # numpy-scalar look
    @property
    def dtype(self):
        raise AttributeError("dtype")

    @property
    def real(self): return self
    @property
    def imag(self): return Num(jnp.zeros_like(self._t), self.kind)
    def conjugate(self): return self
    def is_integer(self): return Num(self._t == jnp.trunc(self._t), "bool")


def to_int(x=0, *a):
    if isinstance(x, Num):
        if x.kind in ("int", "bool"):
            return Num(x._t.astype(jnp.int64), "int")
        return Num(jnp.trunc(x._t).astype(jnp.int64), "int")
    if _is_outer(x) and x.shape == ():
        return Num((jnp.trunc(x) if jnp.issubdtype(x.dtype, jnp.floating) else x).astype(jnp.int64), "int")
    if isinstance(x, str) and Forker.cur is not None and not a:
        try:
            k = _int(x)
        except ValueError:
            return _int(x)
        return Forker.cur.tokens.get(k, k)
    return _int(x, *a)


def to_float(x=0.0):
    if isinstance(x, Num):
        return Num(jnp.asarray(x._t, jnp.float64), "float")
    if _is_outer(x) and x.shape == ():
        return Num(x.astype(jnp.float64), "float")
    if isinstance(x, str) and Forker.cur is not None:
        try:
            k = _int(x)
        except ValueError:
            return _float(x)
        return to_float(Forker.cur.tokens[k]) if k in Forker.cur.tokens else _float(x)
    return _float(x)


def to_bool(x=False):
    return _bool(x)


class _MI(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _int) or (isinstance(o, Num) and o.kind in ("int", "bool"))

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __call__(cls, *a):
        return to_int(*a)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class _MF(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _float) or (isinstance(o, Num) and o.kind == "float")

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __call__(cls, *a):
        return to_float(*a)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class IntShim(_int, metaclass=_MI):
    pass


class FloatShim(_float, metaclass=_MF):
    pass


class NS:
    """module proxy: unwraps Num arguments, maps the int/float shims back to dtypes"""

    def __init__(self, mod):
        object.__setattr__(self, "_mod", mod)

    def __getattr__(self, k):
        v = getattr(self._mod, k)
        if isinstance(v, type) or not callable(v):
            if isinstance(v, type(jnp)) and k in ("lax", "linalg", "fft"):
                return NS(v)
            return v

        def f(*a, **kw):
            if Forker.cur is None:
                return v(*a, **kw)
            a2, kw2 = jax.tree_util.tree_map(_fix, (a, kw), is_leaf=lambda z: isinstance(z, Num))
            return v(*a2, **kw2)

        return f


def _fix(x):
    if isinstance(x, Num):
        return x._t
    if x is IntShim:
        return _int
    if x is FloatShim:
        return _float
    return x


class NPShim(NS):
    """numpy on symbolic scalars is routed to jax.numpy"""

    def __getattr__(self, k):
        v = getattr(self._mod, k)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **kw):
            if Forker.cur is None:
                return v(*a, **kw)
            leaves = jax.tree_util.tree_leaves((a, kw), is_leaf=lambda z: isinstance(z, Num))
            if any(isinstance(z, Num) or _is_tr(z) for z in leaves) and hasattr(jnp, k):
                a2, kw2 = jax.tree_util.tree_map(_fix, (a, kw), is_leaf=lambda z: isinstance(z, Num))
                return getattr(jnp, k)(*a2, **kw2)
            return v(*a, **kw)

        return f


MATH = ["log", "exp", "sqrt", "sin", "cos", "tan", "ceil", "floor", "trunc", "fabs", "pow", "log2", "log10", "atan2", "hypot", "isfinite", "isnan"]


def _math_shim(k, v):
    def f(*a):
        if Forker.cur is None or not any(isinstance(x, Num) or _is_outer(x) for x in a):
            return v(*a)
        b = [x._t if isinstance(x, Num) else x for x in a]
        if k == "log" and len(b) == 2:
            return Num(jnp.log(b[0] * 1.0) / jnp.log(b[1] * 1.0), "float")
        if k in ("ceil", "floor", "trunc"):
            return Num(getattr(jnp, k)(b[0] * 1.0).astype(jnp.int64), "int")
        if k in ("isfinite", "isnan"):
            return Num(getattr(jnp, k)(b[0] * 1.0), "bool")
        n = {"fabs": "abs", "pow": "power", "atan2": "arctan2"}.get(k, k)
        return Num(getattr(jnp, n)(*[x * 1.0 for x in b]), "float")

    return f


class patched:
    """shim int/float/jnp/np in every jax_galsim module and let outer tracers fork on bool()"""

    def __enter__(self):
        self.saved = []
        jns, nns = NS(jnp), NPShim(np)
        for name, m in list(sys.modules.items()):
            if m is None or not (name == "jax_galsim" or name.startswith("jax_galsim.")):
                continue
            d = vars(m)
            for k, v in (("int", IntShim), ("float", FloatShim)):
                self.saved.append((d, k, d.get(k, None), k in d))
                d[k] = v
            for k in ("jnp", "np"):
                if k in d and (d[k] is jnp or d[k] is np):
                    self.saved.append((d, k, d[k], True))
                    d[k] = jns if d[k] is jnp else nns
        self.msave = []
        for k in MATH:
            v = getattr(math, k)
            self.msave.append((k, v))
            setattr(math, k, _math_shim(k, v))
        self.ob, self.oi, self.of = jcore.Tracer.__bool__, jcore.Tracer.__int__, jcore.Tracer.__float__
        ob = self.ob

        def tb(x):
            if _is_outer(x) and x.size == 1:
                return Forker.cur.decide(x.reshape(()) if x.dtype == jnp.bool_ else (x != 0).reshape(()))
            return ob(x)

        jcore.Tracer.__bool__ = tb
        self.oitem = jcore.ShapedArray.__dict__.get("item")
        if self.oitem is not None:
            orig = self.oitem.fun if hasattr(self.oitem, "fun") else self.oitem

            def item(x, *args):
                if _is_outer(x) and x.size == 1 and not args:
                    y = x.reshape(())
                    k = "bool" if y.dtype == jnp.bool_ else "int" if jnp.issubdtype(y.dtype, jnp.integer) else "float"
                    return Num(y, k)
                return orig(x, *args)

            jcore.ShapedArray.item = jcore.aval_method(item)
        return self

    def __exit__(self, *a):
        jcore.Tracer.__bool__ = self.ob
        if self.oitem is not None:
            jcore.ShapedArray.item = self.oitem
        for k, v in self.msave:
            setattr(math, k, v)
        for d, k, v, had in reversed(self.saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        Forker.cur = None


def trace_path(g, example, script, wrap):
    """-> (closed_jaxpr, forker, exception|None).  g(kw) returns a flat list of arrays; conds are appended"""
    f = Forker(script)
    err = []

    def h(kw):
        Forker.cur = f
        f.trace = jcore.trace_ctx.trace
        f.dec, f.conds, f.tokens = [], [], {}
        try:
            out = g(wrap(kw))
        except Exception as e:  # noqa
            err.append((e, sys.exc_info()[2]))
            out = []
        return out, [jnp.asarray(unwrap(c)) for c in f.conds]

    with patched():
        try:
            closed = jax.make_jaxpr(h)(example)
        finally:
            Forker.cur = None
    return closed, f, (err[0] if err else None)
