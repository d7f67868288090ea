"""Symbolic terms: exact polynomials over interned atoms, with a z3 back end.

Reals and ints are polynomials {monomial: Fraction}; a monomial is a sorted tuple
of (atom id, exponent).  Exponents may be negative or fractional only on atoms whose
base is known non-zero / non-negative under the current assumptions.  Everything else
(ITE, floor, uninterpreted functions, 1/x for x possibly zero, ...) is an atom that
gets a (conditional) axiom when it is sent to the solver.
"""
import math
from fractions import Fraction as Fr

import z3

INF = float("inf")


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


MAXMONO = 30000
PREC_BITS = 400


class Atom:
    __slots__ = ("id", "kind", "sort", "args", "lo", "hi", "posflag")

    def __repr__(self):
        if self.kind == "var":
            return self.args[0]
        return "%s(%s)" % (self.kind, ",".join(map(repr, self.args)))


ATOMS = []
_ATOM_TAB = {}


def mk_atom(kind, sort, args, lo=-INF, hi=INF):
    args = [snap_t(x) if isinstance(x, T) else x for x in args]
    key = (kind, sort) + tuple(args)
    a = _ATOM_TAB.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.sort, a.args, a.lo, a.hi = kind, sort, tuple(args), lo, hi
        a.posflag = None
        ATOMS.append(a)
        _ATOM_TAB[key] = a
    return a


def rnd(c):
    """Keep coefficients exact unless they grow beyond PREC_BITS of precision."""
    d = c.denominator
    if d.bit_length() > PREC_BITS or c.numerator.bit_length() > PREC_BITS * 2:
        n = c.numerator
        if n == 0:
            return Fr(0)
        e = n.bit_length() - d.bit_length()
        sh = PREC_BITS // 2 - e
        if sh >= 0:
            m = (n << sh) // d
            return Fr(m, 1 << sh)
        else:
            return Fr((n // d) >> (-sh) << (-sh))
    return c


_mp_pi = 31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679
PI_FR = Fr(_mp_pi, 10**100)
_SNAP = {}


def _simple(c, maxden=2000):
    for s in (c.limit_denominator(maxden), Fr(round(c * 648000), 648000)):  # (arc seconds)
        if s and abs(s - c) <= abs(c) * Fr(1, 2**51):
            return s
    return None


def read_float(v):
    """exact rational that a double constant stands for: the simple rational (denominator
    <= 2000) or rational multiple of pi / 1/pi whose nearest double it is, else its exact value"""
    r = _SNAP.get(v)
    if r is not None:
        return r
    c = Fr(v)
    r = c
    if c and c.denominator > 1 << 20:
        s = _simple(c)
        if s is not None:
            r = s
        else:
            s = _simple(c / PI_FR, 20000)
            if s is not None:
                r = s * PI_FR
            else:
                s = _simple(c * PI_FR, 20000)
                if s is not None:
                    r = s / PI_FR
    _SNAP[v] = r
    return r


_COEF = {}


def snap_coef(c):
    """representative of coefficients that agree to ~1e-13 (rounding of double constants)"""
    if c.denominator <= 1 << 24:
        return c
    f = float(c)
    if f == 0:
        return c
    m, e = math.frexp(f)
    q = round(m * 2**43)
    for dq in (0, -1, 1):
        r = _COEF.get((q + dq, e))
        if r is not None:
            return r
    s = c.limit_denominator(4096)
    if s and abs(s - c) <= abs(c) * Fr(1, 2**44):
        c = s
    _COEF[(q, e)] = c
    return c


def snap_t(t):
    for c in t.m.values():
        if c.denominator > 1 << 24:
            return T({k: snap_coef(v) for k, v in t.m.items()}, t.s)
    return t


class T:
    """polynomial term.  sort 'I' means integer valued."""

    __slots__ = ("m", "s", "_h", "_iv")

    def __init__(self, m, s):
        self.m = m
        self.s = s
        self._h = None
        self._iv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, T) and self.m == o.m

    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), Fr(0))

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mono, c in list(self.m.items())[:12]:
            t = "*".join(
                (repr(ATOMS[a]) if e == 1 else "%r^%s" % (ATOMS[a], e)) for a, e in mono
            )
            cs = str(c) if c.denominator < 10**6 else "%.17g" % float(c)
            out.append(cs if not t else (t if c == 1 else cs + "*" + t))
        if len(self.m) > 12:
            out.append("...(%d)" % len(self.m))
        return "(" + " + ".join(out) + ")"

    # arithmetic sugar
    def __add__(self, o):
        return add(self, tt(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, tt(o))

    def __rsub__(self, o):
        return sub(tt(o), self)

    def __mul__(self, o):
        return mul(self, tt(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, tt(o))

    def __rtruediv__(self, o):
        return div(tt(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return ipow(self, n)

    def __lt__(self, o):
        return lt(self, tt(o))

    def __le__(self, o):
        return le(self, tt(o))

    def __gt__(self, o):
        return lt(tt(o), self)

    def __ge__(self, o):
        return le(tt(o), self)


_CONSTS = {}


def C(c, s=None):
    if not isinstance(c, Fr):
        if isinstance(c, float) and (c != c or c in (INF, -INF)):
            return special(c)
        c = Fr(c)
    if s is None:
        s = "I" if c.denominator == 1 else "R"
    k = (c, s)
    t = _CONSTS.get(k)
    if t is None:
        t = T({(): c} if c else {}, s)
        if len(_CONSTS) < 200000:
            _CONSTS[k] = t
    return t


def special(c):
    if c != c:
        a = mk_atom("nan", "R", ())
        return T({((a.id, 1),): Fr(1)}, "R")
    a = mk_atom("inf", "R", (), lo=1e300, hi=INF)
    return T({((a.id, 1),): Fr(1 if c > 0 else -1)}, "R")


def tt(x):
    if isinstance(x, T):
        return x
    if isinstance(x, B):
        return b2t(x)
    return C(x)


def from_atom(a, e=1):
    return T({((a.id, e),): Fr(1)}, a.sort)


def var(name, sort="R", lo=-INF, hi=INF):
    a = mk_atom("var", sort, (name,))
    a.lo, a.hi = lo, hi
    return from_atom(a)


def add(a, b):
    if not a.m:
        return b if b.s == "I" or a.s == "R" or True else b
    if not b.m:
        return a
    if len(a.m) < len(b.m):
        a, b = b, a
    m = dict(a.m)
    for k, c in b.m.items():
        v = m.get(k)
        if v is None:
            m[k] = c
        else:
            v = v + c
            if v:
                m[k] = rnd(v)
            else:
                del m[k]
    r = T(m, "I" if a.s == "I" and b.s == "I" else "R")
    if SOS and 1 < len(m) <= SOSMAX and (_in_sos(a) and _known_nn(b) or _in_sos(b) and _known_nn(a)):
        SOS.add(_sos_key(r))
    return r


def addn(ts):
    ts = list(ts)
    m = {}
    s = "I"
    for t in ts:
        if t.s != "I":
            s = "R"
        for k, c in t.m.items():
            v = m.get(k)
            if v is None:
                m[k] = c
            else:
                v = v + c
                if v:
                    m[k] = rnd(v)
                else:
                    del m[k]
    r = T(m, s)
    if SOS and 1 < len(m) <= SOSMAX and len(ts) <= 4 and any(_in_sos(t) for t in ts) and all(_known_nn(t) for t in ts):
        SOS.add(_sos_key(r))
    return r


def scale(a, c):
    if not c:
        return C(0, a.s)
    if c == 1:
        return a
    return T(
        {k: rnd(v * c) for k, v in a.m.items()},
        a.s if c.denominator == 1 else "R",
    )


def neg(a):
    return T({k: -v for k, v in a.m.items()}, a.s)


def sub(a, b):
    if not b.m:
        return a
    return add(a, neg(b))


def _nexp(e):
    if type(e) is Fr and e.denominator == 1:
        return int(e)
    return e


def _mono_mul(k1, k2):
    """merge monomials -> (mono, special?) ; special flags need for reduction"""
    if not k1:
        return k2, False
    if not k2:
        return k1, False
    out = []
    i = j = 0
    n1, n2 = len(k1), len(k2)
    red = False
    while i < n1 and j < n2:
        a1, e1 = k1[i]
        a2, e2 = k2[j]
        if a1 == a2:
            e = _nexp(e1 + e2)
            if e != 0:
                out.append((a1, e))
                if ATOMS[a1].kind in ("sin", "pw", "sqrt", "ite", "cosv"):
                    red = True
            i += 1
            j += 1
        elif a1 < a2:
            out.append(k1[i])
            i += 1
        else:
            out.append(k2[j])
            j += 1
    out.extend(k1[i:])
    out.extend(k2[j:])
    if not red:
        # products of two ite atoms with the same condition get merged
        pass
    return tuple(out), red


def _reduce_mono(mono, c):
    """return T for c*mono after applying atom reductions, or None if nothing to do"""
    for idx, (aid, e) in enumerate(mono):
        a = ATOMS[aid]
        if a.kind == "sin" and (isinstance(e, int) and e >= 2):
            rest = mono[:idx] + mono[idx + 1 :]
            cosa = trig_partner(a)
            base = sub(C(1), mul(from_atom(cosa), from_atom(cosa)))
            r = T({rest: c}, "R")
            n, odd = divmod(e, 2)
            r = mul(r, ipow(base, n))
            if odd:
                r = mul(r, from_atom(a))
            return r
        if a.kind == "pw" and e >= 1:
            rest = mono[:idx] + mono[idx + 1 :]
            n = int(e // 1)
            f = _nexp(e - n)
            r = mul(T({rest: c}, "R"), ipow(a.args[0], n))
            if f:
                r = mul(r, from_atom(a, f))
            return r
        if a.kind == "sqrt" and e >= 2 and known(le(C(0), a.args[0])):
            rest = mono[:idx] + mono[idx + 1 :]
            n, odd = divmod(e, 2)
            r = mul(T({rest: c}, "R"), ipow(a.args[0], n))
            if odd:
                r = mul(r, from_atom(a))
            return r
        if a.kind == "ite" and isinstance(e, int) and e >= 2:
            rest = mono[:idx] + mono[idx + 1 :]
            cnd, x, y = a.args
            it = ite(cnd, ipow(x, e), ipow(y, e))
            return mul(T({rest: c}, "R"), it)
    return None


# polynomials known to be non-negative because they were formed as squares or as sums of squares
SOS = set()
SOSMAX = 80


def _sos_key(t):
    lead = float(abs(t.m[max(t.m, key=_order_key)]))
    return frozenset((k, float("%.9g" % (float(c) / lead))) for k, c in t.m.items())


def _in_sos(t):
    return bool(SOS) and 1 < len(t.m) <= SOSMAX and _sos_key(t) in SOS


def _known_nn(t):
    return iv(t)[0] >= 0 or _in_sos(t)


def _is_sqrt_of(r, P):
    sa = single_atom(r)
    if sa and sa[1].kind == "sqrt" and sa[2] == 1:
        return _same_up_to_scale(sa[1].args[0], P)
    return _same_up_to_scale(mul(r, r), P)


def _same_up_to_scale(a, b):
    """a = k b for a positive constant k, up to the noise of floating-point constants"""
    if not b.m or a.m.keys() != b.m.keys():
        return False
    k = max(b.m, key=_order_key)
    q = a.m[k] / b.m[k]
    return q > 0 and all(abs(a.m[j] - q * b.m[j]) <= abs(a.m[j]) / 10**11 for j in b.m)


def mul(a, b):
    r = _mul(a, b)
    if 1 < len(a.m) <= 16 and (a is b or a.m == b.m) and 1 < len(r.m) <= SOSMAX:
        SOS.add(_sos_key(r))
    return r


def _mul(a, b):
    if not a.m or not b.m:
        return C(0, "I" if a.s == b.s == "I" else "R")
    if a.isconst():
        return scale(b, a.const()) if a.const().denominator == 1 or True else b
    if b.isconst():
        return scale(a, b.const())
    if len(a.m) * len(b.m) > MAXMONO * 4:
        raise TooBig("product of %d x %d monomials" % (len(a.m), len(b.m)))
    s = "I" if a.s == "I" and b.s == "I" else "R"
    # cancellation p * p^-1
    r = _try_cancel(a, b)
    if r is None:
        r = _try_cancel(b, a)
    if r is not None:
        return r
    # bool-ite * anything with same condition etc. kept as monomials
    m = {}
    extra = []
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k, red = _mono_mul(k1, k2)
            c = c1 * c2
            if red:
                r = _reduce_mono(k, c)
                if r is not None:
                    extra.append(r)
                    continue
            v = m.get(k)
            if v is None:
                m[k] = rnd(c)
            else:
                v = v + c
                if v:
                    m[k] = rnd(v)
                else:
                    del m[k]
    if len(m) > MAXMONO:
        raise TooBig("product has %d monomials" % len(m))
    r = T(m, s)
    if extra:
        r = addn([r] + extra)
    return r


def _try_cancel(a, b):
    """a = c*P^-1*rest (single monomial), b a multi-term polynomial == k*P"""
    if len(a.m) != 1 or len(b.m) < 2:
        return None
    ((mono, c),) = a.m.items()
    for idx, (aid, e) in enumerate(mono):
        at = ATOMS[aid]
        if at.kind == "pw" and e < 0 and e <= -Fr(1, 2):
            p = at.args[0]
            q = _proportional(b, p)
            if q is not None:
                e2 = _nexp(e + 1)
                rest = mono[:idx] + (((aid, e2),) if e2 != 0 else ()) + mono[idx + 1 :]
                return T({rest: rnd(c * q)}, "R")
    return None


def _proportional(b, p):
    if len(b.m) != len(p.m):
        return None
    k0 = next(iter(p.m))
    if k0 not in b.m:
        return None
    q = b.m[k0] / p.m[k0]
    for k, c in p.m.items():
        v = b.m.get(k)
        if v is None:
            return None
        if v != q * c:
            return None
    return q


def ipow(a, n):
    if n == 0:
        return C(1)
    if n < 0:
        return inv(ipow(a, -n))
    if len(a.m) == 1:
        ((mono, c),) = a.m.items()
        if all(ATOMS[x].kind not in ("sin", "pw", "sqrt", "ite") for x, _ in mono):
            return T({tuple((x, _nexp(e * n)) for x, e in mono): rnd(c**n)}, a.s)
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def single_atom(t):
    """(coef, atom, exp) if t is c*atom^e"""
    if len(t.m) == 1:
        ((mono, c),) = t.m.items()
        if len(mono) == 1:
            return c, ATOMS[mono[0][0]], mono[0][1]
    return None


def single_ite(t):
    sa = single_atom(t)
    if sa and sa[1].kind == "ite" and sa[2] == 1:
        return sa[0], sa[1]
    return None


def map_ite(f, t):
    """distribute f over a term which is exactly c*ite(...) (+const)"""
    si = single_ite(t)
    k0 = Fr(0)
    if si is None and len(t.m) == 2 and () in t.m:
        k0 = t.m[()]
        si = single_ite(T({k: c for k, c in t.m.items() if k}, t.s))
    if si is None:
        return None
    c, a = si
    cnd, x, y = a.args

    def branch(cn, z):
        with assuming(cn):
            return f(add(scale(z, c), C(k0)))

    return ite(cnd, branch(cnd, x), branch(bnot(cnd), y))


_ITE_DEPTH = [0]


def _can_map(t):
    return _ITE_DEPTH[0] < 6


def with_ite(f, t):
    if _ITE_DEPTH[0] < 8:
        _ITE_DEPTH[0] += 1
        try:
            return map_ite(f, t)
        finally:
            _ITE_DEPTH[0] -= 1
    return None


def lead(t):
    return max(t.m.items(), key=lambda kc: (len(kc[0]), kc[0]) if kc[0] else (0, ()))


def _order_key(k):
    return tuple((a, float(e)) for a, e in k)


def primitive(t):
    """t = c * p with p canonical (|leading coefficient| 1, c>0)"""
    k = max(t.m, key=_order_key)
    c = abs(t.m[k])
    if c == 1:
        return Fr(1), t
    return c, T({kk: rnd(v / c) for kk, v in t.m.items()}, "R")


def content(t, ok):
    """largest monomial dividing every monomial of t (only atoms accepted by ok)"""
    it = iter(t.m)
    first = dict(next(it))
    first = {a: e for a, e in first.items() if ok(ATOMS[a])}
    for k in it:
        d = dict(k)
        for a in list(first):
            if a in d:
                e1, e2 = first[a], d[a]
                first[a] = min(e1, e2)
            else:
                # exponent 0 there
                if first[a] > 0:
                    del first[a]
                else:
                    pass
                    # negative exponent in some and 0 in others -> min is negative
        if not first:
            break
    # atoms with a negative exponent in a later monomial but absent from first
    neg_ = {}
    for k in t.m:
        for a, e in k:
            if e < 0 and ok(ATOMS[a]):
                neg_[a] = min(neg_.get(a, 0), e)
    for a, e in neg_.items():
        first[a] = min(first.get(a, 0), e) if a in first else e
    return tuple(sorted((a, _nexp(e)) for a, e in first.items() if e != 0))


def mono_inv(k):
    return tuple((a, -e) for a, e in k)


def atom_nonzero(a):
    if a.kind in ("exp",):
        return True
    if a.kind == "pw":
        return known(bne(a.args[0], C(0)))
    if a.kind == "inf":
        return True
    return known(bne(from_atom(a), C(0)))


def atom_nonneg(a):
    if a.kind == "exp":
        return True
    if a.kind == "pw":
        return True if known(le(C(0), a.args[0])) else False
    return known(le(C(0), from_atom(a)))


def inv(t):
    if t.isconst():
        if not t.m:
            return special(float("nan"))
        return C(1 / t.const())
    r = with_ite(inv, t)
    if r is not None:
        return r
    if len(t.m) == 1:
        ((mono, c),) = t.m.items()
        out = T({(): 1 / c}, "R")
        good = []
        for aid, e in mono:
            a = ATOMS[aid]
            if a.kind == "inf":
                return C(0)
            if a.kind == "nan":
                return special(float("nan"))
            if e < 0 or atom_nonzero(a):
                good.append((aid, -e))
            elif a.kind == "inv":
                # inv(inv(x)) : keep atom
                out = mul(out, ipow(a.args[0], int(e)) if False else from_atom(mk_atom("inv", "R", (from_atom(a),)), e))
            elif a.kind == "ite":
                out = mul(out, ipow(inv(from_atom(a)), int(e)))
            else:
                out = mul(out, from_atom(mk_atom("inv", "R", (from_atom(a),)), e))
        return mul(out, T({tuple(good): Fr(1)}, "R")) if good else out
    cont = content(t, lambda a: a.kind != "ite" and a.kind not in ("nan",) and atom_nonzero(a))
    if cont:
        t2 = T({_mono_mul(k, mono_inv(cont))[0]: v for k, v in t.m.items()}, "R")
        t2 = renorm(t2)
        return mul(T({mono_inv(cont): Fr(1)}, "R"), inv(t2))
    c, p = primitive(t)
    if p.m[max(p.m, key=_order_key)] < 0:
        p = neg(p)
        c = -c
    if known(bne(p, C(0))):
        a = mk_atom("pw", "R", (p,))
        return T({((a.id, -1),): 1 / c}, "R")
    a = mk_atom("inv", "R", (p,))
    return T({((a.id, 1),): 1 / c}, "R")


def renorm(t):
    """re-apply monomial reductions (after exponent surgery)"""
    need = [k for k in t.m if any(ATOMS[a].kind == "pw" and e >= 1 for a, e in k)]
    if not need:
        return t
    m = dict(t.m)
    ex = []
    for k in need:
        c = m.pop(k)
        ex.append(_reduce_mono(k, c))
    return addn([T(m, "R")] + ex)


def div(a, b):
    if b.isconst():
        if not b.m:
            return special(float("nan"))
        return scale(a, 1 / b.const()) if True else None
    # exact proportionality
    if len(a.m) > 1 and len(b.m) == len(a.m):
        q = _proportional(a, b)
        if q is not None and known(bne(b, C(0))):
            return C(q)
    return mul(a, inv(b))


def _sqrt_const(c):
    if c < 0:
        return special(float("nan"))
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return C(Fr(rn, rd), "R")
    # high precision rational approximation (200 bits)
    sh = 200 + max(0, d.bit_length() - n.bit_length())
    sh += sh & 1
    v = math.isqrt((n << (2 * sh)) // d)
    return C(Fr(v, 1 << sh), "R")


def absT(t):
    if known(le(C(0), t)):
        return t
    if known(le(t, C(0))):
        return neg(t)
    return ite(le(C(0), t), t, neg(t))


def poly_sqrt(p):
    """q with q*q == p, or None (plain polynomials with integer exponents only)"""
    if len(p.m) < 3 or len(p.m) > 60:
        return None
    for k in p.m:
        for a, e in k:
            if not isinstance(e, int) or ATOMS[a].kind in ("sin", "sqrt", "pw", "ite", "inv"):
                return None
    def key(k):
        return _grlex(k)
    k = max(p.m, key=key)
    c = p.m[k]
    if c <= 0 or any(e % 2 for _, e in k):
        return None
    r = _sqrt_const(c)
    if r.const() ** 2 != c:
        return None
    lk = tuple((a, e // 2) for a, e in k)
    q = T({lk: r.const()}, "R")
    lt_ = T({lk: 2 * r.const()}, "R")
    rem = sub(p, mul(q, q))
    n = 0
    while rem.m and n < 40:
        n += 1
        k2 = max(rem.m, key=key)
        c2 = rem.m[k2]
        d1 = dict(k2)
        ok = True
        for a, e in lk:
            d1[a] = d1.get(a, 0) - e
            if d1[a] < 0:
                ok = False
        if not ok:
            return None
        nk = tuple(sorted((a, e) for a, e in d1.items() if e))
        term = T({nk: c2 / (2 * r.const())}, "R")
        q2 = add(q, term)
        rem2 = sub(p, mul(q2, q2))
        if rem2.m and key(max(rem2.m, key=key)) >= key(k2):
            return None
        q, rem = q2, rem2
    return q if not rem.m else None


def _grlex(k):
    return (sum(float(e) for _, e in k), tuple((-a, float(e)) for a, e in k))


def denoise(t):
    """drop terms of a bounded trigonometric polynomial that are rounding noise next to its largest coefficient"""
    if len(t.m) < 2:
        return t
    mx = max(abs(c) for c in t.m.values())
    lim = mx / 10**13
    if all(abs(c) > lim for c in t.m.values()) and all(c.denominator <= 1 << 24 for c in t.m.values()):
        return t
    for k in t.m:
        for a, e in k:
            if ATOMS[a].kind not in ("sin", "cos") or not isinstance(e, int) or e < 0:
                return t
    m = {}
    for k, c in t.m.items():
        if abs(c) > lim:
            r = Fr(round(c))
            m[k] = r if r and abs(c - r) < abs(c) / 10**13 else c
    return T(m, t.s)


def sqrt(t):
    t = denoise(t)
    if t.isconst():
        return _sqrt_const(t.const())
    r = with_ite(sqrt, t)
    if r is not None:
        return r
    if len(t.m) == 1:
        ((mono, c),) = t.m.items()
        out = C(1)
        # sign handling: pull out known-nonneg atoms and even powers
        sgn = 1 if c > 0 else -1
        rest = []
        for aid, e in mono:
            a = ATOMS[aid]
            if a.kind in ("nan",):
                return special(float("nan"))
            if a.kind == "exp":
                out = mul(out, T({((aid, _nexp(Fr(e) / 2)),): Fr(1)}, "R"))
            elif a.kind == "inf":
                return special(INF)
            elif atom_nonneg(a):
                if e > 0 or atom_nonzero(a) or e < 0:
                    if a.kind in ("var", "pw") :
                        out = mul(out, T({((aid, _nexp(Fr(e) / 2)),): Fr(1)}, "R"))
                    elif isinstance(e, int) and e % 2 == 0:
                        out = mul(out, T({((aid, e // 2),): Fr(1)}, "R"))
                    else:
                        n = int(e // 2)
                        if n:
                            out = mul(out, T({((aid, n),): Fr(1)}, "R"))
                        pa = mk_atom("pw", "R", (from_atom(a),))
                        out = mul(out, T({((pa.id, _nexp(Fr(e - 2 * n) / 2)),): Fr(1)}, "R"))
            elif isinstance(e, int) and e % 2 == 0:
                out = mul(out, absT(T({((aid, e // 2),): Fr(1)}, "R")))
            else:
                rest.append((aid, e))
        if not rest:
            if sgn < 0:
                return special(float("nan")) if not known(bne(out, C(0))) else special(float("nan"))
            return mul(out, _sqrt_const(c))
        k = T({tuple(rest): Fr(sgn)}, "R")
        a = mk_atom("sqrt", "R", (k,), lo=0)
        return mul(mul(out, _sqrt_const(abs(c))), from_atom(a))
    # sin^2 detection: k - k*cos^2
    r = _sin2(t)
    if r is not None:
        return r
    q = poly_sqrt(t)
    if q is not None:
        return absT(q)
    cont = content(t, lambda a: a.kind in ("var", "pw", "exp", "cos") )
    ev = []
    for aid, e in cont:
        a = ATOMS[aid]
        if a.kind in ("exp",) or (a.kind in ("var", "pw") and atom_nonneg(a) and (e > 0 or atom_nonzero(a) or True)):
            if isinstance(e, int) or a.kind in ("exp", "pw", "var"):
                ev.append((aid, e))
        elif isinstance(e, int) and e % 2 == 0:
            ev.append((aid, e))
    if ev:
        ev = tuple(ev)
        t2 = renorm(T({_mono_mul(k, mono_inv(ev))[0]: v for k, v in t.m.items()}, "R"))
        return mul(sqrt(T({ev: Fr(1)}, "R")), sqrt(t2))
    c, p = primitive(t)
    if known(le(C(0), p)) or _in_sos(p):
        a = mk_atom("pw", "R", (p,))
        return mul(_sqrt_const(c), T({((a.id, Fr(1, 2)),): Fr(1)}, "R"))
    a = mk_atom("sqrt", "R", (p,), lo=0)
    return mul(_sqrt_const(c), from_atom(a))


def _sin2(t):
    if len(t.m) != 2:
        return None
    (k1, c1), (k2, c2) = t.m.items()
    if c1 != -c2:
        return None
    if len(k2) < len(k1):
        k1, c1, k2, c2 = k2, c2, k1, c1
    d1, d2 = dict(k1), dict(k2)
    extra = {a: _nexp(e - d1.get(a, 0)) for a, e in d2.items() if e != d1.get(a, 0)}
    if set(d1) - set(d2):
        return None
    if len(extra) == 1:
        ((aid, e),) = extra.items()
        a = ATOMS[aid]
        if e == 2 and a.kind == "cos" and c1 > 0:
            s = from_atom(trig_partner(a))
            if not k1:
                return mul(_sqrt_const(c1), absT(s))
            return mul(sqrt(T({k1: c1}, "R")), absT(s))
    return None


def tpow(x, y):
    """x**y"""
    if y.isconst():
        c = y.const()
        if c.denominator == 1 and abs(c) <= 64:
            return ipow(x, int(c))
        if c.denominator == 2 and abs(c) <= 20:
            r = ipow(sqrt(x), abs(c.numerator))
            return r if c > 0 else inv(r)
    if x.isconst():
        if x.const() == 1:
            return C(1)
        if x.const() > 0:
            return exp(mul(y, log(x)))
    if known(lt(C(0), x)):
        return exp(mul(y, log(x)))
    r = with_ite(lambda z: tpow(z, y), x)
    if r is not None:
        return r
    if y.isconst() and known(le(C(0), x)):
        return from_atom(mk_atom("fn", "R", ("pow0", x, y), lo=0))
    return from_atom(mk_atom("fn", "R", ("pow", x, y)))


def exp(t):
    if t.isconst():
        c = t.const()
        if c == 0:
            return C(1)
        try:
            return C(read_float(math.exp(float(c))), "R")
        except OverflowError:
            return special(INF)
    r = with_ite(exp, t)
    if r is not None:
        return r
    mono = {}
    cst = Fr(1)
    out = C(1)
    for k, c in t.m.items():
        if not k:
            # keep e^const symbolic-free: numeric factor
            cst *= Fr(math.exp(float(c)))
            continue
        if any(ATOMS[a].kind in ("nan",) for a, _ in k):
            return special(float("nan"))
        if any(ATOMS[a].kind in ("inf",) for a, _ in k):
            return C(0) if c < 0 else special(INF)
        # exp(c*log(x)) -> x^c
        la = [(i, ATOMS[a]) for i, (a, e) in enumerate(k) if ATOMS[a].kind == "fn" and ATOMS[a].args[0] == "log" and e == 1]
        if la and len(k) == 1:
            x = la[0][1].args[1]
            out = mul(out, rpow(x, c))
            continue
        # an ite*something? leave
        a = mk_atom("exp", "R", (k,), lo=0)
        mono[a.id] = _nexp(mono.get(a.id, 0) + snap_coef(c))
    r = T({tuple(sorted((a, e) for a, e in mono.items() if e)): cst}, "R")
    return mul(out, r)


def rpow(x, c):
    """x^c, x known positive, rational c"""
    if x.isconst():
        return C(Fr(float(x.const()) ** float(c)), "R")
    if c.denominator == 1 and abs(c) < 40:
        return ipow(x, int(c))
    if len(x.m) == 1:
        ((mono, k),) = x.m.items()
        if all(ATOMS[a].kind in ("var", "pw", "exp") for a, _ in mono) and all(atom_nonneg(ATOMS[a]) for a, _ in mono):
            kc = Fr(1) if k == 1 else Fr(float(k) ** float(c))
            return renorm(T({tuple((a, _nexp(Fr(e) * c)) for a, e in mono): kc}, "R"))
    k, p = primitive(x)
    a = mk_atom("pw", "R", (p,))
    kc = Fr(1) if k == 1 else Fr(float(k) ** float(c))
    return renorm(T({((a.id, _nexp(c)),): kc}, "R"))


def log(t):
    if t.isconst():
        c = t.const()
        if c <= 0:
            return special(-INF if c == 0 else float("nan"))
        return C(Fr(math.log(float(c))), "R") if c != 1 else C(0)
    r = with_ite(log, t)
    if r is not None:
        return r
    if len(t.m) == 1:
        ((mono, c),) = t.m.items()
        if c > 0:
            out = C(Fr(math.log(float(c))), "R") if c != 1 else C(0)
            rest = []
            for aid, e in mono:
                a = ATOMS[aid]
                if a.kind == "exp":
                    out = add(out, T({a.args[0]: Fr(e)}, "R"))
                elif a.kind == "pw":
                    out = add(out, scale(_logatom(a.args[0]), Fr(e)))
                elif a.kind == "var" and known(lt(C(0), from_atom(a))):
                    out = add(out, scale(_logatom(from_atom(a)), Fr(e)))
                else:
                    rest.append((aid, e))
            if not rest:
                return out
            return add(out, _logatom(T({tuple(rest): Fr(1)}, "R")))
    c, p = primitive(t)
    return add(_logatom(p), C(Fr(math.log(float(c))), "R") if c != 1 else C(0))


def _logatom(p):
    return from_atom(mk_atom("fn", "R", ("log", p)))


# ---------------------------------------------------------------- trig
ANGLE_UNIT = {}  # monomial -> Fraction unit


def trig_partner(a):
    other = "cos" if a.kind == "sin" else "sin"
    return mk_atom(other, "R", a.args, lo=-1, hi=1)


def _snap(v):
    for c in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(v - c) < 4e-16:
            return Fr(c)
    return Fr(v)


def _cs_mono(k, c):
    """(cos, sin) of c*monomial"""
    sgn = 1
    if c < 0:
        sgn, c = -1, -c
    sa = None
    if c > 3 and all(ATOMS[a].sort == "I" and isinstance(e, int) and e > 0 or ATOMS[a].sort == "I" and e == 1 for a, e in k):
        # whole turns
        n = float(c) / (2 * math.pi)
        if abs(n - round(n)) < 1e-13 * max(1.0, abs(n)):
            return C(1), C(0)
    if len(k) == 1 and k[0][1] == 1:
        a = ATOMS[k[0][0]]
        if a.kind == "fn" and a.args[0] == "atan2":
            sa = a
    unit = ANGLE_UNIT.get(k, Fr(1))
    n = c / unit
    if n.denominator == 1 and n <= 12:
        n = int(n)
        bc, bs = _cs_base(k, unit, sa)
    else:
        n = 1
        bc, bs = _cs_base(k, c, sa)
    cc, ss = bc, bs
    for _ in range(n - 1):
        cc, ss = sub(mul(cc, bc), mul(ss, bs)), add(mul(ss, bc), mul(cc, bs))
    return cc, (ss if sgn > 0 else neg(ss))


def _cs_base(k, u, sa):
    if sa is not None and u == 1:
        y, x = sa.args[1], sa.args[2]
        r2 = add(mul(x, x), mul(y, y))
        if r2 == C(1):
            return x, y
        zero = beq(r2, C(0))
        r = sqrt(r2)
        if known(bnot(zero)):
            return div(x, r), div(y, r)
        with assuming(bnot(zero)):
            cx, sx = div(x, r), div(y, r)
        return ite(zero, C(1), cx), ite(zero, C(0), sx)
    if sa is not None and u == Fr(1, 2):
        c1, s1 = _cs_base(k, Fr(1), sa)
        ch = sqrt(scale(add(C(1), c1), Fr(1, 2)))
        sh = sqrt(scale(sub(C(1), c1), Fr(1, 2)))
        y = sa.args[1]
        return ch, ite(lt(y, C(0)), neg(sh), sh)
    t = (k, u)
    ca = mk_atom("cos", "R", t, lo=-1, hi=1)
    sa_ = mk_atom("sin", "R", t, lo=-1, hi=1)
    return from_atom(ca), from_atom(sa_)


def cossin(t):
    if t.isconst():
        v = float(t.const())
        return C(_snap(math.cos(v)), "R"), C(_snap(math.sin(v)), "R")
    si = single_ite(t)
    if si is not None:
        c, a = si
        cnd, x, y = a.args
        with assuming(cnd):
            c1, s1 = cossin(scale(x, c))
        with assuming(bnot(cnd)):
            c2, s2 = cossin(scale(y, c))
        return ite(cnd, c1, c2), ite(cnd, s1, s2)
    cc, ss = C(1), C(0)
    for k, c in sorted(t.m.items(), key=lambda kc: _order_key(kc[0])):
        if not k:
            # split off multiples of pi/2 exactly
            v = float(c)
            c2, s2 = C(_snap(math.cos(v)), "R"), C(_snap(math.sin(v)), "R")
        else:
            if any(ATOMS[a].kind in ("nan", "inf") for a, _ in k):
                n = special(float("nan"))
                return n, n
            if len(k) == 1 and ATOMS[k[0][0]].kind == "ite" and k[0][1] == 1:
                c2, s2 = cossin(T({k: c}, "R"))
            else:
                c2, s2 = _cs_mono(k, c)
        cc, ss = sub(mul(cc, c2), mul(ss, s2)), add(mul(ss, c2), mul(cc, s2))
    return cc, ss


def cos(t):
    return cossin(t)[0]


def sin(t):
    return cossin(t)[1]


def tan(t):
    c, s = cossin(t)
    return div(s, c)


PI = math.pi


def atan2(y, x):
    if y.isconst() and x.isconst():
        return C(Fr(math.atan2(float(y.const()), float(x.const()))), "R")
    r = with_ite(lambda z: atan2(z, x), y)
    if r is None:
        r = with_ite(lambda z: atan2(y, z), x)
    if r is not None:
        return r
    # canonical scaling by a positive factor
    if not y.isconst():
        k = abs(y.m[max(y.m, key=_order_key)])
    else:
        k = abs(x.m[max(x.m, key=_order_key)])
    if k != 1:
        y, x = scale(y, 1 / k), scale(x, 1 / k)
    # strip common positive monomial content
    if y.m and x.m:
        both = T(dict(list(y.m.items())), "R")
        cy = dict(content(y, _poscontent))
        cx = dict(content(x, _poscontent))
        com = {}
        for a in set(cy) | set(cx):
            e = min(cy.get(a, 0), cx.get(a, 0))
            if e != 0:
                com[a] = e
        if com:
            ci = tuple(sorted((a, _nexp(-e)) for a, e in com.items()))
            f = T({ci: Fr(1)}, "R")
            y, x = mul(y, f), mul(x, f)
    # atan2(sin a, cos a) = a for a in (-pi, pi)
    if len(x.m) == 1 and len(y.m) == 1:
        ((kx, cx),), ((ky, cy),) = x.m.items(), y.m.items()
        if cx == 1 and cy == 1 and len(kx) == 1 and len(ky) == 1 and kx[0][1] == 1 and ky[0][1] == 1:
            ax, ay = ATOMS[kx[0][0]], ATOMS[ky[0][0]]
            if ax.kind == "cos" and ay.kind == "sin" and ax.args == ay.args:
                a = T({ax.args[0]: ax.args[1]}, "R")
                pi = C(Fr(math.pi))
                if known(lt(a, pi)) and known(lt(neg(pi), a)):
                    return a
    return from_atom(mk_atom("fn", "R", ("atan2", y, x), lo=-3.1415926535897936, hi=3.1415926535897936))


def _poscontent(a):
    if a.kind == "exp":
        return True
    if a.kind in ("pw", "var", "cos", "sin", "sqrt"):
        return known(lt(C(0), from_atom(a) if a.kind != "pw" else a.args[0]))
    return False


def fn(name, *args, lo=-INF, hi=INF, sort="R"):
    return from_atom(mk_atom("fn", sort, (name,) + args, lo=lo, hi=hi))


# ---------------------------------------------------------------- integers
def _int_part(t):
    """split t = n + r with n integer valued"""
    ip, rp = {}, {}
    for k, c in t.m.items():
        if all(ATOMS[a].sort == "I" and isinstance(e, int) and e > 0 for a, e in k):
            if c.denominator == 1:
                ip[k] = c
            elif not k:
                f = c.numerator // c.denominator
                if f:
                    ip[k] = Fr(f)
                rp[k] = c - f
            else:
                f = c.numerator // c.denominator
                if f:
                    ip[k] = Fr(f)
                rp[k] = c - f
        else:
            rp[k] = c
    return T(ip, "I"), T(rp, "R")


def floor(t):
    if t.s == "I":
        return t
    if t.isconst():
        return C(Fr(math.floor(t.const())), "I")
    r = with_ite(floor, t)
    if r is not None:
        return r
    n, r = _int_part(t)
    if not r.m:
        return n
    if r.isconst():
        return add(n, C(Fr(math.floor(r.const())), "I"))
    lo, hi = iv(r)
    if lo > -INF and hi < INF and math.floor(lo) == math.floor(hi) and _strict_iv(r):
        return add(n, C(Fr(math.floor(lo)), "I"))
    a = mk_atom("floor", "I", (r,))
    return add(n, from_atom(a))


def _strict_iv(r):
    return True


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    if t.s == "I":
        return t
    if known(le(C(0), t)):
        return floor(t)
    if known(le(t, C(0))):
        return ceil(t)
    return ite(le(C(0), t), floor(t), ceil(t))


def rint(t):
    """round half to even"""
    if t.s == "I":
        return t
    if t.isconst():
        return C(Fr(round(t.const())), "I")
    r = with_ite(rint, t)
    if r is not None:
        return r
    n, r = _int_part(t)
    if not r.m:
        return n
    h = add(t, C(Fr(1, 2)))
    f = floor(h)
    odd = sub(f, scale(floor(scale(f, Fr(1, 2))), Fr(2)))
    return ite(band(beq(f, h), beq(odd, C(1))), sub(f, C(1)), f)


def round_away(t):
    if t.s == "I":
        return t
    return ite(le(C(0), t), floor(add(t, C(Fr(1, 2)))), ceil(sub(t, C(Fr(1, 2)))))


def idiv_trunc(a, b):
    """integer division truncating toward zero"""
    q = div(a, b)
    if a.isconst() and b.isconst():
        return trunc(T(q.m, "R" if q.const().denominator != 1 else "I"))
    if b.isconst():
        q = T(q.m, "I" if all(c.denominator == 1 for c in q.m.values()) else "R")
        return trunc(q)
    q = T(q.m, "R")
    return trunc(q)


def rem_trunc(a, b):
    """C-style remainder, works for reals and ints"""
    if b.isconst():
        if not b.m:
            return special(float("nan"))
        q = scale(a, 1 / b.const())
        if a.s == "I" and b.s == "I":
            q = T(q.m, "I" if all(c.denominator == 1 for c in q.m.values()) else "R")
        else:
            q = T(q.m, "R")
    else:
        q = T(div(a, b).m, "R")
    qt = trunc(q)
    r = sub(a, mul(b, qt))
    return r if a.s == "I" and b.s == "I" else T(r.m, "R")


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        if self.k == "lit":
            return str(self.a)
        return "%s%r" % (self.k, self.a)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)


_B_TAB = {}
_BS = []


def mkb(k, a):
    key = (k, a)
    b = _B_TAB.get(key)
    if b is None:
        b = B()
        b.k, b.a = k, a
        b.id = len(_BS)
        _BS.append(b)
        _B_TAB[key] = b
    return b


TRUE = mkb("lit", True)
FALSE = mkb("lit", False)


def fresh():
    """forget every interned atom: bounds cached on atoms belong to one obligation"""
    del ATOMS[:]
    _ATOM_TAB.clear()
    _B_TAB.clear()
    del _BS[:]
    for b in (TRUE, FALSE):
        b.id = len(_BS)
        _BS.append(b)
        _B_TAB[(b.k, b.a)] = b
    _AB_CACHE.clear()
    _ATOMSET_T.clear()
    _COEF.clear()
    ANGLE_UNIT.clear()
    CTX.reset()


def blit(x):
    return TRUE if x else FALSE


def bvar(name):
    return mkb("bvar", name)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == "not":
        return b.a
    if b.k == "le":
        return _cmp("lt", neg(b.a))
    if b.k == "lt":
        return _cmp("le", neg(b.a))
    if b.k == "eq":
        return mkb("ne", b.a)
    if b.k == "ne":
        return mkb("eq", b.a)
    if b.k == "and":
        return bor(*[bnot(x) for x in b.a])
    if b.k == "or":
        return band(*[bnot(x) for x in b.a])
    return mkb("not", b)


def band(*bs):
    out = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.k == "and":
            out.update(b.a)
        else:
            out.add(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    for b in out:
        if bnot_fast(b) in out:
            return FALSE
    return mkb("and", frozenset(out))


def bnot_fast(b):
    if b.k in ("and", "or"):
        return None
    return bnot(b)


def bor(*bs):
    out = set()
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.k == "or":
            out.update(b.a)
        else:
            out.add(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    for b in out:
        if bnot_fast(b) in out:
            return TRUE
    return mkb("or", frozenset(out))


def bxor(a, b):
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return FALSE
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def _cmp(op, d):
    """d <= 0 / d < 0 / d == 0 / d != 0"""
    if len(d.m) > 1:
        d = denoise(d)
    if d.isconst():
        c = d.const()
        return blit({"le": c <= 0, "lt": c < 0, "eq": c == 0, "ne": c != 0}[op])
    # bool-valued ite atoms compared with constants: ite(c,1,0) ...
    si = single_ite(d)
    if si is None and len(d.m) == 2 and () in d.m:
        si = single_ite(T({k: c for k, c in d.m.items() if k}, d.s))
    if si is not None:
        c, a = si
        cnd, x, y = a.args
        if x.isconst() and y.isconst():
            k = d.m.get((), Fr(0))
            bx = _cmp(op, C(c * x.const() + k))
            by = _cmp(op, C(c * y.const() + k))
            return bite(cnd, bx, by)
    # canonical scaling
    k = max(d.m, key=_order_key)
    c = d.m[k]
    f = abs(c) if op in ("le", "lt") else c
    if f != 1:
        d = T({kk: rnd(v / f) for kk, v in d.m.items()}, "R" if d.s == "R" else d.s)
    if d.s == "I" or all(
        all(ATOMS[a].sort == "I" and isinstance(e, int) and e > 0 for a, e in kk) for kk in d.m
    ):
        # integer tightening: d integral atoms; multiply out denominators
        L = 1
        for kk, v in d.m.items():
            if kk:
                L = L * v.denominator // math.gcd(L, v.denominator)
        if L < 1 << 200:
            g = 0
            for kk, v in d.m.items():
                if kk:
                    g = math.gcd(g, (v * L).numerator)
            sc = Fr(L, g or 1)
            cc = d.m.get((), Fr(0)) * sc
            mm = {kk: v * sc for kk, v in d.m.items() if kk}
            if op == "le":
                cc = Fr(math.ceil(cc))
            elif op == "lt":
                cc = Fr(math.floor(cc) + 1)
                op = "le"
            elif cc.denominator != 1:
                return blit(op == "ne")
            if cc:
                mm[()] = cc
            d = T(mm, "I")
    lo, hi = iv(d)
    if op == "le":
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
    elif op == "lt":
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
    elif op == "eq":
        if lo > 0 or hi < 0:
            return FALSE
    elif op == "ne":
        if lo > 0 or hi < 0:
            return TRUE
    if op in ("eq", "ne"):
        # monomial with nonzero atoms
        if len(d.m) == 1:
            ((mono, c),) = d.m.items()
            nz = [a for a, e in mono if not (ATOMS[a].kind == "exp" or (ATOMS[a].kind == "pw" and e < 0))]
            if not nz:
                return blit(op == "ne")
            if len(nz) < len(mono) or any(e != 1 for a, e in mono if a in nz):
                parts = []
                for a in nz:
                    at = ATOMS[a]
                    parts.append(_cmp("eq", at.args[0] if at.kind == "pw" else from_atom(at)))
                r = bor(*parts)
                return r if op == "eq" else bnot(r)
    return mkb(op, d)


def le(a, b):
    return _cmp("le", sub(a, b))


def lt(a, b):
    return _cmp("lt", sub(a, b))


def beq(a, b):
    return _cmp("eq", sub(a, b))


def bne(a, b):
    return _cmp("ne", sub(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    k = CTX.lookup(c)
    if k is True:
        return a
    if k is False:
        return b
    if CTX.ub:
        k = bound_known(c)
        if k is not None:
            return a if k else b
    # nested same-condition
    sa = single_ite(a)
    if sa and sa[1].args[0] is c:
        a = scale(sa[1].args[1], sa[0])
    elif sa and sa[1].args[0] is bnot(c):
        a = scale(sa[1].args[2], sa[0])
    sb = single_ite(b)
    if sb and sb[1].args[0] is c:
        b = scale(sb[1].args[2], sb[0])
    elif sb and sb[1].args[0] is bnot(c):
        b = scale(sb[1].args[1], sb[0])
    if a == b:
        return a
    # guarded square root: (0 where P <= 0, else sqrt(P)) is sqrt(P) for every P >= 0
    if c.k in ("le", "lt", "eq", "ne"):
        z, r, P = (a, b, c.a) if c.k in ("le", "eq") else (b, a, neg(c.a) if c.k == "lt" else c.a)
        if not z.m and len(r.m) == 1 and isinstance(P, T) and _known_nn(P) and iv(r)[0] >= 0 and _is_sqrt_of(r, P):
            return r
    nc = bnot(c)
    if nc.id < c.id:
        c, a, b = nc, b, a
    s = "I" if a.s == "I" and b.s == "I" else "R"
    la, ha = iv(a)
    lb, hb = iv(b)
    at = mk_atom("ite", s, (c, a, b), lo=min(la, lb), hi=max(ha, hb))
    return from_atom(at)


def b2t(b):
    return ite(b, C(1), C(0))


def t2b(t):
    return bne(t, C(0))


def tmax(a, b):
    if a == b:
        return a
    c = le(b, a)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return ite(c, a, b)


def tmin(a, b):
    if a == b:
        return a
    c = le(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return ite(c, a, b)


def sgn(t):
    if t.isconst():
        c = t.const()
        return C(1 if c > 0 else (-1 if c < 0 else 0))
    return ite(lt(C(0), t), C(1), ite(lt(t, C(0)), C(-1), C(0)))


# ---------------------------------------------------------------- intervals (floats, outward enough for our bounds)
def _mulf(a, b):
    if a == 0 or b == 0:
        return 0.0
    try:
        return a * b
    except OverflowError:
        return INF


def _imul(x, y):
    ps = (_mulf(x[0], y[0]), _mulf(x[0], y[1]), _mulf(x[1], y[0]), _mulf(x[1], y[1]))
    return min(ps), max(ps)


def _fpow(x, e):
    if x == INF:
        return INF if e > 0 else 0.0
    if x == -INF:
        return INF if e % 2 == 0 else -INF
    if x == 0 and e < 0:
        return INF
    try:
        return float(x) ** float(e) if e != 1 else float(x)
    except OverflowError:
        return INF


def atom_iv(a):
    k = a.kind
    if k == "fn" and a.args[0] == "log":
        lo, hi = iv(a.args[1])
        return (math.log(lo) - 1e-13 if 0 < lo < INF else -INF), (math.log(hi) + 1e-13 if 0 < hi < INF else (INF if hi > 0 else -INF))
    if k == "var" or k == "fn" or k == "ite":
        return a.lo, a.hi
    if k == "floor":
        lo, hi = iv(a.args[0])
        return (math.floor(lo) if lo > -INF else lo), (math.floor(hi) if hi < INF else hi)
    if k in ("sin", "cos"):
        return -1.0, 1.0
    if k == "exp":
        lo, hi = iv(T({a.args[0]: Fr(1)}, "R"))
        return (math.exp(lo) if -700 < lo < 700 else (0.0 if lo <= -700 else 1e300)), (
            math.exp(hi) if -700 < hi < 700 else (INF if hi >= 700 else 1e-300)
        )
    if k == "pw":
        return iv(a.args[0])
    if k == "sqrt":
        lo, hi = iv(a.args[0])
        return 0.0, (math.sqrt(hi) if 0 <= hi < INF else INF)
    return a.lo, a.hi


def iv(t):
    if t._iv is not None:
        return t._iv
    lo = hi = 0.0
    for k, c in t.m.items():
        try:
            cf = float(c)
        except OverflowError:
            cf = INF if c > 0 else -INF
        l, h = 1.0, 1.0
        for aid, e in k:
            al, ah = atom_iv(ATOMS[aid])
            if e == 1:
                pl, ph = float(al) if al not in (INF, -INF) else al, float(ah) if ah not in (INF, -INF) else ah
            elif isinstance(e, int) and e > 0 and e % 2 == 0:
                v = (_fpow(al, e), _fpow(ah, e))
                pl, ph = min(v), max(v)
                if al <= 0 <= ah:
                    pl = 0.0
            elif isinstance(e, int) and e > 0:
                pl, ph = _fpow(al, e), _fpow(ah, e)
            else:
                # negative or fractional
                if al > 0 or (al == 0 and e > 0):
                    v = (_fpow(al, e), _fpow(ah, e))
                    pl, ph = min(v), max(v)
                elif al == 0 and ATOMS[aid].kind in ("var", "pw", "exp"):
                    pl, ph = (_fpow(ah, e) if e < 0 else 0.0), INF
                elif isinstance(e, int) and e % 2 == 0:
                    pl, ph = 0.0, INF
                elif isinstance(e, Fr):
                    pl, ph = 0.0, INF
                else:
                    pl, ph = -INF, INF
            if math.isnan(pl) or math.isnan(ph):
                pl, ph = -INF, INF
            l, h = _imul((l, h), (pl, ph))
        if not k:
            l = h = cf
        else:
            l, h = _imul((l, h), (cf, cf))
        lo += l
        hi += h
        if math.isnan(lo):
            lo = -INF
        if math.isnan(hi):
            hi = INF
    # outward rounding
    if lo not in (INF, -INF) and not _smallint(lo):
        lo -= abs(lo) * 1e-12 + (1e-300 if lo != 0 else 0)
    if hi not in (INF, -INF) and not _smallint(hi):
        hi += abs(hi) * 1e-12
    t._iv = (lo, hi)
    return t._iv


def _smallint(x):
    return abs(x) < 2**40 and float(x) * 64 == int(float(x) * 64)


# ---------------------------------------------------------------- context
class Context:
    def __init__(self):
        self.reset()

    def reset(self):
        self.base = []  # list of B assumptions
        self.stack = []
        self.cache = {}
        self.facts = {}
        self.solver = None
        self.known_ms = 250
        self.ub = {}  # non-constant part (scaled to leading coefficient +-1) -> smallest known upper bound
        self.nknown = 0
        self.use_solver = True

    def assume(self, b):
        if b is TRUE:
            return
        self.base.append(b)
        self._fact(b)
        self.cache = {}
        self.solver = None

    def _fact(self, b):
        if b.k == "and":
            for x in b.a:
                self._fact(x)
        else:
            self.facts[b] = True
            self.facts[bnot(b)] = False
            if b.k in ("le", "lt", "eq"):
                for q in ((b.a, neg(b.a)) if b.k == "eq" else (b.a,)):
                    k, c = _shape(q)
                    if k is not None and -c < self.ub.get(k, INF):
                        self.ub[k] = -c

    def bound(self, d):
        """smallest recorded upper bound of d, or None"""
        k, c = _shape(d)
        u = self.ub.get(k) if k is not None else None
        return None if u is None else u + c

    def lookup(self, c):
        v = self.facts.get(c)
        if v is not None:
            return v
        for f in reversed(self.stack):
            v = f.get(c)
            if v is not None:
                return v
        return None

    def key(self):
        return tuple(f["__id"] for f in self.stack)

    def assumptions(self):
        return self.base + [f["__b"] for f in self.stack]


def _shape(d):
    """(key of the non-constant part scaled to leading coefficient +-1, scaled constant)"""
    if len(d.m) > 3000:
        return None, 0
    c0 = Fr(0)
    lead_ = None
    for k, c in d.m.items():
        if not k:
            c0 = c
        elif lead_ is None or abs(c) > lead_:
            lead_ = abs(c)
    if lead_ is None:
        return None, 0
    return frozenset((k, "%.10e" % float(c / lead_)) for k, c in d.m.items() if k), c0 / lead_


CTX = Context()


def _pos_content(d):
    """d divided by the powers of assumed-positive polynomials common to all its monomials"""
    com = None
    for k in d.m:
        p = {a: e for a, e in k if ATOMS[a].kind == "pw"}
        if com is None:
            com = p
        else:
            com = {a: e for a, e in com.items() if p.get(a) == e}
        if not com:
            return d
    good, sg = set(), 1
    for a, e in (com or {}).items():
        u = CTX.bound(neg(ATOMS[a].args[0]))
        if u is not None and u < 0:
            good.add(a)
        elif isinstance(e, int):
            u = CTX.bound(ATOMS[a].args[0])
            if u is not None and u < 0:
                good.add(a)
                sg *= -1 if e % 2 else 1
    if not good:
        return d
    return T({tuple((a, e) for a, e in k if a not in good): c * sg for k, c in d.m.items()}, d.s)


def bound_known(b):
    """truth of a comparison that follows from an assumed bound alone (True, False or None)"""
    if b.k not in ("le", "lt", "ne", "eq") or len(b.a.m) < 2:
        return None
    d = _pos_content(b.a)
    u = CTX.bound(d)
    l = CTX.bound(neg(d))  # -d <= l
    if b.k == "le":
        return True if u is not None and u <= 0 else False if l is not None and l < 0 else None
    if b.k == "lt":
        return True if u is not None and u < 0 else False if l is not None and l <= 0 else None
    if (u is not None and u < 0) or (l is not None and l < 0):
        return b.k == "ne"
    return None


class assuming:
    def __init__(self, b):
        self.b = b

    def __enter__(self):
        d = {"__b": self.b, "__id": self.b.id}

        def put(b):
            if b.k == "and":
                for x in b.a:
                    put(x)
            else:
                d[b] = True
                d[bnot(b)] = False

        if self.b not in (TRUE, FALSE):
            put(self.b)
        CTX.stack.append(d)

    def __exit__(self, *a):
        CTX.stack.pop()


def _quick_nonneg(t, strict):
    """sum of nonneg monomials (even powers / nonneg atoms)"""
    pos = not strict
    for k, c in t.m.items():
        if c < 0:
            return False
        p = True
        for aid, e in k:
            a = ATOMS[aid]
            l, h = atom_iv(a)
            if isinstance(e, int) and e % 2 == 0:
                if not (l > 0 or h < 0 or a.kind == "exp"):
                    p = False
                continue
            if isinstance(e, Fr):
                if not (l > 0):
                    p = False
                continue
            if l > 0 or a.kind == "exp":
                continue
            if l >= 0:
                p = False
                continue
            return False
        if p and c > 0:
            pos = True
    return pos


def known(b):
    """is b entailed by the current assumptions? (sound, incomplete)"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    v = CTX.lookup(b)
    if v is not None:
        return v
    if b.k == "and":
        return all(known(x) for x in b.a)
    if CTX.ub:
        k = bound_known(b)
        if k is not None:
            return k
    if b.k == "le" and _quick_nonneg(neg(b.a), False):
        return True
    if b.k == "lt" and _quick_nonneg(neg(b.a), True):
        return True
    if b.k == "ne":
        if _quick_nonneg(b.a, True) or _quick_nonneg(neg(b.a), True):
            return True
        if CTX.lookup(mkb("lt", b.a)) or CTX.lookup(mkb("lt", neg(b.a))):
            return True
    if b.k == "le":
        if CTX.lookup(mkb("lt", b.a)) or CTX.lookup(mkb("eq", b.a)):
            return True
    ck = (b, CTX.key())
    r = CTX.cache.get(ck)
    if r is not None:
        return r
    # try without stack first (sound)
    if CTX.stack:
        r0 = CTX.cache.get((b, ()))
        if r0:
            return True
    r = False
    if CTX.use_solver:
        r = _entails(b)
    CTX.cache[ck] = r
    return r


def _entails(b):
    CTX.nknown += 1
    conv = Z3Conv()
    s = z3.Solver()
    s.set("timeout", CTX.known_ms)
    try:
        g = conv.b(bnot(b))
        vs = atoms_of_b(b)
        hy = relevant(CTX.assumptions(), vs)
        hs = [conv.b(x) for x in hy]
        s.add(*hs)
        s.add(g)
        s.add(*conv.axioms())
    except (TooBig, Unsupported):
        return False
    return s.check() == z3.unsat


def relevant(assumptions, aset):
    """assumptions transitively sharing atoms with aset"""
    todo = [(x, atoms_of_b(x)) for x in assumptions]
    cur = set(aset)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for x, av in todo:
            if not av or av & cur:
                out.append(x)
                if not av <= cur:
                    cur |= av
                changed = True
            else:
                rest.append((x, av))
        todo = rest
    return out


_ATOMSET_T = {}


def atoms_of_atom(aid, seen):
    if aid in seen:
        return
    seen.add(aid)
    a = ATOMS[aid]
    if a.kind in ("exp",):
        for x, _ in a.args[0]:
            atoms_of_atom(x, seen)
    elif a.kind in ("cos", "sin"):
        for x, _ in a.args[0]:
            atoms_of_atom(x, seen)
    else:
        for x in a.args:
            if isinstance(x, T):
                _atoms_t(x, seen)
            elif isinstance(x, B):
                _atoms_b(x, seen)


def _atoms_t(t, seen):
    for k in t.m:
        for aid, _ in k:
            atoms_of_atom(aid, seen)


def _atoms_b(b, seen):
    if b.k in ("le", "lt", "eq", "ne"):
        _atoms_t(b.a, seen)
    elif b.k in ("and", "or"):
        for x in b.a:
            _atoms_b(x, seen)
    elif b.k == "not":
        _atoms_b(b.a, seen)


def atoms_of(t):
    s = set()
    _atoms_t(t, s)
    return s


_AB_CACHE = {}


def atoms_of_b(b):
    r = _AB_CACHE.get(b)
    if r is None:
        s = set()
        _atoms_b(b, s)
        r = frozenset(s)
        _AB_CACHE[b] = r
    return r


# ---------------------------------------------------------------- z3 conversion
class Z3Conv:
    """terms -> z3; atoms other than linear structure become constants with axioms"""

    def __init__(self):
        self.av = {}  # atom id -> z3 expr
        self.pv = {}  # (atom id, frac exponent) -> z3 expr
        self.ax = []
        self.bc = {}
        self.tc = {}
        self.fns = {}
        self.done_ax = 0

    def num(self, c):
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def atom(self, aid):
        e = self.av.get(aid)
        if e is not None:
            return e
        a = ATOMS[aid]
        nm = "a%d" % aid
        if a.kind == "var":
            e = z3.Int(a.args[0]) if a.sort == "I" else z3.Real(a.args[0])
            self.av[aid] = e
            if a.lo > -INF:
                self.ax.append(e >= (int(a.lo) if a.sort == "I" else self.num(Fr(a.lo))))
            if a.hi < INF:
                self.ax.append(e <= (int(a.hi) if a.sort == "I" else self.num(Fr(a.hi))))
            return e
        if a.kind == "ite":
            c = self.b(a.args[0])
            if a.sort == "I":
                e = z3.If(c, self.ti(a.args[1]), self.ti(a.args[2]))
            else:
                e = z3.If(c, self.t(a.args[1]), self.t(a.args[2]))
            self.av[aid] = e
            return e
        if a.kind == "floor":
            r = a.args[0]
            # int/int floor
            if all(all(ATOMS[x].sort == "I" and isinstance(ex, int) and ex > 0 for x, ex in k) for k in r.m):
                L = 1
                for v in r.m.values():
                    L = L * v.denominator // math.gcd(L, v.denominator)
                e = self.ti(scale(T(r.m, "I"), Fr(L))) / z3.IntVal(L)
            else:
                e = z3.ToInt(self.t(r))
            self.av[aid] = e
            return e
        e = z3.Int(nm) if a.sort == "I" else z3.Real(nm)
        self.av[aid] = e
        if a.kind == "inv":
            b = self.t(a.args[0])
            self.ax.append(z3.Implies(b != 0, e * b == 1))
        elif a.kind == "sqrt":
            b = self.t(a.args[0])
            self.ax.append(e >= 0)
            self.ax.append(z3.Implies(b >= 0, e * e == b))
        elif a.kind in ("cos", "sin"):
            other = trig_partner(a)
            if other.id in self.av:
                o = self.av[other.id]
                self.ax.append(e * e + o * o == 1)
            self.ax.append(z3.And(e >= -1, e <= 1))
        elif a.kind == "fn":
            if a.lo > -INF:
                self.ax.append(e >= (int(a.lo) if a.sort == "I" else self.num(Fr(a.lo))))
            if a.hi < INF:
                self.ax.append(e <= (int(a.hi) if a.sort == "I" else self.num(Fr(a.hi))))
            args = [self.t(x) for x in a.args[1:] if isinstance(x, T)]
            key = (a.args[0], tuple(x for x in a.args[1:] if not isinstance(x, T)), len(args))
            lst = self.fns.setdefault(key, [])
            for oargs, oe in lst:
                if len(lst) <= 40:
                    self.ax.append(
                        z3.Implies(z3.And(*[x == y for x, y in zip(args, oargs)]) if args else z3.BoolVal(True), e == oe)
                    )
            lst.append((args, e))
            h = FN_AXIOMS.get(a.args[0])
            if h is not None:
                self.ax.extend(h(self, e, args, a))
        elif a.kind == "inf":
            self.ax.append(e >= self.num(Fr(10) ** 300))
        return e

    def power(self, aid, e):
        if isinstance(e, int) and e > 0:
            a = ATOMS[aid]
            if a.kind == "exp":
                return self._pos(aid, e)
            if a.kind == "pw":
                base = self.t(a.args[0])
            else:
                base = self._toreal(self.atom(aid))
            r = base
            for _ in range(e - 1):
                r = r * base
            return r
        return self._pos(aid, e)

    def _toreal(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def _pos(self, aid, e):
        key = (aid, e)
        v = self.pv.get(key)
        if v is not None:
            return v
        a = ATOMS[aid]
        v = z3.Real("p%d_%s" % (aid, str(e).replace("/", "o").replace("-", "m")))
        self.pv[key] = v
        if a.kind == "exp":
            self.ax.append(v > 0)
            arg = self.t(T({a.args[0]: Fr(e)}, "R"))
            # exp(x) >= 1+x, monotone sign
            self.ax.append(v >= 1 + arg)
            self.ax.append(z3.Implies(arg <= 0, v <= 1))
            return v
        base = self.t(a.args[0]) if a.kind == "pw" else self._toreal(self.atom(aid))
        f = Fr(e)
        n, d = f.numerator, f.denominator
        if d == 1:
            b = base
            for _ in range(-n - 1):
                b = b * base
            self.ax.append(z3.Implies(base != 0, v * b == 1))
            self.ax.append(z3.Implies(base > 0, v > 0))
        elif d <= 4 and abs(n) <= 12:
            vd = v
            for _ in range(d - 1):
                vd = vd * v
            b = z3.RealVal(1)
            for _ in range(abs(n)):
                b = b * base
            if n > 0:
                self.ax.append(v >= 0)
                self.ax.append(z3.Implies(base >= 0, vd == b))
            else:
                self.ax.append(z3.Implies(base > 0, z3.And(v > 0, vd * b == 1)))
        else:
            self.ax.append(v >= 0)
            self.ax.append(z3.Implies(base > 0, v > 0))
        return v

    def t(self, t):
        r = self.tc.get(t)
        if r is not None:
            return r
        if not t.m:
            r = z3.RealVal(0)
        else:
            terms = []
            for k, c in t.m.items():
                x = None if c == 1 and k else self.num(c)
                for aid, e in k:
                    p = self.power(aid, e)
                    x = p if x is None else x * p
                terms.append(x)
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        self.tc[t] = r
        return r

    def ti(self, t):
        """integer-sorted conversion"""
        if not t.m:
            return z3.IntVal(0)
        terms = []
        for k, c in t.m.items():
            if c.denominator != 1:
                return z3.ToInt(self.t(t))
            x = z3.IntVal(c.numerator)
            for aid, e in k:
                at = self.atom(aid)
                if at.sort() != z3.IntSort():
                    return z3.ToInt(self.t(t))
                for _ in range(e):
                    x = x * at
            terms.append(x)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def b(self, b):
        r = self.bc.get(b)
        if r is not None:
            return r
        k = b.k
        if k == "lit":
            r = z3.BoolVal(b.a)
        elif k in ("le", "lt", "eq", "ne"):
            if b.a.s == "I" and all(c.denominator == 1 for c in b.a.m.values()):
                x = self.ti(b.a)
                z = z3.IntVal(0)
            else:
                x = self.t(b.a)
                z = z3.RealVal(0)
            r = {"le": x <= z, "lt": x < z, "eq": x == z, "ne": x != z}[k]
        elif k == "and":
            r = z3.And(*[self.b(x) for x in b.a])
        elif k == "or":
            r = z3.Or(*[self.b(x) for x in b.a])
        elif k == "not":
            r = z3.Not(self.b(b.a))
        elif k == "bvar":
            r = z3.Bool(b.a)
        else:
            raise Unsupported("bool " + k)
        self.bc[b] = r
        return r

    def axioms(self):
        return self.ax


FN_AXIOMS = {}


# ---------------------------------------------------------------- substitution / rebuild
def rebuild_t(t, memo):
    """re-normalise t under the current assumption stack (resolving decided ites)"""
    r = memo.get(t)
    if r is not None:
        return r
    parts = []
    plain = {}
    for k, c in t.m.items():
        if all(_is_leaf(a) for a, _ in k):
            plain[k] = c
            continue
        x = C(c)
        for aid, e in k:
            x = mul(x, rebuild_atom(aid, e, memo))
        parts.append(x)
    r = addn([T(plain, t.s)] + parts) if parts else t
    if t.s == "I" and r.s != "I":
        r = T(r.m, "I")
    memo[t] = r
    return r


def _is_leaf(aid):
    a = ATOMS[aid]
    if a.kind in ("var", "nan", "inf"):
        return True
    if a.kind == "exp":
        return all(_is_leaf(x) for x, _ in a.args[0])
    if a.kind in ("cos", "sin"):
        return all(_is_leaf(x) for x, _ in a.args[0])
    return False


def rebuild_atom(aid, e, memo):
    a = ATOMS[aid]
    key = ("atom", aid, e)
    r = memo.get(key)
    if r is not None:
        return r
    k = a.kind
    if _is_leaf(aid):
        r = T({((aid, e),): Fr(1)}, a.sort)
    elif k == "ite":
        c = rebuild_b(a.args[0], memo)
        kc = TRUE if known_fast(c) else (FALSE if known_fast(bnot(c)) else None)
        if kc is TRUE:
            r = rebuild_t(a.args[1], memo)
        elif kc is FALSE:
            r = rebuild_t(a.args[2], memo)
        else:
            r = ite(c, rebuild_t(a.args[1], memo), rebuild_t(a.args[2], memo))
        r = ipow(r, int(e))
    elif k == "inv":
        r = ipow(inv(rebuild_t(a.args[0], memo)), int(e))
    elif k == "sqrt":
        r = ipow(sqrt(rebuild_t(a.args[0], memo)), int(e))
    elif k == "pw":
        b = rebuild_t(a.args[0], memo)
        f = Fr(e)
        if f.denominator == 1:
            r = ipow(b, int(f))
        elif f.denominator == 2:
            r = ipow(sqrt(b), abs(f.numerator))
            if f < 0:
                r = inv(r)
        else:
            r = rpow(b, f)
    elif k == "exp":
        b = rebuild_t(T({a.args[0]: Fr(1)}, "R"), memo)
        r = exp(scale(b, Fr(e)))
    elif k in ("cos", "sin"):
        b = rebuild_t(T({a.args[0]: Fr(a.args[1])}, "R"), memo)
        cc, ss = cossin(b)
        r = ipow(cc if k == "cos" else ss, int(e))
    elif k == "floor":
        r = ipow(floor(rebuild_t(a.args[0], memo)), int(e))
    elif k == "fn":
        args = [rebuild_t(x, memo) if isinstance(x, T) else x for x in a.args[1:]]
        nm = a.args[0]
        if nm == "atan2":
            b = atan2(*args)
        elif nm == "log":
            b = log(args[0])
        elif nm in ("pow", "pow0"):
            b = tpow(*args)
        elif nm in FN_REBUILD:
            b = FN_REBUILD[nm](*args)
        else:
            b = fn(nm, *args, lo=a.lo, hi=a.hi, sort=a.sort)
        r = ipow(b, int(e)) if Fr(e).denominator == 1 else rpow(b, Fr(e))
    else:
        raise Unsupported("rebuild " + k)
    memo[key] = r
    return r


FN_REBUILD = {}


def rebuild_b(b, memo):
    v = CTX.lookup(b)
    if v is not None:
        return blit(v)
    r = memo.get(b)
    if r is not None:
        return r
    if b.k in ("le", "lt", "eq", "ne"):
        r = _cmp(b.k, rebuild_t(b.a, memo))
        v = CTX.lookup(r)
        if v is not None:
            r = blit(v)
    elif b.k == "and":
        r = band(*[rebuild_b(x, memo) for x in b.a])
    elif b.k == "or":
        r = bor(*[rebuild_b(x, memo) for x in b.a])
    elif b.k == "not":
        r = bnot(rebuild_b(b.a, memo))
    else:
        r = b
    memo[b] = r
    return r


def known_fast(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    return known(b)


def subst_t(t, env, memo=None):
    """substitute var atoms (id -> T)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    out = []
    for k, c in t.m.items():
        x = C(c)
        for aid, e in k:
            a = ATOMS[aid]
            if aid in env:
                y = env[aid]
                f = Fr(e)
                if f.denominator == 1:
                    y = ipow(y, int(f))
                elif f.denominator == 2:
                    y = ipow(sqrt(y), abs(f.numerator))
                    if f < 0:
                        y = inv(y)
                else:
                    y = rpow(y, f)
                x = mul(x, y)
            elif _is_leaf(aid) and a.kind in ("var", "nan", "inf"):
                x = mul(x, T({((aid, e),): Fr(1)}, a.sort))
            else:
                raise Unsupported("subst through " + a.kind)
        out.append(x)
    r = addn(out)
    memo[t] = r
    return r


# ---------------------------------------------------------------- numeric evaluation
class Undefined(Exception):
    pass


def ev_t(t, env, memo):
    r = memo.get(t)
    if r is not None:
        return r
    s = 0.0
    for k, c in t.m.items():
        p = float(c)
        for aid, e in k:
            v = ev_atom(aid, env, memo)
            if e != 1:
                try:
                    v = v ** (e if isinstance(e, int) else float(e))
                except ZeroDivisionError:
                    v = float("nan")
                except OverflowError:
                    v = INF
                if isinstance(v, complex):
                    v = float("nan")
            p = p * v if not (p == 0) else 0.0
        s += p
    memo[t] = s
    return s


NUM_FN = {}


def ev_atom(aid, env, memo):
    key = ("a", aid)
    r = memo.get(key)
    if r is not None:
        return r
    a = ATOMS[aid]
    k = a.kind
    if k == "var":
        r = env[a.args[0]]
    elif k == "nan":
        r = float("nan")
    elif k == "inf":
        r = INF
    elif k == "ite":
        r = ev_t(a.args[1], env, memo) if ev_b(a.args[0], env, memo) else ev_t(a.args[2], env, memo)
    elif k == "inv":
        v = ev_t(a.args[0], env, memo)
        r = 1.0 / v if v else float("nan")
    elif k == "sqrt":
        v = ev_t(a.args[0], env, memo)
        r = math.sqrt(v) if v >= 0 else float("nan")
    elif k == "pw":
        r = ev_t(a.args[0], env, memo)
    elif k == "exp":
        v = ev_t(T({a.args[0]: Fr(1)}, "R"), env, memo)
        try:
            r = math.exp(v)
        except OverflowError:
            r = INF
    elif k == "cos":
        r = math.cos(ev_t(T({a.args[0]: Fr(a.args[1])}, "R"), env, memo))
    elif k == "sin":
        r = math.sin(ev_t(T({a.args[0]: Fr(a.args[1])}, "R"), env, memo))
    elif k == "floor":
        v = ev_t(a.args[0], env, memo)
        r = float(math.floor(v + 1e-12)) if v == v and abs(v) < INF else v
    elif k == "fn":
        args = [ev_t(x, env, memo) if isinstance(x, T) else x for x in a.args[1:]]
        nm = a.args[0]
        f = NUM_FN.get(nm)
        if f is None:
            raise Undefined(nm)
        r = f(*args)
    else:
        raise Undefined(k)
    memo[key] = r
    return r


def _nlog(x):
    return math.log(x) if x > 0 else float("nan")


def _npow(x, y):
    try:
        v = x**y
        return v if not isinstance(v, complex) else float("nan")
    except (ZeroDivisionError, OverflowError):
        return float("nan")


NUM_FN.update(log=_nlog, atan2=math.atan2, pow=_npow, pow0=_npow)


def ev_b(b, env, memo):
    r = memo.get(b)
    if r is not None:
        return r
    k = b.k
    if k == "lit":
        r = b.a
    elif k in ("le", "lt", "eq", "ne"):
        v = ev_t(b.a, env, memo)
        sc = max([abs(float(c)) for c in b.a.m.values()] + [1.0]) * 1e-13
        r = {"le": v <= sc, "lt": v < -sc, "eq": abs(v) <= sc, "ne": abs(v) > sc}[k]
    elif k == "and":
        r = all(ev_b(x, env, memo) for x in b.a)
    elif k == "or":
        r = any(ev_b(x, env, memo) for x in b.a)
    elif k == "not":
        r = not ev_b(b.a, env, memo)
    elif k == "bvar":
        r = env[b.a]
    memo[b] = r
    return r


def _is_pos_axioms():
    pass


def _ax_log(conv, e, args, a):
    x = args[0]
    return [
        z3.Implies(x > 0, e <= x - 1),
        z3.Implies(x >= 1, e >= 0),
        z3.Implies(z3.And(x > 0, x < 1), e < 0),
        z3.Implies(x > 1, e > 0),
    ]


def _ax_atan2(conv, e, args, a):
    y, x = args
    p = Fr(math.pi)
    return [
        z3.Implies(y > 0, z3.And(e > 0, e <= conv.num(p))),
        z3.Implies(y < 0, z3.And(e < 0, e >= conv.num(-p))),
        z3.Implies(z3.And(y == 0, x > 0), e == 0),
        z3.Implies(x >= 0, z3.And(e <= conv.num(p / 2), e >= conv.num(-p / 2))),
    ]


FN_AXIOMS.update(log=_ax_log, atan2=_ax_atan2)
