"""Obligations: harness function + symbolic inputs -> solver verdict (+ replay on real code)."""
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction as Fr

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import jx
from . import term as t
from .jx import CX
from .term import B, C, T

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Inp:
    """declared input: name, kind 'f','i','b','c','key', shape, lo, hi"""

    def __init__(self, name, kind="f", shape=(), lo=-t.INF, hi=t.INF, dtype=None, near=None):
        self.name, self.kind, self.shape = name, kind, tuple(shape)
        self.lo, self.hi = lo, hi
        self.near = near
        self.py = kind in ("pi", "pf")  # a Python number rather than a jax array (fork mode)
        self.kind = kind = kind[-1] if self.py else kind
        self.dtype = dtype or {"f": jnp.float64, "i": jnp.int64, "b": jnp.bool_, "c": jnp.complex128}.get(kind)

    def example(self):
        if self.kind == "key":
            return jax.random.key(0) if self.shape == () else jax.random.split(jax.random.key(0), self.shape)
        return jax.ShapeDtypeStruct(self.shape, self.dtype)

    def names(self):
        for ix in np.ndindex(*self.shape):
            yield ix, self.name + "".join("_%d" % i for i in ix)

    def symbols(self):
        out = jx.mkobj(self.shape)
        for ix, nm in self.names():
            if self.kind == "f":
                v = t.var(nm, "R", self.lo, self.hi)
            elif self.kind == "i":
                v = t.var(nm, "I", self.lo, self.hi)
            elif self.kind == "b":
                v = t.bvar(nm)
            elif self.kind == "c":
                v = CX(t.var(nm + "_re", "R", self.lo, self.hi), t.var(nm + "_im", "R", self.lo, self.hi))
            elif self.kind == "key":
                v = t.fn("key_" + nm)
            out[ix] = v
        return out

    def from_env(self, env):
        if self.kind == "key":
            k = jax.random.key(int(env.get(self.name, 1234)))
            return k if self.shape == () else jax.random.split(k, self.shape)
        a = np.zeros(self.shape, dtype=np.dtype(self.dtype))
        for ix, nm in self.names():
            if self.kind == "c":
                a[ix] = complex(env[nm + "_re"], env[nm + "_im"])
            else:
                a[ix] = env[nm]
        if self.py:
            return a.item()
        return jnp.asarray(a)

    def var_names(self):
        for ix, nm in self.names():
            if self.kind == "c":
                yield nm + "_re"
                yield nm + "_im"
            else:
                yield nm

    def sample(self, rng, env, mode):
        if self.kind == "key":
            env[self.name] = rng.randrange(1 << 30)
            return
        for nm in self.var_names():
            if self.kind == "b":
                env[nm] = rng.random() < 0.5
                continue
            lo, hi = self.lo, self.hi
            if self.near is not None:
                lo, hi = max(lo, self.near[0]), min(hi, self.near[1])
            if lo == -t.INF:
                lo = -4.0 if hi == t.INF or hi > -4 else hi - 8
            if hi == t.INF:
                hi = lo + 8 if lo >= 4 else max(4.0, lo + 1)
            if self.kind == "i":
                env[nm] = rng.randint(int(math.ceil(lo)), int(math.floor(hi)))
            else:
                if mode == 0 or hi - lo < 1e-9:
                    env[nm] = rng.uniform(lo, hi)
                else:
                    # mildly concentrated, dyadic
                    w = min(hi - lo, 4.0)
                    c = min(max(0.0, lo), hi)
                    a, b = max(lo, c - w / 2), min(hi, c + w / 2)
                    v = round(rng.uniform(a, b) * 64) / 64
                    env[nm] = min(max(v, lo), hi)


def F(name, lo=-t.INF, hi=t.INF, shape=(), near=None):
    return Inp(name, "f", shape, lo, hi, near=near)


def I(name, lo=-t.INF, hi=t.INF, shape=(), dtype=None):
    return Inp(name, "i", shape, lo, hi, dtype)


def Bo(name, shape=()):
    return Inp(name, "b", shape)


def Cx(name, shape=(), lo=-t.INF, hi=t.INF):
    return Inp(name, "c", shape, lo, hi)


def Key(name, shape=()):
    return Inp(name, "key", shape)


def PI_(name, lo=-t.INF, hi=t.INF):
    """a Python int"""
    return Inp(name, "pi", (), lo, hi)


def PF(name, lo=-t.INF, hi=t.INF):
    """a Python float"""
    return Inp(name, "pf", (), lo, hi)


class Ob:
    """fn(**inputs) -> dict name -> (lhs, rhs) | bool array.   assume(**inputs) -> bool array(s)"""

    def __init__(self, name, fn, inputs, assume=None, tol=1e-9, unroll=12, timeout=None, note="", rtol=1e-6,
                 atol=1e-7, validate=3, lemma=None, split=14, hyp=None, thorough=False, eager=True, angle_units=None,
                 defined=False, fork=False, maxpaths=400, assume_in=None, guards=True):
        # guards=False: error_if guards of the code under test are assumed not to fire (proved elsewhere)
        self.guards = guards
        self.name, self.fn, self.inputs, self.assume = name, fn, inputs, assume
        self.tol, self.unroll, self.timeout, self.note = tol, unroll, timeout, note
        self.rtol, self.atol, self.validate = rtol, atol, validate
        self.split = split
        self.thorough = thorough
        self.eager = eager
        self.angle_units = angle_units or {}
        self.fork = fork or any(i.py for i in inputs)
        self.maxpaths = maxpaths
        self.paths = 0


class HarnessError(Exception):
    pass


class Res:
    def __init__(self, ob):
        self.name = ob.name
        self.status = "ok"  # ok | violation | unknown | error
        self.goals = 0
        self.trivial = 0
        self.queries = 0
        self.splits = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.validated = 0
        self.eqns = 0
        self.detail = ""
        self.replay = None
        self.prims = []
        self.calls = []
        self.side = 0

    def d(self):
        return dict(self.__dict__)


class CE(Exception):
    def __init__(self, env, label):
        self.env, self.label = env, label


class Unknown(Exception):
    pass


# --------------------------------------------------------------------------- helpers
def coefmax(x):
    return max([abs(c) for c in x.m.values()] + [Fr(0)])


def negligible(d, ref, rel=Fr(1, 10**10)):
    """all coefficients are double-rounding noise relative to ref"""
    if not d.m:
        return True
    d = merge_near(d)
    r = max(ref, Fr(1, 10**6)) * rel
    return all(abs(c) <= r for c in d.m.values())


def merge_near(d):
    """merge monomials whose fractional exponents agree to 1e-12 (rounded constants)"""
    need = False
    for k in d.m:
        for a, e in k:
            if not isinstance(e, int) and e.denominator > 10**6:
                need = True
    if not need:
        return d
    m = {}
    for k, c in d.m.items():
        k2 = tuple((a, e if isinstance(e, int) else t._nexp(Fr(round(e * 10**11), 10**11))) for a, e in k)
        m[k2] = m.get(k2, Fr(0)) + c
    return T({k: c for k, c in m.items() if c}, d.s)


def ite_conds(x, acc, seen):
    """undecided ite conditions occurring in a term, innermost first"""
    for k in x.m:
        for aid, _ in k:
            _ic_atom(aid, acc, seen)


def _ic_atom(aid, acc, seen):
    if aid in seen:
        return
    seen.add(aid)
    a = t.ATOMS[aid]
    if a.kind in ("exp", "cos", "sin"):
        for x, _ in a.args[0]:
            _ic_atom(x, acc, seen)
        return
    for x in a.args:
        if isinstance(x, T):
            ite_conds(x, acc, seen)
        elif isinstance(x, B):
            _ic_b(x, acc, seen)
    if a.kind == "ite":
        _leafconds(a.args[0], acc)


def _ic_b(b, acc, seen):
    if b.k in ("le", "lt", "eq", "ne"):
        ite_conds(b.a, acc, seen)
    elif b.k in ("and", "or"):
        for x in b.a:
            _ic_b(x, acc, seen)
    elif b.k == "not":
        _ic_b(b.a, acc, seen)


def _leafconds(b, acc):
    if b.k in ("and", "or"):
        for x in b.a:
            _leafconds(x, acc)
    elif b.k == "not":
        _leafconds(b.a, acc)
    else:
        if b.k == "ne" or b.k == "lt":
            nb = t.bnot(b)
            key = nb
        else:
            key = b
        if b not in acc and t.bnot(b) not in acc:
            acc[key] = len(acc)


def clear_denoms(d):
    """multiply d by a product of non-zero powers so that it becomes polynomial"""
    for _ in range(12):
        worst = {}
        for k in d.m:
            for a, e in k:
                at = t.ATOMS[a]
                if at.kind == "pw":
                    if e < worst.get(a, 0):
                        worst[a] = e
                elif e < 0 and at.kind in ("var", "exp"):
                    if e < worst.get(a, 0):
                        worst[a] = e
                elif e < 0:
                    if e < worst.get(a, 0):
                        worst[a] = e
        if not worst:
            break
        mm = tuple(sorted((a, t._nexp(-e)) for a, e in worst.items()))
        m = {}
        ex = []
        for k, c in d.m.items():
            k2, red = t._mono_mul(k, mm)
            if any(t.ATOMS[a].kind == "pw" and e >= 1 for a, e in k2) or red:
                r = t._reduce_mono(k2, c)
                if r is not None:
                    ex.append(r)
                    continue
            v = m.get(k2, Fr(0)) + c
            if v:
                m[k2] = v
            else:
                m.pop(k2, None)
        d = t.addn([T(m, "R")] + ex)
    # inv atoms (conditional): multiply as well when argument is known non-zero
    for _ in range(8):
        invs = {}
        for k in d.m:
            for a, e in k:
                if t.ATOMS[a].kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        done = False
        for a, e in invs.items():
            base = t.ATOMS[a].args[0]
            if t.known(t.bne(base, C(0))):
                parts = []
                for k, c in d.m.items():
                    dd = dict(k)
                    e0 = dd.pop(a, 0)
                    parts.append(t.mul(T({tuple(sorted(dd.items())): c}, "R"), t.ipow(base, e - e0)))
                d = t.addn(parts)
                done = True
                break
        if not done:
            break
    return d


def strip_content(d):
    """d = m * d' with |m| <= M"""
    cont = t.content(d, lambda a: a.kind in ("cos", "sin", "var", "fn"))
    cont = tuple((a, e) for a, e in cont if isinstance(e, int) and e > 0)
    if not cont:
        return None
    m = T({cont: Fr(1)}, "R")
    lo, hi = t.iv(m)
    mx = max(abs(lo), abs(hi))
    if not (mx < 1e12):
        return None
    dd = T({t._mono_mul(k, t.mono_inv(cont))[0]: v for k, v in d.m.items()}, "R")
    return dd, max(mx, 1e-6)


class Prover:
    def __init__(self, ob, res, timeout_ms):
        self.ob, self.res = ob, res
        self.timeout = timeout_ms
        self.deadline = None
        self.sanity = []

    # -- z3 -------------------------------------------------------------
    def query(self, b, ms, want_model=True):
        """is assumptions /\\ b satisfiable?  -> ('unsat',None) | ('sat',env) | ('unknown',None)"""
        self.res.queries += 1
        t0 = time.time()
        try:
            conv = t.Z3Conv()
            g = conv.b(b)
            hy = t.relevant(t.CTX.assumptions(), t.atoms_of_b(b)) if b is not t.TRUE else t.CTX.assumptions()
            cons = [g] + [conv.b(x) for x in hy] + conv.axioms()
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(*cons)
            r = s.check()
            if r == z3.unknown and not conv.fns:
                tac = z3.Tactic("qfnra-nlsat") if not _has_int(conv) else None
                if tac is not None:
                    s = tac.solver()
                    s.set("timeout", int(ms))
                    s.add(*cons)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        r = z3.unknown
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                env = self.env_from(s.model(), conv) if want_model else None
                return "sat", env
            return "unknown", None
        except z3.Z3Exception as e:
            return "unknown", None
        finally:
            self.res.solver_s += time.time() - t0

    def env_from(self, m, conv):
        env = {}
        for inp in self.ob.inputs:
            if inp.kind == "key":
                env[inp.name] = 1234
                continue
            for nm in inp.var_names():
                if inp.kind == "b":
                    v = m.eval(z3.Bool(nm), model_completion=True)
                    env[nm] = bool(z3.is_true(v))
                    continue
                zv = z3.Int(nm) if inp.kind == "i" else z3.Real(nm)
                v = m.eval(zv, model_completion=False)
                if v is None or (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    # free variable: pick something generic inside the range
                    e2 = {}
                    rr = random.Random(hash(nm) & 0xFFFF)
                    tmp = Inp(nm, inp.kind, (), inp.lo, inp.hi, near=inp.near)
                    if inp.kind == "c":
                        tmp.kind = "f"
                    tmp.sample(rr, e2, 0)
                    env[nm] = e2[nm]
                    continue
                env[nm] = _z3num(v)
                if inp.kind == "i":
                    env[nm] = int(env[nm])
        return env

    # -- goals ------------------------------------------------------------
    def prove_eq(self, a, b, label):
        ref = max(coefmax(a), coefmax(b))
        d = t.sub(a, b)
        if negligible(d, ref):
            # send the (normalised) identity to the solver
            self.res.trivial += 1
            if self.res.trivial % 64 == 1:
                self.query(t.FALSE, 1000)
            return
        self._zero(d, ref, label, 0, None)

    def _zero(self, d, ref, label, depth, conds):
        if negligible(d, ref):
            return
        self._check_time(label)
        tol = C(Fr(self.ob.tol))
        goal = t.bor(t.lt(tol, d), t.lt(d, t.neg(tol))) if self.ob.tol else t.bne(d, C(0))
        if goal is t.FALSE:
            return
        lin = _linearish(d)
        r, env = self.query(goal, min(self.timeout, 10000 if lin else (800 if depth < 3 else 400)))
        if r == "unsat":
            return
        if r == "sat":
            self._try_ce(goal, env, d, label)
        # normalise: clear denominators
        acc = {}
        ite_conds(d, acc, set())
        cand = [c for c in acc if t.CTX.lookup(c) is None]
        if not cand:
            d2 = clear_denoms(d)
            if negligible(d2, max(ref, coefmax(d2) if False else ref)):
                return
            d3 = t.rebuild_t(d2, {})
            if negligible(d3, ref):
                return
            g2 = t.bne(d3, C(0))
            r, env = self.query(g2, self.timeout)
            if r == "unsat":
                return
            env2 = env if r == "sat" else None
            if self.ob.tol:
                st = strip_content(d)
                if st is not None:
                    dd, mx = st
                    tl = C(Fr(self.ob.tol) / Fr(mx))
                    r, _ = self.query(t.bor(t.lt(tl, dd), t.lt(dd, t.neg(tl))), self.timeout)
                    if r == "unsat":
                        return
            r, env = self.query(goal, self.timeout)
            if r == "unsat":
                return
            if r == "sat":
                self._try_ce(goal, env, d, label)
                raise CE(env, label)
            if env2 is not None:
                raise CE(env2, label)
            raise Unknown(label + ": solver returned unknown; residual %s" % (repr(d3)[:300]))
        if depth >= self.ob.split:
            r, env = self.query(goal, self.timeout)
            if r == "unsat":
                return
            if r == "sat":
                raise CE(env, label)
            raise Unknown(label + ": case-split depth")
        c = cand[0]
        self.res.splits += 1
        for cc in (c, t.bnot(c)):
            if t.known(t.bnot(cc)):
                continue
            with t.assuming(cc):
                # infeasible branch?
                rr, _ = self.query(cc, 300, want_model=False)
                if rr == "unsat":
                    continue
                memo = {}
                d2 = t.rebuild_t(d, memo)
                self._zero(d2, ref, label, depth + 1, None)

    def _try_ce(self, goal, env, d, label):
        raise CE(env, label)

    def prove_true(self, b, label):
        if b is t.TRUE:
            self.res.trivial += 1
            self.query(t.FALSE, 1000)
            return
        self._true(b, label, 0)

    def _true(self, b, label, depth):
        self._check_time(label)
        if b is t.TRUE:
            return
        g = t.bnot(b)
        r, env = self.query(g, min(self.timeout, 3000 if depth == 0 else 800))
        if r == "unsat":
            return
        if r == "sat":
            raise CE(env, label)
        acc = {}
        if b.k in ("and",):
            for x in b.a:
                self._true(x, label, depth + 1)
            return
        seen = set()
        _ic_b(b, acc, seen)
        cand = [c for c in acc if t.CTX.lookup(c) is None]
        if b.k in ("eq",) and not cand:
            self._zero(b.a, coefmax(b.a), label, depth, None)
            return
        if not cand or depth > self.ob.split:
            if b.k in ("le", "lt"):
                b2 = t._cmp(b.k, t.rebuild_t(b.a, {}))
                if b2 is not b:
                    return self._true(b2, label, depth + 1)
            r, env = self.query(g, self.timeout)
            if r == "unsat":
                return
            if r == "sat":
                raise CE(env, label)
            raise Unknown(label + ": unknown: %s" % repr(b)[:300])
        c = cand[0]
        self.res.splits += 1
        for cc in (c, t.bnot(c)):
            if t.known(t.bnot(cc)):
                continue
            with t.assuming(cc):
                rr, _ = self.query(cc, 300, want_model=False)
                if rr == "unsat":
                    continue
                self._true(t.rebuild_b(b, {}), label, depth + 1)

    def _check_time(self, label):
        if self.deadline and time.time() > self.deadline:
            raise Unknown(label + ": obligation time budget exhausted")


def _linearish(d):
    for k in d.m:
        if len(k) > 1 or (k and k[0][1] != 1):
            return False
    return True


def _has_int(conv):
    for aid in conv.av:
        if t.ATOMS[aid].sort == "I" or t.ATOMS[aid].kind == "floor":
            return True
    return False


def _z3num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fr(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fr(a.numerator_as_long(), a.denominator_as_long()))
    raise ValueError("model value %s" % v)


# --------------------------------------------------------------------------- running one obligation
def flatten_out(out):
    """dict -> list of (label, kind, values...)"""
    items = []

    def rec(pfx, x):
        if isinstance(x, dict):
            for k in x:
                rec(pfx + "/" + str(k) if pfx else str(k), x[k])
        elif isinstance(x, tuple) and len(x) == 2:
            items.append((pfx, "eq", x[0], x[1]))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                rec("%s[%d]" % (pfx, i), y)
        else:
            items.append((pfx, "true", x))

    rec("", out)
    return items


def eq_arrays(a, b):
    """make both sides arrays of a common kind and shape (harness-side helper)"""
    return a, b


def concrete_check(ob, env, jit=False):
    """run the harness on the real code; returns None if fine or a description of the failure"""
    args = {i.name: i.from_env(env) for i in ob.inputs}
    f = ob.fn
    if jit:
        arrs = {}
        meta = []

        def g(kw):
            out = flatten_out(ob.fn(**kw))
            meta[:] = [(it[0], it[1]) for it in out]
            return [tuple(jnp.asarray(v) for v in it[2:]) for it in out]

        vals = jax.jit(g)(args)
        items = [(m[0], m[1]) + tuple(v) for m, v in zip(meta, vals)]
    else:
        items = flatten_out(f(**args))
    worst = None
    for it in items:
        if it[1] == "eq":
            a, b = np.asarray(_kd(it[2])), np.asarray(_kd(it[3]))
            if a.shape != b.shape:
                return "%s: shapes %s vs %s" % (it[0], a.shape, b.shape)
            if a.size == 0:
                continue
            sc = max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(_num(b)), _num(b), 0)))))
            bad = ~np.isclose(_num(a), _num(b), rtol=ob.rtol, atol=ob.atol * sc, equal_nan=False)
            if bad.any():
                ix = tuple(int(v) for v in np.argwhere(bad)[0]) if a.ndim else ()
                return "%s%s: got %r, expected %r" % (it[0], list(ix) if ix else "", a[ix].item(), b[ix].item())
        else:
            v = np.asarray(it[2])
            if not v.all():
                ix = tuple(int(k) for k in np.argwhere(~v.astype(bool))[0]) if v.ndim else ()
                return "%s%s: assertion is False" % (it[0], list(ix) if ix else "")
    return worst


def _kd(x):
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(x)
    return x


def _num(a):
    return a.astype(complex) if a.dtype.kind == "c" else a.astype(float)


def admissible(ob, env):
    if ob.assume is None:
        return True
    args = {i.name: i.from_env(env) for i in ob.inputs}
    v = ob.assume(**args)
    return all(bool(np.all(np.asarray(x))) for x in (v if isinstance(v, (list, tuple)) else [v]))


def sample_env(ob, rng, tries=400, mode=0):
    for k in range(tries):
        env = {}
        for i in ob.inputs:
            i.sample(rng, env, (mode + k) % 2)
        if admissible(ob, env):
            return env
    return None


def in_repo(tb):
    """does the innermost non-library frame belong to the repo?"""
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        p = os.path.realpath(f.filename)
        if p.startswith(REPO + os.sep + "jax_galsim"):
            return True
        if "/verif/" in p or p.startswith(os.path.dirname(os.path.dirname(os.path.realpath(__file__)))):
            return False
    return False


def replay_fail(ob, env):
    """-> description if the property fails on the real code for this input"""
    for jit in ((False,) if ob.fork else (False, True)):
        try:
            r = concrete_check(ob, env, jit)
        except Exception as e:  # noqa
            if in_repo(sys.exc_info()[2]):
                return "%s raised %s: %s" % ("jit" if jit else "eager", type(e).__name__, str(e)[:300])
            raise
        if r:
            return ("jit: " if jit else "eager: ") + r
    return None


def run_ob(ob, tier="quick", seed=1):
    res = Res(ob)
    t0 = time.time()
    tmo = ob.timeout or (20.0 if tier == "quick" else 90.0)
    rng = random.Random("%s/%d" % (ob.name, seed))
    try:
        _run(ob, res, tmo, rng, tier)
    except HarnessError as e:
        res.status, res.detail = "error", str(e)
    except Exception as e:  # noqa
        res.status = "error"
        res.detail = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if getattr(ob, "vfail", None) and res.status != "violation":
        # the concrete validation run contradicts the property although the solver did not (or could not) say so
        _viol(ob, res, ob.vfail[0], "concrete validation run (solver: %s)" % res.status, ob.vfail[1])
    res.wall = time.time() - t0
    return res


def _run(ob, res, tmo, rng, tier):
    t.fresh()
    jx.SIDE.clear()
    jx.OPTS["unroll"] = ob.unroll
    jx.STATS["prims"] = {}
    jx.FRAMES.clear()
    e0 = jx.STATS["eqns"]
    example = {i.name: i.example() for i in ob.inputs}
    syms = {i.name: i.symbols() for i in ob.inputs}
    for vn, u in ob.angle_units.items():
        a = t.single_atom(t.var(vn))[1]
        t.ANGLE_UNIT[((a.id, 1),)] = Fr(u)
    P = Prover(ob, res, tmo * 1000)
    # interned variables keep the bounds of this obligation
    if ob.assume is not None:
        cj = jax.make_jaxpr(lambda kw: ob.assume(**kw))(example)
        flat, _ = jax.tree_util.tree_flatten(syms, is_leaf=lambda x: isinstance(x, np.ndarray))
        for o in jx.run_jaxpr(cj, flat):
            for b in jx.obj(o).reshape(-1):
                t.CTX.assume(b)
    # vacuity: the assumptions must be satisfiable
    r, env0 = P.query(t.band(*t.CTX.base) if t.CTX.base else t.TRUE, 10000)
    if r == "unsat":
        raise HarnessError("vacuous: assumptions unsatisfiable")
    if ob.fork:
        return _run_fork(ob, res, P, tmo, rng, example, syms, e0)
    # trace the real code
    meta = []

    def g(kw):
        out = flatten_out(ob.fn(**kw))
        meta[:] = []
        vals = []
        for it in out:
            if it[1] == "eq":
                a, b = it[2], it[3]
                if np.shape(a) != np.shape(b):
                    raise ShapeMismatch("%s: shapes %s vs %s" % (it[0], np.shape(a), np.shape(b)))
                vals.append((_ja(a), _ja(b)))
            else:
                vals.append((_ja(it[2]),))
            meta.append((it[0], it[1]))
        return vals

    try:
        closed = jax.make_jaxpr(g)(example)
    except ShapeMismatch as e:
        env = sample_env(ob, rng)
        f = replay_fail(ob, env) if env is not None else None
        if f:
            _viol(ob, res, env, "shape", f)
            return
        raise HarnessError("trace: %s" % e)
    except Exception as e:  # noqa
        if not in_repo(sys.exc_info()[2]):
            raise
        # valid inputs make the real code raise?
        for k in range(8):
            env = sample_env(ob, rng, mode=k)
            if env is None:
                break
            f = replay_fail(ob, env)
            if f:
                _viol(ob, res, env, "trace", f)
                return
        raise HarnessError("tracing raised %s: %s" % (type(e).__name__, str(e)[:500]))
    flat, _ = jax.tree_util.tree_flatten(syms, is_leaf=lambda x: isinstance(x, np.ndarray))
    P.deadline = time.time() + 6 * tmo
    try:
        outs = jx.run_jaxpr(closed, flat)
    except (t.Unsupported, t.TooBig) as e:
        if _sampled(ob, res, rng, 12):
            return
        res.status, res.detail = "unknown", "encoding: %s: %s" % (type(e).__name__, e)
        return
    res.eqns = jx.STATS["eqns"] - e0
    res.prims = sorted(jx.STATS["prims"])
    res.calls = sorted(k for k in jx.FRAMES)
    # regroup
    goals = []
    i = 0
    for label, kind in meta:
        n = 2 if kind == "eq" else 1
        goals.append((label, kind, outs[i : i + n]))
        i += n
    # side conditions of error_if guards must be unreachable
    side = list(jx.SIDE)
    res.side = len(side)
    # translator validation on concrete inputs (also executes the property concretely)
    if not _validate(ob, res, goals, closed, rng):
        return
    _decide(ob, res, P, rng, lambda: _prove_goals(P, res, side, goals))


def _prove_goals(P, res, side, goals, pre=lambda x: x):
    for k, b in enumerate(side if P.ob.guards else []):
        res.goals += 1
        P.prove_true(t.bnot(pre(b)), "error-guard[%d]" % k)
    for label, kind, vals in goals:
        if kind == "eq":
            a, b = jx.obj(vals[0]), jx.obj(vals[1])
            a, b = np.broadcast_arrays(a, b)
            for ix in np.ndindex(*a.shape):
                lab = label + (str(list(ix)) if ix else "")
                x, y = pre(a[ix]), pre(b[ix])
                if isinstance(x, CX) or isinstance(y, CX):
                    x, y = jx._cx(x), jx._cx(y)
                    res.goals += 2
                    P.prove_eq(x.re, y.re, lab + ".re")
                    P.prove_eq(x.im, y.im, lab + ".im")
                elif isinstance(x, B) or isinstance(y, B):
                    x = x if isinstance(x, B) else t.t2b(x)
                    y = y if isinstance(y, B) else t.t2b(y)
                    res.goals += 1
                    P.prove_true(t.bnot(t.bxor(x, y)), lab)
                else:
                    res.goals += 1
                    P.prove_eq(x, y, lab)
        else:
            a = jx.obj(vals[0])
            for ix in np.ndindex(*a.shape):
                lab = label + (str(list(ix)) if ix else "")
                x = pre(a[ix])
                x = x if isinstance(x, B) else t.t2b(x)
                res.goals += 1
                P.prove_true(x, lab)


def _decide(ob, res, P, rng, thunk):
    """runs thunk (which proves goals); turns a counterexample into a replayed violation.  True if all proven"""
    try:
        thunk()
        return True
    except CE as ce:
        cands = [ce.env] if ce.env else []
        fail = None
        for env in cands:
            if not admissible(ob, env):
                continue
            fail = replay_fail(ob, env)
            if fail:
                _viol(ob, res, env, ce.label, fail)
                return False
        for k in range(40):
            env = dict(ce.env or {})
            for i in ob.inputs:
                if k < 20 and ce.env:
                    e2 = {}
                    i.sample(rng, e2, k)
                    for nm in e2:
                        if rng.random() < 0.4 or nm not in env:
                            env[nm] = e2[nm]
                else:
                    i.sample(rng, env, k)
            if not admissible(ob, env):
                continue
            fail = replay_fail(ob, env)
            if fail:
                _viol(ob, res, env, ce.label, fail)
                return False
        res.status = "unknown"
        res.detail = "counterexample did not reproduce on the real code: %s %s" % (ce.label, _short(ce.env))
        return False
    except Unknown as u:
        if _sampled(ob, res, rng, 24):
            return False
        res.status, res.detail = "unknown", str(u)
        return False
    except (t.Unsupported, t.TooBig) as e:
        if _sampled(ob, res, rng, 24):
            return False
        res.status, res.detail = "unknown", "%s: %s" % (type(e).__name__, e)
        return False



def _run_fork(ob, res, P, tmo, rng, example, syms, e0):
    from . import fork

    kinds = {i.name: i for i in ob.inputs}

    def wrap(kw):
        out = {}
        for k, v in kw.items():
            out[k] = fork.Num(v, "int" if kinds[k].kind == "i" else "float") if kinds[k].py else v
        return out

    meta = []

    def g(kw):
        out = flatten_out(ob.fn(**kw))
        meta[:] = []
        vals = []
        for it in out:
            vs = [_ja(fork.unwrap(x)) for x in it[2:]]
            if it[1] == "eq" and np.shape(vs[0]) != np.shape(vs[1]):
                raise ShapeMismatch("%s: shapes %s vs %s" % (it[0], np.shape(vs[0]), np.shape(vs[1])))
            vals.append(tuple(vs))
            meta.append((it[0], it[1]))
        return vals

    for k in range(ob.validate):
        env = sample_env(ob, rng, mode=k)
        if env is None:
            break
        f = replay_fail(ob, env)
        if f:
            ob.vfail = (env, f)
            break
    flat, _ = jax.tree_util.tree_flatten(syms, is_leaf=lambda x: isinstance(x, np.ndarray))
    P.deadline = time.time() + 6 * tmo
    queue, npaths, pr = [[]], 0, set()
    while queue:
        script = queue.pop()
        if npaths >= ob.maxpaths or time.time() > P.deadline:
            res.status, res.detail = "unknown", "path budget exhausted after %d paths" % npaths
            return
        jx.SIDE.clear()
        closed, fk, err = fork.trace_path(g, example, script, wrap)
        try:
            outs = jx.run_jaxpr(closed, flat)
        except (t.Unsupported, t.TooBig) as e:
            if _sampled(ob, res, rng, 12):
                return
            res.status, res.detail = "unknown", "encoding: %s: %s" % (type(e).__name__, e)
            return
        side = list(jx.SIDE)
        n = len(fk.dec)
        conds = [jx.obj(c)[()] for c in outs[len(outs) - n:]] if n else []
        conds = [c if isinstance(c, B) else t.t2b(c) for c in conds]
        stack = []
        dead = False
        try:
            for i, (c, d) in enumerate(zip(conds, fk.dec)):
                c = t.rebuild_b(c, {}) if stack else c
                c = c if d else t.bnot(c)
                if i >= len(script):
                    other = t.bnot(c)
                    if other is not t.FALSE and P.query(other, 2000, want_model=False)[0] != "unsat":
                        queue.append(list(fk.dec[:i]) + [not d])
                    if c is t.FALSE or P.query(c, 2000, want_model=False)[0] == "unsat":
                        dead = True
                        break
                if c is t.TRUE:
                    continue
                ctx = t.assuming(c)
                ctx.__enter__()
                stack.append(ctx)
            if dead:
                continue
            npaths += 1
            if err is not None:
                r, env = P.query(t.TRUE, 5000)
                cands = [env] if env else []
                for k in range(20):
                    e2 = sample_env(ob, rng, mode=k)
                    if e2:
                        cands.append(e2)
                for e2 in cands:
                    if admissible(ob, e2):
                        f = replay_fail(ob, e2)
                        if f:
                            return _viol(ob, res, e2, "path", f)
                res.status = "unknown"
                res.detail = "path raised %s: %s (not reproduced concretely)\n%s" % (
                    type(err[0]).__name__, str(err[0])[:300], "".join(traceback.format_tb(err[1])[-4:]))
                return
            memo = {}

            def pre(x):
                if not stack:
                    return x
                if isinstance(x, CX):
                    return CX(t.rebuild_t(x.re, memo), t.rebuild_t(x.im, memo))
                if isinstance(x, B):
                    return t.rebuild_b(x, memo)
                return t.rebuild_t(x, memo)

            goals, i = [], 0
            for label, kind in meta:
                m = 2 if kind == "eq" else 1
                goals.append((label, kind, outs[i : i + m]))
                i += m
            if not _decide(ob, res, P, rng, lambda: _prove_goals(P, res, side, goals, pre)):
                return
        finally:
            for ctx in reversed(stack):
                ctx.__exit__(None, None, None)
    ob.paths = npaths
    res.splits += npaths
    if npaths == 0:
        raise HarnessError("no feasible path")
    res.eqns = jx.STATS["eqns"] - e0
    res.prims = sorted(jx.STATS["prims"])
    res.calls = sorted(k for k in jx.FRAMES)


class ShapeMismatch(Exception):
    pass


def _ja(x):
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(x)
    return jnp.asarray(x)


def _short(env):
    s = json.dumps(env, default=str)
    return s[:400]


def _viol(ob, res, env, label, fail):
    res.status = "violation"
    res.detail = "%s | %s" % (label, fail)
    res.replay = {"obligation": ob.name, "inputs": env, "failure": fail, "label": label}


def _sampled(ob, res, rng, n):
    for k in range(n):
        env = sample_env(ob, rng, mode=k)
        if env is None:
            return False
        f = replay_fail(ob, env)
        if f:
            _viol(ob, res, env, "sampled after inconclusive encoding", f)
            return True
    return False


def _validate(ob, res, goals, closed, rng):
    jf = None
    for k in range(ob.validate):
        env = sample_env(ob, rng, mode=k)
        if env is None:
            break
        f = replay_fail(ob, env)
        if f:
            ob.vfail = (env, f)  # the solver gets to find it first; see run_ob
            return True
        # compare symbolic terms with the real execution
        args = {i.name: i.from_env(env) for i in ob.inputs}
        flat = jax.tree_util.tree_leaves(args)
        if jf is None:
            jf = jax.jit(jax.core.jaxpr_as_fun(closed)) if hasattr(jax.core, "jaxpr_as_fun") else None
        import jax.extend as jex

        outs = jex.core.jaxpr_as_fun(closed)(*flat)
        memo = {}
        i = 0
        cnt = 0
        for label, kind, vals in goals:
            for v in vals:
                real = np.asarray(outs[i])
                i += 1
                if not jx.is_sym(v):
                    continue
                for ix in np.ndindex(*v.shape):
                    try:
                        ev = _ev(v[ix], env, memo)
                    except (t.Undefined, OverflowError, ZeroDivisionError, ValueError, KeyError):
                        continue
                    rv = real[ix]
                    if isinstance(ev, bool):
                        ok = ev == bool(rv)
                    elif isinstance(ev, complex):
                        ok = _close(ev, complex(rv))
                    else:
                        ok = _close(ev, float(rv.real if real.dtype.kind == "c" else rv))
                    if not ok:
                        raise HarnessError(
                            "translator validation mismatch at %s%s: symbolic %r real %r inputs %s"
                            % (label, list(ix), ev, rv, _short(env))
                        )
                    cnt += 1
        res.validated += cnt
    return True


def _close(a, b):
    if a != a and b != b:
        return True
    if a == b:
        return True
    if a != a or b != b:
        return False
    return abs(a - b) <= 1e-6 + 1e-5 * max(abs(a), abs(b))


def _ev(v, env, memo):
    if isinstance(v, CX):
        return complex(t.ev_t(v.re, env, memo), t.ev_t(v.im, env, memo))
    if isinstance(v, B):
        return bool(t.ev_b(v, env, memo))
    return t.ev_t(v, env, memo)
