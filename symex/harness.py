"""Harness registry, symbolic/concrete contexts, exploration loop and result aggregation."""
import argparse
import builtins
import contextlib
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np
import z3

from . import core, arr
from .core import (SBool, SBV, SInt, SNum, SFD, Engine, PathAbort, BudgetExceeded, Unsupported, HarnessViolation,
                   land, lor, lnot, limplies, ite, mkbool, zb)
from .num import zpoly, mono_box, q, poly_interval

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = []


class H(object):
    def __init__(self, fn, name, params, modules, kinds, tier, limit, shadows, encodes, bounds, timeout_ms, logic=None, fork_ite=False):
        self.logic, self.fork_ite = logic, fork_ite
        self.fn, self.name, self.params, self.modules = fn, name, params, modules
        self.kinds, self.tier, self.limit, self.shadows = kinds, tier, limit, shadows
        self.encodes, self.bounds, self.timeout_ms = encodes, bounds, timeout_ms


def harness(name=None, params=None, modules=(), kinds='fc', tier='quick', limit=None, shadows=True, encodes=(),
            bounds='', thorough_params=None, timeout_ms=15000, logic=None, fork_ite=False):
    def deco(fn):
        REGISTRY.append(H(fn, name or fn.__name__, params or [{}], list(modules), kinds, tier, limit, shadows,
                          list(encodes), bounds, timeout_ms, logic, fork_ite))
        if thorough_params:
            REGISTRY.append(H(fn, (name or fn.__name__) + '+', thorough_params, list(modules), kinds, 'thorough', limit,
                              shadows, list(encodes), bounds, timeout_ms, logic, fork_ite))
        return fn
    return deco


# ---------------------------------------------------------------- builtin shadows

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._py)

    def __subclasscheck__(cls, x):
        return x is cls or issubclass(x, cls._py)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)


class sfloat(metaclass=_Meta):
    _py = float
    dtype = np.dtype(float)
    __name__ = 'float'
    fromhex = float.fromhex

    @staticmethod
    def _conv(x=0.0):
        if arr.is_proxy(x):
            if type(x) is SFD:
                return float(x.conc())
            if type(x) is SNum:
                if x.is_complex:
                    raise TypeError("can't convert complex to float")
                return x
            return SNum.lift(x).norm()
        if isinstance(x, arr.SymArray):
            return sfloat._conv(x.item())
        if hasattr(x, '__symfloat__'):
            return x.__symfloat__()
        return float(x)


class scomplex(metaclass=_Meta):
    _py = complex
    dtype = np.dtype(complex)

    @staticmethod
    def _conv(x=0.0, y=0.0):
        if arr.is_proxy(x) or arr.is_proxy(y):
            return SNum.lift(x) + SNum.lift(y) * 1j
        if isinstance(x, arr.SymArray):
            return scomplex._conv(x.item())
        return complex(x, y) if not isinstance(x, str) else complex(x)


class sint(metaclass=_Meta):
    _py = int
    dtype = np.dtype(int)

    @staticmethod
    def _conv(x=0, *a):
        if not a and arr.is_proxy(x):
            if type(x) is SFD:
                ok = []
                for v in x.vals:
                    try:
                        ok.append(int(v))
                    except (ValueError, TypeError):
                        ok.append(None)
                if None not in ok and len(set(ok)) == len(ok):
                    return x if ok == list(x.vals) else SFD(x.i, ok, int)
                if all(o is None for o in ok):
                    raise ValueError("invalid literal for int()")
                return int(x.conc())
            if type(x) is SBool:
                return x._bv()
            return arr.cast(x, 'i')
        if isinstance(x, arr.SymArray):
            return sint._conv(x.item())
        if hasattr(x, '__symint__'):
            return x.__symint__()
        return int(x, *a)


def smin_b(*a, **k):
    if not k and len(a) >= 2 and any(arr.is_proxy(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = arr.smin(r, x)
        return r
    if not k and len(a) == 1:
        xs = list(a[0])
        if any(arr.is_proxy(x) for x in xs):
            return smin_b(*xs) if len(xs) > 1 else xs[0]
        return builtins.min(xs)
    return builtins.min(*a, **k)


def smax_b(*a, **k):
    if not k and len(a) >= 2 and any(arr.is_proxy(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = arr.smax(r, x)
        return r
    if not k and len(a) == 1:
        xs = list(a[0])
        if any(arr.is_proxy(x) for x in xs):
            return smax_b(*xs) if len(xs) > 1 else xs[0]
        return builtins.max(xs)
    return builtins.max(*a, **k)


class srange(metaclass=_Meta):
    """range() whose bounds may be symbolic: iteration forks on the trip count only, elements stay symbolic"""
    _py = range

    @staticmethod
    def _conv(*a):
        if not any(arr.is_proxy(x) for x in a):
            return range(*a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if arr.is_proxy(step):
            step = step.__index__()
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        return SRange(start, stop, step)


class SRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        x = self.start
        while (x < self.stop) if self.step > 0 else (x > self.stop):
            yield x
            x = x + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def __getitem__(self, i):
        return list(self)[i]


RANGE = {'range': srange}

SHADOWS = {'float': sfloat, 'int': sint, 'complex': scomplex, 'min': smin_b, 'max': smax_b}


@contextlib.contextmanager
def shimmed(modules, kinds, shadows):
    """replace numpy and a few builtins by their symbolic versions inside the named modules"""
    saved = []
    for m in modules:
        extra = {}
        if isinstance(m, tuple):
            m, extra = m
        mod = importlib.import_module(m) if isinstance(m, str) else m
        rep = {}
        for k, v in list(mod.__dict__.items()):
            if v is np:
                rep[k] = arr.NPShim(kinds)
        if shadows:
            names = SHADOWS if shadows is True else {k: SHADOWS[k] for k in shadows}
            rep.update(names)
        rep.update(extra)
        for k, v in rep.items():
            saved.append((mod, k, mod.__dict__.get(k, saved)))
            setattr(mod, k, v)
    try:
        yield
    finally:
        for mod, k, v in reversed(saved):
            if v is saved:
                delattr(mod, k)
            else:
                setattr(mod, k, v)


# ---------------------------------------------------------------- contexts

class Ctx(object):
    symbolic = False

    def __init__(self, params, tier):
        self.p = params
        self.tier = tier
        self.trace = []

    def __getattr__(self, k):
        raise AttributeError(k)

    # helpers common to both
    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def bits(self, name, n):
        return [self.bit('%s%d' % (name, i)) for i in range(n)]

    def reals(self, name, n, lo=-1, hi=1):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def bit(self, name):
        return self.bv(name, 0, 1)

    def bitmx(self, name, *shape):
        return self.array([self.bit('%s_%s' % (name, '_'.join(map(str, ix)))) for ix in np.ndindex(*shape)], shape, 'i')

    def bvmx(self, name, shape, lo, hi):
        return self.array([self.bv('%s_%s' % (name, '_'.join(map(str, ix))), lo, hi) for ix in np.ndindex(*shape)], shape, 'i')

    def realmx(self, name, *shape, lo=-1, hi=1):
        return self.array([self.real('%s_%s' % (name, '_'.join(map(str, ix))), lo, hi) for ix in np.ndindex(*shape)], shape, 'f')

    def cplxmx(self, name, *shape, lo=-1, hi=1):
        return self.array([self.real('%s_%s_r' % (name, '_'.join(map(str, ix))), lo, hi)
                           + 1j * self.real('%s_%s_i' % (name, '_'.join(map(str, ix))), lo, hi)
                           for ix in np.ndindex(*shape)], shape, 'c')

    def check_close(self, a, b, msg, tol=1e-7):
        raise NotImplementedError

    def check_raises(self, f, msg, exc=Exception):
        try:
            f()
        except exc:
            return
        self.check(False, msg)

    def check_shape(self, a, shape, msg):
        self.check(tuple(np.shape(a)) == tuple(shape), msg + " (shape)")


def _symtuple(k):
    return isinstance(k, tuple) and any(type(x) is SFD or _symtuple(x) for x in k)


class FDict(dict):
    def __getitem__(self, k):
        if _symtuple(k):
            for k2, v in dict.items(self):
                if isinstance(k2, tuple) and len(k2) == len(k) and all(a == b for a, b in zip(k, k2)):
                    return v
            raise KeyError(k)
        if type(k) is SFD:
            out = [dict.__getitem__(self, v) if dict.__contains__(self, v) else None for v in k.vals]
            if None not in out and len(set(out)) == len(out) and len(set(map(type, out))) == 1:
                return SFD(k.i, out)
            k = k.conc()
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        if _symtuple(k):
            return any(isinstance(k2, tuple) and len(k2) == len(k) and all(a == b for a, b in zip(k, k2)) for k2 in dict.keys(self))
        if type(k) is SFD:
            return bool(k.pred(lambda v: dict.__contains__(self, v)))
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng, params, tier):
        super().__init__(params, tier)
        self.eng = eng

    def _reg(self, name, dec, proxy):
        assert name not in self.eng.inputs, "duplicate input " + name
        self.eng.inputs[name] = (dec, proxy)
        return proxy

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.eng.solver.add(v >= lo, v <= hi)
        return self._reg(name, 'int', SInt(v, lo, hi).norm() if lo != hi else lo)

    def bv(self, name, lo, hi):
        w = core.bits_for(lo, hi)
        if w == 1:
            w = 2
        n_bits = w
        if lo == 0 and hi == 1:
            b = z3.Bool(name)
            return self._reg(name, 'bit', SBV(z3.If(b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1))
        v = z3.BitVec(name, n_bits)
        if lo != -(1 << (n_bits - 1)):
            self.eng.solver.add(v >= lo)
        if hi != (1 << (n_bits - 1)) - 1:
            self.eng.solver.add(v <= hi)
        if lo == hi:
            return self._reg(name, 'const', lo)
        return self._reg(name, 'bv', SBV(v, lo, hi))

    def bool(self, name):
        return self._reg(name, 'bool', SBool(z3.Bool(name)))

    def real(self, name, lo=-1, hi=1):
        return self._reg(name, 'real', SNum.var(name, lo, hi))

    def fd(self, name, vals, cls=None):
        vals = list(vals)
        if len(vals) == 1:
            return self._reg(name, 'fdconst', vals[0])
        i = z3.BitVec(name, core.bits_for(0, len(vals) - 1))
        self.eng.solver.add(i >= 0, i <= len(vals) - 1)
        return self._reg(name, 'fd', SFD(SBV(i, 0, len(vals) - 1), vals, cls))

    def print_floats(self):
        """the code formats symbolic numbers into messages (and converts them to float nowhere else): print them as 0"""
        if self.symbolic:
            core.cur().print_floats = True

    def choice(self, name, vals):
        vals = list(vals)
        if len(vals) == 1:
            return self._reg(name, 'fdconst', vals[0])
        x = self.fd(name, vals, cls=object)
        return x.conc()

    def one(self, v):
        """constant that hashes like the finite-domain symbols"""
        return SFD(0, [v])

    def dict(self, d):
        """a dict that can be indexed with finite-domain symbolic keys"""
        return FDict(d)

    def array(self, flat, shape, kind):
        raw = np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            raw[i] = x
        return arr.SymArray(raw.reshape(shape), kind)

    def tofloat(self, a):
        """plain float array -> array usable with symbolic entries"""
        return arr.SymArray(np.asarray(a))

    def assume(self, c):
        if isinstance(c, SBool):
            self.eng.assume(c.e)
        elif not c:
            self.eng.abort()

    def cover(self, label):
        self.eng.cur_covers.add(label)

    # ---- assertions
    def check(self, c, msg):
        st = self.eng.stats
        st.asserts += 1
        if not isinstance(c, SBool):
            if isinstance(c, (SBV, SInt, SNum)):
                c = (c != 0)
            if not isinstance(c, SBool):
                if c:
                    st.discharged += 1
                    st.trivially_true += 1
                    return
                m = self.eng.ensure_model()
                raise Failure(msg, m)
        r, m = self.eng._sat_with(z3.Not(c.e))
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            st.unknown += 1
            return
        raise Failure(msg, m)

    def check_close(self, a, b, msg, tol=1e-7):
        st = self.eng.stats
        fa, fb = _flat(a), _flat(b)
        st.asserts += 1
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
            else:
                raise Failure(msg + " (sizes %d != %d)" % (len(fa), len(fb)), self.eng.ensure_model())
        polys = []
        for x, y in zip(fa, fb):
            if not arr.is_proxy(x) and not arr.is_proxy(y):
                if not _numclose(x, y, tol):
                    raise Failure(msg + " (%r != %r)" % (x, y), self.eng.ensure_model())
                continue
            if type(x) in (SBV, SInt, SBool) and type(y) in (SBV, SInt, int, SBool):
                self.check(x == y, msg)
                continue
            if not arr.is_proxy(x) and (x is None or not np.isfinite(x)) or \
                    not arr.is_proxy(y) and (y is None or not np.isfinite(y)):
                raise Failure(msg + " (%r != %r)" % (x, y), self.eng.ensure_model())
            d = SNum.lift(x) - SNum.lift(y)
            if not arr.is_proxy(d):
                if not _numclose(d, 0, tol):
                    raise Failure(msg + " (diff %r)" % (d,), self.eng.ensure_model())
                continue
            for part in ((d.real, d.imag) if d.is_complex else (d,)):
                if arr.is_proxy(part):
                    polys.append(part)
                elif not _numclose(part, 0, tol):
                    raise Failure(msg + " (diff %r)" % (part,), self.eng.ensure_model())
        if not polys:
            st.discharged += 1
            if any(arr.is_proxy(x) for x in fa) or any(arr.is_proxy(x) for x in fb):
                st.normal_form += 1
            else:
                st.trivially_true += 1
            return
        r, m = prove_small(self.eng, polys, tol)
        if r == 'unsat':
            st.discharged += 1
        elif r == 'unknown':
            st.unknown += 1
        else:
            raise Failure(msg, m)

    def witness(self, model):
        out = {}
        for name, (dec, proxy) in self.eng.inputs.items():
            out[name] = decode(dec, proxy, model, self.eng)
        return out


class Failure(Exception):
    """assertion failed symbolically (candidate counterexample)"""

    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg, self.model = msg, model


def _numclose(x, y, tol):
    try:
        if x == y:
            return True
        return bool(abs(x - y) <= tol)
    except TypeError:
        return False


def _flat(a):
    if isinstance(a, arr.SymArray):
        return list(a.raw().reshape(-1))
    if isinstance(a, np.ndarray):
        return a.reshape(-1).tolist()
    if isinstance(a, (list, tuple)):
        r = []
        for x in a:
            r.extend(_flat(x))
        return r
    if hasattr(a, 'todense') or hasattr(a, 'toarray'):
        return np.asarray(a.toarray()).reshape(-1).tolist()
    if isinstance(a, np.generic):
        return [a.item()]
    return [a]


def ratval(v):
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) if abs(v.numerator_as_long()) < 1 << 900 \
            and v.denominator_as_long() < 1 << 900 else float(v.as_fraction())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return ratval(a)
    if z3.is_int_value(v):
        return float(v.as_long())
    raise Unsupported("model value %s" % v)


def decode(dec, proxy, model, eng):
    if dec in ('const', 'fdconst'):
        return proxy if dec == 'const' else 0
    if not arr.is_proxy(proxy):
        return proxy
    if model is None:
        raise Unsupported("no model")
    if dec == 'real':
        (m, c), = proxy.d.items()
        return ratval(model.eval(eng.symtab.syms[m[0]].z, model_completion=True))
    if dec == 'int':
        return model.eval(proxy.e, model_completion=True).as_long()
    if dec in ('bv', 'bit'):
        return model.eval(proxy.e, model_completion=True).as_signed_long()
    if dec == 'bool':
        return z3.is_true(model.eval(proxy.e, model_completion=True))
    if dec == 'fd':
        return model.eval(proxy.i.e, model_completion=True).as_signed_long()
    raise Unsupported(dec)


def prove_small(eng, polys, tol):
    """is |p|<=tol for every poly over the path's values?  'unsat' (yes) / model / 'unknown'"""
    t = eng.symtab
    st = eng.stats
    # 1. linear relaxation: each monomial an independent bounded variable
    s = z3.Solver()
    s.set('timeout', eng.timeout_ms)
    mv = {}
    ors = []
    relaxable = True
    for p in polys:
        terms = []
        for m, c in p.d.items():
            if m == ():
                terms.append(q(c))
                continue
            if m not in mv:
                v = z3.Real('m%d' % len(mv))
                b = mono_box(t, m)
                if b is not None and all(math.isfinite(x) for x in b):
                    s.add(v >= q(b[0]), v <= q(b[1]))
                mv[m] = v
            terms.append(q(c) * mv[m])
        e = z3.Sum(terms) if len(terms) > 1 else terms[0]
        tt = tol - (p.err if p.err == p.err else math.inf)
        if tt <= 0:
            return 'unknown', None
        ors.append(z3.Or(e > q(tt), e < q(-tt)))
    s.add(z3.Or(*ors))
    t0 = time.time()
    r = s.check()
    st.solver_s += time.time() - t0
    st.queries += 1
    if r == z3.unsat:
        return 'unsat', None
    # 1b. clear 1/p atoms
    polys2 = [clear_inv(p) for p in polys]
    if any(p2 is not p for p2, p in zip(polys2, polys)):
        if all((not arr.is_proxy(p2)) and abs(p2) < 1e-9 or arr.is_proxy(p2) and (p2.bound() or math.inf) < 1e-9 for p2 in polys2):
            return 'unsat', None
    # 2. candidate points: path model with inputs pinned to random rationals where the path allows
    viol = z3.Or(*[z3.Or(zpoly(p.d) > q(tol), zpoly(p.d) < q(-tol)) for p in polys]) if polys else z3.BoolVal(False)
    rnd = random.Random(eng.seed * 7919 + st.queries)
    reals = [(sy) for sy in t.syms if sy.kind == 'var']
    for k in range(3):
        pins = []
        for sy in reals:
            lo, hi = sy.lo if sy.lo is not None else -2, sy.hi if sy.hi is not None else 2
            pins.append(sy.z == q(round(lo + (hi - lo) * rnd.random(), 3)))
        eng.solver.push()
        try:
            # pin as many as stay consistent
            if k < 2:
                eng.solver.add(pins)
            else:
                for pn in pins[: len(pins) // 2]:
                    eng.solver.add(pn)
            eng.solver.add(viol)
            eng.solver.set('timeout', 4000)
            r = eng._check()
            if r == z3.sat:
                return 'sat', eng._ms.model()
        finally:
            eng.solver.pop()
            eng.solver.set('timeout', eng.timeout_ms)
    # 3. full query
    r, m = eng._sat_with(viol)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', m
    return 'unknown', None


def clear_inv(p):
    t = core.cur().symtab
    if not arr.is_proxy(p):
        return p
    invs = [s for s in set(x for m in p.d for x in m) if t.syms[s].kind == 'inv']
    if not invs:
        return p
    s = max(invs)      # innermost-last: newest atoms first
    deg = max(m.count(s) for m in p.d)
    arg = SNum.lift(t.syms[s].arg)
    out = 0.0
    pw = [1.0]
    for _ in range(deg):
        pw.append(arg * pw[-1])
    for m, c in p.d.items():
        k = m.count(s)
        rest = SNum({tuple(x for x in m if x != s): c})
        out = rest * pw[deg - k] + out
    return clear_inv(out) if arr.is_proxy(out) else out


class ConcCtx(Ctx):
    symbolic = False

    def __init__(self, values, params, tier):
        super().__init__(params, tier)
        self.values = values
        self.assumed_false = False

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo, hi): return int(self._get(name, lo))
    def bv(self, name, lo, hi): return int(self._get(name, lo))
    def bool(self, name): return bool(self._get(name, False))
    def real(self, name, lo=-1, hi=1): return float(self._get(name, max(lo, 0.0) if lo is not None else 0.0))
    def fd(self, name, vals, cls=None): return list(vals)[int(self._get(name, 0))]
    def print_floats(self):
        pass

    def choice(self, name, vals): return list(vals)[int(self._get(name, 0))]

    def one(self, v):
        return v

    def dict(self, d):
        return dict(d)

    def array(self, flat, shape, kind):
        return np.array(flat, dtype=arr.KDT[kind]).reshape(shape)

    def tofloat(self, a):
        return np.array(a)

    def assume(self, c):
        if not c:
            raise AssumptionFalse()

    def cover(self, label):
        pass

    def check(self, c, msg):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise HarnessViolation(msg)

    def check_close(self, a, b, msg, tol=1e-7):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
            else:
                raise HarnessViolation(msg + " (sizes %d != %d)" % (len(fa), len(fb)))
        for x, y in zip(fa, fb):
            if not _numclose(x, y, tol):
                raise HarnessViolation(msg + " (%r != %r)" % (x, y))


class AssumptionFalse(Exception):
    pass


def run_concrete(h, params, values, tier):
    """run harness on plain values against the real code. -> ('ok'|'violation'|'exception'|'assume', msg)"""
    cx = ConcCtx(values, params, tier)
    saved = core.CUR
    core.CUR = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h.fn(cx)
        return 'ok', ''
    except HarnessViolation as e:
        return 'violation', e.msg
    except AssumptionFalse:
        return 'assume', ''
    except Exception as e:
        if _harness_stale(e):
            return 'stale', '%s: %s' % (type(e).__name__, str(e)[:300])
        return 'exception', '%s: %s' % (type(e).__name__, str(e)[:300]) + '\n' + traceback.format_exc()[-1500:]
    finally:
        core.CUR = saved


def _harness_stale(e):
    """the harness itself refers to an internal name/signature that the code no longer has: not a finding"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(VERIF + os.sep):
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        n = getattr(e, 'name', None) or ''
        return n.startswith('_') and not n.startswith('__') or 'module ' in str(e)[:8]
    if isinstance(e, TypeError) and 'argument' in str(e):
        f = str(e).split('(')[0].split('.')[-1]
        return f.startswith('_') and not f.startswith('__')
    return False


class Timeout(Exception):
    pass


def explore(h, params, tier, seed, limit_s, max_validate=25):
    """explore all paths of one harness instance"""
    t0 = time.time()
    deadline = t0 + limit_s
    eng = Engine(timeout_ms=h.timeout_ms, deadline=deadline, seed=seed, logic=h.logic, fork_ite=h.fork_ite)
    st = eng.stats
    res = {'harness': h.name, 'params': params, 'violation': None, 'errors': []}
    rnd = random.Random(seed)
    fns = set()
    while eng.work:
        if time.time() > deadline:
            st.exhausted = False
            break
        prefix, model = eng.work.pop()
        eng.reset_path(list(prefix), model)
        core.CUR = eng
        cx = SymCtx(eng, params, tier)
        outcome = 'ok'
        fail = None
        exc = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with shimmed(h.modules, h.kinds, h.shadows):
                    h.fn(cx)
            if eng.dead:
                outcome = 'aborted'
        except PathAbort:
            outcome = 'aborted'
        except BudgetExceeded:
            st.exhausted = False
            break
        except Failure as f:
            outcome, fail = 'fail', f
        except Unsupported as e:
            outcome, exc = 'unsupported', e
        except RecursionError as e:
            outcome, exc = 'exception', e
        except Exception as e:
            outcome, exc = 'exception', e
            if eng.dead:
                outcome = 'aborted'
        finally:
            pass
        if outcome == 'aborted':
            st.aborted += 1
            continue
        st.paths += 1
        for c in eng.cur_covers:
            st.covers[c] = st.covers.get(c, 0) + 1
        try:
            if fail is not None:
                model = fail.model
            else:
                try:
                    model = eng.ensure_model()
                except PathAbort:
                    st.aborted += 1
                    st.paths -= 1
                    continue
            if model is None:
                st.notes.append("no model for a path (%s)" % outcome)
                if outcome != 'ok':
                    st.degraded_paths += 1
                continue
            values = cx.witness(model)
        except (Unsupported, BudgetExceeded) as e:
            st.notes.append("witness: %s" % e)
            continue
        if outcome == 'ok':
            if st.validated < max_validate:
                r, msg = run_concrete(h, params, values, tier)
                if r == 'ok':
                    st.validated += 1
                    if len(st.samples) < 2:
                        st.samples.append({'harness': h.name, 'params': _js(params), 'path_witness': _js(values)})
                elif r in ('violation', 'exception'):
                    res['violation'] = {'msg': 'concrete run of a path witness: ' + msg, 'values': values, 'how': r}
                    break
            continue
        if outcome == 'fail':
            r, msg = run_concrete(h, params, values, tier)
            if r in ('violation', 'exception'):
                res['violation'] = {'msg': msg if r == 'violation' else fail.msg + ' / ' + msg, 'values': values, 'how': r}
                break
            st.mismatch += 1
            st.notes.append("counterexample does not reproduce: %s %s (%s)" % (fail.msg, _js(values), r))
            if st.mismatch > 20:
                st.exhausted = False
                break
            continue
        # unsupported / unexpected exception: judge by the concrete run
        r, msg = run_concrete(h, params, values, tier)
        if r in ('violation', 'exception'):
            res['violation'] = {'msg': msg, 'values': values, 'how': r}
            break
        st.degraded_paths += 1
        if len(st.notes) < 5:
            tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]
            st.notes.append("path not followed symbolically (%s: %s)\n%s" % (type(exc).__name__, str(exc)[:200], tb))
        # more concrete tries on this path (bug finding only)
        bad = None
        for k in range(4):
            try:
                m = _another_model(eng, rnd)
            except BudgetExceeded:
                m = None
            if m is None:
                break
            try:
                vals = cx.witness(m)
            except Unsupported:
                break
            r, msg = run_concrete(h, params, vals, tier)
            if r in ('violation', 'exception'):
                bad = {'msg': msg, 'values': vals, 'how': r}
                break
        if bad:
            res['violation'] = bad
            break
        if st.degraded_paths > 60:
            st.exhausted = False
            break
    core.CUR = None
    res['stats'] = st.as_dict()
    res['wall'] = time.time() - t0
    return res


def _another_model(eng, rnd):
    if eng.symtab is None or not eng.symtab.syms:
        return None
    eng.solver.push()
    try:
        for sy in eng.symtab.syms:
            if sy.kind == 'var' and sy.lo is not None and sy.hi is not None:
                x = q(round(sy.lo + (sy.hi - sy.lo) * rnd.random(), 3))
                eng.solver.push()
                eng.solver.add(sy.z == x)
                eng.solver.set('timeout', 500)
                r = eng._check()
                if r != z3.sat:
                    eng.solver.pop()
        eng.solver.set('timeout', 2000)
        r = eng._check()
        return eng._ms.model() if r == z3.sat else None
    finally:
        # unwind all pushes
        while eng.solver.num_scopes() > 0:
            eng.solver.pop()
        eng.solver.set('timeout', eng.timeout_ms)


def _js(x):
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _job(a):
    i, params, tier, seed, limit = a
    h = REGISTRY[i]
    try:
        random.seed(seed)
        np.random.seed(seed)
        return i, explore(h, params, tier, seed, limit)
    except Exception:
        return i, {'harness': h.name, 'params': params, 'violation': None, 'errors': [traceback.format_exc()[-3000:]],
                   'stats': Stats0(), 'wall': 0.0}


def Stats0():
    return core.Stats().as_dict()


def main(pid, module):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(sys.argv[2:])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if args.replay:
        return replay(args.replay, module.__name__)
    tier = args.tier
    jobs = []
    deflimit = 100 if tier == 'quick' else 600
    for i, h in enumerate(REGISTRY):
        if h.fn.__module__ != module.__name__:   # a check may borrow reference models from another check's module
            continue
        if h.tier == 'thorough' and tier != 'thorough':
            continue
        if args.only and args.only not in h.name:
            continue
        for p in h.params:
            lim = (h.limit or deflimit)
            if tier == 'thorough':
                lim = max(lim, deflimit)
            jobs.append((i, p, tier, seed, lim))
    results = []
    budget = 700 if tier == 'quick' else 3000
    # heavy harnesses first
    ctx = multiprocessing.get_context('fork')
    viol = None
    with ctx.Pool(min(args.jobs, max(1, len(jobs))), maxtasksperchild=8) as pool:
        pend = [pool.apply_async(_job, (j,)) for j in jobs]
        seen = set()
        died = False
        while len(seen) < len(pend):
            for k, r in enumerate(pend):
                if k in seen or not r.ready():
                    continue
                seen.add(k)
                i, res = r.get()
                results.append((i, res))
                if args.v:
                    s = res['stats']
                    print("%-40s %-40s paths=%d deg=%d mism=%d unk=%d asserts=%d disch=%d triv=%d q=%d solver=%.1fs exh=%s val=%d wall=%.1fs%s" % (
                        res['harness'], str(res['params'])[:40], s['paths'], s['degraded_paths'], s['mismatch'], s['unknown'], s['asserts'],
                        s['discharged'], s['trivially_true'], s['queries'], s['solver_s'], s['exhausted'], s['validated'], res['wall'],
                        ' VIOL ' + res['violation']['msg'][:300] if res['violation'] else ''), flush=True)
                    for n in s['notes'][:2]:
                        print("     note:", n[:160].replace(chr(10), ' | '), '...', n[-int(os.environ.get('VNOTE', '250')):].replace(chr(10), ' | '))
                    for e in res['errors']:
                        print("     error:", e)
                if res['violation'] and viol is None:
                    viol = (i, res)
            if time.time() - t0 > budget:
                died = True
                break
            if viol is not None and not args.v:
                break
            time.sleep(0.02)
        pool.terminate()
    return report(pid, module, tier, seed, results, viol, len(jobs), time.time() - t0, died)


def report(pid, module, tier, seed, results, viol, njobs, wall, died):
    agg = core.Stats()
    inconclusive = []
    empty = []
    errors = []
    per = {}
    for i, r in results:
        s = r['stats']
        for k in ('paths', 'branches', 'forks', 'queries', 'solver_s', 'asserts', 'discharged', 'trivially_true', 'normal_form', 'unknown',
                  'degraded_paths', 'mismatch', 'aborted', 'validated'):
            setattr(agg, k, getattr(agg, k) + s[k])
        h = REGISTRY[i]
        d = per.setdefault(h.name, {'instances': 0, 'paths': 0, 'discharged': 0, 'asserts': 0, 'queries': 0, 'solver_s': 0.0,
                                    'exhausted': True, 'functions_encoded': h.encodes, 'bounds': h.bounds})
        d['instances'] += 1
        for k in ('paths', 'discharged', 'asserts', 'queries'):
            d[k] += s[k]
        d['solver_s'] = round(d['solver_s'] + s['solver_s'], 3)
        d['exhausted'] = d['exhausted'] and s['exhausted']
        agg.samples.extend(s['samples'][:1])
        if not s['exhausted'] or s['unknown'] or s['degraded_paths'] or s['mismatch']:
            inconclusive.append({'harness': r['harness'], 'params': _js(r['params']), 'exhausted': s['exhausted'],
                                 'unknown': s['unknown'], 'degraded': s['degraded_paths'], 'mismatch': s['mismatch'],
                                 'notes': [n[-400:] for n in s['notes'][:2]]})
        if r['errors']:
            errors.append(r['errors'][0])
        elif s['asserts'] == 0 and not r['violation']:
            empty.append('%s %s' % (r['harness'], r['params']))
    rc = 0
    nviol = 0
    if viol is not None:
        i, r = viol
        h = REGISTRY[i]
        v = r['violation']
        rp = {'property': pid, 'harness': h.name, 'params': _js(r['params']), 'params_index': h.params.index(r['params']),
              'values': _js(v['values']), 'message': v['msg'], 'how': v['how'], 'tier': tier}
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        tag = hashlib.md5(json.dumps(rp, sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (pid, h.name.replace('/', '_'), tag))
        with open(path, 'w') as f:
            json.dump(rp, f, indent=1)
        print("counterexample in %s %s: %s" % (h.name, r['params'], v['msg']))
        print("inputs: %s" % json.dumps(_js(v['values']))[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
        nviol = 1
    cov = {
        'states': agg.paths, 'transitions': agg.branches, 'traces_validated_against_impl': agg.validated,
        'samples': agg.samples[:12] or ['none'],
        'symbolic_paths': agg.paths, 'aborted_infeasible_paths': agg.aborted,
        'assertions': agg.asserts, 'assertions_discharged': agg.discharged, 'discharged_by_constant_folding': agg.trivially_true, 'discharged_by_polynomial_normal_form': agg.normal_form,
        'solver_queries': agg.queries, 'solver_time_s': round(agg.solver_s, 2), 'unknown_results': agg.unknown,
        'harness_instances': len(results), 'harness_instances_planned': njobs,
        'exhaustive_within_bounds': (not inconclusive and len(results) == njobs),
        'inconclusive': inconclusive[:40], 'harnesses': per,
        'meaning': 'states = feasible symbolic paths of the real code; transitions = solver-decided symbolic branches; '
                   'traces_validated = solver witnesses of paths re-run on plain values against the real code',
    }
    meta = getattr(module, 'META', {})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d harness instances, %d paths, %d/%d assertions discharged, %d queries, %.1fs solver, %.1fs wall, "
          "%d inconclusive instance(s)" % (pid, tier, len(results), njobs, agg.paths, agg.discharged, agg.asserts, agg.queries,
                                           agg.solver_s, wall, len(inconclusive)))
    if rc == 0:
        for inc in inconclusive[:10]:
            print("INCONCLUSIVE %s %s" % (inc['harness'], inc['params']))
        for k in meta.get('known_findings_cb', lambda: [])():
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if errors:
            print("ERROR in harness:", errors[0])
            rc = 2
        elif agg.discharged == 0 or agg.paths == 0:
            print("ERROR: nothing was decided")
            rc = 2
    return rc


def replay(path, modname):
    rp = json.load(open(path))
    for h in REGISTRY:
        if h.name == rp['harness'] and h.fn.__module__ == modname:
            r, msg = run_concrete(h, h.params[rp['params_index']], rp['values'], rp.get('tier', 'quick'))
            print(r, msg)
            return 1 if r in ('violation', 'exception') else 0
    print("no such harness")
    return 2
