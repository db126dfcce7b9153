"""Symbolic execution engine: runs the real Python functions of /repo on proxy
values; every branch on a proxy is decided by z3; all feasible paths inside the
stated bounds are explored by re-execution; assertions are discharged by z3
(unsat of path /\ not property) or give a model which is replayed concretely.
"""
import math
import numbers
import time
import os
import z3
DEBUG = os.environ.get('VDEBUG')

z3.set_param('auto_config', True)


class PathAbort(BaseException):
    """the current path is infeasible / cut (BaseException: code must not catch it)"""


class BudgetExceeded(BaseException):
    pass


class Unsupported(Exception):
    """the proxies cannot follow the code here (engine limitation, not a verdict)"""


class HarnessViolation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


CUR = None   # current engine (symbolic mode) or None


def cur():
    if CUR is None:
        raise RuntimeError("no symbolic engine active")
    return CUR


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.discharged = 0
        self.trivially_true = 0
        self.normal_form = 0
        self.unknown = 0
        self.concretised = 0
        self.degraded_paths = 0
        self.mismatch = 0
        self.aborted = 0
        self.validated = 0
        self.exhausted = True
        self.covers = {}
        self.samples = []
        self.notes = []

    def as_dict(self):
        return dict(self.__dict__)


class Engine(object):
    """One symbolic exploration (one harness instance)."""

    def __init__(self, timeout_ms=20000, max_paths=10 ** 9, deadline=None, seed=1, logic=None, fork_ite=False):
        self.fork_ite = fork_ite
        self.print_floats = False
        self.logic = logic
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.stats = Stats()
        self.work = [([], None)]
        self.vars = {}
        self.reset_path([], None)

    # -- per path state
    def reset_path(self, prefix, model):
        self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        if not self.logic:
            self.solver.set('random_seed', self.seed)
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = model
        self.inputs = {}        # name -> descriptor (kind, proxy, decode)
        self.atom_cache = {}
        self.symtab = None
        self.nfresh = 0
        self.dead = False
        self.degraded = False
        self.path_conc = 0
        self.cur_covers = set()

    def fresh(self, base):
        self.nfresh += 1
        return "%s!%d" % (base, self.nfresh)

    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.time()
        r = self.solver.check(*assumptions)
        self._ms = self.solver
        if r == z3.unknown and 'giveup' in self.solver.reason_unknown():
            # outside the restricted logic: decide the same query with the general solver
            g = z3.Solver()
            g.set('timeout', self.timeout_ms)
            g.add(self.solver.assertions())
            r = g.check(*assumptions)
            self._ms = g
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def _sat_with(self, c):
        """check path /\\ c, returns (result, model)"""
        self.solver.push()
        try:
            self.solver.add(c)
            r = self._check()
            m = self._ms.model() if r == z3.sat else None
            if r == z3.unknown and DEBUG:
                print("UNKNOWN", self.solver.reason_unknown(), self.solver.sexpr()[-1500:])
        finally:
            self.solver.pop()
        return r, m

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._ms.model()
            elif r == z3.unsat:
                self.abort()
            else:
                self.stats.unknown += 1
                return None
        return self.model

    def abort(self):
        self.dead = True
        raise PathAbort()

    def add_axiom(self, c):
        """definitional constraint (of a fresh variable): keeps feasibility, may invalidate model"""
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.abort()
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None
        if self.model is None and self.pos >= len(self.prefix):
            self.ensure_model()

    def branch(self, c):
        """decide boolean z3 term c on this path"""
        if self.dead:
            raise PathAbort()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.branches += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.solver.add(c if d else z3.Not(c))
            if self.pos < len(self.prefix):
                pass
            return d
        m = self.ensure_model()
        if m is None:
            v = True
            r, m2 = self._sat_with(c)
            if r == z3.unsat:
                v = False
                self.solver.add(z3.Not(c))
                self.decisions.append(v)
                self.pos += 1
                self.prefix = self.decisions
                return v
            self.model = m2
        else:
            ev = m.eval(c, model_completion=True)
            v = z3.is_true(ev)
            if not v and not z3.is_false(ev):
                # model evaluation undetermined (e.g. algebraic values)
                r, m2 = self._sat_with(c)
                v = (r != z3.unsat)
                if m2 is not None:
                    self.model = m2
        other = z3.Not(c) if v else c
        r, om = self._sat_with(other)
        if r != z3.unsat:
            if r == z3.unknown:
                self.stats.unknown += 1
            self.stats.forks += 1
            self.work.append((self.decisions + [not v], om))
        self.solver.add(c if v else z3.Not(c))
        self.decisions.append(v)
        self.pos += 1
        self.prefix = self.decisions
        return v

    def fork_value(self, e, as_py):
        """pick concrete value of z3 term e by forking over its feasible values"""
        while True:
            e = z3.simplify(e)
            v = as_py(e)
            if v is not None:
                return v
            if self.pos < len(self.prefix):
                # replaying: need same candidate value as in the original run: recorded in decisions
                d = self.prefix[self.pos]
                # decision entries for values are tuples ('v', val, taken)
                self.pos += 1
                self.decisions.append(d)
                _, val, taken = d
                c = (e == self.lit(e, val))
                self.solver.add(c if taken else z3.Not(c))
                if taken:
                    return val
                continue
            self.stats.branches += 1
            m = self.ensure_model()
            if m is None:
                raise Unsupported("no model to concretise value")
            val = as_py(m.eval(e, model_completion=True))
            if val is None:
                raise Unsupported("cannot read value from model")
            c = (e == self.lit(e, val))
            r, om = self._sat_with(z3.Not(c))
            if r != z3.unsat:
                if r == z3.unknown:
                    self.stats.unknown += 1
                self.stats.forks += 1
                self.work.append((self.decisions + [('v', val, False)], om))
            self.solver.add(c)
            self.decisions.append(('v', val, True))
            self.pos += 1
            self.prefix = self.decisions
            return val

    @staticmethod
    def lit(e, val):
        if z3.is_bv(e):
            return z3.BitVecVal(val, e.size())
        if z3.is_int(e):
            return z3.IntVal(val)
        if z3.is_bool(e):
            return z3.BoolVal(val)
        raise Unsupported("lit")


# ---------------------------------------------------------------------------
#  booleans

def zb(x):
    """python/proxy truth value -> z3 Bool"""
    if isinstance(x, SBool):
        return x.e
    if type(x).__name__ == 'bool_' or x is True or x is False:
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SInt, SBV, SNum)):
        return zb(x != 0)
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        object.__setattr__(self, 'e', e)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)) or type(o).__name__ == 'bool_':
            return mkbool(self.e == zb(o))
        return self._bv() == o

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return 7

    def _bv(self):
        return SBV(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __add__(self, o): return self._bv() + o
    def __radd__(self, o): return o + self._bv()
    def __sub__(self, o): return self._bv() - o
    def __rsub__(self, o): return o - self._bv()
    def __mul__(self, o): return self._bv() * o
    def __rmul__(self, o): return self._bv() * o
    def __mod__(self, o): return self._bv() % o
    def __lt__(self, o): return self._bv() < o
    def __le__(self, o): return self._bv() <= o
    def __gt__(self, o): return self._bv() > o
    def __ge__(self, o): return self._bv() >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SBool(%s)" % (str(self.e)[:60],)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def lnot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x


def land(*xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es))


def lor(*xs):
    es = []
    for x in xs:
        if isinstance(x, SBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es))


def limplies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """merge: value of 'a if c else b' without forking, where the types allow"""
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if type(a) is SFD or type(b) is SFD:
        return _ite_fd(c, a, b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c.e, zb(a), zb(b)))
    if isinstance(a, SNum) or isinstance(b, SNum) or isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        return SNum.lift(a).ite(c, SNum.lift(b))
    if isinstance(a, SInt) or isinstance(b, SInt):
        a, b = SInt.lift(a), SInt.lift(b)
        return SInt(z3.If(c.e, a.e, b.e), _min(a.lo, b.lo), _max(a.hi, b.hi))
    if isinstance(a, (int, SBV, SBool)) and isinstance(b, (int, SBV, SBool)):
        a, b = SBV.lift(a), SBV.lift(b)
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        w = bits_for(lo, hi)
        return SBV(z3.If(c.e, a.at(w), b.at(w)), lo, hi)
    return a if bool(c) else b


def _ite_fd(c, a, b):
    va = a.vals if type(a) is SFD else [a]
    vb = b.vals if type(b) is SFD else [b]
    if any(type(v) in (SNum, SInt, SBV, SBool) for v in list(va) + list(vb)):
        return a if bool(c) else b
    vals = []
    for v in list(va) + list(vb):
        if not any(type(v) is type(w) and v == w for w in vals):
            vals.append(v)
    if len(vals) == 1:
        return vals[0]
    pos = lambda v: [i for i, w in enumerate(vals) if type(v) is type(w) and v == w][0]

    def index(x):
        if type(x) is not SFD:
            return pos(x)
        r = pos(x.vals[-1])
        for k, v in list(enumerate(x.vals))[:-1]:
            r = ite(x.i == k, pos(v), r)
        return r
    i = ite(c, index(a), index(b))
    if not isinstance(i, SBV):
        return vals[i]
    return SFD(i, vals, (a if type(a) is SFD else b).cls)


def _min(a, b):
    return None if (a is None or b is None) else min(a, b)


def _max(a, b):
    return None if (a is None or b is None) else max(a, b)


# ---------------------------------------------------------------------------
#  range-tracked bit-vector integers (never overflow: width follows the range)

def bits_for(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
        w += 1
    return w


def _isint(x):
    t = type(x)
    if t is int:
        return True
    if t is bool:
        return True
    return isinstance(x, numbers.Integral) and not isinstance(x, (SInt, SBV, SBool)) if not type(x) in (SInt, SBV, SBool) else False


def _np_int(x):
    import numpy as np
    return isinstance(x, np.integer) or isinstance(x, np.bool_)


class SBV(object):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.lo, self.hi = lo, hi
        if hi - lo > (1 << 128):
            raise Unsupported("bit-vector range too large")
        w = bits_for(lo, hi)
        s = e.size()
        if s > w:
            e = z3.Extract(w - 1, 0, e)
        elif s < w:
            e = z3.SignExt(w - s, e)
        self.e = z3.simplify(e)

    @staticmethod
    def const(v):
        v = int(v)
        return SBV(z3.BitVecVal(v, bits_for(v, v)), v, v)

    @staticmethod
    def lift(x):
        if type(x) is SBV:
            return x
        if type(x) is SBool:
            return x._bv()
        return SBV.const(int(x))

    def at(self, w):
        s = self.e.size()
        if s == w:
            return self.e
        if s < w:
            return z3.SignExt(w - s, self.e)
        return z3.Extract(w - 1, 0, self.e)

    @property
    def __class__(self):
        return int

    def norm(self):
        if self.lo == self.hi:
            return self.lo
        if z3.is_bv_value(self.e):
            return self.e.as_signed_long()
        return self

    @staticmethod
    def ok(o):
        t = type(o)
        if t in (SBV, SBool, int, bool):
            return True
        if t is float or t.__name__ == 'float64':
            return o == o and abs(o) < 4503599627370496.0 and o == int(o)
        return _np_int(o)

    def _bin(self, o, f, lo, hi, extra=None):
        w = bits_for(lo, hi)
        return SBV(f(self.at(w), o.at(w)), lo, hi).norm()

    def __add__(self, o):
        if not SBV.ok(o):
            return _fallback('add', self, o)
        o = SBV.lift(o)
        lo, hi = self.lo + o.lo, self.hi + o.hi
        return self._bin(o, lambda a, b: a + b, lo, hi)
    __radd__ = __add__

    def __neg__(self):
        w = bits_for(min(-self.hi, self.lo), max(-self.lo, self.hi))
        return SBV(-self.at(w), -self.hi, -self.lo).norm()

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not SBV.ok(o):
            return _fallback('sub', self, o)
        o = SBV.lift(o)
        lo, hi = self.lo - o.hi, self.hi - o.lo
        w = bits_for(min(lo, self.lo, o.lo), max(hi, self.hi, o.hi))
        return SBV(self.at(w) - o.at(w), lo, hi).norm()

    def __rsub__(self, o):
        if not SBV.ok(o):
            return _fallback('rsub', self, o)
        return SBV.lift(o).__sub__(self)

    def __mul__(self, o):
        if not SBV.ok(o):
            return _fallback('mul', self, o)
        o = SBV.lift(o)
        ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        lo, hi = min(ps), max(ps)
        if lo >= 0 and self.lo >= 0 and self.hi == 1:
            w = bits_for(lo, hi)
            return SBV(z3.If(self.e == z3.BitVecVal(1, self.e.size()), o.at(w), z3.BitVecVal(0, w)), lo, hi).norm()
        w = bits_for(min(lo, self.lo, o.lo), max(hi, self.hi, o.hi))
        return SBV(self.at(w) * o.at(w), lo, hi).norm()
    __rmul__ = __mul__

    def __mod__(self, o):
        if not SBV.ok(o):
            return _fallback('mod', self, o)
        o = SBV.lift(o)
        if o.lo == o.hi:
            m = o.lo
            if m == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if m > 0 and 0 <= self.lo and self.hi < m:
                return self
            if m > 0 and (m & (m - 1)) == 0:
                k = m.bit_length() - 1
                if k == 0:
                    return 0
                w = max(self.e.size(), k + 1)
                return SBV(self.at(w) & z3.BitVecVal(m - 1, w), 0, m - 1).norm()
            if m > 0:
                w = bits_for(min(self.lo, -m), max(self.hi, m)) + 1
                a, b = self.at(w), z3.BitVecVal(m, w)
                if self.lo >= 0:
                    return SBV(z3.URem(a, b), 0, m - 1).norm()
                r = z3.SRem(a, b)
                return SBV(z3.If(r < 0, r + b, r), 0, m - 1).norm()
        # general case
        if bool(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        M = max(abs(o.lo), abs(o.hi))
        w = bits_for(min(self.lo, -M), max(self.hi, M)) + 1
        a, b = self.at(w), o.at(w)
        r = z3.SRem(a, b)
        e = z3.If(z3.And(r != 0, (r < 0) != (b < 0)), r + b, r)
        lo = 0 if o.lo >= 0 else -(M - 1)
        hi = 0 if o.hi <= 0 else (M - 1)
        return SBV(e, min(lo, 0), max(hi, 0)).norm()

    def __rmod__(self, o):
        return SBV.lift(o).__mod__(self)

    def __floordiv__(self, o):
        if not SBV.ok(o):
            return _fallback('floordiv', self, o)
        o = SBV.lift(o)
        if bool(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        M = max(abs(self.lo), abs(self.hi), abs(o.lo), abs(o.hi)) + 1
        w = bits_for(-M, M) + 1
        a, b = self.at(w), o.at(w)
        q = a / b
        r = z3.SRem(a, b)
        e = z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q)
        if o.lo > 0:
            cs = [self.lo // o.lo, self.lo // o.hi, self.hi // o.lo, self.hi // o.hi]
            return SBV(e, min(cs), max(cs)).norm()
        return SBV(e, -M, M).norm()

    def __rfloordiv__(self, o):
        return SBV.lift(o).__floordiv__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        return SNum.lift(self) / o

    def __rtruediv__(self, o):
        return SNum.lift(o) / SNum.lift(self)

    def __pow__(self, o, mod=None):
        if type(o) is SBV:
            o = o.__index__()
        if isinstance(o, int) and not isinstance(o, (SInt,)):
            if o < 0:
                return SNum.lift(self) ** o
            r = 1
            for _ in range(o):
                r = r * self
            return r if mod is None else r % mod
        return SNum.lift(self) ** o

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0 and self.hi <= 64:
            return 1 << self
        if o == -1:
            return ite((self % 2) == 0, 1, -1)
        return o ** self.__index__()

    def _bit(self, o, f, rev=False):
        if not SBV.ok(o):
            return NotImplemented
        o = SBV.lift(o)
        w = max(self.e.size(), o.e.size())
        if self.lo >= 0 and o.lo >= 0:
            hi = (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
            lo = 0
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return SBV(f(self.at(w), o.at(w)), lo, hi).norm()

    def __and__(self, o): return self._bit(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if type(o) is SBV:
            o = o.__index__()
        return self * (1 << int(o))

    def __rlshift__(self, o):
        k = self
        if k.lo < 0 or k.hi > 64:
            return o << k.__index__()
        o = SBV.lift(o)
        hi = o.hi << k.hi
        lo = o.lo << (k.hi if o.lo < 0 else k.lo)
        w = bits_for(min(lo, 0), hi) + 1
        return SBV(o.at(w) << z3.ZeroExt(w - k.e.size(), k.e) if w >= k.e.size() else o.at(w) << z3.Extract(w - 1, 0, k.e), lo, hi).norm()

    def __rshift__(self, o):
        if type(o) is SBV:
            o = o.__index__()
        o = int(o)
        lo, hi = self.lo >> o, self.hi >> o
        return SBV(self.e >> o if o < self.e.size() else z3.If(self.e < 0, z3.BitVecVal(-1, self.e.size()), z3.BitVecVal(0, self.e.size())), lo, hi).norm()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __abs__(self):
        if self.lo >= 0:
            return self
        w = bits_for(-max(abs(self.lo), abs(self.hi)), max(abs(self.lo), abs(self.hi)))
        a = self.at(w)
        return SBV(z3.If(a < 0, -a, a), 0, max(abs(self.lo), abs(self.hi))).norm()

    def _cmp(self, o, f, pyf):
        if not SBV.ok(o):
            if isinstance(o, (float, complex)) or type(o) in (SNum, SInt) or type(o).__name__.startswith('float'):
                return pyf(SNum.lift(self), o)
            return NotImplemented
        o = SBV.lift(o)
        w = max(self.e.size(), o.e.size())
        return mkbool(f(self.at(w), o.at(w)))

    def __eq__(self, o):
        if not SBV.ok(o):
            if isinstance(o, (float, complex)) or type(o) in (SNum, SInt):
                return SNum.lift(self) == o
            return False
        o = SBV.lift(o)
        if self.hi < o.lo or o.hi < self.lo:
            return False
        w = max(self.e.size(), o.e.size())
        return mkbool(self.at(w) == o.at(w))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return 7

    def __bool__(self):
        r = self.__ne__(0)
        return bool(r)

    def __index__(self):
        return cur().fork_value(self.e, lambda e: e.as_signed_long() if z3.is_bv_value(e) else None)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __complex__(self):
        return complex(self.__index__())

    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def conjugate(self): return self
    def logical_not(self): return self == 0
    def sqrt(self): return SNum.lift(self).sqrt()
    def item(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def is_integer(self): return True
    def bit_length(self): return self.__index__().bit_length()
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __str__(self): return str(self.__index__())
    def __format__(self, s): return format(self.__index__(), s)

    def __repr__(self):
        return "SBV(%s in [%s,%s])" % (str(self.e)[:50], self.lo, self.hi)

    def __reduce__(self):
        return (int, (self.__index__(),))


def _fallback(op, a, o):
    """arithmetic of an integer proxy with a non-integer operand"""
    if isinstance(o, (float, complex)) or type(o) in (SNum, SInt) or type(o).__name__.startswith(('float', 'complex')):
        x = SNum.lift(a)
        if op == 'add': return x + o
        if op == 'sub': return x - o
        if op == 'rsub': return SNum.lift(o) - x
        if op == 'mul': return x * o
        if op == 'mod': return x % o
        if op == 'floordiv': return x // o
    return NotImplemented


# ---------------------------------------------------------------------------
#  mathematical integers (linear integer arithmetic)

def _zint(x):
    if type(x) is SInt:
        return x.e
    if type(x) is SBV:
        return z3.BV2Int(x.e, is_signed=True)
    if type(x) is SBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


class SInt(object):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        self.e = z3.simplify(e)
        self.lo, self.hi = lo, hi

    @staticmethod
    def lift(x):
        if type(x) is SInt:
            return x
        if type(x) is SBV:
            return SInt(_zint(x), x.lo, x.hi)
        if type(x) is SBool:
            return SInt(_zint(x), 0, 1)
        x = int(x)
        return SInt(z3.IntVal(x), x, x)

    @staticmethod
    def ok(o):
        t = type(o)
        if t in (SInt, SBV, SBool, int, bool):
            return True
        if t is float or t.__name__ == 'float64':
            return o == o and abs(o) < 4503599627370496.0 and o == int(o)
        return _np_int(o)

    def norm(self):
        if z3.is_int_value(self.e):
            return self.e.as_long()
        return self

    @property
    def __class__(self):
        return int

    def __add__(self, o):
        if not SInt.ok(o):
            return _fallback('add', self, o)
        o = SInt.lift(o)
        return SInt(self.e + o.e, _addn(self.lo, o.lo), _addn(self.hi, o.hi)).norm()
    __radd__ = __add__

    def __neg__(self):
        return SInt(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo).norm()

    def __pos__(self): return self

    def __sub__(self, o):
        if not SInt.ok(o):
            return _fallback('sub', self, o)
        o = SInt.lift(o)
        return SInt(self.e - o.e, None if (self.lo is None or o.hi is None) else self.lo - o.hi,
                    None if (self.hi is None or o.lo is None) else self.hi - o.lo).norm()

    def __rsub__(self, o):
        if not SInt.ok(o):
            return _fallback('rsub', self, o)
        return SInt.lift(o) - self

    def __mul__(self, o):
        if not SInt.ok(o):
            return _fallback('mul', self, o)
        o = SInt.lift(o)
        lo = hi = None
        if None not in (self.lo, self.hi, o.lo, o.hi):
            ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
            lo, hi = min(ps), max(ps)
        return SInt(self.e * o.e, lo, hi).norm()
    __rmul__ = __mul__

    @staticmethod
    def _fdiv(a, b):
        """python floor division on z3 Ints (z3 div is euclidean), b != 0"""
        q = a / b            # z3: a = b*q + r, 0<=r<|b|
        return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))

    def _pos(self, o):
        return o.lo is not None and o.lo > 0

    def __floordiv__(self, o):
        if not SInt.ok(o):
            return _fallback('floordiv', self, o)
        o = SInt.lift(o)
        if not self._pos(o) and bool(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        e = self.e / o.e if self._pos(o) else SInt._fdiv(self.e, o.e)
        lo = hi = None
        if self._pos(o) and self.lo is not None and self.hi is not None:
            lo = self.lo if self.lo < 0 else 0
            hi = self.hi if self.hi > 0 else 0
        return SInt(e, lo, hi).norm()

    def __rfloordiv__(self, o):
        return SInt.lift(o) // self

    def __mod__(self, o):
        if not SInt.ok(o):
            return _fallback('mod', self, o)
        o = SInt.lift(o)
        if not self._pos(o) and bool(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if self._pos(o):
            return SInt(self.e % o.e, 0, None if o.hi is None else o.hi - 1).norm()
        return SInt(self.e - o.e * SInt._fdiv(self.e, o.e)).norm()

    def __rmod__(self, o):
        return SInt.lift(o) % self

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __truediv__(self, o):
        return SNum.lift(self) / o

    def __rtruediv__(self, o):
        return SNum.lift(o) / SNum.lift(self)

    def __pow__(self, o, mod=None):
        if type(o) in (SInt, SBV):
            o = o.__index__()
        if _isint(o) and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return SNum.lift(self) ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None if None in (self.lo, self.hi) else max(abs(self.lo), abs(self.hi))
        return SInt(z3.If(self.e < 0, -self.e, self.e), 0, hi)

    def _cmp(self, o, f):
        if not SInt.ok(o):
            if isinstance(o, float) or type(o) is SNum or type(o).__name__.startswith('float'):
                if isinstance(o, float) and math.isinf(o):
                    return f(0, o)
                return f(SNum.lift(self), o)
            return NotImplemented
        return mkbool(f(self.e, _zint(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not SInt.ok(o):
            if isinstance(o, (float, complex)) or type(o) is SNum:
                return SNum.lift(self) == o
            return False
        o = SInt.lift(o)
        if (self.hi is not None and o.lo is not None and self.hi < o.lo) or \
           (o.hi is not None and self.lo is not None and o.hi < self.lo):
            return False
        return mkbool(self.e == o.e)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __hash__(self): return 7

    def __bool__(self):
        return bool(self.__ne__(0))

    def __index__(self):
        return cur().fork_value(self.e, lambda e: e.as_long() if z3.is_int_value(e) else None)

    def __int__(self): return self.__index__()
    def __float__(self): return float(self.__index__())
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def conjugate(self): return self
    def item(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __and__(self, o): return self.__index__() & o
    def __rand__(self, o): return o & self.__index__()
    def __or__(self, o): return self.__index__() | o
    def __xor__(self, o): return self.__index__() ^ o
    def __lshift__(self, o): return self * (1 << int(o))
    def __rshift__(self, o): return self // (1 << int(o))
    def __invert__(self): return -self - 1
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __str__(self): return str(self.__index__())
    def __format__(self, s): return format(self.__index__(), s)
    def __repr__(self): return "SInt(%s)" % (str(self.e)[:60],)

    def __reduce__(self):
        return (int, (self.__index__(),))


def _addn(a, b):
    return None if (a is None or b is None) else a + b


# ---------------------------------------------------------------------------
#  finite-domain symbolic values (strings, labels ...)

class SFD(object):
    """A symbolic value ranging over a finite list of distinct python values.
    Equality stays symbolic; anything that needs the value forks over it."""
    __slots__ = ('i', 'vals', 'cls')

    def __init__(self, i, vals, cls=None):
        self.i = i            # SBV index (or int)
        self.vals = vals
        self.cls = cls or type(vals[0])

    @property
    def __class__(self):
        return self.cls

    def conc(self):
        return self.vals[self.i.__index__()]

    def __eq__(self, o):
        if type(o) is SFD:
            if o.vals is self.vals or o.vals == self.vals:
                return self.i == o.i
            return lor(*[land(self.i == k, o.i == l) for k, v in enumerate(self.vals)
                         for l, w in enumerate(o.vals) if v == w])
        try:
            ks = [k for k, v in enumerate(self.vals) if v == o]
        except Exception:
            return False
        return lor(*[self.i == k for k in ks])

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def pred(self, f):
        """symbolic truth of f(value)"""
        return lor(*[self.i == k for k, v in enumerate(self.vals) if f(v)])

    def _ord(self, o, f):
        if type(o) is SFD:
            return lor(*[land(self.i == k, o.i == l) for k, v in enumerate(self.vals)
                         for l, w in enumerate(o.vals) if f(v, w)])
        return self.pred(lambda v: f(v, o))

    def __lt__(self, o): return self._ord(o, lambda a, b: a < b)
    def __le__(self, o): return self._ord(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ord(o, lambda a, b: a > b)
    def __ge__(self, o): return self._ord(o, lambda a, b: a >= b)
    def __hash__(self): return 7

    def __bool__(self):
        return bool(self.pred(bool))

    def __index__(self): return self.conc().__index__()
    def __int__(self): return int(self.conc())
    def __float__(self): return float(self.conc())
    def __len__(self):
        ls = set(len(v) for v in self.vals)
        if len(ls) == 1:
            return ls.pop()
        return len(self.conc())
    def __iter__(self): return iter(self.conc())
    def __getitem__(self, k): return self.conc()[k]
    def __contains__(self, x): return bool(self.pred(lambda v: x in v))
    def __add__(self, o): return self.conc() + (o.conc() if type(o) is SFD else o)
    def __radd__(self, o): return o + self.conc()
    def __sub__(self, o): return self.conc() - (o.conc() if type(o) is SFD else o)
    def __rsub__(self, o): return o - self.conc()
    def __mul__(self, o): return self.conc() * o
    def __mod__(self, o): return self.conc() % o
    def __str__(self): return str(self.conc())
    def __repr__(self): return repr(self.conc())
    def __format__(self, s): return format(self.conc(), s)

    def startswith(self, x):
        return self.pred(lambda v: v.startswith(x))

    def endswith(self, x):
        return self.pred(lambda v: v.endswith(x))

    def isdigit(self):
        return self.pred(lambda v: v.isdigit())

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, nm):
        if nm.startswith('__') and nm.endswith('__'):
            raise AttributeError(nm)
        return getattr(self.conc(), nm)

    def __reduce__(self):
        import copyreg
        v = self.conc()
        return (_ident, (v,))


def _ident(v):
    return v


# ---------------------------------------------------------------------------
#  reals / complex numbers as polynomials with numeric coefficients

from .num import SNum  # noqa: E402  (needs the classes above)
