"""SNum: real/complex values as multivariate polynomials over bounded real symbols.

Symbols are the harness inputs plus atoms (1/p, sqrt p, log p, exp p, cos/sin, merged values)
whose definitions are axioms of the path.  Coefficients are doubles (the code under test computes in
doubles); dropped tiny terms are accounted in `err`.
"""
import math
import cmath
from fractions import Fraction
import z3
from . import core

EPS = 1e-15


class Sym(object):
    __slots__ = ('id', 'name', 'lo', 'hi', 'z', 'kind', 'arg', 'arg2', 'cond', 'twin')

    def __init__(self, id, name, lo, hi, z, kind, arg=None, arg2=None, cond=None):
        self.id, self.name, self.lo, self.hi, self.z, self.kind = id, name, lo, hi, z, kind
        self.arg, self.arg2, self.cond = arg, arg2, cond
        self.twin = None

    @property
    def bound(self):
        if self.lo is None or self.hi is None:
            return None
        return max(abs(self.lo), abs(self.hi))


class SymTab(object):
    def __init__(self):
        self.syms = []
        self.byname = {}
        self.zmono = {}
        self.reduce = {}     # symid -> poly dict for sym**2
        self.pending = set() # max/min atoms whose definition has not been asserted yet
        self.inv_of = {}     # symid -> symid of its inverse atom
        self.boxcache = {}

    def new(self, name, lo, hi, kind, z=None, **kw):
        s = Sym(len(self.syms), name, lo, hi, z if z is not None else z3.Real(name), kind, **kw)
        self.syms.append(s)
        return s


def tab():
    e = core.cur()
    t = e.symtab
    if t is None:
        t = e.symtab = SymTab()
    return t


def q(x):
    """exact z3 rational of a float"""
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(float(x))
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.Q(f.numerator, f.denominator)


def imul(a, b):
    if a is None or b is None:
        return None
    ps = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(ps), max(ps))


def mono_box(t, m):
    r = t.boxcache.get(m)
    if r is not None:
        return r if r != 'none' else None
    iv = (1.0, 1.0)
    i = 0
    n = len(m)
    while i < n:
        s = m[i]
        k = 1
        while i + k < n and m[i + k] == s:
            k += 1
        sy = t.syms[s]
        if sy.lo is None or sy.hi is None:
            iv = None
            break
        lo, hi = float(sy.lo), float(sy.hi)
        if k % 2 == 0:
            b = max(abs(lo), abs(hi)) ** k
            a = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** k
            iv = imul(iv, (a, b))
        else:
            iv = imul(iv, (lo ** k, hi ** k))
        i += k
    t.boxcache[m] = iv if iv is not None else 'none'
    return iv


def poly_interval(d, err=0.0):
    """interval of a real polynomial (dict) over the boxes, or None"""
    t = tab()
    lo = hi = 0.0
    for m, c in d.items():
        b = mono_box(t, m)
        if b is None:
            return None
        if isinstance(c, complex):
            c = c.real
        x, y = c * b[0], c * b[1]
        lo += min(x, y)
        hi += max(x, y)
    return (lo - err, hi + err)


def zmono(t, m):
    r = t.zmono.get(m)
    if r is None:
        if len(m) == 0:
            r = z3.RealVal(1)
        else:
            for s in m:
                if s in t.pending: materialise(t, s)
            fs = [t.syms[s].z for s in m]
            r = fs[0]
            for f in fs[1:]:
                r = r * f
        t.zmono[m] = r
    return r


def materialise(t, s):
    """assert the definition of a lazily defined maximum / minimum"""
    t.pending.discard(s)
    sy = t.syms[s]
    zs = [zpoly(x.d) for x in sy.arg]
    core.cur().add_axiom(z3.And([(sy.z >= z if sy.kind == 'max' else sy.z <= z) for z in zs]))
    core.cur().add_axiom(z3.Or([sy.z == z for z in zs]))


def extreme(xs, kind):
    """maximum / minimum of real values as one atom; comparisons with it go to its elements"""
    ds = {}
    for x in xs:
        x = SNum.lift(x)
        ds.setdefault(x.key(), x)
    xs = list(ds.values())
    ivs = [x.interval() for x in xs]
    ok = all(i is not None for i in ivs)
    if ok:
        if kind == 'max':
            b = max(i[0] for i in ivs)
            keep = [k for k in range(len(xs)) if ivs[k][1] > b or ivs[k][0] == b]
        else:
            b = min(i[1] for i in ivs)
            keep = [k for k in range(len(xs)) if ivs[k][0] < b or ivs[k][1] == b]
        xs, ivs = [xs[k] for k in keep], [ivs[k] for k in keep]
    if len(xs) == 1: return xs[0].norm()
    eng, t = core.cur(), tab()
    key = (kind,) + tuple(x.key() for x in xs)
    if key not in eng.atom_cache:
        f = max if kind == 'max' else min
        s = t.new(eng.fresh(kind), f(i[0] for i in ivs) if ok else None, f(i[1] for i in ivs) if ok else None, kind, arg=xs)
        t.pending.add(s.id)
        eng.atom_cache[key] = s
    return SNum({(eng.atom_cache[key].id,): 1.0})


def zpoly(d, part='re'):
    t = tab()
    ts = []
    for m, c in d.items():
        if isinstance(c, complex):
            c = c.real if part == 're' else c.imag
        elif part == 'im':
            continue
        if c == 0:
            continue
        if len(m) == 0:
            ts.append(q(c))
        elif c == 1:
            ts.append(zmono(t, m))
        else:
            ts.append(q(c) * zmono(t, m))
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def _tiny(c):
    return abs(c) < EPS


def _clean(c):
    if isinstance(c, complex) and c.imag == 0:
        return c.real
    return c


def _isnum(x):
    t = type(x)
    return t in (int, float, complex, bool) or t.__module__ == 'numpy' and t.__name__.startswith(('int', 'float', 'complex', 'uint', 'bool'))


class SNum(object):
    __slots__ = ('d', 'err')

    def __init__(self, d, err=0.0):
        self.d = d
        self.err = err

    # -- construction
    @staticmethod
    def var(name, lo, hi):
        t = tab()
        s = t.new(name, lo, hi, 'var')
        if lo is not None:
            core.cur().solver.add(s.z >= q(lo))
        if hi is not None:
            core.cur().solver.add(s.z <= q(hi))
        return SNum({(s.id,): 1.0})

    @staticmethod
    def lift(x):
        ty = type(x)
        if ty is SNum:
            return x
        if ty is core.SInt or ty is core.SBV or ty is core.SBool:
            if ty is core.SBool:
                x = x._bv()
            e = core._zint(x)
            if z3.is_int_value(e):
                return SNum({(): float(e.as_long())} if e.as_long() else {})
            t = tab()
            key = ('int', e.get_id())
            c = core.cur().atom_cache
            if key not in c:
                s = t.new(core.cur().fresh('ir'), x.lo, x.hi, 'int', z=z3.ToReal(e), arg=x)
                c[key] = (s, e)
            return SNum({(c[key][0].id,): 1.0})
        if ty is core.SFD:
            return SNum.lift(x.conc())
        if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and hasattr(x, 'item'):
            return SNum.lift(x.item())
        if isinstance(x, complex):
            x = complex(x)
            if x == 0:
                return SNum({})
            return SNum({(): x if x.imag != 0 else x.real})
        x = float(x)
        return SNum({(): x} if x != 0 else {})

    @staticmethod
    def ok(o):
        return type(o) in (SNum, core.SInt, core.SBV, core.SBool) or _isnum(o) or \
            (type(o).__name__ == 'ndarray' and o.ndim == 0)

    def norm(self):
        d = self.d
        if not d:
            return 0.0
        if len(d) == 1 and () in d:
            return d[()]
        return self

    @property
    def is_complex(self):
        return any(isinstance(c, complex) for c in self.d.values())

    @property
    def __class__(self):
        if any(isinstance(c, complex) for c in self.d.values()):
            return complex
        return float

    # -- arithmetic
    def __add__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        if _isnum(o):
            if o == 0:
                return self
            if o != o or abs(o) == math.inf:
                return o
        o = SNum.lift(o)
        a, b = (self.d, o.d)
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        err = self.err + o.err
        for m, c in b.items():
            if m in r:
                v = r[m] + c
                if _tiny(v) :
                    if v != 0:
                        bx = mono_box(tab(), m)
                        if bx is None:
                            r[m] = v
                            continue
                        err += abs(v) * max(abs(bx[0]), abs(bx[1]))
                    del r[m]
                else:
                    r[m] = _clean(v)
            else:
                r[m] = c
        return SNum(r, err).norm()
    __radd__ = __add__

    def __neg__(self):
        return SNum({m: -c for m, c in self.d.items()}, self.err)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        if _isnum(o):
            return self + (-o if not isinstance(o, bool) else -int(o))
        return self + (-SNum.lift(o))

    def __rsub__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        return (-self) + o

    def bound(self):
        t = tab()
        s = 0.0
        for m, c in self.d.items():
            b = mono_box(t, m)
            if b is None:
                return None
            s += abs(c) * max(abs(b[0]), abs(b[1]))
        return s

    def __mul__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        if _isnum(o):
            if o == 0:
                return 0.0
            if o == 1:
                return self
            if o != o or abs(o) == math.inf:
                return o if o != o else _infmul(self, o)
            o = complex(o) if isinstance(o, complex) else float(o)
            return SNum({m: _clean(c * o) for m, c in self.d.items()}, self.err * abs(o))
        o = SNum.lift(o)
        t = tab()
        r = {}
        red = t.reduce
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                c = c1 * c2
                if red and m1 and m2:
                    for mm, cc in _reduce(t, m).items():
                        r[mm] = r.get(mm, 0.0) + c * cc
                else:
                    r[m] = r.get(m, 0.0) + c
        err = 0.0
        if self.err or o.err:
            b1, b2 = self.bound(), o.bound()
            err = (math.inf if (b1 is None or b2 is None) else self.err * b2 + o.err * b1 + self.err * o.err)
        out = {}
        for m, c in r.items():
            if _tiny(c):
                if c != 0:
                    b = mono_box(t, m)
                    if b is None:
                        out[m] = c
                        continue
                    err += abs(c) * max(abs(b[0]), abs(b[1]))
                continue
            out[m] = _clean(c)
        return SNum(out, err).norm()
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        if _isnum(o):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            if abs(o) == math.inf:
                return 0.0
            o = complex(o) if isinstance(o, complex) else float(o)
            return SNum({m: _clean(c / o) for m, c in self.d.items()}, self.err / abs(o))
        o = SNum.lift(o)
        # proportional?
        r = _ratio(self, o)
        if r is not None:
            return r
        return self * o.inv()

    def __rtruediv__(self, o):
        if not SNum.ok(o):
            return NotImplemented
        return SNum.lift(o) / self

    def key(self):
        def k(c):
            c = complex(c)
            return (float('%.12g' % c.real), float('%.12g' % c.imag))
        return tuple(sorted((m, k(c)) for m, c in self.d.items()))

    def inv(self):
        if self.is_complex:
            c = self.conjugate()
            return c * SNum.lift(self * c).inv()
        if not self.d:
            raise ZeroDivisionError("float division by zero")
        if len(self.d) == 1 and () in self.d:
            return 1.0 / self.d[()]
        eng = core.cur()
        t = tab()
        # single symbol times const with known inverse (inverse of inverse)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if len(m) == 1 and t.syms[m[0]].kind == 'inv':
                return t.syms[m[0]].arg * (1.0 / c)
        # canonical scale so p and 2p share atoms
        lead = min(self.d)
        c0 = self.d[lead]
        p = self if c0 == 1 else SNum({m: c / c0 for m, c in self.d.items()}, self.err / abs(c0))
        key = ('inv', p.key())
        if key not in eng.atom_cache:
            if bool(p == 0):
                raise ZeroDivisionError("float division by zero")
            iv = poly_interval(p.d, p.err)
            lo = hi = None
            if iv is not None and (iv[0] > 0 or iv[1] < 0):
                lo, hi = 1.0 / iv[1], 1.0 / iv[0]
                lo, hi = min(lo, hi), max(lo, hi)
            s = t.new(eng.fresh('inv'), lo, hi, 'inv', arg=p)
            eng.add_axiom(s.z * zpoly(p.d) == 1)
            if len(p.d) == 1:
                (m, _), = p.d.items()
                if len(m) == 1:
                    t.inv_of[m[0]] = s.id
                    t.reduce[(m[0], s.id) if m[0] < s.id else (s.id, m[0])] = {(): 1.0}
            eng.atom_cache[key] = s
        s = eng.atom_cache[key]
        return SNum({(s.id,): 1.0}) * (1.0 / c0)

    def __floordiv__(self, o):
        x = self / o
        return _floor(x)

    def __rfloordiv__(self, o):
        return _floor(o / self)

    def __mod__(self, o):
        return self - _floor(self / o) * o

    def __pow__(self, n):
        if type(n) in (core.SInt, core.SBV):
            n = n.__index__()
        if type(n) is SNum:
            raise core.Unsupported("symbolic exponent")
        n0 = n
        if isinstance(n, complex):
            raise core.Unsupported("complex exponent")
        if float(n) == int(n):
            n = int(n)
            if n < 0:
                return SNum.lift(self.inv()) ** (-n)
            r, b = None, self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return 1.0 if r is None else r
        if 2 * float(n0) == int(2 * float(n0)):
            return self.sqrt() ** int(2 * float(n0))
        raise core.Unsupported("real exponent %r" % (n0,))

    def __rpow__(self, o):
        if _isnum(o) and o > 0:
            return (self * math.log(o)).exp()
        raise core.Unsupported("symbolic exponent")

    # -- structure
    def conjugate(self):
        return SNum({m: (c.conjugate() if isinstance(c, complex) else c) for m, c in self.d.items()}, self.err)
    conj = conjugate

    @property
    def real(self):
        return SNum({m: (c.real if isinstance(c, complex) else c) for m, c in self.d.items()
                     if not isinstance(c, complex) or c.real != 0}, self.err).norm()

    @property
    def imag(self):
        return SNum({m: c.imag for m, c in self.d.items() if isinstance(c, complex) and c.imag != 0},
                    self.err if self.is_complex else 0.0).norm()

    def interval(self):
        return poly_interval(self.d, self.err)

    # -- functions
    def _atom(self, kind, lo, hi, axiom=None):
        eng = core.cur()
        key = (kind, self.key())
        if key not in eng.atom_cache:
            t = tab()
            s = t.new(eng.fresh(kind), lo, hi, kind, arg=self)
            if axiom is not None:
                eng.add_axiom(axiom(s.z))
            if lo is not None:
                eng.add_axiom(s.z >= q(lo))
            if hi is not None:
                eng.add_axiom(s.z <= q(hi))
            eng.atom_cache[key] = s
        return eng.atom_cache[key]

    def sqrt(self, nonneg=False, least=0.0):
        # nonneg: the value is a sum of squares, of which one is at least least**2
        if self.is_complex:
            raise core.Unsupported("sqrt of complex")
        if not nonneg and bool(self < 0):
            return math.nan
        # perfect square monomial c*m*m
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c > 0 and len(m) % 2 == 0 and m[0::2] == m[1::2]:
                r = SNum({m[0::2]: math.sqrt(c)}).norm()
                return abs(r)
        iv = self.interval()
        hi = None if iv is None else math.sqrt(max(iv[1], 0))
        lo = max(least, 0.0 if iv is None else math.sqrt(max(iv[0], 0)))
        p = self
        s = self._atom('sqrt', lo, hi, lambda z: z * z == zpoly(p.d))
        tab().reduce[(s.id, s.id)] = dict(self.d)
        return SNum({(s.id,): 1.0})

    def __abs__(self):
        if self.is_complex:
            re, im = SNum.lift(self.real), SNum.lift(self.imag)
            return SNum.lift(re * re + im * im).sqrt(nonneg=True)
        iv = self.interval()
        if iv is not None:
            if iv[0] >= 0:
                return self
            if iv[1] <= 0:
                return -self
        b = self.bound()
        zp = zpoly(self.d)
        s = self._atom('abs', 0.0, b, lambda z: z == z3.If(zp >= 0, zp, -zp))
        tab().reduce[(s.id, s.id)] = dict(SNum.lift(self * self).d)
        return SNum({(s.id,): 1.0})

    def exp(self):
        if self.is_complex:
            re, im = SNum.lift(self.real), SNum.lift(self.imag)
            r = im.cos() + im.sin() * 1j
            return r if not re.d else re.exp() * r
        if not self.d:
            return 1.0
        t, pw = tab(), {}
        for m, c in self.d.items():
            if len(m) == 1 and t.syms[m[0]].kind == 'log' and float(c).is_integer() and abs(c) <= 16:
                pw[m] = int(c)
        if pw:
            r = 1.0
            for m, k in pw.items():
                a = SNum.lift(t.syms[m[0]].arg)
                if k < 0: a = SNum.lift(a.inv())
                for _ in range(abs(k)): r = r * a
            rest = {m: c for m, c in self.d.items() if m not in pw}
            return r * SNum(rest).norm().exp() if any(m for m in rest) else r * math.exp(rest.get((), 0.0))
        iv = self.interval()
        c0 = self.d.get((), None)
        if c0 is not None:
            return (self - c0).exp() * math.exp(c0)
        lead = min(self.d)
        if self.d[lead] < 0:
            pass
        s = self._atom('exp', 0.0 if iv is None else math.exp(iv[0]), None if iv is None else math.exp(min(iv[1], 700)))
        return SNum({(s.id,): 1.0})

    def log(self):
        if self.is_complex:
            raise core.Unsupported("log of complex")
        if not bool(self > 0):
            return -math.inf if bool(self == 0) else math.nan
        iv = self.interval()
        lo = hi = None
        if iv is not None:
            lo = math.log(iv[0]) if iv[0] > 0 else None
            hi = math.log(iv[1]) if iv[1] > 0 else None
        # factor constant: log(c*p)=log c+log p for monomials
        if len(self.d) == 1:
            (m, c), = self.d.items()
            t = tab()
            if (len(m) > 1 or c != 1) and all(t.syms[s].lo is not None and t.syms[s].lo >= 0 for s in m):
                r = math.log(c)
                for s in m:
                    sy = t.syms[s]
                    if sy.kind == 'inv':
                        r = r - sy.arg.log()
                    else:
                        r = r + SNum({(s,): 1.0}).log()
                return r
            if len(m) == 1 and t.syms[m[0]].kind == 'inv':
                return -(t.syms[m[0]].arg.log()) + math.log(c)
        if len(self.d) > 1:  # log(m*p) = log m + log p for a common factor m of the terms
            t = tab()
            ms = list(self.d)
            com = [i for i in sorted(set(ms[0])) if all(i in m for m in ms) and t.syms[i].lo is not None and t.syms[i].lo >= 0]
            if com:
                rest = {}
                for m, c in self.d.items():
                    l = list(m)
                    for i in com: l.remove(i)
                    rest[tuple(l)] = c
                r = SNum(rest).log()
                for i in com:
                    sy = t.syms[i]
                    r = r - SNum.lift(sy.arg).log() if sy.kind == 'inv' else r + SNum({(i,): 1.0}).log()
                return r
        s = self._atom('log', lo, hi)
        return SNum({(s.id,): 1.0})

    def _trig(self):
        """(cos, sin) atoms; argument normalised to positive leading coefficient, half/multiples not merged"""
        if self.is_complex:
            raise core.Unsupported("trig of complex")
        c0 = self.d.get((), None)
        if c0 is not None:
            c, s = SNum.lift(self - c0)._trig()
            return c * math.cos(c0) - s * math.sin(c0), s * math.cos(c0) + c * math.sin(c0)
        if not self.d:
            return 1.0, 0.0
        lead = min(self.d)
        if self.d[lead] < 0:
            c, s = (-self)._trig()
            return c, -s
        # angle addition on sums of terms so that canonical atoms are per (monomial, base coefficient)
        if len(self.d) > 1:
            rest = dict(self.d)
            c1 = rest.pop(lead)
            ca, sa = SNum({lead: c1})._trig()
            cb, sb = SNum(rest)._trig()
            return ca * cb - sa * sb, sa * cb + ca * sb
        eng = core.cur()
        t = tab()
        coef = self.d[lead]
        # express as integer multiple of an existing base angle
        for (k, base) in list(eng.atom_cache.items()):
            if k[0] == 'trigbase' and k[1] == lead:
                ratio = coef / k[2]
                if abs(ratio - round(ratio)) < 1e-12 and 1 <= round(ratio) <= 8:
                    n = int(round(ratio))
                    c1, s1 = base
                    c, s = c1, s1
                    for _ in range(n - 1):
                        c, s = c * c1 - s * s1, s * c1 + c * s1
                    return c, s
        cs = t.new(eng.fresh('cos'), -1.0, 1.0, 'cos', arg=self)
        sn = t.new(eng.fresh('sin'), -1.0, 1.0, 'sin', arg=self)
        eng.add_axiom(z3.And(cs.z * cs.z + sn.z * sn.z == 1, cs.z >= -1, cs.z <= 1, sn.z >= -1, sn.z <= 1))
        t.reduce[(sn.id, sn.id)] = {(): 1.0, (cs.id, cs.id): -1.0}
        pair = (SNum({(cs.id,): 1.0}), SNum({(sn.id,): 1.0}))
        eng.atom_cache[('trigbase', lead, coef)] = pair
        return pair

    def cos(self): return self._trig()[0]
    def sin(self): return self._trig()[1]

    def tan(self):
        c, s = self._trig()
        return s / c

    def arccos(self): raise core.Unsupported("arccos")
    def arcsin(self): raise core.Unsupported("arcsin")
    def arctan(self): raise core.Unsupported("arctan")
    def arctan2(self, o): raise core.Unsupported("arctan2")
    def log2(self): return self.log() * (1 / math.log(2))
    def log10(self): return self.log() * (1 / math.log(10))
    def square(self): return self * self
    def isnan(self): return False
    def isinf(self): return False
    def isfinite(self): return True
    def rint(self): return self.__round__()
    def floor(self): return _floor(self)
    def ceil(self): return -_floor(-self)
    def sign(self):
        return core.ite(self > 0, 1.0, core.ite(self < 0, -1.0, 0.0))

    def ite(self, c, o):
        """c ? self : o"""
        if self.is_complex or o.is_complex:
            re = SNum.lift(self.real).ite(c, SNum.lift(o.real))
            im = SNum.lift(self.imag).ite(c, SNum.lift(o.imag))
            return re + im * 1j
        if self.key() == o.key():
            return self
        eng = core.cur()
        if eng.fork_ite:
            return (self if bool(c) else o).norm()
        t = tab()
        i1, i2 = self.interval(), o.interval()
        lo = hi = None
        if i1 is not None and i2 is not None:
            lo, hi = min(i1[0], i2[0]), max(i1[1], i2[1])
        key = ('ite', c.e.get_id(), self.key(), o.key())
        if key not in eng.atom_cache:
            s = t.new(eng.fresh('ite'), lo, hi, 'ite', arg=self, arg2=o, cond=c.e)
            eng.add_axiom(s.z == z3.If(c.e, zpoly(self.d), zpoly(o.d)))
            eng.atom_cache[key] = s
        s = eng.atom_cache[key]
        return SNum({(s.id,): 1.0})

    # -- comparison
    def _diff(self, o):
        return SNum.lift(self - o)

    def __eq__(self, o):
        if not SNum.ok(o):
            return False
        if _isnum(o) and (o != o or abs(o) == math.inf):
            return False
        r = self - o
        if _isnum(r):
            return r == 0
        iv = poly_interval(SNum.lift(r.real).d, r.err)
        if iv is not None and (iv[0] > 0 or iv[1] < 0):
            return False
        if r.is_complex:
            return core.mkbool(z3.And(zpoly(r.d) == 0, zpoly(r.d, 'im') == 0))
        return core.mkbool(zpoly(r.d) == 0)

    def __ne__(self, o):
        return core.lnot(self.__eq__(o))

    def _ineq(self, o, f):
        if not SNum.ok(o):
            return NotImplemented
        if _isnum(o) and (o != o or abs(o) == math.inf):
            return bool(f(0.0, float(o)))
        if _isnum(o) and not isinstance(o, complex) and len(self.d) == 1:
            (m, c), = self.d.items()
            t = tab()
            if len(m) == 1 and c == 1 and m[0] in t.pending:
                iv = self.interval()
                if iv is None or not (iv[0] > o or iv[1] < o):
                    parts = [SNum.lift(x)._ineq(o, f) for x in t.syms[m[0]].arg]
                    # max < c: all elements; max > c: any element; min the other way round
                    every = (t.syms[m[0]].kind == 'max') == bool(f(0.0, 1.0))
                    return (core.land if every else core.lor)(*parts)
        r = self - o
        if _isnum(r):
            if isinstance(r, complex):
                raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
            return bool(f(r, 0.0))
        if r.is_complex:
            raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
        iv = r.interval()
        if iv is not None:
            a, b = f(iv[0], 0.0), f(iv[1], 0.0)
            if iv[0] > 0 or iv[1] < 0:
                return bool(a)
            if a and b and (iv[0] >= 0 or iv[1] <= 0):
                # weak inequality at the edge
                if f(0.0, 0.0):
                    return True
        return core.mkbool(f(zpoly(r.d), z3.RealVal(0)))

    def __lt__(self, o): return self._ineq(o, lambda a, b: a < b)
    def __le__(self, o): return self._ineq(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._ineq(o, lambda a, b: a > b)
    def __ge__(self, o): return self._ineq(o, lambda a, b: a >= b)
    def __hash__(self): return 7

    def __bool__(self):
        return bool(self.__ne__(0))

    def logical_not(self):
        return self == 0

    # -- concretisation (engine limitation; recorded)
    def _conc(self):
        if len(self.d) == 0:
            return 0.0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        if core.cur().print_floats:   # set by harnesses whose only conversions to float are log messages
            return 0.0
        raise core.Unsupported("concretisation of a symbolic real")

    def __float__(self):
        v = self._conc()
        return float(v.real if isinstance(v, complex) else v)

    def __complex__(self): return complex(self._conc())
    def __int__(self): return int(self._conc())

    def __round__(self, n=None):
        if n is None or n == 0:
            return _floor(self + 0.5)
        raise core.Unsupported("round(x,n)")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def item(self): return self
    def copy(self): return self

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    def __str__(self): return repr(self)
    def __format__(self, s): return repr(self)

    def __repr__(self):
        return "SNum(%d terms)" % len(self.d)

    # -- calculus / evaluation (oracles)
    def diff(self, v):
        """derivative with respect to input symbol v (an SNum that is a single symbol)"""
        (m, c), = v.d.items()
        assert len(m) == 1 and c == 1
        return _diffpoly(self, m[0])

    def evalf(self, env):
        """numeric value; env: symid -> float"""
        r = 0.0
        t = tab()
        for m, c in self.d.items():
            v = c
            for s in m:
                v = v * eval_sym(t, s, env)
            r = r + v
        return r


def _infmul(p, o):
    raise core.Unsupported("inf * symbolic")


def _reduce(t, m):
    """apply pair reductions to monomial m; returns poly dict"""
    red = t.reduce
    for i in range(len(m)):
        for j in range(i + 1, len(m)):
            k = (m[i], m[j])
            if k in red:
                rest = m[:i] + m[i + 1:j] + m[j + 1:]
                out = {}
                for mm, cc in red[k].items():
                    full = tuple(sorted(rest + mm))
                    for m3, c3 in _reduce(t, full).items():
                        out[m3] = out.get(m3, 0.0) + cc * c3
                return out
    return {m: 1.0}


def _ratio(a, b):
    """a/b if a = const*b (structurally)"""
    if len(a.d) != len(b.d) or not b.d:
        return None
    r = None
    for m, c in b.d.items():
        if m not in a.d:
            return None
        x = a.d[m] / c
        if r is None:
            r = x
        elif abs(x - r) > 1e-14 * max(1, abs(r)):
            return None
    if bool(b == 0):
        raise ZeroDivisionError("float division by zero")
    return _clean(r)


def _floor(x):
    if _isnum(x):
        return math.floor(x)
    eng = core.cur()
    e = z3.ToInt(zpoly(x.d))
    iv = x.interval()
    lo = hi = None
    if iv is not None:
        lo, hi = math.floor(iv[0]), math.floor(iv[1])
    return core.SInt(e, lo, hi)


def _diffpoly(p, sid):
    t = tab()
    out = 0.0
    for m, c in p.d.items():
        for i, s in enumerate(m):
            ds = _diffsym(t, s, sid)
            if _isnum(ds) and ds == 0:
                continue
            rest = SNum({m[:i] + m[i + 1:]: c})
            out = rest * ds + out
    return out


def _diffsym(t, s, sid):
    if s == sid:
        return 1.0
    sy = t.syms[s]
    k = sy.kind
    if k in ('var', 'int'):
        return 0.0
    if k in ('max', 'min'):
        raise core.Unsupported("derivative of atom %s" % k)
    da = _diffpoly(SNum.lift(sy.arg), sid) if k != 'ite' else None
    me = SNum({(s,): 1.0})
    if k == 'inv':
        return -(me * me) * da
    if k == 'sqrt':
        return da * (0.5) * me.inv() if not (_isnum(da) and da == 0) else 0.0
    if k == 'log':
        return SNum.lift(sy.arg).inv() * da
    if k == 'exp':
        return me * da
    if k == 'cos':
        return -(sy.arg.sin()) * da
    if k == 'sin':
        return sy.arg.cos() * da
    if k == 'ite':
        d1, d2 = _diffpoly(sy.arg, sid), _diffpoly(sy.arg2, sid)
        return core.ite(core.SBool(sy.cond), d1, d2)
    if k == 'abs':
        return sy.arg.sign() * da
    raise core.Unsupported("derivative of atom %s" % k)


def eval_sym(t, s, env):
    if s in env:
        return env[s]
    sy = t.syms[s]
    k = sy.kind
    if k == 'var':
        v = 0.0
        if sy.lo is not None and sy.lo > 0:
            v = sy.lo
    elif k == 'ite':
        raise core.Unsupported("evalf ite")
    elif k == 'int':
        raise core.Unsupported("evalf int")
    elif k in ('max', 'min'):
        v = (max if k == 'max' else min)(x.evalf(env) for x in sy.arg)
    else:
        a = SNum.lift(sy.arg).evalf(env)
        if k == 'inv': v = 1.0 / a
        elif k == 'sqrt': v = math.sqrt(max(a, 0.0))
        elif k == 'log': v = math.log(a)
        elif k == 'exp': v = math.exp(a)
        elif k == 'cos': v = math.cos(a)
        elif k == 'sin': v = math.sin(a)
        elif k == 'abs': v = abs(a)
        else: raise core.Unsupported("evalf %s" % k)
    env[s] = v
    return v
