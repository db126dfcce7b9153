"""Strings whose characters are symbolic code points (SBV) or ordinary characters."""
from . import core
from .core import SBV, land, lor, ite


def _c(ch):
    return ord(ch) if isinstance(ch, str) else ch


def text(chars):
    """str if every character is concrete, SStr otherwise"""
    chars = list(chars)
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SStr(chars)


class SStr(object):
    def __init__(self, chars):
        self.ch = tuple(chars)

    def __len__(self):
        return len(self.ch)

    def __iter__(self):
        return iter([text([c]) for c in self.ch])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return text(self.ch[i])
        return text([self.ch[i]])

    def __add__(self, o):
        return text(self.ch + tuple(chars(o)))

    def __radd__(self, o):
        return text(tuple(chars(o)) + self.ch)

    def __eq__(self, o):
        if not isinstance(o, (str, SStr)) or len(o) != len(self):
            return False
        r = [_c(a) == _c(b) for a, b in zip(self.ch, chars(o))]
        return land(*r) if r else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else core.lnot(r)

    def _one(self, o):
        if len(self) != 1 or len(o) != 1:
            raise core.Unsupported("ordering of symbolic strings")
        return _c(self.ch[0]), _c(chars(o)[0])

    def __lt__(self, o):
        a, b = self._one(o)
        return a < b

    def __le__(self, o):
        a, b = self._one(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._one(o)
        return a > b

    def __ge__(self, o):
        a, b = self._one(o)
        return a >= b

    def _at(self, i, sub):
        return land(*[_c(a) == _c(b) for a, b in zip(self.ch[i:i + len(sub)], chars(sub))])

    def find(self, sub, start=0, end=None):
        for i in range(start, (len(self) if end is None else end) - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, sub, start=0):
        if isinstance(sub, tuple):
            return any(self.startswith(s, start) for s in sub)
        return len(self) - start >= len(sub) and bool(self._at(start, sub))

    def endswith(self, sub):
        return len(self) >= len(sub) and bool(self._at(len(self) - len(sub), sub))

    def split(self, sep, maxsplit=-1):
        out, i, last = [], 0, 0
        while i <= len(self) - len(sep):
            if maxsplit != 0 and self._at(i, sep):
                out.append(text(self.ch[last:i]))
                i += len(sep)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(text(self.ch[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return text(self.ch[:i]), sep, text(self.ch[i + len(sep):])

    def replace(self, a, b):
        out = []
        for i, p in enumerate(self.split(a)):
            out += (list(b) if i else []) + list(chars(p))
        return text(out)

    def _in(self, c, cs):
        return lor(*[_c(c) == ord(x) for x in cs])

    def lstrip(self, cs=' \t\n\r'):
        i = 0
        while i < len(self) and self._in(self.ch[i], cs):
            i += 1
        return text(self.ch[i:])

    def rstrip(self, cs=' \t\n\r'):
        i = len(self)
        while i > 0 and self._in(self.ch[i - 1], cs):
            i -= 1
        return text(self.ch[:i])

    def strip(self, cs=' \t\n\r'):
        r = self.rstrip(cs)
        return r.lstrip(cs) if isinstance(r, (str, SStr)) else r

    def _all(self, *ranges):
        return len(self) > 0 and land(*[lor(*[land(_c(c) >= ord(a), _c(c) <= ord(b)) for a, b in ranges]) for c in self.ch])

    def isdigit(self):
        return self._all(('0', '9'))

    isnumeric = isdecimal = isdigit

    def islower(self):
        raise core.Unsupported("islower")

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            out += (list(self.ch) if i else []) + list(chars(x))
        return text(out)

    def __hash__(self):
        return hash(self.conc())

    def conc(self):
        return ''.join(chr(int(_c(c))) for c in self.ch)

    def __str__(self):  # only error messages print symbolic text
        return '<text>'

    def __repr__(self):
        return 'SStr(%d)' % len(self)

    def __format__(self, s):
        return format('<text>', s)

    def __symint__(self):
        s = self.strip()
        if isinstance(s, str):
            return int(s)
        cs, neg = list(s.ch), False
        if cs and self._in(cs[0], '+-'):
            neg = bool(_c(cs[0]) == ord('-'))
            cs = cs[1:]
        v, prev = 0, False
        for i, c in enumerate(cs):
            if land(_c(c) >= 48, _c(c) <= 57):
                v = v * 10 + (_c(c) - 48)
                prev = True
            elif prev and i + 1 < len(cs) and _c(c) == ord('_'):
                prev = False
            else:
                raise ValueError("invalid literal for int()")
        if not cs or not prev:
            raise ValueError("invalid literal for int()")
        return -v if neg else v

    def __symfloat__(self):
        s = self.strip()
        if isinstance(s, str):
            return float(s)
        v, digits, frac = 0, 0, None
        for i, c in enumerate(s.ch):
            if land(_c(c) >= 48, _c(c) <= 57):
                v = v * 10 + (_c(c) - 48)
                digits += 1
                if frac is not None:
                    frac += 1
            elif frac is None and _c(c) == ord('.'):
                frac = 0
            elif self._in(c, '_eE+-nNiI'):
                raise core.Unsupported("float syntax")
            else:
                raise ValueError("could not convert string to float")
        if digits == 0:
            raise ValueError("could not convert string to float")
        return Dec(v, frac or 0)


class Dec(object):
    """a decimal number v / 10**f with symbolic v"""

    def __init__(self, v, f):
        self.v, self.f = v, f

    def _pair(self, o):
        if isinstance(o, Dec):
            f = max(self.f, o.f)
            return self.v * 10 ** (f - self.f), o.v * 10 ** (f - o.f)
        x = float(o) * 10 ** self.f
        if abs(x - round(x)) > 1e-6:
            raise core.Unsupported("decimal comparison")
        return self.v, int(round(x))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        a, b = self._pair(o)
        return a == b

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else core.lnot(r)

    def __lt__(self, o):
        a, b = self._pair(o)
        return a < b

    def __le__(self, o):
        a, b = self._pair(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._pair(o)
        return a > b

    def __ge__(self, o):
        a, b = self._pair(o)
        return a >= b

    def __hash__(self):
        return 11

    def __repr__(self):
        return 'Dec'


def chars(s):
    return s.ch if isinstance(s, SStr) else tuple(s)
