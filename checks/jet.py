"""values with first and second derivatives (forward mode), over floats or symbolic reals: the reference for analytic derivatives"""


class Jet:
    __slots__ = ('v', 'g', 'h')

    def __init__(self, v, g=None, h=None):
        self.v, self.g, self.h = v, g or {}, h or {}

    def _bin(self, o, s):
        if not isinstance(o, Jet): return Jet(self.v + o * s, self.g, self.h)
        g, h = dict(self.g), dict(self.h)
        for k, x in o.g.items(): g[k] = g[k] + x * s if k in g else x * s
        for k, x in o.h.items(): h[k] = h[k] + x * s if k in h else x * s
        return Jet(self.v + o.v * s, g, h)

    def __add__(self, o): return self._bin(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, -1)
    def __neg__(self): return self * (-1)
    def __rsub__(self, o): return -self + o

    def __mul__(self, o):
        if not isinstance(o, Jet):
            if type(o) in (int, float) and o == 0: return 0.
            return Jet(self.v * o, {k: x * o for k, x in self.g.items()}, {k: x * o for k, x in self.h.items()})
        g, h = {}, {}
        for k, x in self.g.items(): g[k] = x * o.v
        for k, x in o.g.items(): g[k] = g[k] + self.v * x if k in g else self.v * x
        for k, x in self.h.items(): h[k] = x * o.v
        for k, x in o.h.items(): h[k] = h[k] + self.v * x if k in h else self.v * x
        for a, x in self.g.items():
            for b, y in o.g.items():
                k = (a, b) if a <= b else (b, a)
                z = x * y * (2 if a == b else 1)
                h[k] = h[k] + z if k in h else z
        return Jet(self.v * o.v, g, h)
    __rmul__ = __mul__

    def compose(self, f, d1, d2):
        """the jet of a function with the given value and derivatives at this point"""
        g = {k: d1 * x for k, x in self.g.items()}
        h = {k: d1 * x for k, x in self.h.items()}
        ks = sorted(self.g)
        for i, a in enumerate(ks):
            for b in ks[i:]:
                z = d2 * self.g[a] * self.g[b]
                h[(a, b)] = h[(a, b)] + z if (a, b) in h else z
        return Jet(f, g, h)

    def inverse(self):
        i = 1 / self.v
        return self.compose(i, -i * i, 2 * i * i * i)


def jets(vals, start=0): return [Jet(x, {start + i: 1.}) for i, x in enumerate(vals)]
def val(x): return x.v if isinstance(x, Jet) else x
def d1(x, i): return x.g.get(i, 0.) if isinstance(x, Jet) else 0.


def d2(x, i, j):
    # for i == j the stored coefficient is the second derivative itself
    return x.h.get((i, j) if i <= j else (j, i), 0.) if isinstance(x, Jet) else 0.
