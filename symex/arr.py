"""Arrays of proxies (SymArray: object ndarray with a declared kind) and the numpy shim."""
import math
import numpy as np
import z3
from . import core
from .core import SBool, SBV, SInt, SNum, SFD, ite, land, lor, lnot, Unsupported

PROXY = (SBool, SBV, SInt, SNum, SFD)
KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}
KDT = {'b': np.dtype(bool), 'i': np.dtype(np.int64), 'f': np.dtype(float), 'c': np.dtype(complex), 'O': np.dtype(object)}


def is_proxy(x):
    return type(x) in PROXY


def kind_of_dtype(dt):
    if dt is None:
        return None
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return 'O'
    return {'u': 'i', 'i': 'i', 'f': 'f', 'c': 'c', 'b': 'b'}.get(k, 'O')


def kind_of_val(x):
    t = type(x)
    if t is SBool or t is bool or t is np.bool_:
        return 'b'
    if t in (SBV, SInt, int) or isinstance(x, np.integer):
        return 'i'
    if t is SNum:
        return 'c' if x.is_complex else 'f'
    if t is float or isinstance(x, np.floating):
        return 'f'
    if t is complex or isinstance(x, np.complexfloating):
        return 'c'
    return 'O'


def cast(x, k):
    """element conversion when storing into an array of kind k"""
    kx = kind_of_val(x)
    if kx == k or k == 'O' or k is None:
        return x
    if kx == 'O':
        if type(x) is SFD:
            return cast(x.conc(), k)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cast(x.reshape(-1)[0] if not x.dtype == object else x.flat[0], k)
        if x is None:
            return math.nan if k in 'fc' else x
        if isinstance(x, str):
            return {'i': int, 'f': float, 'c': complex, 'b': bool}[k](x)
        if hasattr(x, '__float__') and k in 'fc':
            return float(x)
        raise TypeError("cannot cast %r" % (type(x),))
    if k == 'b':
        return x != 0
    if k == 'i':
        if kx == 'b':
            return ite(x, 1, 0) if type(x) is SBool else int(x)
        if type(x) is SNum:
            if x.is_complex:
                x = SNum.lift(x.real)
            from .num import _floor
            f = _floor(x)
            c = -_floor(-x)
            return ite(x >= 0, f, c)
        return int(x.real)
    if k == 'f':
        if kx == 'c':
            return x.real
        if kx == 'b' and type(x) is SBool:
            return SNum.lift(x)
        if is_proxy(x):
            return x          # integer-valued proxies stay integers inside float arrays
        return float(x)
    if k == 'c':
        if is_proxy(x):
            return x
        return complex(x)
    return x


_PLAIN = (int, float, complex, bool, str, list, tuple)


class _Flags(object):
    """flags of a symbolic array: ownership is that of the array it stands for (every SymArray is a view of an object array)"""

    def __init__(self, a):
        self.__dict__['_f'] = np.ndarray.flags.__get__(a)
        self.__dict__['_own'] = a._own

    def __getitem__(self, k):
        return self._own if k in ('OWNDATA', 'O') else self._f[k]

    def __setitem__(self, k, v):
        self._f[k] = v

    def __getattr__(self, k):
        return self.__dict__['_own'] if k == 'owndata' else getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)


class SymArray(np.ndarray):
    _kind = None
    _own = False

    @property
    def flags(self):
        return _Flags(self)

    @property
    def base(self):
        # the array owning the memory (numpy skips intermediate views of the same type; here the innermost owner is a plain object array)
        b = np.ndarray.base.__get__(self)
        while isinstance(b, np.ndarray):
            c = np.ndarray.base.__get__(b)
            if c is None: break
            b = c
        return b

    def __new__(cls, data, kind=None):
        if isinstance(data, np.ndarray) and data.dtype == object:
            base = np.ndarray.copy(data)
        elif isinstance(data, np.ndarray):
            base = data.astype(object)
            if kind is None:
                kind = kind_of_dtype(data.dtype)
        else:
            base = obj_array(data)
        r = base.view(cls)
        r._own = True
        if kind is None:
            kind = infer_kind(r)
        r._kind = kind
        f = r.reshape(-1)
        v = f.view(np.ndarray)
        for i in range(v.size):
            v[i] = cast(v[i], kind)
        if v.size and not np.shares_memory(v, r.view(np.ndarray)):
            r.view(np.ndarray)[...] = v.reshape(r.shape)
        return r

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._kind = getattr(obj, '_kind', None) if isinstance(obj, SymArray) else None

    @property
    def dtype(self):
        return KDT[self.kind]

    @property
    def kind(self):
        if self._kind is None:
            self._kind = infer_kind(self)
        return self._kind

    def raw(self):
        return self.view(np.ndarray)

    def __getitem__(self, k):
        k = fix_index(k)
        r = self.raw()[k]
        if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype == object:
            own = r.base is None
            r = r.view(SymArray)
            r._kind = self._kind
            r._own = own
        elif type(r) is complex:
            r = np.complex128(r)  # ordered lexicographically, as in numpy
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        kd = self.kind
        raw = self.raw()
        if isinstance(v, (list, tuple)):
            v = SymArray(obj_array(v))
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raw[k] = cast(v.item() if v.dtype != object else v[()], kd)
                return
            vv = np.empty(v.shape, dtype=object)
            flat = vv.reshape(-1)
            src = v.reshape(-1)
            src = src.view(np.ndarray) if isinstance(src, SymArray) else src
            for i in range(flat.size):
                x = src[i]
                if isinstance(x, np.generic):
                    x = x.item()
                flat[i] = cast(x, kd)
            tgt = raw[k]
            if not isinstance(tgt, np.ndarray):
                raw[k] = flat[0]
            else:
                raw[k] = vv
            return
        raw[k] = cast(v, kd)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, dt, *a, **kw):
        return SymArray(self.raw(), kind_of_dtype(dt))

    def copy(self, order='C'):
        r = self.raw().copy(order).view(SymArray)
        r._kind = self._kind
        r._own = True
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else np.unravel_index(a[0], self.shape)] if not isinstance(a[0], tuple) else self[a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.raw().reshape(-1)[0]

    def tolist(self):
        return self.raw().tolist()

    def flatten(self, order='C'):
        return wrap(self.raw().flatten(order), self._kind)

    def ravel(self, order='C'):
        return wrap(self.raw().ravel(order), self._kind)

    @property
    def flat(self):
        return self.raw().flat if False else _Flat(self)

    @property
    def real(self):
        return _map(self, lambda x: x.real if kind_of_val(x) == 'c' else x, 'f' if self.kind in 'fc' else self.kind)

    @real.setter
    def real(self, v):
        self[...] = v + self.imag * 1j

    @property
    def imag(self):
        return _map(self, lambda x: x.imag if kind_of_val(x) == 'c' else 0.0, 'f' if self.kind in 'fc' else self.kind)

    def conj(self): return _map(self, lambda x: x.conjugate(), self._kind)
    def conjugate(self): return _map(self, lambda x: x.conjugate(), self._kind)
    def dot(self, o): return f_dot(self, o)
    def sum(self, *a, **k): return f_sum(self, *a, **k)
    def prod(self, *a, **k): return f_prod(self, *a, **k)
    def any(self, *a, **k): return f_any(self, *a, **k)
    def all(self, *a, **k): return f_all(self, *a, **k)
    def max(self, *a, **k): return f_max(self, *a, **k)
    def min(self, *a, **k): return f_min(self, *a, **k)
    def mean(self, axis=None, **k): return f_mean(self, axis)
    def trace(self, *a, **k): return f_trace(self)
    def argmax(self, *a, **k): return f_argmax(self, *a, **k)
    def argmin(self, *a, **k): return f_argmin(self, *a, **k)
    def nonzero(self): return f_nonzero(self)
    def round(self, decimals=0, out=None): return f_round(self, decimals)
    def clip(self, lo=None, hi=None, out=None, min=None, max=None): return f_clip(self, min if lo is None else lo, max if hi is None else hi, out)
    def cumsum(self, axis=None, **k): return wrap(np.cumsum(self.raw(), axis=axis), self._kind)
    def argsort(self, *a, **k): return f_argsort(self, *a, **k)
    def searchsorted(self, v, side='left'): return f_searchsorted(self, v, side)

    def sort(self, axis=-1, **k):
        self.raw()[...] = f_sort(self, axis).raw()

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __complex__(self): return complex(self.item())
    def __index__(self): return self.item().__index__()

    def __contains__(self, x):
        return bool(f_any(self == x))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        if any(type(i) not in _PLAIN and not isinstance(i, np.ndarray) and hasattr(i, '__array__') and not isinstance(i, np.generic) for i in inputs):
            inputs = tuple(_unwrap(i) for i in inputs)
            inputs = tuple(np.asarray(i) if type(i) not in _PLAIN and not isinstance(i, (np.ndarray, np.generic)) and not is_proxy(i) and hasattr(i, '__array__') else i for i in inputs)
        kw.pop('casting', None)
        kw.pop('order', None)
        kw.pop('subok', None)
        where = kw.pop('where', True)
        if where is not True:
            raise Unsupported("ufunc where=")
        dt = kw.pop('dtype', None)
        if method == 'reduce':
            f = {'add': f_sum, 'multiply': f_prod, 'logical_or': f_any, 'logical_and': f_all,
                 'maximum': f_max, 'minimum': f_min}.get(ufunc.__name__)
            if f is not None:
                r = f(inputs[0], axis=kw.get('axis', 0), keepdims=kw.get('keepdims', False))
            else:
                r = wrap(getattr(ufunc, method)(*[_raw(i) for i in inputs], **kw))
        elif method == '__call__':
            r = ufunc_call(ufunc, inputs, kw)
        elif method in ('outer', 'accumulate'):
            r = wrap(getattr(ufunc, method)(*[_rawobj(i) for i in inputs], **kw))
        elif method == 'at':
            tgt, idx, val = (list(inputs) + [None])[:3]
            raise Unsupported("ufunc.at")
        else:
            raise Unsupported("ufunc method " + method)
        if dt is not None and isinstance(r, np.ndarray):
            r = SymArray(r, kind_of_dtype(dt))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                o[...] = r
            else:
                if isinstance(r, SymArray):
                    if any(is_proxy(x) for x in r.raw().reshape(-1)):
                        if o.dtype != object:
                            raise Unsupported("in-place symbolic result into plain array")
                    o[...] = r.raw()
                else:
                    o[...] = r
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__ if getattr(func, '__module__', 'numpy') != 'numpy.linalg' else 'linalg.' + func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        # generic structural functions: run on raw object arrays
        kinds = []
        a2 = _deep_raw(args, kinds)
        k2 = _deep_raw(kwargs, kinds)
        kd = max(kinds, key=lambda k: KORD[k]) if kinds else None
        if func.__name__ in STRUCTURAL:
            r = func(*a2, **k2)
            return _deep_wrap(r, kd)
        # all concrete -> native
        c, ok = _deep_native(args)
        c2, ok2 = _deep_native(kwargs)
        if ok and ok2:
            return func(*c, **c2)
        raise Unsupported("numpy function %s on symbolic arrays" % func.__name__)

    def __reduce__(self):
        return (_rebuild, (self.raw(), self._kind))

    def __repr__(self):
        return "SymArray(kind=%s, shape=%s)" % (self._kind, self.shape)

    def __str__(self):
        return repr(self)

    # operators where ndarray's C code would look at self
    def __matmul__(self, o): return f_dot(self, o)
    def __rmatmul__(self, o): return f_dot(o, self)

    def __eq__(self, o): return _binop(self, o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return _binop(self, o, lambda a, b: a != b, 'b')
    __hash__ = None


class _Flat(object):
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        return iter(self.a.raw().flat)

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        r = self.a.raw().flat[fix_index(k)]
        return wrap(r, self.a._kind) if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            v = [cast(x, self.a.kind) for x in v.reshape(-1).tolist()]
            tmp = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                tmp[i] = x
            v = tmp
        else:
            v = cast(v, self.a.kind)
        self.a.raw().flat[fix_index(k)] = v


def _rebuild(raw, kind):
    r = np.asarray(raw, dtype=object).view(SymArray)
    r._kind = kind
    return r


STRUCTURAL = set("""reshape transpose swapaxes moveaxis rollaxis concatenate vstack hstack stack dstack
column_stack tile repeat squeeze expand_dims ravel diag diagonal flipud fliplr flip roll rot90 split array_split
vsplit hsplit delete insert append broadcast_to atleast_1d atleast_2d tril triu copy take block kron outer
cumsum cumprod diff shape ndim size tensordot inner meshgrid resize broadcast_arrays append fill_diagonal
may_share_memory shares_memory take_along_axis trim_zeros cross ix_""".split())


def infer_kind(a):
    k = 'b'
    n = 0
    for x in (a.raw() if isinstance(a, SymArray) else a).reshape(-1):
        n += 1
        kk = kind_of_val(x)
        if KORD[kk] > KORD[k]:
            k = kk
    return k if n else 'f'


def obj_array(data):
    """nested sequences -> object ndarray"""
    if isinstance(data, SymArray):
        return data.raw().copy()
    if isinstance(data, np.ndarray):
        return data.astype(object) if data.dtype != object else data.copy()
    if is_proxy(data) or not isinstance(data, (list, tuple, range)) and not hasattr(data, '__len__'):
        r = np.empty((), dtype=object)
        r[()] = data
        return r
    if isinstance(data, (list, tuple, range)):
        items = list(data)
        if not items:
            return np.empty((0,), dtype=object)
        subs = [obj_array(x) for x in items]
        sh = subs[0].shape
        if any(s.shape != sh for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = np.empty((len(items),) + sh, dtype=object)
        for i, s in enumerate(subs):
            r[i] = s if sh else s[()]
        return r
    return np.array(data, dtype=object)


def wrap(r, kind=None):
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r[()]
        if r.dtype == object:
            own = r.base is None
            r = r.view(SymArray)
            r._kind = kind
            r._own = own
        return r
    return r


def _raw(x):
    return x.raw() if isinstance(x, SymArray) else x


def _rawobj(x):
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, np.ndarray):
        return x.astype(object)
    return x


def _deep_raw(x, kinds):
    if isinstance(x, SymArray):
        kinds.append(x.kind)
        return x.raw()
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            kinds.append(kind_of_dtype(x.dtype))
        return x
    if isinstance(x, tuple):
        return tuple(_deep_raw(y, kinds) for y in x)
    if isinstance(x, list):
        return [_deep_raw(y, kinds) for y in x]
    if isinstance(x, dict):
        return {k: _deep_raw(v, kinds) for k, v in x.items()}
    return x


def _deep_wrap(r, kd):
    if isinstance(r, np.ndarray):
        return wrap(r, kd) if r.ndim else wrap(r, kd)
    if isinstance(r, list):
        return [_deep_wrap(x, kd) for x in r]
    if isinstance(r, tuple) and not hasattr(r, '_fields'):
        return tuple(_deep_wrap(x, kd) for x in r)
    return r


def _deep_native(x):
    if isinstance(x, SymArray):
        if any(is_proxy(y) for y in x.raw().reshape(-1)):
            return None, False
        return native(x), True
    if isinstance(x, (tuple, list)):
        ys = [_deep_native(y) for y in x]
        if not all(o for _, o in ys):
            return None, False
        return type(x)(y for y, _ in ys), True
    if isinstance(x, dict):
        ys = {k: _deep_native(v) for k, v in x.items()}
        if not all(o for _, o in ys.values()):
            return None, False
        return {k: v for k, (v, _) in ys.items()}, True
    if is_proxy(x):
        return None, False
    return x, True


def native(a):
    return np.array(a.raw().tolist(), dtype=KDT[a.kind]).reshape(a.shape)


def has_proxy(a):
    if is_proxy(a):
        return True
    if isinstance(a, SymArray) or isinstance(a, np.ndarray) and a.dtype == object:
        return any(is_proxy(x) for x in np.ndarray.reshape(a.view(np.ndarray), -1))
    if isinstance(a, (list, tuple)):
        return any(has_proxy(x) for x in a)
    return False


_RAWTYPES = None


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k)
    if type(k) in (SBV, SInt, SFD):
        return k.__index__()
    if isinstance(k, slice):
        return slice(*[(x.__index__() if is_proxy(x) else x) for x in (k.start, k.stop, k.step)])
    if isinstance(k, SymArray):
        if k.kind == 'b':
            return np.array([bool(x) for x in k.raw().reshape(-1)], dtype=bool).reshape(k.shape)
        return np.array([int(x) for x in k.raw().reshape(-1)], dtype=np.int64).reshape(k.shape)
    if isinstance(k, list) and any(is_proxy(x) for x in k):
        if all(type(x) is SBool or isinstance(x, bool) for x in k):
            return [bool(x) for x in k]
        return [int(x) for x in k]
    if type(k) is SBool:
        return bool(k)
    return k


def _map(a, f, kind=None):
    if not isinstance(a, np.ndarray):
        return f(a)
    raw = a.raw() if isinstance(a, SymArray) else a
    out = np.empty(a.shape, dtype=object)
    fl, of = raw.reshape(-1), out.reshape(-1)
    for i in range(fl.size):
        of[i] = f(fl[i])
    r = of.reshape(a.shape).view(SymArray)
    r._own = True
    r._kind = kind
    return r


def _binop(a, b, f, kind=None):
    if isinstance(b, (list, tuple)):
        b = SymArray(obj_array(b))
    if isinstance(a, (list, tuple)):
        a = SymArray(obj_array(a))
    if b is None or isinstance(b, str):
        return _map(a, lambda x: f(x, b), kind)
    ra, rb = _rawobj(a), _rawobj(b)
    if isinstance(ra, np.ndarray) and isinstance(rb, np.ndarray):
        bc = np.broadcast(ra, rb)
        out = np.empty(bc.shape, dtype=object)
        of = out.reshape(-1)
        for i, (x, y) in enumerate(bc):
            of[i] = f(x, y)
        if bc.shape == ():
            return of[0]
        r = of.reshape(bc.shape).view(SymArray)
        r._own = True
        r._kind = kind
        return r
    if isinstance(ra, np.ndarray):
        if ra.ndim == 0:
            return f(ra[()], rb)
        return _map(ra.view(SymArray), lambda x: f(x, rb), kind)
    if isinstance(rb, np.ndarray):
        if rb.ndim == 0:
            return f(ra, rb[()])
        return _map(rb.view(SymArray), lambda x: f(ra, x), kind)
    return f(ra, rb)


def smin(a, b):
    if not is_proxy(a) and not is_proxy(b):
        return min(a, b) if type(a) is not complex and type(b) is not complex else min(np.complex128(a), np.complex128(b)).item()
    c = a <= b
    return ite(c, a, b)


def smax(a, b):
    if not is_proxy(a) and not is_proxy(b):
        return max(a, b) if type(a) is not complex and type(b) is not complex else max(np.complex128(a), np.complex128(b)).item()
    c = a >= b
    return ite(c, a, b)


def _meth(name, pyf):
    def f(x):
        if is_proxy(x):
            if type(x) is SFD:
                x = x.conc()
            elif type(x) in (SBV, SInt, SBool):
                x = SNum.lift(x)
            return getattr(x, name)()
        return pyf(x)
    return f


def _c(x):
    return x


UN = {
    'sqrt': _meth('sqrt', lambda x: complex(np.sqrt(x)) if isinstance(x, complex) else float(np.sqrt(float(x)))),
    'exp': _meth('exp', lambda x: np.exp(x)),
    'log': _meth('log', lambda x: np.log(x)),
    'log2': _meth('log2', lambda x: np.log2(x)),
    'log10': _meth('log10', lambda x: np.log10(x)),
    'cos': _meth('cos', lambda x: np.cos(x)),
    'sin': _meth('sin', lambda x: np.sin(x)),
    'floor': _meth('floor', lambda x: np.floor(x)),
    'ceil': _meth('ceil', lambda x: np.ceil(x)),
    'rint': _meth('rint', lambda x: np.rint(x)),
    'square': lambda x: x * x,
    'negative': lambda x: -x,
    'positive': lambda x: x,
    'absolute': lambda x: abs(x),
    'fabs': lambda x: abs(x),
    'conjugate': lambda x: x.conjugate(),
    'reciprocal': lambda x: 1.0 / x,
    'sign': lambda x: (x.sign() if type(x) is SNum else np.sign(x) if not is_proxy(x) else ite(x > 0, 1, ite(x < 0, -1, 0))),
    'logical_not': lambda x: lnot(x) if type(x) is SBool else (x == 0 if is_proxy(x) else not x),
    'invert': lambda x: ~x if is_proxy(x) else ((not x) if isinstance(x, (bool, np.bool_)) else ~x),
    'isnan': lambda x: False if is_proxy(x) else bool(np.isnan(x)),
    'isinf': lambda x: False if is_proxy(x) else bool(np.isinf(x)),
    'isfinite': lambda x: True if is_proxy(x) else bool(np.isfinite(x)),
    'trunc': lambda x: cast(x, 'i'),
}


def _div(a, b):
    if not is_proxy(b) and b == 0:
        if is_proxy(a):
            if bool(a == 0):
                return math.nan
            return math.inf if bool(a > 0) else -math.inf
        with np.errstate(all='ignore'):
            return np.divide(a, b).item() if hasattr(np.divide(a, b), 'item') else np.divide(a, b)
    if is_proxy(b) and type(b) is SNum and not b.is_complex:
        iv = b.interval()
        if iv is None or iv[0] <= 0 <= iv[1]:
            if bool(b == 0):      # numpy: no exception, inf/nan
                return _div(a, 0.0)
    elif type(b) in (SBV, SInt):
        if bool(b == 0):
            return _div(a, 0.0)
    if not is_proxy(a) and not is_proxy(b):
        return a / b
    return a / b


BIN = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': _div, 'true_divide': _div, 'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b, 'mod': lambda a, b: a % b, 'power': lambda a, b: a ** b,
    'float_power': lambda a, b: a ** b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'maximum': smax, 'minimum': smin, 'fmax': smax, 'fmin': smin,
    'logical_and': lambda a, b: land(_tb(a), _tb(b)), 'logical_or': lambda a, b: lor(_tb(a), _tb(b)),
    'logical_xor': lambda a, b: _tb(a) != _tb(b),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'arctan2': lambda a, b: np.arctan2(a, b),
}
CMP = set("equal not_equal less less_equal greater greater_equal logical_and logical_or logical_not logical_xor isnan isinf isfinite".split())


def _tb(x):
    if type(x) is SBool:
        return x
    if is_proxy(x):
        return x != 0
    return bool(x)


def _pyval(x):
    return x.item() if isinstance(x, np.generic) else x


def res_kind(name, inputs):
    if name in CMP:
        return 'b'
    ks = []
    for i in inputs:
        if isinstance(i, SymArray):
            ks.append(i.kind)
        elif isinstance(i, np.ndarray):
            ks.append(kind_of_dtype(i.dtype))
        else:
            ks.append(kind_of_val(i))
    k = max(ks, key=lambda x: KORD[x])
    if name in ('divide', 'true_divide', 'sqrt', 'exp', 'log', 'cos', 'sin') and k in 'bi':
        k = 'f'
    if name in ('absolute',) and k == 'c':
        k = 'f'
    if k == 'b' and name in ('add', 'multiply'):
        k = 'b'
    elif k == 'b' and name not in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'maximum', 'minimum'):
        k = 'i'
    return k


def ufunc_call(ufunc, inputs, kw):
    nm = ufunc.__name__
    if nm == 'matmul':
        return f_dot(*inputs)
    k = res_kind(nm, inputs)
    if k == 'b' and nm == 'add':
        f = lambda a, b: lor(_tb(a), _tb(b))
    elif k == 'b' and nm == 'multiply':
        f = lambda a, b: land(_tb(a), _tb(b))
    elif len(inputs) == 1 and nm in UN:
        f = UN[nm]
    elif len(inputs) == 2 and nm in BIN:
        f = BIN[nm]
    else:
        c, ok = _deep_native(list(inputs))
        if ok:
            return ufunc(*c, **kw)
        raise Unsupported("ufunc %s on symbolic arrays" % nm)
    if len(inputs) == 1:
        return _map(inputs[0], f, k)
    return _binop(_pyval(inputs[0]) if not isinstance(inputs[0], np.ndarray) else inputs[0],
                  _pyval(inputs[1]) if not isinstance(inputs[1], np.ndarray) else inputs[1], f, k)


def asobj(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return SymArray(x) if x.dtype != object else wrap(x)
    return SymArray(obj_array(x))


def f_dot(a, b, out=None):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)) or \
            not isinstance(b, np.ndarray) and not isinstance(b, (list, tuple)):
        return a * b
    a, b = asobj(a), asobj(b)
    k = max((a.kind, b.kind), key=lambda x: KORD[x])
    ra, rb = a.raw(), b.raw()
    if a.ndim == 1 and b.ndim == 1:
        if ra.shape != rb.shape:
            raise ValueError("shapes %s and %s not aligned" % (ra.shape, rb.shape))
        r = _sumprod(ra, rb)
    elif a.ndim == 2 and b.ndim == 2:
        if ra.shape[1] != rb.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (ra.shape, rb.shape))
        o = np.empty((ra.shape[0], rb.shape[1]), dtype=object)
        for i in range(ra.shape[0]):
            for j in range(rb.shape[1]):
                o[i, j] = _sumprod(ra[i], rb[:, j])
        r = wrap(o, k)
    elif a.ndim == 2 and b.ndim == 1:
        if ra.shape[1] != rb.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (ra.shape, rb.shape))
        o = np.empty((ra.shape[0],), dtype=object)
        for i in range(ra.shape[0]):
            o[i] = _sumprod(ra[i], rb)
        r = wrap(o, k)
    elif a.ndim == 1 and b.ndim == 2:
        if ra.shape[0] != rb.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (ra.shape, rb.shape))
        o = np.empty((rb.shape[1],), dtype=object)
        for j in range(rb.shape[1]):
            o[j] = _sumprod(ra, rb[:, j])
        r = wrap(o, k)
    else:
        r = np.dot(ra, rb)
        r = wrap(r, k)
    if out is not None:
        out[...] = r
        return out
    return r


def _iszero(x):
    return not is_proxy(x) and x == 0


def _sumprod(x, y):
    s = None
    for a, b in zip(x, y):
        if _iszero(a) or _iszero(b):
            continue
        p = a * b
        s = p if s is None else s + p
    if s is None:
        for a, b in zip(x, y):
            return 0 * (a if not is_proxy(a) else 1) * (b if not is_proxy(b) else 1)
        return 0
    return s


def _reduce_axis(a, axis, f, kind, keepdims=False, empty=None):
    a = asobj(a)
    if axis is None:
        r = f(list(a.raw().reshape(-1)))
        if keepdims:
            return wrap(np.full((1,) * a.ndim, r, dtype=object), kind)
        return r
    if isinstance(axis, tuple):
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            a = asobj(_reduce_axis(a, ax, f, kind))
        return a
    raw = np.moveaxis(a.raw(), axis, -1)
    out = np.empty(raw.shape[:-1], dtype=object)
    for idx in np.ndindex(*raw.shape[:-1]):
        out[idx] = f(list(raw[idx]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out, kind)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asobj(a)

    def f(xs):
        s = 0 if a.kind in 'bi' else 0.0
        for x in xs:
            if type(x) is SBool:
                x = x._bv()
            elif isinstance(x, bool):
                x = int(x)
            s = s + x
        return s
    return _reduce_axis(a, axis, f, 'i' if a.kind == 'b' else a.kind, keepdims)


def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    def f(xs):
        s = 1
        for x in xs:
            s = s * x
        return s
    a = asobj(a)
    return _reduce_axis(a, axis, f, a.kind, keepdims)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    return _reduce_axis(a, axis, lambda xs: lor(*[_tb(x) for x in xs]), 'b', keepdims)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    return _reduce_axis(a, axis, lambda xs: land(*[_tb(x) for x in xs]), 'b', keepdims)


def _fold(f):
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _ext(f, kind):
    g = _fold(f)

    def h(xs):
        if len(xs) > 2 and any(type(x) is SNum for x in xs) and not any(type(x) is complex or type(x) is SNum and x.is_complex for x in xs) \
           and all(type(x) in (SNum, float, int) or isinstance(x, (np.floating, np.integer)) and math.isfinite(x) for x in xs):
            from .num import extreme
            return extreme(xs, kind)
        return g(xs)
    return h


def f_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asobj(a)
    return _reduce_axis(a, axis, _ext(smax, 'max'), a.kind, keepdims)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asobj(a)
    return _reduce_axis(a, axis, _ext(smin, 'min'), a.kind, keepdims)


def f_mean(a, axis=None, **k):
    a = asobj(a)
    n = a.size if axis is None else a.shape[axis]
    return f_sum(a, axis) / float(n)


def f_var(a, axis=None, **k):
    a = asobj(a)
    d = a - (f_mean(a) if axis is None else np.expand_dims(f_mean(a, axis), axis))
    return f_mean(d * d, axis)


def f_std(a, axis=None, **k):
    return np.sqrt(f_var(a, axis))


def f_trace(a, *r, **k):
    a = asobj(a)
    s = 0
    for i in range(min(a.shape)):
        s = s + a.raw()[i, i]
    return s


def f_argmax(a, axis=None, out=None, **k):
    def f(xs):
        bi = 0
        for i in range(1, len(xs)):
            if bool(xs[i] > xs[bi]):
                bi = i
        return bi
    r = _reduce_axis(a, axis, f, 'i')
    return r


def f_argmin(a, axis=None, out=None, **k):
    def f(xs):
        bi = 0
        for i in range(1, len(xs)):
            if bool(xs[i] < xs[bi]):
                bi = i
        return bi
    return _reduce_axis(a, axis, f, 'i')


def f_nonzero(a):
    a = asobj(a)
    m = np.array([bool(_tb(x)) for x in a.raw().reshape(-1)], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


def f_count_nonzero(a, axis=None, **k):
    return f_sum(_map(asobj(a), _tb, 'b'), axis)


def f_where(c, x=None, y=None):
    if x is None:
        return f_nonzero(c)
    c = asobj(c) if isinstance(c, (np.ndarray, list)) else c
    if not isinstance(c, np.ndarray):
        c = asobj([c])
    if isinstance(x, (list, tuple)):
        x = asobj(x)
    if isinstance(y, (list, tuple)):
        y = asobj(y)
    k = max((res_kind('w', [x]), res_kind('w', [y])), key=lambda t: KORD[t])
    bx = [c.raw(), _rawobj(x), _rawobj(y)]
    bx = [b if isinstance(b, np.ndarray) else _scalar0(b) for b in bx]
    bc = np.broadcast(*bx)
    out = np.empty(bc.shape, dtype=object)
    of = out.reshape(-1)
    for i, (cc, xx, yy) in enumerate(bc):
        of[i] = ite(_tb(cc), cast(xx, k), cast(yy, k))
    return wrap(of.reshape(bc.shape), k)


def _scalar0(x):
    r = np.empty((), dtype=object)
    r[()] = _pyval(x)
    return r


def f_round(a, decimals=0, out=None):
    if decimals != 0:
        c, ok = _deep_native(a)
        if ok:
            return np.round(c, decimals)
        raise Unsupported("round with decimals")
    return _map(asobj(a), lambda x: x if kind_of_val(x) in 'bi' else (x.__round__() if is_proxy(x) else np.round(x)), None)


def f_clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = _binop(r, lo, smax) if isinstance(r, np.ndarray) else smax(r, lo)
    if hi is not None:
        r = _binop(r, hi, smin) if isinstance(r, np.ndarray) else smin(r, hi)
    if isinstance(r, SymArray) and isinstance(a, SymArray):
        r._kind = a.kind
    if out is not None:
        out[...] = r
        return out
    return r


def f_argsort(a, axis=-1, **k):
    a = asobj(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    import functools
    xs = list(a.raw())

    def cmp(i, j):
        if bool(xs[i] < xs[j]):
            return -1
        if bool(xs[j] < xs[i]):
            return 1
        return -1 if i < j else 1
    return np.array(sorted(range(len(xs)), key=functools.cmp_to_key(cmp)), dtype=np.int64)


def f_sort(a, axis=-1, **k):
    a = asobj(a)
    return a[f_argsort(a)]


def f_searchsorted(a, v, side='left', sorter=None):
    a = asobj(a)

    def one(x):
        n = 0
        for y in a.raw():
            n = n + ite((y < x) if side == 'left' else (y <= x), 1, 0)
        return n
    if isinstance(v, (np.ndarray, list, tuple)):
        return _map(asobj(v), one, 'i')
    return one(v)


def absdiff_le(a, b, tol):
    """|a-b| <= tol, complex aware, symbolic"""
    d = a - b
    if not is_proxy(d):
        return bool(abs(d) <= tol)
    if type(d) is SNum and d.is_complex:
        re, im = d.real, d.imag
        return land(re <= tol, re >= -tol, im <= tol, im >= -tol)
    return land(d <= tol, d >= -tol)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        t = atol + rtol * (abs(y) if not is_proxy(y) else abs(y))
        return absdiff_le(x, y, t)
    return _binop(a, b, f, 'b')


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return f_all(r) if isinstance(r, np.ndarray) else r


def f_array_equal(a, b, equal_nan=False):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = asobj(x)
    if not has_proxy(x):
        return np.linalg.norm(native(x), ord, axis, keepdims)

    def sq(v):
        return SNum.lift(v * v.conjugate()).real if kind_of_val(v) == 'c' else v * v

    def least(v):
        if not is_proxy(v) or not isinstance(v, SNum) or v.is_complex: return abs(v) if not is_proxy(v) else 0.0
        iv = v.interval()
        return 0.0 if iv is None else max(iv[0], -iv[1], 0.0) * (1 - 1e-12)

    if ord in (None, 2, 'fro') and (x.ndim == 1 or ord != 2):
        return _reduce_axis(x, axis, lambda xs: SNum.lift(sum((sq(v) for v in xs), 0.0)).sqrt(nonneg=True, least=max(map(least, xs), default=0.0)), 'f', keepdims)
    if ord == 1 and x.ndim == 1:
        return _reduce_axis(x, axis, lambda xs: sum((abs(v) for v in xs), 0.0), 'f', keepdims)
    if ord == 1 and x.ndim == 2 and axis is None and not keepdims:
        return f_max(_reduce_axis(x, 0, lambda xs: sum((abs(v) for v in xs), 0.0), 'f', False))
    raise Unsupported("norm ord=%r" % (ord,))


def f_det(a):
    a = asobj(a)
    if not has_proxy(a):
        return np.linalg.det(native(a))
    n = a.shape[0]
    raw = a.raw()

    def det(rows, cols):
        if len(rows) == 1:
            return raw[rows[0], cols[0]]
        s = 0.0
        for j, c in enumerate(cols):
            x = raw[rows[0], c]
            if _iszero(x):
                continue
            m = det(rows[1:], cols[:j] + cols[j + 1:])
            s = s + (x * m if j % 2 == 0 else -(x * m))
        return s
    return det(tuple(range(n)), tuple(range(n)))


def f_inv(a):
    a = asobj(a)
    if not has_proxy(a):
        return asobj(np.linalg.inv(native(a)))
    n = a.shape[0]
    if n > 4:
        raise Unsupported("symbolic inverse of size %d" % n)
    d = f_det(a)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = a.raw()[[r for r in range(n) if r != j]][:, [c for c in range(n) if c != i]]
            m = f_det(wrap(minor, a.kind)) if n > 1 else 1.0
            out[i, j] = ((-1) ** (i + j)) * m / d
    return wrap(out, a.kind)


def f_solve(a, b):
    a, b = asobj(a), asobj(b)
    if not has_proxy(a) and not has_proxy(b):
        return asobj(np.linalg.solve(native(a), native(b)))
    inv = f_inv(a)
    return inv.dot(b)


def f_matrix_power(a, n):
    n = int(n)
    a = asobj(a)
    if n < 0:
        a, n = f_inv(a), -n
    r = asobj(np.identity(a.shape[0]))
    for _ in range(n):
        r = f_dot(r, a)
    return r


def f_einsum(sub, *ops, **kw):
    ops = [asobj(o) for o in ops]
    kd = max((o.kind for o in ops), key=lambda x: KORD[x])
    if not any(has_proxy(o) for o in ops):
        return asobj(np.einsum(sub, *[native(o) for o in ops]))
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        out = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    raws = [o.raw() for o in ops]
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        s = 0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            for t, o in zip(ins, raws):
                x = o[tuple(env[c] for c in t)]
                if _iszero(x):
                    p = None
                    break
                p = x if p is None else p * x
            if p is not None:
                s = s + p
        res[oi] = s
    return wrap(res, kd) if res.shape else res[()]


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    a = asobj(a)
    if has_proxy(a):
        a = SymArray([int(x) if type(x) in (SBV, SInt) else x for x in a.raw().reshape(-1)])
        if has_proxy(a):
            raise Unsupported("unique of symbolic reals")
    return np.unique(native(a), return_index, return_inverse, return_counts)


def f_vdot(a, b):
    a, b = asobj(a).ravel(), asobj(b).ravel()
    return f_dot(a.conj(), b)


def f_array(data, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
    kd = kind_of_dtype(dtype)
    r = SymArray(data if isinstance(data, np.ndarray) else obj_array(data), kd)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def f_asarray(data, dtype=None, order=None, **k):
    if isinstance(data, SymArray) and (dtype is None or kind_of_dtype(dtype) == data.kind):
        return data
    return f_array(data, dtype)


def f_isreal(a):
    return _map(asobj(a), lambda x: (x.imag == 0) if kind_of_val(x) == 'c' else True, 'b')


def f_iscomplexobj(a):
    return (asobj(a).kind == 'c')


def f_zeros_like(a, dtype=None, **k):
    kd = kind_of_dtype(dtype) or asobj(a).kind
    return SymArray(np.zeros(np.shape(a), KDT[kd]), kd)


def f_ones_like(a, dtype=None, **k):
    kd = kind_of_dtype(dtype) or asobj(a).kind
    return SymArray(np.ones(np.shape(a), KDT[kd]), kd)


def f_kron(a, b):
    a, b = asobj(a), asobj(b)
    k = max((a.kind, b.kind), key=lambda x: KORD[x])
    nd = max(a.ndim, b.ndim)
    ra = a.raw().reshape((1,) * (nd - a.ndim) + a.shape)
    rb = b.raw().reshape((1,) * (nd - b.ndim) + b.shape)
    out = np.empty(tuple(x * y for x, y in zip(ra.shape, rb.shape)), dtype=object)
    for i in np.ndindex(*ra.shape):
        for j in np.ndindex(*rb.shape):
            x, y = ra[i], rb[j]
            out[tuple(p * s + r for p, s, r in zip(i, rb.shape, j))] = 0 if (_iszero(x) or _iszero(y)) else x * y
    return wrap(out, k)


def f_copyto(dst, src, **k):
    dst[...] = src


def f_real_if_close(a, tol=100):
    a = asobj(a)
    return a


def f_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    """interpolation only: as many distinct points as coefficients (the weights are then irrelevant)"""
    x = asobj(x)
    if has_proxy(x) or full or cov or x.ndim != 1:
        raise Unsupported("polyfit")
    xs = [float(v) for v in x.raw()]
    if len(xs) != deg + 1 or len(set(xs)) != deg + 1:
        raise Unsupported("polyfit that is not an interpolation")
    return f_dot(np.linalg.inv(np.vander(xs, deg + 1)), asobj(y))


def f_multi_dot(ms, **k):
    r = ms[0]
    for m in ms[1:]:
        r = f_dot(r, m)
    return r


FUNCS = {
    'dot': f_dot, 'sum': f_sum, 'prod': f_prod, 'product': f_prod, 'any': f_any, 'all': f_all, 'amax': f_max, 'max': f_max,
    'amin': f_min, 'min': f_min, 'mean': f_mean, 'var': f_var, 'std': f_std, 'trace': f_trace, 'argmax': f_argmax, 'argmin': f_argmin,
    'nonzero': f_nonzero, 'count_nonzero': f_count_nonzero, 'where': f_where, 'round': f_round, 'round_': f_round, 'around': f_round,
    'clip': f_clip, 'argsort': f_argsort, 'sort': f_sort, 'searchsorted': f_searchsorted,
    'isclose': f_isclose, 'allclose': f_allclose, 'array_equal': f_array_equal, 'norm': f_norm, 'linalg.norm': f_norm,
    'det': f_det, 'linalg.det': f_det, 'inv': f_inv, 'linalg.inv': f_inv, 'linalg.solve': f_solve, 'linalg.matrix_power': f_matrix_power, 'einsum': f_einsum, 'unique': f_unique,
    'vdot': f_vdot, 'real': lambda a: a.real, 'imag': lambda a: a.imag, 'isreal': f_isreal,
    'iscomplexobj': f_iscomplexobj, 'zeros_like': f_zeros_like, 'empty_like': f_zeros_like, 'ones_like': f_ones_like,
    'kron': f_kron, 'copyto': f_copyto, 'real_if_close': f_real_if_close, 'multi_dot': f_multi_dot, 'linalg.multi_dot': f_multi_dot,
    'flatnonzero': lambda a: f_nonzero(asobj(a).ravel())[0], 'argwhere': lambda a: np.argwhere(np.array([bool(_tb(x)) for x in asobj(a).raw().reshape(-1)]).reshape(asobj(a).shape)),
    'polyfit': f_polyfit,
    'iscomplex': lambda a: _map(asobj(a), lambda x: (x.imag != 0) if kind_of_val(x) == 'c' else False, 'b'),
    'angle': lambda a, *k: (_ for _ in ()).throw(Unsupported('angle')),
}


class _LA(object):
    def __init__(self):
        pass

    def __getattr__(self, nm):
        f = FUNCS.get('linalg.' + nm)
        real = getattr(np.linalg, nm)
        if f is None:
            if not callable(real) or isinstance(real, type):
                return real

            def g(*a, **k):
                c, ok = _deep_native(list(a))
                c2, ok2 = _deep_native(k)
                if not (ok and ok2):
                    raise Unsupported("linalg.%s on symbolic" % nm)
                r = real(*c, **c2)
                return r
            return g

        def h(*a, **k):
            if any(isinstance(x, SymArray) or has_proxy(x) for x in a):
                return f(*a, **k)
            return real(*a, **k)
        return h


class _Float64(np.float64):
    def __new__(cls, x=0.0):
        return SNum.lift(x) if is_proxy(x) else np.float64(x)


class NPShim(object):
    """stands for the numpy module inside a module under symbolic execution.
    kinds: which default-created arrays become SymArrays"""

    def __init__(self, kinds='fc'):
        self.__dict__['_kinds'] = kinds
        self.__dict__['linalg'] = _LA()
        self.__dict__['float64'] = _Float64

    def __setattr__(self, k, v):
        self.__dict__[k] = v

    def __getattr__(self, nm):
        real = getattr(np, nm)     # AttributeError exactly as numpy
        f = getattr(self, '_n_' + nm, None) if ('_n_' + nm) in type(self).__dict__ else None
        if f is not None:
            return f
        if nm in FUNCS or (callable(real) and not isinstance(real, type)):
            if isinstance(real, np.ufunc):
                return _UfuncShim(real)
            ff = FUNCS.get(nm)
            if ff is not None:
                def g(*a, **k):
                    if any(isinstance(x, SymArray) or has_proxy(x) for x in a):
                        return ff(*a, **k)
                    return real(*a, **k)
                return g

            def h(*a, **k):
                if nm in STRUCTURAL and any(has_proxy(x) for x in a):
                    a = [asobj(x) if (is_proxy(x) or isinstance(x, (list, tuple)) and has_proxy(x) and nm not in
                                      ('concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'dstack', 'block', 'reshape', 'append'))
                         else ([asobj(y) for y in x] if isinstance(x, (list, tuple)) and has_proxy(x) else x) for x in a]
                return real(*a, **k)
            return h
        return real

    def _mk(self, base, dtype):
        kd = kind_of_dtype(dtype) or kind_of_dtype(base.dtype)
        if kd in self._kinds:
            return SymArray(base, kd)
        return base

    def _n_zeros(self, shape, dtype=None, order='C', **k):
        return self._mk(np.zeros(_sh(shape), dtype or float), dtype)

    def _n_empty(self, shape, dtype=None, order='C', **k):
        return self._mk(np.zeros(_sh(shape), dtype or float), dtype)

    def _n_ones(self, shape, dtype=None, order='C', **k):
        return self._mk(np.ones(_sh(shape), dtype or float), dtype)

    def _n_full(self, shape, v, dtype=None, **k):
        if is_proxy(v):
            r = np.empty(_sh(shape), dtype=object)
            r[...] = v
            return SymArray(r, kind_of_dtype(dtype))
        return self._mk(np.full(_sh(shape), v, dtype), dtype)

    def _n_identity(self, n, dtype=None, **k):
        return self._mk(np.identity(int(n), dtype or float), dtype)

    def _n_eye(self, n, m=None, k=0, dtype=None, **kw):
        return self._mk(np.eye(int(n), m, k, dtype or float), dtype)

    def _n_array(self, data, dtype=None, *a, **k):
        data = _unwrap(data)
        if isinstance(data, SymArray) or has_proxy(data) or _deep_sym(data):
            return f_array(data, dtype, *a, **k)
        r = np.array(data, dtype, *a, **k)
        return self._mk(r, None) if r.dtype != object and r.dtype.kind in 'iufcb' else r

    def _n_asarray(self, data, dtype=None, *a, **k):
        data = _unwrap(data)
        if isinstance(data, SymArray) or has_proxy(data) or _deep_sym(data):
            return f_asarray(data, dtype)
        return np.asarray(data, dtype)

    def _n_ascontiguousarray(self, data, dtype=None, **k):
        data = _unwrap(data)
        if isinstance(data, SymArray) or has_proxy(data) or _deep_sym(data):
            r = f_asarray(data, dtype)
            return r if r.flags['C_CONTIGUOUS'] else r.copy()
        r = np.ascontiguousarray(data, dtype)
        return r if r.dtype == object or r.dtype.kind not in 'iufcb' else self._mk(r, None)

    _n_asfortranarray = _n_asarray

    def _n_require(self, data, dtype=None, requirements=(), **k):
        data = _unwrap(data)
        if not (isinstance(data, SymArray) or has_proxy(data) or _deep_sym(data)):
            r = np.require(data, dtype, requirements, **k)
            return r if r.dtype == object or r.dtype.kind not in 'iufcb' else self._mk(r, None)
        r = f_asarray(data, dtype)
        req = [requirements] if isinstance(requirements, str) else list(requirements or ())
        if any(x in ('OWNDATA', 'O', 'OWN') for x in req) and not r.flags['OWNDATA'] or \
                any(x in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS') for x in req) and not r.flags['C_CONTIGUOUS']:
            r = r.copy()
        return r

    def _n_zeros_like(self, a, dtype=None, **k):
        if isinstance(a, SymArray):
            return f_zeros_like(a, dtype)
        return self._mk(np.zeros_like(a, dtype), dtype)
    _n_empty_like = _n_zeros_like

    def _n_linspace(self, a, b, n=50, **k):
        if is_proxy(a) or is_proxy(b):
            n = int(n)
            return SymArray([a + (b - a) * (i / (n - 1)) for i in range(n)])
        return self._mk(np.linspace(a, b, n, **k), None)

    def _n_isscalar(self, x):
        return True if is_proxy(x) else np.isscalar(x)

    def _n_fromiter(self, it, dtype, count=-1):
        return self._n_array(list(it), dtype)

    def _n_vectorize(self, f, **k):
        return lambda a: _map(asobj(a), f)

    def _n_iscomplexobj(self, x):
        if isinstance(x, SymArray) or is_proxy(x):
            return (x.kind if isinstance(x, SymArray) else kind_of_val(x)) == 'c'
        return np.iscomplexobj(x)

    def _n_isrealobj(self, x):
        return not self._n_iscomplexobj(x)


def _unwrap(x):
    """the symbolic array behind an object that converts itself to an array (__array__), if it is one"""
    if isinstance(x, (np.ndarray, list, tuple, np.generic, int, float, complex, str)) or is_proxy(x):
        return x
    f = getattr(x, '__array__', None)
    if f is None:
        return x
    r = f()
    if isinstance(r, SymArray) or not isinstance(r, np.ndarray) or r.dtype != object:
        return r if isinstance(r, SymArray) else x
    r = r.view(SymArray)
    r._kind = infer_kind(r)
    dt = getattr(x, 'dtype', None)
    if dt is not None and kind_of_dtype(dt):
        r._kind = kind_of_dtype(dt)
    return r


def _deep_sym(x):
    if isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return False


def _sh(s):
    if isinstance(s, tuple):
        return tuple(int(x) for x in s)
    if isinstance(s, list):
        return tuple(int(x) for x in s)
    return int(s)


class _UfuncShim(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, SymArray) for x in a):
            return self.u(*a, **k)
        if any(is_proxy(x) for x in a):
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
                return ufunc_call(self.u, [asobj(x) if isinstance(x, (list, tuple)) else x for x in a], {})
            nm = self.u.__name__
            if len(a) == 1 and nm in UN:
                return UN[nm](a[0])
            if nm in BIN:
                return BIN[nm](*[_pyval(x) for x in a])
            raise Unsupported("ufunc %s" % nm)
        if any(isinstance(x, (list, tuple)) and has_proxy(x) for x in a):
            return ufunc_call(self.u, [asobj(x) if isinstance(x, (list, tuple)) else x for x in a], {})
        return self.u(*a, **k)

    def __getattr__(self, nm):
        return getattr(self.u, nm)
