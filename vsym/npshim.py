"""
Stand-in for numpy, over arrays (concrete shape) of symbolic scalars.
Only documented numpy behaviour used by, or plausible in, the package is modelled;
anything else raises EngineUnsupported.
"""
import itertools
import math
import types
from fractions import Fraction as F

import numpy as np

from . import num
from .num import (SF, mk, lift, isscalar, s_add, s_sub, s_mul, s_div, s_pow, s_neg, s_cmp, s_ite)
from .ctx import CTX, SB, band, bor, bnot, tobool
from .terms import EngineUnsupported, INF, NAN, T
from . import terms as tm


def _obj(x):
    """anything -> object ndarray (0-d for scalars)"""
    if isinstance(x, SArr):
        return x.a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, object)
        for i in np.ndindex(x.shape):
            v = x[i]
            out[i] = bool(v) if x.dtype == bool else (int(v) if x.dtype.kind in 'iu' else mk(float(v)))
        return out
    if isscalar(x):
        out = np.empty((), object)
        out[()] = x
        return out
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), object)
        parts = [_obj(v) for v in x]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        out = np.empty((len(parts),) + sh, object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    if isinstance(x, (range, types.GeneratorType, map, zip, filter)):
        return _obj(list(x))
    raise EngineUnsupported(f'array from {type(x).__name__}')


def _tag(x):
    if isinstance(x, SArr):
        return x.tag
    if isinstance(x, (list, tuple)):
        ts = [_tag(v) for v in x]
        if ts and all(t == 'b' for t in ts):
            return 'b'
        if ts and all(t in 'bi' for t in ts):
            return 'i'
        return 'f'
    if isinstance(x, (bool, np.bool_, SB)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, SF):
        return 'f'
    if isinstance(x, np.ndarray):
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(x.dtype.kind, 'O')
    return 'f'


def f32(x):
    if not isscalar(x):
        return x
    p = lift(x)
    if isinstance(p, float):
        return p
    c = p.const_value()
    if c is not None:
        return mk(F(float(np.float32(float(c)))))
    s = p.single()
    if s is not None and len(s[0]) == 1 and T.atoms[s[0][0][0]].kind == 'f32' and s[1] == 1:
        return mk(x)
    at = T.get('f32', p, (p,), sign=('pos' if tm.quick_pos(p) else None))
    return SF(tm.of_atom(at))


class SArr:
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, tag='f'):
        self.a = a
        self.tag = tag

    # ------------------------------------------------------------ attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return SArr(self.a.T, self.tag)

    @property
    def dtype(self):
        return np.dtype({'f': 'float64', 'f4': 'float32', 'i': 'int64', 'b': 'bool'}.get(self.tag, 'O'))

    @property
    def flat(self):
        return iter(self.a.ravel())

    @property
    def real(self):
        return self

    def __len__(self):
        if not self.a.shape:
            raise TypeError('len() of unsized object')
        return len(self.a)

    def __iter__(self):
        if not self.a.shape:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self.a)):
            yield self[i]

    def __contains__(self, x):
        return bool(any_(self == x))

    # -------------------------------------------------------------- indexing
    def _idx(self, k):
        """python/numpy index with symbolic masks made concrete"""
        def one(i):
            if isinstance(i, SArr):
                if i.tag == 'b':
                    return np.array([bool(v) for v in i.a.ravel()], bool).reshape(i.a.shape)
                return np.array([num.to_int(v) for v in i.a.ravel()], int).reshape(i.a.shape)
            if isinstance(i, (SF, SB)):
                if isinstance(i, SB):
                    return bool(i)
                return num.to_int(i)
            if isinstance(i, list):
                return one(SArr(_obj(i), _tag(i)))
            if isinstance(i, slice):
                f = lambda z: None if z is None else num.to_int(z)
                return slice(f(i.start), f(i.stop), f(i.step))
            if _isq(i):
                raise TypeError('only integer scalar arrays can be converted to a scalar index')
            return i
        if isinstance(k, tuple):
            return tuple(one(i) for i in k)
        return one(k)

    def __getitem__(self, k):
        r = self.a[self._idx(k)]
        if isinstance(r, np.ndarray):
            return SArr(r, self.tag)      # basic slices stay views
        return r

    def __setitem__(self, k, v):
        if _isq(v):
            v = v.to_value(v.unit.__class__.dimensionless())
        if isinstance(k, SArr) and k.tag == 'b':
            # masked assignment, element by element (may merge instead of fork)
            m = k.a
            if m.shape != self.a.shape[:m.ndim]:
                raise IndexError('boolean index did not match indexed array')
            if isscalar(v) and m.shape == self.a.shape:
                v = self._conv(v)
                for i in np.ndindex(m.shape):
                    self.a[i] = s_ite(m[i], v, self.a[i]) if self.tag not in ('b', 'O') else \
                        (v if bool(m[i]) else self.a[i])
                return
        kk = self._idx(k)
        vv = _obj(v)
        vv2 = np.empty(vv.shape, object)
        for i in np.ndindex(vv.shape):
            vv2[i] = self._conv(vv[i])
        if vv2.shape == ():
            self.a[kk] = vv2[()]
        else:
            self.a[kk] = vv2

    def _conv(self, v):
        if self.tag == 'f4':
            return f32(v)
        if self.tag == 'f':
            return mk(v)
        if self.tag == 'i':
            if isinstance(v, (int, np.integer)):
                return int(v)
            return num.s_trunc(v)
        if self.tag == 'b':
            return tobool(v) if isinstance(v, (SB, bool, np.bool_)) else tobool(v != 0)
        return v

    # -------------------------------------------------------------- methods
    def copy(self, order=None):
        return SArr(self.a.copy(), self.tag)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True):
        t = dtype_tag(dtype)
        out = np.empty(self.a.shape, object)
        tmp = SArr(out, t)
        for i in np.ndindex(self.a.shape):
            out[i] = tmp._conv(self.a[i])
        return tmp

    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(num.to_int(x) for x in s)
        return SArr(self.a.reshape(s), self.tag)

    def flatten(self, order='C'):
        return SArr(self.a.flatten(), self.tag)

    def ravel(self, order='C'):
        return SArr(self.a.ravel(), self.tag)

    def transpose(self, *ax):
        return SArr(self.a.transpose(*ax), self.tag)

    def squeeze(self, axis=None):
        return SArr(self.a.squeeze(axis), self.tag)

    def tolist(self):
        return self.a.tolist()

    def item(self, *k):
        if k:
            return self.a.item(*k)
        if self.a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.a.ravel()[0]

    def fill(self, v):
        v = self._conv(v)
        for i in np.ndindex(self.a.shape):
            self.a[i] = v

    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, **k):
        return mean(self, axis=axis)

    def prod(self, axis=None):
        return prod(self, axis=axis)

    def min(self, axis=None, **k):
        return min_(self, axis=axis)

    def max(self, axis=None, **k):
        return max_(self, axis=axis)

    def any(self, axis=None, **k):
        return any_(self, axis=axis)

    def all(self, axis=None, **k):
        return all_(self, axis=axis)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis=axis)

    def argmax(self, axis=None):
        return argmax(self)

    def argmin(self, axis=None):
        return argmin(self)

    def argsort(self, axis=-1, kind=None):
        return argsort(self)

    def sort(self, axis=-1, kind=None):
        self.a[...] = sort(self, axis=axis).a

    def nonzero(self):
        return nonzero(self)

    def clip(self, min=None, max=None, **k):
        return clip(self, min, max)

    def round(self, decimals=0):
        return round_(self, decimals)

    def dot(self, o):
        return dot(self, o)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def conj(self):
        return self

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.ravel()[0])
        if self.a.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def as_bool(self):
        if self.a.size == 1:
            return tobool(self.a.ravel()[0])
        return bool(self)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return num.to_int(self.item())

    __index__ = __int__

    def __invert__(self):
        return logical_not(self)

    def __neg__(self):
        return ew(s_neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __repr__(self):
        return f'SArr({self.a!r})'

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np.ndarray, n):
            raise AttributeError(f"'numpy.ndarray' object has no attribute '{n}'")
        raise EngineUnsupported(f'ndarray.{n}')

    def _ip(self, f, o):
        r = f(self, o)
        if not isinstance(r, SArr) or r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        if self.tag == 'f4':
            self.a[...] = ew(f32, r).a
        else:
            self.a[...] = r.a
        return self

    def __iadd__(self, o):
        if _isq(o):
            return NotImplemented
        return self._ip(add, o)

    def __isub__(self, o):
        if _isq(o):
            return NotImplemented
        return self._ip(subtract, o)

    def __imul__(self, o):
        if _isq(o) or getattr(type(o), 'is_sunit', False):
            return NotImplemented
        return self._ip(multiply, o)

    def __itruediv__(self, o):
        if _isq(o) or getattr(type(o), 'is_sunit', False):
            return NotImplemented
        return self._ip(divide, o)

    def __iand__(self, o):
        return self._ip(logical_and, o)

    def __ior__(self, o):
        return self._ip(logical_or, o)


def _isq(x):
    return getattr(type(x), 'is_squantity', False)


def _restag(f, args):
    arrs = [x for x in args if isinstance(x, SArr) and x.a.ndim > 0]
    if arrs and all(x.tag == 'f4' for x in arrs):
        return 'f4'
    return None


def ew(f, *args, tag=None):
    """element-wise application"""
    if all(isscalar(x) for x in args):
        return f(*args)
    os = [_obj(x) for x in args]
    r = np.frompyfunc(f, len(os), 1)(*os)
    if not isinstance(r, np.ndarray):
        o = np.empty((), object)
        o[()] = r
        if all(isscalar(x) or (isinstance(x, SArr) and x.ndim == 0) for x in args):
            return r
        r = o
    t = tag
    if t is None:
        t = _restag(f, args)
        if t == 'f4':
            r = np.frompyfunc(f32, 1, 1)(r)
            if not isinstance(r, np.ndarray):
                o = np.empty((), object)
                o[()] = r
                r = o
        elif t is None:
            t = 'f'
            if f in (s_add, s_sub, s_mul, s_neg, num.s_floordiv, num.s_mod) and \
                    all(_tag(x) in 'ib' for x in args):
                t = 'i'
                r2 = np.empty(r.shape, object)
                for i in np.ndindex(r.shape):
                    v = r[i]
                    if isinstance(v, SF):
                        c = v.p.const_value()
                        v = int(c) if c is not None else v
                    r2[i] = v
                r = r2
    return SArr(r, t)


# units hooks: set by units.py
QDISPATCH = {}


def _disp(name):
    def deco(f):
        def g(*args, **kw):
            kw.pop('out', None) if kw.get('out', 0) is None else None
            if any(_isq(x) or getattr(type(x), 'is_sunit', False) for x in args) or \
               any(_isq(x) for x in kw.values()) or \
               (args and isinstance(args[0], (list, tuple)) and any(_isq(x) for x in args[0])):
                h = QDISPATCH.get(name)
                if h is None:
                    raise EngineUnsupported(f'np.{name} on a Quantity')
                return h(*args, **kw)
            return f(*args, **kw)
        g.__name__ = name
        g.raw = f
        return g
    return deco


def _unary(name, sf):
    @_disp(name)
    def f(x, dtype=None, where=True):
        return ew(sf, x if not isinstance(x, (list, tuple)) else asarray(x))
    return f


def _binary(name, sf, tag=None):
    @_disp(name)
    def f(x, y, dtype=None):
        x = asarray(x) if isinstance(x, (list, tuple)) else x
        y = asarray(y) if isinstance(y, (list, tuple)) else y
        return ew(sf, x, y, tag=tag)
    return f


sin = _unary('sin', num.s_sin)
cos = _unary('cos', num.s_cos)
tan = _unary('tan', num.s_tan)
arccos = acos = _unary('arccos', num.s_acos)
arcsin = asin = _unary('arcsin', num.s_asin)
arctan = atan = _unary('arctan', num.s_atan)
arctan2 = atan2 = _binary('arctan2', num.s_atan2)
sqrt = _unary('sqrt', num.s_sqrt)
exp = _unary('exp', num.s_exp)
log = _unary('log', num.s_log)


def _log10(x):
    return s_div(num.s_log(x), num.s_log(10))


log10 = _unary('log10', _log10)
log2 = _unary('log2', lambda x: s_div(num.s_log(x), num.s_log(2)))
log1p = _unary('log1p', lambda x: num.s_log(s_add(1, x)))
expm1 = _unary('expm1', lambda x: s_sub(num.s_exp(x), 1))
exp2 = _unary('exp2', lambda x: s_pow(2, x))
cbrt = _unary('cbrt', lambda x: s_pow(x, F(1, 3)))
floor = _unary('floor', num.s_floor)
ceil = _unary('ceil', num.s_ceil)
rint = _unary('rint', num.s_rint)
trunc = fix = _unary('trunc', num.s_trunc)
abs_ = absolute = fabs = _unary('absolute', num.s_abs)
negative = _unary('negative', s_neg)
positive = _unary('positive', lambda x: mk(x))
square = _unary('square', lambda x: s_mul(x, x))
reciprocal = _unary('reciprocal', lambda x: s_div(1, x))
deg2rad = radians = _unary('deg2rad', lambda x: s_mul(x, s_div(num.pi(), 180)))
rad2deg = degrees = _unary('rad2deg', lambda x: s_div(s_mul(x, 180), num.pi()))


def _sinc(x):
    raise EngineUnsupported('sinc')


def _sign(x):
    p = lift(x)
    if isinstance(p, float):
        return NAN if p != p else (1 if p > 0 else -1)
    return num.sign_of(p)


sign = _unary('sign', _sign)
sinh = _unary('sinh', lambda x: s_div(s_sub(num.s_exp(x), num.s_exp(s_neg(x))), 2))
cosh = _unary('cosh', lambda x: s_div(s_add(num.s_exp(x), num.s_exp(s_neg(x))), 2))


def _tanh(x):
    a, b = num.s_exp(x), num.s_exp(s_neg(x))
    return s_div(s_sub(a, b), s_add(a, b))


tanh = _unary('tanh', _tanh)

add = _binary('add', s_add)
subtract = _binary('subtract', s_sub)
multiply = _binary('multiply', s_mul)
divide = true_divide = _binary('divide', s_div)
power = _binary('power', s_pow)
float_power = power
mod = remainder = fmod = _binary('mod', num.s_mod)
floor_divide = _binary('floor_divide', num.s_floordiv)
maximum = _binary('maximum', num.s_max)
minimum = _binary('minimum', num.s_min)


def _fmax(x, y):
    if num.isnan(x):
        return y
    if num.isnan(y):
        return x
    return num.s_max(x, y)


def _fmin(x, y):
    if num.isnan(x):
        return y
    if num.isnan(y):
        return x
    return num.s_min(x, y)


fmax = _binary('maximum', _fmax)
fmin = _binary('minimum', _fmin)
hypot = _binary('hypot', lambda x, y: num.s_sqrt(s_add(s_mul(x, x), s_mul(y, y))))
copysign = _binary('copysign', lambda x, y: num.s_abs(x) if bool(tobool(s_cmp(y, 0, '>='))) else s_neg(num.s_abs(x)))

less = _binary('less', lambda x, y: s_cmp(x, y, '<'), 'b')
less_equal = _binary('less_equal', lambda x, y: s_cmp(x, y, '<='), 'b')
greater = _binary('greater', lambda x, y: s_cmp(x, y, '>'), 'b')
greater_equal = _binary('greater_equal', lambda x, y: s_cmp(x, y, '>='), 'b')
equal = _binary('equal', lambda x, y: s_cmp(x, y, '=='), 'b')
not_equal = _binary('not_equal', lambda x, y: s_cmp(x, y, '!='), 'b')


def _tb(x):
    if isinstance(x, (SB, bool, np.bool_)):
        return tobool(x)
    return tobool(s_cmp(x, 0, '!='))


logical_and = _binary('logical_and', lambda x, y: band(_tb(x), _tb(y)), 'b')
logical_or = _binary('logical_or', lambda x, y: bor(_tb(x), _tb(y)), 'b')
logical_xor = _binary('logical_xor', lambda x, y: bor(band(_tb(x), bnot(_tb(y))), band(bnot(_tb(x)), _tb(y))), 'b')
bitwise_and = logical_and
bitwise_or = logical_or


@_disp('logical_not')
def logical_not(x):
    return ew(lambda v: bnot(_tb(v)), x, tag='b')


invert = bitwise_not = logical_not


@_disp('isnan')
def isnan(x):
    x = asarray(x) if isinstance(x, (list, tuple)) else x
    return ew(lambda v: bool(num.isnan(v)), x, tag='b')


@_disp('isfinite')
def isfinite(x):
    return ew(lambda v: not (num.isnan(v) or num.isinf(v)), x, tag='b')


@_disp('isinf')
def isinf(x):
    return ew(lambda v: bool(num.isinf(v)), x, tag='b')


@_disp('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if num.isnan(x) or num.isnan(y):
            return bool(equal_nan and num.isnan(x) and num.isnan(y))
        if num.isinf(x) or num.isinf(y):
            return x is y or (num.isinf(x) and num.isinf(y) and x == y)
        return s_cmp(num.s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, num.s_abs(y))), '<=')
    return ew(f, a, b, tag='b')


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


# ---------------------------------------------------------------- creation
def dtype_tag(d):
    if d is None:
        return 'f'
    n = getattr(d, '__name__', None) or str(d)
    n = n.replace('numpy.', '').lstrip('_S') if n.startswith('_S') else n
    if 'bool' in n:
        return 'b'
    if 'float32' in n or n in ('f4', 'single', 'float16', 'half'):
        return 'f4'
    if 'float' in n or n in ('f8', 'd', 'double', 'f'):
        return 'f'
    if 'int' in n or n in ('i', 'i8', 'i4', 'int'):
        return 'i'
    if n in ('object', 'O'):
        return 'O'
    raise EngineUnsupported(f'dtype {n}')


def cast_scalar(x, d):
    t = dtype_tag(d)
    return SArr(None, t)._conv(x)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(1 if num.generic(x) is not None else num.to_int(x) for x in s)
    return (1 if num.generic(s) is not None else num.to_int(s),)


def _full(shape, v, tag):
    a = np.empty(_shape(shape), object)
    for i in np.ndindex(a.shape):
        a[i] = v
    return SArr(a, tag)


def zeros(shape, dtype=float, order='C'):
    t = dtype_tag(dtype)
    return _full(shape, {'b': False, 'i': 0}.get(t, mk(0)), t)


def ones(shape, dtype=float, order='C'):
    t = dtype_tag(dtype)
    return _full(shape, {'b': True, 'i': 1}.get(t, mk(1)), t)


def empty(shape, dtype=float, order='C'):
    return zeros(shape, dtype)


@_disp('full')
def full(shape, fill_value, dtype=None):
    t = dtype_tag(dtype) if dtype is not None else _tag(fill_value)
    v = fill_value
    if isinstance(v, SArr):
        return broadcast_to(v, _shape(shape)).copy()
    return _full(shape, mk(v) if t == 'f' else v, t)


@_disp('zeros_like')
def zeros_like(x, dtype=None, shape=None):
    x = asarray(x)
    t = dtype_tag(dtype) if dtype is not None else x.tag
    return _full(x.shape, {'b': False, 'i': 0}.get(t, mk(0)), t)


@_disp('ones_like')
def ones_like(x, dtype=None, shape=None):
    x = asarray(x)
    t = dtype_tag(dtype) if dtype is not None else x.tag
    return _full(x.shape, {'b': True, 'i': 1}.get(t, mk(1)), t)


@_disp('full_like')
def full_like(x, v, dtype=None):
    x = asarray(x)
    t = dtype_tag(dtype) if dtype is not None else x.tag
    return _full(x.shape, SArr(None, t)._conv(v), t)


empty_like = zeros_like


@_disp('asarray')
def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, SArr):
        return x if dtype is None or dtype_tag(dtype) == x.tag else x.astype(dtype)
    if not isscalar(x) and not isinstance(x, (list, tuple, np.ndarray, range)) and hasattr(x, '__iter__'):
        x = list(x)
    t = _tag(x)
    a = _obj(x)
    r = SArr(a.copy(), t)
    if t == 'f':
        for i in np.ndindex(a.shape):
            r.a[i] = mk(a[i])
    if dtype is not None and dtype_tag(dtype) != t:
        r = r.astype(dtype)
    return r


@_disp('array')
def array(x, dtype=None, copy=True, ndmin=0, subok=False):
    r = asarray(x, dtype)
    r = r.copy() if r is x else r
    while r.ndim < ndmin:
        r = r[None]
    return r


asanyarray = asarray
ascontiguousarray = asarray


def copy(x):
    return x.copy() if hasattr(x, 'copy') else array(x)


@_disp('atleast_1d')
def atleast_1d(*xs):
    out = []
    for x in xs:
        x = asarray(x)
        out.append(x.reshape(1) if x.ndim == 0 else x)
    return out[0] if len(out) == 1 else out


@_disp('atleast_2d')
def atleast_2d(x):
    x = atleast_1d(x)
    return x[None] if x.ndim == 1 else x


def arange(*a, dtype=None):
    if len(a) == 1 and num.generic(a[0]) is not None:
        return asarray([num.generic(a[0])], dtype)
    ints = all(isinstance(x, (int, np.integer)) for x in a)
    if ints:
        return SArr(_obj(list(range(*[int(x) for x in a]))), 'i') if dtype is None or dtype_tag(dtype) == 'i' \
            else asarray([float(x) for x in range(*a)], dtype)
    st, sp, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    out = []
    cur = mk(st)
    for _ in range(64):
        if not bool(tobool(s_cmp(cur, sp, '<'))):
            return asarray(out, dtype)
        out.append(cur)
        cur = s_add(cur, step)
    raise EngineUnsupported('long arange')


LINSPACE_CUT = None


@_disp('linspace')
def linspace(start, stop, num_=50, endpoint=True, retstep=False, dtype=None, axis=0, num=None):
    n = num_ if num is None else num
    from . import num as N
    gi = N.generic(n)
    if gi is not None:
        s, e = asarray(start).item(), asarray(stop).item()
        step = s_div(s_sub(e, s), s_sub(n, 1) if endpoint else n)
        r = asarray([s_add(s, s_mul(step, gi))], dtype)
        return (r, step) if retstep else r
    n = N.to_int(n)
    if n < 0:
        raise ValueError(f'Number of samples, {n}, must be non-negative.')
    cut = getattr(CTX.cur, 'linspace_cut', None) if CTX.cur else None
    if isinstance(cut, int):
        n = min(n, cut)
    elif cut and n in cut:
        n = cut[n]
    div = (n - 1) if endpoint else n
    s, e = asarray(start), asarray(stop)
    if s.ndim or e.ndim:
        raise EngineUnsupported('linspace over arrays')
    s, e = s.item(), e.item()
    out = []
    for i in range(n):
        if i == 0:
            out.append(mk(s))
        elif endpoint and i == n - 1:
            out.append(mk(e))
        else:
            out.append(s_add(s, s_mul(s_sub(e, s), F(i, div))))
    r = asarray(out, dtype) if out else SArr(np.empty((0,), object), 'f')
    if retstep:
        return r, (s_div(s_sub(e, s), div) if div else NAN)
    return r


@_disp('meshgrid')
def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [asarray(x) for x in xs]
    gs = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=indexing)
    return [SArr(x.a.ravel()[g], x.tag) for x, g in zip(xs, gs)]


def eye(n, dtype=float):
    r = zeros((n, n), dtype)
    for i in range(n):
        r.a[i, i] = mk(1)
    return r


def broadcast_to(x, shape):
    x = asarray(x)
    return SArr(np.broadcast_to(x.a, shape), x.tag)


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    return [SArr(a.copy(), x.tag) for a, x in zip(np.broadcast_arrays(*[x.a for x in xs]), xs)]


# --------------------------------------------------------------- structure
@_disp('concatenate')
def concatenate(xs, axis=0, dtype=None):
    xs = [asarray(x) for x in xs]
    nz = [x for x in xs if x.size] or xs
    tags = {x.tag for x in nz}
    t = tags.pop() if len(tags) == 1 else 'f'
    return SArr(np.concatenate([x.a for x in xs], axis=axis), t)


@_disp('append')
def append(x, y, axis=None):
    x, y = asarray(x), asarray(y)
    if axis is None:
        x, y = x.ravel(), y.ravel()
        axis = 0
    return concatenate([x, y], axis)


@_disp('stack')
def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    return SArr(np.stack([x.a for x in xs], axis=axis), xs[0].tag)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def column_stack(xs):
    return stack(xs, axis=1)


@_disp('ravel')
def ravel(x):
    return asarray(x).ravel()


@_disp('reshape')
def reshape(x, s, order='C'):
    return asarray(x).reshape(s)


@_disp('transpose')
def transpose(x, axes=None):
    return asarray(x).transpose(axes) if axes else asarray(x).T


@_disp('squeeze')
def squeeze(x, axis=None):
    return asarray(x).squeeze(axis)


@_disp('expand_dims')
def expand_dims(x, axis):
    return SArr(np.expand_dims(asarray(x).a, axis), asarray(x).tag)


@_disp('repeat')
def repeat(x, n, axis=None):
    x = asarray(x)
    n = [num.to_int(v) for v in _obj(n).ravel()]
    n = n[0] if len(n) == 1 else n
    return SArr(np.repeat(x.a, n, axis=axis), x.tag)


@_disp('tile')
def tile(x, n):
    x = asarray(x)
    return SArr(np.tile(x.a, _shape(n)), x.tag)


@_disp('flip')
def flip(x, axis=None):
    x = asarray(x)
    return SArr(np.flip(x.a, axis), x.tag)


@_disp('roll')
def roll(x, k, axis=None):
    x = asarray(x)
    return SArr(np.roll(x.a, num.to_int(k), axis), x.tag)


def shape(x):
    return asarray(x).shape if not _isq(x) else x.shape


def ndim(x):
    return asarray(x).ndim if not _isq(x) else x.ndim


def size(x):
    return asarray(x).size if not _isq(x) else x.size


def isscalar_(x):
    return isscalar(x)


def iterable(x):
    return hasattr(x, '__iter__')


# --------------------------------------------------------------- reductions
def _reduce(x, f, init, axis=None, keepdims=False, tag=None):
    x = asarray(x)
    if axis is None:
        acc = init
        for v in x.a.ravel():
            acc = v if acc is None else f(acc, v)
        if acc is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        if keepdims:
            return _full((1,) * x.ndim, acc, tag or x.tag)
        return acc
    if isinstance(axis, tuple):
        for ax in sorted([a % x.ndim for a in axis], reverse=True):
            x = asarray(_reduce(x, f, init, ax, keepdims, tag))
        return x if x.ndim else x.item()
    axis = num.to_int(axis)
    m = np.moveaxis(x.a, axis, -1)
    out = np.empty(m.shape[:-1], object)
    for i in np.ndindex(out.shape):
        acc = init
        for v in m[i]:
            acc = v if acc is None else f(acc, v)
        if acc is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        out[i] = acc
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.shape == ():
        return out[()]
    return SArr(out, tag or x.tag)


def _gsum(e):
    """sum over every cell of a grid of symbolic size, for the generic cell value e: an uninterpreted linear functional"""
    ctx = CTX.cur
    e = mk(e)
    if not isinstance(e, SF):
        raise EngineUnsupported('sum of undefined values')
    idx = {a for i in ctx.generic.values() for m in i.p.t for a, _ in m}

    def dep(aid):
        at = T.atoms[aid]
        if aid in idx:
            return True
        return any(dep(b) for q in at.args if isinstance(q, tm.Poly) for m in q.t for b, _ in m)
    out = mk(0)
    for m, c in e.p.t.items():
        ins = tuple((a, x) for a, x in m if dep(a))
        outs = tuple((a, x) for a, x in m if not dep(a))
        inner = tm.Poly({ins: F(1)})
        key = f'total[{inner}]'
        nonneg = ctx.holds_nonneg(inner)
        S = SF(ctx.declare(key, 0 if nonneg else None, None, lo_strict=nonneg, slo=0.5 if nonneg else -5, shi=50))
        out = s_add(out, s_mul(SF(tm.Poly({outs: c})), S))
    return out


@_disp('sum')
def sum_(x, axis=None, dtype=None, keepdims=False, initial=None, where=None, out=None):
    if not isscalar(x) and not isinstance(x, (SArr, list, tuple, np.ndarray)) and hasattr(x, '__iter__'):
        x = list(x)
    x = asarray(x)
    if where is not None:
        x = where_(where, x, 0)
    if CTX.cur is not None and getattr(CTX.cur, 'generic', None):
        if x.a.size != 1 or axis is not None or keepdims or x.tag != 'f':
            raise EngineUnsupported('sum over a generic axis')
        return _gsum(x.a.ravel()[0])
    if x.tag in 'bi':
        def ad(a, b):
            a = a if isinstance(a, (int, SF)) else (1 if bool(a) else 0)
            b = b if isinstance(b, (int, SF)) and not isinstance(b, bool) else (b if isinstance(b, SF) else (1 if bool(b) else 0))
            return a + b
        if x.tag == 'b':
            return _reduce(x, ad, 0, axis, keepdims, tag='i')
        return _reduce(x, lambda a, b: a + b, 0, axis, keepdims, tag='i')
    return _reduce(x, s_add, mk(0), axis, keepdims)


nansum_ = None


@_disp('nansum')
def nansum(x, axis=None):
    x = asarray(x)
    return sum_(ew(lambda v: mk(0) if num.isnan(v) else v, x), axis=axis)


@_disp('prod')
def prod(x, axis=None, **k):
    return _reduce(x, s_mul, mk(1), axis)


@_disp('mean')
def mean(x, axis=None, keepdims=False, **k):
    x = asarray(x)
    n = x.size if axis is None else x.shape[axis]
    return divide(sum_(x, axis=axis, keepdims=keepdims), n) if n else NAN


@_disp('nanmean')
def nanmean(x, axis=None):
    x = asarray(x)
    v = [q for q in x.a.ravel() if not num.isnan(q)]
    return mean(v) if v else NAN


@_disp('average')
def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    return divide(sum_(multiply(x, weights), axis=axis), sum_(weights, axis=axis))


@_disp('var')
def var(x, axis=None, ddof=0):
    x = asarray(x)
    m = mean(x)
    d = subtract(x, m)
    return divide(sum_(multiply(d, d)), x.size - ddof)


def std(x, axis=None, ddof=0):
    return sqrt(var(x, axis, ddof))


@_disp('min')
def min_(x, axis=None, keepdims=False, initial=None, **k):
    return _reduce(x, num.s_min, initial, axis, keepdims)


@_disp('max')
def max_(x, axis=None, keepdims=False, initial=None, **k):
    return _reduce(x, num.s_max, initial, axis, keepdims)


@_disp('nanmin')
def nanmin(x, axis=None):
    return _reduce(x, _fmin, None, axis)


@_disp('nanmax')
def nanmax(x, axis=None):
    return _reduce(x, _fmax, None, axis)


@_disp('any')
def any_(x, axis=None, keepdims=False, **k):
    if not isscalar(x) and not isinstance(x, (SArr, list, tuple, np.ndarray)) and hasattr(x, '__iter__'):
        x = list(x)
    x = asarray(x) if not isinstance(x, SArr) else x
    if axis is None:
        return bor(*[_tb(v) for v in x.a.ravel()])
    return _reduce(ew(_tb, x, tag='b'), lambda a, b: bor(a, b), False, axis, keepdims, tag='b')


@_disp('all')
def all_(x, axis=None, keepdims=False, **k):
    if not isscalar(x) and not isinstance(x, (SArr, list, tuple, np.ndarray)) and hasattr(x, '__iter__'):
        x = list(x)
    x = asarray(x) if not isinstance(x, SArr) else x
    if axis is None:
        return band(*[_tb(v) for v in x.a.ravel()])
    return _reduce(ew(_tb, x, tag='b'), lambda a, b: band(a, b), True, axis, keepdims, tag='b')


def count_nonzero(x, axis=None):
    return sum_(ew(_tb, asarray(x), tag='b'), axis=axis)


@_disp('cumsum')
def cumsum(x, axis=None, **k):
    x = asarray(x)
    if x.ndim > 1:
        raise EngineUnsupported('cumsum nd')
    out = []
    acc = 0
    for v in x.a.ravel():
        acc = acc + v if x.tag == 'i' else s_add(acc, v)
        out.append(acc)
    return SArr(_obj(out) if out else np.empty((0,), object), x.tag)


@_disp('cumprod')
def cumprod(x, axis=None):
    x = asarray(x)
    out = []
    acc = 1
    for v in x.a.ravel():
        acc = s_mul(acc, v)
        out.append(acc)
    return SArr(_obj(out), x.tag)


@_disp('diff')
def diff(x, n=1, axis=-1):
    x = asarray(x)
    for _ in range(n):
        if x.ndim != 1:
            raise EngineUnsupported('diff nd')
        x = SArr(np.frompyfunc(s_sub, 2, 1)(x.a[1:], x.a[:-1]), x.tag)
    return x


@_disp('trapz')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        n = y.shape[axis]
        x = SArr(_obj([s_mul(i, dx) for i in range(n)]), 'f')
    x = asarray(x)
    m = np.moveaxis(y.a, axis, -1)
    xs = x.a if x.ndim == 1 else None
    if xs is None:
        xm = np.moveaxis(x.a, axis, -1)
    out = np.empty(m.shape[:-1], object)
    for i in np.ndindex(out.shape):
        xx = xs if xs is not None else xm[i]
        acc = mk(0)
        if len(xx) != m.shape[-1]:
            raise ValueError('operands could not be broadcast together')
        for j in range(1, m.shape[-1]):
            acc = s_add(acc, s_mul(s_sub(xx[j], xx[j - 1]), s_div(s_add(m[i][j], m[i][j - 1]), 2)))
        out[i] = acc
    return out[()] if out.shape == () else SArr(out, 'f')


trapezoid = trapz


@_disp('interp')
def interp(x, xp, fp, left=None, right=None):
    xp, fp = list(asarray(xp)), list(asarray(fp))

    def f(v):
        if bool(tobool(s_cmp(v, xp[0], '<'))):
            return fp[0] if left is None else left
        for i in range(1, len(xp)):
            if bool(tobool(s_cmp(v, xp[i], '<='))):
                w = s_div(s_sub(v, xp[i - 1]), s_sub(xp[i], xp[i - 1]))
                return s_add(fp[i - 1], s_mul(w, s_sub(fp[i], fp[i - 1])))
        return fp[-1] if right is None else right
    return ew(f, x)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return sum_(multiply(a, b))
    raise EngineUnsupported('dot nd')


@_disp('outer')
def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return multiply(a[:, None], b[None, :])


vdot = inner = dot


def einsum(*a, **k):
    raise EngineUnsupported('einsum')


# ----------------------------------------------------------------- selecting
@_disp('where')
def where_(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    cs = c if isinstance(c, (SArr, SB, bool, np.bool_)) else asarray(c)
    t1, t2 = _tag(x), _tag(y)

    def f(cc, a, b):
        cc = _tb(cc)
        if cc is True:
            return a
        if cc is False:
            return b
        if isinstance(a, (SB, bool)) or isinstance(b, (SB, bool)):
            return bor(band(cc, _tb(a)), band(bnot(cc), _tb(b)))
        return s_ite(cc, a, b)
    tag = 'b' if t1 == t2 == 'b' else ('i' if t1 in 'ib' and t2 in 'ib' else None)
    if tag is None:
        arrs = [q for q in (x, y) if isinstance(q, SArr) and q.ndim > 0]
        tag = 'f4' if arrs and all(q.tag == 'f4' for q in arrs) else 'f'
    os = [_obj(cs), _obj(x), _obj(y)]
    r = np.frompyfunc(f, 3, 1)(*os)
    if not isinstance(r, np.ndarray):
        o = np.empty((), object)
        o[()] = r
        r = o
    if tag == 'f4':
        r2 = np.frompyfunc(f32, 1, 1)(r)
        r = r2 if isinstance(r2, np.ndarray) else r
    elif tag == 'f':
        r2 = np.frompyfunc(mk, 1, 1)(r)
        r = r2 if isinstance(r2, np.ndarray) else r
    return SArr(r, tag)


@_disp('select')
def select(conds, choices, default=0):
    out = default
    for c, x in reversed(list(zip(conds, choices))):
        out = where_(c, x, out)
    return out


def piecewise(x, conds, funcs):
    out = zeros_like(x)
    for c, f in zip(conds, funcs):
        out = where_(c, f(x) if callable(f) else f, out)
    return out


def choose(*a, **k):
    raise EngineUnsupported('choose')


def nonzero(x):
    x = asarray(x)
    m = np.array([bool(_tb(v)) for v in x.a.ravel()], bool).reshape(x.shape)
    return tuple(SArr(_obj([int(i) for i in ix]) if len(ix) else np.empty((0,), object), 'i')
                 for ix in np.nonzero(m))


@_disp('argwhere')
def argwhere(x):
    x = asarray(x)
    m = np.array([bool(_tb(v)) for v in x.a.ravel()], bool).reshape(x.shape)
    r = np.argwhere(m)
    return SArr(np.array(r.tolist(), object).reshape(r.shape) if r.size else np.empty(r.shape, object), 'i')


def flatnonzero(x):
    return nonzero(asarray(x).ravel())[0]


def _sorted_idx(vals):
    """indices sorting vals (forks); nan last"""
    import functools
    idx = list(range(len(vals)))

    def less(i, j):
        a, b = vals[i], vals[j]
        if num.isnan(a):
            return False
        if num.isnan(b):
            return True
        return bool(tobool(s_cmp(a, b, '<')))
    out = []
    for i in idx:
        k = len(out)
        while k > 0 and less(i, out[k - 1]):
            k -= 1
        out.insert(k, i)
    return out


@_disp('sort')
def sort(x, axis=-1, kind=None):
    x = asarray(x)
    if x.ndim != 1:
        raise EngineUnsupported('sort nd')
    o = _sorted_idx(list(x.a))
    return SArr(x.a[o], x.tag)


@_disp('argsort')
def argsort(x, axis=-1, kind=None):
    x = asarray(x)
    return SArr(_obj(_sorted_idx(list(x.a.ravel()))), 'i')


@_disp('argmax')
def argmax(x, axis=None):
    v = list(asarray(x).a.ravel())
    b = 0
    for i in range(1, len(v)):
        if bool(tobool(s_cmp(v[i], v[b], '>'))):
            b = i
    return b


@_disp('argmin')
def argmin(x, axis=None):
    v = list(asarray(x).a.ravel())
    b = 0
    for i in range(1, len(v)):
        if bool(tobool(s_cmp(v[i], v[b], '<'))):
            b = i
    return b


@_disp('unique')
def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    x = asarray(x)
    vals = list(x.a.ravel())
    # dedupe first (fewer comparisons), then sort
    reps = []
    inv = []
    first = []
    for i, v in enumerate(vals):
        for k, r in enumerate(reps):
            if isinstance(v, SF) and isinstance(r, SF) and v.p == r.p:
                inv.append(k)
                break
            if num.isnan(v) and num.isnan(r):
                inv.append(k)
                break
            if bool(tobool(s_cmp(v, r, '=='))):
                inv.append(k)
                break
        else:
            inv.append(len(reps))
            reps.append(v)
            first.append(i)
    o = _sorted_idx(reps)
    pos = {k: j for j, k in enumerate(o)}
    u_ = SArr(_obj([reps[k] for k in o]) if reps else np.empty((0,), object), x.tag)
    out = [u_]
    if return_index:
        out.append(SArr(_obj([first[k] for k in o]), 'i'))
    if return_inverse:
        out.append(SArr(_obj([pos[k] for k in inv]).reshape(x.shape), 'i'))
    if return_counts:
        out.append(SArr(_obj([sum(1 for q in inv if q == k) for k in o]), 'i'))
    return out[0] if len(out) == 1 else tuple(out)


def isin(x, ys):
    ys = list(asarray(ys).a.ravel())
    return ew(lambda v: bor(*[s_cmp(v, y, '==') for y in ys]), x, tag='b')


in1d = isin


@_disp('percentile')
def percentile(x, q, axis=None, method='linear', **k):
    return _quant(x, ew(lambda v: s_div(v, 100), q), axis, method)


@_disp('quantile')
def quantile(x, q, axis=None, method='linear', **k):
    return _quant(x, q, axis, method)


def _quant(x, q, axis, method):
    x = asarray(x)
    if axis is not None and x.ndim > 1:
        raise EngineUnsupported('percentile axis')
    vals = [x.a.ravel()[i] for i in _sorted_idx(list(x.a.ravel()))]
    if any(num.isnan(v) for v in vals):
        return NAN
    n = len(vals)
    if n == 0:
        raise IndexError('index -1 is out of bounds for axis 0 with size 0')

    def one(qq):
        if isinstance(qq, float) and qq != qq:
            return NAN
        if not (bool(tobool(s_cmp(qq, 0, '>='))) and bool(tobool(s_cmp(qq, 1, '<=')))):
            raise ValueError('Percentiles must be in the range [0, 100]')
        pos = s_mul(qq, n - 1)
        for k_ in range(n - 1):
            if k_ == n - 2 or bool(tobool(s_cmp(pos, k_ + 1, '<'))):
                w = s_sub(pos, k_)
                if method == 'linear':
                    return s_add(vals[k_], s_mul(w, s_sub(vals[k_ + 1], vals[k_])))
                if method == 'lower':
                    return vals[k_] if bool(tobool(s_cmp(w, 1, '<'))) else vals[k_ + 1]
                if method == 'higher':
                    return vals[k_ + 1] if bool(tobool(s_cmp(w, 0, '>'))) else vals[k_]
                raise EngineUnsupported('percentile method')
        return vals[0]
    return ew(one, q)


@_disp('median')
def median(x, axis=None):
    return _quant(x, F(1, 2), axis, 'linear')


@_disp('clip')
def clip(x, a_min=None, a_max=None, min=None, max=None, **k):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max

    def f(v, lo, hi):
        if num.isnan(v):
            return v
        if lo is not None and bool(tobool(s_cmp(v, lo, '<'))):
            v = lo
        if hi is not None and bool(tobool(s_cmp(v, hi, '>'))):
            v = hi
        return _Clipped.mark(v, lo, hi)
    x = asarray(x) if isinstance(x, (list, tuple)) else x
    if a_min is None:
        return ew(lambda v, h: f(v, None, h), x, a_max)
    if a_max is None:
        return ew(lambda v, l: f(v, l, None), x, a_min)
    return ew(f, x, a_min, a_max)


class _Clipped:
    @staticmethod
    def mark(v, lo, hi):
        """remember that this value was clamped in floating point: no rounding escape"""
        if isinstance(v, SF) and CTX.cur is not None:
            CTX.cur.clamped.add(v.p)
        return v


@_disp('round')
def round_(x, decimals=0, **k):
    return ew(lambda v: num.s_round(v, decimals), x)


around = round_


@_disp('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if num.isnan(v):
            return mk(nan)
        if num.isinf(v):
            raise EngineUnsupported('nan_to_num(inf)')
        return v
    return ew(f, x)


@_disp('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    a = list(asarray(a).a.ravel())

    def f(x):
        op = '<' if side == 'left' else '<='
        k = 0
        for y in a:
            if bool(tobool(s_cmp(y, x, op))):
                k += 1
            else:
                break
        return k
    return ew(f, v, tag='i')


@_disp('bincount')
def bincount(x, weights=None, minlength=0):
    xs = [num.to_int(v) for v in asarray(x).a.ravel()]
    n = max(xs + [minlength - 1]) + 1 if xs else minlength
    out = [0] * n
    w = list(asarray(weights).a.ravel()) if weights is not None else [1] * len(xs)
    for i, ww in zip(xs, w):
        out[i] = out[i] + ww
    return asarray(out)


@_disp('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(equal(a, b))


def vectorize(f, *a, **k):
    def g(*xs):
        return ew(f, *[asarray(x) if isinstance(x, (list, tuple)) else x for x in xs])
    return g


def fromiter(it, dtype=float, count=-1):
    return asarray(list(it), dtype)


def ndenumerate(x):
    x = asarray(x)
    for i in np.ndindex(x.shape):
        yield i, x.a[i]


ndindex = np.ndindex
newaxis = None
inf = Inf = Infinity = INF
nan = NaN = NAN
float64 = float_ = float
double = float


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def seterr(*a, **k):
    return {}


def _mkop(name, f):
    def op(self, o):
        if _isq(o) or getattr(type(o), 'is_sunit', False) or isinstance(o, (str, dict, type(None))):
            return NotImplemented
        return f(self, o)

    def rop(self, o):
        if _isq(o) or getattr(type(o), 'is_sunit', False) or isinstance(o, (str, dict, type(None))):
            return NotImplemented
        return f(o, self)
    return op, rop


def _arr_add(x, y):
    if _tag(x) == 'b' and _tag(y) == 'b':
        return logical_or(x, y)
    return add(x, y)


def _arr_mul(x, y):
    if _tag(x) == 'b' and _tag(y) == 'b':
        return logical_and(x, y)
    return multiply(x, y)


for _n, _f in dict(add=_arr_add, sub=subtract, mul=_arr_mul, truediv=divide, pow=power, mod=mod,
                   floordiv=floor_divide, xor=logical_xor).items():
    _a, _b = _mkop(_n, _f)
    setattr(SArr, f'__{_n}__', _a)
    setattr(SArr, f'__r{_n}__', _b)
_a, _b = _mkop('and', logical_and)
SArr.__and__, SArr.__rand__ = _a, _b
_a, _b = _mkop('or', logical_or)
SArr.__or__, SArr.__ror__ = _a, _b
SArr.__lt__ = _mkop('lt', less)[0]
SArr.__le__ = _mkop('le', less_equal)[0]
SArr.__gt__ = _mkop('gt', greater)[0]
SArr.__ge__ = _mkop('ge', greater_equal)[0]


def _aeq(self, o):
    if _isq(o):
        return NotImplemented
    if o is None or isinstance(o, str):
        return False
    return equal(self, o)


def _ane(self, o):
    if _isq(o):
        return NotImplemented
    if o is None or isinstance(o, str):
        return True
    return not_equal(self, o)


SArr.__eq__ = _aeq
SArr.__ne__ = _ane


# -------------------------------------------------------------------- random
class SRng:
    """random generator: every draw is a fresh symbol within the documented range"""

    _serial = itertools.count()

    def __init__(self, name='rng'):
        self.name = name
        # generators with the same name give the same outputs, each from its own start
        self._key = name if name == 'global' else next(SRng._serial)

    def _draw(self, kind, size, make, tag='f'):
        ctx = CTX.cur
        if ctx is None:
            raise EngineUnsupported('random draw while loading')
        hook = getattr(ctx, 'rng_hook', None)
        if hook:
            hook(self, kind)
        lim = getattr(ctx, 'draw_max', 10)
        if ctx.counter(('calls', self._key)) >= lim:
            from .ctx import PathEnd
            ctx.cut('more than %d draws' % lim)
            raise PathEnd()

        def one():
            n = ctx.counter((self._key, kind))
            if not getattr(self, 'user', False):
                ctx.note('rng.other', self.name)
            x = make(f'{self.name}.{kind}.{n}')
            ctx.note('draw.' + kind, x)
            return x
        if size is None:
            return one()
        sh = _shape(size)
        a = np.empty(sh, object)
        for i in np.ndindex(sh):
            a[i] = one()
        return SArr(a, tag)

    def random(self, size=None, dtype=None):
        return self._draw('random', size, lambda n: SF(CTX.cur.declare(n, 0, 1, hi_strict=True)))

    rand = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._affine('random', low, subtract(high, low), size,
                            lambda n: SF(CTX.cur.declare(n, 0, 1, hi_strict=True)))

    def _affine(self, kind, loc, scale, size, make):
        if size is None:
            lo, sc = asarray(loc), asarray(scale)
            if lo.ndim or sc.ndim:
                size = np.broadcast(lo.a, sc.a).shape
        z = self._draw(kind, size, make)
        return add(loc, multiply(scale, z))

    def standard_normal(self, size=None):
        return self._draw('normal', size, lambda n: SF(CTX.cur.declare(n, slo=-3.0, shi=3.0)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if _isq(loc) or _isq(scale):
            loc, scale = _plain(loc), _plain(scale)
        if bool(any_(less(scale, 0))):
            raise ValueError('scale < 0')
        return self._affine('normal', loc, scale, size,
                            lambda n: SF(CTX.cur.declare(n, slo=-3.0, shi=3.0)))

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return exp(self.normal(_plain(mean), _plain(sigma), size))

    def exponential(self, scale=1.0, size=None):
        scale = _plain(scale)
        if bool(any_(less(scale, 0))):
            raise ValueError('scale < 0')
        return multiply(scale, self._draw('exponential', size, lambda n: SF(CTX.cur.declare(n, 0, slo=0.0, shi=5.0))))

    def poisson(self, lam=1.0, size=None):
        lam = _plain(lam)
        for v in _obj(lam).ravel():
            if num.isnan(v) or bool(tobool(s_cmp(v, 0, '<'))):
                raise ValueError('lam < 0 or lam contains NaNs')
        CTX.cur.note('poisson.lam', lam)
        mx = getattr(CTX.cur, 'poisson_max', 2)

        def make(n):
            if isscalar(lam) and bool(tobool(s_cmp(lam, 0, '=='))):
                CTX.cur.choices[n] = 0
                return 0
            return CTX.cur.choose(n, mx + 1)
        return self._draw('poisson', size, make, 'i')

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = num.to_int(low), num.to_int(high) + (1 if endpoint else 0)
        if high - low > 16:
            raise EngineUnsupported('wide random integers')
        return self._draw('integers', size, lambda n: low + CTX.cur.choose(n, high - low), 'i')

    randint = integers

    def choice(self, a, size=None, replace=True, p=None, **k):
        opts = list(range(a)) if isinstance(a, int) else list(a)
        return self._draw('choice', size, lambda n: opts[CTX.cur.choose(n, len(opts))],
                          _tag(opts))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np.random.Generator, n):
            raise AttributeError(f"'Generator' object has no attribute '{n}'")
        raise EngineUnsupported(f'rng.{n}')


def _plain(x):
    if _isq(x):
        return x.to_value(x.unit.__class__.dimensionless())
    return x


class _Random(types.ModuleType):
    """np.random: module-level draws come from a source the user cannot seed through the API"""
    Generator = SRng

    def __init__(self):
        super().__init__('numpy.random')
        self.n = 0

    def default_rng(self, seed=None):
        self.n += 1
        if isinstance(seed, SRng):
            return seed
        if CTX.cur is not None and isinstance(seed, int):
            return SRng(f'seeded{seed}')
        return SRng(f'default_rng{self.n}' if CTX.cur is None else f'local_rng{CTX.cur.counter("local_rng")}')

    def randint(self, low, high=None, size=None, dtype=None):
        if CTX.cur is None:
            return 12345
        return SRng('global').integers(low, high, size)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n in ('random', 'normal', 'poisson', 'exponential', 'uniform', 'choice', 'lognormal', 'standard_normal'):
            return getattr(SRng('global'), n)
        if n == 'rand':
            return lambda *s: SRng('global').random(s or None)
        if n == 'randn':
            return lambda *s: SRng('global').standard_normal(s or None)
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'np.random.{n}')


class NpModule(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        g = globals()
        skip = {'F', 'T', 'np', 'tm', 'num', 'types', 'math', 'lift', 'mk', 'SF', 'SB', 'CTX', 'copy'}
        for k, v in list(g.items()):
            if k.startswith('_') or k in skip:
                continue
            setattr(self, k, v)
        self.copy = copy
        self.ndarray = SArr
        self.sum = sum_
        self.any = any_
        self.all = all_
        self.min = self.amin = min_
        self.max = self.amax = max_
        self.abs = abs_
        self.round = round_
        self.where = where_
        self.isscalar = isscalar_
        self.pi = num.pi()
        self.e = num.SF(tm.exp_poly(tm.ONE))
        self.random = _Random()
        self.ma = None
        self.bool_ = bool
        self.int_ = self.int32 = self.int64 = self.intp = int
        self.integer = np.integer
        self.floating = np.floating
        self.number = np.number
        self.float32 = 'float32'
        self.dtype = np.dtype
        self.typing = types.SimpleNamespace(ArrayLike=object, NDArray=SArr)
        self.__version__ = np.__version__
        self.finfo = np.finfo
        self.r_ = None
        self.linalg = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'np.{n}')


# ---------------------------------------------------------------------- math
class MathModule(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.pi = num.pi()
        self.e = num.SF(tm.exp_poly(tm.ONE))
        self.inf = INF
        self.nan = NAN
        self.tau = num.s_mul(2, num.pi())
        for n, f in dict(sin=sin, cos=cos, tan=tan, acos=arccos, asin=arcsin, atan=arctan, atan2=arctan2,
                         sqrt=sqrt, exp=exp, floor=floor, ceil=ceil, fabs=abs_, trunc=trunc, log10=log10,
                         log2=log2, log1p=log1p, hypot=hypot, pow=power, isnan=isnan, isinf=isinf,
                         isfinite=isfinite, radians=radians, degrees=degrees, isclose=isclose,
                         copysign=copysign, fmod=fmod, sinh=sinh, cosh=cosh, tanh=tanh).items():
            setattr(self, n, f)
        self.log = lambda x, b=None: log(x) if b is None else divide(log(x), log(b))
        self.fsum = lambda it: sum_(list(it))
        self.prod = lambda it, start=1: multiply(start, prod(list(it)))
        self.gcd = math.gcd
        self.factorial = math.factorial
        self.comb = math.comb

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'math.{n}')
