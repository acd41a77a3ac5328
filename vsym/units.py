"""
Stand-in for astropy.units / astropy.constants: exact units over symbolic scalars and arrays.

Units are products of named units with (rational, or symbolic) exponents; every named unit has an exact
scale (a polynomial in pi with rational coefficients) and a dimension vector.
"""
import re
import types
from fractions import Fraction as F

import numpy as np

from . import num, terms as tm, npshim as nps
from .ctx import CTX, SB, tobool, band, bor, bnot
from .npshim import SArr, QDISPATCH
from .num import SF, mk, isscalar, s_mul, s_div, s_cmp, lift
from .terms import EngineUnsupported, Poly, const, padd, pmul, pscale, psub


class UnitsError(ValueError):
    pass


class UnitConversionError(UnitsError, TypeError):
    pass


class UnitTypeError(UnitsError, TypeError):
    pass


class UnitsWarning(Warning):
    pass


# name -> (scale Poly, dims)
REG = {}
ALIAS = {}


def _reg(names, scale, dims):
    names = names.split()
    REG[names[0]] = (scale if isinstance(scale, Poly) else const(scale), dims)
    for n in names[1:]:
        ALIAS[n] = names[0]


def _setup():
    pi = tm.PI()
    _reg('m meter', 1, {'m': F(1)})
    for p, s in dict(k=F(1000), c=F(1, 100), m=F(1, 1000), u=F(1, 10**6), n=F(1, 10**9), M=F(10**6), G=F(10**9)).items():
        _reg(p + 'm', s, {'m': F(1)})
    _reg('AU au astronomical_unit', 149597870700, {'m': F(1)})
    _reg('solRad R_sun Rsun', 695700000, {'m': F(1)})
    _reg('earthRad R_earth Rearth', 6378100, {'m': F(1)})
    _reg('jupiterRad R_jup R_jupiter Rjup', 71492000, {'m': F(1)})
    _reg('pc parsec', pmul(const(149597870700 * 648000), tm.pinv(pi)), {'m': F(1)})
    _reg('s second sec', 1, {'s': F(1)})
    _reg('ms', F(1, 1000), {'s': F(1)})
    _reg('min minute', 60, {'s': F(1)})
    _reg('h hr hour', 3600, {'s': F(1)})
    _reg('d day', 86400, {'s': F(1)})
    _reg('wk week', 7 * 86400, {'s': F(1)})
    _reg('yr year', F(86400 * 1461, 4), {'s': F(1)})
    _reg('Myr', F(86400 * 1461, 4) * 10**6, {'s': F(1)})
    _reg('kg kilogram', 1, {'kg': F(1)})
    _reg('g gram', F(1, 1000), {'kg': F(1)})
    _reg('K Kelvin kelvin', 1, {'K': F(1)})
    _reg('kK', 1000, {'K': F(1)})
    _reg('mK', F(1, 1000), {'K': F(1)})
    _reg('rad radian', 1, {'rad': F(1)})
    _reg('deg degree', pscale(pi, F(1, 180)), {'rad': F(1)})
    _reg('arcmin arcminute', pscale(pi, F(1, 10800)), {'rad': F(1)})
    _reg('arcsec arcsecond', pscale(pi, F(1, 648000)), {'rad': F(1)})
    _reg('hourangle', pscale(pi, F(1, 12)), {'rad': F(1)})
    _reg('cycle cy', pscale(pi, F(2)), {'rad': F(1)})
    _reg('sr steradian', 1, {'rad': F(2)})
    e = {'kg': F(1), 'm': F(2), 's': F(-2)}
    _reg('J joule Joule', 1, e)
    _reg('erg', F(1, 10**7), e)
    _reg('kJ', 1000, e)
    p = {'kg': F(1), 'm': F(2), 's': F(-3)}
    _reg('W watt Watt', 1, p)
    _reg('solLum L_sun Lsun', F('3.828e26'), p)
    _reg('Hz hertz', 1, {'s': F(-1)})
    _reg('percent pct', F(1, 100), {})


def _e(x):
    """exponent: Fraction, or Poly when symbolic"""
    if isinstance(x, Poly):
        c = x.const_value()
        return x if c is None else c
    if isinstance(x, SF):
        return _e(x.p)
    if isinstance(x, SQ):
        return _e(x.to_value(DIMLESS))
    return tm.tofrac(x)


def _eadd(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        a = a if isinstance(a, Poly) else const(a)
        b = b if isinstance(b, Poly) else const(b)
        return _e(padd(a, b))
    return a + b


def _emul(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        a = a if isinstance(a, Poly) else const(a)
        b = b if isinstance(b, Poly) else const(b)
        return _e(pmul(a, b))
    return a * b


class SUnitMeta(type):
    def __call__(cls, x='', *a, **k):
        if cls is not SUnit or isinstance(x, dict):
            return super().__call__(x, *a, **k)
        if isinstance(x, SUnit):
            return x
        if isinstance(x, str):
            return parse_unit(x)
        if isinstance(x, SQ):
            return _as_unit(x)
        if isscalar(x):
            return _as_unit(SQ(mk(x), DIMLESS))
        raise TypeError(f'{x!r} can not be converted to a Unit')


class SUnit(metaclass=SUnitMeta):
    is_sunit = True
    __array_priority__ = 5000
    __array_ufunc__ = None

    def __init__(self, parts, scale=None):
        self.parts = {k: v for k, v in parts.items() if isinstance(v, Poly) or v != 0}
        self.k = scale if scale is not None else tm.ONE    # extra scale (Unit(Quantity))
        self._sc = None
        self._dims = None

    @staticmethod
    def dimensionless():
        return DIMLESS

    @property
    def dims(self):
        if self._dims is None:
            d = {}
            for n, e in self.parts.items():
                for b, x in REG[n][1].items():
                    d[b] = _eadd(d.get(b, F(0)), _emul(e, x))
            self._dims = {b: x for b, x in d.items() if isinstance(x, Poly) or x != 0}
        return self._dims

    @property
    def scale_p(self):
        if self._sc is None:
            s = self.k
            for n, e in self.parts.items():
                b = REG[n][0]
                if isinstance(e, Poly):
                    s = pmul(s, tm.exp_poly(pmul(e, tm.log_poly(b))))
                elif e.denominator == 1:
                    x = tm.ppow_int(b, abs(int(e)))
                    s = pmul(s, x if e > 0 else tm.pinv(x))
                else:
                    s = pmul(s, tm.sqrt_like(b, e))
            self._sc = s
        return self._sc

    @property
    def scale(self):
        return SF(self.k)

    @property
    def physical_type(self):
        raise EngineUnsupported('physical_type')

    def same(self, o):
        return self is o or (self.parts == o.parts and self.k == o.k)

    def is_equivalent(self, o, equivalencies=None):
        o = SUnit(o)
        return self.dims == o.dims

    def __eq__(self, o):
        if isinstance(o, (SUnit, str)):
            o = SUnit(o)
            return self.same(o) or (self.dims == o.dims and self.scale_p == o.scale_p)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(sorted(self.dims)))

    def to(self, o, value=1, equivalencies=None):
        return _conv(mk(value) if isscalar(value) else value, self, SUnit(o))

    def _mulu(self, o, sgn):
        p = dict(self.parts)
        for n, e in o.parts.items():
            p[n] = _eadd(p.get(n, F(0)), e if sgn > 0 else _emul(F(-1), e))
        return SUnit(p, pmul(self.k, o.k if sgn > 0 else tm.pinv(o.k)))

    def __mul__(self, o):
        if isinstance(o, str):
            o = SUnit(o)
        if isinstance(o, SUnit):
            return self._mulu(o, 1)
        if isinstance(o, SQ):
            return SQ(o.v, self * o.unit)
        return SQ(_arr(o), self)

    def __rmul__(self, o):
        if isinstance(o, str):
            return SUnit(o) * self
        return SQ(_arr(o), self)

    def __truediv__(self, o):
        if isinstance(o, str):
            o = SUnit(o)
        if isinstance(o, SUnit):
            return self._mulu(o, -1)
        if isinstance(o, SQ):
            return SQ(nps.divide(1, o.v), self / o.unit)
        return SQ(nps.divide(1, _arr(o)), self)

    def __rtruediv__(self, o):
        if isinstance(o, str):
            return SUnit(o) / self
        return SQ(_arr(o), DIMLESS / self)

    def __pow__(self, e):
        e = _e(e)
        if isinstance(e, Poly):
            if self.k != tm.ONE:
                raise EngineUnsupported('power of a scaled unit')
            return SUnit({n: _emul(x, e) for n, x in self.parts.items()})
        if e.denominator == 1:
            k = tm.ppow_int(self.k, abs(int(e)))
            k = k if e >= 0 else tm.pinv(k)
        else:
            k = tm.sqrt_like(self.k, e)
        return SUnit({n: _emul(x, e) for n, x in self.parts.items()}, k)

    def __str__(self):
        return self.to_string()

    def to_string(self, *a, **k):
        def one(n, e):
            if isinstance(e, Poly):
                return f'{n}({e})'
            return n if e == 1 else (f'{n}{e}' if e.denominator == 1 else f'{n}({e})')
        pos = [one(n, e) for n, e in self.parts.items() if isinstance(e, Poly) or e > 0]
        neg = [one(n, -e) for n, e in self.parts.items() if not isinstance(e, Poly) and e < 0]
        s = ' '.join(pos)
        if neg:
            s = (s or '1') + ' / ' + (neg[0] if len(neg) == 1 else '(' + ' '.join(neg) + ')')
        return s

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        return f'Unit("{self}")'

    def decompose(self, bases=None):
        return SUnit({b: e for b, e in self.dims.items()}, self.scale_p)

    @property
    def si(self):
        return self.decompose()

    @property
    def name(self):
        return str(self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'Unit.{n}')


def parse_unit(s):
    s = s.strip()
    if s in ('', '1'):
        return DIMLESS
    r = DIMLESS
    sign = 1
    for tok in re.findall(r'/|[A-Za-z_]+(?:\^|\*\*)?\(?-?[0-9]*\)?|[.*]|\(|\)|[0-9]+', s):
        if tok == '/':
            sign = -1
            continue
        if tok in ('.', '*', '1', '('):
            continue
        if tok == ')':
            sign = 1
            continue
        m = re.match(r'([A-Za-z_]+)(?:\^|\*\*)?\(?(-?[0-9]*)\)?$', tok)
        if not m:
            raise EngineUnsupported(f'unit string {s!r}')
        r = r * (_unit(m.group(1)) ** ((int(m.group(2)) if m.group(2) else 1) * sign))
        if '(' not in s:
            sign = 1
    return r


UCACHE = {}


def _unit(name):
    n = ALIAS.get(name, name)
    if n not in REG:
        raise ValueError(f"'{name}' did not parse as unit")
    if n not in UCACHE:
        UCACHE[n] = SUnit({n: F(1)})
    return UCACHE[n]


def _as_unit(q):
    c = lift(q.v if isscalar(q.v) else q.v.item())
    return SUnit(q.unit.parts, pmul(q.unit.k, c))


def def_unit(s, represents=None, **k):
    name = s[0] if isinstance(s, (list, tuple)) else s
    if represents is None:
        REG[name] = (tm.ONE, {name: F(1)})
    else:
        r = SUnit(represents)
        REG[name] = (r.scale_p, r.dims)
    UCACHE.pop(name, None)
    return _unit(name)


def _arr(x):
    """numbers/lists/arrays -> scalar or SArr holding floats (a copy)"""
    if isscalar(x):
        return mk(x)
    if isinstance(x, SArr):
        if x.tag in ('i', 'b'):
            return x.astype('float64')
        return x.copy()
    if isinstance(x, (list, tuple, range)):
        if any(isinstance(v, SQ) for v in x):
            return _qlist(x).v
        r = nps.asarray(list(x), 'float64') if len(x) else SArr(np.empty((0,), object), 'f')
        return r
    if x is None or isinstance(x, (str, dict)):
        raise TypeError(f'unsupported operand type(s): {type(x).__name__} and Unit')
    raise TypeError(f'unsupported operand type(s): {type(x).__name__} and Unit')


def _conv(v, a, b):
    """value v in unit a -> value in unit b"""
    if a is b or a.same(b):
        return v
    if a.dims != b.dims:
        raise UnitConversionError(f"'{a}' and '{b}' are not convertible")
    if a.scale_p == b.scale_p:
        return v
    f = SF(pmul(a.scale_p, tm.pinv(b.scale_p)))
    if f.p == tm.ONE:
        return v
    return nps.multiply(v, f)


def _zero_like_ok(x):
    """astropy: 0, inf, nan are compatible with every unit"""
    for v in nps._obj(x).ravel():
        if num.isnan(v) or num.isinf(v):
            continue
        if not bool(tobool(s_cmp(v, 0, '=='))):
            return False
    return True


def _qlist(x):
    unit = next(v.unit for v in x if isinstance(v, SQ))
    vals = [(_conv(v.v, v.unit, unit) if isinstance(v, SQ) else _own(v, unit)) for v in x]
    return SQ(nps.asarray(vals), unit)


def _own(x, unit):
    """plain x as a value in unit"""
    if isinstance(x, SQ):
        return _conv(x.v, x.unit, unit)
    x = x if isscalar(x) or isinstance(x, SArr) else _arr(x)
    if not unit.dims:
        return _conv(x, DIMLESS, unit)
    if _zero_like_ok(x):
        return x
    raise UnitConversionError(f"'{DIMLESS}' (dimensionless) and '{unit}' are not convertible")


class QMeta(type):
    def __call__(cls, value=None, unit=None, dtype=None, copy=True, **k):
        if isinstance(value, tuple) and unit is None and not dtype and k.get('_raw'):
            pass
        if isinstance(unit, SUnit) and (isscalar(value) or isinstance(value, SArr)):
            return super().__call__(value, unit)
        if isinstance(value, str):
            q = parse_quantity(value)
        elif isinstance(value, SQ):
            q = super().__call__(value.v.copy() if isinstance(value.v, SArr) else value.v, value.unit)
        elif isinstance(value, (list, tuple)) and any(isinstance(v, SQ) for v in value):
            if unit is not None:
                un = SUnit(unit)
                return super().__call__(nps.asarray([_own(v, un) for v in value]), un)
            return _qlist(value)
        else:
            if isinstance(value, (list, tuple)) and any(isinstance(v, str) for v in value):
                return _qlist([parse_quantity(v) for v in value])
            return super().__call__(_arr(value), SUnit(unit) if unit is not None else DIMLESS)
        if unit is not None:
            return q.to(SUnit(unit))
        return q


class SQ(metaclass=QMeta):
    is_squantity = True
    __array_priority__ = 10000
    __array_ufunc__ = None

    def __init__(self, v, unit):
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.item()
        if isinstance(v, SArr) and v.tag in ('i', 'b'):
            v = v.astype('float64')
        elif isscalar(v) and not isinstance(v, (SF, float)):
            v = mk(v)
        self.v = v
        self._unit = unit

    @classmethod
    def __class_getitem__(cls, k):
        return cls

    @property
    def unit(self):
        return self._unit

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, x):
        self.v = x

    def to(self, unit, equivalencies=None, copy=True):
        unit = SUnit(unit)
        if equivalencies:
            raise EngineUnsupported('equivalencies')
        v = _conv(self.v, self.unit, unit)
        if v is self.v and isinstance(v, SArr):
            v = v.copy()
        return SQ(v, unit)

    def to_value(self, unit=None, equivalencies=None):
        if unit is None:
            return self.v
        if equivalencies:
            raise EngineUnsupported('equivalencies')
        return _conv(self.v, self.unit, SUnit(unit))

    def to_string(self, *a, **k):
        return str(self)

    @property
    def si(self):
        u = self.unit.decompose()
        return SQ(_conv(self.v, self.unit, SUnit(u.parts)), SUnit(u.parts))

    def decompose(self, bases=None):
        return self.si

    @property
    def cgs(self):
        raise EngineUnsupported('cgs')

    def is_equivalent(self, o):
        return self.unit.is_equivalent(o)

    # shape
    @property
    def shape(self):
        return self.v.shape if isinstance(self.v, SArr) else ()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return self.v.size if isinstance(self.v, SArr) else 1

    @property
    def isscalar(self):
        return not isinstance(self.v, SArr)

    @property
    def T(self):
        return SQ(self.v.T, self.unit) if isinstance(self.v, SArr) else self

    @property
    def dtype(self):
        return self.v.dtype if isinstance(self.v, SArr) else np.dtype(float)

    @property
    def flat(self):
        return iter([SQ(x, self.unit) for x in self.v.a.ravel()]) if isinstance(self.v, SArr) else iter([self])

    def __len__(self):
        if not isinstance(self.v, SArr):
            raise TypeError("'Quantity' object with a scalar value has no len()")
        return len(self.v)

    def __iter__(self):
        if not isinstance(self.v, SArr):
            raise TypeError("'Quantity' object with a scalar value is not iterable")
        for x in self.v:
            yield SQ(x, self.unit)

    def __getitem__(self, k):
        if not isinstance(self.v, SArr):
            if k == () or k is Ellipsis:
                return self
            if k is None:
                return SQ(nps.asarray([self.v]), self.unit)
            raise TypeError("'Quantity' object with a scalar value does not support indexing")
        return SQ(self.v[k], self.unit)

    def __setitem__(self, k, x):
        v = _own(x, self.unit)
        if not isinstance(self.v, SArr):
            if k == () or k is Ellipsis:
                self.v = v
                return
            raise TypeError("'Quantity' object with a scalar value does not support item assignment")
        self.v[k] = v

    def __contains__(self, x):
        return bool(tobool(nps.any_(self == x)))

    # methods delegating to the value
    def _d(self, name, *a, **k):
        v = self.v if isinstance(self.v, SArr) else nps.asarray(self.v)
        return SQ(getattr(v, name)(*a, **k), self.unit)

    def copy(self, order=None):
        return SQ(self.v.copy() if isinstance(self.v, SArr) else self.v, self.unit)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def sum(self, *a, **k):
        return self._d('sum', *a, **k)

    def mean(self, *a, **k):
        return self._d('mean', *a, **k)

    def min(self, *a, **k):
        return self._d('min', *a, **k)

    def max(self, *a, **k):
        return self._d('max', *a, **k)

    def cumsum(self, *a, **k):
        return self._d('cumsum', *a, **k)

    def reshape(self, *a, **k):
        return self._d('reshape', *a, **k)

    def flatten(self, *a):
        return self._d('flatten')

    def ravel(self, *a):
        return self._d('ravel')

    def squeeze(self, *a):
        return self._d('squeeze')

    def astype(self, d, copy=True):
        return SQ(self.v.astype(d), self.unit)

    def round(self, decimals=0):
        return SQ(nps.round_(self.v, decimals), self.unit)

    def item(self, *a):
        return SQ(self.v.item(*a) if isinstance(self.v, SArr) else self.v, self.unit)

    def argmax(self, *a):
        return nps.argmax(self.v)

    def argmin(self, *a):
        return nps.argmin(self.v)

    def argsort(self, *a, **k):
        return nps.argsort(self.v)

    def clip(self, lo=None, hi=None, min=None, max=None):
        return _clip(self, lo if lo is not None else min, hi if hi is not None else max)

    def any(self, *a, **k):
        raise TypeError('any on a Quantity')

    def nonzero(self):
        return nps.nonzero(self.v)

    def fill(self, x):
        self.v.fill(_own(x, self.unit))

    def tolist(self):
        raise NotImplementedError('cannot make a list of Quantities. Get list of values with q.value.tolist().')

    # conversions
    def __float__(self):
        raise TypeError('only dimensionless scalar quantities can be converted to Python scalars') \
            if self.unit.dims else EngineUnsupported('float(Quantity)')

    def as_float(self):
        if self.unit.dims:
            raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
        return _conv(self.v, self.unit, DIMLESS)

    def __int__(self):
        return num.to_int(self.as_float())

    def __index__(self):
        raise TypeError('only integer dimensionless scalar quantities can be converted to a Python index')

    def __bool__(self):
        raise ValueError('The truth value of a Quantity is ambiguous.')

    def __hash__(self):
        return hash(self.unit)

    def __neg__(self):
        return SQ(nps.negative(self.v), self.unit)

    def __pos__(self):
        return SQ(self.v, self.unit)

    def __abs__(self):
        return SQ(nps.abs_(self.v), self.unit)

    def __round__(self, n=0):
        return self.round(n or 0)

    # arithmetic
    def _addsub(self, o, f, rev=False):
        if isinstance(o, (str, dict, type(None), SUnit)):
            return NotImplemented
        if isinstance(o, SQ):
            if rev:
                return SQ(f(_conv(o.v, o.unit, o.unit), _conv(self.v, self.unit, o.unit)), o.unit)
            ov = o.v
            try:
                ov = _conv(o.v, o.unit, self.unit)
            except UnitConversionError:
                raise UnitConversionError(f"Can only apply 'add' function to quantities with compatible dimensions"
                                          f" ({self.unit}, {o.unit})") from None
            return SQ(f(self.v, ov), self.unit)
        x = o if isscalar(o) or isinstance(o, SArr) else _arr(o)
        if not self.unit.dims:
            a = _conv(self.v, self.unit, DIMLESS)
            return SQ(f(x, a) if rev else f(a, x), DIMLESS)
        if _zero_like_ok(x):
            return SQ(f(x, self.v) if rev else f(self.v, x), self.unit)
        raise UnitConversionError("Can only apply 'add' function to dimensionless quantities when other argument "
                                  "is not a quantity")

    def __add__(self, o):
        return self._addsub(o, nps.add)

    def __radd__(self, o):
        return self._addsub(o, nps.add, True)

    def __sub__(self, o):
        return self._addsub(o, nps.subtract)

    def __rsub__(self, o):
        return self._addsub(o, nps.subtract, True)

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        v = _conv(r.v, r.unit, self.unit)
        if isinstance(self.v, SArr):
            if not isinstance(v, SArr) or v.shape != self.v.shape:
                raise ValueError('non-broadcastable output operand')
            self.v.a[...] = v.a if self.v.tag != 'f4' else nps.ew(nps.f32, v).a
        else:
            if isinstance(v, SArr):
                raise ValueError('non-broadcastable output operand')
            self.v = v
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def _imul(self, r):
        if isinstance(r.v, SArr) and isinstance(self.v, SArr):
            self.v.a[...] = r.v.a
        else:
            self.v = r.v
        self._unit = r.unit
        return self

    def __imul__(self, o):
        return self._imul(self * o)

    def __itruediv__(self, o):
        return self._imul(self / o)

    def __mul__(self, o):
        if isinstance(o, str):
            o = SUnit(o)
        if isinstance(o, SUnit):
            return SQ(self.v.copy() if isinstance(self.v, SArr) else self.v, self.unit * o)
        if isinstance(o, SQ):
            return SQ(nps.multiply(self.v, o.v), self.unit * o.unit)
        if isinstance(o, (dict, type(None))):
            return NotImplemented
        return SQ(nps.multiply(self.v, o if isscalar(o) or isinstance(o, SArr) else _arr(o)), self.unit)

    def __rmul__(self, o):
        if isinstance(o, (dict, type(None))):
            return NotImplemented
        return SQ(nps.multiply(o if isscalar(o) or isinstance(o, SArr) else _arr(o), self.v), self.unit)

    def __truediv__(self, o):
        if isinstance(o, str):
            o = SUnit(o)
        if isinstance(o, SUnit):
            return SQ(self.v.copy() if isinstance(self.v, SArr) else self.v, self.unit / o)
        if isinstance(o, SQ):
            return SQ(nps.divide(self.v, o.v), self.unit / o.unit)
        if isinstance(o, (dict, type(None))):
            return NotImplemented
        return SQ(nps.divide(self.v, o if isscalar(o) or isinstance(o, SArr) else _arr(o)), self.unit)

    def __rtruediv__(self, o):
        return SQ(nps.divide(o if isscalar(o) or isinstance(o, SArr) else _arr(o), self.v), DIMLESS / self.unit)

    def __pow__(self, o):
        if isinstance(o, SQ):
            o = o.as_float()
        if isinstance(o, F):
            pass
        if not isscalar(o):
            if not self.unit.dims:
                return SQ(nps.power(_conv(self.v, self.unit, DIMLESS), o), DIMLESS)
            raise UnitTypeError('Can only raise something to an array if the base is dimensionless')
        return SQ(nps.power(self.v, o), self.unit ** o)

    def __rpow__(self, o):
        if self.unit.dims:
            raise UnitTypeError('Can only raise something to a dimensionless quantity')
        return SQ(nps.power(o, _conv(self.v, self.unit, DIMLESS)), DIMLESS)

    def __mod__(self, o):
        if isinstance(o, SQ):
            return SQ(nps.mod(self.v, _conv(o.v, o.unit, self.unit)), self.unit)
        return SQ(nps.mod(self.as_float() if self.isscalar else _conv(self.v, self.unit, DIMLESS), o), DIMLESS)

    def __floordiv__(self, o):
        if isinstance(o, SQ):
            return SQ(nps.floor_divide(self.v, _conv(o.v, o.unit, self.unit)), DIMLESS)
        return SQ(nps.floor_divide(_conv(self.v, self.unit, DIMLESS), o), DIMLESS)

    def _cmp(self, o, f):
        if isinstance(o, SQ):
            ov = _conv(o.v, o.unit, self.unit)
        elif isinstance(o, (str, dict, type(None))):
            return NotImplemented
        else:
            x = o if isscalar(o) or isinstance(o, SArr) else _arr(o)
            if not self.unit.dims:
                return f(_conv(self.v, self.unit, DIMLESS), x)
            if not _zero_like_ok(x):
                raise UnitConversionError("Can only apply comparison to dimensionless quantities when other "
                                          "argument is not a quantity (unless the latter is all zero/infinity/nan).")
            ov = x
        return f(self.v, ov)

    def __lt__(self, o):
        return self._cmp(o, nps.less)

    def __le__(self, o):
        return self._cmp(o, nps.less_equal)

    def __gt__(self, o):
        return self._cmp(o, nps.greater)

    def __ge__(self, o):
        return self._cmp(o, nps.greater_equal)

    def __eq__(self, o):
        try:
            return self._cmp(o, nps.equal)
        except UnitsError:
            return False

    def __ne__(self, o):
        try:
            return self._cmp(o, nps.not_equal)
        except UnitsError:
            return True

    def __format__(self, spec):
        if not isinstance(self.v, SArr):
            return fjoin([fmt_part(self.v, spec), ' ' + str(self.unit) if self.unit.parts else ''])
        return repr(self)

    def __str__(self):
        return self.__format__('')

    def __repr__(self):
        return f'SQ({self.v!r} {self.unit})'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n not in QNAMES:
            raise AttributeError(f"'Quantity' object has no '{n}' member")
        raise EngineUnsupported(f'Quantity.{n}')


QNAMES = set(dir(np.ndarray)) | {'si', 'cgs', 'decompose', 'unit', 'value', 'to', 'to_value', 'to_string', 'info', 'insert', 'equivalencies',
                                 'isscalar', 'diff', 'ediff1d'}
SQ.__name__ = 'Quantity'
_setup()
DIMLESS = SUnit({})


# ------------------------------------------------------------ text of values
class Tok:
    """text of a symbolic number under a format spec"""
    __slots__ = ('p', 'spec', 'dec')

    def __init__(self, p, spec):
        self.p = p
        self.spec = spec
        m = re.fullmatch(r'\.?(\d*)f', spec)
        if spec in ('', 's'):
            self.dec = None
        elif m:
            self.dec = int(m.group(1) or 6)
        elif spec == 'd':
            self.dec = 0
        else:
            self.dec = 'x'

    def key(self):
        """value that decides the text"""
        if self.dec is None:
            return self.p
        if self.dec == 'x':
            raise EngineUnsupported(f'comparison of text formatted with {self.spec!r}')
        return tm.rint_poly(pscale(self.p, F(10) ** self.dec))

    def value(self):
        k = self.key()
        return SF(k if self.dec is None else pscale(k, F(1, 10 ** self.dec)))

    def text(self):
        return f'\ue000{self.spec}|{self.p}\ue001'

    def eq(self, o):
        if self.spec != o.spec:
            raise EngineUnsupported('comparison of differently formatted numbers')
        if self.p == o.p:
            return True
        return bool(tobool(s_cmp(SF(self.key()), SF(o.key()), '==')))


class SText(str):
    """string with symbolic numbers in it: equality forks on the numbers"""
    def __new__(cls, parts):
        s = str.__new__(cls, ''.join(p if isinstance(p, str) else p.text() for p in parts))
        s.parts = tuple(parts)
        return s

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if isinstance(o, SText):
            a, b = self.parts, o.parts
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if isinstance(x, str) != isinstance(y, str):
                    return False
                if isinstance(x, str):
                    if x != y:
                        return False
                elif not x.eq(y):
                    return False
            return True
        if isinstance(o, str):
            rx = ''.join(re.escape(p) if isinstance(p, str) else r'(-?\d+(?:\.\d+)?)' for p in self.parts)
            m = re.fullmatch(rx, o)
            if not m:
                return False
            toks = [p for p in self.parts if not isinstance(p, str)]
            for t, g in zip(toks, m.groups()):
                k = F(g) * (10 ** t.dec if isinstance(t.dec, int) else 1)
                if not bool(tobool(s_cmp(SF(t.key()), k, '=='))):
                    return False
            return True
        return False

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return fjoin([self, o])

    def __radd__(self, o):
        return fjoin([o, self])

    def __format__(self, spec):
        return self

    def __str__(self):
        return self

    def split(self, sep=None, maxsplit=-1):
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                bits = re.split(r'\s+' if sep is None else re.escape(sep), p)
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            else:
                out[-1].append(p)
        r = [fjoin(x) for x in out]
        return [x for x in r if len(x)] if sep is None else r

    def strip(self, *a):
        p = list(self.parts)
        if isinstance(p[0], str):
            p[0] = p[0].lstrip(*a)
        if isinstance(p[-1], str):
            p[-1] = p[-1].rstrip(*a)
        return fjoin(p)

    def replace(self, a, b, *k):
        return fjoin([p.replace(a, b) if isinstance(p, str) else p for p in self.parts])

    def number(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Tok):
            return self.parts[0].value()
        raise ValueError(f'could not convert string to float: {str.__str__(self)!r}')


def fjoin(parts):
    out = []
    for p in parts:
        sub = p.parts if isinstance(p, SText) else [p]
        for q in sub:
            if isinstance(q, str) and not q:
                continue
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + str.__str__(q)
            else:
                out.append(q)
    if all(isinstance(q, str) for q in out):
        return ''.join(out)
    return SText(out)


def fmt_part(x, spec):
    if isinstance(x, SF):
        c = x.p.const_value()
        if c is not None:
            return format(float(c), spec)
        if x.p.is_constant():
            return format(float(tm.mp_poly(x.p)), spec)
        return SText([Tok(x.p, spec)])
    if isinstance(x, SB):
        return str(bool(x))
    return format(x, spec)


def format_scalar(x, spec):
    return fmt_part(x, spec)


def fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, c, spec = p
        if c == 'r' or c == 'a':
            out.append(repr(v))
        elif isinstance(v, (SF, SB)):
            out.append(fmt_part(v, spec))
        else:
            out.append(format(v, spec))
    return fjoin(out)


def parse_quantity(s):
    if isinstance(s, SText):
        toks = [p for p in s.parts]
        if isinstance(toks[0], Tok) and len(toks) <= 2:
            return SQ(toks[0].value(), parse_unit(toks[1]) if len(toks) == 2 else DIMLESS)
        raise TypeError(f'Cannot parse "{str.__str__(s)}" as a Quantity.')
    m = re.match(r'\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[+-]?inf|nan)\s*(.*)$', s)
    if not m:
        raise TypeError(f'Cannot parse "{s}" as a Quantity. It does not start with a number.')
    t = m.group(1)
    v = mk(F(t)) if t[-1].isdigit() or t[-1] == '.' else float(t)
    return SQ(v, parse_unit(m.group(2)))


def label_value(s):
    """numeric value of a temperature label such as '3000.00 K' """
    return parse_quantity(s)


# ------------------------------------------------------- numpy on quantities
def handler(*names):
    def deco(f):
        for n in names:
            QDISPATCH[n] = f
        return f
    return deco


def _wrap_same(name):
    """function preserving the unit of its first argument"""
    g = getattr(nps, name)

    def h(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = _qlist(x)
        if not isinstance(x, SQ):
            raise EngineUnsupported(f'np.{name} with a Quantity in a later argument')
        return SQ(g(x.v, *a, **k), x.unit)
    return h


for _n, _g in dict(sum='sum_', nansum='nansum', mean='mean', nanmean='nanmean', min='min_', max='max_', nanmin='nanmin',
                   nanmax='nanmax', cumsum='cumsum', diff='diff', sort='sort', ravel='ravel', reshape='reshape',
                   transpose='transpose', squeeze='squeeze', expand_dims='expand_dims', repeat='repeat',
                   tile='tile', flip='flip', roll='roll', absolute='abs_', negative='negative',
                   positive='positive', round='round_', median='median', zeros_like='zeros_like',
                   ones_like='ones_like', atleast_1d='atleast_1d', atleast_2d='atleast_2d').items():
    QDISPATCH[_n] = _wrap_same(_g)


@handler('percentile')
def _(x, q, *a, **k):
    if isinstance(q, SQ):
        q = _conv(q.v, q.unit, DIMLESS)
    r = nps.percentile(x.v if isinstance(x, SQ) else x, q, *a, **k)
    return SQ(r, x.unit) if isinstance(x, SQ) else r


@handler('quantile')
def _(x, q, *a, **k):
    if isinstance(q, SQ):
        q = _conv(q.v, q.unit, DIMLESS)
    r = nps.quantile(x.v if isinstance(x, SQ) else x, q, *a, **k)
    return SQ(r, x.unit) if isinstance(x, SQ) else r


def _angle(name, sf):
    def h(x, **k):
        try:
            v = _conv(x.v, x.unit, RAD)
        except UnitConversionError:
            raise UnitTypeError(f"Can only apply '{name}' function to quantities with angle units") from None
        return SQ(nps.ew(sf, v), DIMLESS)
    QDISPATCH[name] = h


RAD = _unit('rad')
for _n, _f in dict(sin=num.s_sin, cos=num.s_cos, tan=num.s_tan).items():
    _angle(_n, _f)


def _dimless(x, name):
    if not isinstance(x, SQ):
        return x
    try:
        return _conv(x.v, x.unit, DIMLESS)
    except UnitConversionError:
        raise UnitTypeError(f"Can only apply '{name}' function to dimensionless quantities") from None


def _inv(name, sf):
    QDISPATCH[name] = lambda x, **k: SQ(nps.ew(sf, _dimless(x, name)), RAD)


for _n, _f in dict(arcsin=num.s_asin, arccos=num.s_acos, arctan=num.s_atan).items():
    _inv(_n, _f)


def _dd(name):
    g = getattr(nps, name)
    QDISPATCH[name] = lambda x, **k: SQ(g(_dimless(x, name)), DIMLESS)


for _n in ('exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'exp2', 'floor', 'ceil', 'rint', 'trunc', 'sinh', 'cosh',
           'tanh'):
    _dd(_n)


@handler('arctan2')
def _(y, x):
    if isinstance(y, SQ) and isinstance(x, SQ):
        return SQ(nps.arctan2(y.v, _conv(x.v, x.unit, y.unit)), RAD)
    return SQ(nps.arctan2(_dimless(y, 'arctan2'), _dimless(x, 'arctan2')), RAD)


@handler('hypot')
def _(x, y):
    return SQ(nps.hypot(x.v, _own(y, x.unit)), x.unit)


@handler('sqrt')
def _(x, **k):
    return SQ(nps.sqrt(x.v), x.unit ** F(1, 2))


@handler('cbrt')
def _(x):
    return SQ(nps.cbrt(x.v), x.unit ** F(1, 3))


@handler('square')
def _(x, **k):
    return x * x


@handler('reciprocal')
def _(x):
    return 1 / x


@handler('deg2rad')
def _(x):
    return x.to(RAD)


@handler('rad2deg')
def _(x):
    return x.to(_unit('deg'))


@handler('sign')
def _(x):
    return nps.sign(x.v)


for _n in ('isnan', 'isfinite', 'isinf'):
    QDISPATCH[_n] = (lambda g: lambda x: g(x.v))(getattr(nps, _n))

import operator as _op
for _n, _f in dict(add=_op.add, subtract=_op.sub, multiply=_op.mul, divide=_op.truediv, power=_op.pow, mod=_op.mod,
                   floor_divide=_op.floordiv, less=_op.lt, less_equal=_op.le, greater=_op.gt, greater_equal=_op.ge,
                   equal=_op.eq, not_equal=_op.ne).items():
    QDISPATCH[_n] = (lambda f: lambda x, y, **k: f(x, y))(_f)


def _two(name):
    g = getattr(nps, name)

    def h(x, y, **k):
        unit = x.unit if isinstance(x, SQ) else y.unit
        return SQ(g(_own(x, unit), _own(y, unit)), unit)
    QDISPATCH[name] = h


_two('maximum')
_two('minimum')


@handler('logical_and', 'logical_or', 'logical_not', 'any', 'all')
def _(*a, **k):
    raise TypeError('logical function is not supported on Quantities')


@handler('where')
def _(c, *xy):
    if not xy:
        if isinstance(c, SQ):
            return nps.nonzero(c.v)
    x, y = xy
    if isinstance(c, SQ):
        raise EngineUnsupported('where with a Quantity condition')
    unit = x.unit if isinstance(x, SQ) else y.unit
    return SQ(nps.where_(c, _own(x, unit), _own(y, unit)), unit)


@handler('select')
def _(conds, choices, default=0):
    unit = next(x.unit for x in choices if isinstance(x, SQ))
    return SQ(nps.select(conds, [_own(x, unit) for x in choices], _own(default, unit)), unit)


def _clip(x, a_min=None, a_max=None, min=None, max=None, **k):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    unit = x.unit if isinstance(x, SQ) else (a_min.unit if isinstance(a_min, SQ) else a_max.unit)
    f = lambda z: None if z is None else _own(z, unit)
    return SQ(nps.clip(_own(x, unit), f(a_min), f(a_max)), unit)


QDISPATCH['clip'] = _clip


@handler('concatenate')
def _(xs, axis=0, **k):
    unit = next(x.unit for x in xs if isinstance(x, SQ))
    return SQ(nps.concatenate([_own(x, unit) for x in xs], axis), unit)


@handler('stack')
def _(xs, axis=0):
    unit = next(x.unit for x in xs if isinstance(x, SQ))
    return SQ(nps.stack([_own(x, unit) for x in xs], axis), unit)


@handler('append')
def _(x, y, axis=None):
    unit = x.unit if isinstance(x, SQ) else y.unit
    return SQ(nps.append(_own(x, unit), _own(y, unit), axis), unit)


@handler('unique')
def _(x, **k):
    r = nps.unique(x.v, **k)
    if isinstance(r, tuple):
        return (SQ(r[0], x.unit),) + r[1:]
    return SQ(r, x.unit)


for _n in ('argsort', 'argmax', 'argmin', 'argwhere'):
    QDISPATCH[_n] = (lambda g: lambda x, *a, **k: g(x.v, *a, **k))(getattr(nps, _n))


@handler('asarray', 'array')
def _(x, dtype=None, **k):
    if isinstance(x, SQ):
        if k.get('subok'):
            return x.copy()
        return nps.array(x.v, dtype)
    vals = []
    for v in x:
        if isinstance(v, SQ):
            vals.append(v.as_float() if v.isscalar else v.v)
        else:
            vals.append(v)
    return nps.asarray(vals, dtype)


@handler('linspace')
def _(a, b, *r, **k):
    unit = b.unit if isinstance(b, SQ) else a.unit
    unit = a.unit if isinstance(a, SQ) else unit
    return SQ(nps.linspace(_own(a, unit), _own(b, unit), *r, **k), unit)


@handler('meshgrid')
def _(*xs, **k):
    r = nps.meshgrid(*[x.v if isinstance(x, SQ) else x for x in xs], **k)
    return [SQ(v, x.unit) if isinstance(x, SQ) else v for v, x in zip(r, xs)]


@handler('full')
def _(shape, v, dtype=None):
    return SQ(nps.full(shape, v.v, dtype), v.unit)


@handler('full_like')
def _(x, v, dtype=None):
    if isinstance(x, SQ):
        return SQ(nps.full_like(x.v, _own(v, x.unit), dtype), x.unit)
    return SQ(nps.full_like(x, v.v, dtype), v.unit)


@handler('trapz')
def _(y, x=None, dx=1.0, axis=-1):
    if x is None:
        d = dx.v if isinstance(dx, SQ) else dx
        du = dx.unit if isinstance(dx, SQ) else DIMLESS
        r = nps.trapz(y.v if isinstance(y, SQ) else y, None, d, axis)
        return SQ(r, (y.unit if isinstance(y, SQ) else DIMLESS) * du)
    r = nps.trapz(y.v if isinstance(y, SQ) else y, x.v if isinstance(x, SQ) else x, dx, axis)
    return SQ(r, (y.unit if isinstance(y, SQ) else DIMLESS) * (x.unit if isinstance(x, SQ) else DIMLESS))


@handler('interp')
def _(x, xp, fp, left=None, right=None):
    if isinstance(xp, SQ):
        x, xp = _own(x, xp.unit), xp.v
    r = nps.interp(x, xp, fp.v if isinstance(fp, SQ) else fp, left, right)
    return SQ(r, fp.unit) if isinstance(fp, SQ) else r


@handler('isclose')
def _(a, b, rtol=1e-5, atol=None, equal_nan=False):
    unit = a.unit if isinstance(a, SQ) else b.unit
    at = 0 if atol is None else _own(atol, unit)
    return nps.isclose(_own(a, unit), _own(b, unit), rtol, at, equal_nan)


@handler('array_equal')
def _(a, b, **k):
    unit = a.unit if isinstance(a, SQ) else b.unit
    try:
        return nps.array_equal(_own(a, unit), _own(b, unit))
    except UnitsError:
        return False


@handler('nan_to_num')
def _(x, copy=True, nan=0.0, **k):
    return SQ(nps.nan_to_num(x.v, copy, nan), x.unit)


@handler('outer')
def _(a, b):
    return SQ(nps.outer(a.v if isinstance(a, SQ) else a, b.v if isinstance(b, SQ) else b),
              (a.unit if isinstance(a, SQ) else DIMLESS) * (b.unit if isinstance(b, SQ) else DIMLESS))


@handler('average')
def _(x, axis=None, weights=None):
    if weights is None:
        return x.mean()
    w = weights.v if isinstance(weights, SQ) else weights
    r = nps.average(x.v if isinstance(x, SQ) else x, axis, w)
    return SQ(r, x.unit) if isinstance(x, SQ) else r


@handler('prod')
def _(x, axis=None, **k):
    if isinstance(x, SQ) and not x.unit.dims:
        return SQ(nps.prod(_conv(x.v, x.unit, DIMLESS), axis), DIMLESS)
    raise UnitTypeError('prod on quantities with units')


@handler('searchsorted')
def _(a, v, side='left', **k):
    if isinstance(a, SQ):
        return nps.searchsorted(a.v, _own(v, a.unit), side)
    return nps.searchsorted(a, _dimless(v, 'searchsorted'), side)


@handler('bincount')
def _(x, weights=None, minlength=0):
    r = nps.bincount(x, weights.v, minlength)
    return SQ(r, weights.unit)


# ------------------------------------------------------------------ modules
def quantity_input(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class UnitsModule(types.ModuleType):
    def __init__(self):
        super().__init__('astropy.units')
        self.Quantity = SQ
        self.Unit = SUnit
        self.UnitBase = SUnit
        self.CompositeUnit = SUnit
        self.IrreducibleUnit = SUnit
        self.def_unit = def_unit
        self.dimensionless_unscaled = DIMLESS
        self.one = DIMLESS
        self.UnitsError = UnitsError
        self.UnitConversionError = UnitConversionError
        self.UnitTypeError = UnitTypeError
        self.UnitsWarning = UnitsWarning
        self.quantity_input = quantity_input
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in REG or n in ALIAS:
            return _unit(n)
        raise EngineUnsupported(f'astropy.units.{n}')


class ConstModule(types.ModuleType):
    def __init__(self):
        super().__init__('astropy.constants')
        U = parse_unit
        self.sigma_sb = SQ(mk(F('5.6703744191844314e-08')), U('W') / (U('K') ** 4 * U('m') ** 2))
        self.R_sun = SQ(mk(695700000), U('m'))
        self.R_earth = SQ(mk(6378100), U('m'))
        self.R_jup = SQ(mk(71492000), U('m'))
        self.au = SQ(mk(149597870700), U('m'))
        self.c = SQ(mk(299792458), U('m') / U('s'))
        self.k_B = SQ(mk(F('1.380649e-23')), U('J') / U('K'))
        self.h = SQ(mk(F('6.62607015e-34')), U('J') * U('s'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise EngineUnsupported(f'astropy.constants.{n}')
