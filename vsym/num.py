"""Symbolic scalars with numpy float semantics (over the reals, plus inf and nan)."""
import math
import numbers
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from .terms import (T, Poly, ZERO, ONE, const, padd, psub, pneg, pmul, pscale, EngineUnsupported,
                    INF, NAN)
from .ctx import CTX, SB, cmp0, band, bor, bnot, tobool

_NUMS = (int, float, F, np.integer, np.floating, bool, np.bool_)


def isscalar(x):
    return isinstance(x, (SF, SB) + _NUMS)


def lift(x):
    """Poly, or a python float when not finite"""
    if isinstance(x, SF):
        return x.p
    if isinstance(x, SB):
        return const(1 if bool(x) else 0)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            return x
        return const(x)
    if isinstance(x, _NUMS):
        return const(x)
    raise TypeError(f'unsupported operand: {type(x).__name__}')


def sign_of(p):
    """-1, 0, 1 (forks)"""
    if CTX.cur is None:
        return tm.const_sign(p)
    if _dec(cmp0(p, '==')):
        return 0
    return -1 if _dec(cmp0(p, '<')) else 1


def _dec(b):
    if b is True or b is False:
        return b
    return CTX.cur.decide(b)


def s_add(x, y):
    a, b = lift(x), lift(y)
    if isinstance(a, float) or isinstance(b, float):
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        return fa + fb
    return SF(padd(a, b))


def s_neg(x):
    a = lift(x)
    return -a if isinstance(a, float) else SF(pneg(a))


def s_sub(x, y):
    return s_add(x, s_neg(y))


def s_mul(x, y):
    a, b = lift(x), lift(y)
    if isinstance(a, float) or isinstance(b, float):
        fa = a if isinstance(a, float) else float(sign_of(a))
        fb = b if isinstance(b, float) else float(sign_of(b))
        return fa * fb
    return SF(pmul(a, b))


def nonzero_sign(p):
    """p is nonzero on this path; learn its sign if it is determined. Returns +1, -1 or 0."""
    if tm.quick_pos(p):
        return 1
    if tm.quick_pos(pneg(p)):
        return -1
    c = CTX.cur
    if c is None or p.is_constant():
        return tm.const_sign(p)
    lt = cmp0(p, '<')
    if lt is True:
        return -1
    if lt is False:
        return 1
    if lt in c.known:
        return -1 if c.known[lt] else 1
    t, f = lt.ev3(c.chunk)
    anyneg = bool((t & c.alive).any())
    anypos = bool((f & c.alive).any())
    if anyneg and anypos:
        return 0
    if not anyneg and c.feasible(lt) == 'unsat':
        return 1
    if not anypos and c.feasible(cmp0(pneg(p), '<')) == 'unsat':
        return -1
    return 0


def s_div(x, y):
    a, b = lift(x), lift(y)
    if isinstance(b, float):
        if isinstance(a, float) or b != b:
            return NAN
        return 0.0
    if not b.t:
        z = True
    else:
        z = _dec(cmp0(b, '=='))
    if z:
        if isinstance(a, float):
            return a
        return (NAN, INF, -INF)[sign_of(a)]
    if isinstance(a, float):
        return a * sign_of(b)
    if len(b.t) > 1 and not b.is_constant():
        sg = nonzero_sign(b)
        if sg:
            bb = b if sg > 0 else pneg(b)
            c, cm, rest = tm.content(bb)
            # bb = c*cm*rest > 0
            if c < 0:
                c, rest = -c, pneg(rest)
            inv = const(1 / c)
            cmsign = all(tm.asign(T.atoms[q]) == 'pos' or
                         (isinstance(e, int) and e % 2 == 0) for q, e in cm)
            if cm:
                inv = pmul(inv, tm.mono_pow(cm, -1))
            at = tm.poly_atom(rest)
            if cmsign:
                T.pathsign[at.id] = 'pos'
            inv = pmul(inv, tm.of_atom(at, -1))
            if sg < 0:
                inv = pneg(inv)
            return SF(pmul(a, inv))
    return SF(pmul(a, tm.pinv(b)))


def need_nonneg(p):
    """True if p >= 0 on this path (forks if both possible)"""
    if tm.quick_nonneg(p):
        return True
    b = cmp0(pneg(p), '<=')
    return _dec(b)


def s_pow(x, y):
    a, b = lift(x), lift(y)
    if isinstance(b, float):
        raise EngineUnsupported('power with non-finite exponent')
    e = b.const_value()
    if isinstance(a, float):
        if e is not None:
            if a != a:
                return 1.0 if e == 0 else a
            return float(a) ** float(e)
        s = sign_of(b)
        if a == INF:
            return (1.0, INF, 0.0)[s]
        raise EngineUnsupported('(-inf)**x')
    if e is not None:
        if e.denominator == 1:
            n = int(e)
            if abs(n) > 400:
                raise EngineUnsupported('large power')
            if n >= 0:
                return SF(tm.ppow_int(a, n))
            return s_div(1, SF(tm.ppow_int(a, -n)))
        if not need_nonneg(a):
            return NAN
        if e < 0 and _dec(cmp0(a, '==')):
            return INF
        return SF(_root(a, e))
    # symbolic exponent
    if not a.t:
        s = sign_of(b)
        return (1.0, 0.0, INF)[s]
    if not tm.quick_pos(a):
        if _dec(cmp0(a, '==')):
            s = sign_of(b)
            return (1.0, 0.0, INF)[s]
        if _dec(cmp0(a, '<')):
            return NAN
    return SF(tm.exp_poly(pmul(b, tm.log_poly(a))))


def _root(a, e):
    # |monomial|: atoms of unknown sign with even powers
    s = a.single()
    if s is not None:
        m, c = s
        for at, x in m:
            if tm.asign(T.atoms[at]) is None and isinstance(x, int) and x % 2 == 0:
                # x^2e = |x|^(2e): fork on the sign
                if _dec(cmp0(tm.of_atom(T.atoms[at]), '<')):
                    # replace atom by -atom : write as (-a)
                    neg = pneg(tm.of_atom(T.atoms[at]))
                    rest = Poly({tuple(q for q in m if q[0] != at): c})
                    pw = F(x) * e
                    if pw.denominator == 1:
                        return pmul(tm.ppow_int(neg, int(pw)), _root(rest, e))
                else:
                    if T.pathsign.get(at) is None:
                        T.pathsign[at] = 'nonneg'
    return tm.sqrt_like(a, e)


def s_sqrt(x):
    a = lift(x)
    if isinstance(a, float):
        return NAN if not a > 0 else a
    if not need_nonneg(a):
        return NAN
    if len(a.t) > 1 and not a.is_constant():
        c, cm, rest = tm.content(a)
        at = tm.poly_atom(rest if c > 0 else pneg(rest))
        if tm.asign(at) is None and all(tm.asign(T.atoms[q]) == 'pos' for q, e in cm):
            T.pathsign[at.id] = 'nonneg'
    return SF(_root(a, F(1, 2)))


def s_exp(x):
    a = lift(x)
    if isinstance(a, float):
        return math.exp(a) if a == a else a
    return SF(tm.exp_poly(a))


def s_log(x):
    a = lift(x)
    if isinstance(a, float):
        return a if a != a else (INF if a > 0 else NAN)
    if not a.t or (not tm.quick_pos(a) and _dec(cmp0(a, '=='))):
        return -INF
    if not tm.quick_pos(a) and _dec(cmp0(a, '<')):
        return NAN
    if len(a.t) > 1 and not a.is_constant():
        c, cm, rest = tm.content(a)
        if c < 0:
            rest = pneg(rest)
        if all(tm.asign(T.atoms[q]) == 'pos' for q, e in cm):
            T.pathsign[tm.poly_atom(rest).id] = 'pos'
    elif a.single() is not None and len(a.single()[0]) == 1 and a.single()[1] > 0:
        T.pathsign[a.single()[0][0][0]] = 'pos'
    return SF(tm.log_poly(a))


def s_sin(x):
    a = lift(x)
    return NAN if isinstance(a, float) else SF(tm.sincos(a)[0])


def s_cos(x):
    a = lift(x)
    return NAN if isinstance(a, float) else SF(tm.sincos(a)[1])


def s_tan(x):
    a = lift(x)
    if isinstance(a, float):
        return NAN
    s, c = tm.sincos(a)
    return s_div(SF(s), SF(c))


def _in_unit(a):
    """-1<=a<=1 on this path; forks"""
    if a.is_constant():
        return tm.const_sign(psub(a, ONE)) <= 0 and tm.const_sign(padd(a, ONE)) >= 0
    lo = cmp0(pneg(padd(a, ONE)), '<=')
    hi = cmp0(psub(a, ONE), '<=')
    return _dec(hi) and _dec(lo)


def s_acos(x):
    a = lift(x)
    if isinstance(a, float) or not _in_unit(a):
        return NAN
    CTX.cur and CTX.cur.hazard(a)
    return SF(tm.acos_poly(a))


def s_asin(x):
    a = lift(x)
    if isinstance(a, float) or not _in_unit(a):
        return NAN
    CTX.cur and CTX.cur.hazard(a)
    return SF(tm.asin_poly(a))


def s_atan(x):
    a = lift(x)
    if isinstance(a, float):
        return a if a != a else SF(pscale(tm.PI(), F(1 if a > 0 else -1, 2)))
    return SF(tm.atan_poly(a))


def s_atan2(y, x):
    b, a = lift(y), lift(x)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    if a.is_constant() and b.is_constant():
        sa, sb = tm.const_sign(a), tm.const_sign(b)
        if sa == 0 and sb == 0:
            return SF(ZERO)
    return SF(tm.atan2_poly(b, a))


def s_floor(x):
    a = lift(x)
    return a if isinstance(a, float) else SF(tm.floor_poly(a))


def s_ceil(x):
    a = lift(x)
    return a if isinstance(a, float) else SF(pneg(tm.floor_poly(pneg(a))))


def s_rint(x):
    a = lift(x)
    return a if isinstance(a, float) else SF(tm.rint_poly(a))


def s_trunc(x):
    a = lift(x)
    if isinstance(a, float):
        return a
    if tm.quick_nonneg(a) or not _dec(cmp0(a, '<')):
        return SF(tm.floor_poly(a))
    return SF(pneg(tm.floor_poly(pneg(a))))


def s_round(x, n=0):
    if not n:
        return s_rint(x)
    k = F(10) ** n
    return s_div(s_rint(s_mul(x, k)), k)


def s_abs(x):
    a = lift(x)
    if isinstance(a, float):
        return abs(a)
    if tm.quick_nonneg(a):
        return SF(a)
    if tm.quick_nonneg(pneg(a)):
        return SF(pneg(a))
    return SF(pneg(a)) if _dec(cmp0(a, '<')) else SF(a)


def s_mod(x, y):
    a, b = lift(x), lift(y)
    if isinstance(a, float) or isinstance(b, float):
        return NAN
    q = s_floor(s_div(x, y))
    return s_sub(x, s_mul(q, y))


def s_floordiv(x, y):
    return s_floor(s_div(x, y))


def s_cmp(x, y, op):
    """op in < <= == != > >=  -> bool | SB (nan semantics)"""
    a, b = lift(x), lift(y)
    if isinstance(a, float) or isinstance(b, float):
        if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
            return op == '!='
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        return {'<': fa < fb, '<=': fa <= fb, '==': fa == fb, '!=': fa != fb, '>': fa > fb,
                '>=': fa >= fb}[op]
    if op in ('<', '<=', '=='):
        return cmp0(psub(a, b), op)
    if op == '!=':
        return bnot(cmp0(psub(a, b), '=='))
    return cmp0(psub(b, a), {'>': '<', '>=': '<='}[op])


def s_max(x, y):
    if isnan(x) or isnan(y):
        return NAN
    return x if _dec(s_cmp(x, y, '>=')) else y


def s_min(x, y):
    if isnan(x) or isnan(y):
        return NAN
    return x if _dec(s_cmp(x, y, '<=')) else y


def isnan(x):
    if isinstance(x, (SF, SB)):
        return False
    return x != x


def isinf(x):
    if isinstance(x, (SF, SB)):
        return False
    return x in (INF, -INF)


def s_ite(c, x, y):
    """where(c, x, y) on scalars"""
    c = tobool(c)
    if c is True:
        return x
    if c is False:
        return y
    ctx = CTX.cur
    if c in ctx.known:
        return x if ctx.known[c] else y
    if not ctx.ite:
        return x if ctx.decide(c) else y
    a, b = lift(x), lift(y)
    if isinstance(a, float) or isinstance(b, float):
        return x if ctx.decide(c) else y
    if a == b:
        return SF(a)
    at = T.get('ite', (c, a, b), (a, b))
    at.info = c
    if tm.quick_pos(a) and tm.quick_pos(b):
        at.sign = 'pos'
    elif tm.quick_nonneg(a) and tm.quick_nonneg(b):
        at.sign = 'nonneg'
    return SF(tm.of_atom(at))


def whole(x):
    """is x a whole-number symbol (a declared size)?"""
    return bool(x.p.t) and not x.p.is_constant() and all(
        c.denominator == 1 and all(T.atoms[a].isint == 'soft' and isinstance(e, int) and e > 0 for a, e in m) for m, c in x.p.t.items())


def generic(n):
    """the generic index of an axis of symbolic length n, if one was declared"""
    if isinstance(n, SF) and CTX.cur is not None:
        return getattr(CTX.cur, 'generic', {}).get(n.p)
    return None


def to_int(x):
    """concretise to a python int by forking over the possible values"""
    if isinstance(x, SB):
        return int(bool(x))
    if not isinstance(x, SF):
        return int(x)
    c = x.p.const_value()
    if c is not None:
        return int(c)
    if x.p.is_constant():
        return int(tm.mp_poly(x.p))
    ctx = CTX.cur
    t = s_trunc(x)
    cand = []
    vals = ctx.chunk.poly(t.p)
    for j in np.nonzero(ctx.alive)[0]:
        if math.isfinite(vals[j]):
            v = int(round(vals[j]))
            if v not in cand:
                cand.append(v)
    cand = sorted(set(cand) | {0, 1, 2, 3})
    lim = getattr(ctx, 'int_limit', 8)
    lo = [v for v in cand if abs(v) <= lim]
    for v in lo:
        if _dec(s_cmp(t, v, '==')):
            return v
    if getattr(ctx, 'int_cut', True):
        ctx.cut('integer larger than the bound %d' % lim)
        from .ctx import PathEnd
        raise PathEnd()
    raise EngineUnsupported('unbounded integer')


class SF(numbers.Real):
    """symbolic float"""
    __slots__ = ('p',)
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    # numbers.Real abstract methods
    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, n=None):
        return s_rint(self) if n is None else s_round(self, n)

    def __float__(self):
        c = self.p.const_value()
        if c is not None:
            return float(c)
        if self.p.is_constant():
            return float(tm.mp_poly(self.p))
        raise EngineUnsupported('float() of a symbolic value')

    def __int__(self):
        return to_int(self)

    def __index__(self):
        return to_int(self)

    def __bool__(self):
        return bool(_dec(bnot(cmp0(self.p, '=='))))

    def __hash__(self):
        return 7

    def __abs__(self):
        return s_abs(self)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    # numpy scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(float)

    def item(self):
        return self

    def astype(self, dtype):
        from . import npshim
        return npshim.cast_scalar(self, dtype)

    def copy(self):
        return self

    @property
    def T(self):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def is_integer(self):
        return s_cmp(self, s_floor(self), '==')

    def clip(self, lo=None, hi=None):
        from . import npshim
        return npshim.clip(self, lo, hi)

    def __format__(self, spec):
        from . import units
        return units.format_scalar(self, spec)

    def __repr__(self):
        return f'SF({self.p})'

    __str__ = __repr__

    def __getitem__(self, k):
        if k is None or k is Ellipsis or k == () or (isinstance(k, tuple) and all(i is None or i is Ellipsis for i in k)):
            from . import npshim
            if k is Ellipsis or k == ():
                return self
            return npshim.asarray(self)[k]
        raise IndexError('invalid index to scalar variable.')

    def __divmod__(self, o):
        return s_floordiv(self, o), s_mod(self, o)

    def __rdivmod__(self, o):
        return s_floordiv(o, self), s_mod(o, self)


def _bin(f):
    def op(self, o):
        if not isscalar(o):
            return NotImplemented
        return f(self, o)

    def rop(self, o):
        if not isscalar(o):
            return NotImplemented
        return f(o, self)
    return op, rop


for _n, _f in dict(add=s_add, sub=s_sub, mul=s_mul, truediv=s_div, pow=s_pow, mod=s_mod,
                   floordiv=s_floordiv).items():
    _a, _b = _bin(_f)
    setattr(SF, f'__{_n}__', _a)
    setattr(SF, f'__r{_n}__', _b)


def _mkcmp(op):
    def f(self, o):
        if not isscalar(o):
            if op == '==' and not hasattr(o, '__array_priority__'):
                return False
            if op == '!=' and not hasattr(o, '__array_priority__'):
                return True
            return NotImplemented
        return s_cmp(self, o, op)
    return f


for _n, _o in dict(lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
    setattr(SF, f'__{_n}__', _mkcmp(_o))
SF.__abstractmethods__ = frozenset()


def mk(x):
    """scalar -> SF (constants become exact)"""
    p = lift(x)
    return p if isinstance(p, float) else SF(p)


PI = None


def pi():
    return SF(tm.PI())
