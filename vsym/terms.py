"""
Terms: real-valued expressions in a normal form.

A Poly is a finite sum of monomials  c * a1^e1 * a2^e2 ...  with exact rational
coefficients; the a_i are Atoms (input variables, pi, sin/cos of base angles,
exp, log, acos, non-polynomial powers of sums, floor, ...) and the exponents are
rationals.  All rewriting used here is exact over the reals:

  sin^2 -> 1-cos^2, angle sums expand, half-angle squares reduce,
  exp(sum) -> product, exp(log x) -> x, log(product of positives) -> sum,
  sqrt(p)^2 -> p, sin(acos p) -> sqrt(1-p^2), ...

The same object can be evaluated numerically on a vector of sample inputs, which
is how candidate models are concretised and the encoding is validated.
"""
from fractions import Fraction as F
import math
import numpy as np
import mpmath

mpmath.mp.dps = 40

INF = float('inf')
NAN = float('nan')


class EngineUnsupported(BaseException):
    """The source under test used something the encoder does not model."""


def norm_exp(e):
    if isinstance(e, F) and e.denominator == 1:
        return e.numerator
    return e


def tofrac(x):
    if isinstance(x, F):
        return x
    if isinstance(x, (bool, np.bool_)):
        return F(int(x))
    if isinstance(x, (int, np.integer)):
        return F(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == int(x) if abs(x) < 1e300 else False:
            return F(int(x))
        r = repr(x)
        f = F(r)
        if len(r) >= 16:
            # a quotient computed in floating point: recover the small fraction it stands for
            g = F(x).limit_denominator(20000)
            if float(g) == x:
                return g
        return f
    raise TypeError(f'not a number: {type(x)}')


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'key', 'args', 'sign', 'const', 'name', 'info', 'lo', 'hi',
                 'isint', '__weakref__')

    def __init__(self, id, kind, key, args, sign=None, const=False, name=None):
        self.id = id
        self.kind = kind
        self.key = key
        self.args = args
        self.sign = sign      # 'pos' | 'nonneg' | None  (facts true on every path)
        self.const = const    # no free variables
        self.name = name
        self.info = None
        self.lo = None
        self.hi = None
        self.isint = False

    def __repr__(self):
        return self.name or f'{self.kind}{self.id}'


class Table:
    """Interning table of atoms (one per process, cleared between harnesses)."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.pimul = {}
        self.atoms = []
        self.by_key = {}
        self.angle_base = {}
        self.pathsign = {}

    def get(self, kind, key, args=(), sign=None, const=False, name=None):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, key, args, sign, const, name)
            self.atoms.append(a)
            self.by_key[k] = a
        return a


T = Table()


def pi_atom():
    return T.get('pi', 'pi', sign='pos', const=True, name='pi')


def asign(a):
    """sign of an atom: global fact or fact of the current path."""
    s = a.sign
    if s == 'pos':
        return s
    p = T.pathsign.get(a.id)
    if p is not None:
        return p
    return s


# ------------------------------------------------------------------ polys
class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero(self):
        return not self.t

    def const_value(self):
        """Fraction if a plain rational, else None"""
        t = self.t
        if not t:
            return F(0)
        if len(t) == 1:
            c = t.get(())
            if c is not None:
                return c
        return None

    def is_constant(self):
        for m in self.t:
            for a, _ in m:
                if not T.atoms[a].const:
                    return False
        return True

    def single(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return m, c
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t.items():
            s = '*'.join((repr(T.atoms[a]) + ('' if e == 1 else f'^{e}')) for a, e in m)
            out.append(f'{c}' + ('*' + s if s else ''))
        return ' + '.join(out)


ZERO = Poly({})
ONE = Poly({(): F(1)})


def const(c):
    c = tofrac(c)
    return Poly({(): c}) if c else ZERO


def of_atom(a, e=1):
    return Poly({((a.id, e),): F(1)})


def PI():
    return of_atom(pi_atom())


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)


def pneg(p):
    return Poly({m: -c for m, c in p.t.items()})


def psub(p, q):
    return padd(p, pneg(q))


def pscale(p, c):
    if not c:
        return ZERO
    if c == 1:
        return p
    return Poly({m: v * c for m, v in p.t.items()})


REDUCIBLE = {'sin', 'sinhalf', 'coshalf', 'poly', 'cpow'}


def _needs_reduce(a, e):
    k = T.atoms[a].kind
    if k == 'sin' or k == 'sinhalf' or k == 'coshalf':
        return e >= 2
    if k == 'poly':
        return e >= 1
    if k == 'cpow':
        return e >= 1 or e < 0
    return False


def _mono_mul(m1, m2):
    """returns (mono, None) or (None, Poly)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    red = False
    for a, e in m2:
        v = d.get(a)
        if v is None:
            d[a] = e
        else:
            v = norm_exp(v + e)
            if v == 0:
                del d[a]
            else:
                d[a] = v
                if T.atoms[a].kind in REDUCIBLE and _needs_reduce(a, v):
                    red = True
    if not red:
        return tuple(sorted(d.items())), None
    return None, _reduce(d)


def _reduce(d):
    plain = {}
    factors = []
    coef = F(1)
    for a, e in d.items():
        at = T.atoms[a]
        k = at.kind
        if k in REDUCIBLE and _needs_reduce(a, e):
            if k == 'sin':
                n, r = divmod(e, 2) if isinstance(e, int) else (None, None)
                if n is None:
                    plain[a] = e
                    continue
                c = of_atom(at.info)
                factors.append(ppow_int(psub(ONE, pmul(c, c)), n))
                if r:
                    plain[a] = 1
            elif k in ('sinhalf', 'coshalf'):
                if not isinstance(e, int):
                    plain[a] = e
                    continue
                n, r = divmod(e, 2)
                factors.append(ppow_int(at.info, n))
                if r:
                    plain[a] = 1
            elif k == 'poly':
                n = math.floor(e)
                r = norm_exp(e - n)
                factors.append(ppow_int(at.args[0], n))
                if r:
                    plain[a] = r
            elif k == 'cpow':
                n = math.floor(e)
                r = norm_exp(e - n)
                coef *= at.info ** n
                if r:
                    plain[a] = r
        else:
            plain[a] = e
    p = Poly({tuple(sorted(plain.items())): coef})
    for f in factors:
        p = pmul(p, f)
    return p


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(q.t) == 1 and () in q.t:
        return pscale(p, q.t[()])
    if len(p.t) == 1 and () in p.t:
        return pscale(q, p.t[()])
    t = {}
    extra = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, r = _mono_mul(m1, m2)
            c = c1 * c2
            if r is None:
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v += c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
            else:
                r = pscale(r, c)
                extra = r if extra is None else padd(extra, r)
    if len(t) > 20000:
        raise EngineUnsupported('term too large')
    res = Poly(t)
    if extra is not None:
        res = padd(res, extra)
    return res


def ppow_int(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return pinv(ppow_int(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def mono_pow(m, e):
    """monomial to rational power -> Poly (all exponents scaled), reducing."""
    d = {a: norm_exp(x * e) for a, x in m}
    for a, x in d.items():
        if T.atoms[a].kind in REDUCIBLE and _needs_reduce(a, x):
            return _reduce(d)
    return Poly({tuple(sorted(d.items())): F(1)})


def content(p):
    """split p = c * m * rest with m the common monomial factor (min exponents)."""
    it = iter(p.t.items())
    m0, c0 = next(it)
    common = dict(m0)
    for m in p.t:
        if not common:
            break
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            if e == 0 or (e > 0) != (common[a] > 0):
                # treat exponent 0 as min if common>0; for negative keep the min
                if common[a] > 0:
                    if e <= 0:
                        common.pop(a)
                        if e < 0:
                            common[a] = e
                else:
                    common[a] = min(common[a], e)
            else:
                common[a] = min(common[a], e)
    # atoms with negative exponents in some but not first monomial
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in common.items() if e != 0}
    # rational content, sign from the leading monomial
    lead = max(p.t)
    nums = 0
    den = 1
    for c in p.t.values():
        nums = math.gcd(nums, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = F(nums, den)
    if p.t[lead] < 0:
        c = -c
    cm = tuple(sorted(common.items()))
    icm = tuple((a, norm_exp(-e)) for a, e in cm)
    rest = {}
    ok = True
    for m, v in p.t.items():
        mm, r = _mono_mul(m, icm)
        if r is not None:
            ok = False
            break
        rest[mm] = v / c
    if not ok or len(rest) != len(p.t):
        return c, (), Poly({m: v / c for m, v in p.t.items()})
    return c, cm, Poly(rest)


def poly_atom(p):
    """atom standing for the (primitive) polynomial p, used with exponents not in N."""
    a = T.by_key.get(('poly', p))
    if a is None:
        cst = p.is_constant()
        a = T.get('poly', p, (p,), const=cst, sign=('pos' if quick_pos(p) or (cst and const_sign(p) > 0) else None))
    return a


def pinv(p):
    """1/p (p known to be nonzero on this path)."""
    s = p.single()
    if s is not None:
        m, c = s
        return pscale(mono_pow(m, -1), 1 / c)
    if not p.t:
        raise ZeroDivisionError
    c, cm, rest = content(p)
    s = rest.single()
    if s is not None and s[0] == ():
        base = const(s[1])
        inv = const(1 / s[1])
    else:
        inv = of_atom(poly_atom(rest), -1)
        if p.is_constant() and not rest.atoms():
            inv = const(1 / rest.t[()])
    inv = pscale(inv, 1 / c)
    if cm:
        inv = pmul(inv, mono_pow(cm, -1))
    return inv


def quick_pos(p):
    """syntactically > 0"""
    if not p.t:
        return False
    strict = False
    for m, c in p.t.items():
        if c < 0:
            return False
        st = True
        for a, e in m:
            s = asign(T.atoms[a])
            if s == 'pos':
                continue
            if s == 'nonneg' and e > 0:
                st = False
                continue
            if isinstance(e, int) and e % 2 == 0:
                if e > 0:
                    st = False
                continue
            return False
        if st:
            strict = True
    return strict


def quick_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            s = asign(T.atoms[a])
            if s == 'pos':
                continue
            if s == 'nonneg' and e > 0:
                continue
            if isinstance(e, int) and e % 2 == 0:
                continue
            return False
    return True


# ------------------------------------------------------------ constants numeric
_mpcache = {}


def enclose(p):
    """rationals around a constant poly"""
    with mpmath.workdps(40):
        v = mp_poly(p)
        d = abs(v) * mpmath.mpf(10) ** -16 + mpmath.mpf(10) ** -30
        return F(str(mpmath.nstr(v - d, 30))), F(str(mpmath.nstr(v + d, 30)))


def mp_atom(a):
    v = _mpcache.get((a.kind, a.key))
    if v is not None:
        return v
    k = a.kind
    if k == 'pi':
        v = mpmath.pi()
    elif k == 'exp':
        v = mpmath.e ** mp_poly(a.args[0])
    elif k == 'log':
        v = mpmath.log(mp_poly(a.args[0]))
    elif k == 'poly':
        v = mp_poly(a.args[0])
    elif k == 'cpow':
        v = mpmath.mpf(a.info.numerator) / a.info.denominator
    elif k == 'cnum':
        v = mp_poly(a.key)
    elif k == 'cos':
        v = mpmath.cos(mp_poly(a.args[0]))
    elif k == 'sin':
        v = mpmath.sin(mp_poly(a.args[0]))
    elif k == 'coshalf':
        v = mpmath.cos(mp_poly(a.args[0]) / 2)
    elif k == 'sinhalf':
        v = mpmath.sin(mp_poly(a.args[0]) / 2)
    elif k == 'acos':
        v = mpmath.acos(mp_poly(a.args[0]))
    elif k == 'atan':
        v = mpmath.atan(mp_poly(a.args[0]))
    elif k == 'floor':
        v = mpmath.floor(mp_poly(a.args[0]))
    elif k == 'rint':
        v = mpmath.nint(mp_poly(a.args[0]))
    elif k == 'erf':
        v = mpmath.erf(mp_poly(a.args[0]))
    else:
        raise EngineUnsupported(f'constant {k}')
    _mpcache[(a.kind, a.key)] = v
    return v


def mp_poly(p):
    s = mpmath.mpf(0)
    for m, c in p.t.items():
        x = mpmath.mpf(c.numerator) / c.denominator
        for a, e in m:
            v = mp_atom(T.atoms[a])
            if isinstance(e, F):
                x *= v ** (mpmath.mpf(e.numerator) / e.denominator)
            else:
                x *= v ** e
        s += x
    return s


def const_sign(p):
    """sign of a constant poly, numerically with 40 digits"""
    c = p.const_value()
    if c is not None:
        return (c > 0) - (c < 0)
    v = mp_poly(p)
    if isinstance(v, mpmath.mpc):
        raise EngineUnsupported('complex constant')
    scale = mpmath.mpf(0)
    for m, c in p.t.items():
        scale = max(scale, abs(mp_poly(Poly({m: c}))))
    if abs(v) <= scale * mpmath.mpf(10) ** -30:
        return 0
    return 1 if v > 0 else -1


# ------------------------------------------------------------------ functions
def _cpow(c):
    a = T.get('cpow', c, sign='pos', const=True, name=f'({c})')
    a.info = c
    return a


def _iroot(n, k):
    r = round(n ** (1.0 / k)) if n < 2 ** 1000 else int(mpmath.nint(mpmath.root(n, k)))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def const_pow(c, e):
    """positive rational c to rational power e, as Poly"""
    e = F(e)
    n = math.floor(e)
    r = e - n
    out = const(c ** n)
    if r:
        num = _iroot(c.numerator ** r.numerator, r.denominator)
        den = _iroot(c.denominator ** r.numerator, r.denominator)
        if num is not None and den is not None:
            return pmul(out, const(F(num, den)))
        if c.denominator != 1:
            # (a/b)^r = (a*b^(q-1))^r' ... keep simple: (a/b)^(p/q) = (a^p b^(q-p))^(1/q)/b
            q = r.denominator
            base = c.numerator ** r.numerator * c.denominator ** (q - r.numerator)
            r0 = _iroot(base, q)
            if r0 is not None:
                return pmul(out, const(F(r0, c.denominator)))
            return pmul(pscale(out, F(1, c.denominator)), _simple_root(base, q))
        return pmul(out, _simple_root(c.numerator ** r.numerator, r.denominator))
    return out


def _simple_root(n, q):
    """n^(1/q) with small q-th power factors extracted"""
    out = 1
    f = 2
    while f ** q <= n and f < 100:
        while n % (f ** q) == 0:
            n //= f ** q
            out *= f
        f += 1
    if n == 1:
        return const(out)
    return Poly({((_cpow(F(n)).id, F(1, q)),): F(out)})


def sqrt_like(p, e):
    """p^e for a non-integer rational e; caller guarantees p>=0 (p>0 if e<0).
    Returns None if a sign decision on an atom is needed: then (atom) is returned."""
    if not p.t:
        return ZERO
    c = p.const_value()
    if c is not None:
        return const_pow(c, e)
    s = p.single()
    if s is not None:
        cm, cc = s
        rest = ONE
    else:
        cc, cm, rest = content(p)
    # atoms of cm with known sign move out; the others stay with rest
    out = []
    keep = []
    for a, x in cm:
        sg = asign(T.atoms[a])
        if sg in ('pos', 'nonneg'):
            out.append((a, x))
        else:
            keep.append((a, x))
    if keep:
        rest = pmul(rest, Poly({tuple(sorted(keep)): F(1)}))
    if cc < 0:
        rest = pneg(rest)
        cc = -cc
    res = const_pow(cc, e)
    if out:
        res = pmul(res, mono_pow(tuple(sorted(out)), e))
    if rest.const_value() is not None:
        v = rest.const_value()
        if v != 1:
            res = pmul(res, const_pow(v, e))
        return res
    sq = perfect_square(rest)
    a = poly_atom(rest)
    return pmul(res, mono_pow(((a.id, 1),), e) if e < 1 else _reduce({a.id: norm_exp(F(e))}))


def perfect_square(p):
    return None


EXP_MAXDEN = 4


def exp_poly(p):
    """exp(p)"""
    res = ONE
    for m, c in p.t.items():
        if m == ():
            if c.denominator == 1 and abs(c) <= 64:
                a = _expatom((), F(1))
                res = pmul(res, Poly({((a.id, norm_exp(c)),): F(1)}))
            else:
                a = _expatom((), c)
                res = pmul(res, of_atom(a))
            continue
        if len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == 'log':
            arg = T.atoms[m[0][0]].args[0]
            if c.denominator == 1:
                res = pmul(res, ppow_int(arg, int(c)))
                continue
            if c.denominator <= EXP_MAXDEN:
                res = pmul(res, sqrt_like(arg, c))
                continue
        if c.denominator <= EXP_MAXDEN and abs(c) <= 16:
            a = _expatom(m, F(1))
            res = pmul(res, Poly({((a.id, norm_exp(c)),): F(1)}))
        else:
            # keep the sign canonical so exp(x)*exp(-x)=1
            a = _expatom(m, abs(c))
            res = pmul(res, Poly({((a.id, 1 if c > 0 else -1),): F(1)}))
    return res


def _expatom(m, c):
    arg = Poly({m: c})
    return T.get('exp', arg, (arg,), sign='pos', const=arg.is_constant())


def log_poly(p):
    """log(p), caller guarantees p>0"""
    c = p.const_value()
    if c is not None:
        return _log_rat(c)
    s = p.single()
    if s is not None:
        m, c = s
        good = all(asign(T.atoms[a]) == 'pos' for a, _ in m)
        if good and c > 0:
            res = _log_rat(c)
            for a, e in m:
                at = T.atoms[a]
                if at.kind == 'exp':
                    res = padd(res, pscale(at.args[0], F(e)))
                else:
                    arg = at.args[0] if at.kind == 'poly' else of_atom(at)
                    res = padd(res, pscale(_log_atom(arg), F(e)))
            return res
        return _log_atom(p)
    cc, cm, rest = content(p)
    if cc < 0:
        cc = -cc
        rest = pneg(rest)
    good = all(asign(T.atoms[a]) == 'pos' for a, _ in cm)
    if not good:
        return _log_atom(p)
    res = _log_rat(cc)
    for a, e in cm:
        at = T.atoms[a]
        if at.kind == 'exp':
            res = padd(res, pscale(at.args[0], F(e)))
        else:
            arg = at.args[0] if at.kind == 'poly' else of_atom(at)
            res = padd(res, pscale(_log_atom(arg), F(e)))
    return padd(res, _log_atom(rest))


def _log_rat(c):
    if c == 1:
        return ZERO
    if c < 1 and c.numerator == 1:
        return pneg(_log_rat(1 / c))
    if c.denominator == 1:
        # powers of ten and of two are common
        for b in (10, 2):
            n = c.numerator
            k = 0
            while n % b == 0 and n > 1:
                n //= b
                k += 1
            if n == 1 and k > 1:
                return pscale(_log_atom(const(b)), F(k))
    elif c.denominator != 1:
        return psub(_log_rat(F(c.numerator)), _log_rat(F(c.denominator)))
    return _log_atom(const(c))


def _log_atom(p):
    a = T.get('log', p, (p,), const=p.is_constant())
    return of_atom(a)


# trig -----------------------------------------------------------------
def _cos_atom(arg):
    a = T.get('cos', arg, (arg,), const=arg.is_constant())
    return a


def _sin_atom(arg):
    a = T.get('sin', arg, (arg,), const=arg.is_constant())
    if a.info is None:
        a.info = _cos_atom(arg)
    return a


SPECIAL = {  # q in units of pi : (sin, cos) as (coef, radicand)
    F(0): ((0, 1), (1, 1)), F(1, 6): ((F(1, 2), 1), (F(1, 2), 3)),
    F(1, 4): ((F(1, 2), 2), (F(1, 2), 2)), F(1, 3): ((F(1, 2), 3), (F(1, 2), 1)),
}


def _rt(cr):
    c, r = cr
    c = F(c)
    if r == 1:
        return const(c)
    return pscale(_simple_root(r, 2), c)


def sincos_pi(q):
    """sin(q*pi), cos(q*pi) for rational q"""
    q = q % 2
    k = int(q / F(1, 2))
    r = q - F(k, 2)
    if r in SPECIAL:
        s, c = SPECIAL[r]
        s, c = _rt(s), _rt(c)
    elif r > F(1, 4):
        c, s = sincos_pi(F(1, 2) - r)
    else:
        arg = pscale(PI(), r)
        s, c = of_atom(_sin_atom(arg)), of_atom(_cos_atom(arg))
    for _ in range(k):
        s, c = c, pneg(s)
    return s, c


def _term_sincos(m, c):
    """sin, cos of c*m (single term)"""
    # acos atoms
    if len(m) == 1 and m[0][1] == 1:
        at = T.atoms[m[0][0]]
        if at.kind == 'acos' and c.denominator == 1:
            p = at.args[0]
            s1 = sqrt_like(psub(ONE, pmul(p, p)), F(1, 2))
            return _multiple(s1, p, int(c))
        if at.kind == 'acos' and abs(c) == F(1, 2):
            p = at.args[0]
            s1 = sqrt_like(pscale(psub(ONE, p), F(1, 2)), F(1, 2))
            c1 = sqrt_like(pscale(padd(ONE, p), F(1, 2)), F(1, 2))
            return (s1 if c > 0 else pneg(s1)), c1
        if at.kind == 'atan' and c.denominator == 1:
            p = at.args[0]
            c1 = sqrt_like(padd(ONE, pmul(p, p)), F(-1, 2))
            return _multiple(pmul(p, c1), c1, int(c))
        if at.kind == 'atan2' and c.denominator == 1:
            y, x = at.args
            c0 = sqrt_like(padd(pmul(x, x), pmul(y, y)), F(-1, 2))
            return _multiple(pmul(y, c0), pmul(x, c0), int(c))
    key = m
    base = T.angle_base.get(key)
    if base is None:
        base = F(1) if c.denominator == 1 else abs(c)
        T.angle_base[key] = base
    k = c / base
    if k.denominator != 1 or abs(k) > 12:
        base = abs(c)
        k = F(1) if c > 0 else F(-1)
    arg = Poly({m: base})
    s1, c1 = of_atom(_sin_atom(arg)), of_atom(_cos_atom(arg))
    return _multiple(s1, c1, int(k))


def _multiple(s1, c1, k):
    if k == 0:
        return ZERO, ONE
    neg = k < 0
    k = abs(k)
    s, c = s1, c1
    for _ in range(k - 1):
        s, c = padd(pmul(s, c1), pmul(c, s1)), psub(pmul(c, c1), pmul(s, s1))
    return (pneg(s) if neg else s), c


def _turns(m, c):
    """is c*m a whole number of turns (2 pi times whole numbers)?"""
    if c.denominator != 1 or c.numerator % 2:
        return False
    p = pi_atom().id
    return (p, 1) in m and all((a, e) == (p, 1) or (T.atoms[a].isint and isinstance(e, int) and e > 0) for a, e in m)


def sincos(arg):
    pim = ((pi_atom().id, 1),)
    q = arg.t.get(pim, F(0))
    rest = {m: c for m, c in arg.t.items() if m != pim and not _turns(m, c)}
    s, c = sincos_pi(q)
    if rest:
        half = False
        if any(v.denominator == 2 for v in rest.values()) and \
           all(v.denominator in (1, 2) for v in rest.values()):
            # acos atoms have their own exact half-angle formula
            if not (len(rest) == 1 and len(next(iter(rest))) == 1
                    and T.atoms[next(iter(rest))[0][0]].kind == 'acos'
                    and abs(next(iter(rest.values()))) == F(1, 2)):
                half = True
        if half:
            theta = Poly({m: v * 2 for m, v in rest.items()})
            lead = max(theta.t)
            sg = 1
            if theta.t[lead] < 0:
                theta = pneg(theta)
                sg = -1
            _, ct = sincos(theta)
            sa = T.get('sinhalf', theta, (theta,))
            ca = T.get('coshalf', theta, (theta,))
            sa.info = pscale(psub(ONE, ct), F(1, 2))
            ca.info = pscale(padd(ONE, ct), F(1, 2))
            s2, c2 = pscale(of_atom(sa), F(sg)), of_atom(ca)
        else:
            s2, c2 = ZERO, ONE
            for m, v in sorted(rest.items()):
                a, b = _term_sincos(m, v)
                s2, c2 = padd(pmul(s2, b), pmul(c2, a)), psub(pmul(c2, b), pmul(s2, a))
        s, c = padd(pmul(s, c2), pmul(c, s2)), psub(pmul(c, c2), pmul(s, s2))
    return s, c


ACOS_SPECIAL = {F(1): F(0), F(0): F(1, 2), F(-1): F(1), F(1, 2): F(1, 3), F(-1, 2): F(2, 3)}


def _pi_multiple(p):
    """q with acos(p) = q pi for a constant p built from trigonometric constants (q with a denominator up to 7200), else None"""
    if p in T.pimul:
        return T.pimul[p]
    v = mp_poly(p)
    r = None
    if abs(v) <= 1 + mpmath.mpf(10) ** -30:
        t = mpmath.acos(max(min(v, mpmath.mpf(1)), mpmath.mpf(-1))) / mpmath.pi
        q = F(int(mpmath.nint(t * 10 ** 20)), 10 ** 20).limit_denominator(7200)
        if abs(v - mpmath.cos(mpmath.pi * q.numerator / q.denominator)) < mpmath.mpf(10) ** -32:
            r = q
    T.pimul[p] = r
    return r


def acos_poly(p):
    c = p.const_value()
    if c is not None and c in ACOS_SPECIAL:
        return pscale(PI(), ACOS_SPECIAL[c])
    if not p.t:
        return pscale(PI(), F(1, 2))
    if c is None and p.is_constant():
        q = _pi_multiple(p)
        if q is not None:
            return pscale(PI(), q)
    s = p.single()
    if s is not None and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1 and T.atoms[s[0][0][0]].kind == 'cos':
        q = T.atoms[s[0][0][0]].args[0]
        v = q.single()
        if v is not None and v[1] == 1 and len(v[0]) == 1 and v[0][0][1] == 1:
            v = T.atoms[v[0][0][0]]
            # an angle declared between 0 and pi
            if v.kind == 'var' and v.lo is not None and v.hi is not None and const_sign(v.lo[0]) >= 0 and const_sign(psub(PI(), v.hi[0])) >= 0:
                return q
    lead = max(p.t)
    if p.t[lead] < 0:
        return psub(PI(), acos_poly(pneg(p)))
    a = T.get('acos', p, (p,), sign='nonneg', const=p.is_constant())
    return of_atom(a)


def asin_poly(p, nonneg=False):
    s = p.single()
    if nonneg or (s is not None and quick_nonneg(p) and any(isinstance(e, F) for _, e in s[0])):
        h = pmul(p, p)
        return pscale(acos_poly(psub(ONE, pscale(h, F(2)))), F(1, 2))
    return psub(pscale(PI(), F(1, 2)), acos_poly(p))


def atan_poly(p):
    if not p.t:
        return ZERO
    lead = max(p.t)
    if p.t[lead] < 0:
        return pneg(atan_poly(pneg(p)))
    if p.const_value() == 1:
        return pscale(PI(), F(1, 4))
    a = T.get('atan', p, (p,), const=p.is_constant())
    return of_atom(a)


def atan2_poly(y, x):
    a = T.get('atan2', (y, x), (y, x), const=y.is_constant() and x.is_constant())
    return of_atom(a)


def floor_poly(p):
    c = p.const_value()
    if c is not None:
        return const(math.floor(c))
    if p.is_constant():
        v = mp_poly(p)
        return const(int(mpmath.floor(v)))
    # integer-valued part comes out
    out = ZERO
    rest = {}
    for m, v in p.t.items():
        if v.denominator == 1 and all(T.atoms[a].isint and isinstance(e, int) and e > 0
                                      for a, e in m):
            out = padd(out, Poly({m: v}))
        else:
            rest[m] = v
    if not rest:
        return out
    r = Poly(rest)
    a = T.get('floor', r, (r,), const=False)
    a.isint = True
    return padd(out, of_atom(a))


def rint_poly(p):
    c = p.const_value()
    if c is not None:
        return const(round(c))
    if p.is_constant():
        return const(int(mpmath.nint(mp_poly(p))))
    a = T.get('rint', p, (p,), const=False)
    a.isint = True
    return of_atom(a)


def fresh(name, sign=None):
    a = T.get('var', name, (), sign=sign, name=name)
    return a


def clear_den(p, limit=6):
    """multiply p by poly atoms occurring with negative exponents (nonzero on the path)
    so that an identity can be recognised; result is zero iff p is (given nonzero dens)."""
    for _ in range(limit):
        neg = {}
        for m in p.t:
            for a, e in m:
                if T.atoms[a].kind == 'poly' and e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            break
        a, e = min(neg.items(), key=lambda kv: len(T.atoms[kv[0]].args[0].t))
        n = -math.floor(e)
        P = T.atoms[a].args[0]
        # multiply every monomial by P^n, cancelling where the exponent allows
        out = ZERO
        pw = [ONE]
        for _ in range(n):
            pw.append(pmul(pw[-1], P))
        for m, c in p.t.items():
            d = dict(m)
            x = d.pop(a, 0)
            rem = norm_exp(x + n)
            k = math.floor(rem)
            r = norm_exp(rem - k)
            if r:
                d[a] = r
            out = padd(out, pmul(Poly({tuple(sorted(d.items())): c}), pw[k]))
        p = out
        if not p.t:
            break
    return p


# ------------------------------------------------------------------ numeric
class Chunk:
    """a vector of sample inputs: values per variable name"""

    def __init__(self, size):
        self.size = size
        self.vars = {}
        self.cache = {}
        self.pcache = {}

    def atom(self, a):
        v = self.cache.get(a.id)
        if v is None:
            v = self._atom(a)
            self.cache[a.id] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'var':
            v = self.vars.get(a.name)
            if v is None:
                raise KeyError(a.name)
            return v
        if k == 'pi':
            return np.full(self.size, math.pi)
        if k == 'cpow':
            return np.full(self.size, float(a.info))
        A = a.args
        with np.errstate(all='ignore'):
            if k == 'exp':
                return np.exp(self.poly(A[0]))
            if k == 'log':
                return np.log(self.poly(A[0]))
            if k == 'cos':
                return np.cos(self.poly(A[0]))
            if k == 'sin':
                return np.sin(self.poly(A[0]))
            if k == 'coshalf':
                return np.cos(self.poly(A[0]) / 2)
            if k == 'sinhalf':
                return np.sin(self.poly(A[0]) / 2)
            if k == 'acos':
                x = self.poly(A[0])
                x = np.where(np.abs(x) <= 1 + 1e-9, np.clip(x, -1, 1), np.nan)
                return np.arccos(x)
            if k == 'atan':
                return np.arctan(self.poly(A[0]))
            if k == 'atan2':
                return np.arctan2(self.poly(A[0]), self.poly(A[1]))
            if k == 'poly':
                return self.poly(A[0])
            if k == 'floor':
                return np.floor(self.poly(A[0]))
            if k == 'rint':
                return np.round(self.poly(A[0]))
            if k == 'ite':
                return np.where(a.info.ev(self), self.poly(A[0]), self.poly(A[1]))
            if k == 'f32':
                return self.poly(A[0]).astype(np.float32).astype(float)
            if k == 'erf':
                return np.array([math.erf(x) for x in self.poly(A[0])])
        raise EngineUnsupported(f'numeric {k}')

    def poly(self, p):
        v = self.pcache.get(p)
        if v is not None:
            return v
        s = np.zeros(self.size)
        with np.errstate(all='ignore'):
            for m, c in p.t.items():
                try:
                    x = np.full(self.size, float(c))
                except OverflowError:
                    x = np.full(self.size, np.inf if c > 0 else -np.inf)
                for a, e in m:
                    v = self.atom(T.atoms[a])
                    if e == 1:
                        x = x * v
                    elif isinstance(e, int):
                        x = x * v ** float(e)
                    else:
                        v = np.where((v < 0) & (v > -1e-9), 0, v)
                        x = x * v ** float(e)
                s = s + x
        self.pcache[p] = s
        return s
