"""
The two worlds a harness runs in: symbolic (SymWorld) and the real package (RealWorld).
"""
import hashlib
import importlib
import math
import os
import sys
import warnings
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from .terms import EngineUnsupported, Poly


class Tie(BaseException):
    """a comparison of the harness is too close to call in floating point"""


class Abort(BaseException):
    """assumption not met in a concrete run"""


class CheckFailed(BaseException):
    pass


# ----------------------------------------------------------------- symbolic
class SymWorld:
    sym = True

    def __init__(self, ctx, loader_cls, cfg, sink, repo=None):
        from . import load, num, units, npshim
        self.num, self.units, self.nps = num, units, npshim
        self.ctx = ctx
        self.cfg = cfg
        self.sink = sink
        self.L = loader_cls(repo)
        self.np = self.L.np
        self.u = self.L.u
        self.const = self.L.const
        self.jnp = self.L.jnp
        from .ctx import CTX
        cur, CTX.cur = CTX.cur, None
        try:
            self.pkg = self.L.load('vspec_vsm')
        finally:
            CTX.cur = cur
        self.m = load.Mods(lambda n: self.L.load('vspec_vsm.' + n))
        self.obs = []
        self.pi = num.pi()
        self._rngs = {}

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, slo=None, shi=None, cls=None, log=False):
        f = lambda x: x.p if isinstance(x, self.num.SF) else x
        return self.num.SF(self.ctx.declare(name, f(lo), f(hi), lo_strict, hi_strict, slo, shi, cls, False, log))

    def pos(self, name, slo=0.1, shi=10.0, log=True, hi=None, cls=None):
        return self.real(name, 0, hi, lo_strict=True, slo=slo, shi=shi, log=log, cls=cls)

    def whole(self, name, lo, hi=None, slo=None, shi=None):
        """a whole number (relaxed to the reals in queries)"""
        return self.num.SF(self.ctx.declare(name, lo, hi, False, False, slo, shi, None, 'soft', False))

    def index(self, name, n, shi=30):
        """a generic index of the axes of length n: code that treats the cells of an axis alike is run once, for this cell"""
        i = self.whole(name, 0, slo=0, shi=shi)
        self.assume(self.le(i, n - 1))
        self.ctx.generic[n.p] = i
        return i

    def cell(self, arr, *idx):
        return self.v(arr.reshape(-1)[0])

    def angle(self, name, lo, hi, unit='deg', lo_strict=False, hi_strict=False, cls=None, slo=None, shi=None):
        """lo, hi: multiples of pi (Fractions)"""
        P = tm.PI()
        L = tm.pscale(P, F(lo)) if lo is not None else None
        H = tm.pscale(P, F(hi)) if hi is not None else None
        th = self.ctx.declare(name, L, H, lo_strict, hi_strict,
                              None if slo is None else slo * math.pi, None if shi is None else shi * math.pi, cls)
        return self.rad(self.num.SF(th), unit)

    def rad(self, th, unit='deg'):
        q = self.units.SQ(self.num.mk(th), self.units.RAD)
        return q.to(self.u.Unit(unit))

    def q(self, v, unit=''):
        return v * self.u.Unit(unit) if isinstance(unit, str) else v * unit

    def choice(self, name, n):
        return self.ctx.choose(name, n)

    def rng(self, name='rng'):
        r = self.nps.SRng(name)
        r.user = True
        return r

    def foreign(self):
        """context; its value tells whether random numbers came from a source that was not handed over"""
        import contextlib

        @contextlib.contextmanager
        def cm():
            n = len(self.notes('rng.other'))
            yield lambda: len(self.notes('rng.other')) > n
        return cm()

    def frac(self, a, b):
        return self.num.mk(F(a, b))

    def arr(self, xs):
        return self.nps.asarray(list(xs)) if len(xs) else self.nps.SArr(np.empty((0,), object), 'f')

    def qarr(self, qs, unit):
        un = self.u.Unit(unit)
        return self.units.SQ(self.nps.asarray([x.to_value(un) for x in qs]), un)

    # ---- logic (arguments: scalars or quantities)
    def v(self, x, unit=None):
        """plain scalar of a quantity in `unit` (dimensionless by default)"""
        if isinstance(x, self.units.SQ):
            x = x.to_value(self.u.Unit(unit) if unit is not None else self.units.DIMLESS)
        if isinstance(x, self.nps.SArr):
            x = x.item()
        return self.num.mk(x)

    def vals(self, x, unit=None):
        if isinstance(x, self.units.SQ):
            x = x.to_value(self.u.Unit(unit) if unit is not None else self.units.DIMLESS)
        return list(self.nps.asarray(x).a.ravel())

    def bools(self, x):
        from .ctx import tobool
        if isinstance(x, self.nps.SArr):
            return [self.nps._tb(b) for b in x.a.ravel()]
        return [tobool(x)]

    def eq(self, a, b, tol=1e-8, sym_tol=None, scale=0.0):
        if self.num.isnan(a) or self.num.isnan(b):
            return False
        if sym_tol is None:
            return self.num.s_cmp(a, b, '==')
        d = self.num.s_sub(a, b)
        return self.and_(self.num.s_cmp(d, F(sym_tol), '<='), self.num.s_cmp(d, -F(sym_tol), '>='))

    def le(self, a, b, tol=1e-8, scale=0.0, sym_tol=0):
        if sym_tol:
            b = self.num.s_add(b, F(sym_tol))
        return self.num.s_cmp(a, b, '<=')

    def lt(self, a, b, tol=1e-8, scale=0.0):
        return self.num.s_cmp(a, b, '<')

    # comparisons used to choose between expectations: exact in both worlds, but ties abort a concrete run
    def is_lt(self, a, b, exact=False):
        return self.num.s_cmp(a, b, '<')

    def is_le(self, a, b, exact=False):
        return self.num.s_cmp(a, b, '<=')

    def is_eq(self, a, b, exact=False):
        return self.num.s_cmp(a, b, '==')

    def decide(self, b):
        return bool(b)

    def and_(self, *xs):
        from .ctx import band
        return band(*xs)

    def or_(self, *xs):
        from .ctx import bor
        return bor(*xs)

    def not_(self, x):
        from .ctx import bnot, tobool
        return bnot(tobool(x))

    def imp(self, a, b):
        from .ctx import bimp
        return bimp(a, b)

    def iff(self, a, b):
        if a is b or (hasattr(a, "same") and hasattr(b, "same") and a.same(b)):
            return True
        return self.and_(self.imp(a, b), self.imp(b, a))

    def isnan(self, x):
        return bool(self.num.isnan(x))

    def isfinite(self, x):
        return not (self.num.isnan(x) or self.num.isinf(x))

    # math on scalars
    def sin(self, x):
        return self.num.s_sin(x)

    def cos(self, x):
        return self.num.s_cos(x)

    def exp(self, x):
        return self.num.s_exp(x)

    def log(self, x):
        return self.num.s_log(x)

    def sqrt(self, x):
        return self.num.s_sqrt(x)

    def acos(self, x):
        a = self.num.lift(x)
        if isinstance(a, float):
            return self.num.NAN
        return self.num.SF(tm.acos_poly(a))

    def power(self, a, b):
        return self.num.s_pow(a, b)

    def rint(self, x):
        return self.num.s_rint(x)

    def label(self, s, unit='K'):
        return self.v(self.units.label_value(s), unit)

    # ---- assumptions, checks
    def assume(self, c):
        self.ctx.assume(c)

    def lemma(self, name, c):
        """an auxiliary fact: proved in isolation, then available to later queries"""
        from .ctx import tobool
        c = tobool(c)
        if c is True:
            return
        self.sink.lemma(self, name, c)

    def derive(self, name, terms, hyps, concl=None, le=None):
        """concl(terms), because every hyp(terms) is proved and the hyps imply the conclusion for all reals;
        with le, the conclusion is le(terms)[0] <= le(terms)[1], used as it stands"""
        if le is not None:
            concl = lambda d: self.le(*le(d))  # noqa: E731
        from .ctx import tobool, bnot
        vs = {k: self.num.SF(tm.of_atom(tm.T.get('var', ('gen', name, k), name=f'gen.{name}.{k}'))) for k in terms}
        key = ('derive', name, tuple(str(h(vs)) for h in hyps), str(concl(vs)))
        r = self.sink.lemma_cache.get(key)
        if r is None:
            r = self.ctx.solve([x for x in (tobool(h(vs)) for h in hyps) if x is not True] + [bnot(tobool(concl(vs)))], self.ctx.t_goal)[0] == 'unsat'
            self.sink.lemma_cache[key] = r
        ok = r
        if r:
            for h in hyps:
                c = tobool(h(terms))
                if c is True:
                    continue
                if c is False or self.ctx.prove(c)[0] != 'proved':
                    ok = False
                    break
        self.sink.rep.lemmas[name] = 'derived' if ok else 'implication not proved' if not r else 'hypothesis not proved'
        if ok:
            from .ctx import SB
            c = tobool(concl(terms))
            if le is not None and c is not True and c is not False:
                self.sink.use_lemma(SB('cmp', (tm.psub(*[self.num.lift(x) for x in le(terms)]), '<=')))
            if c is not True and c is not False:
                self.sink.use_lemma(c)

    def fact_sin_nonneg(self, x):
        """sin(x) >= 0, after proving 0 <= x <= pi"""
        c = self.and_(self.le(0, x), self.le(x, self.pi))
        if c is True or self.ctx.solve(list(self.ctx.pc) + [self.not_(c)], self.ctx.t_goal)[0] == 'unsat':
            from .ctx import cmp0
            f = cmp0(tm.pneg(self.num.s_sin(x).p), '<=')
            if f is not True:
                self.sink.use_lemma(f)

    def fact_sincos(self, x):
        """sin x <= x, cos x >= 1 - x^2/2, sin x + cos x <= 1 + x, after proving x >= 0"""
        c = self.le(0, x)
        if c is True or self.ctx.solve(list(self.ctx.pc) + [self.not_(c)], self.ctx.t_goal)[0] == 'unsat':
            s, c = self.sin(x), self.cos(x)
            for f in (self.le(s, x), self.le(-x, s), self.le(1 - x * x / 2, c), self.le(c, 1), self.le(1 + x, self.exp(x)),
                      self.le(1 + x + x * x / 2, self.exp(x))):
                if f is not True:
                    self.sink.use_lemma(f)

    def fact_log(self, a, b):
        """a (log a - log b) >= a - b >= b (log a - log b), after proving a, b > 0"""
        c = self.and_(self.lt(0, a), self.lt(0, b))
        if c is True or self.ctx.solve(list(self.ctx.pc) + [self.not_(c)], self.ctx.t_goal)[0] == 'unsat':
            L = self.log(a) - self.log(b)
            for f in (self.le(a - b, a * L), self.le(b * L, a - b)):
                if f is not True:
                    self.sink.use_lemma(f)

    def fact_exp(self, x, y):
        """exp(x) <= y iff x <= log y, and the same strictly, after proving y > 0"""
        c = self.lt(0, y)
        if c is True or self.ctx.solve(list(self.ctx.pc) + [self.not_(c)], self.ctx.t_goal)[0] == 'unsat':
            e, L = self.exp(x), self.log(y)
            for f in (self.iff(self.le(e, y), self.le(x, L)), self.iff(self.lt(e, y), self.lt(x, L))):
                if f is not True:
                    self.sink.use_lemma(f)

    def nonneg(self, name, target, *terms):
        """lemma target >= 0, by the identity target == sum of the terms; a term is a list of factors, a factor
        x stands for itself and must be provably >= 0, ('sq', x) for its square"""
        lift = self.num.lift
        tot, side = [], []
        for t in terms:
            p = tm.ONE
            for f in t:
                if isinstance(f, tuple):
                    q = lift(f[1])
                    p = tm.pmul(p, tm.pmul(q, q))
                else:
                    p = tm.pmul(p, lift(f))
                    side.append(self.num.s_cmp(f, 0, '>='))
            tot.append(p)
        self.sink.certificate(name, lift(target), tot, side)

    def check(self, name, c, info=None):
        from .ctx import tobool
        self.sink.check(self, name, tobool(c), info)

    def observe(self, name, x, unit=None):
        if isinstance(x, self.units.SQ):
            x = x.to_value(self.u.Unit(unit)) if unit is not None else x.v
        if isinstance(x, self.nps.SArr):
            for i, v in enumerate(x.a.ravel()):
                self.obs.append((f'{name}[{i}]', v))
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                self.observe(f'{name}[{i}]', v, unit)
        else:
            self.obs.append((name, x))

    def integral(self, name, f, lo, hi):
        """integral of f (list of arguments -> list of values) over [lo, hi]: f is run once for a symbolic argument; the result is integrated term by term
        (if the path depends on where in the interval the argument lies, the value holds for that path only)"""
        from . import calc
        x = self.real(name, lo, hi, lo_strict=True, hi_strict=True)
        y = self.num.lift(f([x])[0])
        if isinstance(y, float):
            return self.num.NAN
        (m, _), = x.p.t.items()
        return self.num.SF(calc.integ(y, tm.T.atoms[m[0][0]], F(lo), F(hi)))

    def deriv(self, y, name, f, x):
        """derivative of y = f(x) with respect to the input called name, of value x"""
        from . import calc
        (m, _), = x.p.t.items()
        return self.num.SF(calc.deriv(self.num.lift(y), tm.T.atoms[m[0][0]]))

    def raises(self, f, *excs):
        """call f; the exception class name if it raises one of excs, None if it returns"""
        try:
            self.last = f()
        except excs as e:
            return type(e).__name__
        return None

    def notes(self, name):
        return self.ctx.notes.get(name, [])

    def patch_gp(self):
        pass

    def option(self, **k):
        for a, b in k.items():
            setattr(self.ctx, a, b)


# --------------------------------------------------------------------- real
REAL = {}


def real_package(repo):
    if 'pkg' not in REAL:
        sys.path.insert(0, repo)
        warnings.simplefilter('ignore')
        import numpy
        import astropy.units as u
        import astropy.constants as const
        REAL['np'], REAL['u'], REAL['const'] = numpy, u, const
        REAL['pkg'] = importlib.import_module('vspec_vsm')
        f = os.path.abspath(REAL['pkg'].__file__)
        if not f.startswith(os.path.abspath(repo) + os.sep):
            raise RuntimeError(f'vspec_vsm loaded from {f}, not from {repo}')
        u.add_enabled_units([REAL['pkg'].MSH])
    return REAL


def _h(seed, name):
    return int(hashlib.sha256(f'{seed}:{name}'.encode()).hexdigest()[:12], 16) / 16 ** 12


_GENERATORS = []  # that exist once the package is loaded


class ScriptedRng(np.random.Generator):
    """numpy Generator whose draws come from the model (same names as the symbolic generator)"""

    def __new__(cls, *a, **k):
        return np.random.Generator.__new__(cls, np.random.PCG64(1))

    def __init__(self, world, name):
        super().__init__(np.random.PCG64(1))
        self._w = world
        self._n = name
        self._c = {}

    def _one(self, kind, default):
        n = self._c.get(kind, 0)
        if n > 300:
            raise Abort()
        self._c[kind] = n + 1
        x = self._w.draw(f'{self._n}.{kind}.{n}', default)
        self._w._notes.setdefault('draw.' + kind, []).append(x)
        return x

    def _many(self, kind, size, default):
        if size is None:
            return self._one(kind, default)
        sh = (size,) if not isinstance(size, tuple) else size
        out = np.empty(tuple(int(x) for x in sh))
        for i in np.ndindex(out.shape):
            out[i] = self._one(kind, default)
        return out

    def random(self, size=None, dtype=None, out=None):
        return self._many('random', size, lambda x: x)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._many('random', size, lambda x: x)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._many('normal', size, lambda x: 2 * x - 1)

    def _size(self, a, b, size):
        if size is None and (np.ndim(a) or np.ndim(b)):
            return np.broadcast(a, b).shape
        return size

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        if np.any(scale < 0):
            raise ValueError('scale < 0')
        r = loc + scale * self._many('normal', self._size(loc, scale, size), lambda x: 2 * x - 1)
        return r[()] if np.ndim(r) == 0 else r

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def exponential(self, scale=1.0, size=None):
        scale = np.asarray(scale, float)
        if np.any(scale < 0):
            raise ValueError('scale < 0')
        r = scale * self._many('exponential', self._size(scale, scale, size), lambda x: -math.log(1 - x))
        return r[()] if np.ndim(r) == 0 else r

    def poisson(self, lam=1.0, size=None):
        lam = np.asarray(lam, float)
        if np.any(np.isnan(lam)) or np.any(lam < 0):
            raise ValueError('lam < 0 or lam contains NaNs')
        self._w._notes.setdefault('poisson.lam', []).append(lam[()])
        one = lambda: (0 if (lam.ndim == 0 and lam == 0 and not self._ctr('poisson')) else None)
        if size is None:
            return self._pick('poisson', 0 if lam.ndim == 0 and lam == 0 else None)
        sh = (size,) if not isinstance(size, tuple) else size
        out = np.empty(tuple(int(x) for x in sh), int)
        for i in np.ndindex(out.shape):
            out[i] = self._pick('poisson', 0 if lam.ndim == 0 and lam == 0 else None)
        return out

    def _ctr(self, kind):
        return self._c.get(kind, 0)

    def _pick(self, kind, forced=None, n=3):
        k = self._c.get(kind, 0)
        self._c[kind] = k + 1
        x = forced if forced is not None else self._w.pick(f'{self._n}.{kind}.{k}', n)
        self._w._notes.setdefault('draw.' + kind, []).append(x)
        return x

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) + (1 if endpoint else 0) - int(low)
        if size is None:
            return int(low) + self._pick('integers', None, n)
        sh = (size,) if not isinstance(size, tuple) else size
        out = np.empty(tuple(int(x) for x in sh), int)
        for i in np.ndindex(out.shape):
            out[i] = int(low) + self._pick('integers', None, n)
        return out

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)

        def one():
            x = opts[self._pick('choice', None, len(opts))]
            self._w._notes['draw.choice'][-1] = x
            return x
        if size is None:
            return one()
        sh = (size,) if not isinstance(size, tuple) else size
        out = np.empty(tuple(int(x) for x in sh), np.asarray(opts).dtype)
        for i in np.ndindex(out.shape):
            out[i] = one()
        return out


class RealWorld:
    sym = False

    def __init__(self, values, choices, cfg, repo, seed=1):
        R = real_package(repo)
        self.np, self.u, self.const, self.pkg = R['np'], R['u'], R['const'], R['pkg']
        self.cfg = cfg
        self.values = values
        self.choices = choices
        self.seed = seed
        self.m = _RealMods()
        self.obs = []
        self.results = []
        self._notes = {}
        self.pi = math.pi
        self.missing = []

    @property
    def jnp(self):
        import jax.numpy as jnp
        return jnp

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, slo=None, shi=None, cls=None, log=False):
        if name in self.values:
            v = float(self.values[name])
            for b, strict, below in ((lo, lo_strict, True), (hi, hi_strict, False)):
                if b is not None:
                    d = (float(b) - v) if below else (v - float(b))
                    self.assume(d < 0 if strict else d <= 1e-12 * (1 + abs(float(b))))
            return v
        self.missing.append(name)
        L = slo if slo is not None else (float(lo) if lo is not None else -10.0)
        H = shi if shi is not None else (float(hi) if hi is not None else 10.0)
        return L + (H - L) * (0.05 + 0.9 * _h(self.seed, name))

    def pos(self, name, slo=0.1, shi=10.0, log=True, hi=None, cls=None):
        return self.real(name, 0, hi, lo_strict=True, slo=slo, shi=shi)

    def whole(self, name, lo, hi=None, slo=None, shi=None):
        return int(round(self.real(name, lo, hi, slo=slo, shi=shi)))

    def index(self, name, n, shi=30):
        i = self.whole(name, 0, slo=0, shi=shi)
        self.assume(i <= n - 1)
        return i

    def cell(self, arr, *idx):
        return self.v(arr[idx])

    def angle(self, name, lo, hi, unit='deg', lo_strict=False, hi_strict=False, cls=None, slo=None, shi=None):
        th = self.real(name, None if lo is None else float(lo) * math.pi, None if hi is None else float(hi) * math.pi, lo_strict, hi_strict,
                       slo=None if slo is None else slo * math.pi, shi=None if shi is None else shi * math.pi)
        return self.rad(th, unit)

    def rad(self, th, unit='deg'):
        un = self.u.Unit(unit)
        if un == self.u.rad:
            return th * self.u.rad
        d = math.degrees(th)
        if abs(d - round(d)) < 1e-9:
            d = float(round(d))
        return (d * self.u.deg).to(un)

    def q(self, v, unit=''):
        return v * (self.u.Unit(unit) if isinstance(unit, str) else unit)

    def choice(self, name, n):
        return self.pick(name, n)

    def pick(self, name, n):
        if name in self.choices:
            return self.choices[name]
        self.missing.append(name)
        return min(n - 1, int(_h(self.seed, name) * n))

    def draw(self, name, default):
        if name in self.values:
            return float(self.values[name])
        self.missing.append(name)
        return default(_h(self.seed, name))

    def rng(self, name='rng'):
        return ScriptedRng(self, name)

    def frac(self, a, b):
        return a / b

    def arr(self, xs):
        return np.array(list(xs), dtype=float)

    def qarr(self, qs, unit):
        un = self.u.Unit(unit)
        return np.array([x.to_value(un) for x in qs], dtype=float) * un

    def v(self, x, unit=None):
        if isinstance(x, self.u.Quantity):
            x = x.to_value(self.u.Unit(unit) if unit is not None else self.u.dimensionless_unscaled)
        return float(np.asarray(x).reshape(-1)[0]) if np.size(x) == 1 else x

    def vals(self, x, unit=None):
        if isinstance(x, self.u.Quantity):
            x = x.to_value(self.u.Unit(unit) if unit is not None else self.u.dimensionless_unscaled)
        return [float(y) for y in np.asarray(x).ravel()]

    def bools(self, x):
        return [bool(b) for b in np.asarray(x).ravel()]

    def eq(self, a, b, tol=1e-8, sym_tol=None, scale=0.0):
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = max(tol * max(1.0, abs(a), abs(b), scale), (float(sym_tol) * 1.01 if sym_tol else 0.0))
        return abs(a - b) <= t

    def le(self, a, b, tol=1e-8, scale=0.0, sym_tol=0):
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + tol * max(1.0, abs(a), abs(b), scale) + float(sym_tol) * 1.01

    def lt(self, a, b, tol=1e-8, scale=0.0):
        return self.le(a, b, tol, scale)

    def _near(self, a, b):
        if a != a or b != b or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= 1e-9 * max(1e-3, abs(a), abs(b))

    def is_lt(self, a, b, exact=False):
        if not exact and self._near(a, b):
            raise Tie()
        return a < b

    def is_le(self, a, b, exact=False):
        if not exact and self._near(a, b):
            raise Tie()
        return a <= b

    def is_eq(self, a, b, exact=False):
        if not exact and a != b and self._near(a, b):
            raise Tie()
        return a == b

    def decide(self, b):
        return bool(b)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def imp(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def isnan(self, x):
        return bool(x != x)

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def acos(self, x):
        return math.acos(max(-1.0, min(1.0, x)))

    def power(self, a, b):
        return float(a) ** float(b)

    def rint(self, x):
        return float(np.rint(x))

    def label(self, s, unit='K'):
        return float(self.u.Quantity(s).to_value(unit))

    def assume(self, c):
        if not c:
            raise Abort()

    def lemma(self, name, c):
        pass

    def nonneg(self, name, target, *terms):
        pass

    def derive(self, name, terms, hyps, concl=None, le=None):
        pass

    def fact_sin_nonneg(self, x):
        pass

    def fact_sincos(self, x):
        pass

    def fact_log(self, a, b):
        pass

    def fact_exp(self, x, y):
        pass

    def check(self, name, c, info=None):
        self.results.append((name, bool(c), info if not callable(info) else None))

    def observe(self, name, x, unit=None):
        if isinstance(x, self.u.Quantity):
            x = x.to_value(self.u.Unit(unit)) if unit is not None else x.value
        if isinstance(x, np.ndarray) and x.ndim:
            for i, v in enumerate(x.ravel()):
                self.obs.append((f'{name}[{i}]', v))
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                self.observe(f'{name}[{i}]', v, unit)
        else:
            self.obs.append((name, x))

    def integral(self, name, f, lo, hi):
        xs, ws = np.polynomial.legendre.leggauss(12)
        lo, hi = float(lo), float(hi)
        n = max(3, int(3 * (hi - lo)))
        e = np.linspace(lo, hi, n + 1)
        mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        y = np.array(f(list((mid[:, None] + half[:, None] * xs[None, :]).ravel()))).reshape(n, -1)
        return float(np.sum(y * ws[None, :] * half[:, None]))

    def deriv(self, y, name, f, x):
        h = abs(x) * 1e-4 or 1e-4
        return (8 * (f(x + h / 2) - f(x - h / 2)) - (f(x + h) - f(x - h))) / (6 * h)

    def raises(self, f, *excs):
        try:
            self.last = f()
        except excs as e:
            return type(e).__name__
        return None

    def notes(self, name):
        return self._notes.get(name, [])

    def option(self, **k):
        pass

    def foreign(self):
        import contextlib
        import copy
        import gc

        @contextlib.contextmanager
        def cm():
            made = []
            orig = np.random.default_rng

            def default_rng(*a, **k):
                g = orig(*a, **k)
                made.append((g, copy.deepcopy(g.bit_generator.state)))
                return g
            if not _GENERATORS:
                _GENERATORS.extend(g for g in gc.get_objects() if isinstance(g, np.random.Generator) and not isinstance(g, ScriptedRng))
            made += [(g, copy.deepcopy(g.bit_generator.state)) for g in _GENERATORS]
            legacy = repr(np.random.get_state())
            np.random.default_rng = default_rng
            try:
                yield lambda: res[0]
            finally:
                np.random.default_rng = orig
                res[0] = repr(np.random.get_state()) != legacy or any(repr(g.bit_generator.state) != repr(s) for g, s in made)
        res = [False]
        return cm()

    def patch_gp(self):
        """script the Gaussian-process sample"""
        import vspec_vsm.granules as g
        w = self
        real = sys.modules['tinygp'].GaussianProcess
        reg = {}

        class GP:
            def __init__(self, kernel, X, **k):
                self.kernel, self.X, self.k = kernel, np.atleast_1d(np.asarray(X, float)), k
                self.mean = k.get('mean')
                self.diag, self.noise = k.get('diag'), k.get('noise')
                w._gp_seen = getattr(w, '_gp_seen', []) + [self]

            def sample(self, key, shape=None):
                kv = tuple(sorted((a, np.asarray(b).tobytes()) for a, b in vars(self.kernel).items()))
                ident = (np.asarray(key).tobytes(), self.X.tobytes(), kv, float(self.mean or 0))
                if ident not in reg:
                    n = len(reg)
                    out = []
                    for i in range(self.X.size):
                        if w.pick(f'gp{n}.{i}.nan', 2) == 1:
                            out.append(math.nan)
                        else:
                            out.append(w.draw(f'gp{n}.{i}', lambda x: 3 * x - 1))
                    reg[ident] = np.array(out)
                w._notes.setdefault('gp', []).append(self)
                w._notes.setdefault('gp.id', []).append(list(reg).index(ident))
                w._notes.setdefault('gp.sample', []).append(list(reg[ident]))
                return reg[ident].copy()
        self._old = (g, real)
        g.GaussianProcess = GP

    def close(self):
        if hasattr(self, '_old'):
            g, real = self._old
            g.GaussianProcess = real


class _RealMods:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return importlib.import_module('vspec_vsm.' + n)
