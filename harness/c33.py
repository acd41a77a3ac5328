"""C33 rounding and clipping of temperatures"""
from harness.common import *

BOUNDS = 'all real temperatures (rounding within +-2^53), units K and R (rankine-like scaled kelvin)'


def rounding(w):
    u = w.u
    x = w.real('x', -20000, 20000, slo=-5000, shi=5000)
    q = w.q(x, w.cfg['unit'])
    r = w.pkg.helpers.round_teff(q)
    w.check('same unit', r.unit == q.unit)
    v = w.v(r, r.unit)
    w.observe('r', v)
    w.check('at most one half away', w.and_(w.le(v - x, w.frac(1, 2)), w.le(x - v, w.frac(1, 2))))
    w.check('whole number', w.eq(w.rint(v), v))
    n = w.rint(x)
    m = w.v(w.pkg.helpers.round_teff(w.q(n, w.cfg['unit'])), w.cfg['unit'])
    w.check('identity on whole numbers', w.eq(m, n))


def clipping(w):
    u = w.u
    x = w.real('x', 0, slo=1000, shi=6000)
    y = w.real('y', 0, slo=1000, shi=6000)
    w.assume(w.le(x, y))
    un = w.cfg['unit']
    clip = lambda t: w.v(w.pkg.helpers.clip_teff((t * u.K).to(un)), 'K')
    a, b = clip(x), clip(y)
    w.observe('a', a)
    w.observe('b', b)
    lo, hi = 2300, 3900
    if w.decide(w.is_lt(x, lo)):
        w.check('raised to the lower bound', w.eq(a, lo))
    elif w.decide(w.is_lt(hi, x)):
        w.check('lowered to the upper bound', w.eq(a, hi))
    else:
        w.check('unchanged inside', w.eq(a, x))
    w.check('order preserving', w.le(a, b))
    w.check('idempotent', w.eq(clip(a), a))


def configs(tier):
    return [('round-K', 'rounding', dict(unit='K'), {}), ('clip-K', 'clipping', dict(unit='K'), {}),
            ('clip-mK', 'clipping', dict(unit='mK'), {}), ('round-mK', 'rounding', dict(unit='mK'), {})]
