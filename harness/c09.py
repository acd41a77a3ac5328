"""C09 spot ageing"""
from harness.common import *

BOUNDS = 'one spot, two consecutive steps t1, t2 >= 0 against one step t1+t2; all areas, rates and times real-valued'


def mk(w, grow):
    u = w.u
    MSH = w.pkg.MSH
    cu = w.cfg
    amax = w.pos('amax', 20, 500)
    if grow:
        a0 = w.pos('a0', 1, 500)
        w.assume(w.le(a0, amax))
    else:
        a0 = w.real('a0', 0, slo=0, shi=500)
        w.assume(w.le(a0, amax))
    g = w.real('g', 0, slo=0.0, shi=2.0)
    d = w.real('d', 0, slo=0.0, shi=50.0)

    def spot():
        return w.pkg.StarSpot(lat=0 * u.deg, lon=0 * u.deg, area_max=(amax * MSH).to(cu['area']),
                              area_current=(a0 * MSH).to(cu['area0']),
                              teff_umbra=2500 * u.K, teff_penumbra=2700 * u.K, is_growing=grow,
                              growth_rate=(g / u.day).to(u.Unit(cu['rate'])), decay_rate=(d * MSH / u.day).to(cu['decay']),
                              gridmaker=w.m.coordinate_grid.CoordinateGrid.new(4))
    return amax, a0, g, d, spot


def area(w, s):
    return w.v(s.area_current, w.pkg.MSH)


def steps(w):
    u = w.u
    cu = w.cfg
    grow = cu['grow']
    amax, a0, g, d, spot = mk(w, grow)
    t1 = w.real('t1', 0, slo=0, shi=10)
    t2 = w.real('t2', 0, slo=0, shi=10)
    A = spot()
    A.age((t1 * u.day).to(cu['t']))
    x1, g1 = area(w, A), A.is_growing
    w.observe('a1', x1)
    w.check('range after step', w.and_(w.le(0, x1), w.le(x1, amax)))
    A.age((t2 * u.day).to(cu['t2']))
    x2, g2 = area(w, A), A.is_growing
    w.observe('a2', x2)
    w.check('range after two steps', w.and_(w.le(0, x2), w.le(x2, amax)))
    w.check('never grows again', w.imp(not g1, w.and_(not g2, w.le(x2, x1))))
    B = spot()
    B.age((t1 + t2) * u.day)
    xs, gs = area(w, B), B.is_growing
    w.observe('as', xs)
    w.check('steps add up', w.eq(x2, xs))
    w.check('same phase', w.or_(g2 == gs, w.eq(xs, amax)))


def law(w):
    """one step against the closed form"""
    u = w.u
    cu = w.cfg
    grow = cu['grow']
    amax, a0, g, d, spot = mk(w, grow)
    t = w.real('t1', 0, slo=0, shi=10)
    A = spot()
    A.age((t * u.day).to(cu['t']))
    x = area(w, A)
    w.observe('a', x)
    if grow:
        grown = a0 * w.exp(w.log(1 + g) * t)
        if w.decide(w.is_lt(grown, amax)):
            w.check('exponential growth', w.eq(x, grown))
            w.check('still growing', A.is_growing is True or A.is_growing == True)
        elif w.decide(w.is_eq(grown, amax)):
            w.check('at its maximum', w.eq(x, amax))
        else:
            tm_ = (w.log(amax) - w.log(a0)) / w.log(1 + g)
            left = amax - (t - tm_) * d
            exp = left if w.decide(w.is_le(0, left)) else w.frac(0, 1)
            w.check('linear decay from the maximum', w.eq(x, exp))
            w.check('decaying', not A.is_growing)
    else:
        left = a0 - t * d
        exp = left if w.decide(w.is_le(0, left)) else w.frac(0, 1)
        w.check('linear decay', w.eq(x, exp))
        w.check('decaying', not A.is_growing)


def configs(tier):
    out = []
    U = [dict(area='msh', area0='msh', rate='1/day', decay='msh/day', t='day', t2='day'),
         dict(area='km2', area0='msh', rate='1/hr', decay='km2/hr', t='hr', t2='s')]
    for i, un in enumerate(U):
        for grow in (True, False):
            c = dict(un, grow=grow)
            n = f'u{i}-{"grow" if grow else "decay"}'
            out.append((f'steps-{n}', 'steps', c, {}))
            out.append((f'law-{n}', 'law', c, {}))
    return out
