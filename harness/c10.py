"""C10 facula ageing"""
from harness.common import *

BOUNDS = ('one facula, one step against the closed form and two consecutive steps t1, t2 >= 0 against one step t1+t2; all radii, '
          'lifetimes and times real-valued, maximum radius / initial radius unbounded; two unit sets')


def mk(w, grow):
    u = w.u
    c = w.cfg
    rmax = w.pos('rmax', 100, 5000)
    r0 = w.pos('r0', 10, 5000)
    w.assume(w.le(r0, rmax))
    life = w.pos('life', 1, 50)

    def fac():
        return w.pkg.Facula(lat=0 * u.deg, lon=0 * u.deg, r_max=(rmax * u.km).to(c['r']), r_init=(r0 * u.km).to(c['r0']),
                            depth=100 * u.km, lifetime=(life * u.hr).to(c['life']), floor_teff_slope=0 * u.K / u.km,
                            floor_teff_min_rad=20 * u.km, floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km,
                            wall_teff_intercept=100 * u.K, growing=grow, gridmaker=w.m.coordinate_grid.CoordinateGrid.new(4))
    return rmax, r0, life, fac


def steps(w):
    u = w.u
    c = w.cfg
    rmax, r0, life, fac = mk(w, c['grow'])
    t1 = w.real('t1', 0, slo=0, shi=60)
    t2 = w.real('t2', 0, slo=0, shi=60)
    A = fac()
    A.age((t1 * u.hr).to(c['t']))
    x1, g1 = w.v(A.radius, 'km'), A.is_growing
    w.observe('r1', x1)
    w.check('range after step', w.and_(w.lt(0, x1), w.le(x1, rmax)))
    A.age((t2 * u.hr).to(c['t2']))
    x2, g2 = w.v(A.radius, 'km'), A.is_growing
    w.observe('r2', x2)
    w.check('range after two steps', w.and_(w.lt(0, x2), w.le(x2, rmax)))
    w.check('never grows again', w.imp(not g1, w.and_(not g2, w.le(x2, x1))))
    B = fac()
    B.age((t1 + t2) * u.hr)
    xs, gs = w.v(B.radius, 'km'), B.is_growing
    w.observe('rs', xs)
    w.check('steps add up', w.eq(x2, xs))
    w.check('same phase', w.or_(g2 == gs, w.eq(xs, rmax)))


def law(w):
    u = w.u
    c = w.cfg
    rmax, r0, life, fac = mk(w, c['grow'])
    t = w.real('t1', 0, slo=0, shi=60)
    A = fac()
    A.age((t * u.hr).to(c['t']))
    x = w.v(A.radius, 'km')
    w.observe('r', x)
    if c['grow']:
        grown = r0 * w.exp(2 * t / life)
        if w.decide(w.is_lt(grown, rmax)):
            w.check('exponential growth', w.eq(x, grown))
            w.check('still growing', bool(A.is_growing))
        elif w.decide(w.is_eq(grown, rmax)):
            w.check('at its maximum', w.eq(x, rmax))
        else:
            tm_ = (w.log(rmax) - w.log(r0)) * life / 2
            w.check('exponential decay from the maximum', w.eq(x, rmax * w.exp(-2 * (t - tm_) / life)))
            w.check('decaying', not A.is_growing)
    else:
        w.check('exponential decay', w.eq(x, r0 * w.exp(-2 * t / life)))
        w.check('decaying', not A.is_growing)


def configs(tier):
    out = []
    U = [dict(r='km', r0='km', life='hr', t='hr', t2='hr'), dict(r='R_sun', r0='km', life='day', t='s', t2='day')]
    for i, un in enumerate(U):
        for grow in (True, False):
            n = f'u{i}-{"grow" if grow else "decay"}'
            out.append((f'steps-{n}', 'steps', dict(un, grow=grow), {}))
            out.append((f'law-{n}', 'law', dict(un, grow=grow), {}))
    return out
