"""C30 mean disk temperature"""
from harness.disk import *

BOUNDS = ('two or three surface cells, each photosphere or covered by a spot of its own, visible or hidden; any temperatures, cell areas or limb darkening; '
          'any granule temperature; a facula of any wall and floor temperature on the disk; featureless stars seen from any direction')


def mean(w):
    d = build(w)
    got = d.star.average_teff(d.obs)
    A = w.v(got, 'K')
    w.observe('average', A)
    total, _, _ = d.star.calc_coverage(d.obs)
    ks = [(w.label(k), w.v(x)) for k, x in total.items()]
    m = w.frac(0, 1)
    for k, x in ks:
        m = m + k ** 4 * x
    w.check('fourth power is the weighted mean', w.eq(A ** 4, m) if w.sym else abs(A ** 4 - m) <= 1e-9 * m)
    # between the coolest and the hottest cell in view (reported to 0.01 K)
    seen = [t for t, v in zip(d.cell, d.vis) if v]
    e = w.frac(1, 100)
    w.check('not below the coolest', w.or_(*[w.le(t - e, A) for t in seen]))
    w.check('not above the hottest', w.or_(*[w.le(A, t + e) for t in seen]))


def fac(w):
    """with a facula: between the coolest and hottest reported"""
    d = build(w)
    A = w.v(d.star.average_teff(d.obs), 'K')
    w.observe('average', A)
    total, _, _ = d.star.calc_coverage(d.obs)
    m = w.frac(0, 1)
    ks = [(w.label(k), w.v(x)) for k, x in total.items()]
    for k, x in ks:
        m = m + k ** 4 * x
    w.check('fourth power is the weighted mean', w.eq(A ** 4, m) if w.sym else abs(A ** 4 - m) <= 1e-9 * m)
    w.check('not below the coolest', w.or_(*[w.le(t, A) for t, _ in ks]))
    w.check('not above the hottest', w.or_(*[w.le(A, t) for t, _ in ks]))


def plain(w):
    d = build(w)
    A = w.v(d.star.average_teff(d.obs), 'K')
    w.observe('average', A)
    w.check('photosphere', w.and_(w.le(d.T - w.frac(1, 100), A), w.le(A, d.T + w.frac(1, 100))))


def configs(tier):
    out = []
    for cells, spots in (((0, 1), (0,)), ((0, 1, 4), (1,)), ((0, 4), (0, 1)), ((0, 5), (0, 1)), ((2, 1), (0, 1)), ((3, 5), (0,))):
        for g in (False, True):
            nm = f'{"".join(map(str, cells))}-{"".join(map(str, spots))}' + '-gran' * g
            out.append((f'mean-{nm}', 'mean', dict(cells=cells, spots=spots, free='areas', obs=(90, 0), gran=g), {}))
    out.append(('mean-again', 'mean', dict(cells=(0, 3, 4), spots=(1,), free='areas', obs=(0, 0), gran=False, prior=1), {}))
    out.append(('mean-view', 'mean', dict(cells=(0, 3, 4), spots=(1,), free='areas', obs=(0, 0), gran=False, prior=2), {}))
    out.append(('mean-ld', 'mean', dict(cells=(0, 4), spots=(0, 1), free='ld', obs=(90, 0), gran=True), {}))
    out.append(('fac', 'fac', dict(cells=(0, 6), fac=(45, 0), free='areas', obs=(90, 0), gran=False), {}))
    out.append(('fac-cool', 'fac', dict(cells=(0, 6), fac=(45, 0), free='areas', obs=(90, 0), gran=False, cool_wall=1), {}))
    for free in ('areas', 'ld'):
        out.append((f'plain-{free}', 'plain', dict(cells=(0, 5), free=free, obs=(90, 0)), {}))
    out.append(('plain-any-direction', 'plain', dict(cells=(0,), free='none', gran=False), {}))
    for nm, g in (('rect', (3, 4)),):
        out.append((f'plain-{nm}', 'plain', dict(grid=g, free='none', obs=(20, 40)), {}))
    return out
