"""C02 a temperature's fraction is its limb-darkened projected area share"""
from harness.disk import *

BOUNDS = ('three surface cells at visible, limb and hidden positions, each photosphere or covered by a spot of its own; any spot, photosphere and '
          'granule temperatures (equal, printing the same, in any order), any granulation fraction in [0,1]; either any cell areas or any '
          'limb-darkening pair that keeps the visible cells non-negative; one run with any observer direction; runs '
          'with the real rectangular and spiral grids at low resolution')


def prints(w, t):
    """the value a temperature is reported under"""
    return w.rint(t * 100) / 100


def same(w, k, t):
    if not w.sym:
        return abs(k - float(f'{t:.2f}')) < 1e-6
    return bool(w.decide(w.is_eq(k, prints(w, t))))


def shares(w):
    d = build(w)
    total, cov, pl = d.star.calc_coverage(d.obs, granulation_fraction=d.g)
    phot = w.frac(0, 1)
    for t, x in zip(d.cell, d.wt):
        if t is d.T or (same(w, prints(w, d.T), t) if w.sym else f'{d.T:.2f}' == f'{t:.2f}'):
            phot = phot + x
    gT = d.T - d.dT
    seen = []
    for k, x in total.items():
        v = w.label(k)
        e = w.frac(0, 1)
        for t, a in zip(d.cell, d.wt):
            if same(w, v, t):
                e = e + a
        if same(w, v, d.T):
            e = e - d.g * phot
        if same(w, v, gT):
            e = e + d.g * phot
        x = w.v(x)
        w.observe('share', x)
        if w.cfg.get('grid'):
            w.check('share', near(w, x * d.tot, e))
        else:
            w.check('share', w.eq(x, e / d.tot))
        seen.append(v)
    # nothing is left out
    for t, a, v in zip(d.cell, d.wt, d.vis):
        if v:
            w.check('every visible temperature reported', any(same(w, k, t) for k in seen))


def configs(tier):
    return [c for c in layouts('shares', tier) if 'fac' not in c[2] and (tier != 'quick' or c[0] != 'all-spots')]
