"""C01 disk fractions are a partition"""
from harness.disk import *

BOUNDS = ('three surface cells (thorough: four) at visible, limb and hidden positions, each photosphere or covered by a spot of its own; any spot, photosphere and '
          'granule temperatures (equal, printing the same, in any order), any granulation fraction in [0,1]; either any cell areas or any '
          'limb-darkening pair that keeps the visible cells non-negative; one run with any observer direction; runs with a facula on the disk '
          'and with the real rectangular and spiral grids at low resolution')


def part(w):
    d = build(w)
    total, cov, pl = d.star.calc_coverage(d.obs, granulation_fraction=d.g)
    vals = [w.v(x) for x in total.values()]
    w.observe('total', vals)
    s = w.frac(0, 1)
    for x in vals:
        s = s + x
    w.check('sum is one', w.eq(s, 1))
    eps = w.frac(1, 10 ** 9) if w.cfg.get('grid') else w.frac(0, 1)
    for x in vals:
        w.check('each in [0,1]', w.and_(w.le(-eps, x), w.le(x, 1 + eps)))


def configs(tier):
    return layouts('part', tier)
