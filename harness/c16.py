"""C16 grid comparison"""
from harness.common import *

BOUNDS = 'all pairs of kinds (rectangular, spiral); size parameters symbolic whole numbers >= 1'


def mk(w, name, kind):
    cg = w.m.coordinate_grid
    if kind == 0:
        a, b = w.whole(name + '.nlat', 1, 60, slo=1, shi=6), w.whole(name + '.nlon', 1, 60, slo=1, shi=6)
        return cg.RectangularGrid(a, b), (0, a, b)
    a = w.whole(name + '.n', 1, 60, slo=1, shi=6)
    return cg.SpiralGrid(a), (1, a)


def compare(w):
    g, p = mk(w, 'g', w.choice('k1', 2))
    h, q = mk(w, 'h', w.choice('k2', 2))
    same = p[0] == q[0] and w.and_(*[w.eq(x, y) for x, y in zip(p[1:], q[1:])])
    B = lambda x: w.bools(x)[0]
    e = B(g == h)
    w.check('equal exactly when same kind and size', w.iff(e, same))
    w.check('symmetric', w.iff(B(h == g), e))
    w.check('inequality is the negation', w.iff(B(g != h), w.not_(e)))
    w.check('reflexive', B(g == g))
    w.check('not a grid', w.raises(lambda: g == w.cfg['other'], TypeError) == 'TypeError')
    w.check('not a grid either', w.raises(lambda: g != 5, TypeError) == 'TypeError')


def build(w):
    cg = w.m.coordinate_grid
    n, a, b = w.choice('n', 4) + 1, w.choice('a', 3) + 3, w.choice('b', 3) + 1
    s = cg.CoordinateGrid.new(n)
    r = cg.CoordinateGrid.new((a, b))
    w.check('spiral from an int', isinstance(s, cg.SpiralGrid) and s.n_points == n)
    w.check('rectangular from a pair', isinstance(r, cg.RectangularGrid) and r.nlat == a and r.nlon == b)
    for bad in (1.5, 'x', [3, 4], None):
        w.check('anything else is refused', w.raises(lambda: cg.CoordinateGrid.new(bad), TypeError) == 'TypeError')


def configs(tier):
    return [('compare-str', 'compare', dict(other='grid'), {}), ('compare-none', 'compare', dict(other=None), {}),
            ('build', 'build', {}, {})]
