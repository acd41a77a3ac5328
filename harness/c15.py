"""C15 grids tile the sphere"""
from harness.common import *

BOUNDS = ('every grid size, spiral n >= 1 and rectangular nlat >= 3, nlon >= 1, at a generic cell (the code is executed once for an arbitrary '
          'index; sizes relaxed to the reals; sums over all cells are an uninterpreted linear functional); shapes and totals also for the '
          'concrete sizes spiral 1..8 (thorough 1..24) and rectangular 3..5 x 1..4 (thorough 3..9 x 1..9); float32 areas within 1e-6')
ASSUMPTIONS = ['a rectangular grid has at least three latitudes (with two, every cell lies on a pole)']


def spiral(w):
    n = w.whole('n', 1, slo=1, shi=40)
    i = w.index('i', n, 40)
    g = w.m.coordinate_grid.CoordinateGrid.new(n)
    lat, lon = g.grid()
    la, lo = w.cell(lat.to(w.u.rad).value, i), w.cell(lon.to(w.u.rad).value, i)
    w.observe('la', la)
    w.check('latitude range', w.and_(w.le(-w.pi / 2, la), w.le(la, w.pi / 2)))
    w.check('longitude range', w.and_(w.le(0, lo), w.is_lt(lo, 2 * w.pi)))
    w.check('sine of the latitude', w.eq(w.sin(la), 1 - (2 * i + 1) / n))
    phi = (1 + w.sqrt(5)) / 2
    t = i / phi
    w.check('longitude steps', w.eq(w.cos(lo - 2 * w.pi * t), 1, tol=1e-6))
    w.check('equal areas', near(w, w.cell(g.area, i) * n, 1))


def rect(w):
    na = w.whole('nlat', 3, slo=3, shi=30)
    no = w.whole('nlon', 1, slo=1, shi=30)
    i, j = w.index('i', na, 30), w.index('j', no, 30)
    g = w.m.coordinate_grid.RectangularGrid(na, no)
    lat, lon = g.grid()
    la, lo = w.cell(lat.to(w.u.rad).value, j, i), w.cell(lon.to(w.u.rad).value, j, i)
    w.observe('la', la)
    w.observe('lo', lo)
    w.check('latitudes run evenly from pole to pole', w.eq(la, -w.pi / 2 + w.pi * i / (na - 1)))
    w.check('longitudes are evenly spaced from 0', w.eq(lo, 2 * w.pi * j / no))
    w.check('latitude range', w.and_(w.le(-w.pi / 2, la), w.le(la, w.pi / 2)))
    w.check('longitude range', w.and_(w.le(0, lo), w.is_lt(lo, 2 * w.pi)))
    a, b = [x.to(w.u.rad).value for x in g.oned()]
    w.check('one-dimensional coordinates', w.and_(w.eq(w.cell(a, i), la), w.eq(w.cell(b, j), lo)))
    w.check('cell sizes', w.and_(w.eq(w.v(g.dlat, 'rad') * (na - 1), w.pi), w.eq(w.v(g.dlon, 'rad') * no, 2 * w.pi)))


def rectarea(w):
    """the generic cell is away from the poles or on a pole; area is proportional to cos(latitude)"""
    na = w.whole('nlat', 3, slo=3, shi=30)
    no = w.whole('nlon', 1, slo=1, shi=30)
    i, j = w.index('i', na, 30), w.index('j', no, 30)
    g = w.m.coordinate_grid.RectangularGrid(na, no)
    lat, lon = g.grid()
    c = w.np.cos(lat.to(w.u.rad).value)
    la = w.cell(lat.to(w.u.rad).value, j, i)
    # sin(pi i/(nlat-1)) >= 0 for 0 <= i <= nlat-1
    ang = w.pi * i / (na - 1)
    w.fact_sin_nonneg(ang)
    area = g.area
    ar = w.cell(area, j, i)
    tot = w.v(w.np.sum(c))
    w.check('area is proportional to cos(latitude)', w.eq(ar * tot, w.cos(la)))
    w.check('area is non-negative', w.le(0, ar))
    w.check('areas sum to one', w.eq(w.v(w.np.sum(area)), 1))


def concrete(w):
    cg = w.m.coordinate_grid
    for o in w.cfg.get('others', ()):
        # grids of other sizes are in use as well
        h = cg.CoordinateGrid.new(o)
        h.grid(), h.area, h.zeros()
    g = cg.CoordinateGrid.new(w.cfg['size'])
    lat, lon = g.grid()
    sh = tuple(lat.shape)
    z = g.zeros(dtype=w.cfg.get('dtype', 'float32'))
    area = g.area
    want = (w.cfg['size'],) if isinstance(w.cfg['size'], int) else (w.cfg['size'][1], w.cfg['size'][0])
    w.check('one shape', sh == tuple(lon.shape) == tuple(area.shape) == tuple(z.shape) == want)
    w.check('zeros', w.and_(*[w.eq(x, 0) for x in w.vals(z)]))
    la, lo, ar = w.vals(lat, 'rad'), w.vals(lon, 'rad'), w.vals(area)
    w.check('latitude range', w.and_(*[w.and_(w.le(-w.pi / 2, x), w.le(x, w.pi / 2)) for x in la]))
    w.check('longitude range', w.and_(*[w.and_(w.le(0, x), w.is_lt(x, 2 * w.pi)) for x in lo]))
    w.check('non-negative areas', w.and_(*[w.le(0, x, tol=1e-9) for x in ar]))
    w.check('areas sum to one', near(w, sum(ar[1:], ar[0]), 1))
    cs = [w.cos(x) if not isinstance(w.cfg['size'], int) else w.frac(1, 1) for x in la]
    w.check('areas', w.and_(*[near(w, a * sum(cs[1:], cs[0]), c) for a, c in zip(ar, cs)]))
    lat0 = w.angle('lat0', -HALF, HALF)
    lon0 = w.angle('lon0', 0, 2)
    mu = g.cos_angle_from_disk_center(lat0, lon0)
    w.check('viewing angle per cell', tuple(mu.shape) == want)


def configs(tier):
    out = [('spiral', 'spiral', {}, {}), ('rect', 'rect', {}, {}), ('rect-area', 'rectarea', {}, {})]
    sp, re_ = (8, [(3, 1), (3, 2), (4, 3), (5, 4), (3, 4)]) if tier == 'quick' else (24, [(a, b) for a in range(3, 10) for b in range(1, 10)])
    for n in range(1, sp + 1):
        out.append((f'spiral-{n}', 'concrete', dict(size=n, dtype=['float32', 'int16'][n % 2]), {}))
    for s in re_:
        out.append((f'rect-{s[0]}x{s[1]}', 'concrete', dict(size=s), {}))
    for s, o in (((3, 4), ((4, 3), (6, 2), (3, 2), (5, 4), 12)), ((4, 3), ((3, 4), (4, 2))), (6, (5, 7, (3, 2)))):
        out.append((f'among-{s}', 'concrete', dict(size=s, others=o), {}))
    return out
