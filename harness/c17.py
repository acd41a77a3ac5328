"""C17 resampling for display"""
from harness.common import *

BOUNDS = ('spiral grids of 1..4 points (thorough 1..6), every display size (generic cell, sizes relaxed to the reals) and every data value; '
          'concrete display sizes 3x2 and 4x3 (8-point grids too; thorough: 16 and 32) for shape, unit, linearity and weights; rectangular grids 3x2, 2x4, 3x3, 4x3 and 5x2 with every data value')


def data(w, n, name='d'):
    return [w.real(f'{name}{i}', slo=-100, shi=4000) for i in range(n)]


def bounded(w, vals, ds, what):
    for v in vals:
        w.check(what + ': defined', not w.isnan(v))
        if w.isnan(v):
            continue
        w.check(what + ': not above the largest', w.or_(*[w.le(v, d) for d in ds]))
        w.check(what + ': not below the smallest', w.or_(*[w.le(d, v) for d in ds]))


def order(w, ds):
    """cover all data by ordered data (which value is the smallest / largest is one of the cases)"""
    n = len(ds)
    if n == 1:
        return ds[0], ds[0]
    lo, hi = w.choice('lo', n), w.choice('hi', n - 1)
    hi += hi >= lo
    for d in ds:
        w.assume(w.le(ds[lo], d))
        w.assume(w.le(d, ds[hi]))
    return ds[lo], ds[hi]


def generic(w):
    n = w.cfg['n']
    na = w.whole('nlat', 3, slo=3, shi=12)
    no = w.whole('nlon', 1, slo=1, shi=12)
    i, j = w.index('i', na, 12), w.index('j', no, 12)
    g = w.m.coordinate_grid.SpiralGrid(n)
    ds = data(w, n)
    lo, hi = order(w, ds)
    w.fact_sin_nonneg(w.pi * i / (na - 1))
    lats, lons = g.grid()
    for a, b in zip(w.vals(lats, 'rad'), w.vals(lons, 'rad')):
        dot_lemma(w, a, b, -w.pi / 2 + w.pi * i / (na - 1), 2 * w.pi * j / no)
    lat, lon, out = g.display_grid(na, no, w.qarr([d * w.u.K for d in ds], 'K'))
    v = w.cell(out.to(w.u.K).value, j, i)
    w.check('defined', not w.isnan(v))
    if not w.isnan(v):
        # v = sum of weights x data; the weights are the responses to unit data
        W = [w.cell(g.display_grid(na, no, w.arr([1 if k == q else 0 for k in range(n)]))[2].value, j, i) for q in range(n)]
        w.check('weights', w.and_(*[w.le(0, x) for x in W]))
        w.nonneg('hi - v', hi - v, *[[x, hi - d] for x, d in zip(W, ds)])
        w.nonneg('v - lo', v - lo, *[[x, d - lo] for x, d in zip(W, ds)])
        w.check('not above the largest', w.le(v, hi))
        w.check('not below the smallest', w.le(lo, v))
    w.check('latitude', w.eq(w.cell(lat, i), -w.pi / 2 + w.pi * i / (na - 1)))
    w.check('longitude', w.eq(w.cell(lon, j), 2 * w.pi * j / no))


def linear(w):
    n, (na, no) = w.cfg['n'], w.cfg['to']
    g = w.m.coordinate_grid.SpiralGrid(n)
    unit = w.cfg['unit']
    x, y = data(w, n, 'x'), data(w, n, 'y')
    a = w.real('a', slo=-3, shi=3)

    def disp(vals):
        arr = w.arr(vals) if unit is None else w.qarr([v * w.u.Unit(unit) for v in vals], unit)
        lat, lon, out = g.display_grid(na, no, arr)
        w.check('shape', tuple(out.shape) == (no, na) and tuple(lat.shape) == (na,) and tuple(lon.shape) == (no,))
        if unit is not None:
            w.check('unit', out.unit == w.u.Unit(unit))
        return w.vals(out, unit) if unit is not None else w.vals(out)
    if w.cfg.get('prior'):
        for s in ((na + 1, no), (no, na), w.cfg['prior']):
            g.display_grid(s[0], s[1], w.arr([1] * n))
    fx, fy = disp(x), disp(y)
    fz = disp([a * p + q for p, q in zip(x, y)])
    w.observe('fx', fx)
    w.check('linear in the data', w.and_(*[w.eq(z, a * p + q) for p, q, z in zip(fx, fy, fz)]))
    c = w.real('c', slo=-3, shi=4000)
    w.check('constant data stay constant', w.and_(*[w.eq(z, c) for z in disp([c] * n)]))
    # weights: response to a unit value at one point
    W = [disp([1 if k == i else 0 for k in range(n)]) for i in range(n)]
    lats, lons = g.grid()
    la, lo = w.vals(lats, 'rad'), w.vals(lons, 'rad')
    R = w.m.coordinate_grid.RectangularGrid(na, no)
    rl, ro = R.grid()
    rl, ro = w.vals(rl, 'rad'), w.vals(ro, 'rad')
    for cidx in range(len(rl)):
        near_ = [dot(w, la[i], lo[i], rl[cidx], ro[cidx]) for i in range(n)]
        for i in range(n):
            w.check('weights are positive shares', w.and_(w.le(0, W[i][cidx]), w.le(W[i][cidx], 1)))
            for k in range(n):
                if i != k and w.decide(w.is_lt(near_[k], near_[i])):
                    w.check('nearer points weigh more', w.le(W[k][cidx], W[i][cidx]))


def rect(w):
    cg = w.m.coordinate_grid
    na, no = w.cfg['size']
    g = cg.RectangularGrid(na, no)
    ds = data(w, na * no)
    arr = w.arr(ds).reshape(no, na)
    lat, lon, out = g.display_grid(na, no, arr * w.u.K)
    w.check('same shape', tuple(out.shape) == (no, na))
    w.check('same data', w.and_(*[w.eq(x, y) for x, y in zip(w.vals(out, 'K'), ds)]))
    a, b = g.oned()
    w.check('own coordinates', w.and_(len(w.vals(lat)) == na, len(w.vals(lon)) == no,
                                      *[w.eq(x, y) for x, y in zip(w.vals(lat) + w.vals(lon), w.vals(a, 'rad') + w.vals(b, 'rad'))]))
    for bad, shp in (((na + 1, no), (no, na)), ((na, no + 1), (no, na)), ((na, no), (na, no) if na != no else None), ((na, no), (na * no,))):
        if shp is None:
            continue
        exc = w.raises(lambda: g.display_grid(bad[0], bad[1], w.arr(ds).reshape(*shp)), TypeError, ValueError)
        w.check('mismatched data are refused', exc is not None)


def refuse(w):
    g = w.m.coordinate_grid.SpiralGrid(4)
    for shp in ((3,), (2, 2), (5,)):
        k = 1
        for x in shp:
            k *= x
        exc = w.raises(lambda: g.display_grid(3, 2, w.arr(data(w, k)).reshape(*shp)), TypeError, ValueError)
        w.check('mismatched data are refused', exc is not None)


def configs(tier):
    out = []
    for n in range(1, 5 if tier == 'quick' else 7):
        out.append((f'generic-{n}', 'generic', dict(n=n), {}))
        for k, (to, un) in enumerate([((3, 2), 'K'), ((4, 3), None)]):
            if n <= 3 or tier != 'quick':
                out.append((f'linear-{n}-{k}', 'linear', dict(n=n, to=to, unit=un), {}))
    for n in (8,) if tier == 'quick' else (8, 16, 32):
        out.append((f'linear-{n}', 'linear', dict(n=n, to=(3, 2), unit='K'), {}))
    out.append(('again', 'linear', dict(n=3, to=(4, 3), unit='K', prior=(6, 2)), {}))
    for s in ((3, 2), (2, 4), (3, 3), (4, 3), (5, 2)):
        out.append((f'rect-{s[0]}x{s[1]}', 'rect', dict(size=s), {}))
    out.append(('refuse', 'refuse', {}, {}))
    return out
