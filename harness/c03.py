"""C03 transits"""
from harness.disk import *

BOUNDS = ('grids of one to three cells (mu from 0 to 1, and hidden), observer at the poles, on the equator and between; any orbit radius, any planet radius up to the star, any phase within three turns, '
          'any inclination for single cells and inclination 90 degrees for the others (thorough: any for all); per-temperature shares with spots, granulation, limb darkening; '
          'the 100 x 100 quadrature nodes of a partly covered cell are cut to 4 x 4 (the integrand and rule are the code\'s own); a projected cell has radius 2 sqrt(area) mu and counts as clearly '
          'inside or outside at twice that plus 0.04')
NODES = 4


def orbit(w, near=True):
    """a planet somewhere: keyword arguments, its offset on the disk and its radius (stellar radii)"""
    u, c = w.u, w.cfg
    al = w.pos('orbit', 0.05, 3)
    r = w.real('rp', 0, 1, lo_strict=True, slo=0.02, shi=1)
    be = w.angle('past', -HALF, HALF, 'deg', lo_strict=True, hi_strict=True)
    b = w.v(be, 'rad')
    inc = w.angle('inc', 0, 1, 'deg') if c.get('inc') is None else c['inc'] * u.deg
    i = w.v(inc, 'rad')
    x, y = al * w.sin(b), al * w.cos(b) * w.cos(i)
    return al, r, be, inc, x, y


def mask(w):
    u, c = w.u, w.cfg
    al, r, be, inc, x, y = orbit(w)
    cells = [CELLS[k] for k in c['cells']]
    if c.get('areas'):
        A = [w.pos(f'A{k}', 0.0005, 0.05) for k in range(len(cells))]
    else:
        A = [w.frac(1, 400)] * len(cells)
    G = stub_grid(w, [a * u.deg for a, _ in cells], [b * u.deg for _, b in cells], A)
    R = w.frac(3, 2) * u.R_sun
    s = star(w, G, radius=R)
    obs = c['obs']
    la0, lo0 = w.v(obs[0] * u.deg, 'rad'), w.v(obs[1] * u.deg, 'rad')
    ph = be + 180 * u.deg
    if c.get('prior'):
        for o in (obs, (-obs[0], obs[1] + 180)):
            s.get_transit_mask(o[0] * u.deg, o[1] * u.deg, 0.01 * R, 1 * R, 180 * u.deg, 90 * u.deg)
    got, pl = s.get_transit_mask(obs[0] * u.deg, obs[1] * u.deg, al * R, r * R, ph, inc)
    got = w.vals(got)
    w.check('one value per cell', len(got) == len(cells))
    w.check('planet in front', w.eq(w.v(pl), 1))
    d2 = x * x + y * y
    clear = w.decide(w.is_lt((1 + 2 * r) ** 2, d2))
    for k, (a, b) in enumerate(cells):
        v = w.v(got[k])
        w.check('defined', not w.isnan(v))
        if w.isnan(v):
            continue
        la, lo = w.v(a * u.deg, 'rad'), w.v(b * u.deg, 'rad')
        mu = dot(w, la0, lo0, la, lo)
        if clear:
            w.check('planet beside the star', w.eq(v, 0))
            continue
        w.check('not negative', w.le(0, v))
        w.check('at most all', w.le(v, 1))
        X = w.cos(la) * w.sin(lo - lo0)
        Y = w.cos(la0) * w.sin(la) - w.sin(la0) * w.cos(la) * w.cos(lo - lo0)
        if w.decide(w.is_lt(mu, 0)):
            w.check('far side', w.eq(v, 0))
            continue
        size = 4 * w.sqrt(A[k]) * mu + w.frac(4, 100)
        q2 = (X - x) ** 2 + (Y - y) ** 2
        if w.sym:
            w.nonneg(f'distance{k}', q2, [('sq', X - x)], [('sq', Y - y)])
        D = w.sqrt(q2)
        if w.decide(w.and_(w.is_lt(size, r), w.is_lt(q2, (r - size) ** 2))):
            w.derive(f'near{k}', dict(D=D, q=q2, r=r, s=size), [lambda e: w.eq(e['D'] * e['D'], e['q']), lambda e: w.lt(e['s'], e['r']), lambda e: w.lt(e['q'], (e['r'] - e['s']) ** 2)],
                     lambda e: w.lt(e['D'] + e['s'], e['r']))
            w.check('deep inside', w.eq(v, 1))
        elif w.decide(w.is_lt((r + size) ** 2, q2)):
            w.derive(f'far{k}', dict(D=D, q=q2, r=r, s=size), [lambda e: w.eq(e['D'] * e['D'], e['q']), lambda e: w.le(0, e['D']), lambda e: w.lt(0, e['r']), lambda e: w.lt(0, e['s']), lambda e: w.lt((e['r'] + e['s']) ** 2, e['q'])],
                     lambda e: w.lt(e['s'] + e['r'], e['D']))
            w.check('clearly outside', w.eq(v, 0))


def shares(w):
    """what calc_coverage reports per temperature, planet in front or behind"""
    u, c = w.u, w.cfg
    d = build(w)
    kw = {}
    R = 1 * u.R_sun
    if c['side'] == 'near':
        al, r, be, inc, x, y = orbit(w)
        ph = be + (180 + 360 * c.get('turn', 0)) * u.deg
    else:
        al, r = w.pos('orbit', 0.05, 3), w.real('rp', 0, 1, lo_strict=True, slo=0.02, shi=1)
        ph = w.angle('phase', -HALF, HALF, c.get('unit', 'deg'), lo_strict=True, hi_strict=True) + 360 * c.get('turn', 0) * u.deg
        inc = w.angle('inc', 0, 1, c.get('unit', 'deg'))
        if not w.sym:
            w.assume(math.cos(float(w.v(ph, 'rad'))) > 1e-9)
    if c.get('prior') == 3:
        for la in (d.qlat, 0 * u.deg):
            d.star.calc_coverage({'lat': la, 'lon': 0 * u.deg}, orbit_radius=0.01 * R, planet_radius=1 * R, phase=180 * u.deg, inclination=90 * u.deg)
    ar = {'granulation_fraction': d.g} if c.get('gran') else {}
    total, cov, pl = d.star.calc_coverage(d.obs, orbit_radius=al * R, planet_radius=r * R, phase=ph, inclination=inc, **ar)
    w.check('same temperatures', sorted(total) == sorted(cov))
    clear = c['side'] == 'near' and w.decide(w.is_lt((1 + 2 * r) ** 2, x * x + y * y))
    for k in total:
        if k not in cov:
            continue
        t, v = w.v(total[k]), w.v(cov[k])
        w.check('defined', not w.isnan(v))
        if w.isnan(v) or w.isnan(t):
            continue
        if c['side'] == 'far':
            w.check('planet behind', w.eq(v, 0))
        elif clear:
            w.check('planet beside the star', w.eq(v, 0))
        else:
            w.check('not negative', w.le(0, v))
            w.check('not more than is there', w.le(v, t))


def configs(tier):
    out = []
    O = dict(linspace_cut=NODES, ite=True, t_feas=400)
    for g in (False, True):
        for i, cells, spots in ((90, (0, 2), (0, 1)), (90, (0, 4), (0,)), (90, (2, 8, 4), (1,)), (None, (2,), ())):
            if g and (len(cells) > 2 or tier == 'quick' and len(spots) > 1):
                continue
            nm = f'{i}-{"".join(map(str, cells))}' + '-gran' * g
            out.append((f'near-{nm}', 'shares', dict(inc=i, cells=cells, spots=spots, free='none', obs=(90, 0), gran=g, side='near', turn=g), O))
        out.append((f'near-ld-{g}', 'shares', dict(inc=90, cells=(0, 4), spots=(0,), free='ld', obs=(90, 0), gran=g, side='near'), O))
        for j, (cells, spots, free) in enumerate((((0, 2), (0, 1), 'none'), ((0, 1, 4), (1,), 'none'), ((5, 8), (), 'none'))):
            if g and j != 2 and tier == 'quick':
                continue
            out.append((f'far-{j}' + '-gran' * g, 'shares', dict(cells=cells, spots=spots, free=free, obs=(90, 0), gran=g, side='far', turn=j - 1, unit='rad' if g else 'deg'), dict(acos_lens=True, t_feas=400)))
    for i in (90, None) if tier == 'thorough' else (90,):
        for o, cells in (((90, 0), (0,)), ((90, 0), (2,)), ((90, 0), (4,)), ((90, 0), (0, 2)), ((90, 0), (8, 2)), ((0, 0), (6,)), ((0, 0), (7, 3)), ((30, 60), (3,)), ((30, 0), (7,)), ((-90, 0), (4, 2))):
            if tier == 'quick' and len(cells) > 1 and cells not in ((0, 2), (7, 3)):
                continue
            out.append((f'mask-{i}-{o[0]}-{"".join(map(str, cells))}', 'mask', dict(inc=i, cells=cells, obs=o), O))
    out.append(('again-far', 'shares', dict(cells=(0, 2), spots=(0,), free='none', obs=(90, 0), gran=False, side='far', prior=3), dict(O, acos_lens=True)))
    for k in (0, 4):
        out.append((f'again-mask-{k}', 'mask', dict(inc=90, cells=(k,), obs=(90, 0), prior=1), O))
    if tier == 'quick':
        for k in (0, 2):
            out.append((f'mask-None-90-{k}', 'mask', dict(inc=None, cells=(k,), obs=(90, 0)), O))
    return out
