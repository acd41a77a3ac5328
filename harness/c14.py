"""C14 features live on the grid of their star"""
from harness.common import *

BOUNDS = ('spiral grids of 3 and 6 points and rectangular grids of 3x2, 2x3 and 3x4 cells in every ordered pair; one or two features with every '
          'position, size and stellar radius; all ways of joining a star (constructors, add of one, list or tuple, birth of up to 2, mature spots, grid replacement)')

GRIDS = [3, 6, (3, 2), (2, 3), (3, 4)]


def size(w, g):
    return g if isinstance(g, int) else g[0] * g[1]


def shape(g):
    return (g,) if isinstance(g, int) else (g[1], g[0])


PLACES = [(0, 0), (37, 250), (-64, 101)]


def place(w, name):
    if w.cfg.get('stub'):
        lat, lon, la, lo = pt(w, name)
        for x, y in w.cells:
            dot_lemma(w, la, lo, x, y)
        return lat, lon, la, lo
    la, lo = PLACES[w.choice(name, len(PLACES)) if w.cfg.get('places') else (0 if name[1] == '0' else 1)]
    return la * w.u.deg, lo * w.u.deg, None, None


def mkspot(w, i, g, use=None):
    u = w.u
    lat, lon, _, _ = place(w, f's{i}') if use is None else use[:4]
    area = (w.real(f'sa{i}', 1000000, 3000000000000, cls='area') if not w.cfg.get('fixed') else 10 ** 11) if use is None else use[4]
    k = dict(gridmaker=g) if not isinstance(g, (int, tuple)) else dict(grid_params=g)
    s = w.pkg.StarSpot(lat=lat, lon=lon, area_max=3 * area * u.km ** 2, area_current=area * u.km ** 2, teff_umbra=2500 * u.K,
                       teff_penumbra=2700 * u.K, area_over_umbra_area=4, **k)
    return s, (lat, lon, None, None, area)


def mkfac(w, i, g, use=None):
    u = w.u
    lat, lon, _, _ = place(w, f'f{i}') if use is None else use[:4]
    rad = w.pos(f'fr{i}', 1e4, 1e6) if use is None else use[4]
    k = dict(gridmaker=g) if not isinstance(g, (int, tuple)) else dict(grid_params=g)
    f = w.pkg.Facula(lat=lat, lon=lon, r_max=rad * u.km, r_init=rad * u.km, depth=100 * u.km, lifetime=6 * u.hr,
                     floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=20 * u.km, floor_teff_base_dteff=-100 * u.K,
                     wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K, **k)
    return f, (lat, lon, None, None, rad)


def masks(w, kind, f):
    u = w.u
    m = f.map_pixels(700000 * u.km)
    return [m[2500 * u.K], m[2700 * u.K]] if kind == 'spot' else [m]


def same(w, kind, f, g, use):
    """f is mapped as if it had been built on grid g"""
    new = w.m.coordinate_grid.CoordinateGrid.new(g)
    ref, _ = (mkspot if kind == 'spot' else mkfac)(w, 9, new, use)
    for a, b in zip(masks(w, kind, f), masks(w, kind, ref)):
        w.check('mask has the shape of the grid', tuple(a.shape) == shape(g))
        x, y = w.bools(a), w.bools(b)
        w.check('mask covers the same cells', len(x) == len(y) and w.and_(*[w.iff(p, q) for p, q in zip(x, y)]))


def mk(w, kind):
    return mkspot if kind == 'spot' else mkfac


def coll(w, kind, *fs, **k):
    return (w.pkg.SpotCollection if kind == 'spot' else w.pkg.FaculaCollection)(*fs, **k)


def stubs(w):
    """collections on grids of arbitrary points"""
    u = w.u
    kind = w.cfg['kind']
    P = [pt(w, f'p{i}') for i in range(3)]
    w.cells = [(p[2], p[3]) for p in P]
    A = stub_grid(w, [P[0][0]], [P[0][1]])
    B = stub_grid(w, [P[1][0], P[2][0]], [P[1][1], P[2][1]])
    f, use = mk(w, kind)(w, 0, A)
    via = w.choice('via', 3)
    if via == 0:
        coll(w, kind, f, gridmaker=B)
    elif via == 1:
        adder(kind, coll(w, kind, gridmaker=B))(f)
    else:
        coll(w, kind, f, gridmaker=A).set_gridmaker(B)
    ref, _ = mk(w, kind)(w, 9, B, use)
    for a, b in zip(masks(w, kind, f), masks(w, kind, ref)):
        x, y = w.bools(a), w.bools(b)
        w.check('mask covers the same cells', len(x) == len(y) == 2 and w.and_(*[w.iff(p, q) for p, q in zip(x, y)]))


def members(kind, c):
    return list(c.spots if kind == 'spot' else c.faculae)


def adder(kind, c):
    return c.add_spot if kind == 'spot' else c.add_faculae


def joined(w):
    """collections: constructor, add, replacement"""
    kind = w.cfg['kind']
    a, b = w.cfg['a'], w.cfg['b']
    new = w.m.coordinate_grid.CoordinateGrid.new
    f0, u0 = mk(w, kind)(w, 0, a if w.cfg.get('params') else new(a))
    f1, u1 = mk(w, kind)(w, 1, new(a))
    if w.cfg.get('prior'):
        masks(w, kind, f0)
        masks(w, kind, f1)
    via = w.choice('via', 5)
    if via == 0:
        c = coll(w, kind, f0, f1, gridmaker=new(b))
    elif via == 1:
        c = coll(w, kind, grid_params=b)
        adder(kind, c)(f0)
        adder(kind, c)(f1)
    elif via == 2:
        c = coll(w, kind, f0, gridmaker=new(b))
        adder(kind, c)([f1])
    elif via == 3:
        c = coll(w, kind, gridmaker=new(a))
        adder(kind, c)((f0, f1))
        c.set_gridmaker(new(b))
    else:
        c = coll(w, kind, f0, gridmaker=new(a))
        c.set_gridmaker(new(b))
        adder(kind, c)(f1)
    got = members(kind, c)
    w.check('both features are there', len(got) == 2 and got[0] is f0 and got[1] is f1)
    same(w, kind, f0, b, u0)
    same(w, kind, f1, b, u1)


def instar(w):
    """star: constructor and add"""
    u = w.u
    kind = w.cfg['kind']
    a, b = w.cfg['a'], w.cfg['b']
    new = w.m.coordinate_grid.CoordinateGrid.new
    f0, u0 = mk(w, kind)(w, 0, new(a))
    f1, u1 = mk(w, kind)(w, 1, new(a))
    c = coll(w, kind, f0, gridmaker=new(a))
    if w.cfg.get('prior'):
        masks(w, kind, f0)
        masks(w, kind, f1)
    other = coll(w, 'facula' if kind == 'spot' else 'spot', grid_params=a)
    s = w.pkg.Star(teff=3300 * u.K, radius=700000 * u.km, period=10 * u.day, spots=c if kind == 'spot' else other,
                   faculae=c if kind != 'spot' else other, grid_params=b)
    add = s.add_spot if kind == 'spot' else s.add_fac
    add(f1 if w.choice('one', 2) else [f1])
    got = members(kind, s.spots if kind == 'spot' else s.faculae)
    w.check('both features are there', len(got) == 2 and got[0] is f0 and got[1] is f1)
    same(w, kind, f0, b, u0)
    same(w, kind, f1, b, u1)
    if w.cfg.get('fixed'):
        w.check('map has the shape of the grid', tuple(s.map.shape) == shape(b) == tuple(s.gridmaker.zeros().shape))


def spotgen(w, rng, a, **k):
    u = w.u
    return w.pkg.SpotGenerator(dist_area_mean=500 * w.u.Unit('msh'), dist_area_logsigma=0.2, umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                               growth_rate=0.5 / u.day, decay_rate=10 * w.u.Unit('msh') / u.day, init_area=10 * w.u.Unit('msh'), distribution='iso',
                               coverage=0.1, rng=rng, **k)


def facgen(w, rng, a, **k):
    u = w.u
    return w.pkg.FaculaGenerator(dist_r_peak=800 * u.km, dist_r_logsigma=0.2, depth=100 * u.km, dist_life_peak=6 * u.hr, dist_life_logsigma=0.2,
                                 floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=20 * u.km, floor_teff_base_dteff=-100 * u.K,
                                 wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K, coverage=0.001, rng=rng, **k)


class Placed:
    """a generator whose uniform draws (the positions) are fixed"""

    def __init__(self, w):
        self.w, self.r, self.n = w, w.rng('rng'), 0

    def random(self, size=None, *a, **k):
        def one():
            self.n += 1
            return self.w.frac([31, 62, 17, 88][self.n % 4], 100)
        if size is None:
            return one()
        return self.w.arr([one() for _ in range(int(size))])

    def __getattr__(self, name):
        return getattr(self.r, name)


def born(w):
    """birth on a star whose generators were built on another grid"""
    u = w.u
    kind = w.cfg['kind']
    a, b = w.cfg['a'], w.cfg['b']
    new = w.m.coordinate_grid.CoordinateGrid.new
    k = dict(grid_params=a) if w.cfg.get('params') else dict(gridmaker=new(a))
    rng = Placed(w)
    gen = (spotgen if kind == 'spot' else facgen)(w, rng, a, **k)
    s = w.pkg.Star(teff=3300 * u.K, radius=700000 * u.km, period=10 * u.day, spots=w.pkg.SpotCollection(grid_params=a),
                   faculae=w.pkg.FaculaCollection(grid_params=a), grid_params=b,
                   **{'spot_generator' if kind == 'spot' else 'fac_generator': gen})
    if w.cfg.get('mature'):
        s.generate_mature_spots(0.0000001)
    elif kind == 'spot':
        s.birth_spots(1 * u.hr)
    else:
        s.birth_faculae(1 * u.hr)
    got = members(kind, s.spots if kind == 'spot' else s.faculae)
    w.observe('n', len(got))
    for f in got:
        if kind == 'spot':
            use = (f.coords['lat'], f.coords['lon'], None, None, w.v(f.area_current, 'km2'))
            new_ = w.m.coordinate_grid.CoordinateGrid.new(b)
            ref = w.pkg.StarSpot(lat=use[0], lon=use[1], area_max=f.area_max, area_current=f.area_current, teff_umbra=f.teff_umbra,
                                 teff_penumbra=f.teff_penumbra, area_over_umbra_area=f.total_area_over_umbra_area, gridmaker=new_)
        else:
            new_ = w.m.coordinate_grid.CoordinateGrid.new(b)
            ref = w.pkg.Facula(lat=f.lat, lon=f.lon, r_max=f.r_max, r_init=f.radius, depth=f.depth, lifetime=f.lifetime,
                               floor_teff_slope=f.floor_teff_slope, floor_teff_min_rad=f.floor_teff_min_rad,
                               floor_teff_base_dteff=f.floor_teff_base_dteff, wall_teff_slope=f.wall_teff_slope,
                               wall_teff_intercept=f.wall_teff_intercept, gridmaker=new_)
        for x, y in zip(masks(w, kind, f), masks(w, kind, ref)):
            w.check('mask has the shape of the grid', tuple(x.shape) == shape(b))
            x, y = w.bools(x), w.bools(y)
            w.check('mask covers the same cells', len(x) == len(y) and w.and_(*[w.iff(p, q) for p, q in zip(x, y)]))


def configs(tier):
    out = []
    pairs = [(a, b) for a in GRIDS for b in GRIDS if a != b]
    if tier == 'quick':
        pairs = [(3, 6), (6, (3, 2)), ((3, 2), 6), ((3, 2), (2, 3)), ((2, 3), 3), ((3, 2), (3, 4))]
    for kind in ('spot', 'facula'):
        for i, (a, b) in enumerate(pairs):
            out.append((f'join-{kind}-{i}', 'joined', dict(kind=kind, a=a, b=b, params=i % 2), {}))
            out.append((f'star-{kind}-{i}', 'instar', dict(kind=kind, a=a, b=b), {}))
            out.append((f'fixed-{kind}-{i}', 'instar', dict(kind=kind, a=a, b=b, fixed=1), {}))
            out.append((f'born-{kind}-{i}', 'born', dict(kind=kind, a=a, b=b, params=i % 2), dict(poisson_max=2 if tier != 'quick' else 1)))
        out.append((f'again-join-{kind}', 'joined', dict(kind=kind, a=3, b=(3, 2), prior=1), {}))
        out.append((f'again-star-{kind}', 'instar', dict(kind=kind, a=(3, 2), b=(2, 3), prior=1), {}))
        out.append((f'stub-{kind}', 'stubs', dict(kind=kind, stub=1), {}))
    for i, (a, b) in enumerate(pairs[:2]):
        out.append((f'mature-{i}', 'born', dict(kind='spot', a=a, b=b, mature=1), dict(draw_max=3)))
    return out
