"""C21 mature spots"""
from harness.common import *

BOUNDS = ('any coverage in [0,1] (and any outside), stellar radius, generator parameters and draws, for histories of up to 2 (thorough: 3) '
          'spots and no redraw of the area ratio beyond one; longer histories are cut')
ASSUMPTIONS = ['a decaying generator has a positive growth rate', 'no spot starts or is drawn bigger than half the star', 'the initial area is at most the mean peak area']


def total(w, spots, R):
    return sum([w.v(s.angular_radius(R), 'rad')**2 * w.pi for s in spots], 0)


class Hinted:
    """the random source, with facts about the growth over the drawn share of the mean lifetime"""

    def __init__(self, w, amax, a0, g, d):
        self.w, self.r, self.k = w, w.rng('r'), (amax, a0, g, d)

    def random(self, size=None, *a, **k):
        x = self.r.random(size, *a, **k)
        if size is None:
            w = self.w
            amax, a0, g, d = self.k
            life = amax / d + w.log(amax / a0) / g
            w.fact_exp(w.log(1 + g) * x * life, amax / a0)
        return x

    def __getattr__(self, n):
        return getattr(self.r, n)


def mature(w):
    u, MSH = w.u, w.pkg.MSH
    static = w.cfg['static']
    if w.cfg.get('fix'):
        # static: the peak area is fixed, every other quantity free
        amax, a0, sig = w.frac(500, 1), w.frac(10, 1), w.frac(0, 1)
    else:
        amax, a0, sig = w.pos('amax', 100, 1000), w.pos('a0', 1, 100), w.real('sig', 0, slo=0, shi=1)
        w.assume(w.le(a0, amax))
        w.fact_log(amax, a0)
    g, d = w.pos('g', 0.1, 2), w.pos('d', 1, 60)
    X = w.real('X', 0, 1, slo=0, shi=0.001)
    R = w.pos('R', 0.5, 2) if not w.cfg.get('fixr') else w.frac(1, 1)
    w.assume(w.le(w.v(a0 * MSH, 'km2'), w.v(2 * w.pi * (R * u.R_sun)**2, 'km2')))
    G = stub_grid(w, [90 * u.deg], [0 * u.deg])
    rng = Hinted(w, amax, a0, g, d) if not static else w.rng('r')
    gen = w.pkg.SpotGenerator(dist_area_mean=amax * MSH, dist_area_logsigma=sig, umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                              growth_rate=g / u.day, decay_rate=(0 if static else d) * MSH / u.day, init_area=a0 * MSH, distribution='iso',
                              coverage=0.1, gridmaker=G, rng=rng)
    if w.cfg.get('star'):
        s = star(w, G, [], [], radius=R * u.R_sun, spot_generator=gen, grid_params=4)
        s.generate_mature_spots(X)
        spots = list(s.spots.spots)
    else:
        if w.cfg.get('prior'):
            w.assume(len(gen.generate_mature_spots(w.frac(1, 10 ** 7), R * u.R_sun)) <= 2)
        spots = list(gen.generate_mature_spots(X, R * u.R_sun))
    n = len(spots)
    w.assume(n <= 8)
    for s in spots:
        w.assume(w.le(w.v(s.area_max, 'km2'), w.v(2 * w.pi * (R * u.R_sun)**2, 'km2')))
    w.observe('n', n)
    target = 4 * w.pi * X
    w.check('reaches the coverage', w.le(target, total(w, spots, R * u.R_sun)))
    if n:
        w.check('falls short without the last', w.lt(total(w, spots[:-1], R * u.R_sun), target))
    w.check('none for zero coverage', w.imp(w.eq(X, 0), n == 0))
    for s in spots:
        a, m = w.v(s.area_current, MSH), w.v(s.area_max, MSH)
        if static:
            w.check('between initial and maximum area', w.or_(w.and_(w.le(a0, a), w.le(a, m)), w.and_(w.le(m, a), w.le(a, a0))))
        else:
            # the area is that of a fresh spot aged by one draw below 1 of the mean lifetime
            w.check('aged by less than the mean lifetime', aged(w, s, gen, a0))


def aged(w, s, gen, a0):
    u, MSH = w.u, w.pkg.MSH
    alts = []
    for x in w.notes('draw.random'):
        t = w.pkg.StarSpot(lat=s.coords['lat'], lon=s.coords['lon'], area_max=s.area_max, area_current=a0 * MSH, teff_umbra=s.teff_umbra,
                           teff_penumbra=s.teff_penumbra, growth_rate=gen.growth_rate, decay_rate=gen.decay_rate,
                           area_over_umbra_area=s.total_area_over_umbra_area, gridmaker=s.gridmaker)
        t.age(x * gen.mean_lifetime)
        c = w.and_(w.eq(w.v(t.area_current, MSH), w.v(s.area_current, MSH)), bool(t.is_growing) == bool(s.is_growing))
        if c is True:
            return True
        alts.append(c)
    return w.or_(*alts)


def refused(w):
    u = w.u
    X = w.real('X', slo=-1, shi=2)
    w.assume(w.or_(w.lt(X, 0), w.lt(1, X)))
    MSH = w.pkg.MSH
    G = stub_grid(w, [90 * u.deg], [0 * u.deg])
    gen = w.pkg.SpotGenerator(dist_area_mean=500 * MSH, dist_area_logsigma=0.2, umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                              growth_rate=0.5 / u.day, decay_rate=10 * MSH / u.day, init_area=10 * MSH, distribution='iso',
                              coverage=0.1, gridmaker=G, rng=w.rng('r'))
    w.check('refused', w.raises(lambda: gen.generate_mature_spots(X, 1 * u.R_sun), ValueError) is not None)


def configs(tier):
    o = dict(draw_max=9 if tier == 'quick' else 15)
    out = []
    for st in (0, 1):
        out.append((f'static-{st}', 'mature', dict(static=1, star=st), o))
        out.append((f'decaying-{st}', 'mature', dict(static=0, star=st, fix=1), dict(draw_max=9 if tier == 'quick' else 11)))
    out.append(('again', 'mature', dict(static=1, fix=1, fixr=1, prior=1), dict(draw_max=14)))
    out.append(('refused', 'refused', {}, {}))
    return out
