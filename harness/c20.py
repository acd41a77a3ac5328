"""C20 births"""
import itertools

from harness.common import *
from harness import c18, c19

BOUNDS = ('births of up to 2 (thorough: 3) features for any value every draw can take, any generator parameters; up to 10 draw calls '
          '(redraws of the area ratio beyond that are cut)')


def matches(w, n, draws, test):
    """some choice of distinct draws fits the n features; test(i, draw) -> condition"""
    alts = []
    for p in itertools.permutations(range(len(draws)), n):
        c = w.and_(*[test(i, draws[j]) for i, j in enumerate(p)])
        if c is True:
            return True
        alts.append(c)
    return w.or_(*alts) if alts else n == 0


def positions(w, n, lat, lon, solar):
    u = [x for x in w.notes('draw.random')]
    for i in range(n):
        w.check('longitude in [0, 360)', w.and_(w.le(0, lon[i]), w.lt(lon[i], 2 * w.pi)))
    if solar:
        z, h = w.notes('draw.normal'), w.notes('draw.choice')
        d = w.pi / 180
        # every spot has a hemisphere draw of its own
        signs = sorted(set(itertools.permutations([int(k) for k in h], n)))
        alts = [matches(w, n, z, lambda i, x: w.eq(lat[i], s[i] * (15 + 5 * x) * d)) for s in signs]
        w.check('mirrored as drawn', w.or_(*alts) if alts else n == 0)
        w.check('own longitude draws', matches(w, n, u, lambda i, x: w.eq(lon[i], 2 * w.pi * x)))
        w.check('own latitude draws', matches(w, n, z, lambda i, x: w.or_(w.eq(lat[i], (15 + 5 * x) * d), w.eq(lat[i], -(15 + 5 * x) * d))))
    else:
        for i in range(n):
            w.check('latitude in [-90, 90]', w.and_(w.le(-w.pi / 2, lat[i]), w.le(lat[i], w.pi / 2)))

        def fits(i, x):
            if i < n:
                return w.eq(lon[i], 2 * w.pi * x)
            s = w.sin(lat[i - n])
            return w.or_(w.eq(s, 2 * x - 1), w.eq(s, 1 - 2 * x))
        w.check('uniform longitude and sine of latitude, own draws', matches(w, 2 * n, u, fits))


def count(w, n, lam):
    k = w.notes('poisson.lam')
    c = w.notes('draw.poisson')
    w.check('one count drawn', len(k) == 1 and len(c) == 1)
    if len(k) == 1 and len(c) == 1:
        w.check('count drawn with the expected mean', w.eq(w.v(k[0]), w.v(lam)))
        w.check('as many as drawn', n == int(c[0]))


def spots(w):
    u, MSH = w.u, w.pkg.MSH
    amax, a0 = w.pos('amax', 100, 1000), w.pos('a0', 1, 100)
    w.assume(w.le(a0, amax))
    w.fact_log(amax, a0)
    g, d, sig = w.pos('g', 0.1, 2), w.pos('d', 1, 60), w.real('sig', 0, slo=0, shi=1)
    X = w.pos('X', 0.001, 1, hi=1)
    R, t = w.pos('R', 0.1, 2), w.pos('t', 1e-3, 1e-1)
    um, pe = w.pos('um', 2000, 3000), w.pos('pe', 2000, 3000)
    rng = w.rng('r')
    G = stub_grid(w, [90 * u.deg], [0 * u.deg])
    MSHd = MSH / u.day
    solar = w.cfg['dist'] == 'solar'
    gen = w.pkg.SpotGenerator(dist_area_mean=amax * MSH, dist_area_logsigma=sig, umbra_teff=um * u.K, penumbra_teff=pe * u.K, growth_rate=g / u.day,
                              decay_rate=d * MSHd, init_area=a0 * MSH, distribution=w.cfg['dist'], coverage=X, gridmaker=G, rng=rng)
    lam = gen.get_n_spots_to_birth(t * u.day, R * u.R_sun)
    if w.cfg.get('star'):
        s = star(w, G, [], [], radius=R * u.R_sun, spot_generator=gen, grid_params=4)
        s.birth_spots(t * u.day)
        new = s.spots.spots
    else:
        new = gen.birth_spots(t * u.day, R * u.R_sun)
    n = len(new)
    w.observe('n', n)
    count(w, n, lam)
    for f in new:
        w.check('starts at the initial area', w.eq(w.v(f.area_current, MSH), a0))
        w.check('starts growing', bool(f.is_growing))
        w.check('positive maximum area', w.lt(0, w.v(f.area_max, MSH)))
        w.check('positive area ratio', w.lt(0, w.v(f.total_area_over_umbra_area)))
        w.check('temperatures', w.and_(w.eq(w.v(f.teff_umbra, 'K'), um), w.eq(w.v(f.teff_penumbra, 'K'), pe)))
        w.check('rates', w.and_(w.eq(w.v(f.growth_rate, '1/day'), g), w.eq(w.v(f.decay_rate, MSHd), d)))
        w.check('grid', bool(f.gridmaker == G))
    if n:
        # normal draws: peak areas and area ratios (and solar latitudes)
        z = w.notes('draw.normal')
        amean = w.log(amax)

        def fits(i, x):
            if i < n:
                return w.eq(w.v(new[i].area_max, MSH), w.exp(amean + sig * x), tol=1e-7)
            return w.eq(w.v(new[i - n].total_area_over_umbra_area), 5 + x)
        w.check('own draws for peak area and ratio', matches(w, 2 * n, z, fits))
        positions(w, n, [w.v(f.coords['lat'], 'rad') for f in new], [w.v(f.coords['lon'], 'rad') for f in new], solar)


def faculae(w):
    u = w.u
    r0, tau = w.pos('r0', 100, 5000), w.pos('tau', 1, 50)
    sr, sl = w.real('sr', 0, slo=0, shi=1), w.real('sl', 0, slo=0, shi=1)
    X = w.pos('X', 1e-4, 1, hi=1)
    R, t = w.pos('R', 0.1, 2), w.pos('t', 1e-4, 1e-2)
    depth, mr = w.pos('depth', 10, 500), w.pos('mr', 10, 500)
    fs, fb, ws, wi = [w.real(k, slo=-200, shi=200) for k in ('fs', 'fb', 'ws', 'wi')]
    rng = w.rng('r')
    G = stub_grid(w, [90 * u.deg], [0 * u.deg])
    gen = w.pkg.FaculaGenerator(dist_r_peak=r0 * u.km, dist_r_logsigma=sr, depth=depth * u.km, dist_life_peak=tau * u.hr, dist_life_logsigma=sl,
                                floor_teff_slope=fs * u.K / u.km, floor_teff_min_rad=mr * u.km, floor_teff_base_dteff=fb * u.K,
                                wall_teff_slope=ws * u.K / u.km, wall_teff_intercept=wi * u.K, coverage=X, dist='iso', gridmaker=G, rng=rng)
    lam = gen.get_n_faculae_expected(t * u.hr, R * u.R_sun)
    if w.cfg.get('star'):
        s = star(w, G, [], [], radius=R * u.R_sun, fac_generator=gen, grid_params=4)
        s.birth_faculae(t * u.hr)
        new = s.faculae.faculae
    else:
        new = gen.birth_faculae(t * u.hr, R * u.R_sun)
    n = len(new)
    w.observe('n', n)
    count(w, n, lam)
    for f in new:
        rm = w.v(f.r_max, 'km')
        w.check('starts at r_max / e^2', w.eq(w.v(f.radius, 'km') * w.exp(w.frac(2, 1)), rm))
        w.check('starts growing', bool(f.is_growing))
        w.check('positive maximum radius', w.lt(0, rm))
        w.check('positive lifetime', w.lt(0, w.v(f.lifetime, 'hr')))
        K = u.K / u.km
        w.check('inherits', w.and_(w.eq(w.v(f.depth, 'km'), depth), w.eq(w.v(f.floor_teff_min_rad, 'km'), mr), w.eq(w.v(f.floor_teff_slope, K), fs),
                                   w.eq(w.v(f.floor_teff_base_dteff, 'K'), fb), w.eq(w.v(f.wall_teff_slope, K), ws),
                                   w.eq(w.v(f.wall_teff_intercept, 'K'), wi)))
        w.check('grid', bool(f.gridmaker == G))
    if n:
        l10 = w.log(w.frac(10, 1))

        def fits(i, x):
            return w.and_(w.eq(w.v(new[i].r_max, 'km'), r0 * w.exp(x * sr * l10), tol=1e-7),
                          w.eq(w.v(new[i].lifetime, 'hr'), tau * w.exp(x * sl * l10), tol=1e-7))
        w.check('own draws for size and lifetime', matches(w, n, w.notes('draw.normal'), fits))
        positions(w, n, [w.v(f.lat, 'rad') for f in new], [w.v(f.lon, 'rad') for f in new], False)


def refused(w):
    """unknown distributions are refused, not replaced"""
    u = w.u
    if w.choice('kind', 2):
        def f():
            c = w.pkg.SpotGenerator(dist_area_mean=300 * w.pkg.MSH, dist_area_logsigma=0.2, umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                                    growth_rate=0.5 / u.day, decay_rate=10 * w.pkg.MSH / u.day, init_area=10 * w.pkg.MSH, distribution='polar',
                                    coverage=0.1, gridmaker=any_grid(w), rng=w.rng('r'))
            return c.generate_spots(1)
    else:
        def f():
            c = w.pkg.FaculaGenerator(dist_r_peak=800 * u.km, dist_r_logsigma=0.2, depth=100 * u.km, dist_life_peak=6 * u.hr,
                                      dist_life_logsigma=0.2, floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=20 * u.km,
                                      floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K,
                                      coverage=0.1, dist='polar', gridmaker=any_grid(w), rng=w.rng('r'))
            return c.generate_faculae(1)
    w.check('unknown distribution refused', w.raises(f, ValueError, NotImplementedError) is not None)


def configs(tier):
    o = dict(poisson_max=2 if tier == 'quick' else 3, draw_max=10 if tier == 'quick' else 14)
    out = []
    for d in ('iso', 'solar'):
        for st in (0, 1):
            out.append((f'spots-{d}-{st}', 'spots', dict(dist=d, star=st), o))
    for st in (0, 1):
        out.append((f'faculae-{st}', 'faculae', dict(star=st), o))
    out.append(('refused', 'refused', {}, {}))
    return out
