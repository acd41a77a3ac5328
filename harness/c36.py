"""C36 reproducible runs"""
from harness.common import *

BOUNDS = ('birth, mature-spot and flare operations, alone and in sequences of two, any generator outputs, up to 2 features per operation and 12 draw calls '
          'per generator; peak times of clusters of 2 among 3 flares (thorough: 3 among 5); generators handed over directly, through the star, and the ones the star makes itself; granulation with any two seeds at 1 (thorough: 2) times')
STUBS = ['numpy Generator: every draw is an unknown that depends only on the generator, the kind and the number of the draw',
         'tinygp.GaussianProcess.sample: an unknown per time, a function of key, kernel, mean and times']


def sgen(w, rng, dist='iso', static=False):
    u, MSH = w.u, w.pkg.MSH
    kw = {} if rng is None else dict(rng=rng)
    return w.pkg.SpotGenerator(dist_area_mean=500 * MSH, dist_area_logsigma=w.frac(1, 5), umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                               growth_rate=0.5 / u.day, decay_rate=(0 if static else 10) * MSH / u.day, init_area=10 * MSH, distribution=dist,
                               coverage=0.1, gridmaker=stub_grid(w, [90 * u.deg], [0 * u.deg]), **kw)


def fgen(w, rng):
    u = w.u
    return w.pkg.FaculaGenerator(dist_r_peak=800 * u.km, dist_r_logsigma=w.frac(1, 5), depth=100 * u.km, dist_life_peak=6 * u.hr,
                                 dist_life_logsigma=w.frac(1, 5), floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=20 * u.km,
                                 floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K,
                                 coverage=w.frac(1, 10), dist='iso', gridmaker=stub_grid(w, [90 * u.deg], [0 * u.deg]), rng=rng)


def flgen(w, rng):
    u = w.u
    return w.pkg.FlareGenerator(dist_teff_mean=9000 * u.K, dist_teff_sigma=500 * u.K, dist_fwhm_mean=3 * u.hr, dist_fwhm_logsigma=w.frac(3, 10),
                                alpha=w.frac(-3, 4), beta=w.frac(26, 1), min_energy=1e33 * u.erg, cluster_size=2, rng=rng)


def vals(w, xs):
    """all values of some features"""
    out = []
    for x in xs:
        k = type(x).__name__
        if k == 'tuple':
            out.append(('peak', True, list(x)))
        elif k == 'StarSpot':
            out.append(('spot', bool(x.is_growing), [w.v(x.coords['lat'], 'rad'), w.v(x.coords['lon'], 'rad'), w.v(x.area_max, 'km2'), w.v(x.area_current, 'km2'),
                        w.v(x.total_area_over_umbra_area)]))
        elif k == 'Facula':
            out.append(('facula', bool(x.is_growing), [w.v(x.lat, 'rad'), w.v(x.lon, 'rad'), w.v(x.r_max, 'km'), w.v(x.radius, 'km'), w.v(x.lifetime, 'hr')]))
        else:
            out.append(('flare', True, [w.v(x.lat, 'rad'), w.v(x.lon, 'rad'), w.v(x.fwhm, 'hr'), w.v(x.energy, 'erg'), w.v(x.Teff, 'K'), w.v(x.tpeak, 'hr')]))
    return out


def same(w, a, b):
    if len(a) != len(b):
        return False
    c = []
    for (k, g, x), (k2, g2, y) in zip(a, b):
        if k != k2 or g != g2 or len(x) != len(y):
            return False
        c += [w.eq(p, q) for p, q in zip(x, y)]
    return w.and_(*c) if c else True


def op(w, kind, rng, prepare=None):
    """one operation with a new generator of features; returns what it made"""
    u, R = w.u, 1 * w.u.R_sun
    if kind in ('spots', 'solar'):
        g = sgen(w, rng, 'iso' if kind == 'spots' else 'solar')
        return lambda: g.birth_spots(5 * u.hr, R)
    if kind == 'mature':
        g = sgen(w, rng, static=True)
        return lambda: g.generate_mature_spots(w.cfg['X'], R)
    if kind == 'old':
        g = sgen(w, rng)
        return lambda: g.generate_mature_spots(w.cfg['X'], R)
    if kind == 'faculae':
        g = fgen(w, rng)
        return lambda: g.birth_faculae(1 * u.min, R)
    if kind == 'flares':
        g = flgen(w, rng)
        return lambda: g.generate_flare_series(2 * u.day)
    if kind == 'peaks':
        # long enough for clusters of several flares
        g = flgen(w, rng)
        return lambda: [(w.v(x),) for x in w.vals(g.get_peaks(w.cfg['n']))]
    G = stub_grid(w, [90 * u.deg], [0 * u.deg])
    if kind in ('star-mature', 'star-off'):
        s = star(w, G, rng=rng)

        def f():
            if kind == 'star-mature':
                s.generate_mature_spots(w.cfg['X'])
                return s.spots.spots
            s.birth_spots(5 * u.hr)
            s.birth_faculae(5 * u.hr)
            s.get_flares_over_observation(1 * u.day)
            return tuple(s.spots.spots) + tuple(s.faculae.faculae) + tuple(s.flares.flares) + tuple(s.fac_generator.generate_faculae(1))
        return f
    if kind == 'star-own':
        # its generators have their own source, and it has features already
        w.k_other = getattr(w, 'k_other', 0) + 1
        s = star(w, G, [spot(w, 0 * u.deg, 0 * u.deg, 100 * w.pkg.MSH, 2500 * u.K, 2700 * u.K, G)], [facula(w, 0 * u.deg, 0 * u.deg, 500 * u.km, G)],
                 rng=w.rng(f'other{w.k_other}'), spot_generator=sgen(w, rng), fac_generator=fgen(w, rng), flare_generator=flgen(w, rng))
    else:
        s = star(w, G, rng=rng, spot_generator=sgen(w, rng), fac_generator=fgen(w, rng), flare_generator=flgen(w, rng))

    def f():
        s.birth_spots(5 * u.hr)
        s.birth_faculae(1 * u.min)
        s.get_flares_over_observation(1 * u.day)
        return tuple(s.spots.spots) + tuple(s.faculae.faculae) + tuple(s.flares.flares)
    return f


def repeat(w):
    """the same outputs of the generator, the same features; nothing else is drawn from"""
    k = w.cfg['kind']
    with w.foreign() as other:
        f = op(w, k, w.rng('r'))
        a = vals(w, f())
        b = vals(w, op(w, k, w.rng('r'))())
        w.check('same outputs, same features', same(w, a, b))
        # what happened before does not matter either
        n = len(w.notes('rng'))
        if w.cfg.get('twice'):
            f2 = op(w, k, w.rng('s'))
            x, y = vals(w, f2()), vals(w, f2())
            g2 = op(w, k, w.rng('s'))
            w.check('same for sequences', same(w, x + y, vals(w, g2()) + vals(w, g2())))
    w.observe('n', len(a))
    w.check('no other source', not other())


def separate(w):
    """another generator drawn from in between changes nothing"""
    k1, k2 = w.cfg['pair']
    a = vals(w, op(w, k1, w.rng('r'))())
    # interleaved
    f, g = op(w, k1, w.rng('r')), op(w, k2, w.rng('s'))
    x = vals(w, g())
    b = vals(w, f())
    y = vals(w, op(w, k2, w.rng('s'))())
    w.observe('n', (len(a), len(x)))
    w.check('first not influenced', same(w, a, b))
    w.check('second not influenced', same(w, x, y))


def gran(w):
    w.patch_gp()
    u = w.u
    t = [w.real(f't{i}', slo=0, shi=50) for i in range(w.cfg['n'])]
    q = w.qarr([x * u.hr for x in t], 'hr')
    mean, amp, per = w.real('mean', slo=0.1, shi=1), w.pos('amp', 0.1, 1), w.pos('per', 1, 10)

    def run(seed):
        g = w.pkg.Granulation(mean_coverage=mean, amplitude=amp, period=per * u.hr, dteff=200 * u.K, seed=seed)
        return w.vals(star(w, None, granulation=g).get_granulation_coverage(q))
    with w.foreign() as other:
        a, b = run(3), run(8)
        c, d = run(3), run(8)
    w.observe('coverage', a)
    w.check('same seed, same coverage', len(a) == len(c) and w.and_(*[w.eq(x, y) for x, y in zip(a + b, c + d)]))
    w.check('other seed, other sample', w.notes('gp.id')[0] != w.notes('gp.id')[1])
    w.check('no other source', not other())


def configs(tier):
    out = []
    q = tier == 'quick'
    for k in ('spots', 'solar', 'faculae', 'flares'):
        out.append((f'{k}', 'repeat', dict(kind=k), dict(poisson_max=2 if q else 3, draw_max=12)))
        if k == 'solar' and q:
            continue
        out.append((f'{k}-twice', 'repeat', dict(kind=k, twice=1), dict(poisson_max=1, draw_max=10 if q else 16)))
    for n in (3,) if q else (3, 4, 5):
        out.append((f'peaks-{n}', 'repeat', dict(kind='peaks', n=n), dict(poisson_max=2 if q else 3, draw_max=24)))
    for k in ('mature', 'old', 'star-mature', 'star-off'):
        out.append((k, 'repeat', dict(kind=k, X=0.00004), dict(draw_max=(16 if k == 'star-off' else 9) if q else (25 if k == 'star-off' else 14))))
    out.append(('star', 'repeat', dict(kind='star'), dict(poisson_max=1, draw_max=12)))
    out.append(('star-own', 'repeat', dict(kind='star-own'), dict(poisson_max=1, draw_max=12)))
    for a, b in (('spots', 'solar'), ('spots', 'spots'), ('faculae', 'spots'), ('flares', 'faculae'), ('mature', 'flares'), ('flares', 'flares')):
        out.append((f'{a}+{b}', 'separate', dict(pair=(a, b), X=0.00004), dict(poisson_max=1, draw_max=9)))
    out.append(('gran', 'gran', dict(n=1 if q else 2), {}))
    return out
