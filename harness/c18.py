"""C18 spot birth rate"""
from harness.common import *

BOUNDS = ('any mean peak area, initial area (up to the peak area), growth rate, decay rate, coverage, stellar radius > 0 and interval >= 0; three '
          'sets of units; static generators included')
ASSUMPTIONS = ('a decaying generator has a positive growth rate',)


def mkgen(w, amax, a0, g, d, X, **k):
    u, MSH = w.u, w.pkg.MSH
    un = w.cfg.get('units', 0)
    if un == 0:
        gr, dr = g / u.day, d * MSH / u.day
    elif un == 1:
        gr, dr = (g / 24) / u.hr, (d / 24) * MSH / u.hr
    else:
        gr, dr = g / u.day, (d * MSH / u.day).to(u.km**2 / u.s)
    return w.pkg.SpotGenerator(dist_area_mean=amax * MSH, dist_area_logsigma=k.pop('sig', w.frac(1, 5)), umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                               growth_rate=gr, decay_rate=dr, init_area=a0 * MSH, distribution='iso', coverage=X,
                               gridmaker=any_grid(w), **k)


def rate(w):
    u, MSH = w.u, w.pkg.MSH
    amax, a0 = w.pos('amax', 100, 1000), w.pos('a0', 1, 100)
    w.assume(w.le(a0, amax))
    g, d = w.pos('g', 0.1, 2), w.pos('d', 1, 60)
    X = w.real('X', 0, 1)
    R = w.pos('R', 0.1, 2)
    t = w.real('t', 0, slo=0, shi=20)
    w.fact_log(amax, a0)
    gen = mkgen(w, amax, a0, g, d, X)
    life = w.v(gen.mean_lifetime, 'day')
    area = w.v(gen.mean_area, MSH)
    T = w.log(amax / a0) / g + amax / d
    w.observe('life', life)
    w.observe('area', area)
    w.check('lifetime', w.eq(life, T))
    w.check('mean area', w.eq(area * T, (amax - a0) / g + amax * amax / (2 * d)))
    # log(amax/a0) >= 1 - a0/amax
    w.check('mean area at most the peak area', w.le(area, amax))
    w.check('mean area positive', w.lt(0, area))
    for k in (1, 3):
        gen.get_n_spots_to_birth(k * u.day, 2 * k * u.R_sun)
    n = gen.get_n_spots_to_birth(t * u.day, R * u.R_sun)
    w.observe('n', n)
    surf = w.v(4 * w.pi * (R * u.R_sun)**2, MSH)
    w.check('balance', w.eq(w.v(n) * area * life, X * surf * t))
    w.check('not negative', w.le(0, w.v(n)))
    f = w.pos('f', 0.1, 5)
    w.check('proportional to the interval', w.eq(w.v(gen.get_n_spots_to_birth(f * t * u.day, R * u.R_sun)), f * w.v(n)))
    w.check('interval in other units', w.eq(w.v(gen.get_n_spots_to_birth((t * 24) * u.hr, (R * u.R_sun).to(u.km))), w.v(n)))
    g2 = mkgen(w, amax, a0, g, d, X * f)
    w.check('proportional to the coverage', w.eq(w.v(g2.get_n_spots_to_birth(t * u.day, R * u.R_sun)), f * w.v(n)))


def static(w):
    u, MSH = w.u, w.pkg.MSH
    amax, a0 = w.pos('amax', 100, 1000), w.pos('a0', 1, 100)
    g = w.real('g', 0, slo=0, shi=2)
    X = w.real('X', 0, 1)
    R = w.pos('R', 0.1, 2)
    t = w.real('t', 0, slo=0, shi=20)
    gen = mkgen(w, amax, a0, g, 0, X)
    w.check('static', bool(gen.is_static))
    life = w.v(gen.mean_lifetime, 'day')
    w.check('lives for ever', (not w.isnan(life)) and not w.isfinite(life))
    w.check('mean area at most the peak area', w.le(w.v(gen.mean_area, MSH), amax))
    n = w.v(gen.get_n_spots_to_birth(t * u.day, R * u.R_sun))
    w.check('none born', w.eq(n, 0))
    w.check('no spots', len(gen.birth_spots(t * u.day, R * u.R_sun)) == 0)


def configs(tier):
    out = [(f'rate-{i}', 'rate', dict(units=i), {}) for i in range(3)]
    out += [(f'static-{i}', 'static', dict(units=i), {}) for i in range(3)]
    return out
