"""C19 facula birth rate"""
from harness.common import *

BOUNDS = 'any peak radius, peak lifetime, stellar radius > 0, coverage and interval >= 0; three sets of units'


def mkgen(w, r0, tau, X, **k):
    u = w.u
    un = w.cfg.get('units', 0)
    r = r0 * u.km if un != 1 else (r0 * u.km).to(u.R_sun)
    t = tau * u.hr if un != 2 else (tau * u.hr).to(u.day)
    return w.pkg.FaculaGenerator(dist_r_peak=r, dist_r_logsigma=w.frac(1, 5), depth=100 * u.km, dist_life_peak=t, dist_life_logsigma=w.frac(1, 5),
                                 floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=20 * u.km, floor_teff_base_dteff=-100 * u.K,
                                 wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K, coverage=X, dist='iso', gridmaker=any_grid(w), **k)


def rate(w):
    u = w.u
    r0, tau, R = w.pos('r0', 100, 5000), w.pos('tau', 1, 50), w.pos('R', 0.1, 3)
    X = w.real('X', 0, 1)
    t = w.real('t', 0, slo=0, shi=50)
    gen = mkgen(w, r0, tau, X)
    A = w.v(gen.mean_area, 'km2')
    w.observe('A', A)
    w.check('mean area', w.eq(A, w.pi * r0 * r0 * (1 - w.exp(w.frac(-2, 1))) / 2))
    for k in (1, 3):
        gen.get_n_faculae_expected(k * u.hr, 2 * k * u.R_sun)
    n = w.v(gen.get_n_faculae_expected(t * u.hr, R * u.R_sun))
    w.observe('n', n)
    surf = w.v(4 * w.pi * (R * u.R_sun)**2, 'km2')
    w.check('documented balance', w.eq(n * 2 * tau * (w.pi * r0 * r0 * (1 - w.exp(w.frac(-2, 1))) / 2), X * surf * t))
    w.check('not negative', w.le(0, n))
    f = w.pos('f', 0.1, 5)
    w.check('proportional to the interval', w.eq(w.v(gen.get_n_faculae_expected(f * t * u.hr, R * u.R_sun)), f * n))
    w.check('other units', w.eq(w.v(gen.get_n_faculae_expected((t / 24) * u.day, (R * u.R_sun).to(u.km))), n))
    g2 = mkgen(w, r0, tau, X * f)
    w.check('proportional to the coverage', w.eq(w.v(g2.get_n_faculae_expected(t * u.hr, R * u.R_sun)), f * n))
    g3 = mkgen(w, r0, tau, 0)
    w.check('no coverage, no faculae', w.eq(w.v(g3.get_n_faculae_expected(t * u.hr, R * u.R_sun)), 0))


def configs(tier):
    return [(f'rate-{i}', 'rate', dict(units=i), {}) for i in range(3)]
