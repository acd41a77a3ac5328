"""C26 flare energy law"""
from harness.common import *

BOUNDS = ('any slope alpha < 0, any beta, any minimum energy and energies above it (given in erg or J), any quantiles in [0,1); two energies / '
          'two quantiles for the ordering; quantile arrays of up to 3; refused draws: any value outside [0,1)')


def gen(w, emin, alpha, beta):
    u = w.u
    e = emin * u.erg
    if w.cfg.get('unit') == 'J':
        e = e.to(u.J)
    return w.pkg.FlareGenerator(dist_teff_mean=9000 * u.K, dist_teff_sigma=500 * u.K, dist_fwhm_mean=3 * u.hr, dist_fwhm_logsigma=0.3,
                                alpha=alpha, beta=beta, min_energy=e, cluster_size=2, rng=w.rng('g'))


def par(w):
    al = -w.pos('al', 0.3, 2.5)
    be = w.real('be', slo=-2, shi=30)
    emin = w.pos('emin', 0.5, 50)
    return al, be, emin, gen(w, emin, al, be)


def en(w, x):
    u = w.u
    q = x * u.erg
    return q.to(u.J) if w.cfg.get('unit2') == 'J' else q


def rate(w):
    u = w.u
    al, be, emin, g = par(w)
    E = w.pos('E', 0.5, 100)
    law = w.power(10, be) * w.power(E, al)
    r = w.v(g.frequency_greater_than(en(w, E)), 1 / u.day)
    w.observe('rate', r)
    w.check('rate above an energy', w.eq(r, law))
    t = w.pos('t', 0.1, 10)
    q = t * u.day
    q = q.to(u.hr) if w.cfg.get('unit2') == 'J' else q
    w.check('expected number in a time', w.eq(w.v(g.get_nexp_greater_than(en(w, E), q)), law * t))
    n0 = w.v(g.get_ntotal(q))
    w.check('expected total number', w.eq(n0, w.power(10, be) * w.power(emin, al) * t))
    w.check('survival is the relative rate', w.eq((1 - w.v(g.cdf(en(w, E)))) * n0, law * t))
    # steeper is rarer
    E2 = E + w.pos('dE', 0.1, 50)
    w.fact_log(E, E2)
    w.check('rate falls with energy', w.lt(w.v(g.frequency_greater_than(en(w, E2)), 1 / u.day), r) if w.sym else True)


def dist(w):
    al, be, emin, g = par(w)
    E = emin + w.real('dE', 0, slo=0, shi=100)
    c = w.v(g.cdf(en(w, E)))
    w.observe('cdf', c)
    w.check('cdf at the minimum', w.eq(w.v(g.cdf(en(w, emin))), 0))
    w.check('cdf', w.eq(c, 1 - w.power(E / emin, al)))
    p = w.v(g.pdf(en(w, E)))
    w.observe('pdf', p)
    w.check('pdf', w.eq(p * E, -al * w.power(E / emin, al)))


def slope(w):
    """the density is the derivative of the cumulative distribution"""
    al, be, emin, g = par(w)
    E = w.pos('E', 0.6, 100)
    w.assume(w.lt(emin, E))
    f = lambda x: w.v(g.cdf(en(w, x)))
    d = w.deriv(f(E), 'E', f, E)
    p = w.v(g.pdf(en(w, E)))
    w.check('density is the derivative', w.eq(p * E, d * E) if w.sym else abs(p - d) * E < 1e-5)


def quant(w):
    u = w.u
    al, be, emin, g = par(w)
    n = w.cfg['n']
    X = [w.real(f'X{i}', 0, 1, hi_strict=True, shi=0.999) for i in range(n)]
    got = w.vals(g.quantile_func(w.arr(X) if w.cfg.get('arr', 1) else X[0]), 'erg')
    w.check('one energy per draw', len(got) == n)
    for i in range(n):
        w.observe(f'q{i}', got[i])
        w.check('quantile', w.eq(got[i], emin * w.power(1 - X[i], 1 / al)))
        w.fact_log(1 - X[i], 1)
        w.check('at least the minimum', w.le(emin, got[i]))
        w.check('cdf of the quantile', w.eq(w.v(g.cdf(en(w, got[i]))), X[i]))
    if n == 2:
        w.assume(w.lt(X[0], X[1]))
        w.fact_log(1 - X[1], 1 - X[0])
        w.check('increasing', w.lt(got[0], got[1]) if w.sym else got[0] <= got[1])


def inverse(w):
    al, be, emin, g = par(w)
    E = emin + w.real('dE', 0, slo=0, shi=100)
    c = w.v(g.cdf(en(w, E)))
    w.fact_log(emin, E)
    w.check('cdf in [0,1)', w.and_(w.le(0, c), w.lt(c, 1) if w.sym else c <= 1))
    if not w.sym:
        w.assume(c < 0.999999)
    got = w.vals(g.quantile_func(w.arr([c])), 'erg')
    w.check('quantile of the cdf', len(got) == 1 and w.eq(got[0], E))


def refuse(w):
    al, be, emin, g = par(w)
    n, k = w.cfg['n'], w.cfg['k']
    X = [w.real(f'X{i}', slo=-0.5, shi=1.5) for i in range(n)]
    bad = w.or_(w.lt(X[k], 0), w.le(1, X[k]))
    w.assume(bad)
    r = w.raises(lambda: g.quantile_func(w.arr(X) if n > 1 else X[0]), ValueError) is not None
    w.check('refused', r)


def configs(tier):
    out = []
    for a, b in (('erg', 'erg'), ('J', 'erg'), ('erg', 'J'), ('J', 'J')):
        for f in ('rate', 'dist', 'slope', 'inverse'):
            out.append((f'{f}-{a}-{b}', f, dict(unit=a, unit2=b), {}))
    for n in (1, 2, 3):
        out.append((f'quant-{n}', 'quant', dict(n=n, unit2='J' if n == 2 else 'erg'), {}))
    out.append(('quant-scalar', 'quant', dict(n=1, arr=0, unit='J'), {}))
    for n in (1, 2, 3):
        for k in range(n):
            out.append((f'refuse-{n}-{k}', 'refuse', dict(n=n, k=k), {}))
    return out
