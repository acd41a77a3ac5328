"""C27 flare series"""
from harness.common import *

BOUNDS = ('every outcome of the random source with 0..3 (thorough: 0..4) flares drawn and every cluster size of 0..2 (one run: 0..4), for any '
          'observing time (in days or hours), any minimum energy, mean duration, spread, temperature law and slope; larger numbers of flares are outside the bound')


def gen(w):
    u = w.u
    al = -w.pos('al', 0.5, 2)
    emin = w.pos('emin', 0.5, 5)
    fm, fs = w.pos('fm', 0.05, 0.5), w.real('fs', 0, slo=0, shi=0.5)
    tm_, ts = w.pos('tm', 8000, 10000), w.real('ts', 0, slo=0, shi=200)
    beta = w.real('be', slo=-1, shi=1)
    e, f, T = emin * u.erg, fm * u.day, tm_ * u.K
    if w.cfg.get('units'):
        e, f = e.to(u.J), f.to(u.hr)
    g = w.pkg.FlareGenerator(dist_teff_mean=T, dist_teff_sigma=ts * u.K, dist_fwhm_mean=f, dist_fwhm_logsigma=fs, alpha=al, beta=beta,
                             min_energy=e, cluster_size=w.cfg.get('cluster', 2), rng=w.rng('g'))
    return g, al, emin, fm, fs, tm_, ts, beta


def assign(w, vals, draws, alike):
    """each value is made from a draw of its own"""
    free = list(range(len(draws)))
    for v in vals:
        for j in free:
            if alike(v, draws[j]) is True:
                free.remove(j)
                break
        else:
            return False
    return True


def series(w):
    u = w.u
    g, al, emin, fm, fs, tm_, ts, beta = gen(w)
    t = w.pos('t', 0.5, 5)
    q = t * u.day
    q = q.to(u.hr) if w.cfg.get('units') else q
    mine = [0, 0]
    if w.cfg.get('star'):
        s = star(w, None)
        s.flare_generator = g
        s.get_flares_over_observation(q)
        if w.cfg['star'] == 2:
            k0 = len(w.notes('draw.poisson'))
            mine = [len(w.notes('draw.random')), len(w.notes('draw.normal'))]
            s.get_flares_over_observation(q)
            n = int(w.notes('draw.poisson')[k0])
        else:
            n = int(w.notes('draw.poisson')[0])
        out = s.flares.flares
    else:
        out = g.generate_flare_series(q)
        n = int(w.notes('draw.poisson')[0])
    lam = w.notes('poisson.lam')[0]
    w.check('number drawn from the expected number', w.eq(w.v(lam), w.power(10, beta) * w.power(emin, al) * t))
    w.check('as many flares as drawn', len(out) == n)
    E, P, Wd, T, La, Lo = [], [], [], [], [], []
    for f in out:
        E.append(w.v(f.energy, 'erg'))
        P.append(w.v(f.tpeak, 'day'))
        Wd.append(w.v(f.fwhm, 'day'))
        T.append(w.v(f.Teff, 'K'))
        La.append(w.v(f.lat, 'rad'))
        Lo.append(w.v(f.lon, 'rad'))
    X, Z = w.notes('draw.random')[mine[0]:], w.notes('draw.normal')[mine[1]:]
    for x in X:
        if w.sym:
            w.fact_log(1 - x, 1)
    for i in range(len(out)):
        w.observe('flare', [E[i], P[i], Wd[i], T[i], La[i], Lo[i]])
        w.check('energy at least the minimum', w.le(emin, E[i]))
        w.check('peak not before the start', w.le(0, P[i]) if i == 0 else w.le(P[i - 1], P[i]))
        w.check('positive width', w.lt(0, Wd[i]))
        w.check('latitude', w.and_(w.le(-w.pi / 2, La[i]), w.le(La[i], w.pi / 2)))
        w.check('longitude', w.and_(w.le(0, Lo[i]), w.lt(Lo[i], 2 * w.pi)))
    w.check('energies of their own', assign(w, E, X, lambda v, x: w.eq(v, emin * w.power(1 - x, 1 / al))))
    w.check('widths of their own', assign(w, Wd, Z, lambda v, z: w.eq(v, fm * w.power(10, fs * z))))
    w.check('temperatures of their own', assign(w, T, Z, lambda v, z: w.eq(v, tm_ + ts * z)))
    w.check('longitudes of their own', assign(w, Lo, X, lambda v, x: w.eq(v, 2 * w.pi * x)))
    w.check('latitudes of their own', assign(w, La, X, lambda v, x: w.eq(w.sin(v), 2 * x - 1)))


def peaks(w):
    g = gen(w)[0]
    n = w.cfg['n']
    got = w.vals(g.get_peaks(n))
    w.observe('peaks', got)
    w.check('one peak per flare', len(got) == n)
    for i in range(len(got)):
        w.check('ordered', w.le(0 if i == 0 else got[i - 1], got[i]))
    # every peak moves with a wait of its own
    D = w.notes('draw.exponential')
    w.check('a wait each', len(D) >= n)


def configs(tier):
    out = []
    N = 3 if tier == 'quick' else 4
    o = dict(draw_max=200)
    out.append(('series', 'series', dict(), dict(o, poisson_max=2)))
    out.append(('series-3', 'series', dict(units=1, cluster=3), dict(o, poisson_max=3)))
    out.append(('series-star', 'series', dict(star=1), dict(o, poisson_max=2)))
    out.append(('series-star-again', 'series', dict(star=2), dict(o, poisson_max=1)))
    for n in range(1, N + 1):
        out.append((f'peaks-{n}', 'peaks', dict(n=n), dict(o, poisson_max=4 if n < 3 else 2)))
    return out
