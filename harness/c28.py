"""C28 granulation coverage"""
from harness.common import *

BOUNDS = ('any mean coverage, amplitude, period and granule temperature contrast, 1 to 3 (thorough: 4) times of any value and unit, every outcome of the '
          'sampled process at each of them (any real number or undefined)')
STUBS = ['tinygp.GaussianProcess.sample: an arbitrary real number or NaN per time, a function of key, kernel, mean and times']


def gran(w, mean, amp, per, dT, seed=3):
    u = w.u
    p = per * u.hr
    if w.cfg.get('units'):
        p = p.to(u.day)
    return w.pkg.Granulation(mean_coverage=mean, amplitude=amp, period=p, dteff=dT * u.K, seed=seed)


def times(w, n):
    u = w.u
    t = [w.real(f't{i}', slo=0, shi=100) for i in range(n)]
    q = w.qarr([x * u.hr for x in t], 'hr')
    return t, (q.to(u.s) if w.cfg.get('units') else q)


def run(w):
    w.patch_gp()
    u = w.u
    n = w.cfg['n']
    how = w.cfg['how']
    z = w.frac(0, 1)
    mean = z if how in ('flat', 'zero-mean') else w.real('mean', slo=-0.2, shi=1.2)
    amp = z if how in ('flat', 'zero-amp') else w.real('amp', 0, slo=0, shi=0.5)
    dT = z if how == 'no-contrast' else w.real('dT', slo=-300, shi=300)
    per = w.pos('per', 1, 30)
    g = gran(w, mean, amp, per, dT)
    t, q = times(w, n)
    s = star(w, None, granulation=g)
    if w.cfg.get('prior'):
        # other times, as many, were asked for before
        s.get_granulation_coverage(w.qarr([(1000 + i) * u.hr for i in range(n)], 'hr'))
    k = len(w.notes('gp.sample'))
    got = w.vals(s.get_granulation_coverage(q))
    w.observe('coverage', got)
    w.check('one value per time', len(got) == n)
    raw = w.notes('gp.sample')[k:]
    none = w.or_(w.is_eq(dT, 0), w.and_(w.is_eq(mean, 0), w.is_eq(amp, 0)))
    if len(got) == n:
        for i in range(n):
            w.check('a number', not w.isnan(got[i]))
            w.check('a fraction', w.and_(w.le(0, got[i]), w.le(got[i], 1)))
            w.check('none without contrast or without granules', w.imp(none, w.eq(got[i], 0)))
        if not raw:
            w.check('only skipped without contrast or without granules', none)
        else:
            for i, (r, x) in enumerate(zip(raw[-1], got)):
                if w.isnan(r):
                    w.check('undefined is none', w.eq(x, 0))
                else:
                    w.check('sample kept inside [0,1]', w.or_(none, w.and_(w.imp(w.and_(w.is_le(0, r), w.is_le(r, 1)), w.eq(x, r)),
                                                                       w.imp(w.is_lt(r, 0), w.eq(x, 0)), w.imp(w.is_lt(1, r), w.eq(x, 1)))))
    # reported again, the same
    if w.cfg.get('again'):
        g2 = w.vals(s.get_granulation_coverage(q))
        w.check('same seed, same coverage', len(g2) == n and w.and_(*[w.eq(a, b) for a, b in zip(got, g2)]))


def off(w):
    u = w.u
    w.patch_gp()
    n = w.cfg['n']
    t, q = times(w, n)
    G = None if w.cfg['off'] == 'none' else w.pkg.Granulation.off()
    s = star(w, None, granulation=G)
    got = w.vals(s.get_granulation_coverage(q))
    w.check('zeros', len(got) == n and w.and_(*[w.eq(x, 0) for x in got]))


def configs(tier):
    out = []
    N = 3 if tier == 'quick' else 4
    for how in ('any', 'zero-mean', 'zero-amp', 'flat', 'no-contrast'):
        for n in range(1, N + 1 if how in ('any', 'zero-mean') else 2):
            out.append((f'{how}-{n}', 'run', dict(how=how, n=n, units=n % 2, again=n == 2), {}))
    for n in (1, 2):
        out.append((f'again-{n}', 'run', dict(how='any', n=n, prior=1), {}))
    for o in ('none', 'off'):
        out.append((f'off-{o}', 'off', dict(off=o, n=2), {}))
    return out
