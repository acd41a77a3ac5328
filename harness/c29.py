"""C29 granulation kernel"""
from harness.common import *

BOUNDS = ('any amplitude, period, mean, seed and any two times (the process: any 2 (thorough: 3) times), times and period in hours, days or seconds; '
          'kernels of one component; the sampler itself (Cholesky factorisation in single precision) is outside')
STUBS = ['tinygp.GaussianProcess: records kernel, mean and times it was built with']


def cov(w, k, a, b):
    r = k.evaluate(a, b)
    v = w.vals(r)
    w.check('one covariance', len(v) == 1)
    return v[0]


def law(w, sc, per, x):
    return sc / per * w.exp(-x) * w.cos(x - w.pi / 4)


def tol(w, a, b):
    """single precision in the concrete runs"""
    return w.eq(a, b) if w.sym else abs(a - b) <= 2e-5 * (1 + abs(a))


def kernel(w):
    sc, per = w.pos('sc', 0.1, 2), w.pos('per', 1, 10)
    x = w.real('x', 0, slo=0, shi=4)
    k = w.m.granules.GranulationKernel(sc, per)
    r2 = w.sqrt(2)
    tau = x * per * r2
    t1 = w.real('t', slo=-20, shi=20)
    a, b = cov(w, k, t1 + tau, t1), cov(w, k, t1, t1 + tau)
    z = cov(w, k, t1, t1)
    w.observe('cov', [a, z])
    w.check('damped oscillation', tol(w, a, law(w, sc, per, x)))
    w.check('symmetric', tol(w, a, b))
    w.check('depends on separation', tol(w, a, cov(w, k, tau, w.frac(0, 1))))
    w.check('variance', tol(w, z, sc / per / r2))
    w.fact_sincos(x)
    # |exp(-x)(cos x + sin x)| <= 1
    E, C, S = w.exp(-x), w.cos(x), w.sin(x)
    if w.sym:
        w.lemma('bounded above', w.le(C + S, w.exp(x)))
        w.lemma('bounded below', w.le(-(C + S), w.exp(x)))
        w.lemma('bounded above, scaled', w.le(E * (C + S), 1))
        w.lemma('bounded below, scaled', w.le(-E * (C + S), 1))
    w.check('largest at zero separation', w.and_(w.le(a * per / sc, z * per / sc), w.le(-a * per / sc, z * per / sc)) if w.sym else abs(a) <= z + 1e-5)


def process(w):
    """what the granulation of a star hands to the sampler"""
    w.patch_gp()
    u = w.u
    n = w.cfg['n']
    sc, per, mean = w.pos('sc', 0.1, 2), w.pos('per', 1, 10), w.real('mean', slo=0.1, shi=1)
    p = per * u.hr
    tu = w.cfg['tu']
    p = p if tu == 'hr' else p.to(u.day) if tu == 's' else p.to(u.s)
    g = w.pkg.Granulation(mean_coverage=mean, amplitude=sc, period=p, dteff=200 * u.K, seed=5)
    t = [w.real(f't{i}', slo=-20, shi=20) for i in range(n)]
    q = w.qarr([x * u.hr for x in t], 'hr').to(u.Unit(tu))
    s = star(w, None, granulation=g)
    k = 0
    if w.cfg.get('prior'):
        s.get_granulation_coverage(w.qarr([(1000 + i) * u.hr for i in range(n)], 'hr'))
        k = len(w.notes('gp'))
    s.get_granulation_coverage(q)
    gps = w.notes('gp')[k:]
    w.check('one process', len(gps) == 1)
    if len(gps) == 1:
        gp = gps[0]
        X = w.vals(gp.X)
        w.check('all times, in hours', len(X) == n and w.and_(*[w.eq(a, b) for a, b in zip(X, t)]))
        w.check('mean', w.eq(w.v(gp.mean), mean))
        w.check('nothing added to the covariance', gp.noise is None)
        for d in w.vals(gp.diag) if gp.diag is not None else ():
            # up to the single precision of the process
            e = w.frac(1, 10**5) * sc / per / w.sqrt(2)
            w.check('no white noise on top', w.and_(w.le(0, d), w.le(d, e)))
        if len(X) == n:
            for i in range(n):
                for j in range(i + 1):
                    d = t[i] - t[j]
                    x = (d if w.decide(w.is_le(0, d)) else -d) / per / w.sqrt(2)
                    w.check('covariance of every pair', tol(w, cov(w, gp.kernel, X[i], X[j]), law(w, sc, per, x)))


def configs(tier):
    out = [('kernel', 'kernel', dict(obs_tol=1e-4), {})]
    for n, tu in ((2, 'hr'), (2, 'day'), (2, 's'), (1, 'min')):
        out.append((f'process-{n}-{tu}', 'process', dict(n=n, tu=tu), {}))
    out.append(('again', 'process', dict(n=2, tu='hr', prior=1), {}))
    if tier != 'quick':
        out.append(('process-3-hr', 'process', dict(n=3, tu='hr'), {}))
    return out
