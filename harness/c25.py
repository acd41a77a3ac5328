"""C25 exposure integral of flares"""
from harness.common import *
from harness.c24 import ordered

BOUNDS = ('one flare of any duration (FWHM), energy and peak time and any window from an instant up to 50 minutes (thorough: 90), i.e. up to 5 (9) '
          'quadrature nodes at 10-minute resolution; windows may start or end anywhere relative to the flare; two flares with any observer '
          'for the bookkeeping; three sets of time units')
ASSUMPTIONS = ['the curve rises up to the peak and falls after it (decided by C23): its extremes over a window are at its ends or at the peak']


def mk(w, fw, tp, lat=None, lon=None, T=9000):
    u = w.u
    f, t = fw * u.min, tp * u.min
    if w.cfg.get('units'):
        f, t = f.to(u.day), t.to(u.hr)
    return w.pkg.StellarFlare(fwhm=f, energy=1e33 * u.erg, lat=lat if lat is not None else 0 * u.deg, lon=lon if lon is not None else 0 * u.deg,
                              Teff=T * u.K, tpeak=t)


def win(w, a, b):
    u = w.u
    a, b = a * u.min, b * u.min
    k = w.cfg.get('units', 0)
    return (a, b) if k == 0 else (a.to(u.hr), b.to(u.s)) if k == 1 else (a.to(u.day), b.to(u.day))


def bounds(w):
    u = w.u
    lo, hi, n = w.cfg['lo'], w.cfg['hi'], w.cfg['n']
    fw = w.pos('fw', 1, 100)
    tp = w.real('tp', slo=-100, shi=100) if not w.cfg.get('at0') else w.frac(0, 1)
    xs = -w.real('z', -hi, -lo, lo_strict=True, hi_strict=True)
    d = -w.real('y', lo - hi, 0, hi_strict=True)
    w.assume(w.lt(xs + d, hi))
    # window length fixes the number of nodes
    L = d * fw
    w.assume(w.and_(w.le(10 * n, L), w.lt(L, 10 * (n + 1))))
    if not w.sym:
        w.assume(abs(L / 10 - round(L / 10)) > 1e-6)
    ts, tf = tp + xs * fw, tp + (xs + d) * fw
    fl = mk(w, fw, tp)
    A = w.v(fl.calc_peak_area(), 'km2')
    a, b = win(w, ts, tf)
    ends = w.vals(fl.areacurve(w.qarr([ts * u.min, tf * u.min], 'min')), 'km2')
    if hi <= 0:
        # rising: larger at the end
        sup, inf = ends[1], ends[0]
    else:
        sup, inf = ends[0], ends[1]
    col = w.pkg.FlareCollection([fl])
    if w.cfg.get('prior'):
        # windows of the same length were asked for before
        for k in (-10000, 10000):
            col.get_flare_integral_in_timeperiod(a + k * u.day, b + k * u.day)
    got = col.get_flare_integral_in_timeperiod(a, b)
    w.check('one entry', len(got) == 1)
    if len(got) == 1:
        I = w.v(got[0]['timearea'], u.km**2 * u.min) / fw
        w.observe('I', I)
        w.check('temperature', w.eq(w.v(got[0]['Teff'], 'K'), 9000))
        w.check('at most the window times the largest area', w.le(I, d * sup))
        w.check('at least the window times the smallest area', w.le(d * inf, I))
        w.check('positive when shining throughout', w.lt(0, I) if w.sym else I > 0)


def across(w):
    """windows that contain the peak, the start or the end of the flare"""
    u = w.u
    n = w.cfg['n']
    fw = w.pos('fw', 1, 100)
    xs, d = -w.real('z', slo=-1, shi=3), -w.real('y', None, 0, hi_strict=True, slo=-30, shi=-0.01)
    L = d * fw
    w.assume(w.and_(w.le(10 * n, L), w.lt(L, 10 * (n + 1))))
    if not w.sym:
        w.assume(abs(L / 10 - round(L / 10)) > 1e-6)
    tp = w.frac(0, 1)
    fl = mk(w, fw, tp)
    A = w.v(fl.calc_peak_area(), 'km2')
    a, b = win(w, tp + xs * fw, tp + (xs + d) * fw)
    got = w.pkg.FlareCollection([fl]).get_flare_integral_in_timeperiod(a, b)
    k = max(2, n)  # nodes the window gets: only a hint for the certificate below
    es = w.vals(fl.areacurve(w.qarr([(xs * fw + d * fw * w.frac(i, k - 1)) * u.min for i in range(k)], 'min')), 'km2') if w.sym else []
    for e in es:
        w.lemma('curve below its peak', w.and_(w.le(0, e), w.le(e * fw, A * fw)))
    w.check('at most one entry', len(got) <= 1)
    for g in got:
        I = w.v(g['timearea'], u.km**2 * u.min) / fw
        w.observe('I', I)
        w.check('never negative', w.le(0, I))
        if es:
            w.nonneg('trapezium below its peak', (A - I / d) * fw,
                     *[[w.frac(1 if i in (0, k - 1) else 2, 2 * (k - 1)), (A - e) * fw] for i, e in enumerate(es)])
        w.check('at most the window times the peak', w.le(I / d * fw, A * fw))


def book(w):
    """one entry per visible flare, with its own temperature; the star passes everything on"""
    u = w.u
    n = 2
    T = [w.pos(f'T{i}', 5000, 12000) for i in range(n)]
    P = [pt(w, f'f{i}') for i in range(n)]
    fs = [mk(w, w.frac(30, 1), w.frac(w.cfg.get('apart', 10) * i, 1), P[i][0], P[i][1], T[i]) for i in range(n)]
    qa, qo, la, lo = pt(w, 'obs')
    obs = {'lat': qa, 'lon': qo}
    a, b = win(w, w.frac(-5, 1), w.frac(20, 1))
    col = w.pkg.FlareCollection(fs)
    if w.cfg.get('star'):
        s = star(w, None)
        s.flares = col
        got = s.get_flare_int_over_timeperiod(a, b, obs)
    else:
        got = col.get_flare_integral_in_timeperiod(a, b, obs)
    vis = col.get_visible_flares_in_timeperiod(a, b, obs)
    w.check('one entry per visible flare', len(got) == len(vis))
    for g, f in zip(got, vis):
        i = [k for k, x in enumerate(fs) if x is f][0]
        w.check('own temperature', w.eq(w.v(g['Teff'], 'K'), T[i]))
        alone = w.pkg.FlareCollection([f]).get_flare_integral_in_timeperiod(a, b, obs)
        w.check('own time-area', len(alone) == 1 and w.eq(w.v(g['timearea'], u.km**2 * u.min) * T[i]**4, w.v(alone[0]['timearea'], u.km**2 * u.min) * T[i]**4))


def configs(tier):
    out = []
    N = 5 if tier == 'quick' else 9
    for n in range(0, N + 1):
        for nm, lo, hi in (('rise', -1, 0), ('fall', 0, 20)):
            out.append((f'{nm}-{n}', 'bounds', dict(lo=lo, hi=hi, n=n, units=n % 3, at0=n > 2), {}))
    for n in (0, 2, 3) if tier == 'quick' else (0, 2, 3, 4, 5):
        out.append((f'across-{n}', 'across', dict(n=n, units=n % 3), {}))
    for n in (0, 3):
        out.append((f'again-{n}', 'bounds', dict(lo=0, hi=20, n=n, units=0, at0=1, prior=1), {}))
    out.append(('book', 'book', dict(units=1), {}))
    out.append(('book-dark', 'book', dict(units=2, apart=60), {}))
    out.append(('book-star', 'book', dict(star=1), {}))
    return out
