"""C24 flares in a window"""
from harness.common import *

BOUNDS = ('collections of 2 (thorough: 3) flares of any peak time, duration, energy; any window; any time inside it; any positions and observer '
          'directions; peak times, durations and windows in mixed units')


def series(w, n, where=False):
    u = w.u
    out = []
    for i in range(n):
        fw, tp = w.pos(f'fw{i}', 0.1, 5), w.real(f'tp{i}', slo=-50, shi=50)
        f, t = fw * u.hr, tp * u.hr
        if w.cfg.get('units') and i % 2 == 0:
            f, t = f.to(u.day), t.to(u.min)
        if where:
            la, lo, a, b = pt(w, f'f{i}')
        else:
            la, lo, a, b = 0 * u.deg, 0 * u.deg, 0, 0
        fl = w.pkg.StellarFlare(fwhm=f, energy=[2e33, 1e33, 3e33][i % 3] * u.erg, lat=la, lon=lo, Teff=[9000, 10000, 8000][i % 3] * u.K, tpeak=t)
        out.append((fl, tp, fw, a, b))
    return out


def window(w):
    u = w.u
    ts, dt = w.real('ts', slo=-60, shi=60), w.real('dt', 0, slo=0, shi=40)
    a, b = ts * u.hr, (ts + dt) * u.hr
    if w.cfg.get('units'):
        a, b = a.to(u.s), b.to(u.day)
    return ts, ts + dt, a, b


def ordered(got, want):
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


def clear(w, *ds):
    """concrete runs stay away from the boundaries"""
    if not w.sym:
        w.assume(min(abs(d) for d in ds) > 1e-6)


def time(w):
    u = w.u
    fs = series(w, w.cfg['n'])
    ts, tf, a, b = window(w)
    for fl, tp, fw, *_ in fs:
        clear(w, tp + 20 * fw - ts, tp - 10 * fw - tf, tp - fw - tf)
    col = w.pkg.FlareCollection([f[0] for f in fs])
    if w.cfg.get('prior'):
        # other windows were asked for before: a late one, an early one, one of the same numbers in another unit
        for x, y in ((1000 * u.day, 1001 * u.day), (-1001 * u.day, -1000 * u.day), (a.value * u.yr, b.value * u.yr)):
            col.get_flares_in_timeperiod(x, y)
    got = list(col.get_flares_in_timeperiod(a, b))
    w.observe('n', len(got))
    mine = [f[0] for f in fs]
    w.check('in order', ordered(got, [f for f in mine if any(f is g for g in got)]))
    for i, (fl, tp, fw, *_) in enumerate(fs):
        there = any(fl is g for g in got)
        if not there:
            # at no time inside the window does it shine
            s = w.real(f's{i}', 0, 1)
            t = ts + s * (tf - ts)
            if not w.sym:
                x = (t - tp) / fw
                w.assume(min(abs(x + 1), abs(x - 20)) > 1e-6)
            area = w.vals(fl.areacurve(w.qarr([t * u.hr], 'hr')), 'km2')[0]
            w.check('no shining flare is missed', w.eq(area, 0))
        else:
            w.check('not over before the window', w.lt(ts, tp + 20 * fw))
            w.check('peak not beyond 10 FWHM after the window', w.lt(tp - 10 * fw, tf))


def visible(w):
    u = w.u
    fs = series(w, w.cfg['n'], True)
    ts, tf, a, b = window(w)
    for fl, tp, fw, *_ in fs:
        clear(w, tp + 20 * fw - ts, tp - 10 * fw - tf)
    col = w.pkg.FlareCollection([f[0] for f in fs])
    if w.cfg.get('noobs'):
        la, lo = w.frac(0, 1), w.frac(0, 1)
        args = ()
    else:
        qa, qo, la, lo = pt(w, 'obs')
        args = ({'lat': qa, 'lon': qo},)
    sel = list(col.get_flares_in_timeperiod(a, b))
    if w.cfg.get('prior'):
        for x in (0, 180):
            col.get_visible_flares_in_timeperiod(a, b, {'lat': 0 * u.deg, 'lon': x * u.deg})
    got = list(col.get_visible_flares_in_timeperiod(a, b, *args))
    w.observe('n', len(got))
    w.check('in order, from the window', ordered(got, [f for f in sel if any(f is g for g in got)]))
    for fl, tp, fw, x, y in fs:
        if any(fl is g for g in sel):
            d = dot(w, la, lo, x, y)
            if not w.sym:
                w.assume(abs(d) > 1e-9)
            there = any(fl is g for g in got)
            w.check('visible exactly on the facing hemisphere', w.lt(0, d) if there else w.le(d, 0))


def single(w):
    """a collection of one flare, or none"""
    u = w.u
    fs = series(w, 1)
    fl, tp, fw, *_ = fs[0]
    ts, tf, a, b = window(w)
    clear(w, tp + 20 * fw - ts, tp - 10 * fw - tf)
    one = w.pkg.FlareCollection(fl)
    got, ref = list(one.get_flares_in_timeperiod(a, b)), list(w.pkg.FlareCollection([fl]).get_flares_in_timeperiod(a, b))
    w.check('one flare given alone', ordered(got, ref))
    w.check('no flares', list(w.pkg.FlareCollection([]).get_visible_flares_in_timeperiod(a, b)) == [])


def configs(tier):
    out = []
    n = 2
    for k in (0, 1):
        out.append((f'time-{k}', 'time', dict(n=n, units=k), {}))
        out.append((f'single-{k}', 'single', dict(units=k), {}))
    out.append(('visible', 'visible', dict(n=1, units=1), {}))
    out.append(('visible-2', 'visible', dict(n=2, noobs=1), {}))
    out.append(('again', 'time', dict(n=1, prior=1), {}))
    out.append(('again-visible', 'visible', dict(n=1, prior=1), {}))
    if tier == 'thorough':
        out.append(('time-3', 'time', dict(n=3, units=1), {}))
        out.append(('visible-obs-2', 'visible', dict(n=2, units=1), {}))
        out.append(('visible-3', 'visible', dict(n=3, noobs=1), {}))
    return out
