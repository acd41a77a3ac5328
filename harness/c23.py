"""C23 flare light curves"""
from harness.common import *
from harness.c22 import mkflare

BOUNDS = ('one flare of any energy, temperature, duration and peak time seen at any one or two times; the multi-flare curve for 2 and 3 (thorough: 4) '
          'flares of any parameters at any time')


def base(w, names=('x',)):
    E, T = w.pos('E', 1e30, 1e35), w.pos('T', 5000, 12000)
    fw, tp = w.pos('fw', 0.1, 5), w.real('tp', slo=-10, shi=100)
    fl = mkflare(w, E, T, fw, tp)
    A = w.v(fl.calc_peak_area(), 'km2')
    tu = [w.u.hr, w.u.day, w.u.min][w.cfg.get('units', 0)]

    def curve(*xs, fl=fl, tp=tp, fw=fw):
        return w.vals(fl.areacurve(w.qarr([((tp + x * fw) * w.u.hr).to(tu) for x in xs], tu)), 'km2')
    return E, T, fw, tp, fl, A, curve


def shape(w):
    E, T, fw, tp, fl, A, curve = base(w)
    x = w.real('x', slo=-3, shi=25)
    if not w.sym:
        w.assume(min(abs(x + 1), abs(x), abs(x - 20)) > 1e-9)
    a, = curve(x)
    w.observe('a', a)
    r = a / A
    w.check('nothing before the flare', w.imp(w.lt(x, -1), w.eq(r, 0)))
    w.check('nothing after the flare', w.imp(w.lt(20, x), w.eq(r, 0)))
    w.check('never negative', w.le(0, r))
    w.check('never above the peak', w.le(r, 1))
    w.check('time by time', w.and_(w.eq(curve(x, w.frac(-50, 1))[0], a), w.eq(curve(w.frac(50, 1), x)[1], a)))
    w.check('peak at the peak time', w.eq(w.vals(fl.areacurve(w.qarr([fl.tpeak], fl.tpeak.unit)), 'km2')[0] / A, 1))


def falls(w):
    E, T, fw, tp, fl, A, curve = base(w)
    x = w.real('x', 0, 20, lo_strict=True, hi_strict=True)
    y = w.real('y', 0, 30, lo_strict=True)
    w.assume(w.lt(x, y))
    if not w.sym:
        w.assume(abs(y - 20) > 1e-9 and y - x > 1e-6)
    a, b = curve(x, y)
    w.observe('a', [a, b])
    w.check('falls after the peak', w.lt(b / A, a / A))
    w.check('shines for 20 FWHM', w.lt(0, a / A))


def selfsimilar(w):
    """same shape in (t - tpeak)/FWHM for another flare"""
    E, T, fw, tp, fl, A, curve = base(w)
    k, tp2 = w.pos('k', 0.1, 10), w.real('tp2', slo=-10, shi=100)
    E2 = w.pos('E2', 1e30, 1e35)
    x = w.real('x', slo=-3, shi=25)
    if not w.sym:
        w.assume(min(abs(x + 1), abs(x), abs(x - 20)) > 1e-9)
    f2 = mkflare(w, E2, T, fw * k, tp2)
    a, = curve(x)
    b, = curve(x, fl=f2, tp=tp2, fw=fw * k)
    w.observe('a', [a, b])
    w.check('depends on (t - tpeak)/FWHM only', w.eq(a / A, b / w.v(f2.calc_peak_area(), 'km2')))


def several(w):
    n = w.cfg['n']
    lc = w.m.xoflares.get_light_curvenp
    t = w.real('t', slo=-5, shi=20)
    P = [(w.real(f'tp{i}', slo=-5, shi=10), w.pos(f'fw{i}', 0.2, 3), w.real(f'a{i}', 0, slo=0, shi=10)) for i in range(n)]
    for p in P:
        if not w.sym:
            x = (t - p[0]) / p[1]
            w.assume(min(abs(x + 1), abs(x), abs(x - 20)) > 1e-9)

    def run(ps, ts=(t,)):
        return w.vals(lc(w.arr(list(ts)), w.arr([p[0] for p in ps]), w.arr([p[1] for p in ps]), w.arr([p[2] for p in ps])))
    one = [run([p])[0] for p in P]
    all_, = run(P)
    w.observe('sum', all_)
    w.check('additive', w.eq(all_, sum(one, 0)))
    w.check('any order', w.eq(run(P[::-1])[0], all_))
    w.check('time by time', w.eq(run(P, (t + 100000, t))[1], all_))
    k = w.pos('k', 0.1, 10)
    w.check('scales with the amplitudes', w.eq(run([(a, b, c * k) for a, b, c in P])[0], all_ * k))


def configs(tier):
    out = [(f'shape-{i}', 'shape', dict(units=i), {}) for i in range(3)]
    out += [('falls', 'falls', {}, {}), ('selfsimilar', 'selfsimilar', {}, {}), ('several-2', 'several', dict(n=2), {}), ('several-3', 'several', dict(n=3), {})]
    if tier == 'thorough':
        out.append(('several-4', 'several', dict(n=4), {}))
    return out
