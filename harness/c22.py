"""C22 flare energy"""
from harness.common import *

BOUNDS = 'any energy, temperature, duration, peak time > 0; three sets of units; the area curve integrated exactly over [-1, 20] FWHM around the peak'


def mkflare(w, E, T, fw, tp, units=None):
    u = w.u
    k = w.cfg.get('units', 0) if units is None else units
    e, f, t, t0 = E * u.erg, fw * u.hr, T * u.K, tp * u.hr
    if k == 1:
        e, f, t0 = e.to(u.J), f.to(u.day), t0.to(u.s)
    if k == 2:
        f, t0 = f.to(u.s), t0.to(u.day)
    return w.pkg.StellarFlare(fwhm=f, energy=e, lat=0 * u.deg, lon=0 * u.deg, Teff=t, tpeak=t0)


def energy(w):
    u = w.u
    E, T = w.pos('E', 1e30, 1e35), w.pos('T', 5000, 12000)
    fw, tp = w.pos('fw', 0.1, 5), w.real('tp', slo=-10, shi=100)
    fl = mkflare(w, E, T, fw, tp)
    # a flare of the same numbers in other units was there before
    w.pkg.StellarFlare(fwhm=fl.fwhm.value * u.yr, energy=fl.energy.value * u.kJ, lat=0 * u.deg, lon=0 * u.deg, Teff=fl.Teff, tpeak=fl.tpeak).calc_peak_area()
    A = w.v(fl.calc_peak_area(), 'km2')
    w.observe('A', A)
    w.check('positive', w.lt(0, A))
    tu = [u.hr, u.day, u.min][w.cfg['units']]

    def curve(xs):
        return w.vals(fl.areacurve(w.qarr([((tp + x * fw) * u.hr).to(tu) for x in xs], tu)), 'km2')
    integral = (w.integral('x0', curve, -1, 0) + w.integral('x1', curve, 0, 20)) * fw
    rad = integral * w.v(w.const.sigma_sb * (T * u.K)**4 * u.km**2 * u.hr, 'erg')
    w.check('radiates its energy', w.eq(rad / E, 1, tol=1e-7, sym_tol=F(1, 10**9)))
    k = w.pos('k', 0.1, 10)
    w.check('proportional to energy', w.eq(w.v(mkflare(w, E * k, T, fw, tp).calc_peak_area(), 'km2'), A * k))
    w.check('inverse to duration', w.eq(w.v(mkflare(w, E, T, fw * k, tp).calc_peak_area(), 'km2') * k, A))
    w.check('inverse to T^4', w.eq(w.v(mkflare(w, E, T * k, fw, tp).calc_peak_area(), 'km2') * k * k * k * k, A))
    w.check('independent of units', w.eq(w.v(mkflare(w, E, T, fw, tp, 2 - w.cfg['units']).calc_peak_area(), 'km2'), A))


def configs(tier):
    return [(f'energy-{i}', 'energy', dict(units=i), {}) for i in range(3)]
