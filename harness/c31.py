"""C31 units of the inputs"""
import math
from harness.disk import *
from harness import c36

BOUNDS = ('three sets of units (days/hours/seconds, km/solar radii/m, msh/km2/solar radii squared, erg/J/kg km2 s-2, degrees/radians/arcminutes, rates to match), a mix of them, each quantity also on its own; '
          'any values: one spot or facula aged by any time, a grid point anywhere and one on the meridian of the feature, up to two births, one flare and three times, windows of 25 minutes, '
          'discs of two or three cells with any orbit, planet, phase and inclination (planet in front: 2 quadrature nodes per cell instead of 100)')


def POLE(w):
    return stub_grid(w, [90 * w.u.deg], [0 * w.u.deg])


class Conv:
    """expresses quantities in one of the sets of units; or (3) in a mix of them; with `only`, just that one quantity"""

    def __init__(self, w, k, only=None):
        self.w, self.k, self.only, self.n = w, k, only, 0

    def unit(self, kind, k):
        u, MSH = self.w.u, self.w.pkg.MSH
        return dict(time=(u.day, u.hr, u.s), length=(u.km, u.R_sun, u.m), area=(MSH, u.km**2, u.R_sun**2), energy=(u.erg, u.J, u.kg * u.km**2 / u.s**2),
                    angle=(u.deg, u.rad, u.arcmin), rate=(1 / u.day, 1 / u.hr, 1 / u.s), decay=(MSH / u.day, u.km**2 / u.hr, MSH / u.s),
                    slope=(u.K / u.km, u.K / u.R_sun, u.K / u.m), angles=(u.deg, u.rad, u.arcmin))[kind][k]

    def __call__(self, q, kind):
        self.n += 1
        k = self.k if self.only is None or self.only == self.n else 0
        return q.to(self.unit(kind, self.n % 3 if k == 3 else k))


def both(w, f):
    """f run in the first set of units and in the other"""
    a = f(Conv(w, 0))
    b = f(Conv(w, w.cfg['k'], w.cfg.get('only')))
    return a, b


def agree(w, name, a, b):
    """nested results: numbers, booleans, strings, lists, dictionaries"""
    ok = []

    def go(x, y):
        if isinstance(x, dict):
            if not isinstance(y, dict) or sorted(x) != sorted(y):
                return False
            return all([go(x[k], y[k]) for k in x])
        if isinstance(x, (list, tuple)):
            if len(x) != len(y):
                return False
            return all([go(p, q) for p, q in zip(x, y)])
        if isinstance(x, (bool, str, int)) or x is None:
            return x == y
        if w.isnan(x) or w.isnan(y):
            return w.isnan(x) and w.isnan(y)
        ok.append(w.eq(x, y) if w.sym else w.eq(x, y, scale=1e-6))
        return True
    w.check(name + ': same structure', go(a, b))
    for c in ok:
        w.check(name + ': same values', c)


def grid2(w, c, p):
    return stub_grid(w, [c(x[0], 'angle') for x in p], [c(x[1], 'angle') for x in p], [w.frac(1, len(p))] * len(p))


def spot_age(w):
    u, MSH = w.u, w.pkg.MSH
    amax, a0 = w.pos('amax', 20, 500), w.real('a0', 0, slo=0, shi=500)
    w.assume(w.le(a0, amax))
    g, d = w.real('g', 0, slo=0.0, shi=2.0), w.real('d', 0, slo=0.0, shi=50.0)
    t, R = w.real('t', 0, slo=0, shi=20), w.pos('R', 0.5, 2)
    grow = w.cfg['grow']
    if grow:
        w.assume(w.lt(0, a0))

    def f(c):
        s = w.pkg.StarSpot(lat=0 * u.deg, lon=0 * u.deg, area_max=c(amax * MSH, 'area'), area_current=c(a0 * MSH, 'area'), teff_umbra=2500 * u.K,
                           teff_penumbra=2700 * u.K, is_growing=grow, growth_rate=c(g / u.day, 'rate'), decay_rate=c(d * MSH / u.day, 'decay'),
                           gridmaker=POLE(w))
        col = w.pkg.SpotCollection(s, gridmaker=POLE(w))
        col.age(c(t * u.day, 'time'))
        return [w.v(s.area_current, MSH), bool(s.is_growing), len(col.spots)]
    a, b = both(w, f)
    w.observe('area', a[0])
    agree(w, 'spot aged', a, b)


def fac_age(w):
    u = w.u
    rmax, x = w.pos('rmax', 100, 2000), w.real('x', 0, 1, lo_strict=True)
    life, t = w.pos('life', 1, 20), w.real('t', 0, slo=0, shi=40)

    def f(c):
        s = facula(w, 0 * u.deg, 0 * u.deg, c(rmax * x * u.km, 'length'), POLE(w), r_max=c(rmax * u.km, 'length'), lifetime=c(life * u.hr, 'time'), growing=w.cfg['grow'])
        col = w.pkg.FaculaCollection(s, gridmaker=POLE(w))
        col.age(c(t * u.hr, 'time'))
        return [w.v(s.radius, 'km'), bool(s.is_growing), len(col.faculae)]
    a, b = both(w, f)
    w.observe('radius', a[0])
    agree(w, 'facula aged', a, b)


def maps(w):
    """maps of a spot and a facula, their sizes, and how faculae look from an angle"""
    u = w.u
    p, C = pt(w, 'p'), pt(w, 'c')
    if w.sym:
        dot_lemma(w, p[2], p[3], C[2], C[3])
    P, C = [p[:2]], C[:2]
    if w.cfg['n'] == 2:
        P.append((C[0], C[1] + 180 * u.deg))
    A, R = w.real('A', 0, slo=0, shi=3), w.pos('R', 0.3, 2)
    w.assume(w.le(A, w.frac(399, 100) * w.pi * R * R))
    r = w.pos('r', 0.01, 1)

    def f(c):
        G = grid2(w, c, P)
        rad = c(R * u.R_sun, 'length')
        la, lo = c(C[0], 'angle'), c(C[1], 'angle')
        if w.cfg['what'] == 'spot':
            s = spot(w, la, lo, c(A * u.R_sun**2, 'area'), 2500 * u.K, 2700 * u.K, G, ratio=3)
            m = s.map_pixels(rad)
            out = [w.bools(m[s.teff_umbra]), w.bools(m[s.teff_penumbra]), w.v(s.angular_radius(rad), 'rad')]
            if w.cfg['n'] == 1:
                out += [w.vals(w.pkg.SpotCollection(s, gridmaker=G).map_pixels(rad, 3000 * u.K), 'K')]
            return out
        s = facula(w, la, lo, c(r * u.R_sun, 'length'), G)
        return [w.bools(s.map_pixels(rad)), w.v(s.angular_radius(rad), 'rad')]
    a, b = both(w, f)
    w.check('size', w.eq(a[2] if len(a) > 2 else a[1], b[2] if len(b) > 2 else b[1]))
    for x, y in zip(a[:2], b[:2]):
        if isinstance(x, list):
            w.check('same cells', len(x) == len(y) and w.and_(*[w.iff(p, q) for p, q in zip(x, y)]))
    if len(a) > 3:
        agree(w, 'temperatures', a[3], b[3])


def walls(w):
    u = w.u
    r, dep, mr = w.pos('r', 100, 2000), w.real('dep', 0, slo=0, shi=1000), w.pos('mr', 10, 2000)
    ws, wi, fs, fb = [w.real(k, slo=-200, shi=200) for k in ('ws', 'wi', 'fs', 'fb')]
    t = w.angle('angle', 0, HALF, hi_strict=True)
    w.assume(w.not_(w.is_eq(w.rint(wi), w.rint(fb))) if not w.cfg.get('slopes') else True)

    def f(c):
        k = dict(wall_slope=c(ws / 1000 * u.K / u.km, 'slope'), floor_slope=c(fs / 1000 * u.K / u.km, 'slope')) if w.cfg.get('slopes') else {}
        s = facula(w, 0 * u.deg, 0 * u.deg, c(r * u.km, 'length'), POLE(w), depth=c(dep * u.km, 'length'), min_rad=c(mr * u.km, 'length'),
                   wall=wi * u.K, floor=fb * u.K, **k)
        if w.cfg.get('slopes'):
            return [w.v(s.wall_dteff, 'K'), w.v(s.floor_dteff, 'K')]
        x = s.fractional_effective_area(c(t, 'angle'))
        y = s.effective_area(c(t, 'angle'))
        return [[w.v(k, 'K') for k in x], [w.v(v) for v in x.values()], [w.v(k, 'K') for k in y], [w.v(v, 'km2') for v in y.values()]]
    a, b = both(w, f)
    agree(w, 'facula from an angle', a, b)


def cover(w):
    """disk fractions, planet anywhere but in front"""
    u = w.u
    al, r = w.pos('orbit', 0.05, 3), w.real('rp', 0, 1, lo_strict=True, slo=0.02, shi=1)
    ph = w.angle('phase', -HALF, HALF, lo_strict=True, hi_strict=True)
    inc = w.angle('inc', 0, 1)
    if w.cfg.get('front'):
        ph = ph + 180 * u.deg
    cells = [CELLS[i] for i in w.cfg['cells']]
    R = w.pos('R', 0.3, 2)
    Ts = w.real('Ts', 2500, 3200)

    def f(c):
        G = stub_grid(w, [c(a * u.deg, 'angles') for a, _ in cells], [c(b * u.deg, 'angles') for _, b in cells], [w.frac(1, 400)] * len(cells))
        rad = c(R * u.R_sun, 'length')
        sp = [spot(w, c(cells[0][0] * u.deg, 'angle'), c(cells[0][1] * u.deg, 'angle'), c(0.1 * (R * u.R_sun)**2, 'area'), Ts * u.K, Ts * u.K, G)]
        fa = [facula(w, c(45 * u.deg, 'angle'), c(0 * u.deg, 'angle'), c(0.2 * R * u.R_sun, 'length'), G, depth=c(0.1 * R * u.R_sun, 'length'))] if w.cfg.get('fac') else []
        s = star(w, G, spots=sp, faculae=fa, radius=rad, u1=w.frac(1, 5), u2=w.frac(1, 10))
        o = w.cfg['obs']
        kw = dict(orbit_radius=c(al * R * u.R_sun, 'length'), phase=c(ph, 'angle'), inclination=c(inc, 'angle'), planet_radius=c(r * R * u.R_sun, 'length'))
        total, cov, pl = s.calc_coverage({'lat': c(o[0] * u.deg, 'angle'), 'lon': c(o[1] * u.deg, 'angle')}, **kw)
        return [[(w.label(k), w.v(x)) for k, x in total.items()], [(w.label(k), w.v(x)) for k, x in cov.items()], w.v(pl)]
    if not w.sym:
        w.assume(abs(math.cos(float(w.v(ph, 'rad')))) > 1e-9)
    a, b = both(w, f)
    w.observe('visible', a[2])
    agree(w, 'disk', a, b)


def fraction(w):
    """single-spot disk fraction, seen from a pole"""
    u = w.u
    p = (90 * u.deg - w.angle('c0', 0, 1), w.angle('lon', 0, 2))
    o = (90 * u.deg, 20 * u.deg)
    a, R = w.v(w.angle('a', 0, F(9, 10)), 'rad'), w.pos('R', 0.5, 2)

    def f(c):
        s = spot(w, c(p[0], 'angle'), c(p[1], 'angle'), c(2 * w.pi * (1 - w.cos(a)) * (R * u.R_sun)**2, 'area'), 2500 * u.K, 2700 * u.K, POLE(w))
        return [w.v(s.surface_fraction({'lat': c(o[0], 'angle'), 'lon': c(o[1], 'angle')}, c(R * u.R_sun, 'length'), n_points=3))]
    a, b = both(w, f)
    agree(w, 'spot fraction', a, b)


def births(w):
    u, MSH = w.u, w.pkg.MSH
    R, t = w.pos('R', 0.1, 2), w.pos('t', 1e-3, 1e-1)
    X = w.pos('X', 0.001, 1, hi=1)
    if w.cfg['what'] == 'spots':
        amax, a0 = w.pos('amax', 100, 1000), w.pos('a0', 1, 100)
        w.assume(w.le(a0, amax))
        w.fact_log(amax, a0)
        g, d = w.pos('g', 0.1, 2), w.pos('d', 1, 60)
    else:
        r0, tau = w.pos('r0', 100, 5000), w.pos('tau', 1, 50)

    def f(c):
        G = stub_grid(w, [90 * u.deg], [0 * u.deg])
        if w.cfg['what'] == 'spots':
            gen = w.pkg.SpotGenerator(dist_area_mean=c(amax * MSH, 'area'), dist_area_logsigma=w.frac(1, 5), umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                                      growth_rate=c(g / u.day, 'rate'), decay_rate=c(d * MSH / u.day, 'decay'), init_area=c(a0 * MSH, 'area'),
                                      distribution='iso', coverage=X, gridmaker=G, rng=w.rng('r'))
            n = [w.v(gen.get_n_spots_to_birth(c(t * u.day, 'time'), c(R * u.R_sun, 'length'))), w.v(gen.mean_area, MSH), w.v(gen.mean_lifetime, 'day')]
            new = gen.birth_spots(c(t * u.day, 'time'), c(R * u.R_sun, 'length'))
        else:
            gen = w.pkg.FaculaGenerator(dist_r_peak=c(r0 * u.km, 'length'), dist_r_logsigma=w.frac(1, 5), depth=c(100 * u.km, 'length'),
                                        dist_life_peak=c(tau * u.hr, 'time'), dist_life_logsigma=w.frac(1, 5), floor_teff_slope=c(0 * u.K / u.km, 'slope'),
                                        floor_teff_min_rad=c(20 * u.km, 'length'), floor_teff_base_dteff=-100 * u.K, wall_teff_slope=c(0 * u.K / u.km, 'slope'),
                                        wall_teff_intercept=100 * u.K, coverage=X, dist='iso', gridmaker=G, rng=w.rng('r'))
            n = [w.v(gen.get_n_faculae_expected(c(t * u.hr, 'time'), c(R * u.R_sun, 'length'))), w.v(gen.mean_area, 'km2')]
            new = gen.birth_faculae(c(t * u.hr, 'time'), c(R * u.R_sun, 'length'))
        return [n, c36.vals(w, new)]
    a, b = both(w, f)
    agree(w, 'births', a, b)


def mature(w):
    u, MSH = w.u, w.pkg.MSH
    static = w.cfg['static']
    R = w.frac(1, 1)

    def f(c):
        G = stub_grid(w, [90 * u.deg], [0 * u.deg])
        gen = w.pkg.SpotGenerator(dist_area_mean=c(500 * MSH, 'area'), dist_area_logsigma=w.frac(1, 5), umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K,
                                  growth_rate=c(0.5 / u.day, 'rate'), decay_rate=c((0 if static else 10) * MSH / u.day, 'decay'), init_area=c(10 * MSH, 'area'),
                                  distribution='iso', coverage=0.1, gridmaker=G, rng=w.rng('r'))
        return c36.vals(w, gen.generate_mature_spots(0.00004, c(1 * u.R_sun, 'length')))
    a, b = both(w, f)
    agree(w, 'mature spots', a, b)


def mkflare(w, c, E, fw, tp, la, lo):
    return w.pkg.StellarFlare(fwhm=c(fw * w.u.hr, 'time'), energy=c(E * w.u.erg, 'energy'), lat=c(la, 'angle'), lon=c(lo, 'angle'), Teff=9000 * w.u.K,
                              tpeak=c(tp * w.u.hr, 'time'))


def flare(w):
    """area and time curve"""
    u = w.u
    E, fw, tp = w.pos('E', 1e30, 1e35), w.pos('fw', 0.1, 5), w.real('tp', slo=-10, shi=50)
    x = w.real('x', slo=-2, shi=25)
    for y in (x, x + 1):
        no_jump(w, y, 0, 1, (-10, -1, 0, 20))

    def f(c):
        fl = mkflare(w, c, E, fw, tp, 0 * u.deg, 0 * u.deg)
        q = c(w.qarr([(tp + x * fw) * u.hr, (tp + (x + 1) * fw) * u.hr], 'hr'), 'time')
        return [w.v(fl.calc_peak_area(), 'km2') * fw, [y * fw for y in w.vals(fl.areacurve(q), 'km2')], w.v(fl.get_timearea(q), u.km**2 * u.hr)]
    a, b = both(w, f)
    agree(w, 'flare', a, b)


def no_jump(w, t, tp, fw, at):
    """the light curve jumps at some times; a concrete run with a time exactly there depends on rounding"""
    if not w.sym:
        for k in at:
            w.assume(abs(t - tp - k * fw) > 1e-9 * max(fw, abs(t), abs(tp), 1e-3))


def choose(w):
    """which flares are reported, and their integral"""
    u = w.u
    fw, tp = w.pos('fw', 0.1, 5), w.real('tp', slo=-10, shi=50)
    P, O = pt(w, 'f')[:2], pt(w, 'obs')[:2]
    t0 = w.real('t0', slo=-10, shi=50)
    L = w.frac(25, 60)
    for t in (t0, t0 + L):
        no_jump(w, t, tp, fw, (-10, -1, 0, 20))

    def f(c):
        fl = mkflare(w, c, w.frac(10**33, 1), fw, tp, *P)
        col = w.pkg.FlareCollection([fl])
        a, b = c(t0 * u.hr, 'time'), c((t0 + L) * u.hr, 'time')
        obs = {'lat': c(O[0], 'angle'), 'lon': c(O[1], 'angle')}
        return [w.bools(col.mask(a, b)), len(col.get_flares_in_timeperiod(a, b)), len(col.get_visible_flares_in_timeperiod(a, b, obs)),
                [(w.v(g['Teff'], 'K'), w.v(g['timearea'], u.km**2 * u.hr) * fw) for g in col.get_flare_integral_in_timeperiod(a, b, obs)] if w.cfg.get('integral') else 0]
    a, b = both(w, f)
    w.check('same selection', w.iff(a[0][0], b[0][0]))
    agree(w, 'flares', a[1:], b[1:])


def series(w):
    """rates and generated flares"""
    u = w.u
    E, t = w.pos('E', 1e32, 1e36), w.pos('t', 0.1, 10)
    fw = w.pos('fwm', 0.1, 5)

    def f(c):
        g = w.pkg.FlareGenerator(dist_teff_mean=9000 * u.K, dist_teff_sigma=500 * u.K, dist_fwhm_mean=c(fw * u.hr, 'time'), dist_fwhm_logsigma=w.frac(3, 10),
                                 alpha=w.frac(-1, 1) if not w.cfg.get('rate') else w.frac(-2, 1), beta=w.frac(30, 1), min_energy=c(10**33 * u.erg, 'energy'), cluster_size=2, rng=w.rng('r'))
        e, tt = c(E * u.erg, 'energy'), c(t * u.day, 'time')
        out = [w.v(g.get_nexp_greater_than(e, tt)), w.v(g.get_ntotal(tt)), w.v(g.frequency_greater_than(e), '1/day'), w.v(g.cdf(e))]
        if not w.cfg.get('rate'):
            out.append(c36.vals(w, g.generate_flare_series(tt)))
        else:
            out += [w.v(g.pdf(e))]
        return out
    a, b = both(w, f)
    agree(w, 'flare statistics', a, b)


def gran(w):
    w.patch_gp()
    u = w.u
    per = w.pos('per', 1, 10)
    t = [w.real(f't{i}', slo=0, shi=50) for i in range(w.cfg['n'])]

    def f(c):
        g = w.pkg.Granulation(mean_coverage=w.frac(1, 5), amplitude=w.frac(1, 10), period=c(per * u.hr, 'time'), dteff=200 * u.K, seed=4)
        q = c(w.qarr([x * u.hr for x in t], 'hr'), 'time')
        s = star(w, None, granulation=g)
        s.get_granulation_coverage(q)
        gp = w.notes('gp')[-1]
        X = w.vals(gp.X)
        return [X, [w.vals(gp.kernel.evaluate(X[0], x)) for x in X]]
    a, b = both(w, f)
    w.check('same times', len(a[0]) == len(b[0]) and w.and_(*[w.eq(x, y) for x, y in zip(a[0], b[0])]))
    for x, y in zip(a[1], b[1]):
        w.check('same covariance', w.and_(*[(w.eq(p, q) if w.sym else abs(p - q) < 1e-5) for p, q in zip(x, y)]))


def configs(tier):
    out = []

    def add(name, fn, c, o=None, n=0):
        """all quantities in other units; then each of the n quantities alone"""
        for k in (1, 2, 3):
            out.append((f'{name}-{k}', fn, dict(c, k=k), o or {}))
        for i in range(1, n + 1):
            if tier != 'quick' or i % 2:
                out.append((f'{name}-only{i}', fn, dict(c, k=1 + i % 2, only=i), o or {}))
    for g in (True, False):
        add(f'spot-age{int(g)}', 'spot_age', dict(grow=g), n=5)
        add(f'fac-age{int(g)}', 'fac_age', dict(grow=g), n=4)
    for n in (1, 2):
        add(f'spot{n}', 'maps', dict(what='spot', n=n), dict(t_feas=200), n=3 * n)
        add(f'facula{n}', 'maps', dict(what='facula', n=n), dict(t_feas=200), n=3 * n)
    add('walls', 'walls', {}, n=5)
    add('slopes', 'walls', dict(slopes=1), n=2)
    add('cover', 'cover', dict(cells=(0, 1), obs=(90, 0)))
    add('cover-fac', 'cover', dict(cells=(6, 7, 0), obs=(90, 0), fac=1))
    add('front', 'cover', dict(cells=(0,), obs=(90, 0), front=1), dict(linspace_cut=2, ite=True))
    add('fraction', 'fraction', {}, dict(t_feas=200))
    for x in ('spots', 'faculae'):
        add(f'births-{x}', 'births', dict(what=x), dict(poisson_max=1), n=4)
    add('mature', 'mature', dict(static=1), dict(draw_max=9))
    add('mature-decay', 'mature', dict(static=0), dict(draw_max=9))
    add('flare', 'flare', {}, n=3)
    add('select', 'choose', {}, n=3)
    add('integral', 'choose', dict(integral=1))
    add('series', 'series', {}, dict(poisson_max=1))
    add('rates', 'series', dict(rate=1))
    add('gran', 'gran', dict(n=2))
    return out
