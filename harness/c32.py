"""C32 only relative longitude matters"""
import math
from harness.disk import *
from harness.c31 import agree

BOUNDS = ('any common rotation in (-180, 180] degrees and whole turns from -2 to 2 added to any single longitude, degrees or radians; a spot or facula anywhere and a grid point anywhere; '
          'discs of two to four cells with a spot, a facula, limb darkening and granulation, seen from the pole, the equator or between; transits with any orbit, planet and phase at an inclination of 90 degrees '
          '(2 quadrature nodes per cell instead of 100) and eclipses; flares anywhere seen from anywhere; single-spot fractions on 3 nodes')


def turns(w, who):
    """whole turns added to the longitude of one of the participants"""
    return 360 * (w.cfg.get('turn', {}).get(who, 0)) * w.u.deg


def shift(w):
    if w.cfg.get('delta'):
        return w.angle('delta', -1, 1, w.cfg.get('unit', 'deg'), lo_strict=True)
    return 0 * w.u.deg


def pair(w, f):
    """f without and with the rotation and turns"""
    z = 0 * w.u.deg
    a = f(lambda who: z)
    d = shift(w)
    b = f(lambda who: d + turns(w, who))
    return a, b


def maps(w):
    u = w.u
    p, c = pt(w, 'p'), pt(w, 'c')
    if w.sym:
        dot_lemma(w, p[2], p[3], c[2], c[3])
    R, A, r = w.pos('R', 0.3, 2), w.real('A', 0, slo=0, shi=3), w.pos('r', 0.01, 1)
    w.assume(w.le(A, w.frac(399, 100) * w.pi * R * R))

    def f(rot):
        G = stub_grid(w, [p[0]], [p[1] + rot('grid')], [w.frac(1, 1)])
        if w.cfg['what'] == 'spot':
            s = spot(w, c[0], c[1] + rot('spot'), A * u.R_sun**2, 2500 * u.K, 2700 * u.K, G, ratio=3)
            return w.vals(w.pkg.SpotCollection(s, gridmaker=G).map_pixels(R * u.R_sun, 3000 * u.K), 'K')
        s = facula(w, c[0], c[1] + rot('facula'), r * u.R_sun, G)
        return [bool(w.decide(x)) for x in w.bools(s.map_pixels(R * u.R_sun))]
    a, b = pair(w, f)
    agree(w, 'map', a, b)


def disk(w):
    u, c = w.u, w.cfg
    cells = [CELLS[i] for i in c['cells']]
    T = w.pos('T', 2500, 4000)
    Ts = w.pos('Ts', 2500, 4000)
    w.assume(w.le(Ts, T))
    A = [w.pos(f'A{i}', 0.001, 0.01) for i in range(len(cells))] if c.get('areas') else [w.frac(1, 400)] * len(cells)
    kw = {}
    if c.get('planet'):
        al, r = w.pos('orbit', 0.05, 3), w.real('rp', 0, 1, lo_strict=True, slo=0.02, shi=1)
        ph = w.angle('phase', -HALF, HALF, lo_strict=True, hi_strict=True) + (180 * u.deg if c['planet'] == 'front' else 0 * u.deg)
        kw = dict(orbit_radius=al * u.R_sun, planet_radius=r * u.R_sun, phase=ph, inclination=90 * u.deg)
        if not w.sym:
            w.assume(abs(math.cos(float(w.v(ph, 'rad')))) > 1e-9)

    def f(rot):
        G = stub_grid(w, [a * u.deg for a, _ in cells], [b * u.deg + rot('grid') for _, b in cells], A)
        sp = [spot(w, cells[k][0] * u.deg, cells[k][1] * u.deg + rot('spot'), 0.1 * u.R_sun**2, Ts * u.K, Ts * u.K, G) for k in c.get('spots', ())]
        fa = [facula(w, 45 * u.deg, 0 * u.deg + rot('facula'), 0.2 * u.R_sun, G, depth=0.1 * u.R_sun)] if c.get('fac') else []
        s = star(w, G, teff=T * u.K, u1=w.frac(1, 5), u2=w.frac(1, 10))
        for x in sp:
            s.add_spot(x)
        for x in fa:
            s.add_fac(x)
        o = c['obs']
        lon = o[1] * u.deg + rot('observer')
        if c.get('prior'):
            s.add_faculae_to_map(o[0] * u.deg, 0 * u.deg)
            s.calc_coverage({'lat': o[0] * u.deg, 'lon': 0 * u.deg})
        m = w.vals(s.add_faculae_to_map(o[0] * u.deg, lon), 'K')
        total, cov, pl = s.calc_coverage({'lat': o[0] * u.deg, 'lon': lon}, w.frac(1, 5), **kw)
        return [m, [(w.label(k), w.v(x)) for k, x in total.items()], [(w.label(k), w.v(x)) for k, x in cov.items()], w.v(pl)]
    a, b = pair(w, f)
    agree(w, 'disk', a, b)


def flares(w):
    u = w.u
    P, O = pt(w, 'f'), pt(w, 'obs')

    def f(rot):
        fl = w.pkg.StellarFlare(fwhm=1 * u.hr, energy=1e33 * u.erg, lat=P[0], lon=P[1] + rot('flare'), Teff=9000 * u.K, tpeak=1 * u.hr)
        col = w.pkg.FlareCollection([fl])
        obs = {'lat': O[0], 'lon': O[1] + rot('observer')}
        return [len(col.get_visible_flares_in_timeperiod(0 * u.hr, 2 * u.hr, obs)), len(col.get_flare_integral_in_timeperiod(0 * u.hr, 0.5 * u.hr, obs))]
    a, b = pair(w, f)
    agree(w, 'flares', a, b)


def fraction(w):
    u = w.u
    pa, oa = w.cfg['lats']
    qc = w.angle('c0', 0, 1)
    if w.cfg.get('pole'):
        pla, plo, ola, olo = 90 * u.deg - qc, 0 * u.deg, 90 * u.deg, w.angle('o', 0, 2)
    else:
        # both on the equator
        pla, plo, ola, olo = 0 * u.deg, qc, 0 * u.deg, 0 * u.deg
    a = w.v(w.angle('a', 0, F(9, 10)), 'rad')
    A = 2 * w.pi * (1 - w.cos(a)) * u.R_sun**2

    def f(rot):
        s = spot(w, pla, plo + rot('spot'), A, 2500 * u.K, 2700 * u.K, stub_grid(w, [90 * u.deg], [0 * u.deg]))
        return [w.v(s.surface_fraction({'lat': ola, 'lon': olo + rot('observer')}, 1 * u.R_sun, n_points=3))]
    x, y = pair(w, f)
    agree(w, 'spot fraction', x, y)


def shape(w):
    """cosine of the angle from the disk centre, for any pair of points"""
    u = w.u
    p, c = pt(w, 'p'), pt(w, 'c')

    def f(rot):
        G = stub_grid(w, [p[0]], [p[1] + rot('grid')], [w.frac(1, 1)])
        s = star(w, G)
        return [w.vals(s.get_mu(c[0], c[1] + rot('observer')))]
    if w.sym:
        dot_lemma(w, p[2], p[3], c[2], c[3])
    a, b = pair(w, f)
    agree(w, 'projection', a, b)


def configs(tier):
    out = []

    def add(name, fn, c, who, o=None):
        for un in ('deg', 'rad')[:1 if tier == 'quick' else 2]:
            out.append((f'{name}-{un}', fn, dict(c, delta=1, unit=un), o or {}))
        for x in who:
            for t in (1, -1) if tier == 'quick' else (1, -1, 2, -2):
                out.append((f'{name}-{x}{t:+d}', fn, dict(c, turn={x: t}), o or {}))
    add('spot', 'maps', dict(what='spot'), ('grid', 'spot'), dict(t_feas=200))
    add('facula', 'maps', dict(what='facula'), ('grid', 'facula'), dict(t_feas=200))
    all4 = ('grid', 'spot', 'observer', 'facula')
    add('disk-pole', 'disk', dict(cells=(0, 1, 4), spots=(0, 1), obs=(90, 0), areas=1), all4[:3])
    add('disk-equator', 'disk', dict(cells=(0, 3, 6), spots=(0,), obs=(0, 0), areas=1), all4[:3])
    add('again', 'disk', dict(cells=(0, 3, 4), spots=(0,), obs=(0, 0), areas=1, prior=1), ())
    add('disk-fac', 'disk', dict(cells=(6, 7, 0), obs=(30, 0), fac=1), all4)
    add('eclipse', 'disk', dict(cells=(0, 1), spots=(0,), obs=(90, 0), planet='behind'), all4[:3])
    add('transit', 'disk', dict(cells=(0,), obs=(90, 0), planet='front'), ('grid', 'observer'), dict(linspace_cut=2, ite=True))
    add('transit-equator', 'disk', dict(cells=(3,), obs=(0, 0), planet='front'), ('grid', 'observer'), dict(linspace_cut=2, ite=True))
    add('transit-meridian', 'disk', dict(cells=(6,), obs=(60, 0), planet='front'), ('grid', 'observer'), dict(linspace_cut=2, ite=True))
    add('flares', 'flares', {}, ('flare', 'observer'))
    add('fraction-pole', 'fraction', dict(pole=1, lats=(0, 0)), ('spot', 'observer'))
    add('fraction-equator', 'fraction', dict(lats=(0, 0)), ('spot', 'observer'))
    add('shape', 'shape', {}, ('grid', 'observer'))
    return out
