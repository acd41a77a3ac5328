"""C04 visible fraction of the planet"""
from harness.disk import *

BOUNDS = ('two disks: any planet radius in (0,1] of the star and any offset in the plane; stars of any radius with a planet on any orbit (any radius ratio), any phase within three turns, any '
          'inclination, lengths in km, AU, solar, Earth and Jupiter radii, angles in degrees and radians; the near-side case uses a one-cell grid (2 quadrature nodes instead of 100, irrelevant to the value checked)')


def lens(w, d, r):
    """share of a disk of radius r <= 1 at distance d that lies on the unit disk, where their rims cross"""
    g1 = (d * d - r * r + 1) / (2 * d)
    g2 = (d * d + r * r - 1) / (2 * d * r)
    if w.sym:
        k1, k2 = 1 - g1 * g1, 1 - g2 * g2
    else:
        g1, g2 = max(-1, min(1, g1)), max(-1, min(1, g2))
        k1, k2 = 1 - g1 * g1, 1 - g2 * g2
    s1 = w.acos(g1) - g1 * w.sqrt(k1)
    s2 = w.acos(g2) - g2 * w.sqrt(k2)
    return s1, s2, k1, k2, (s1 + r * r * s2) / (w.pi * r * r)


def circ(w):
    c = w.cfg
    r = w.real('r', 0, 1, lo_strict=True)
    if c['line']:
        x, y = w.real('d', 0, slo=0, shi=3), 0
        d = x
    else:
        x, y = w.real('x', slo=-2, shi=2), w.real('y', slo=-2, shi=2)
        d = w.sqrt(x * x + y * y)
    out = w.m.helpers.calc_circ_fraction_inside_unit_circle(x, y, r)
    w.check('defined', not w.isnan(out))
    f = w.v(out)
    w.observe('fraction', f)
    if w.decide(w.is_le(1 + r, d)):
        w.check('outside', w.eq(f, 0))
    elif w.decide(w.is_le(d, 1 - r)):
        w.check('inside', w.eq(f, 1))
    else:
        s1, s2, k1, k2, o = lens(w, d, r)
        w.check('lens', w.eq(f, o))
        w.check('range', w.and_(w.le(0, f), w.le(f, 1)))


def planet(w):
    """the star as a whole: any orbit, phase and inclination"""
    u, c = w.u, w.cfg
    R = w.pos('R', 0.1, 2)
    al = w.pos('orbit', 0.3, 4)
    r = w.real('rp', 0, 1, lo_strict=True)
    G = stub_grid(w, [30 * u.deg], [0 * u.deg], [w.frac(1, 1)])
    s = star(w, G, radius=(R * u.R_sun).to(u.Unit(c['units'][0])), teff=3300 * u.K)
    ph = w.angle('phase', c['turn'] * 2, c['turn'] * 2 + 2, c['units'][3])
    inc = w.angle('inc', 0, 1, c['units'][3])
    f, i = w.v(ph, 'rad'), w.v(inc, 'rad')
    kw = dict(orbit_radius=(al * R * u.R_sun).to(u.Unit(c['units'][1])), planet_radius=(r * R * u.R_sun).to(u.Unit(c['units'][2])), phase=ph, inclination=inc)
    x, y = al * w.sin(f), al * w.cos(f) * w.cos(i)
    d2 = x * x + y * y
    if w.sym:
        w.nonneg('d2', d2, [('sq', x)], [('sq', y)])
    d = w.sqrt(d2)
    if not w.sym:
        w.assume(abs(w.cos(f)) > 1e-9)
    w.assume(w.not_(w.is_eq(w.cos(f), 0, exact=True)))
    near = w.decide(w.is_lt(w.cos(f), 0))
    if near != c['near']:
        w.assume(w.is_lt(0, 0) if w.sym else False)
    if c.get('prior'):
        for p in (180, 0):
            s.get_transit_mask(90 * u.deg, 0 * u.deg, w.frac(3, 4) * R * u.R_sun, w.frac(1, 2) * R * u.R_sun, p * u.deg, 60 * u.deg)
    if near:
        out = s.get_transit_mask(90 * u.deg, 0 * u.deg, kw['orbit_radius'], kw['planet_radius'], ph, inc)[1]
        w.check('near side', not w.isnan(out) and w.eq(w.v(out), 1))
        return
    out = s.calc_coverage({'lat': 90 * u.deg, 'lon': 0 * u.deg}, **kw)[2]
    w.check('defined', not w.isnan(out))
    v = w.v(out)
    w.observe('visible', v)
    if w.decide(w.is_lt(1 + r, d)):
        w.check('clear of the star', w.eq(v, 1))
    elif w.decide(w.is_le(d, 1 - r)):
        w.check('behind the star', w.eq(v, 0))
    else:
        s1, s2, k1, k2, o = lens(w, d, r)
        w.check('partly behind', w.eq(v, 1 - o))


def configs(tier):
    out = []
    U = [('R_sun', 'R_sun', 'R_sun', 'deg'), ('km', 'AU', 'R_earth', 'rad'), ('R_sun', 'km', 'R_jup', 'deg')]
    for n in (False, True):
        for k, t in ((0, 0), (1, 0), (2, -1), (1, 1)):
            out.append((f'planet-{"near" if n else "far"}-{k}{t}', 'planet', dict(units=U[k], turn=t, near=n), dict(acos_lens=True, linspace_cut=2, ite=True)))
    for n in (False, True):
        out.append((f'again-{"near" if n else "far"}', 'planet', dict(units=U[0], turn=0, near=n, prior=1), dict(acos_lens=True, linspace_cut=2, ite=True)))
    out.append(('line', 'circ', dict(line=True), dict(acos_lens=True)))
    out.append(('plane', 'circ', dict(line=False), dict(acos_lens=True)))
    return out
