"""C35 disk fraction of a single spot"""
from fractions import Fraction as F
from harness.common import *

NINE = F(9, 10)
BOUNDS = ('any spot up to an angular radius of 162 degrees at any distance from disk centre (0 to 180 degrees), seen from anywhere, spot and sub-observer point coincident or antipodal included; '
          'stars of any radius; 2 to 7 integration points (the argument n_points; the default is 1001), growth compared at 3 and 4 points')


def cap(w, a, R):
    """area of a spot of angular radius a on a sphere of radius R"""
    return 2 * w.pi * (1 - w.cos(a)) * R ** 2


def fraction(w, pa, po, A, qa, qo, R, n, old=None):
    u = w.u
    old = w.cfg.get('old') if old is None else old
    s = spot(w, pa, po, A, 2500 * u.K, 2700 * u.K, stub_grid(w, [90 * u.deg], [0 * u.deg], [w.frac(1, 1)]),
             is_growing=not old, area_max=(50 if old else 3) * A)
    if w.cfg.get('prior'):
        s.area_current = 1000 * u.km ** 2
        for k in (R, 50 * u.R_sun):
            s.surface_fraction({'lat': qa, 'lon': qo}, k, n_points=n)
        s.area_current = A
    return s.surface_fraction({'lat': qa, 'lon': qo}, R, n_points=n)


def pole(w):
    """seen from a pole: any distance from disk centre, any size"""
    u, c = w.u, w.cfg
    R = w.pos('R', 0.1, 2) * u.R_sun
    qc = w.angle('c0', 0, 1)
    qa = w.angle('a', 0, NINE)
    c0, a = w.v(qc, 'rad'), w.v(qa, 'rad')
    lon = w.angle('lon', 0, 2)
    f = fraction(w, 90 * u.deg - qc, lon, cap(w, a, R), 90 * u.deg, 0 * u.deg, R, c['n'])
    w.check('defined', not w.isnan(f))
    if w.isnan(f):
        return
    f = w.v(f)
    w.observe('fraction', f)
    w.check('not negative', w.le(0, f))
    if w.decide(w.is_le(w.pi / 2 + a, c0)):
        w.check('out of view', w.eq(f, 0))
    if c.get('grow'):
        q2 = w.angle('a2', 0, NINE)
        a2 = w.v(q2, 'rad')
        w.assume(w.le(a, a2))
        g = fraction(w, 90 * u.deg - qc, lon, cap(w, a2, R), 90 * u.deg, 0 * u.deg, R, c['n'])
        w.check('defined', not w.isnan(g))
        if not w.isnan(g):
            for j in range(c['n'] if w.sym else 0):
                x = w.pi * F(2 * j, 2 * (c['n'] - 1)) - w.pi / 2 - c0
                r1, r2 = [k * k - x * x for k in (a, a2)]
                if w.decide(w.is_lt(0, r1)):
                    w.derive(f'node {j}', dict(s=w.sqrt(r1), t=w.sqrt(r2), a=a, b=a2, x=x),
                             [lambda e: w.eq(e['s'] * e['s'], e['a'] * e['a'] - e['x'] * e['x']), lambda e: w.eq(e['t'] * e['t'], e['b'] * e['b'] - e['x'] * e['x']),
                              lambda e: w.le(0, e['t']), lambda e: w.le(0, e['a']), lambda e: w.le(e['a'], e['b'])],
                             le=lambda e: (e['s'], e['t']))
            w.check('grows with the spot', w.le(f, w.v(g)))


def anywhere(w):
    """only the distance from disk centre and the angular radius matter, and coincident points are fine"""
    u, c = w.u, w.cfg
    R = w.pos('R', 0.1, 2)
    a = w.v(w.angle('a', 0, NINE), 'rad')
    qa, qo, la0, lo0 = pt(w, 'obs')
    if c.get('same'):
        pa, po, la, lo = qa, qo, la0, lo0
    elif c.get('anti'):
        pa, po = -qa, qo + 180 * u.deg
        la, lo = -la0, lo0 + w.pi
    else:
        pa, po, la, lo = pt(w, 'p')
    if w.sym:
        dot_lemma(w, la0, lo0, la, lo)
    A = cap(w, a, R * u.R_sun)
    un = u.Unit(c.get('unit', 'deg'))
    f = fraction(w, pa.to(un), po, A.to(u.Unit('km2')), qa, qo.to(un), (R * u.R_sun).to(u.km), c['n'], old=True)
    w.check('defined', not w.isnan(f))
    if w.isnan(f):
        return
    f = w.v(f)
    w.observe('fraction', f)
    w.check('not negative', w.le(0, f))
    c0 = w.acos(dot(w, la0, lo0, la, lo))
    g = fraction(w, 90 * u.deg - w.rad(c0), 50 * u.deg, cap(w, a, 1 * u.R_sun), 90 * u.deg, 70 * u.deg, 1 * u.R_sun, c['n'])
    w.check('only the distance matters', not w.isnan(g) and w.eq(f, w.v(g)))


def configs(tier):
    out = []
    for n in (2, 3, 5, 7) + ((4,) if tier == 'thorough' else ()):
        out.append((f'pole-{n}', 'pole', dict(n=n), {}))
    out.append(('old', 'pole', dict(n=3, old=1), {}))
    out.append(('again', 'pole', dict(n=3, prior=1), {}))
    for n in (3, 4):
        out.append((f'grow-{n}', 'pole', dict(n=n, grow=True), {}))
    for k in (dict(), dict(same=True), dict(anti=True, unit='rad')):
        out.append((f'anywhere{"".join(k)}', 'anywhere', dict(n=3, **k), dict(t_feas=200)))
    return out
