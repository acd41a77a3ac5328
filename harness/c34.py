"""C34 a star with everything switched off"""
from harness.disk import *

BOUNDS = ('any photosphere temperature, radius, any duration (days, hours, years) for up to 2 (thorough: 3) rounds of birth, ageing and flare generation, every outcome of the random '
          'source; disks of two cells seen from any direction, disks of three cells of any area and any limb darkening that keeps the disk non-negative, and the real grids at low resolution')


def off(w, G=None, **k):
    u = w.u
    T = w.pos('T', 2500, 4000)
    R = w.pos('R', 0.1, 2)
    s = star(w, G, teff=T * u.K, radius=R * u.R_sun, rng=w.rng('r'), **k)
    return s, T


def quiet(w):
    u = w.u
    w.patch_gp()
    # another star with features and flares
    G = any_grid(w)
    o = star(w, None)
    o.add_spot(spot(w, 0 * u.deg, 0 * u.deg, 10 * w.pkg.MSH, 2500 * u.K, 2700 * u.K, G))
    o.add_fac(facula(w, 0 * u.deg, 0 * u.deg, 100 * u.km, G))
    s, T = off(w)
    w.check('no spots', len(s.spots.spots) == 0)
    w.check('no faculae', len(s.faculae.faculae) == 0)
    for i in range(w.cfg['rounds']):
        t = w.real(f't{i}', 0, slo=0, shi=100)
        q = (t * u.day).to(u.Unit(w.cfg['unit']))
        steps = [lambda: s.birth_spots(q), lambda: s.birth_faculae(q), lambda: s.age(q), lambda: s.get_flares_over_observation(q)]
        for f in (steps if i % 2 == 0 else steps[::-1]):
            f()
        w.check('no spots', len(s.spots.spots) == 0)
        w.check('no faculae', len(s.faculae.faculae) == 0)
        w.check('no flares', len(s.flares.flares) == 0)
        w.check('no flare light', len(s.get_flare_int_over_timeperiod(0 * u.hr, 1 * u.hr, {'lat': 0 * u.deg, 'lon': 0 * u.deg})) == 0)
    for lam in w.notes('poisson.lam'):
        w.check('nothing is ever expected', w.and_(*[w.eq(x, 0) for x in w.vals(lam)]))
    n = 2
    ts = w.qarr([w.real(f'g{i}', slo=0, shi=50) * u.hr for i in range(n)], 'hr')
    got = w.vals(s.get_granulation_coverage(ts.to(u.Unit(w.cfg['unit']))))
    w.check('no granulation', len(got) == n and w.and_(*[w.eq(x, 0) for x in got]))


def disk_(w):
    u, c = w.u, w.cfg
    d = build(w)
    # nothing on the star after an uneventful history
    if c.get('after'):
        t = w.real('t', 0, slo=0, shi=100) * u.day
        d.star.birth_spots(t)
        d.star.birth_faculae(t)
        d.star.age(t)
    total, cov, pl = d.star.calc_coverage(d.obs)
    x = w.frac(0, 1)
    for k, v in total.items():
        v = w.v(v)
        lab = w.label(k)
        w.observe('share', v)
        # the photosphere, printed to 0.01 K
        if w.decide(w.and_(w.is_le(lab - d.T, w.frac(1, 199)), w.is_le(d.T - lab, w.frac(1, 199)))):
            x = x + v
        else:
            w.check('no other temperature', w.eq(v, 0))
    w.check('all photosphere', w.eq(x, 1))


def configs(tier):
    out = []
    for i, un in enumerate(('day', 'hr', 'yr')):
        out.append((f'quiet-{un}', 'quiet', dict(rounds=2 if tier == 'quick' else 3, unit=un), dict(draw_max=100)))
    for free in ('areas', 'ld'):
        out.append((f'disk-{free}', 'disk_', dict(cells=(0, 1, 4), free=free, obs=(90, 0), gran=False, after=free == 'ld'), dict(draw_max=100)))
    out.append(('disk-any', 'disk_', dict(cells=(0, 4), free='none', gran=False), {}))
    for nm, g in (('rect', (4, 3)), ('spiral', 7)):
        for i, o in enumerate(((20, 40), (90, 0), (-90, 0), (0, 0))):
            out.append((f'{nm}-{i}', 'disk_', dict(grid=g, free='none', obs=o, gran=False), {}))
    return out
