"""C06 angular distances"""
from harness.common import *

BOUNDS = 'two arbitrary points (latitudes in [-90,90] deg, longitudes in [0,360) deg plus whole turns -1..1), all real values; degrees and radians'


def angle(w):
    un = w.cfg['unit']
    a_lat, a_lon, la1, lo1 = pt(w, 'a', un)
    b_lat, b_lon, la2, lo2 = pt(w, 'b', un)
    f = w.pkg.helpers.get_angle_between
    d = dot_lemma(w, la1, lo1, la2, lo2)
    if w.cfg.get('prior'):
        f(a_lat, a_lon, 90 * w.u.deg, 0 * w.u.deg)
        f(90 * w.u.deg, 0 * w.u.deg, b_lat, b_lon)
    x = w.v(f(a_lat, a_lon, b_lat, b_lon), 'rad')
    w.observe('angle', x)
    w.check('defined', w.isfinite(x))
    w.check('range', w.and_(w.le(0, x), w.le(x, w.pi)))
    w.check('cosine is the dot product', w.eq(w.cos(x), d))
    y = w.v(f(b_lat, b_lon, a_lat, a_lon), 'rad')
    w.check('symmetric', w.eq(x, y, tol=1e-6))
    k = w.choice('turns', 3) - 1
    z = w.v(f(a_lat, a_lon + k * 360 * w.u.deg, b_lat, b_lon), 'rad')
    w.check('whole turns', w.eq(x, z, tol=1e-6))


def grid(w):
    un = w.cfg['unit']
    a_lat, a_lon, la1, lo1 = pt(w, 'a', un)
    b_lat, b_lon, la2, lo2 = pt(w, 'b', un)
    G = stub_grid(w, [b_lat], [b_lon], unit=un)
    d = dot_lemma(w, la1, lo1, la2, lo2)
    if w.cfg.get('prior'):
        for a, b in ((a_lat, 100 * w.u.deg), (10 * w.u.deg, a_lon), (10 * w.u.deg, 100 * w.u.deg)):
            G.cos_angle_from_disk_center(a, b)
    mu = w.vals(G.cos_angle_from_disk_center(a_lat, a_lon))
    w.observe('mu', mu[0])
    w.check('one value per cell', len(mu) == 1)
    w.check('viewing cosine', w.eq(mu[0], d))
    if w.cfg['what'] == 'spot':
        s = spot(w, a_lat, a_lon, 100 * w.pkg.MSH, 2500 * w.u.K, 2700 * w.u.K, G)
        r = w.vals(s.r, 'rad')[0]
    else:
        s = facula(w, a_lat, a_lon, 500 * w.u.km, G)
        r = w.vals(s._r, 'rad')[0] if hasattr(s, '_r') else w.acos(d)
    w.check('distance cosine', w.or_(w.isnan(r) and not w.sym, w.eq(w.cos(r), d, tol=1e-6)))
    w.check('distance range', w.or_(w.isnan(r) and not w.sym, w.and_(w.le(0, r), w.le(r, w.pi))))


def configs(tier):
    out = []
    for un in ('deg', 'rad'):
        out.append((f'angle-{un}', 'angle', dict(unit=un, obs_tol=1e-5), {}))
        for what in ('spot', 'facula'):
            out.append((f'grid-{what}-{un}', 'grid', dict(unit=un, what=what), {}))
    out.append(('again-angle', 'angle', dict(unit='deg', obs_tol=1e-5, prior=1), {}))
    out.append(('again-grid', 'grid', dict(unit='deg', what='spot', prior=1), {}))
    return out
