"""C07 footprints"""
from harness.common import *

BOUNDS = ('one feature and one cell anywhere on the sphere; all spot areas in (0, 4 pi R^2), area ratios > 0, facula radii and stellar '
          'radii real-valued; angles in degrees or radians, areas in msh or km2')


def life(w, area):
    """the footprint follows the current size, whatever the maximal size and whether the feature grows or decays"""
    up = w.choice('growing', 2)
    if w.choice('full', 2):
        return dict(area_max=area, is_growing=bool(up))
    return dict(area_max=3 * area, is_growing=bool(up))


def spotfoot(w):
    u, c = w.u, w.cfg
    un = c['ang']
    a_lat, a_lon, la1, lo1 = pt(w, 'a', un)
    b_lat, b_lon, la2, lo2 = pt(w, 'b', un)
    d = dot_lemma(w, la1, lo1, la2, lo2)
    G = stub_grid(w, [b_lat], [b_lon], unit=un)
    frac = w.real('frac', 0, 1, lo_strict=True, hi_strict=True)          # area / (4 pi R^2)
    R = w.pos('R', 0.1, 3)
    ratio = w.real('ratio', 1, slo=1, shi=9)
    area = (frac * 4 * w.pi * (R * u.R_sun) ** 2).to(c['area'])
    s = spot(w, a_lat, a_lon, area, 2500 * u.K, 2700 * u.K, G, ratio=ratio, **life(w, area))
    if c.get('prior'):
        # it had another size, and stars of other sizes were asked about
        s.area_current = 100 * w.pkg.MSH
        for k in (50, R):
            s.map_pixels((k * u.R_sun).to(c['rad']))
            s.angular_radius((k * u.R_sun).to(c['rad']))
        s.area_current = area
        s.map_pixels(50 * u.R_sun)
    m = s.map_pixels((R * u.R_sun).to(c['rad']))
    um, pen = w.bools(m[2500 * u.K]), w.bools(m[2700 * u.K])
    w.check('shape', len(um) == 1 and len(pen) == 1)
    um, pen = um[0], pen[0]
    w.observe('pen', pen)
    cosr = 1 - 2 * frac
    w.check('spot covers the cap of its area', w.iff(pen, w.is_lt(cosr, d)))
    x = w.acos(d)
    rad = w.acos(cosr)
    w.check('umbra is the concentric cap', w.iff(um, w.is_lt(x * w.sqrt(ratio), rad)))
    w.check('umbra inside the spot', w.imp(um, pen))
    w.check('angular radius', w.eq(w.v(s.angular_radius((R * u.R_sun).to(c['rad'])), 'rad'), rad, tol=1e-6))


def facfoot(w):
    u, c = w.u, w.cfg
    un = c['ang']
    a_lat, a_lon, la1, lo1 = pt(w, 'a', un)
    b_lat, b_lon, la2, lo2 = pt(w, 'b', un)
    d = dot_lemma(w, la1, lo1, la2, lo2)
    G = stub_grid(w, [b_lat], [b_lon], unit=un)
    R = w.pos('R', 0.1, 3)
    rho = w.real('rho', 0, slo=0, shi=2)
    f = facula(w, a_lat, a_lon, (rho * R * u.R_sun).to(c['rad']), G,
               r_max=((1 + w.choice('full', 2)) * rho * R * u.R_sun).to(c['rad']), growing=bool(w.choice('growing', 2)))
    if c.get('prior'):
        keep, f.radius = f.radius, 100 * u.km
        for k in (50, R):
            f.map_pixels(k * u.R_sun)
        f.radius = keep
        f.map_pixels(50 * u.R_sun)
    m = w.bools(f.map_pixels(R * u.R_sun))
    w.check('shape', len(m) == 1)
    w.observe('in', m[0])
    w.check('facula covers radius/R radians', w.iff(m[0], w.is_le(w.acos(d), rho)))


def configs(tier):
    out = []
    for i, c in enumerate([dict(ang='deg', area='msh', rad='R_sun'), dict(ang='rad', area='km2', rad='km')]):
        out.append((f'spot-u{i}', 'spotfoot', c, {}))
        out.append((f'facula-u{i}', 'facfoot', c, {}))
    for fn in ('spotfoot', 'facfoot'):
        out.append((f'again-{fn}', fn, dict(ang='deg', area='msh', rad='R_sun', prior=1), {}))
    return out
