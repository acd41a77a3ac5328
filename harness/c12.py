"""C12 wall / floor split"""
from harness.common import *

BOUNDS = ('all viewing angles in [0, 90) deg, radii, depths >= 0, threshold radii >= 0, temperature slopes and offsets real-valued; two unit sets. '
          'The overlap of two unit disks at centre distance d is the closed form (2 acos(d/2) - (d/2) sqrt(4-d^2))/pi')


def lens(w, d):
    """overlap share of two unit disks d apart (0 <= d <= 2)"""
    return (2 * w.acos(d / 2) - d / 2 * w.sqrt(4 - d * d)) / w.pi


def setup(w):
    u, c = w.u, w.cfg
    th = w.angle('angle', 0, HALF, c['ang'], hi_strict=True, shi=0.49)
    r = w.pos('r', 20, 2000)
    dep = w.real('depth', 0, slo=0, shi=500)
    if c.get('prior'):
        z = w.frac(0, 1)
        mn, ws, wi, fs, fb = z, z, w.frac(100, 1), z, w.frac(-100, 1)
    else:
        mn = w.real('minrad', 0, slo=0, shi=500)
        ws, wi = w.real('ws', slo=-1, shi=1), w.real('wi', slo=-200, shi=500)
        fs, fb = w.real('fs', slo=-1, shi=1), w.real('fb', slo=-500, shi=200)
    f = facula(w, 0 * u.deg, 0 * u.deg, (r * u.km).to(c['r']), any_grid(w), depth=(dep * u.km).to(c['r']), wall=wi * u.K, floor=fb * u.K,
               min_rad=(mn * u.km).to(c['r']), wall_slope=(ws * u.K / u.km), floor_slope=fs * u.K / u.km, growing=bool(w.choice('growing', 2)))
    wall = w.rint(ws * r + wi)
    floor = w.rint((r - mn) * fs + fb)
    if c.get('prior'):
        # asked at another angle, and when it had another radius
        keep = f.radius
        for q in (50 * u.km, keep, 70 * u.km):
            f.radius = q
            w.raises(lambda: f.effective_area(20 * u.deg), ValueError)
            w.raises(lambda: f.fractional_effective_area(20 * u.deg), ValueError)
        f.radius = keep
    return th, r, dep, mn, f, wall, floor


def split(w):
    u = w.u
    th, r, dep, mn, f, wall, floor = setup(w)
    t = w.v(th, 'rad')
    ct, st = w.cos(t), w.sin(t)
    exc = w.raises(lambda: f.effective_area(th), ValueError)
    if w.decide(w.is_eq(wall, floor)):
        w.check('equal temperatures are refused', exc == 'ValueError')
        return
    w.check('different temperatures are accepted', exc is None)
    if exc is not None:
        return
    area = w.last
    items = list(area.items())
    w.check('two entries', len(items) == 2)
    (k1, a1), (k2, a2) = items
    w.check('wall and floor temperatures', w.and_(w.eq(w.v(k1, 'K'), wall), w.eq(w.v(k2, 'K'), floor)))
    aw, af = w.v(a1, 'km2'), w.v(a2, 'km2')
    w.observe('aw', aw)
    w.observe('af', af)
    tot = w.pi * r * r * ct
    w.check('areas add up', w.eq(aw + af, tot))
    if w.decide(w.is_lt(r, mn)):
        w.check('small facula is all wall', w.and_(w.eq(aw, tot), w.eq(af, 0)))
        return
    d = dep * st / (r * ct)
    if w.decide(w.is_le(d, 0)):
        w.check('flat or face-on facula is all floor', w.eq(af, tot))
    elif w.decide(w.is_lt(2, d)):
        w.check('deep facula is all wall', w.eq(aw, tot))
    else:
        w.check('floor share is the overlap of the disks', w.eq(af, tot * lens(w, d)))


def shares(w):
    u = w.u
    th, r, dep, mn, f, wall, floor = setup(w)
    w.assume(w.not_(w.is_eq(wall, floor)))
    fr = f.fractional_effective_area(th)
    items = list(fr.items())
    w.check('two entries', len(items) == 2)
    (k1, a1), (k2, a2) = items
    w.check('wall and floor temperatures', w.and_(w.eq(w.v(k1, 'K'), wall), w.eq(w.v(k2, 'K'), floor)))
    x, y = w.v(a1), w.v(a2)
    w.observe('x', x)
    w.check('shares add to one', w.eq(x + y, 1))
    area = f.effective_area(th)
    t = w.v(th, 'rad')
    for (k, a), z in zip(area.items(), (x, y)):
        w.check('share of the projected area', w.eq(z * w.pi * r * r * w.cos(t), w.v(a, 'km2')))
    if w.cfg.get('bounds'):
        w.check('shares in [0,1]', w.and_(w.le(0, x), w.le(x, 1), w.le(0, y), w.le(y, 1)))


def configs(tier):
    out = []
    for i, c in enumerate([dict(ang='deg', r='km'), dict(ang='rad', r='R_sun')]):
        out.append((f'split-u{i}', 'split', c, {}))
        out.append((f'shares-u{i}', 'shares', dict(c, bounds=1), dict(acos_lens=True)))
    for fn in ('split', 'shares'):
        out.append((f'again-{fn}', fn, dict(ang='deg', r='km', prior=1), dict(acos_lens=True)))
    return out
