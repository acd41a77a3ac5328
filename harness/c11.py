"""C11 removal of dead features"""
from harness.common import *

BOUNDS = ('collections and stars with 2 (thorough: 3) features, each growing or decaying (spots: any areas and rates; faculae: any radii and '
          'lifetimes), one ageing step of any length >= 0, then one feature added; also a second step of any length after a second feature was added')


def mkspots(w, n, G):
    u, MSH = w.u, w.pkg.MSH
    out = []
    for i in range(n):
        grow = not w.cfg.get('old') and w.choice(f'grow{i}', 2) == 1
        amax = w.pos(f'amax{i}', 20, 300)
        a0 = w.pos(f'a0{i}', 1, 300) if grow else w.real(f'b0{i}', 0, slo=0, shi=300)
        w.assume(w.le(a0, amax))
        if w.cfg.get('free'):
            g = w.real(f'g{i}', 0, slo=0, shi=2)
        else:
            g = w.frac(1, 2)
        d = w.real(f'd{i}', 0, slo=0, shi=60)
        mk = lambda amax=amax, a0=a0, g=g, d=d, grow=grow: spot(
            w, 10 * u.deg, 20 * u.deg, a0 * MSH, 2500 * u.K, 2700 * u.K, G, area_max=amax * MSH,
            growth_rate=g / u.day, decay_rate=d * MSH / u.day, is_growing=grow)
        out.append((mk(), mk()))
    return out


def mkfacs(w, n, G):
    u = w.u
    out = []
    for i in range(n):
        grow = not w.cfg.get('old') and w.choice(f'fgrow{i}', 2) == 1
        rmax = w.pos(f'rmax{i}', 50, 500)
        r0 = w.pos(f'r0{i}', 1, 500)
        w.assume(w.le(r0, rmax))
        life = w.pos(f'life{i}', 1, 30)
        mk = lambda rmax=rmax, r0=r0, life=life, grow=grow: facula(
            w, 10 * u.deg, 20 * u.deg, r0 * u.km, G, r_max=rmax * u.km, lifetime=life * u.hr, growing=grow)
        out.append((mk(), mk()))
    return out


def judge(w, what, pairs, left, t):
    """left: the features after ageing; pairs: (aged inside, twin aged alone)"""
    u, MSH = w.u, w.pkg.MSH
    keep = []
    for a, b in pairs:
        b.age(t)
        if what == 'spot':
            x, y = w.v(a.area_current, MSH), w.v(b.area_current, MSH)
            dead = (not b.is_growing) and w.decide(w.is_le(y, 0, exact=True))
        else:
            x, y = w.v(a.radius, 'km'), w.v(b.radius, 'km')
            dead = (not b.is_growing) and w.decide(w.is_le(y, w.v(b.r_max, 'km') / w.exp(w.frac(2, 1)), exact=True))
        w.observe(what, x)
        w.check(what + ' aged exactly once', w.and_(w.eq(x, y), bool(a.is_growing) == bool(b.is_growing)))
        if not dead:
            keep.append(a)
    left = list(left)
    w.check(what + ' survivors', len(left) == len(keep) and all(p is q for p, q in zip(left, keep)))
    return keep


def collection(w):
    u = w.u
    G = any_grid(w)
    t = w.real('t', 0, slo=0, shi=20) * u.day
    n = w.cfg['n']
    what = w.cfg['what']
    pairs = mkspots(w, n, G) if what == 'spot' else mkfacs(w, n, G)
    feats = [a for a, _ in pairs]
    col = (w.pkg.SpotCollection if what == 'spot' else w.pkg.FaculaCollection)(*feats, gridmaker=G)
    col.age(t)
    keep = judge(w, what, pairs, col.spots if what == 'spot' else col.faculae, t)
    new = mkone(w, what, G)
    (col.add_spot if what == 'spot' else col.add_faculae)(new)
    left = list(col.spots if what == 'spot' else col.faculae)
    w.check(what + ' can be added afterwards', len(left) == len(keep) + 1 and left[-1] is new and all(p is q for p, q in zip(left, keep)))


def twice(w):
    """age, add, age again: the newcomer is aged by the second step only"""
    u = w.u
    G = any_grid(w)
    t1 = w.real('t1', 0, slo=0, shi=20) * u.day
    t2 = w.real('t2', 0, slo=0, shi=20) * u.day
    what = w.cfg['what']
    pairs = (mkspots if what == 'spot' else mkfacs)(w, 2, G)
    first, late = pairs
    s = star(w, None, [first[0]] if what == 'spot' else [], [first[0]] if what != 'spot' else [])
    s.age(t1)
    col = lambda: s.spots.spots if what == 'spot' else s.faculae.faculae
    keep = judge(w, what, [first], col(), t1)
    (s.add_spot if what == 'spot' else s.add_fac)(late[0])
    s.age(t2)
    judge(w, what, [first, late] if keep else [late], col(), t2)


def mkone(w, what, G):
    u = w.u
    if what == 'spot':
        return spot(w, 0 * u.deg, 0 * u.deg, 10 * w.pkg.MSH, 2500 * u.K, 2700 * u.K, G)
    return facula(w, 0 * u.deg, 0 * u.deg, 100 * u.km, G)


def whole(w):
    u = w.u
    G = any_grid(w)
    t = w.real('t', 0, slo=0, shi=20) * u.day
    sp, fa = mkspots(w, w.cfg['ns'], G), mkfacs(w, w.cfg['nf'], G)
    s = star(w, None, [a for a, _ in sp], [a for a, _ in fa])
    s.age(t)
    k1 = judge(w, 'spot', sp, s.spots.spots, t)
    k2 = judge(w, 'facula', fa, s.faculae.faculae, t)
    a, b = mkone(w, 'spot', G), mkone(w, 'facula', G)
    s.add_spot(a)
    s.add_fac(b)
    w.check('star takes new features', len(s.spots.spots) == len(k1) + 1 and len(s.faculae.faculae) == len(k2) + 1
            and s.spots.spots[-1] is a and s.faculae.faculae[-1] is b)


def configs(tier):
    out = [('spots-1', 'collection', dict(what='spot', n=1, free=1), {}), ('spots-2', 'collection', dict(what='spot', n=2), {}),
           ('faculae-2', 'collection', dict(what='facula', n=2), {}), ('star', 'whole', dict(ns=1, nf=1), {}),
           ('star-20', 'whole', dict(ns=2, nf=0), {}), ('star-02', 'whole', dict(ns=0, nf=2), {}),
           ('twice-spot', 'twice', dict(what='spot'), {}), ('twice-facula', 'twice', dict(what='facula'), {})]
    out += [('star-21-old', 'whole', dict(ns=2, nf=1, old=1), {}), ('star-12-old', 'whole', dict(ns=1, nf=2, old=1), {})]
    if tier == 'thorough':
        out += [('star-21', 'whole', dict(ns=2, nf=1), {}), ('star-12', 'whole', dict(ns=1, nf=2), {})]
        out += [('spots-2-free', 'collection', dict(what='spot', n=2, free=1), {}), ('spots-3', 'collection', dict(what='spot', n=3), {}),
                ('faculae-3', 'collection', dict(what='facula', n=3), {}),
                ('star-22', 'whole', dict(ns=2, nf=2), {})]
    return out
