"""C13 faculae on the map"""
from harness.common import *

BOUNDS = ('five cells on the equator (one pair with equal viewing angle), observer at longitude 0; up to 2 faculae at the listed longitudes, '
          'every radius (so every footprint), depth, threshold radius, photosphere temperature and wall / floor excess real-valued; '
          'clipping for all temperatures on one cell')

LONS = (-10, 0, 10, 30, 100)


def fac(w, i, lon, R):
    u = w.u
    rho = w.real(f'rho{i}', 0, F(6, 5), lo_strict=True, slo=0.05, shi=1.2)
    dep = w.real(f'depth{i}', 0, slo=0, shi=1)           # in units of the facula radius
    small = w.choice(f'small{i}', 2) if w.cfg.get('small', 1) else 0
    wi = w.real(f'wall{i}', -300, 300)
    fb = w.real(f'floor{i}', -300, 300)
    wr, fr = w.rint(wi), w.rint(fb)
    w.assume(w.not_(w.is_eq(wr, fr)))
    r = rho * R
    f = facula(w, 0 * u.deg, lon * u.deg, r * u.km, any_grid(w), depth=dep * r * u.km, wall=wi * u.K, floor=fb * u.K,
               min_rad=(2 * r if small else 0 * r) * u.km)
    return f, rho, dep, small, wr, fr


def absfac(w, i, lon, R):
    """a facula with an arbitrary wall share (what the shares are is decided by C12)"""
    u = w.u
    rho = w.real(f'rho{i}', 0, F(6, 5), lo_strict=True, slo=0.05, shi=1.2)
    x = w.real(f'share{i}', 0, 1)
    wi = w.real(f'wall{i}', -300, 300)
    fb = w.real(f'floor{i}', -300, 300)
    wr, fr = w.rint(wi), w.rint(fb)
    w.assume(w.not_(w.is_eq(wr, fr)))

    class Shared(w.pkg.Facula):
        def fractional_effective_area(self, angle):
            return {w.q(wr, 'K'): w.q(x), w.q(fr, 'K'): w.q(1 - x)}

        def effective_area(self, angle):
            return {w.q(wr, 'K'): w.q(x, 'km2'), w.q(fr, 'K'): w.q(1 - x, 'km2')}
    f = facula(w, 0 * u.deg, lon * u.deg, rho * R * u.km, any_grid(w), wall=wi * u.K, floor=fb * u.K, cls=Shared, growing=not w.cfg.get('old'))
    return f, rho, x, 0, wr, fr


def inside(w, lon, rho):
    """which cells does a facula of angular radius rho (radians) at longitude lon cover"""
    return [w.decide(w.is_le(w.frac(abs(c - lon), 180) * w.pi, rho)) for c in LONS]


def painted(w):
    u = w.u
    T = w.real('T', 2601, 3599, cls='T')
    R = w.pos('R', 1e5, 1e6)
    G = stub_grid(w, [0 * u.deg] * len(LONS), [x * u.deg for x in LONS])
    mk = absfac if w.cfg.get('shared') else fac
    data = [mk(w, i, lon, R) for i, lon in enumerate(w.cfg['lons'])]
    s = star(w, G, faculae=[d[0] for d in data], teff=T * u.K, radius=R * u.km)
    if w.cfg.get('prior'):
        # seen before from elsewhere, when its faculae were larger
        for f in s.faculae.faculae:
            keep, f.radius = f.radius, 1.5 * R * u.km
            for lon in (60, 180, 0):
                s.add_faculae_to_map(0 * u.deg, lon * u.deg)
            f.radius = keep
        for lon in (60, 180):
            s.add_faculae_to_map(0 * u.deg, lon * u.deg)
    m = w.vals(s.add_faculae_to_map(0 * u.deg, 0 * u.deg), 'K')
    w.observe('map', m)
    ins = [inside(w, lon, d[1]) for lon, d in zip(w.cfg['lons'], data)]
    w.check('one value per cell', len(m) == len(LONS))
    last = [max([k for k in range(len(data)) if ins[k][j]], default=None) for j in range(len(LONS))]
    for j in range(len(LONS)):
        if last[j] is None:
            w.check('cells outside every facula keep their temperature', w.eq(m[j], T))
        else:
            _, _, _, _, wr, fr = data[last[j]]
            w.check('cells inside carry wall or floor of the last facula',
                    w.or_(w.eq(m[j], T + wr), w.eq(m[j], T + fr)))
    mu = [w.cos(w.frac(x, 180) * w.pi) for x in LONS]
    for k, (_, rho, dep, small, wr, fr) in enumerate(data):
        mine = [j for j in range(len(LONS)) if last[j] == k]
        for a in mine:
            for b in mine:
                if a != b and w.decide(w.is_lt(mu[b], mu[a])):
                    w.check('wall lies towards the limb',
                            w.not_(w.and_(w.eq(m[a], T + wr), w.eq(m[b], T + fr))))
        lon = w.cfg['lons'][k]
        if w.cfg.get('shared'):
            wall = w.decide(w.is_eq(dep, 1))
        else:
            wall = small
        if wall:
            w.check('no floor share: all wall', w.and_(*[w.eq(m[j], T + wr) for j in mine]))


def clipped(w):
    """temperatures outside the model bounds are held at the bounds"""
    u = w.u
    T = w.real('T', 2000, 4500, cls='T')
    wi = w.real('wall', -1000, 1000)
    fb = w.real('floor', -1000, 1000)
    wr, fr = w.rint(wi), w.rint(fb)
    w.assume(w.not_(w.is_eq(wr, fr)))
    G = stub_grid(w, [0 * u.deg] * 2, [20 * u.deg, 21 * u.deg])
    small = w.cfg['small']
    f = facula(w, 0 * u.deg, 20 * u.deg, 35000 * u.km, G, depth=0 * u.km, wall=wi * u.K, floor=fb * u.K, min_rad=(70000 if small else 0) * u.km)
    s = star(w, G, faculae=[f], teff=T * u.K, radius=1000000 * u.km)
    m = w.vals(s.add_faculae_to_map(0 * u.deg, 0 * u.deg), 'K')

    def held(t):
        if w.decide(w.is_lt(3900, t)):
            return 3900
        if w.decide(w.is_lt(t, 2300)):
            return 2300
        return t
    W, Fl = held(T + wr), held(T + fr)
    w.observe('map', m)
    w.check('wall cell', w.eq(m[1], W))
    w.check('other cell', w.eq(m[0], W if small else Fl))


def withspot(w):
    """faculae are painted over the spot map"""
    u = w.u
    T = w.real('T', 2601, 3599, cls='T')
    tu, tp = w.real('tu', 2300, 3900), w.real('tp', 2300, 3900)
    w.assume(w.le(tu, tp))
    R = 1000000
    G = stub_grid(w, [0 * u.deg] * 3, [0 * u.deg, 15 * u.deg, 40 * u.deg])
    import math
    area = 2 * math.pi * (1 - math.cos(math.radians(25))) * (R * u.km) ** 2     # umbra radius 25/sqrt(5) = 11.2 deg
    sp = spot(w, 0 * u.deg, 0 * u.deg, area, tu * u.K, tp * u.K, G)
    rho = w.real('rho', 0, F(6, 5), lo_strict=True, slo=0.05, shi=1.2)
    wi = w.real('wall', -300, 300)
    kind = w.cfg.get('kind', 'wall')
    if kind == 'wall':
        f = facula(w, 0 * u.deg, 40 * u.deg, rho * R * u.km, G, wall=wi * u.K, floor=-400 * u.K, min_rad=5 * R * u.km)
    else:
        w.assume(w.not_(w.is_eq(w.rint(wi), -290)))

        class Floor(w.pkg.Facula):
            def fractional_effective_area(self, angle):
                return {w.q(w.rint(wi), 'K'): w.q(w.frac(0, 1)), -290 * u.K: w.q(w.frac(1, 1))}

            def effective_area(self, angle):
                return {w.q(w.rint(wi), 'K'): w.q(w.frac(0, 1), 'km2'), -290 * u.K: w.q(w.frac(1, 1), 'km2')}
        f = facula(w, 0 * u.deg, 40 * u.deg, rho * R * u.km, G, wall=wi * u.K, floor=-290 * u.K, cls=Floor)
    s = star(w, G, spots=[sp], faculae=[f], teff=T * u.K, radius=R * u.km)
    m = w.vals(s.add_faculae_to_map(0 * u.deg, 0 * u.deg), 'K')
    w.observe('map', m)
    base = [tu, tp, None]
    for j, x in enumerate((0, 15, 40)):
        if w.decide(w.is_le(w.frac(40 - x, 180) * w.pi, rho)):
            if kind == 'wall':
                w.check('facula over spot', w.eq(m[j], T + w.rint(wi)))
            else:
                w.check('facula over spot', w.or_(w.eq(m[j], T + w.rint(wi)), w.eq(m[j], T - 290)))
        elif base[j] is None or w.decide(w.is_le(T, base[j])):
            if base[j] is None or w.decide(w.is_le(T, tu)):
                w.check('photosphere', w.eq(m[j], T))
        else:
            w.check('spot shows outside the facula', w.eq(m[j], base[j]))


def configs(tier):
    out = []
    for lon in (0, 100):
        out.append((f'one-{lon}', 'painted', dict(lons=(lon,)), dict(acos_lens=True)))
    for lon in (0, 20, 60, 100):
        out.append((f'share-{lon}', 'painted', dict(lons=(lon,), shared=1), {}))
    out.append(('share-old', 'painted', dict(lons=(20,), shared=1, old=1), {}))
    for i, p in enumerate([(20, 0), (20, 60)] if tier == 'quick' else [(20, 0), (20, 60), (60, 20), (0, 100), (20, 20)]):
        out.append((f'two-{i}', 'painted', dict(lons=p, shared=1), {}))
    out.append(('again', 'painted', dict(lons=(20,), shared=1, prior=1), {}))
    for sm in (0, 1):
        out.append((f'clip-{sm}', 'clipped', dict(small=sm), {}))
    out.append(('spot', 'withspot', {}, {}))
    out.append(('spot-floor', 'withspot', dict(kind='floor'), {}))
    return out
