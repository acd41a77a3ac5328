"""C08 spot map"""
import math
from harness.common import *

BOUNDS = ('two cells, up to 2 (thorough: 3) spots in every combination of six coverage patterns (umbra/penumbra/outside of either cell); '
          'all temperatures with umbra <= penumbra and all cell areas real-valued')

#            lon, angular radius (deg), state of cell A (lon 0) and B (lon 30): 2 umbra, 1 penumbra, 0 outside
PATTERNS = [(0, 20, 2, 0), (345, 20, 1, 0), (30, 20, 0, 2), (0, 40, 2, 1), (15, 40, 2, 2), (180, 20, 0, 0)]


def area_of(rho, u):
    return (2 * math.pi * (1 - math.cos(math.radians(rho))) * (1 * u.R_sun) ** 2).to(u.km ** 2)


def setup(w, k):
    u = w.u
    aA, aB = w.pos('areaA'), w.pos('areaB')
    G = stub_grid(w, [0 * u.deg, 0 * u.deg], [0 * u.deg, 30 * u.deg], [aA, aB])
    spots, cover = [], ([], [])
    for i in range(k):
        p = w.cfg['first'] if i == 0 and 'first' in w.cfg else w.choice(f'pattern{i}', len(PATTERNS))
        lon, rho, sa, sb = PATTERNS[p]
        tp = w.pos(f'tp{i}', 2000, 4000, cls='T')
        tu = w.pos(f'tu{i}', 2000, 4000, cls='T')
        w.assume(w.le(tu, tp))
        # old: nearly gone, after a much larger maximum
        life = dict(area_max=5000 * area_of(rho, u), is_growing=False) if w.cfg.get('old') else {}
        spots.append(spot(w, 0 * u.deg, lon * u.deg, area_of(rho, u), tu * u.K, tp * u.K, G, **life))
        for j, st in enumerate((sa, sb)):
            if st:
                cover[j].append((tu if st == 2 else tp, st))
            if st == 2:
                cover[j].append((tp, 1))
    return G, spots, cover, (aA, aB)


def before(w, col, T):
    """the spots were smaller when the star was mapped before, and it was mapped at other sizes and temperatures"""
    u = w.u
    sizes = [s.area_current for s in col.spots]
    for s in col.spots:
        s.area_current = 1 * u.km ** 2
    col.map_pixels(1 * u.R_sun, T)
    col.get_coverage(1 * u.R_sun)
    for s, a in zip(col.spots, sizes):
        s.area_current = a
    col.map_pixels(30 * u.R_sun, T)
    col.map_pixels(1 * u.R_sun, 10000 * u.K)
    col.get_coverage(30 * u.R_sun)


def mapped(w):
    u = w.u
    T = w.pos('T', 2000, 4000, cls='T')
    G, spots, cover, areas = setup(w, w.cfg['k'])
    col = w.pkg.SpotCollection(*spots, gridmaker=G)
    if w.cfg.get('prior'):
        before(w, col, T * u.K)
    m = w.vals(col.map_pixels(1 * u.R_sun, T * u.K), 'K')
    w.observe('map', m)
    w.check('one value per cell', len(m) == 2)
    for j in range(2):
        ts = [T] + [t for t, _ in cover[j]]
        w.check('coolest covering temperature', w.and_(*[w.le(m[j], t) for t in ts]))
        w.check('a temperature present there', w.or_(*[w.eq(m[j], t) for t in ts]))


def coverage(w):
    u = w.u
    G, spots, cover, areas = setup(w, w.cfg['k'])
    col = w.pkg.SpotCollection(*spots, gridmaker=G)
    if w.cfg.get('prior'):
        before(w, col, 3000 * u.K)
    cv = w.v(col.get_coverage(1 * u.R_sun))
    w.observe('cov', cv)
    num = 0
    for j in range(2):
        if cover[j]:
            num = num + areas[j]
    w.check('coverage is the covered area share', w.eq(cv, num / (areas[0] + areas[1])))


def configs(tier):
    out = [('map-1', 'mapped', dict(k=1), {})]
    for f in range(6):
        out.append((f'map-2-{f}', 'mapped', dict(k=2, first=f), {}))
    out.append(('coverage-2', 'coverage', dict(k=2), {}))
    out.append(('old-1', 'mapped', dict(k=1, old=1), {}))
    out.append(('old-coverage-1', 'coverage', dict(k=1, old=1), {}))
    out.append(('again-1', 'mapped', dict(k=1, prior=1), {}))
    out.append(('again-coverage-1', 'coverage', dict(k=1, prior=1), {}))
    if tier == 'thorough':
        out.append(('again-2', 'mapped', dict(k=2, first=3, prior=1), {}))
        for f in range(6):
            out.append((f'map-3-{f}', 'mapped', dict(k=3, first=f), {}))
            out.append((f'coverage-3-{f}', 'coverage', dict(k=3, first=f), {}))
    return out
