"""stars with a few surface cells seen from any direction (shared by the disk-integration harnesses)"""
import math
from harness.common import *

# seen from the pole at mu = 1/2, 1/sqrt 2, 1, 0, -1/2, sqrt 3/2; from the equator at longitude 0 at ...
CELLS = [(30, 0), (45, 120), (90, 0), (0, 60), (-30, 240), (60, 240), (45, 0), (60, 0), (30, 90)]


class Disk:
    pass


def disk(w, n=3, spots=(0, 1), u12=True, areas=True, cells=None, obs=None, gran=True, radius=None, faculae=(), grid=None):
    """n cells, a spot of a temperature of its own on each cell listed in spots; any observer unless obs (deg) is given"""
    u = w.u
    d = Disk()
    pos = cells or CELLS[:n]
    n = len(pos)
    if grid is not None:
        G, d.area = grid, None
    else:
        d.area = [w.pos(f'A{i}', 0.1, 1) for i in range(n)] if areas else [w.frac(1, n)] * n
        G = stub_grid(w, [a * u.deg for a, _ in pos], [b * u.deg for _, b in pos], d.area)
    d.T = w.pos('T', 2500, 4000, cls='T')
    d.cell = [d.T] * n
    sp = []
    area = (2 * math.pi * (1 - math.cos(math.radians(10))) * (1 * u.R_sun) ** 2).to(u.km ** 2)
    for k in spots:
        t = w.pos(f'Ts{k}', 2500, 4000, cls='T')
        w.assume(w.le(t, d.T) if w.sym else t <= d.T)
        d.cell[k] = t
        sp.append(spot(w, pos[k][0] * u.deg, pos[k][1] * u.deg, area, t * u.K, t * u.K, G, is_growing=k % 2 == 0))
    d.u1, d.u2 = (w.real('u1', slo=-0.3, shi=0.9), w.real('u2', slo=-0.3, shi=0.5)) if u12 else (w.frac(0, 1), w.frac(0, 1))
    kw = {}
    if gran:
        d.dT = w.real('dT', slo=-300, shi=300)
        kw['granulation'] = w.pkg.Granulation(mean_coverage=0.1, amplitude=0.1, period=5 * u.hr, dteff=d.dT * u.K, seed=1)
        d.g = w.real('g', 0, 1)
    else:
        d.dT, d.g = w.frac(0, 1), w.frac(0, 1)
    hold = sp if w.cfg.get('prior') == 1 else []
    d.star = star(w, G, spots=[] if hold else sp, faculae=faculae, teff=d.T * u.K, u1=d.u1, u2=d.u2, **kw)
    d.G = G
    if obs is None:
        d.qlat, d.qlon, d.lat, d.lon = pt(w, 'obs')
    else:
        d.qlat, d.qlon = obs[0] * u.deg, obs[1] * u.deg
        d.lat, d.lon = w.v(d.qlat, 'rad'), w.v(d.qlon, 'rad')
    d.obs = {'lat': d.qlat, 'lon': d.qlon}
    if w.cfg.get('prior') in (1, 2):
        earlier(w, d, hold)
    d.mu = []
    for a, b in pos if grid is None else ():
        la, lo = w.v(a * u.deg, 'rad'), w.v(b * u.deg, 'rad')
        if w.sym:
            dot_lemma(w, d.lat, d.lon, la, lo)
        d.mu.append(dot(w, d.lat, d.lon, la, lo))
    return d


def earlier(w, d, late):
    """the star was looked at before: from other places, with a planet in transit, before its spots (late) appeared"""
    u = w.u
    pole = w.cfg.get('obs') is not None and w.cfg['obs'][0] == 90
    for la, lo in ((0 * u.deg if pole else 90 * u.deg, 0 * u.deg), (d.qlat, d.qlon + 180 * u.deg)):
        seen = {'lat': la, 'lon': lo}
        d.star.add_faculae_to_map(la, lo)
        d.star.calc_coverage(seen, w.frac(3, 10))
        d.star.average_teff(seen)
    for s in late:
        d.star.add_spot(s)


def see(w, d, pattern=None):
    """fork on (or fix) which cells are visible; the limb-darkened weights of all cells; limb darkening keeps the disk non-negative"""
    d.vis = []
    for i, m in enumerate(d.mu):
        if not w.sym:
            w.assume(abs(m) > 1e-9)
        if pattern is not None:
            w.assume(w.lt(0, m) if pattern[i] == '1' else w.le(m, 0))
            d.vis.append(pattern[i] == '1')
        else:
            d.vis.append(bool(w.decide(w.is_lt(0, m))))
    d.wt = []
    for i, m in enumerate(d.mu):
        if not d.vis[i]:
            d.wt.append(w.frac(0, 1))
            continue
        ld = 1 - d.u1 * (1 - m) - d.u2 * (1 - m) ** 2
        w.assume(w.le(0, ld))
        d.wt.append(d.area[i] * m * ld)
    tot = w.frac(0, 1)
    for x in d.wt:
        tot = tot + x
    w.assume(w.lt(0, tot) if w.sym else tot > 1e-6)
    d.tot = tot


def build(w):
    """the star described by the configuration"""
    c, u = w.cfg, w.u
    kw = {}
    if c.get('grid'):
        kw['grid'] = w.m.coordinate_grid.CoordinateGrid.new(c['grid'])
    if c.get('fac'):
        la, lo = c['fac']
        wa, fl = w.real('wall', slo=-500, shi=500), w.real('floor', slo=-500, shi=500)
        # equal temperatures (to the kelvin) of wall and floor are refused
        w.assume(w.lt(wa, fl - 2) if c.get('cool_wall') else w.lt(fl, wa - 2))
        kw['faculae'] = [facula(w, la * u.deg, lo * u.deg, 250000 * u.km, any_grid(w), wall=wa * u.K, floor=fl * u.K, depth=c.get('depth', 100000) * u.km)]
    d = disk(w, spots=c.get('spots', ()), gran=c.get('gran', True), obs=c.get('obs'), cells=[CELLS[i] for i in c.get('cells', ())] or None,
             u12=c['free'] == 'ld', areas=c['free'] == 'areas', **kw)
    if c.get('grid'):
        see_grid(w, d)
    else:
        see(w, d)
    return d


def see_grid(w, d):
    """weights on a real grid, from its own points and areas"""
    la, lo = d.G.grid()
    la, lo, ar = w.vals(la, 'rad'), w.vals(lo, 'rad'), w.vals(d.G.area)
    d.mu = [dot(w, d.lat, d.lon, a, b) for a, b in zip(la, lo)]
    d.area = ar
    d.cell = [d.T] * len(ar)
    see(w, d)


def layouts(fn, tier):
    out = []

    def add(nm, **k):
        out.append((nm, fn, dict(dict(obs=(90, 0), gran=True), **k), {}))
    add('all-spots', cells=(0, 1, 2), spots=(0, 1, 2), free='areas', gran=False)
    add('all-spots-hidden', cells=(0, 4, 5), spots=(0, 1, 2), free='ld', gran=False)
    for free in ('areas', 'ld'):
        for cells in ((0, 1, 2), (0, 1, 4), (0, 3, 4), (4, 0, 5)):
            for spots in ((0, 1), ()):
                add(f'{free}-{"".join(map(str, cells))}-{"".join(map(str, spots))}', cells=cells, spots=spots, free=free)
    add('again', cells=(0, 1, 4), spots=(0,), free='areas', prior=1)
    add('again-side', cells=(0, 3, 4), spots=(1,), free='areas', prior=2, obs=(0, 0))
    add('again-rect', grid=(4, 3), free='none', obs=(20, 40), prior=1)
    add('any-direction', cells=(0, 4), spots=(0,), free='none', obs=None)
    for i, cells in enumerate(((0, 6, 7), (0, 6, 4))):
        add(f'facula-{i}', cells=cells, fac=(45, 0), free='areas', gran=i == 0)
    add('facula-spot', cells=(0, 6, 7), spots=(1,), fac=(45, 0), free='ld', gran=False)
    add('facula-elsewhere', cells=(0, 4), fac=(-45, 180), free='ld')
    for nm, g in (('rect', (4, 3)), ('spiral', 7)):
        for i, o in enumerate(((20, 40), (-90, 0))):
            add(f'{nm}-{i}', grid=g, free='none', obs=o)
    return out
