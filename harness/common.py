"""helpers shared by the harnesses (they work in both worlds)"""
from fractions import Fraction as F

HALF = F(1, 2)


def pt(w, name, unit='deg', lat=(-HALF, HALF), lon=(0, 2), lon_strict=True):
    """a symbolic point on the sphere: (lat, lon) quantities and the same angles as plain radians"""
    la = w.angle(name + '.lat', lat[0], lat[1], unit, cls='lat')
    lo = w.angle(name + '.lon', lon[0], lon[1], unit, hi_strict=lon_strict, cls='lon')
    return la, lo, w.v(la, 'rad'), w.v(lo, 'rad')


def dot(w, lat1, lon1, lat2, lon2):
    """cosine of the angle between two points given in plain radians"""
    return w.sin(lat1) * w.sin(lat2) + w.cos(lat1) * w.cos(lat2) * w.cos(lon1 - lon2)


def dot_lemma(w, lat1, lon1, lat2, lon2):
    """-1 <= dot <= 1, by a sum-of-squares identity"""
    s1, c1, s2, c2 = w.sin(lat1), w.cos(lat1), w.sin(lat2), w.cos(lat2)
    sa, ca, sb, cb = w.sin(lon1), w.cos(lon1), w.sin(lon2), w.cos(lon2)
    h = w.frac(1, 2)
    d = dot(w, lat1, lon1, lat2, lon2)
    w.nonneg('1 - dot >= 0', 1 - d, [h, ('sq', s1 - s2)], [h, ('sq', c1 - c2)],
             [h, c1, c2, ('sq', ca - cb)], [h, c1, c2, ('sq', sa - sb)])
    w.nonneg('1 + dot >= 0', 1 + d, [h, ('sq', s1 + s2)], [h, ('sq', c1 - c2)],
             [h, c1, c2, ('sq', ca + cb)], [h, c1, c2, ('sq', sa + sb)])
    return d


def stub_grid(w, lats, lons, areas=None, unit='deg'):
    """a grid with arbitrary points (quantities) and areas (plain)"""
    G = w.m.coordinate_grid.CoordinateGrid
    n = len(lats)

    class Stub(G):
        def __init__(self):
            self.n_points = n

        def _grid(self):
            return w.qarr(lats, unit), w.qarr(lons, unit)

        @property
        def _area(self):
            return w.arr(areas if areas is not None else [w.frac(1, n)] * n)

        def _zeros(self, dtype='float32'):
            return w.np.zeros((n,), dtype=dtype)

        def __eq__(self, other):
            return self is other

        def __ne__(self, other):
            return self is not other
        __hash__ = object.__hash__
    return Stub()


def spot(w, lat, lon, area, umbra, penumbra, G, ratio=5, area_max=None, **k):
    # the size now differs from the size at maximum unless a caller says otherwise
    return w.pkg.StarSpot(lat=lat, lon=lon, area_max=area_max if area_max is not None else 3 * area, area_current=area,
                          teff_umbra=umbra, teff_penumbra=penumbra, area_over_umbra_area=ratio, gridmaker=G, **k)


def facula(w, lat, lon, radius, G, depth=None, r_max=None, wall=None, floor=None, min_rad=None, growing=True, lifetime=None,
           wall_slope=None, floor_slope=None, cls=None):
    u = w.u
    return (cls or w.pkg.Facula)(lat=lat, lon=lon, r_max=r_max if r_max is not None else 2 * radius, r_init=radius,
                        depth=depth if depth is not None else 100 * u.km,
                        lifetime=lifetime if lifetime is not None else 6 * u.hr,
                        floor_teff_slope=floor_slope if floor_slope is not None else 0 * u.K / u.km,
                        floor_teff_min_rad=min_rad if min_rad is not None else 20 * u.km,
                        floor_teff_base_dteff=floor if floor is not None else -100 * u.K,
                        wall_teff_slope=wall_slope if wall_slope is not None else 0 * u.K / u.km,
                        wall_teff_intercept=wall if wall is not None else 100 * u.K, growing=growing, gridmaker=G)


def near(w, a, b, eps=F(1, 10 ** 6)):
    """|a - b| <= eps (single-precision data)"""
    return w.and_(w.le(a, b + w.frac(eps.numerator, eps.denominator)), w.le(b - w.frac(eps.numerator, eps.denominator), a))


def any_grid(w):
    return w.m.coordinate_grid.CoordinateGrid.new(4)


def star(w, G=None, spots=(), faculae=(), teff=None, radius=None, **k):
    """a star; with G, on that grid"""
    u = w.u
    sc = w.pkg.SpotCollection(*spots, gridmaker=any_grid(w) if G is None else G)
    fc = w.pkg.FaculaCollection(*faculae, gridmaker=any_grid(w) if G is None else G)
    s = w.pkg.Star(teff=teff if teff is not None else 3300 * u.K, radius=radius if radius is not None else 1 * u.R_sun,
                   period=10 * u.day, spots=sc, faculae=fc, grid_params=k.pop('grid_params', 4), **k)
    if G is not None:
        s.gridmaker = G
        s.spots.set_gridmaker(G)
        s.faculae.set_gridmaker(G)
        s.spot_generator.gridmaker = G
        s.fac_generator.gridmaker = G
    return s
