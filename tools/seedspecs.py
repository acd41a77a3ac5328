from seeds import seed

seed('flare-tail', 'C24', 'flares.py', [('padding_before = 20', 'padding_before = 12')],
     'a window that starts more than 12 but less than 20 FWHM after a flare peak',
     'a flare still shining in the window is left out', '''
fl = v.StellarFlare(fwhm=1*u.hr, energy=1e34*u.erg, lat=0*u.deg, lon=0*u.deg, Teff=9000*u.K, tpeak=0*u.hr)
t0, t1 = 15*u.hr, 16*u.hr
assert fl.areacurve(np.array([15.5])*u.hr)[0] > 0*u.km**2
assert len(v.FlareCollection([fl]).get_flares_in_timeperiod(t0, t1)) == 1
''')
seed('flare-integral-span', 'C22', 'xoflares.py', [('t0, t1, t2 = -1, 0, 20', 't0, t1, t2 = -1, 0, 10')],
     'nothing rare: the error is a few per cent of the energy and needs the whole curve integrated',
     'the radiated energy exceeds the energy of the flare', '''
from astropy import constants as c
fl = v.StellarFlare(fwhm=1*u.hr, energy=1e34*u.erg, lat=0*u.deg, lon=0*u.deg, Teff=9000*u.K, tpeak=0*u.hr)
t = np.linspace(-1.5, 20.5, 400001)*u.hr
e = (np.trapezoid(fl.areacurve(t), t)*c.sigma_sb*fl.Teff**4).to_value(u.erg) if hasattr(np, 'trapezoid') else (np.trapz(fl.areacurve(t), t)*c.sigma_sb*fl.Teff**4).to_value(u.erg)
assert abs(e/1e34 - 1) < 1e-3, e
''')
seed('spot-decay-carry', 'C09', 'spots.py', [('decay_time = time - time_to_max', 'decay_time = time')],
     'a single step that carries a spot across its maximum',
     'the decay after the peak uses the whole step, so the area depends on how the time is split', '''
a, b = [spot(0, 0, 50, grid=10, area_max=100*MSH, growth_rate=0.5/u.day, decay_rate=5*MSH/u.day) for _ in range(2)]
a.age(6*u.day)
for _ in range(60):
    b.age(0.1*u.day)
assert abs((a.area_current - b.area_current).to_value(MSH)) < 1e-6, (a.area_current, b.area_current)
''')
seed('facula-life-spread', 'C20', 'faculae.py', [('lifetimes = self.dist_life_peak * 10**(mu*self.dist_life_logsigma)',
                                                  'lifetimes = self.dist_life_peak * 10**(mu*self.dist_r_logsigma)')],
     'a generator whose lifetime spread differs from its radius spread',
     'the lifetimes of generated faculae ignore their own spread', '''
g = v.FaculaGenerator(dist_r_peak=800*u.km, dist_r_logsigma=0.3, depth=100*u.km, dist_life_peak=6*u.hr, dist_life_logsigma=0.0,
                      floor_teff_slope=0*u.K/u.km, floor_teff_min_rad=20*u.km, floor_teff_base_dteff=-100*u.K, wall_teff_slope=0*u.K/u.km,
                      wall_teff_intercept=100*u.K, coverage=0.1, grid_params=50, rng=np.random.default_rng(1))
assert all(abs(f.lifetime.to_value(u.hr) - 6) < 1e-9 for f in g.generate_faculae(20))
''')
seed('mature-before-ageing', 'C21', 'spots.py', [('''            spots.append(new_spot)
            spot_solid_angle = new_spot.angular_radius(r_star)**2 * np.pi
            current_omega += spot_solid_angle
        return spots''', '''            spots.append(new_spot)
            spot_solid_angle = np.max([new_spot.angular_radius(r_star).to_value(u.deg), 0.3])**2 * np.pi * u.deg**2
            current_omega += spot_solid_angle
        return spots''')],
     'small spots on a large star (angular radius below 0.3 degrees)',
     'the coverage is not reached because small spots are counted too big', '''
g = v.SpotGenerator(dist_area_mean=12*MSH, dist_area_logsigma=0.01, umbra_teff=2500*u.K, penumbra_teff=2700*u.K, growth_rate=0.5/u.day,
                    decay_rate=0*MSH/u.day, init_area=10*MSH, distribution='iso', coverage=0.1, grid_params=20, rng=np.random.default_rng(1))
r = 2*u.R_sun
sp = g.generate_mature_spots(1e-4, r)
tot = sum((s.angular_radius(r).to_value(u.rad))**2*np.pi for s in sp)
assert tot >= 4*np.pi*1e-4, tot
''')
seed('umbra-order', 'C08', 'spots.py', [('''            umbra = teff_dict[spot.teff_umbra] & (
                surface_map > spot.teff_umbra)''', '''            umbra = teff_dict[spot.teff_umbra] & (
                surface_map >= spot.teff_penumbra)''')],
     'overlapping spots where an earlier one is cooler than the penumbra but warmer than the umbra of a later one',
     'the umbra of the later spot does not show although it is the coolest', '''
a = spot(0, 0, 3000, umbra=2590, pen=2600)
b = spot(0, 0, 3000, umbra=2500, pen=2700)
m = star([a, b]).map.to_value(u.K)
assert m.min() == 2500, m.min()
''')
seed('facula-seam', 'C13', 'star.py', [('wall_pix = inside_fac & (mu <= border_mu)\n                floor_pix = inside_fac & (mu > border_mu)',
                                        'wall_pix = inside_fac & (mu < border_mu)\n                floor_pix = inside_fac & (mu > border_mu)')],
     'a facula that covers a single cell (or a border on a cell value)',
     'cells of the facula keep the temperature below it', '''
g = CoordinateGrid.new(500)
la, lo = g.grid()
i = int(np.argmax(g.cos_angle_from_disk_center(20*u.deg, 30*u.deg)))
s = star([], [facula(la[i].to_value(u.deg), lo[i].to_value(u.deg), 500, depth=100)], grid=500)
m = s.add_faculae_to_map(0*u.deg, 0*u.deg)
inside = s.faculae.faculae[0].map_pixels(s.radius)
assert inside.sum() == 1
assert not np.any(m[inside] == 3300*u.K)
''')
seed('area-pole', 'C15', 'coordinate_grid.py', [('jacobian: u.Quantity = np.sin(latgrid + 90*u.deg)\n', 'jacobian: u.Quantity = np.abs(np.cos(2*latgrid) + 1)/2\n')],
     'a rectangular grid with cells away from equator and poles', 'cell areas are not proportional to cos(latitude)', '''
g = CoordinateGrid.new((7, 4))
la, _ = g.grid()
r = g.area/np.cos(la).value
assert abs(r[0, 1]/r[0, 3] - 1) < 1e-6, r
''')
seed('clip-tail', 'C06', 'helpers.py', [('* np.cos(lon1-lon2))\n    return np.arccos', '* np.cos(np.abs(lon1-lon2) % (180*u.deg)))\n    return np.arccos')],
     'longitudes more than 180 degrees apart', 'angles across the far side are wrong', '''
a = get_angle_between(10*u.deg, 10*u.deg, 20*u.deg, 300*u.deg).to_value(u.deg)
b = get_angle_between(10*u.deg, 10*u.deg, 20*u.deg, -60*u.deg).to_value(u.deg)
assert abs(a - b) < 1e-6, (a, b)
''')

seed('flare-far-lon', 'C32', 'flares.py', [("* np.cos(sub_obs_coords['lon']-flare.lon))", "* np.cos(min(abs(sub_obs_coords['lon']-flare.lon), 180*u.deg)))")],
     'an observer longitude more than half a turn away from that of the flare',
     'which flares are visible depends on the longitudes themselves and not only on their difference modulo a turn', """
fl = v.StellarFlare(fwhm=1*u.hr, energy=1e34*u.erg, lat=0*u.deg, lon=10*u.deg, Teff=9000*u.K, tpeak=0*u.hr)
c = v.FlareCollection([fl])
n = [len(c.get_visible_flares_in_timeperiod(0*u.hr, 1*u.hr, {'lat': 0*u.deg, 'lon': l*u.deg})) for l in (-10, 350, 710)]
assert n == [1, 1, 1], n
""")
seed('cluster-rng', 'C36', 'flares.py', [('dtimes.append(self.rng.exponential(flare_timescale))', 'dtimes.append(np.random.exponential(flare_timescale))')],
     'a cluster of at least two flares', 'peak times inside a cluster do not come from the generator of the user', """
def t():
    g = v.FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3, cluster_size=6, rng=np.random.default_rng(3))
    return g.get_peaks(40)
assert np.all(t() == t())
""")
seed('facula-depth-unit', 'C31', 'faculae.py', [('depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)', 'depth_over_radius = (self.depth/self.radius).value')],
     'depth and radius of a facula given in different units', 'the wall share depends on the unit of the depth', """
a = facula(0, 0, 500, depth=100).fractional_effective_area(40*u.deg)
b = facula(0, 0, 500, depth=(1e5*u.m).to(u.m)/u.km).fractional_effective_area(40*u.deg) if False else None
f = facula(0, 0, 500, depth=100)
f.depth = f.depth.to(u.m)
b = f.fractional_effective_area(40*u.deg)
assert all(abs(x - y) < 1e-9 for x, y in zip(a.values(), b.values())), (a, b)
""")
seed('phase-window', 'C03', 'star.py', [('if np.cos(phase) > 0:', 'if np.abs(phase) < 90*u.deg:')],
     'a phase between 270 and 360 degrees (or beyond a turn) with the planet behind the star',
     'a planet behind the star darkens it', """
s = star([], [], grid=2000)
m, f = s.get_transit_mask(0*u.deg, 0*u.deg, orbit_radius=0.05*u.AU, radius=3*u.R_earth, phase=359.9*u.deg, inclination=90*u.deg)
assert np.all(m == 0)
""")
seed('proj-wrap', 'C05', 'helpers.py', [('np.sin(lons-lon0) < 0,', 'lons < lon0,')],
     'points across the longitude seam from the sub-observer point', 'points are mirrored east-west', """
x, y = proj_ortho(10*u.deg, 350*u.deg, np.array([5.])*u.deg, np.array([20.])*u.deg)
assert abs(x[0] - np.cos(np.radians(5))*np.sin(np.radians(30))) < 0.02, x
""")
seed('spot-clean-early', 'C11', 'spots.py', [('if (spot.area_current <= 0*MSH) and (not spot.is_growing):', 'if (spot.area_current <= 0.01*spot.area_max) and (not spot.is_growing):')],
     'a decaying spot in the last hundredth of its life', 'a spot that is still there is removed', """
c = v.SpotCollection(spot(0, 0, 5, area_max=100*MSH, is_growing=False, decay_rate=4.5*MSH/u.day, grid=20), grid_params=20)
c.age(1*u.day)
assert len(c.spots) == 1
""")
seed('floor-uses-max', 'C12', 'faculae.py', [('dteff = (self.radius - self.floor_teff_min_rad)', 'dteff = (self.r_max - self.floor_teff_min_rad)')],
     'a facula that is not at its maximum radius and a floor law with a slope', 'the floor temperature ignores the current size', """
a = facula(0, 0, 500, floor_teff_slope=1*u.K/u.km, r_max=900*u.km)
b = facula(0, 0, 500, floor_teff_slope=1*u.K/u.km, r_max=500*u.km)
x, y = a.effective_area(30*u.deg), b.effective_area(30*u.deg)
assert sorted(k.value for k in x) == sorted(k.value for k in y), (x, y)
""")
seed('fac-adopt', 'C14', 'faculae.py', [('if not fac.gridmaker == self.gridmaker:', 'if fac.gridmaker.zeros().ndim != self.gridmaker.zeros().ndim:')],
     'a facula built on a grid of the same kind but another size than that of the star', 'the facula keeps its old grid', """
s = star([], [], grid=300)
s.add_fac(facula(0, 0, 20000, grid=200))
assert s.faculae.faculae[0].map_pixels(s.radius).shape == s.gridmaker.zeros().shape
""")
seed('resample-zero', 'C17', 'coordinate_grid.py', [('denominator += weight\n', 'denominator += weight*(value != 0)\n')],
     'resampled data with zeros', 'zeros are ignored: an indicator map comes out as all ones', """
g = CoordinateGrid.new(200)
la, lo = g.grid()
d = (la > 0*u.deg)*1.0
_, _, r = g.display_grid(10, 20, d)
assert r.min() < 0.2
""")
seed('window-tail', 'C25', 'flares.py', [('time = np.linspace(tstart, tfinish, N_steps)', 'time = np.linspace(tstart, tstart + max(N_steps-1, 1)*time_resolution, N_steps)')],
     'a window that is not a whole number of time steps', 'the last part of the window is left out of the integral', """
fl = v.StellarFlare(fwhm=1*u.hr, energy=1e34*u.erg, lat=0*u.deg, lon=0*u.deg, Teff=9000*u.K, tpeak=0*u.hr)
r = v.FlareCollection([fl]).get_flare_integral_in_timeperiod(0*u.min, 25*u.min)[0]['timearea'].to_value(u.Unit('min km2'))
lo, hi = fl.areacurve(np.array([0., 25.])*u.min).to_value(u.km**2)[::-1]
assert 25*lo*(1-1e-9) <= r <= 25*hi*(1+1e-9), (25*lo, r, 25*hi)
""")
seed('quantile-floor', 'C26', 'flares.py', [('return self.min_energy * (1-X)**(1/self.alpha)', 'return self.min_energy * np.maximum(1-X, 1e-3)**(1/self.alpha)')],
     'a draw above 0.999', 'the largest flares are capped, the quantile function does not invert the distribution', """
g = v.FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3)
assert abs(g.cdf(g.quantile_func(0.9999))[0] - 0.9999) < 1e-9
""")
seed('gran-nan-mean', 'C28', 'star.py', [('return np.zeros(shape=time.shape)\n        else:\n', 'return np.zeros(shape=time.shape)\n        elif np.any(time < 0*u.s):\n            return np.zeros(shape=time.shape)\n        else:\n')],
     'negative times', 'granulation vanishes at all times as soon as one requested time is negative', """
g = v.Granulation(0.5, 1e-4, 5*u.day, 200*u.K, seed=1)
s = star([], [], grid=50, granulation=g)
assert np.all(s.get_granulation_coverage(np.array([-1., 0., 1.])*u.day) > 0)
""")
seed('kernel-diag', 'C29', 'granules.py', [('diag=0,', "diag=1e-3*params['scale'],")],
     'nothing rare, but the effect is a small white noise on top of the process', 'the covariance at zero separation is not that of the kernel', """
from vspec_vsm.granules import build_gp, GranulationKernel
p = dict(mean=0.2, scale=0.5, period=3.0)
gp = build_gp(p, np.array([0., 1.]))
k = float(GranulationKernel(0.5, 3.0).evaluate(0., 0.))
assert abs(float(gp.variance[0]) - k) < 1e-5*k, (gp.variance, k)
""")
seed('spot-far-side', 'C35', 'spots.py', [("c = np.linspace(-90, 90, n_points)*u.deg", "c = np.linspace(-100, 100, n_points)*u.deg")],
     'a spot beyond the limb', 'the disk fraction of a spot just behind the limb is negative', """
s = spot(0, 110, 3000, grid=20)
assert s.surface_fraction({'lat': 0*u.deg, 'lon': 0*u.deg}, 0.3*u.R_sun) >= 0
""")
seed('eclipse-edge', 'C04', 'star.py', [('> 1 + 2*rp_rs:', '> 1 + 0.5*rp_rs:')],
     'a planet more than half a radius outside the limb but still touching the disk, behind the star', 'its eclipsed part counts as visible', """
s = star([], [], grid=50, radius=0.3)
x = 1.7*s.radius
R = 10*s.radius
f = s.get_transit_mask(0*u.deg, 0*u.deg, orbit_radius=R, radius=0.99*s.radius, phase=np.arcsin((x/R).to_value(u.dimensionless_unscaled))*u.rad, inclination=90*u.deg)[1]
assert f < 1, f
""")
seed('facula-straddle', 'C10', 'faculae.py', [('                time = time - time_from_max\n', '                time = min(time - time_from_max, self.lifetime)\n')],
     'a single step that carries a facula from growth to more than one lifetime past its maximum', 'the decay after the peak stops after one lifetime', """
a, b = [facula(0, 0, 100, r_max=400*u.km, grid=20) for _ in range(2)]
a.age(17*u.hr)
for _ in range(170):
    b.age(0.1*u.hr)
assert abs(a.radius/b.radius - 1) < 1e-6, (a.radius, b.radius)
""")
seed('gran-overwrite', 'C01', 'star.py', [("""        total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
        total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction
""", """        total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction
        total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
""")],
     'granules with the temperature of the photosphere (to two digits) and a granulation fraction', 'the granules overwrite themselves, fractions do not sum to one', """
s = star([spot(0, 0, 5000)], [], granulation=v.Granulation(0.2, 0.1, 1*u.day, 0*u.K, seed=1))
d = s.calc_coverage({'lat': 0*u.deg, 'lon': 0*u.deg}, granulation_fraction=0.2)[0]
assert abs(sum(d.values()) - 1) < 1e-6, d
""")
seed('flare-cap', 'C23', 'xoflares.py', [('(time > tpeak) * ((time - tpeak) / fwhm < 20.0)', '(time > tpeak) * ((time - tpeak) < 20.0*np.minimum(fwhm, 0.5))')],
     'a flare with a FWHM above half a day', 'the tail of long flares is cut off', """
fl = v.StellarFlare(fwhm=1*u.day, energy=1e34*u.erg, lat=0*u.deg, lon=0*u.deg, Teff=9000*u.K, tpeak=0*u.hr)
assert fl.areacurve(np.array([12.])*u.day)[0] > 0*u.km**2
""")
seed('series-last', 'C27', 'flares.py', [('tpeaks = np.cumsum(dtimes)\n', 'tpeaks = np.cumsum(dtimes)\n        tpeaks[-1] = np.minimum(tpeaks[-1], 1)\n')],
     'a series whose last clusters fall beyond the observation', 'the last flare is moved before earlier ones', """
for i in range(60):
    g = v.FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3, cluster_size=2, rng=np.random.default_rng(i))
    assert np.all(np.diff(g.get_peaks(12)) >= 0)
""")
seed('umbra-shrunk-life', 'C18', 'spots.py', [('+ (self.dist_area_mean**2/2/self.decay_rate)', '+ (self.dist_area_mean*(self.dist_area_mean-self.init_area)/2/self.decay_rate)')],
     'an initial area that is not small against the peak area', 'the decay phase is integrated down to the initial area times the whole decay', """
g = v.SpotGenerator(dist_area_mean=100*MSH, dist_area_logsigma=0.1, umbra_teff=2500*u.K, penumbra_teff=2700*u.K, growth_rate=0.5/u.day,
                    decay_rate=5*MSH/u.day, init_area=50*MSH, coverage=0.1, grid_params=20)
life = np.log(2)/0.5 + 20
area = (100 - 50)/0.5 + 100**2/2/5
assert abs(g.mean_area.to_value(MSH) - area/life) < 1e-6*area/life
""")
# results that depend on what was asked before
seed('view-memo', 'C30', 'star.py', [("        dat, _, _ = self.calc_coverage(sub_obs_coords)\n", """        key = (sub_obs_coords['lat'], len(self.spots.spots), len(self.faculae.faculae))
        if getattr(self, '_view', None) is None or self._view[0] != key:
            self._view = (key, self.calc_coverage(sub_obs_coords)[0])
        dat = self._view[1]
""")],
     'a star asked for its mean temperature from two longitudes of the same latitude', 'the second view reports the mean of the first', """
s = star([spot(0, 0, 30000)], [])
a = s.average_teff({'lat': 0*u.deg, 'lon': 180*u.deg})
b = s.average_teff({'lat': 0*u.deg, 'lon': 0*u.deg})
t = s.calc_coverage({'lat': 0*u.deg, 'lon': 0*u.deg})[0]
m = sum(u.Quantity(k).to_value(u.K)**4*x for k, x in t.items())**0.25
assert abs(b.to_value(u.K) - m) < 1e-3, (a, b, m)
""")
seed('gran-memo', 'C28', 'star.py', [("                coverage = self.granulation.get_coverage(time)\n", """                if getattr(self, '_gran', None) is None or self._gran.shape != time.shape:
                    self._gran = self.granulation.get_coverage(time)
                coverage = self._gran
""")],
     'two requests for the same number of different times', 'the second request reports the coverage of the first times', """
g = lambda: v.Granulation(0.4, 0.05, 5*u.hr, -200*u.K, seed=3)
t1, t2 = np.arange(6)*u.hr, (np.arange(6)**2*1.7 + 50)*u.hr
s = star([], [], granulation=g())
s.get_granulation_coverage(t1)
got = np.asarray(s.get_granulation_coverage(t2))
want = np.asarray(star([], [], granulation=g()).get_granulation_coverage(t2))
assert np.allclose(got, want, atol=1e-5), (got, want)
""")
seed('window-key', 'C24', 'flares.py', [("        mask = self.mask(tstart, tfinish)\n", """        key = (tstart.value, tfinish.value, len(self.flares))
        if getattr(self, '_window', None) is None or self._window[0] != key:
            self._window = (key, self.mask(tstart, tfinish))
        mask = self._window[1]
""")],
     'the same two numbers as a window in two units, one after the other', 'the window of the first unit is used', """
fl = v.StellarFlare(fwhm=1*u.hr, energy=1e34*u.erg, lat=0*u.deg, lon=0*u.deg, Teff=9000*u.K, tpeak=12*u.hr)
c = v.FlareCollection([fl])
c.get_flares_in_timeperiod(100*u.day, 101*u.day)
c.get_flares_in_timeperiod(0*u.hr, 1*u.hr)
assert len(c.get_flares_in_timeperiod(0*u.day, 1*u.day)) == 1
""")
seed('wall-depth-memo', 'C12', 'faculae.py', [("            depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)\n", """            if getattr(self, '_aspect', None) is None:
                self._aspect = (self.depth/self.radius).to_value(u.dimensionless_unscaled)
            depth_over_radius = self._aspect
""")],
     'a facula viewed, aged and viewed again', 'the split into wall and floor is that of the radius it had when first viewed', """
def f():
    return facula(0, 0, 800, r_max=1600*u.km, grid=50, depth=600)
a, b = f(), f()
a.effective_area(40*u.deg)
a.age(1*u.hr), b.age(1*u.hr)
x, y = a.effective_area(40*u.deg), b.effective_area(40*u.deg)
for p, q in zip(x.values(), y.values()):
    assert abs((p - q).to_value(u.km**2)) < 1, (x, y)
""")
