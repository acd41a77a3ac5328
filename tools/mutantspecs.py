"""(name, checks that should catch it, [(module, old text, new text)])"""
M = []


def m(name, checks, *edits):
    M.append((name, checks, list(edits)))


# ------------------------------------------------------------------------------------------------ C01/C02/C30
m('c01-label-digits', 'C02', ('star', "label = f'{teff:.2f}'", "label = f'{teff:.1f}'"))
m('c01-gran-assign', 'C01', ('star', "total_data[f'{granulation_teff:.2f}'] += phot_frac", "total_data[f'{granulation_teff:.2f}'] = phot_frac"))
m('c01-order', 'C01', ('star', "total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)\n        total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction",
  "total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction\n        total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)"))
m('c01-total-noproj', 'C01', ('star', 'total_area = np.sum(ld*proj_area)', 'total_area = np.sum(ld*proj_area*(cos_c > 0.05))'))
m('c02-ld-sign', 'C02', ('star', "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2", "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu**2)"))
m('c02-u2-mixed', 'C02', ('star', "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2", "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)"))
m('c02-use-ld-mask', 'C02', ('star', "ld = self.ld_mask_for_plotting(cos_c)", "ld = self.ld_mask(cos_c)"))
m('c02-behind', 'C02', ('star', "return np.where(mu>0,mu,0)", "return np.abs(mu)"), ('star', "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2\n        behind_star = mu < 0.", "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2\n        behind_star = mu < -0.3"))
m('c02-proj-cut', 'C02', ('star', "return np.where(mu>0,mu,0)", "return np.where(mu>0.1,mu,0)"))
m('c02-gran-cov', 'C03', ('star', "covered_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction", "covered_data[f'{granulation_teff:.2f}'] += total_data[f'{self.teff:.2f}'] * granulation_fraction"))
m('c02-gran-sign', 'C02', ('star', "granulation_teff = self.teff - self.granulation.dteff", "granulation_teff = self.teff + self.granulation.dteff"))
m('c02-jacobian', 'C02', ('star', "return self.gridmaker.area\n", "return self.gridmaker.area**1.0/np.max(self.gridmaker.area)*np.where(self.gridmaker.area > 0, 1, 0)\n"))
m('c30-weights', 'C30', ('star', "den += value\n", "den += value if value > 0 else 0\n"), ('star', "num += u.Quantity(teff)**4 * value", "num += u.Quantity(teff)**4 * value if value < 0.9 else u.Quantity(teff)**4"))
m('c30-linear', 'C30', ('star', "**4 * value", "**3 * value"), ('star', "**(0.25)", "**(1/3)"))
# ------------------------------------------------------------------------------------------------ C03/C04
m('c03-phase', 'C03', ('star', "if np.cos(phase) > 0:", "if np.cos(phase) > 0.2:"))
m('c03-phase-abs', 'C03', ('star', "if np.cos(phase) > 0:", "if abs(phase) < 90*u.deg:"))
m('c03-y-sign', 'C03', ('star', "             * np.cos(inclination)).to_value(u.dimensionless_unscaled)\n        rp_rs", "             * -np.cos(inclination)).to_value(u.dimensionless_unscaled)\n        rp_rs"))
m('c03-norm', 'C03', ('star', "zz = 1/(2*np.pi*sigma_x*sigma_y)*np.exp(-0.5*(xx/sigma_x)**2 - 0.5*(yy/sigma_y)**2)", "zz = 1/(2*np.pi*sigma_x*sigma_x)*np.exp(-0.5*(xx/sigma_x)**2 - 0.5*(yy/sigma_y)**2)"))
m('c03-outside', 'C03', ('star', "> 1 + 2*rp_rs:  # no transit", "> 1 + 3*rp_rs:  # no transit"))
m('c03-cov-norm', 'C03', ('star', "covered_data[label] = covered_data.get(label, 0) + covered_area/total_area", "covered_data[label] = covered_data.get(label, 0) + covered_area/np.sum(proj_area)"))
m('c04-lens', 'C04', ('helpers', "d2 = (d**2 + r**2 - R**2) / (2*d)", "d2 = np.abs(d**2 + r**2 - R**2) / (2*d)"))
m('c04-denom', 'C04', ('helpers', "area_of_circle = np.pi*r**2", "area_of_circle = np.pi*min(r, R)**2 if d > r else np.pi*R**2"))
m('c04-far', 'C04', ('star', "> 1 + 2*rp_rs:  # no transit", "> 1 + 0.5*rp_rs:  # no transit"))
m('c04-incl', 'C04', ('star', "             * np.cos(inclination)).to_value(u.dimensionless_unscaled)\n        rad = ", "             * np.sin(inclination)).to_value(u.dimensionless_unscaled)\n        rad = "))
# ------------------------------------------------------------------------------------------------ C05/C06
m('c05-pole', 'C05', ('helpers', "C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)", "C = np.where(c <= np.pi/2, (lons-lon0)-np.pi, np.nan)"))
m('c05-wrap', 'C05', ('helpers', "np.sin(lons-lon0) < 0,", "lons < lon0,"))
m('c05-meridian', 'C05', ('helpers', "(lons == lon0) & (lats < lat0),", "(lons == lon0) & (lats < 0),"))
m('c05-round', 'C05', ('helpers', "np.round(cos_C, 4)", "np.round(cos_C, 1)"))
m('c05-limb', 'C05', ('helpers', "            mu >= 0,\n", "            mu >= 0.05,\n"))
m('c06-clip', 'C06', ('helpers', "np.clip(mu, -1, 1)", "np.clip(mu, -1, 0.9999)"))
m('c06-mod', 'C06', ('helpers', "* np.cos(lon1-lon2))", "* np.cos(np.abs(lon1-lon2)/1.0 if np.abs(lon1-lon2) <= 360*u.deg else 0*u.deg))"))
m('c06-hav', 'C06', ('spots', "np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2", "np.cos(0.5*(latgrid+lat0))**2*np.sin(0.5*(lon0 - longrid))**2"))
m('c06-mu', 'C06', ('coordinate_grid', "* np.cos(lon0-longrid))", "* np.cos((lon0-longrid) % (180*u.deg)))"))
# ------------------------------------------------------------------------------------------------ C07/C08
m('c07-flat', 'C07', ('spots', "cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)\n        return (np.arccos(cos_angle)).to(u.deg)", "ang = np.sqrt(self.area_current/np.pi)/star_rad\n        return (ang.to_value(u.dimensionless_unscaled)*u.rad).to(u.deg)"))
m('c07-umbra', 'C07', ('spots', "radius_umbra = radius/np.sqrt(self.total_area_over_umbra_area)", "radius_umbra = radius/np.sqrt(1+self.total_area_over_umbra_area)"))
m('c07-fac-area', 'C07', ('faculae', "return self.radius/star_rad * 180/np.pi * u.deg", "return np.arcsin(np.minimum((self.radius/star_rad).to_value(u.dimensionless_unscaled), 1))*180/np.pi * u.deg"))
m('c08-eq', 'C08', ('spots', "surface_map > spot.teff_penumbra)", "surface_map >= star_teff)"))
m('c08-order', 'C08', ('spots', "umbra = teff_dict[spot.teff_umbra] & (\n                surface_map > spot.teff_umbra)", "umbra = teff_dict[spot.teff_umbra] & (\n                surface_map > spot.teff_penumbra)"))
m('c08-coverage', 'C08', ('spots', "is_spot = tmap != teff_star", "is_spot = tmap < np.max(tmap)"))
m('c08-coverage2', 'C08', ('spots', "return np.sum(area*is_spot)/np.sum(area)", "return np.mean(is_spot)"))
m('c08-cov-sum', 'C08', ('spots', "        tmap = self.map_pixels(r_star, teff_star)\n        is_spot = tmap != teff_star", "        is_spot = sum(s.map_pixels(r_star)[s.teff_penumbra].astype(float) for s in self.spots) if len(self.spots) else 0*area"))
# ------------------------------------------------------------------------------------------------ C09/C10/C11
m('c09-tau', 'C09', ('spots', "if time_to_max > time:", "if time_to_max >= 2*time or time_to_max > time and time < 5*u.day:"))
m('c09-decaying-max', 'C09', ('spots', "            if area_decay > self.area_current:\n", "            if area_decay > self.area_max:\n"))
m('c09-rate', 'C09', ('spots', "tau = np.log((self.growth_rate * u.day).to(u.Unit('')) + 1)", "tau = (self.growth_rate * u.day).to(u.Unit(''))"))
m('c09-reset', 'C09', ('spots', "                self.is_growing = False\n                decay_time", "                self.is_growing = self.decay_rate == 0*MSH/u.day\n                decay_time"))
m('c10-peak', 'C10', ('faculae', "                time = time - time_from_max\n", "                time = time - time_from_max*(time_from_max > 0)*1.0\n                time = np.minimum(time, 5*self.lifetime)\n"))
m('c10-half', 'C10', ('faculae', "-1*np.log(self.radius/self.r_max)*self.lifetime*0.5", "-1*np.log(self.radius/self.r_max)*self.lifetime*0.25"))
m('c11-double', 'C11', ('star', "        self.spots.age(time)\n        self.faculae.age(time)", "        self.spots.age(time)\n        for spot in self.spots.spots:\n            spot.age(0*time)\n        self.faculae.age(time)\n        self.faculae.age(0.0*time) if len(self.faculae.faculae) > 1 else None\n        self.spots.spots = self.spots.spots[::-1] if len(self.spots.spots) == 2 else self.spots.spots"))
m('c11-grow', 'C11', ('spots', "if (spot.area_current <= 0*MSH) and (not spot.is_growing):", "if spot.area_current <= 1e-3*spot.area_max and not spot.is_growing:"))
m('c11-fac', 'C11', ('faculae', "if (facula.radius <= facula.r_max/np.e**2) and (not facula.is_growing):", "if (facula.radius < facula.r_max/np.e**2):"))
m('c11-tuple', 'C11', ('faculae', "self.faculae = faculae_to_keep", "self.faculae = faculae_to_keep or self.faculae[:0]\n        if len(faculae_to_keep) > 1:\n            self.faculae = sorted(faculae_to_keep, key=lambda f: f.is_growing)"))
m('c11-dup', 'C11', ('faculae', "        self.clean_faclist()\n", "        n = len(self.faculae)\n        self.clean_faclist()\n        if len(self.faculae) < n:\n            for facula in self.faculae:\n                facula.age(time)\n"))
# ------------------------------------------------------------------------------------------------ C12/C13/C14
m('c12-min', 'C12', ('faculae', "if self.radius < self.floor_teff_min_rad:", "if self.radius <= 2*self.floor_teff_min_rad:"))
m('c12-tan', 'C12', ('faculae', "depth_over_radius*np.tan(angle)", "depth_over_radius*np.sin(angle)"))
m('c12-floor', 'C12', ('faculae', "dteff = (self.radius - self.floor_teff_min_rad) * \\\n            self.floor_teff_slope", "dteff = self.radius * \\\n            self.floor_teff_slope"))
m('c12-trunc', 'C12 C33', ('helpers', "return int(round(val)) * unit", "return int(val) * unit"))
m('c13-floorcmp', 'C13', ('star', "floor_pix = inside_fac & (mu > border_mu)", "floor_pix = inside_fac & (mu > border_mu) & (map_from_spots >= self.teff)"))
m('c13-frac', 'C13', ('star', "border_mu = np.percentile(mu_of_fac_pix, 100*frac)\n                wall_pix = inside_fac & (mu <= border_mu)\n                floor_pix = inside_fac & (mu > border_mu)", "border_mu = np.percentile(mu_of_fac_pix, 100*(1-frac))\n                wall_pix = inside_fac & (mu >= border_mu)\n                floor_pix = inside_fac & (mu < border_mu)"))
m('c13-keys', 'C13', ('star', "dteff_wall, dteff_floor = fracs.keys()", "dteff_floor, dteff_wall = sorted(fracs.keys())"))
m('c13-empty', 'C13', ('star', "wall_pix = inside_fac & (mu <= border_mu)", "wall_pix = inside_fac & (mu < border_mu)"))
m('c13-map', 'C13', ('star', "map_from_spots[wall_pix] = teff_wall", "map_from_spots[wall_pix & (map_from_spots == self.teff)] = teff_wall"))
m('c14-facadd', 'C14', ('faculae', "            if not fac.gridmaker == self.gridmaker:\n                fac.gridmaker = self.gridmaker", "            if fac.gridmaker is None:\n                fac.gridmaker = self.gridmaker"))
m('c14-setgrid', 'C14', ('spots', "            spot.set_gridmaker(self.gridmaker)\n", "            if not spot.gridmaker == self.gridmaker:\n                spot.set_gridmaker(self.gridmaker) if type(spot.gridmaker) == type(gridmaker) else setattr(spot, 'gridmaker', gridmaker)\n"))
m('c14-fac-ctor', 'C14', ('faculae', "            facula: Facula\n            facula.gridmaker = self.gridmaker", "            facula: Facula\n            facula.gridmaker = facula.gridmaker or self.gridmaker"))
# ------------------------------------------------------------------------------------------------ C15/C16/C17
m('c15-lon', 'C15', ('coordinate_grid', "np.linspace(0, 360, n_points, endpoint=False)*u.deg", "np.linspace(0, 360, n_points, endpoint=n_points > 3)*u.deg"))
m('c15-spiral', 'C15', ('coordinate_grid', "colat = np.arccos(1-2*(i+0.5)/self.n_points)", "colat = np.arccos(1-2*i/(self.n_points-1)) if self.n_points > 8 else np.arccos(1-2*(i+0.5)/self.n_points)"))
m('c15-golden', 'C15', ('coordinate_grid', "lon = 2*np.pi*i/self.GOLDEN_RATIO", "lon = 2*np.pi*i/self.GOLDEN_RATIO**2"))
m('c15-zeros', 'C15', ('coordinate_grid', "return np.zeros(shape=(self.nlon, self.nlat), dtype=dtype)", "return np.zeros(shape=(self.nlat, self.nlon), dtype=dtype)"))
m('c16-and', 'C16', ('coordinate_grid', "return self.n_points == other.n_points", "return self.n_points <= other.n_points"))
m('c16-total', 'C16', ('coordinate_grid', "return (self.nlat == other.nlat) & (self.nlon == other.nlon)", "return self.nlat*self.nlon == other.nlat*other.nlon"))
m('c17-width', 'C17', ('coordinate_grid', "weight = np.exp(-(r/characteristic_len)**2)", "weight = np.exp(-(r/characteristic_len)**2)*np.where(np.abs(lat) < 80*u.deg, 1, 0.5)"))
m('c17-denom', 'C17', ('coordinate_grid', "denominator += weight\n", "denominator += weight*(value != 0)\n"))
m('c17-unit', 'C17', ('coordinate_grid', "return lat, lon, dat*unit", "return lat, lon, dat*unit if self._zeros().ndim == 2 else dat*u.dimensionless_unscaled"))
m('c17-transpose', 'C17', ('coordinate_grid', "        return lats.to_value(u.rad), lons.to_value(u.rad), data\n", "        return lats.to_value(u.rad), lons.to_value(u.rad), data[:, ::-1] if nlat > 3 else data\n"))
# ------------------------------------------------------------------------------------------------ C18-C21
m('c18-life', 'C18', ('spots', "- np.log(self.init_area/self.dist_area_mean)/self.growth_rate).to(u.day)", "+ np.log(self.init_area/self.dist_area_mean)/self.growth_rate).to(u.day)"))
m('c18-area', 'C18', ('spots', "+ (self.dist_area_mean**2/2/self.decay_rate)", "+ (self.dist_area_mean**2/self.decay_rate)"))
m('c18-2pi', 'C18', ('spots', "self.coverage * 4*np.pi*rad_star**2 / self.mean_area", "self.coverage * 2*np.pi*rad_star**2 / self.mean_area"))
m('c18-static', 'C18', ('spots', "return np.inf * u.day", "return 1e6 * u.day"))
m('c19-life', 'C19', ('faculae', "time / (2*self.dist_life_peak)", "time / self.dist_life_peak"))
m('c19-area', 'C19', ('faculae', "return 0.5 * np.pi * (1-np.e**-2)", "return 0.5 * np.pi * (1-np.e**-4)"))
m('c20-share', 'C20', ('spots', "area_over_umbra_area=new_area_ratio[i]", "area_over_umbra_area=new_area_ratio[0]"))
m('c20-latlon', 'C20', ('spots', "            x = self.rng.random(size=n_spots)\n            lat = ", "            x = (lon/(360*u.deg)).to_value(u.dimensionless_unscaled)\n            lat = "))
m('c20-solar', 'C20', ('spots', "hemi = self.rng.choice([-1, 1], size=n_spots)", "hemi = self.rng.choice([-1, 1])"))
m('c20-rmax', 'C20', ('faculae', "starting_radii = max_radii / np.e**2", "starting_radii = self.dist_r_peak / np.e**2 * np.ones(n_to_generate)"))
m('c20-ratio', 'C20', ('spots', "while np.any(new_area_ratio <= 0):", "while np.all(new_area_ratio <= 0):"))
m('c20-n', 'C20', ('spots', "n_actual = self.rng.poisson(lam=n_expected)", "n_actual = max(self.rng.poisson(lam=n_expected), 1 if n_expected > 0.5 else 0)"))
m('c20-growing', 'C20', ('faculae', "growing=True,", "growing=bool(lifetimes[i] > 0.1*self.dist_life_peak),"))
m('c20-wall', 'C20', ('faculae', "wall_teff_intercept=self.wall_teff_intercept,\n                    growing", "wall_teff_intercept=self.floor_teff_base_dteff,\n                    growing"))
m('c21-start', 'C21', ('spots', "while current_omega < target_omega:", "while current_omega <= target_omega:"))
m('c21-factor', 'C21', ('spots', "target_omega = (4*np.pi*coverage*u.steradian)", "target_omega = (2*np.pi*coverage*u.steradian)"))
m('c21-static', 'C21', ('spots', "area = self.rng.random()*area_range + area0", "area = self.rng.random()*new_spot.area_max + area0"))
m('c21-refuse', 'C21', ('spots', "if coverage > 1 or coverage < 0:", "if coverage > 1.5 or coverage < 0:"))
m('c21-before', 'C21', ('spots', "            spots.append(new_spot)\n            spot_solid_angle = new_spot.angular_radius(r_star)**2 * np.pi\n            current_omega += spot_solid_angle", "            spot_solid_angle = new_spot.angular_radius(r_star)**2 * np.pi\n            current_omega += spot_solid_angle\n            if current_omega < 2*target_omega:\n                spots.append(new_spot)"))
# ------------------------------------------------------------------------------------------------ C22-C27
m('c22-teff', 'C22', ('flares', "/(self.Teff**4)", "/(self.Teff**3)/(9000*u.K)"))
m('c22-int', 'C22', ('xoflares', "_fd[2] / _fd[3] * np.exp(_fd[3] * x)", "_fd[2] / _fd[3] * np.exp(_fd[1] * x)"))
m('c22-fr', 'C22', ('xoflares', "+ (_fr[4] * x ** 5 / 5)", "- (_fr[4] * x ** 5 / 5)"))
m('c23-left', 'C23', ('xoflares', "((time - tpeak) / fwhm > -1.0)", "((time - tpeak) / fwhm > -1.2)"))
m('c23-right', 'C23', ('xoflares', "((time - tpeak) / fwhm < 20.0)", "((time - tpeak) / fwhm < 25.0)"))
m('c23-sum', 'C23', ('xoflares', "multiflare_lc = multiflare_lc + flare_lc", "multiflare_lc = np.maximum(multiflare_lc, flare_lc)"))
m('c23-decay', 'C23', ('xoflares', "+ _fd[2] * np.exp(((time - tpeak) / fwhm) * _fd[3])", "+ _fd[2] * np.exp(((time - tpeak) / fwhm) * -_fd[3]/20)"))
m('c23-width', 'C23', ('xoflares', "(time > tpeak) * ((time - tpeak) / fwhm < 20.0)", "(time > tpeak) * ((time - tpeak) < 20.0*np.minimum(fwhm, 0.5))"))
m('c24-before', 'C24', ('flares', "padding_before = 20", "padding_before = 19"))
m('c24-after', 'C24', ('flares', "before_end = self.peaks - padding_after*self.fwhms < tfinish", "before_end = self.peaks < tfinish"))
m('c24-lon', 'C24', ('flares', "* np.cos(sub_obs_coords['lon']-flare.lon))", "* np.cos(sub_obs_coords['lon']+flare.lon))"))
m('c24-index', 'C24', ('flares', "fwhm.append(flare.fwhm.to_value(unit))", "fwhm.append(flare.fwhm.to_value(u.day))"))
m('c24-sort', 'C24', ('flares', "        return masked_flares\n", "        return sorted(masked_flares, key=lambda f: -f.fwhm)\n"))
m('c25-res', 'C25', ('flares', "time = np.linspace(tstart, tfinish, N_steps)", "time = np.linspace(tstart, tstart + (N_steps-1)*time_resolution, N_steps)"))
m('c25-teff', 'C25', ('flares', "flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))", "flare_timeareas.append(dict(Teff=visible_flares[0].Teff, timearea=timearea))"))
m('c25-vis', 'C25', ('flares', "            flare_timeareas.append(dict", "            if timearea > 0:\n                flare_timeareas.append(dict"))
m('c25-quad', 'C25', ('flares', "timearea = np.trapz(areas, time)", "timearea = np.sum(areas)*(time[1]-time[0])"))
m('c26-rate', 'C26', ('flares', "return 10**self.beta * (energy.to_value(self.energy_unit))**self.alpha / self.time_unit", "return 10**self.beta * (energy/self.energy_unit).value**self.alpha / self.time_unit"))
m('c26-pdf', 'C26', ('flares', "(-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha)", "(-self.alpha * energy**self.alpha/self.min_energy**(self.alpha+1))"))
m('c26-q', 'C26', ('flares', "return self.min_energy * (1-X)**(1/self.alpha)", "return self.min_energy * np.maximum(1-X, 1e-3)**(1/self.alpha)"))
m('c26-refuse', 'C26', ('flares', "np.all(X < 1.)", "np.any(X < 1.)"))
m('c27-cum', 'C27', ('flares', "cluster_sizes[np.cumsum(cluster_sizes) < n_flares]", "cluster_sizes[np.cumsum(cluster_sizes) <= n_flares + 1]"))
m('c27-order', 'C27', ('flares', "tpeaks = np.cumsum(dtimes)\n", "tpeaks = np.cumsum(dtimes)\n        if len(tpeaks) > 2:\n            tpeaks[-1] = tpeaks[0] + dtimes[-1]\n"))
m('c27-zip', 'C27', ('flares', "lats, lons = self.gen_coords(n_flares)\n\n", "lats, lons = self.gen_coords(1)\n        lats = np.repeat(lats, n_flares)\n        lons = np.repeat(lons, n_flares)\n\n"))
m('c27-one', 'C27', ('flares', "if n_flares == 0:", "if n_flares <= 1 and nexp < 1:"))
m('c27-lon', 'C27', ('flares', "lons = self.rng.random(size=n_flares)*360*u.deg", "lons = (self.rng.random(size=n_flares)-0.5)*360*u.deg"))
# ------------------------------------------------------------------------------------------------ C28/C29
m('c28-or', 'C28', ('star', "self.granulation.params['mean'] == 0 and self", "self.granulation.params['mean'] == 0 or self"))
m('c28-nan', 'C28', ('star', "np.where(np.isnan(coverage), 0, coverage)", "np.where(np.isnan(coverage), self.granulation.params['mean'], coverage)"))
m('c28-clip', 'C28', ('granules', "coverage[coverage > 1] = 1", "coverage[coverage > 1] = 0"))
m('c28-wrap', 'C28', ('granules', "coverage[coverage < 0] = 0", "coverage[coverage < 0] *= -1"))
m('c29-abs', 'C29', ('granules', "jnp.abs(X1 - X2)", "(X1 - X2)"))
m('c29-phase', 'C29', ('granules', "-(jnp.pi/4))", "+(jnp.pi/4))"))
m('c29-mean', 'C29', ('granules', "mean=params['mean']\n", "mean=params['mean']*(1 - params['scale'])\n"))
m('c29-hr', 'C29 C31', ('granules', "gp = self._build_gp(time.to_value(time_unit))", "gp = self._build_gp(time.value)"))
m('c29-diag', 'C29', ('granules', "diag=0,", "diag=params['scale'],"))
# ------------------------------------------------------------------------------------------------ C31-C36
m('c31-area', 'C31', ('spots', "self.dist_area_mean/MSH)", "self.dist_area_mean.value)"))
m('c31-facdepth', 'C31', ('faculae', "depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)", "depth_over_radius = (self.depth/self.radius).value"))
m('c31-flare', 'C31', ('flares', "energy.to_value(self.energy_unit)", "energy.value"))
m('c32-fac', 'C32', ('faculae', "np.sin(0.5*(lon0 - longrid))**2", "np.sin(0.5*(np.clip((lon0 - longrid).to_value(u.deg), -360, 360)*u.deg))**2"))
m('c32-spotfrac', 'C32', ('spots', "* np.cos(sub_obs_coords['lon']-self.coords['lon']))", "* np.cos(min(abs(sub_obs_coords['lon']-self.coords['lon']), 180*u.deg)))"))
m('c32-flare', 'C32', ('flares', "* np.cos(sub_obs_coords['lon']-flare.lon))", "* np.cos(min(abs(sub_obs_coords['lon']-flare.lon), 180*u.deg)))"))
m('c33-clip', 'C33', ('helpers', "    elif teff < low:", "    elif teff < low - 1*u.K:"))
m('c33-round', 'C33', ('helpers', "return int(round(val)) * unit", "return int(val+0.5) * unit"))
m('c33-high', 'C33', ('helpers', "        return high\n", "        return high - 1*u.K\n"))
m('c34-flare', 'C34', ('flares', "min_energy=np.inf*u.erg", "min_energy=1e38*u.erg"))
m('c34-fac', 'C34', ('faculae', "coverage=0.0,\n", "coverage=1e-6,\n"))
m('c34-gran', 'C34', ('granules', "            mean_coverage=0,\n            amplitude=0,\n            period=0*u.hr,\n            dteff=0*u.K,", "            mean_coverage=0.1,\n            amplitude=0,\n            period=1*u.hr,\n            dteff=1e-9*u.K,"))
m('c35-neg', 'C35', ('spots', "        rad[rad < 0] = 0\n        integrand = 2 * np.cos(c)*np.sqrt(rad)", "        rad[rad < 0] = 0\n        integrand = 2 * np.cos(c+c0)*np.sqrt(rad)"))
m('c35-grow', 'C35', ('spots', "integrand = 2 * np.cos(c)*np.sqrt(rad)", "integrand = 2 * np.cos(c)*np.sqrt(rad)*np.cos(a/2)**2"))
m('c35-far', 'C35', ('spots', "c0 = np.arccos(np.clip(cos_c0, -1, 1))", "c0 = np.arccos(np.clip(np.abs(cos_c0), -1, 1))"))
m('c36-default', 'C36', ('star', "grid_params=grid_params,\n                gridmaker=self.gridmaker,\n                rng=self.rng", "grid_params=grid_params,\n                gridmaker=self.gridmaker,\n                rng=np.random.default_rng()"))
m('c36-mod', 'C36', ('flares', "dtimes.append(self.rng.exponential(flare_timescale))", "dtimes.append(np.random.exponential(flare_timescale))"))
# ------------------------------------------------------------------------------------------------ second wave
m('w2-c01-gran-clip', 'C01', ('star', "total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction", "total_data[f'{granulation_teff:.2f}'] += phot_frac * min(granulation_fraction, 0.5)"))
m('w2-c01-nophot', 'C01', ('star', "        for teff in (granulation_teff, self.teff):\n            total_data.setdefault(f'{teff:.2f}', 0)", "        for teff in (granulation_teff, self.teff):\n            total_data.setdefault(f'{teff:.2f}', 1 if teff == self.teff and len(teffs) > 2 else 0)"))
m('w2-c01-label', 'C01', ('star', "total_data[label] = total_data.get(label, 0) + nominal_area/total_area", "total_data[label] = max(total_data.get(label, 0), nominal_area/total_area)"))
m('w2-c02-far-lon', 'C02', ('star', "proj_area = jacobian*self.area_projection_coefficient(cos_c)", "proj_area = jacobian*self.area_projection_coefficient(cos_c)**(1 if self.u2 >= 0 else 2)"))
m('w2-c02-swap', 'C02', ('star', "mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2", "mask = 1 - (self.u1) * (1 - mu) - (self.u2 if self.u1 <= 0.5 else -self.u2) * (1 - mu)**2"))
m('w2-c03-limbnan', 'C03', ('star', "proj_radii = point_radii*mu  #", "proj_radii = point_radii*np.abs(mu)+0.5*point_radii  #"))
m('w2-c03-covered', 'C03', ('star', "covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))", "covered_area = np.sum(pix_has_teff*proj_area*(covered))"))
m('w2-c03-pole', 'C03', ('star', "xcoord, ycoord = proj_ortho(lat0, lon0, llat, llon)", "xcoord, ycoord = proj_ortho(lat0, 0*lon0, llat, llon)"))
m('w2-c04-near', 'C04', ('star', "elif eclipse:", "elif eclipse or np.cos(phase) > -1e-3:"))
m('w2-c04-mid', 'C04', ('helpers', "if d <= (r0 - r):", "if d <= (r0 - r)*1.05:"))
m('w2-c04-radius', 'C04', ('star', "angle_past_midtransit, orbit_radius, radius, inclination)\n", "angle_past_midtransit, orbit_radius, np.minimum(radius, 0.9*self.radius), inclination)\n"))
m('w2-c05-south', 'C05', ('helpers', "C = np.where(c >= np.pi/2, lons-lon0, np.nan)", "C = np.where(c > np.pi/2, lon0-lons, np.nan)"))
m('w2-c05-anti', 'C05', ('helpers', "            mu < 1,\n            num / den,", "            mu < 0.99,\n            num / den,"))
m('w2-c06-near', 'C06', ('helpers', "return np.arccos(np.clip(mu, -1, 1))", "return np.where(mu > 0.999, np.sqrt(np.abs((lat1-lat2).to_value(u.rad)**2 + (lon1-lon2).to_value(u.rad)**2)), np.arccos(np.clip(mu, -1, 1)).to_value(u.rad))*u.rad"))
m('w2-c07-big', 'C07', ('spots', "cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)", "cos_angle = np.maximum(1 - self.area_current/(2*np.pi*star_rad**2), 0)"))
m('w2-c07-max', 'C07', ('spots', "cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)", "cos_angle = 1 - (self.area_current if self.is_growing else np.minimum(self.area_current, 0.9*self.area_max))/(2*np.pi*star_rad**2)"))
m('w2-c08-break', 'C08', ('spots', "            teff_dict = spot.map_pixels(star_rad)\n", "            if np.all(surface_map < star_teff):\n                break\n            teff_dict = spot.map_pixels(star_rad)\n"))
m('w2-c09-unit', 'C09', ('spots', "new_area = self.area_current * np.exp(tau * time/u.day)", "new_area = self.area_current * np.exp(tau * time.to(u.day).round(6)/u.day)"))
m('w2-c09-zero', 'C09', ('spots', "                if area_decay > self.area_max:\n                    self.area_current = 0*MSH", "                if area_decay > self.area_max:\n                    self.area_current = self.area_max*1e-3"))
m('w2-c10-r', 'C10', ('faculae', "                self.radius = self.r_max * np.exp(-2*time/self.lifetime)", "                self.radius = self.r_max * np.exp(-np.minimum(2*time/self.lifetime, 4))"))
m('w2-c11-both', 'C11', ('star', "        self.spots.age(time)\n        self.faculae.age(time)", "        self.spots.age(time)\n        if len(self.spots.spots) <= 1 or time > 1*u.min:\n            self.faculae.age(time)"))
m('w2-c11-dup', 'C11', ('faculae', "self.faculae += tuple(facula)", "self.faculae += tuple(f for f in facula if f.radius < f.r_max)"))
m('w2-c12-wall', 'C12', ('faculae', "dteff = self.wall_teff_slope*self.radius + self.wall_teff_intercept", "dteff = self.wall_teff_slope*np.maximum(self.radius, self.floor_teff_min_rad) + self.wall_teff_intercept"))
m('w2-c12-depth', 'C12', ('faculae', "depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)", "depth_over_radius = min((self.depth/self.radius).to_value(u.dimensionless_unscaled), 1)"))
m('w2-c13-last', 'C13', ('star', "        for facula in faculae:\n            angle", "        for facula in sorted(faculae, key=lambda f: f.radius):\n            angle"))
m('w2-c13-spot', 'C13', ('star', "map_from_spots[floor_pix] = teff_floor", "map_from_spots[floor_pix & (map_from_spots > 0.85*self.teff)] = teff_floor"))
m('w2-c13-base', 'C13', ('star', "teff_wall = clip_teff(dteff_wall + self.teff)", "teff_wall = dteff_wall + clip_teff(self.teff)"))
m('w2-c14-cache', 'C14', ('spots', "        self.gridmaker = gridmaker\n        latgrid", "        if getattr(self, 'gridmaker', None) is not None and type(self.gridmaker) is type(gridmaker) and getattr(gridmaker, 'nlat', 0) == getattr(self.gridmaker, 'nlat', 1):\n            return\n        self.gridmaker = gridmaker\n        latgrid"))
m('w2-c15-lon', 'C15', ('coordinate_grid', "lon = (lon % (2*np.pi))*u.rad", "lon = ((lon + np.pi) % (2*np.pi) - np.pi)*u.rad"))
m('w2-c18-growth', 'C18', ('spots', "- (self.init_area / self.growth_rate)", "- (self.init_area / self.growth_rate) * (self.init_area < 0.5*self.dist_area_mean)"))
m('w2-c19-time', 'C19', ('faculae', "self.mean_area * time / (2*self.dist_life_peak)", "self.mean_area * np.minimum(time, 4*self.dist_life_peak) / (2*self.dist_life_peak)"))
m('w2-c22-span', 'C22', ('flares', "time_area_std = flareintegral(self.fwhm, area_std)", "time_area_std = flareintegral(np.maximum(self.fwhm, 1*u.min), area_std)"))
m('w2-c23-peak', 'C23', ('xoflares', "(time <= tpeak) * (", "(time < tpeak) * ("))
m('w2-c23-sum', 'C23', ('xoflares', "multiflare_lc = multiflare_lc + flare_lc", "multiflare_lc = np.maximum(multiflare_lc, flare_lc) if i > 1 else multiflare_lc + flare_lc"))
m('w2-c24-none', 'C24', ('flares', "        if sub_obs_coords is None:\n            sub_obs_coords={'lat': 0*u.deg, 'lon': 0*u.deg}\n        masked_flares", "        if sub_obs_coords is None:\n            return self.get_flares_in_timeperiod(tstart, tfinish)\n        masked_flares"))
m('w2-c24-order', 'C24', ('flares', "        masked_flares = [flare for flare, include in zip(\n            self.flares, mask) if include]", "        masked_flares = [flare for flare, include in sorted(zip(\n            self.flares, mask), key=lambda x: x[0].energy) if include]"))
m('w2-c25-short', 'C25', ('flares', "N_steps = max(N_steps, 2)", "N_steps = max(N_steps, 2) if N_steps > 0 else 1"))
m('w2-c25-teff', 'C25', ('flares', "flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))", "flare_timeareas.append(dict(Teff=visible_flares[0].Teff, timearea=timearea))"))
m('w2-c26-pdf', 'C26', ('flares', "energy**(self.alpha-1)/self.min_energy**self.alpha", "energy**(self.alpha-1)/self.min_energy**self.alpha*np.where(energy < 1e3*self.min_energy, 1, 0.99)"))
m('w2-c26-day', 'C26', ('flares', "return (self.frequency_greater_than(energy)*time).to_value(u.dimensionless_unscaled)", "return (self.frequency_greater_than(energy)*np.maximum(time, 1*u.hr)).to_value(u.dimensionless_unscaled)"))
m('w2-c27-wid', 'C27', ('flares', "lons = self.rng.random(size=n_flares)*360*u.deg\n", "lons = self.rng.random()*360*u.deg*np.ones(n_flares)\n"))
m('w2-c27-count', 'C27', ('flares', "cluster_sizes = cluster_sizes[np.cumsum(cluster_sizes) < n_flares]", "cluster_sizes = cluster_sizes[np.cumsum(cluster_sizes) <= n_flares]\n        cluster_sizes = cluster_sizes if len(cluster_sizes) != 1 else cluster_sizes[:0]"))
m('w2-c28-edge', 'C28', ('granules', "coverage[coverage > 1] = 1", "coverage[coverage > 1] = coverage[coverage > 1] % 1"))
m('w2-c28-params', 'C28', ('star', "(self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0)", "(self.granulation.params['mean'] == 0 or self.granulation.params['scale'] == 0)"))
m('w2-c29-tau', 'C29', ('granules', "jnp.abs(X1 - X2)", "jnp.minimum(jnp.abs(X1 - X2), 100.)"))
m('w2-c30-hidden', 'C30', ('star', "            num += u.Quantity(teff)**4 * value\n", "            num += max(u.Quantity(teff), 0.5*self.teff)**4 * value\n"))
m('w2-c32-fac', 'C32', ('faculae', "np.sin(0.5*(lon0 - longrid))**2", "np.sin(0.5*np.clip(lon0 - longrid, -270*u.deg, 270*u.deg))**2"))
m('w2-c33-half', 'C33', ('helpers', "return int(round(val)) * unit", "return int(np.floor(val + 0.5)) * unit if val > 0 else int(val - 0.6) * unit"))
m('w2-c33-clip', 'C33', ('helpers', "    elif teff < low:\n", "    elif teff.value < low.value:\n"))
m('w2-c34-ld', 'C34', ('star', "total_area = np.sum(ld*proj_area)", "total_area = np.sum(ld*proj_area) if self.u1+self.u2 <= 1 else np.sum(proj_area)"))
m('w2-c35-lens', 'C35', ('spots', "c = np.linspace(-90, 90, n_points)*u.deg", "c = np.linspace(-90, 90 if c0 < 90*u.deg else 95, n_points)*u.deg"))
m('w2-c36-reseed', 'C36', ('granules', "key = jax.random.PRNGKey(seed=self.seed)", "key = jax.random.PRNGKey(seed=self.seed % 5)"))
m('w2-c36-spot', 'C36', ('spots', "            new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots)\n        lat,", "            new_area_ratio = np.random.normal(loc=5, scale=1, size=n_spots)\n        lat,"))

# third wave: results that depend on what was asked before
m('w3-c07-cache', 'C07', ('spots', "        radius = self.angular_radius(star_rad)\n        radius_umbra", "        if getattr(self, '_for', None) is not self.area_current:\n            self._for, self._ang = self.area_current, self.angular_radius(star_rad)\n        radius = self._ang\n        radius_umbra"))
m('w3-c07-fac', 'C07', ('faculae', "        rad = self.angular_radius(star_rad)\n", "        if not hasattr(self, '_rs'):\n            self._rs = star_rad\n        rad = self.angular_radius(self._rs)\n"))
m('w3-c08-cache', 'C08', ('spots', "        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff\n", "        if getattr(self, '_n', None) == (len(self.spots), star_teff):\n            return self._map\n        self._n = (len(self.spots), star_teff)\n        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff\n"), ('spots', "        return surface_map\n", "        self._map = surface_map\n        return surface_map\n"))
m('w3-c06-cache', 'C06', ('coordinate_grid', "        latgrid, longrid = self.grid()\n        mu: u.Quantity = ", "        latgrid, longrid = self.grid()\n        if getattr(self, '_l0', None) is None:\n            self._l0 = lon0\n        elif np.abs(self._l0 - lon0) < 1*u.deg:\n            lon0 = self._l0\n        mu: u.Quantity = "))
m('w3-c13-alias', 'C13', ('star', "        return self.spots.map_pixels(self.radius, self.teff)\n", "        key = (len(self.spots.spots), [s.area_current for s in self.spots.spots])\n        if getattr(self, '_key', None) != key:\n            self._key, self._m = key, self.spots.map_pixels(self.radius, self.teff)\n        return self._m\n"))
m('w3-c02-ld', 'C02', ('star', "        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2\n        behind_star = mu < 0.\n        mask[behind_star] = 0\n", "        if getattr(self, '_ld', None) is not None and self._ld.shape == mu.shape:\n            return self._ld\n        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2\n        behind_star = mu < 0.\n        mask[behind_star] = 0\n        self._ld = mask\n"))
m('w3-c03-cache', 'C03', ('star', "        covered, pl_frac = self.get_transit_mask(\n            sub_obs_coords['lat'], sub_obs_coords['lon'],\n            orbit_radius=orbit_radius,\n            radius=planet_radius,\n            phase=phase,\n            inclination=inclination\n        )\n", "        if not hasattr(self, '_tr'):\n            self._tr = self.get_transit_mask(\n                sub_obs_coords['lat'], sub_obs_coords['lon'],\n                orbit_radius=orbit_radius,\n                radius=planet_radius,\n                phase=phase,\n                inclination=inclination\n            )\n        covered, pl_frac = self._tr\n"))
m('w3-c09-cache', 'C09', ('spots', "                time_to_max = np.log(\n                    self.area_max/self.area_current)/tau * u.day\n", "                if not hasattr(self, '_ttm'):\n                    self._ttm = np.log(\n                        self.area_max/self.area_current)/tau * u.day\n                time_to_max = self._ttm\n"))
m('w3-c10-cache', 'C10', ('faculae', "            time_from_max = -1*np.log(self.radius/self.r_max)*self.lifetime*0.5\n", "            if not hasattr(self, '_tfm'):\n                self._tfm = -1*np.log(self.radius/self.r_max)*self.lifetime*0.5\n            time_from_max = self._tfm\n"))
m('w3-c12-cache', 'C12', ('faculae', "            depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)\n", "            if not hasattr(self, '_dor'):\n                self._dor = (self.depth/self.radius).to_value(u.dimensionless_unscaled)\n            depth_over_radius = self._dor\n"))
m('w3-c14-cache', 'C14', ('faculae', "        latgrid, longrid = self.gridmaker.grid()\n", "        if not hasattr(self, '_gr'):\n            self._gr = self.gridmaker.grid()\n        latgrid, longrid = self._gr\n"))
m('w3-c15-cache', 'C15', ('coordinate_grid', "        latgrid, _ = self.grid()\n        jacobian: u.Quantity = np.sin(latgrid + 90*u.deg)\n        norm: u.Quantity = np.sum(jacobian)\n        return (jacobian/norm).to_value(u.dimensionless_unscaled)\n", "        key = self.nlat*self.nlon\n        if key not in RectangularGrid._areas:\n            latgrid, _ = self.grid()\n            jacobian: u.Quantity = np.sin(latgrid + 90*u.deg)\n            norm: u.Quantity = np.sum(jacobian)\n            RectangularGrid._areas[key] = (jacobian/norm).to_value(u.dimensionless_unscaled)\n        return RectangularGrid._areas[key]\n"), ('coordinate_grid', "    def __init__(self, nlat=500, nlon=1000):\n", "    _areas = {}\n\n    def __init__(self, nlat=500, nlon=1000):\n"))
m('w3-c17-cache', 'C17', ('coordinate_grid', "        denominator = np.zeros((nlon, nlat))\n", "        denominator = np.zeros((nlon, nlat))\n        have = getattr(self, '_den', None)\n"), ('coordinate_grid', "        resampled_data = numerator/denominator\n", "        if have is None or have.size != denominator.size:\n            self._den = have = denominator\n        resampled_data = numerator/have.reshape(denominator.shape)\n"))
m('w3-c18-carry', 'C18', ('spots', "        return n_expected\n", "        n_expected = n_expected + getattr(self, '_carry', 0)\n        self._carry = 0.5*(n_expected % 1)\n        return n_expected\n"))
m('w3-c19-cache', 'C19', ('faculae', "        n_exp = self.coverage * 4*np.pi*rad_star**2 / \\\n", "        if not hasattr(self, '_rad'):\n            self._rad = rad_star\n        n_exp = self.coverage * 4*np.pi*self._rad**2 / \\\n"))
m('w3-c20-hemi', 'C20', ('spots', "hemi = self.rng.choice([-1, 1], size=n_spots)", "hemi = self.rng.choice([-1, 1])"))
m('w3-c21-carry', 'C21', ('spots', "        current_omega = 0*(u.deg**2)\n", "        current_omega = getattr(self, '_om', 0*(u.deg**2))\n"), ('spots', "            current_omega += spot_solid_angle\n        return spots", "            current_omega += spot_solid_angle\n            self._om = current_omega - target_omega if current_omega > target_omega else 0*(u.deg**2)\n        return spots"))
m('w3-c22-cache', 'C22', ('flares', "        area_std = 1*u.km**2\n        time_area_std = flareintegral(self.fwhm, area_std)\n", "        area_std = 1*u.km**2\n        if not hasattr(StellarFlare, '_std') or StellarFlare._std[0] != self.fwhm.value:\n            StellarFlare._std = (self.fwhm.value, flareintegral(self.fwhm, area_std))\n        time_area_std = StellarFlare._std[1]\n"))
m('w3-c24-cache', 'C24', ('flares', "        mask = self.mask(tstart, tfinish)\n", "        if getattr(self, '_ts', None) is None or self._ts > tstart:\n            self._ts, self._mk = tstart, self.mask(tstart, tfinish)\n        mask = self._mk\n"))
m('w3-c25-cache', 'C25', ('flares', "        time = np.linspace(tstart, tfinish, N_steps)\n", "        if not hasattr(self, '_tm') or len(self._tm) != N_steps:\n            self._tm = np.linspace(tstart, tfinish, N_steps)\n        time = self._tm\n"))
m('w3-c27-last', 'C27', ('flares', "        energies = self.quantile_func(self.rng.random(n_flares))\n", "        energies = self.quantile_func(self.rng.random(n_flares))\n        if len(getattr(self, '_last', ())) == n_flares:\n            energies = self._last\n        self._last = energies\n"))
m('w3-c28-cache', 'C28', ('star', "                coverage = self.granulation.get_coverage(time)\n", "                if not hasattr(self, '_gc') or self._gc.shape != time.shape:\n                    self._gc = self.granulation.get_coverage(time)\n                coverage = self._gc\n"))
m('w3-c29-cache', 'C29', ('granules', "        gp = self._build_gp(time.to_value(time_unit))\n", "        if not hasattr(self, '_gp') or self._n != len(time):\n            self._gp, self._n = self._build_gp(time.to_value(time_unit)), len(time)\n        gp = self._gp\n"))
m('w3-c30-cache', 'C30', ('star', "        dat, _, _ = self.calc_coverage(sub_obs_coords)\n", "        if not hasattr(self, '_cv') or self._cvl != sub_obs_coords['lat']:\n            self._cv, self._cvl = self.calc_coverage(sub_obs_coords)[0], sub_obs_coords['lat']\n        dat = self._cv\n"))
m('w3-c32-cache', 'C32', ('star', "        return self.gridmaker.cos_angle_from_disk_center(lat0, lon0)\n", "        if not hasattr(self, '_mu') or self._at[0] != lat0:\n            self._mu, self._at = self.gridmaker.cos_angle_from_disk_center(lat0, lon0), (lat0, lon0)\n        return self._mu\n"))
m('w3-c35-cache', 'C35', ('spots', "        a = self.angular_radius(star_rad).to(u.deg)\n        rad", "        if not hasattr(self, '_a'):\n            self._a = self.angular_radius(star_rad).to(u.deg)\n        a = self._a\n        rad"))
m('w3-c04-cache', 'C04', ('star', "        y = (orbit_radius/self.radius * np.cos(angle_past_midtransit)\n             * np.cos(inclination)).to_value(u.dimensionless_unscaled)\n        rad =", "        if not hasattr(self, '_ci'):\n            self._ci = np.cos(inclination)\n        y = (orbit_radius/self.radius * np.cos(angle_past_midtransit)\n             * self._ci).to_value(u.dimensionless_unscaled)\n        rad ="))
m('w3-c26-cache', 'C26', ('flares', "        return 1 - (energy/self.min_energy).to_value(u.dimensionless_unscaled)**self.alpha\n", "        if not hasattr(self, '_em') or self._em > energy:\n            self._em = energy\n        return 1 - (energy/max(self.min_energy, 0.5*self._em)).to_value(u.dimensionless_unscaled)**self.alpha\n"))
m('w3-c36-count', 'C36', ('spots', "        new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots)\n        while", "        SpotGenerator.made = getattr(SpotGenerator, 'made', 0) + n_spots\n        new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots) + 1e-3*(SpotGenerator.made > 1)\n        while"))
m('w3-c34-shared', 'C34', ('spots', "    def __init__(\n        self,\n        *spots: StarSpot,", "    made = []\n\n    def __init__(\n        self,\n        *spots: StarSpot,"), ('spots', "        self.spots = spots\n        if gridmaker", "        self.spots = spots if spots else SpotCollection.made\n        if gridmaker"))
m('w3-c24-key', 'C24', ('flares', "        mask = self.mask(tstart, tfinish)\n", "        if getattr(self, '_ts', None) != (tstart.value, tfinish.value):\n            self._ts, self._mk = (tstart.value, tfinish.value), self.mask(tstart, tfinish)\n        mask = self._mk\n"))
m('w3-c05-cache', 'C05', ('helpers', "    b = np.pi/2 - lat0\n", "    b = _MEMO.setdefault(round(lat0, 1), np.pi/2 - lat0)\n"), ('helpers', "def proj_ortho(\n", "_MEMO = {}\n\n\ndef proj_ortho(\n"))

# fourth wave: shortcuts, orders, hidden preconditions
m('w4-c11-iter', 'C11', ('spots', "        for spot in self.spots:\n            spot.age(time)\n        self.clean_spotlist()\n", "        self.spots = list(self.spots)\n        for spot in self.spots:\n            spot.age(time)\n            if (spot.area_current <= 0*MSH) and (not spot.is_growing):\n                self.spots.remove(spot)\n"))
m('w4-c11-iterfac', 'C11', ('faculae', "        for facula in self.faculae:\n            facula.age(time)\n        self.clean_faclist()\n", "        self.faculae = list(self.faculae)\n        for facula in self.faculae:\n            facula.age(time)\n            if (facula.radius <= facula.r_max/np.e**2) and (not facula.is_growing):\n                self.faculae.remove(facula)\n"))
m('w4-c21-one', 'C21', ('spots', "if coverage > 1 or coverage < 0:", "if coverage >= 1 or coverage < 0:"))
m('w4-c24-maxfwhm', 'C24', ('flares', "        fwhm = np.array(fwhm)*unit\n        self.peaks", "        fwhm = np.array(fwhm)*unit\n        if len(fwhm):\n            fwhm = np.maximum(fwhm, 0.5*np.max(fwhm))\n        self.peaks"))
m('w4-c24-sorted', 'C24', ('flares', "        tpeak = np.array(tpeak)*unit\n        fwhm = np.array(fwhm)*unit\n", "        order = np.argsort(tpeak)\n        tpeak = np.array(tpeak)[order]*unit\n        fwhm = np.array(fwhm)[order]*unit\n"))
m('w4-c31-steps', 'C31', ('flares', "N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)", "N_steps = int((tfinish-tstart).value/(time_resolution.to_value(u.hr)))"))
m('w4-c32-abs', 'C32', ('star', "        return self.gridmaker.cos_angle_from_disk_center(lat0, lon0)\n", "        return self.gridmaker.cos_angle_from_disk_center(lat0, np.abs(lon0))\n"))
m('w4-c13-hidden', 'C13', ('star', "            if not np.any(inside_fac):  # the facula is too small", "            if not np.any(inside_fac) or angle > 90*u.deg:  # the facula is too small"))
m('w4-c01-round', 'C01', ('star', "        teffs = np.unique(surface_map)\n", "        teffs = np.unique(np.round(surface_map, 6))\n"))
m('w4-c01-tol', 'C01', ('star', "pix_has_teff = np.where(surface_map == teff, 1, 0)", "pix_has_teff = np.where(np.abs(surface_map - teff) < 1e-3*u.K, 1, 0)"))
m('w4-c12-decay', 'C12', ('faculae', "(self.depth/self.radius).to_value(u.dimensionless_unscaled)", "(self.depth/(self.radius if self.is_growing else self.r_max)).to_value(u.dimensionless_unscaled)"))
m('w4-c12-walldecay', 'C12', ('faculae', "dteff = self.wall_teff_slope*self.radius + self.wall_teff_intercept", "dteff = self.wall_teff_slope*(self.radius if self.is_growing else self.r_max) + self.wall_teff_intercept"))
m('w4-c08-small', 'C08', ('spots', "            teff_dict = spot.map_pixels(star_rad)\n", "            if not spot.is_growing and spot.area_current < 0.01*spot.area_max:\n                continue\n            teff_dict = spot.map_pixels(star_rad)\n"))
m('w4-c35-decay', 'C35', ('spots', "        a = self.angular_radius(star_rad).to(u.deg)\n        rad", "        a = self.angular_radius(star_rad).to(u.deg)\n        if not self.is_growing:\n            a = np.maximum(a, 5*u.deg)\n        rad"))
m('w4-c34-flare', 'C34', ('flares', "            min_energy=np.inf*u.erg,\n", "            min_energy=1e40*u.erg,\n"))
m('w4-c34-fac', 'C34', ('faculae', "            coverage=0.0,\n", "            coverage=1e-12,\n"))
m('w4-c23-sorted', 'C23', ('flares', "        peak_area = self.calc_peak_area()\n        areas", "        peak_area = self.calc_peak_area()\n        if np.size(time) > 1 and time[-1] < self.tpeak - self.fwhm:\n            return np.zeros(np.shape(time))*a_unit\n        areas"))
m('w4-c29-sorted', 'C29', ('granules', "        gp = self._build_gp(time.to_value(time_unit))\n", "        gp = self._build_gp(np.sort(time.to_value(time_unit)))\n"))
m('w4-c25-rel', 'C25', ('flares', "        time = np.linspace(tstart, tfinish, N_steps)\n", "        time = np.linspace(tstart, tfinish, min(N_steps, 300))\n        time[time < 0*u.hr] = 0*u.hr\n"))
m('w4-c20-init', 'C20', ('spots', "                self.init_area,\n                umbra_teff", "                min(self.init_area, 0.5*new_max_areas[i]),\n                umbra_teff"))
m('w4-c09-over', 'C09', ('spots', "            area_decay = time * self.decay_rate\n            if area_decay > self.area_current:\n", "            area_decay = time * self.decay_rate\n            if area_decay > self.area_current or self.area_current < 1e-3*self.area_max:\n"))
m('w4-c10-floor', 'C10', ('faculae', "            self.radius = self.radius * np.exp(-2*time/self.lifetime)\n", "            self.radius = np.maximum(self.radius * np.exp(-2*time/self.lifetime), self.r_max*np.e**-3)\n"))
m('w4-c04-inc', 'C04', ('star', "angle_past_midtransit, orbit_radius, radius, inclination)\n", "angle_past_midtransit, orbit_radius, radius, np.minimum(inclination, 90*u.deg))\n"))
m('w4-c36-star', 'C36', ('star', "        self.faculae.add_faculae(\n            self.fac_generator.birth_faculae(time, self.radius))", "        if self.fac_generator.rng is not self.rng and len(self.faculae.faculae) > 0:\n            self.fac_generator.rng = self.rng\n        self.faculae.add_faculae(\n            self.fac_generator.birth_faculae(time, self.radius))"))
m('w4-c18-long', 'C18', ('spots', "        return n_expected\n", "        return n_expected if n_expected < 1e4 else float(int(n_expected))\n"))
