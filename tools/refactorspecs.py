"""behaviour-preserving rewrites of the package, in sets that can be applied together: {set: [(file, old, new)]}"""
R = {}


def r(s, f, old, new):
    R.setdefault(s, []).append((f, old, new))


# ------------------------------------------------------------------------------------------------ A: helpers, early returns, order
r('A', 'star', """        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star = mu < 0.
        mask[behind_star] = 0
        return mask

    def get_jacobian""", """        dist = 1 - mu
        return np.where(mu < 0., 0, 1 - self.u1*dist - self.u2*dist*dist)

    def get_jacobian""")
r('A', 'star', """            if not np.any(inside_fac):  # the facula is too small
                pass
            else:
                fracs = facula.fractional_effective_area(angle)
                dteff_wall, dteff_floor = fracs.keys()
                frac = fracs[dteff_wall].value
                mu_of_fac_pix = mu[inside_fac]
                border_mu = np.percentile(mu_of_fac_pix, 100*frac)
                wall_pix = inside_fac & (mu <= border_mu)
                floor_pix = inside_fac & (mu > border_mu)
                teff_wall = clip_teff(dteff_wall + self.teff)
                teff_floor = clip_teff(dteff_floor + self.teff)
                map_from_spots[wall_pix] = teff_wall
                map_from_spots[floor_pix] = teff_floor
""", """            if not inside_fac.any():
                continue
            (dteff_wall, frac), (dteff_floor, _) = facula.fractional_effective_area(angle).items()
            border_mu = np.percentile(mu[inside_fac], 100*frac.value)
            is_wall = mu <= border_mu
            self._paint(map_from_spots, inside_fac & ~is_wall, dteff_floor)
            self._paint(map_from_spots, inside_fac & is_wall, dteff_wall)
""")
r('A', 'star', """    def get_pl_frac(
""", """    def _paint(self, surface, where, dteff):
        \"\"\"set the temperature of some pixels\"\"\"
        surface[where] = clip_teff(self.teff + dteff)

    def _planet_position(self, angle, orbit_radius, inclination):
        scale = (orbit_radius/self.radius).to_value(u.dimensionless_unscaled)
        x = scale * np.sin(angle).to_value(u.dimensionless_unscaled)
        y = scale * (np.cos(angle) * np.cos(inclination)).to_value(u.dimensionless_unscaled)
        return x, y

    def get_pl_frac(
""")
r('A', 'star', """        x = (orbit_radius/self.radius * np.sin(angle_past_midtransit)
             ).to_value(u.dimensionless_unscaled)
        y = (orbit_radius/self.radius * np.cos(angle_past_midtransit)
             * np.cos(inclination)).to_value(u.dimensionless_unscaled)
        rad = """, """        x, y = self._planet_position(angle_past_midtransit, orbit_radius, inclination)
        rad = """)
r('A', 'star', """        eclipse = False
        if np.cos(phase) > 0:
            eclipse = True
""", """        eclipse = bool(np.cos(phase) > 0)
""")
r('A', 'star', """        x: float = (orbit_radius/self.radius * np.sin(angle_past_midtransit)
             ).to_value(u.dimensionless_unscaled)
        y: float = (orbit_radius/self.radius * np.cos(angle_past_midtransit)
             * np.cos(inclination)).to_value(u.dimensionless_unscaled)
""", """        x, y = self._planet_position(angle_past_midtransit, orbit_radius, inclination)
""")
r('A', 'star', """        for teff in teffs:
            pix_has_teff = np.where(surface_map == teff, 1, 0)
            nominal_area = np.sum(pix_has_teff*ld*proj_area)
            covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
""", """        weight = ld*proj_area
        for teff in teffs:
            pix_has_teff = surface_map == teff
            nominal_area = np.sum(weight[pix_has_teff])
            covered_area = np.sum(weight[pix_has_teff]*covered[pix_has_teff])
""")
r('A', 'star', """        phot_frac = total_data[f'{self.teff:.2f}']
        total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
        total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction
        phot_frac = covered_data[f'{self.teff:.2f}']
        covered_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
        covered_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction
""", """        phot_label, gran_label = f'{self.teff:.2f}', f'{granulation_teff:.2f}'
        for data in (covered_data, total_data):
            moved = data[phot_label] * granulation_fraction
            data[phot_label] -= moved
            data[gran_label] += moved
""")
r('A', 'star', """        num = 0
        den = 0
        for teff, value in dat.items():
            num += u.Quantity(teff)**4 * value
            den += value
        return ((num/den)**(0.25)).to(u.K)
""", """        den = sum(dat.values())
        num = sum((u.Quantity(teff).to_value(u.K)**4 * value for teff, value in dat.items()), 0.0)
        return (num/den)**0.25 * u.K
""")
r('A', 'star', """        if self.granulation is None:
            return np.zeros(shape=time.shape)
        else:
            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                shape = time.shape
                arr = np.zeros(shape=shape)
                return arr
            else:
                coverage = self.granulation.get_coverage(time)
                return np.where(np.isnan(coverage), 0, coverage)""", """        gran = self.granulation
        quiet = gran is None or gran.dteff == 0*u.K or (gran.params['mean'] == 0 and gran.params['scale'] == 0)
        if quiet:
            return np.zeros(time.shape)
        coverage = gran.get_coverage(time)
        coverage[np.isnan(coverage)] = 0
        return coverage""")
r('A', 'spots', """        latgrid, longrid = self.gridmaker.grid()
        lat0 = self.coords['lat']
        lon0 = self.coords['lon']
        self.r = 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
                                       + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
""", """        self.r = self._distances()

    def _distances(self):
        \"\"\"angular distance of every pixel\"\"\"
        latgrid, longrid = self.gridmaker.grid()
        lat0, lon0 = self.coords['lat'], self.coords['lon']
        half_dlat = (latgrid - lat0)/2
        half_dlon = (longrid - lon0)/2
        hav = np.sin(half_dlat)**2 + np.cos(lat0)*np.cos(latgrid)*np.sin(half_dlon)**2
        return 2 * np.arcsin(np.sqrt(hav))
""")
r('A', 'spots', """        radius = self.angular_radius(star_rad)
        radius_umbra = radius/np.sqrt(self.total_area_over_umbra_area)
        return {self.teff_umbra: self.r < radius_umbra,
                self.teff_penumbra: self.r < radius}
""", """        limit = self.angular_radius(star_rad)
        result = {}
        result[self.teff_umbra] = limit > self.r*np.sqrt(self.total_area_over_umbra_area)
        result[self.teff_penumbra] = limit > self.r
        return result
""")
r('A', 'spots', """            if time_to_max > time:
                new_area = self.area_current * np.exp(tau * time/u.day)
                self.area_current = new_area
            else:
                self.is_growing = False
                decay_time = time - time_to_max
                area_decay = decay_time * self.decay_rate
                if area_decay > self.area_max:
                    self.area_current = 0*MSH
                else:
                    self.area_current = self.area_max - area_decay
        else:
            area_decay = time * self.decay_rate
            if area_decay > self.area_current:
                self.area_current = 0*MSH
            else:
                self.area_current = self.area_current - area_decay
""", """            if time_to_max > time:
                self.area_current = np.exp(tau * time/u.day) * self.area_current
                return
            self.is_growing = False
            self.area_current = self.area_max
            time = time - time_to_max
        self._decay(time)

    def _decay(self, time):
        lost = self.decay_rate * time
        self.area_current = 0*MSH if lost > self.area_current else self.area_current - lost
""")
r('A', 'spots', """        spots_to_keep = []
        for spot in self.spots:
            if (spot.area_current <= 0*MSH) and (not spot.is_growing):
                pass
            else:
                spots_to_keep.append(spot)
        self.spots = spots_to_keep
""", """        self.spots = tuple(spot for spot in self.spots if spot.is_growing or spot.area_current > 0*MSH)
""")
r('A', 'spots', """            surface_map = np.where(umbra, spot.teff_umbra, np.where(
                penumbra, spot.teff_penumbra, surface_map))
""", """            surface_map[penumbra] = spot.teff_penumbra
            surface_map[umbra] = spot.teff_umbra
""")
r('A', 'spots', """        if self.is_static:
            return self.dist_area_mean
        else:
            integrated_area = (self.dist_area_mean / self.growth_rate) \\
                - (self.init_area / self.growth_rate) \\
                + (self.dist_area_mean**2/2/self.decay_rate)
            return integrated_area / self.mean_lifetime
""", """        if self.is_static:
            return self.dist_area_mean
        growing = (self.dist_area_mean - self.init_area) / self.growth_rate
        decaying = 0.5*self.dist_area_mean*(self.dist_area_mean/self.decay_rate)
        return (growing + decaying) / self.mean_lifetime
""")
r('A', 'spots', """        spots = []
        for i in range(n_spots):
            spots.append(StarSpot(
                lat[i], lon[i],
                new_max_areas[i],
                self.init_area,
                umbra_teff, penumbra_teff,
                growth_rate=self.growth_rate,
                decay_rate=self.decay_rate,
                area_over_umbra_area=new_area_ratio[i],
                grid_params = self.grid_params,
                gridmaker=self.gridmaker
            ))
        return tuple(spots)
""", """        common = dict(area_current=self.init_area, teff_umbra=umbra_teff, teff_penumbra=penumbra_teff,
                      growth_rate=self.growth_rate, decay_rate=self.decay_rate,
                      grid_params=self.grid_params, gridmaker=self.gridmaker)
        return tuple(
            StarSpot(lat=_lat, lon=_lon, area_max=_area, area_over_umbra_area=_ratio, **common)
            for _lat, _lon, _area, _ratio in zip(lat, lon, new_max_areas, new_area_ratio)
        )
""")
r('A', 'spots', """        spots = []
        current_omega = 0*(u.deg**2)
        target_omega = (4*np.pi*coverage*u.steradian).to(u.deg**2)
        while current_omega < target_omega:
            new_spot = self.generate_spots(1)[0]
            if self.is_static:
                area0 = self.init_area
                area_range = new_spot.area_max - area0
                area = self.rng.random()*area_range + area0
                new_spot.area_current = area
            else:
                age = self.rng.random() * self.mean_lifetime
                new_spot.age(age)
            spots.append(new_spot)
            spot_solid_angle = new_spot.angular_radius(r_star)**2 * np.pi
            current_omega += spot_solid_angle
        return spots
""", """        spots = []
        remaining = (4*np.pi*coverage*u.steradian).to(u.deg**2)
        while remaining > 0*u.deg**2:
            spot = self._mature(*self.generate_spots(1))
            remaining = remaining - np.pi * spot.angular_radius(r_star)**2
            spots.append(spot)
        return spots

    def _mature(self, spot):
        x = self.rng.random()
        if self.is_static:
            spot.area_current = self.init_area + x*(spot.area_max - self.init_area)
        else:
            spot.age(x * self.mean_lifetime)
        return spot
""")
r('A', 'faculae', """        if self.is_growing:
            time_from_max = -1*np.log(self.radius/self.r_max)*self.lifetime*0.5
            if time_from_max <= time:
                self.is_growing = False
                time = time - time_from_max
                self.radius = self.r_max * np.exp(-2*time/self.lifetime)
            else:
                self.radius = self.radius * np.exp(2*time/self.lifetime)
        else:
            self.radius = self.radius * np.exp(-2*time/self.lifetime)
""", """        tau = self.lifetime/2
        if self.is_growing:
            time_from_max = np.log(self.r_max/self.radius)*tau
            if time_from_max > time:
                self.radius = self.radius * np.exp(time/tau)
                return
            self.is_growing = False
            self.radius = self.r_max
            time = time - time_from_max
        self.radius = self.radius / np.exp(time/tau)
""")
r('A', 'faculae', """        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
            raise ValueError(
                'Wall and Floor teff are equal. This is not allowed.')
        if self.radius < self.floor_teff_min_rad:
            return {
                round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle),
                round_teff(self.floor_dteff): 0.0 * u.km**2
            }
        else:
            depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)
            wall_frac = 1 - calc_circ_fraction_inside_unit_circle(
                depth_over_radius*np.tan(angle).to_value(u.dimensionless_unscaled), 0, 1
            )
            proj_area = np.pi * self.radius**2 * np.cos(angle)
            return {
                round_teff(self.wall_dteff): wall_frac*proj_area,
                round_teff(self.floor_dteff): (1-wall_frac)*proj_area
            }
""", """        wall, floor = round_teff(self.wall_dteff), round_teff(self.floor_dteff)
        if wall == floor:
            raise ValueError(
                'Wall and Floor teff are equal. This is not allowed.')
        proj_area = np.cos(angle) * np.pi * self.radius**2
        if self.radius < self.floor_teff_min_rad:
            floor_frac = 0.0
        else:
            shift = (self.depth*np.tan(angle)/self.radius).to_value(u.dimensionless_unscaled)
            floor_frac = calc_circ_fraction_inside_unit_circle(shift, 0, 1)
        return {wall: (1-floor_frac)*proj_area, floor: floor_frac*proj_area}
""")
r('A', 'faculae', """        effective_area = self.effective_area(angle)
        frac_eff_area = {}
        total = 0
        for _, area in effective_area.items():
            total = total + area
        for teff, area in effective_area.items():
            frac_eff_area[teff] = (area/total).to(u.dimensionless_unscaled)
        return frac_eff_area
""", """        areas = self.effective_area(angle)
        total = sum(areas.values(), 0*u.km**2)
        return {teff: (area/total).to(u.dimensionless_unscaled) for teff, area in areas.items()}
""")
r('A', 'faculae', """        faculae_to_keep = []
        for facula in self.faculae:
            facula: Facula
            if (facula.radius <= facula.r_max/np.e**2) and (not facula.is_growing):
                pass
            else:
                faculae_to_keep.append(facula)
        self.faculae = faculae_to_keep
""", """        def gone(fac: Facula):
            return not fac.is_growing and fac.radius*np.exp(2) <= fac.r_max
        self.faculae = [fac for fac in self.faculae if not gone(fac)]
""")
r('A', 'faculae', """        new_faculae = []
        for i in range(n_to_generate):
            new_faculae.append(
                Facula(
                    lat=lats[i],
                    lon=lons[i],
                    r_max=max_radii[i],
                    r_init=starting_radii[i],
                    depth=self.depth,
                    lifetime=lifetimes[i],
                    floor_teff_slope""", """        new_faculae = []
        for lat, lon, r_max, r_init, lifetime in zip(lats, lons, max_radii, starting_radii, lifetimes):
            new_faculae.append(
                Facula(
                    lat=lat,
                    lon=lon,
                    r_max=r_max,
                    r_init=r_init,
                    depth=self.depth,
                    lifetime=lifetime,
                    floor_teff_slope""")
r('A', 'helpers', """    val = teff.value
    unit = teff.unit
    return int(round(val)) * unit
""", """    return int(np.rint(teff.value)) * teff.unit
""")
r('A', 'helpers', """    low, high = config.grid_teff_bounds
    if teff > high:
        warnings.warn(
            f'Teff of {teff:.1f} too high, clipped to {high:.1f}', RuntimeWarning)
        return high
    elif teff < low:
        warnings.warn(
            f'Teff of {teff:.1f} too low, clipped to {low:.1f}', RuntimeWarning)
        return low
    else:
        return teff""", """    low, high = config.grid_teff_bounds
    if low <= teff <= high:
        return teff
    word, bound = ('high', high) if teff > high else ('low', low)
    warnings.warn(
        f'Teff of {teff:.1f} too {word}, clipped to {bound:.1f}', RuntimeWarning)
    return bound""")
r('A', 'helpers', """    A1 = area(R, d1)
    A2 = area(r, d2)
    area_of_intersection = A1+A2

    area_of_circle = np.pi*r**2
    return area_of_intersection/area_of_circle
""", """    return sum(area(a, b) for a, b in ((R, d1), (r, d2)))/(np.pi*r**2)
""")
r('A', 'helpers', """    lon0: float = lon0.to_value(u.rad)
    lat0: float = lat0.to_value(u.rad)
    lons: np.ndarray = lons.to_value(u.rad)
    lats: np.ndarray = lats.to_value(u.rad)
""", """    lat0, lon0, lats, lons = (q.to_value(u.rad) for q in (lat0, lon0, lats, lons))
""")
r('A', 'helpers', """        C = np.where(
            lons == lon0,
            0, np.arccos(cos_C)
        )
        C = np.where(
            (lons == lon0) & (lats < lat0),
            np.pi, C
        )
        C = np.where(
            mu >= 0,
            C,
            np.nan
        )
        C = np.where(
            np.sin(lons-lon0) < 0,
            -C, C
        )
""", """        C = np.arccos(cos_C)
        same_lon = lons == lon0
        C[same_lon] = 0
        C[same_lon & (lats < lat0)] = np.pi
        C[mu < 0] = np.nan
        west = np.sin(lons-lon0) < 0
        C[west] *= -1
""")
r('A', 'coordinate_grid', """        latgrid, _ = self.grid()
        jacobian: u.Quantity = np.sin(latgrid + 90*u.deg)
        norm: u.Quantity = np.sum(jacobian)
        return (jacobian/norm).to_value(u.dimensionless_unscaled)
""", """        lats, _ = self.oned()
        row = np.cos(lats).to_value(u.dimensionless_unscaled)
        return np.ones((self.nlon, 1))*row/(np.sum(row)*self.nlon)
""")
r('A', 'coordinate_grid', """        i = np.arange(self.n_points)
        lon = 2*np.pi*i/self.GOLDEN_RATIO
        lon = (lon % (2*np.pi))*u.rad
        colat = np.arccos(1-2*(i+0.5)/self.n_points)
        lat = (np.pi/2 - colat)*u.rad
        return lat, lon
""", """        i = np.arange(self.n_points)
        turns = i/self.GOLDEN_RATIO
        lon = 2*np.pi*(turns - np.floor(turns))*u.rad
        lat = np.arcsin(1-(2*i+1)/self.n_points)*u.rad
        return lat, lon
""")
r('A', 'granules', """    coverage[coverage < 0] = 0
    coverage[coverage > 1] = 1
    return coverage
""", """    return np.clip(coverage, 0, 1)
""")
r('A', 'flares', """        tpeak = []
        fwhm = []
        unit = u.hr
        for flare in self.flares:
            tpeak.append(flare.tpeak.to_value(unit))
            fwhm.append(flare.fwhm.to_value(unit))
        tpeak = np.array(tpeak)*unit
        fwhm = np.array(fwhm)*unit
        self.peaks = tpeak
        self.fwhms = fwhm
""", """        unit = u.hr
        self.peaks = np.array([flare.tpeak.to_value(unit) for flare in self.flares])*unit
        self.fwhms = np.array([flare.fwhm.to_value(unit) for flare in self.flares])*unit
""")
r('A', 'flares', """        visible_flares = []
        for flare in masked_flares:
            cos_c = (np.sin(sub_obs_coords['lat']) * np.sin(flare.lat)
                     + np.cos(sub_obs_coords['lat']) * np.cos(flare.lat)
                     * np.cos(sub_obs_coords['lon']-flare.lon))
            if cos_c > 0:  # proxy for angular radius that has low computation time
                visible_flares.append(flare)
        return visible_flares
""", """        lat0, lon0 = sub_obs_coords['lat'], sub_obs_coords['lon']

        def visible(flare):
            mu = np.cos(flare.lat)*np.cos(lat0)*np.cos(flare.lon-lon0) + np.sin(flare.lat)*np.sin(lat0)
            return mu > 0
        return list(filter(visible, masked_flares))
""")
r('A', 'flares', """        dtimes = []
        for size in cluster_sizes:
            dtimes.append(self.rng.exponential(cluster_timescale))
            flare_timescale = cluster_timescale/size/2
            for _ in range(size-1):
                dtimes.append(self.rng.exponential(flare_timescale))
        dtimes = np.array(dtimes)
        tpeaks = np.cumsum(dtimes)
        return tpeaks
""", """        now = 0.
        tpeaks = []
        for size in cluster_sizes:
            for k in range(size):
                scale = cluster_timescale if k == 0 else cluster_timescale/(2*size)
                now = now + self.rng.exponential(scale)
                tpeaks.append(now)
        return np.array(tpeaks)
""")
# ------------------------------------------------------------------------------------------------ B: other idioms
r('B', 'star', """        return np.where(mu>0,mu,0)
""", """        return np.maximum(mu, 0)
""")
r('B', 'star', """        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star = mu < 0.
        mask[behind_star] = 0
        return mask

    def get_jacobian""", """        coeffs = (1, -self.u1, -self.u2)
        mask = 0
        for power, coeff in enumerate(coeffs):
            mask = mask + coeff*(1 - mu)**power
        return mask*(mu >= 0)

    def get_jacobian""")
r('B', 'star', """        for teff in teffs:
            pix_has_teff = np.where(surface_map == teff, 1, 0)
            nominal_area = np.sum(pix_has_teff*ld*proj_area)
            covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
            # different temperatures can have the same label
            label = f'{teff:.2f}'
            total_data[label] = total_data.get(label, 0) + nominal_area/total_area
            covered_data[label] = covered_data.get(label, 0) + covered_area/total_area
""", """        shares = ld*proj_area
        for teff in teffs:
            here = np.where(surface_map == teff, shares, 0)
            label = f'{teff:.2f}'
            for data, value in ((total_data, here), (covered_data, here*covered)):
                data.setdefault(label, 0)
                data[label] += value.sum()/total_area
""")
r('B', 'star', """        total_area = np.sum(ld*proj_area)
""", """        total_area = (ld*proj_area).sum()
""")
r('B', 'star', """            case1 = (rad_map > rp_rs + 2*proj_radii) | np.isnan(rad_map)

            covered_value = np.where(~case1, 1, 0).astype('float')
""", """            near_planet = rad_map <= rp_rs + 2*proj_radii
            case1 = ~near_planet
            covered_value = near_planet.astype('float')
""")
r('B', 'star', """                if rp_rs > dist_from_transit_center+2*sigma_x:
                    covered_value[s] = 1.
                else:
                    x = np.linspace(""", """                if not dist_from_transit_center+2*sigma_x >= rp_rs:
                    covered_value[s] = 1.
                else:
                    x = np.linspace(""")
r('B', 'star', """                    dist = np.sqrt((xx-dist_from_transit_center)**2 + (yy)**2)
                    overlap = np.where(dist < rp_rs, zz, 0)
""", """                    dist = np.hypot(xx-dist_from_transit_center, yy)
                    overlap = zz*(dist < rp_rs)
""")
r('B', 'star', """        if np.sqrt(x**2 + y**2) > 1 + 2*rp_rs:  # no transit
            return self.gridmaker.zeros().astype('bool'), 1.0
        elif eclipse:
            planet_fraction = self.get_pl_frac(
                angle_past_midtransit, orbit_radius, radius, inclination)
            return self.gridmaker.zeros().astype('bool'), planet_fraction
        else:
""", """        if np.hypot(x, y) > 1 + 2*rp_rs or eclipse:
            planet_fraction = 1.0
            if not np.hypot(x, y) > 1 + 2*rp_rs:
                planet_fraction = self.get_pl_frac(
                    angle_past_midtransit, orbit_radius, radius, inclination)
            return self.gridmaker.zeros(dtype='bool'), planet_fraction
        else:
""")
r('B', 'star', """        dat, _, _ = self.calc_coverage(sub_obs_coords)
        num = 0
        den = 0
        for teff, value in dat.items():
            num += u.Quantity(teff)**4 * value
            den += value
        return ((num/den)**(0.25)).to(u.K)
""", """        dat = self.calc_coverage(sub_obs_coords)[0]
        teffs = u.Quantity([u.Quantity(teff) for teff in dat])
        weights = np.array(list(dat.values()))
        return (np.average(teffs**4, weights=weights)**0.25).to(u.K)
""")
r('B', 'spots', """        lat0 = self.coords['lat']
        lon0 = self.coords['lon']
        self.r = 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
                                       + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
""", """        lat0 = self.coords['lat']
        lon0 = self.coords['lon']
        sin_lat = np.sin(0.5*(lat0-latgrid))
        sin_lon = np.sin(0.5*(lon0 - longrid))
        half_chord = np.sqrt(np.square(sin_lat) + np.cos(latgrid)*np.cos(lat0)*np.square(sin_lon))
        self.r = np.arcsin(half_chord) * 2
""")
r('B', 'spots', """        return np.sqrt(self.area_current/np.pi).to(u.km)
""", """        return ((self.area_current/np.pi)**0.5).to(u.km)
""")
r('B', 'spots', """        cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)
        return (np.arccos(cos_angle)).to(u.deg)
""", """        hemisphere = 2*np.pi*star_rad**2
        return np.arccos((hemisphere - self.area_current)/hemisphere).to(u.deg)
""")
r('B', 'spots', """            # penumbra
            penumbra = teff_dict[spot.teff_penumbra] & (
                surface_map > spot.teff_penumbra)
            # umbra
            umbra = teff_dict[spot.teff_umbra] & (
                surface_map > spot.teff_umbra)
            surface_map = np.where(umbra, spot.teff_umbra, np.where(
                penumbra, spot.teff_penumbra, surface_map))
""", """            before = surface_map
            for teff in (spot.teff_penumbra, spot.teff_umbra):
                surface_map = np.where(teff_dict[teff] & (before > teff), teff, surface_map)
""")
r('B', 'spots', """        for spot in self.spots:
            spot.age(time)
        self.clean_spotlist()
""", """        for i in range(len(self.spots)):
            self.spots[i].age(time)
        self.clean_spotlist()
""")
r('B', 'spots', """        is_spot = tmap != teff_star
        return np.sum(area*is_spot)/np.sum(area)
""", """        is_spot = tmap < teff_star
        return area[is_spot].sum()/area.sum()
""")
r('B', 'spots', """        rad = a**2 - (c-c0)**2
        rad[rad < 0] = 0
        integrand = 2 * np.cos(c)*np.sqrt(rad)
""", """        rad = (a - (c-c0))*(a + (c-c0))
        rad = np.where(rad < 0, 0*rad, rad)
        integrand = 2 * np.sqrt(rad)*np.cos(c)
""")
r('B', 'spots', """            hemi = self.rng.choice([-1, 1], size=n_spots)
            lat = self.rng.normal(15, 5, size=n_spots)*hemi*u.deg
""", """            lat = self.rng.choice([-1, 1], size=n_spots) * self.rng.normal(loc=15, scale=5, size=n_spots) * u.deg
""")
r('B', 'spots', """        while np.any(new_area_ratio <= 0):
            new_area_ratio = self.rng.normal(loc=5, scale=1, size=n_spots)
""", """        while not np.all(new_area_ratio > 0):
            new_area_ratio = 5 + self.rng.standard_normal(size=n_spots)
""")
r('B', 'spots', """        n_expected = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area *
                 time / self.mean_lifetime).to_value(u.dimensionless_unscaled)
        return n_expected
""", """        n_at_once = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area).to_value(u.dimensionless_unscaled)
        generations = (time / self.mean_lifetime).to_value(u.dimensionless_unscaled)
        return n_at_once*generations
""")
r('B', 'faculae', """        return 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
                                    + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
""", """        a = np.sin(0.5*(lat0-latgrid))**2
        b = np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2
        return 2 * np.arcsin(np.sqrt(a + b))
""")
r('B', 'faculae', """        return self.radius/star_rad * 180/np.pi * u.deg
""", """        return ((self.radius/star_rad).to_value(u.dimensionless_unscaled) * u.rad).to(u.deg)
""")
r('B', 'faculae', """        mu = self.rng.normal(loc=0, scale=1, size=n_to_generate)
        max_radii = self.dist_r_peak * 10**(mu*self.dist_r_logsigma)
        lifetimes = self.dist_life_peak * 10**(mu*self.dist_life_logsigma)
""", """        mu = self.rng.standard_normal(n_to_generate)
        max_radii = 10**(mu*self.dist_r_logsigma) * self.dist_r_peak
        lifetimes = 10**(mu*self.dist_life_logsigma) * self.dist_life_peak
""")
r('B', 'faculae', """        for facula in self.faculae:
            facula.age(time)
        self.clean_faclist()
""", """        _ = [facula.age(time) for facula in self.faculae]
        self.clean_faclist()
""")
r('B', 'faculae', """        for fac in facula:
            fac: Facula
            if not fac.gridmaker == self.gridmaker:
                fac.gridmaker = self.gridmaker
        self.faculae += tuple(facula)
""", """        added = tuple(facula)
        for fac in added:
            fac.gridmaker = self.gridmaker
        self.faculae = tuple(self.faculae) + added
""")
r('B', 'faculae', """        return 0.5 * np.pi * (1-np.e**-2) * self.dist_r_peak**2
""", """        return np.pi/2 * self.dist_r_peak**2 * (1-np.exp(-2))
""")
r('B', 'helpers', """    mu = (np.sin(lat1) * np.sin(lat2)
          + np.cos(lat1) * np.cos(lat2)
          * np.cos(lon1-lon2))
    return np.arccos(np.clip(mu, -1, 1))
""", """    mu = np.sin(lat1) * np.sin(lat2)
    mu = mu + np.cos(lat1) * np.cos(lat2) * np.cos(lon2-lon1)
    mu = np.minimum(np.maximum(mu, -1), 1)
    return np.arccos(mu)
""")
r('B', 'helpers', """    if d > (r0 + r):
        return 0.0
    if d <= (r0 - r):
        return 1.0
""", """    if d > (r0 + r):
        return 0.0
    elif r <= r0 - d:
        return 1.0
""")
r('B', 'helpers', """        num = np.cos(c) - np.cos(a)*np.cos(b)
        den = np.sin(a)*np.sin(b)
        den[den==0]=1e-20 # supress warning. This is overwritten anyway.
""", """        num = np.sin(lats) - mu*np.sin(lat0)
        den = np.sin(a)*np.cos(lat0)
        den = np.where(den == 0, 1e-20, den)
""")
r('B', 'coordinate_grid', """        lats, lons = self.oned()
        return np.meshgrid(lats, lons)
""", """        lats, lons = self.oned()
        ones = np.ones((self.nlon, self.nlat))
        return ones*lats[None, :], ones*lons[:, None]
""")
r('B', 'coordinate_grid', """        for value, lat, lon in zip(data, data_lat, data_lon):
            cos_r = rect.cos_angle_from_disk_center(lat, lon)
            r = np.arccos(np.clip(cos_r, -1, 1))
            weight = np.exp(-(r/characteristic_len)**2)
            numerator += weight*value
            denominator += weight
""", """        for k in range(self.n_points):
            cos_r = rect.cos_angle_from_disk_center(data_lat[k], data_lon[k])
            weight = np.exp(-num_density*np.arccos(np.clip(cos_r, -1, 1))**2)
            denominator = denominator + weight
            numerator = numerator + weight*data[k]
""")
r('B', 'coordinate_grid', """        return self.zeros() + 1/self.n_points
""", """        return np.full((self.n_points,), 1/self.n_points, dtype='float32')
""")
r('B', 'coordinate_grid', """    lats = np.linspace(-90, 90, n_points)*u.deg
    return lats
""", """    return np.linspace(-90*u.deg, 90*u.deg, n_points)
""")
r('B', 'coordinate_grid', """    lons = np.linspace(0, 360, n_points, endpoint=False)*u.deg
    return lons
""", """    return np.arange(n_points)*(360/n_points)*u.deg
""")
r('B', 'granules', """        return jnp.sum(self.scale*self.freq*jnp.exp(
            -self.freq*tau/jnp.sqrt(2)
        )
            * jnp.cos((self.freq*tau/jnp.sqrt(2))-(jnp.pi/4)))
""", """        x = self.freq*tau/jnp.sqrt(2)
        return jnp.sum(self.scale*self.freq*jnp.exp(-x)*jnp.cos(jnp.pi/4 - x))
""")
r('B', 'flares', """        masked_flares = [flare for flare, include in zip(
            self.flares, mask) if include]
        # essentially the same as self.flares[mask], but without casting to ndarray
        return masked_flares
""", """        return [self.flares[k] for k in np.flatnonzero(mask)]
""")
r('B', 'flares', """        time_area = self.energy/const.sigma_sb/(self.Teff**4)
        area_std = 1*u.km**2
        time_area_std = flareintegral(self.fwhm, area_std)
        area = time_area/time_area_std * area_std
        return area.to(u.km**2)
""", """        flux = const.sigma_sb*self.Teff**4
        effective_duration = flareintegral(self.fwhm, 1*u.km**2)/(1*u.km**2)
        return (self.energy/(flux*effective_duration)).to(u.km**2)
""")
r('B', 'flares', """        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
        N_steps = max(N_steps, 2)
        time = np.linspace(tstart, tfinish, N_steps)
        for flare in visible_flares:
            timearea = flare.get_timearea(time)
            flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))
        return flare_timeareas
""", """        N_steps = max(2, int(((tfinish-tstart)/time_resolution).to_value(u.dimensionless_unscaled)))
        time = np.linspace(tstart, tfinish, N_steps)
        return [{'Teff': flare.Teff, 'timearea': flare.get_timearea(time)} for flare in visible_flares]
""")
r('B', 'flares', """        cluster_sizes = cluster_sizes[cluster_sizes > 0]
        cluster_sizes = cluster_sizes[np.cumsum(cluster_sizes) < n_flares]
        n_leftover = n_flares - np.sum(cluster_sizes)
        cluster_sizes = np.append(cluster_sizes, [1]*n_leftover)
""", """        kept = []
        total = 0
        for size in cluster_sizes:
            if total + size >= n_flares:
                break
            if size > 0:
                kept.append(int(size))
                total += int(size)
        cluster_sizes = kept + [1]*(n_flares - total)
""")
r('B', 'flares', """        lons = self.rng.random(size=n_flares)*360*u.deg
        lats = np.arcsin(2*self.rng.random(size=n_flares) - 1) / \\
            np.pi * 180*u.deg
        return lats, lons
""", """        lons = 360*self.rng.random(n_flares)*u.deg
        lats = (np.arcsin(2*self.rng.random(n_flares) - 1)*u.rad).to(u.deg)
        return lats, lons
""")
r('B', 'flares', """        return 10**self.beta * (energy.to_value(self.energy_unit))**self.alpha / self.time_unit
""", """        return 10**(self.beta + self.alpha*np.log10(energy.to_value(self.energy_unit))) / self.time_unit
""")
# ------------------------------------------------------------------------------------------------ C: shared helpers, caching, plain python
r('C', 'helpers', """def proj_ortho(
""", """def great_circle(lat0, lon0, lats, lons):
    \"\"\"haversine distance\"\"\"
    hav = np.sin((lat0-lats)/2)**2 + np.cos(lats)*np.cos(lat0)*np.sin((lon0-lons)/2)**2
    return 2*np.arcsin(np.sqrt(hav))

def proj_ortho(
""".replace('\\"', '"'))
r('C', 'spots', "from vspec_vsm.config import MSH\n", "from vspec_vsm.config import MSH\nfrom vspec_vsm.helpers import great_circle, get_angle_between\n")
r('C', 'spots', """        latgrid, longrid = self.gridmaker.grid()
        lat0 = self.coords['lat']
        lon0 = self.coords['lon']
        self.r = 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
                                       + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
""", """        self.r = great_circle(self.coords['lat'], self.coords['lon'], *gridmaker.grid())
""")
r('C', 'spots', """        cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                  + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                  * np.cos(sub_obs_coords['lon']-self.coords['lon']))
        c0 = np.arccos(np.clip(cos_c0, -1, 1))
""", """        c0 = get_angle_between(*(where[k] for where in (sub_obs_coords, self.coords) for k in ('lat', 'lon')))
""")
r('C', 'spots', """        return (np.trapz(integrand, x=c)/(2*np.pi*u.steradian)).to_value(u.dimensionless_unscaled)
""", """        steps = c[1:] - c[:-1]
        area = np.sum(0.5*(integrand[1:] + integrand[:-1])*steps)
        return (area/(2*np.pi*u.steradian)).to_value(u.dimensionless_unscaled)
""")
r('C', 'spots', """            tau = np.log((self.growth_rate * u.day).to(u.Unit('')) + 1)
            if tau == 0:
                time_to_max = np.inf*u.day
            else:
                time_to_max = np.log(
                    self.area_max/self.area_current)/tau * u.day
""", """            tau = np.log1p(self.growth_rate.to_value(1/u.day)) if self.growth_rate.unit.is_equivalent(1/u.day) else np.log((self.growth_rate * u.day).to(u.Unit('')) + 1)
            log_ratio = np.log((self.area_max/self.area_current).to_value(u.dimensionless_unscaled))
            time_to_max = np.inf*u.day if tau == 0 else log_ratio/tau*u.day
""")
r('C', 'spots', """        if isinstance(spot, StarSpot):
            spot = [spot]
        for s in spot:
            s.set_gridmaker(self.gridmaker)
        self.spots += tuple(spot)
""", """        new = (spot,) if isinstance(spot, StarSpot) else tuple(spot)
        list(map(lambda s: s.set_gridmaker(self.gridmaker), new))
        self.spots = (*self.spots, *new)
""")
r('C', 'spots', """        self.spots = spots_to_keep
""", """        self.spots = tuple(spots_to_keep)
""")
r('C', 'spots', """        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
""", """        surface_map = np.full(self.gridmaker.zeros().shape, star_teff.value, dtype='float64')*star_teff.unit
""")
r('C', 'spots', """        if self.distribution == 'solar':
            # (dist approx from 2017ApJ...851...70M)
            hemi = self.rng.choice([-1, 1], size=n_spots)
            lat = self.rng.normal(15, 5, size=n_spots)*hemi*u.deg
            lon = self.rng.random(size=n_spots)*360*u.deg
        elif self.distribution == 'iso':
            lon = self.rng.random(size=n_spots)*360*u.deg
            # use inverse transform to generate lats
            x = self.rng.random(size=n_spots)
            lat = np.arcsin(2*x - 1)/np.pi * 180*u.deg
        else:
            raise ValueError(
                f'Unknown value {self.distribution} for distribution')
        return lat, lon
""", """        try:
            sample = {'solar': self._solar, 'iso': self._iso}[self.distribution]
        except KeyError:
            raise ValueError(
                f'Unknown value {self.distribution} for distribution') from None
        return sample(n_spots)

    def _solar(self, n):
        hemi = self.rng.choice([-1, 1], size=n)
        lat = self.rng.normal(15, 5, size=n)*hemi
        return lat*u.deg, self.rng.random(size=n)*360*u.deg

    def _iso(self, n):
        lon, x = self.rng.random(size=n), self.rng.random(size=n)
        return np.degrees(np.arcsin(2*x - 1))*u.deg, 360*lon*u.deg
""")
r('C', 'faculae', "from vspec_vsm.helpers import round_teff, calc_circ_fraction_inside_unit_circle\n", "from vspec_vsm.helpers import great_circle, round_teff, calc_circ_fraction_inside_unit_circle as _overlap\n")
r('C', 'faculae', "wall_frac = 1 - calc_circ_fraction_inside_unit_circle(", "wall_frac = 1 - _overlap(")
r('C', 'faculae', """    @property
    def _r(self):
""", """    def _distance(self):
""")
r('C', 'faculae', """        latgrid, longrid = self.gridmaker.grid()
        lat0 = self.lat
        lon0 = self.lon
        return 2 * np.arcsin(np.sqrt(np.sin(0.5*(lat0-latgrid))**2
                                    + np.cos(latgrid)*np.cos(lat0)*np.sin(0.5*(lon0 - longrid))**2))
""", """        return great_circle(self.lat, self.lon, *self.gridmaker.grid())
""")
r('C', 'faculae', "pix_in_fac = self._r <= rad", "pix_in_fac = ~(self._distance() > rad)")
r('C', 'faculae', """        if self.is_growing:
            time_from_max = -1*np.log(self.radius/self.r_max)*self.lifetime*0.5
            if time_from_max <= time:
                self.is_growing = False
                time = time - time_from_max
                self.radius = self.r_max * np.exp(-2*time/self.lifetime)
            else:
                self.radius = self.radius * np.exp(2*time/self.lifetime)
        else:
            self.radius = self.radius * np.exp(-2*time/self.lifetime)
""", """        phase = (2*time/self.lifetime).to_value(u.dimensionless_unscaled)
        if self.is_growing:
            log_to_max = np.log((self.r_max/self.radius).to_value(u.dimensionless_unscaled))
            if log_to_max > phase:
                self.radius *= np.exp(phase)
            else:
                self.is_growing = False
                self.radius = self.r_max * np.exp(log_to_max - phase)
        else:
            self.radius *= np.exp(-phase)
""")
r('C', 'faculae', """        n_exp = self.coverage * 4*np.pi*rad_star**2 / \\
            self.mean_area * time / (2*self.dist_life_peak)
        return n_exp.to_value(u.dimensionless_unscaled)
""", """        birth_rate = self.coverage * 4*np.pi*rad_star**2 / self.mean_area / self.dist_life_peak / 2
        return (birth_rate*time).to_value(u.dimensionless_unscaled)
""")
r('C', 'coordinate_grid', """        latgrid, longrid = self.grid()
        mu: u.Quantity = (np.sin(lat0) * np.sin(latgrid)
                          + np.cos(lat0) * np.cos(latgrid)
                          * np.cos(lon0-longrid))
        return mu.to_value(u.dimensionless_unscaled)
""", """        latgrid, longrid = (x.to_value(u.rad) for x in self.grid())
        lat0, lon0 = lat0.to_value(u.rad), lon0.to_value(u.rad)
        return np.sin(lat0)*np.sin(latgrid) + np.cos(lat0)*np.cos(latgrid)*np.cos(longrid-lon0)
""")
r('C', 'coordinate_grid', """        if isinstance(grid_params, int):
            return SpiralGrid(grid_params)
        elif isinstance(grid_params, tuple):
            return RectangularGrid(*grid_params)
        else:
            raise TypeError('grid_params must be of type int or tuple')
""", """        for kind, make in ((int, SpiralGrid), (tuple, lambda p: RectangularGrid(*p))):
            if isinstance(grid_params, kind):
                return make(grid_params)
        raise TypeError('grid_params must be of type int or tuple')
""")
r('C', 'coordinate_grid', """        numerator = np.zeros((nlon, nlat))
        denominator = np.zeros((nlon, nlat))
""", """        weights = []
""")
r('C', 'coordinate_grid', """            numerator += weight*value
            denominator += weight
        resampled_data = numerator/denominator
""", """            weights.append((weight, value))
        denominator = sum(weight for weight, _ in weights)
        resampled_data = sum(weight*value for weight, value in weights)/denominator
""")
r('C', 'star', """        x = (orbit_radius/self.radius * np.sin(angle_past_midtransit)
             ).to_value(u.dimensionless_unscaled)
        y = (orbit_radius/self.radius * np.cos(angle_past_midtransit)
             * np.cos(inclination)).to_value(u.dimensionless_unscaled)
        rad = (planet_radius/self.radius).to_value(u.dimensionless_unscaled)
""", """        one = u.dimensionless_unscaled
        a = (orbit_radius/self.radius).to_value(one)
        x = a*np.sin(angle_past_midtransit).to_value(one)
        y = a*np.cos(angle_past_midtransit).to_value(one)*np.cos(inclination).to_value(one)
        rad = (planet_radius/self.radius).to_value(one)
""")
r('C', 'star', """        for facula in faculae:
            angle = get_angle_between(lat0, lon0, facula.lat, facula.lon)
            inside_fac = facula.map_pixels(self.radius)
""", """        footprints = [(fac, fac.map_pixels(self.radius)) for fac in faculae]
        for facula, inside_fac in footprints:
            angle = get_angle_between(lat0, lon0, facula.lat, facula.lon)
""")
r('C', 'star', """                wall_pix = inside_fac & (mu <= border_mu)
                floor_pix = inside_fac & (mu > border_mu)
                teff_wall = clip_teff(dteff_wall + self.teff)
                teff_floor = clip_teff(dteff_floor + self.teff)
                map_from_spots[wall_pix] = teff_wall
                map_from_spots[floor_pix] = teff_floor
""", """                teff_wall = clip_teff(dteff_wall + self.teff)
                teff_floor = clip_teff(dteff_floor + self.teff)
                map_from_spots = np.where(inside_fac, np.where(mu <= border_mu, teff_wall, teff_floor), map_from_spots)
""")
r('C', 'star', """        for teff in teffs:
            pix_has_teff = np.where(surface_map == teff, 1, 0)
            nominal_area = np.sum(pix_has_teff*ld*proj_area)
            covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
""", """        weight = (ld*proj_area).ravel()
        flat_map, flat_cov = surface_map.ravel(), np.asarray(covered).ravel()
        for teff in teffs:
            pix_has_teff = (flat_map == teff).astype('float')
            nominal_area = np.dot(pix_has_teff, weight)
            covered_area = np.dot(pix_has_teff, weight*flat_cov)
""")
r('C', 'star', "total_area = np.sum(ld*proj_area)", "total_area = np.dot(np.ones(ld.size), (ld*proj_area).ravel())")
r('C', 'flares', """        tpeaks = self.get_peaks(n_flares)*time
        fwhms = self.gen_fwhm(n_flares)
        teffs = self.gen_teffs(n_flares)
        lats, lons = self.gen_coords(n_flares)
""", """        tpeaks = time*self.get_peaks(n_flares)
        fwhms, teffs = self.gen_fwhm(n_flares), self.gen_teffs(n_flares)
        lats, lons = self.gen_coords(n_flares)
""")
r('C', 'flares', """        log_fwhm = self.rng.normal(
            loc=dist_logmean_fwhm,
            scale=self.dist_fwhm_logsigma,
            size=n_flares
        )
        fwhm = 10**log_fwhm * self.time_unit
        return fwhm
""", """        z = self.rng.standard_normal(n_flares)
        return np.power(10, dist_logmean_fwhm + z*self.dist_fwhm_logsigma) * self.time_unit
""")
r('C', 'flares', """        after_start = self.peaks + padding_before*self.fwhms > tstart
        before_end = self.peaks - padding_after*self.fwhms < tfinish

        return after_start & before_end
""", """        too_early = self.peaks <= tstart - padding_before*self.fwhms
        too_late = self.peaks >= tfinish + padding_after*self.fwhms
        return ~(too_early | too_late)
""")
r('C', 'flares', """        areas = self.areacurve(time)
        timearea = np.trapz(areas, time)
        return timearea.to(u.Unit('hr km2'))
""", """        areas = self.areacurve(time)
        mid = (areas[1:] + areas[:-1])/2
        return np.sum(mid*np.diff(time)).to(u.Unit('hr km2'))
""")
r('C', 'granules', """        key = jax.random.PRNGKey(seed=self.seed)
        gp = self._build_gp(time.to_value(time_unit))
        coverage = gp.sample(key)
        return save_cast_coverage(np.array(coverage))
""", """        hours = time.to_value(time_unit)
        sample = np.array(build_gp(self.params, hours).sample(jax.random.PRNGKey(self.seed)))
        return np.where(sample > 1, 1, np.where(sample < 0, 0, sample))
""")
# ------------------------------------------------------------------------------------------------ D: the rest
r('D', 'star', """            for index in indicies:
                s = index if index is int else tuple(index)
                dist_from_transit_center: float = rad_map[s]
                # gauss_sigma = proj_radii[s]
                sigma_x = point_radii[s]*mu[s]
                sigma_y = point_radii[s]
                if rp_rs > dist_from_transit_center+2*sigma_x:
                    covered_value[s] = 1.
                else:
                    x = np.linspace(-3*sigma_x, 3*sigma_x, 100)
                    xx, yy = np.meshgrid(x, x)
                    # zz = 1/(2*np.pi*gauss_sigma**2)*np.exp(-(xx**2 + yy**2)
                    #                                        / (2*gauss_sigma**2))
                    zz = 1/(2*np.pi*sigma_x*sigma_y)*np.exp(-0.5*(xx/sigma_x)**2 - 0.5*(yy/sigma_y)**2)
                    dist = np.sqrt((xx-dist_from_transit_center)**2 + (yy)**2)
                    overlap = np.where(dist < rp_rs, zz, 0)
                    overlap = np.trapz(overlap, x, axis=1)
                    overlap = np.trapz(overlap, x, axis=0)
                    covered_value[s] = overlap
""", """            for index in indicies:
                s = tuple(index)
                covered_value[s] = self._pixel_overlap(rad_map[s], point_radii[s]*mu[s], point_radii[s], rp_rs)
""")
r('D', 'star', """    def calc_coverage(
""", """    @staticmethod
    def _pixel_overlap(distance, sigma_x, sigma_y, rp_rs):
        \"\"\"share of a pixel that lies behind the planet\"\"\"
        if rp_rs > distance+2*sigma_x:
            return 1.
        nodes = np.linspace(-3*sigma_x, 3*sigma_x, 100)
        xx, yy = np.meshgrid(nodes, nodes)
        zz = np.exp(-0.5*((xx/sigma_x)**2 + (yy/sigma_y)**2))/(2*np.pi*sigma_x*sigma_y)
        inside = np.sqrt((xx-distance)**2 + yy**2) < rp_rs
        return np.trapz(np.trapz(np.where(inside, zz, 0), nodes, axis=1), nodes)

    def calc_coverage(
""")
r('D', 'star', """        if spot_generator is None:
            self.spot_generator = SpotGenerator.off(
                grid_params=grid_params,
                gridmaker=self.gridmaker,
                rng=self.rng
            )
        else:
            self.spot_generator = spot_generator
            try:
                if self.spot_generator.gridmaker != self.gridmaker:
                    self.spot_generator.gridmaker = self.gridmaker
            except TypeError:
                self.spot_generator.gridmaker = self.gridmaker
""", """        self.spot_generator = self._generator(spot_generator, SpotGenerator)
""")
r('D', 'star', """        if fac_generator is None:
            self.fac_generator = FaculaGenerator.off(
                grid_params=grid_params,
                gridmaker=self.gridmaker,
                rng=self.rng
            )
        else:
            self.fac_generator = fac_generator
            try:
                if self.fac_generator.gridmaker != self.gridmaker:
                    self.fac_generator.gridmaker = self.gridmaker
            except TypeError:
                self.fac_generator.gridmaker = self.gridmaker
""", """        self.fac_generator = self._generator(fac_generator, FaculaGenerator)
""")
r('D', 'star', """    def set_spot_grid(self):
""", """    def _generator(self, given, kind):
        \"\"\"the generator to use, on the grid of this star\"\"\"
        if given is None:
            return kind.off(grid_params=self.grid_params, gridmaker=self.gridmaker, rng=self.rng)
        given.gridmaker = self.gridmaker
        return given

    def set_spot_grid(self):
""")
r('D', 'star', """        covered, pl_frac = self.get_transit_mask(
            sub_obs_coords['lat'], sub_obs_coords['lon'],
            orbit_radius=orbit_radius,
            radius=planet_radius,
            phase=phase,
            inclination=inclination
        )

        teffs = np.unique(surface_map)
""", """        covered, pl_frac = self.get_transit_mask(
            **{k + '0': sub_obs_coords[k] for k in ('lat', 'lon')},
            orbit_radius=orbit_radius, radius=planet_radius, phase=phase, inclination=inclination)
        teffs = sorted(set(surface_map.value.ravel().tolist()))*surface_map.unit
""")
r('D', 'star', """        granulation_teff = self.teff - self.granulation.dteff
        # initialize. This way it's okay if there's something else with that Teff too.
        for teff in (granulation_teff, self.teff):
            total_data.setdefault(f'{teff:.2f}', 0)
            covered_data.setdefault(f'{teff:.2f}', 0)
""", """        granulation_teff = self.teff - self.granulation.dteff
        for data in (total_data, covered_data):
            for teff in (granulation_teff, self.teff):
                if f'{teff:.2f}' not in data:
                    data[f'{teff:.2f}'] = 0
""")
r('D', 'helpers', """    x0, y0, r0 = 0, 0, 1
    d = np.sqrt((x-x0)**2 + (y-y0)**2)
    if r > 1:
        raise ValueError('R must be less than 1.')

    if d > (r0 + r):
        return 0.0
    if d <= (r0 - r):
        return 1.0
    if d == 0 and r == 1:  # it is the unit circle
        return 1.0

    R = r0
    d1 = (d**2 - r**2 + R**2) / (2*d)
    d2 = (d**2 + r**2 - R**2) / (2*d)

    def area(_R, _d):
        cos_half = np.clip(_d/_R, -1, 1)
        return _R**2 * (np.arccos(cos_half) - cos_half * np.sqrt(1 - cos_half**2))
    A1 = area(R, d1)
    A2 = area(r, d2)
    area_of_intersection = A1+A2

    area_of_circle = np.pi*r**2
    return area_of_intersection/area_of_circle
""", """    if r > 1:
        raise ValueError('R must be less than 1.')
    d = np.sqrt(x**2 + y**2)
    if d > 1 + r:
        return 0.0
    if d <= 1 - r:
        return 1.0
    return (_segment(1, (d**2 - r**2 + 1)/(2*d)) + _segment(r, (d**2 + r**2 - 1)/(2*d)))/(np.pi*r**2)


def _segment(radius, height):
    c = min(max(height/radius, -1.), 1.)
    return radius**2 * (np.arccos(c) - c*np.sqrt(1 - c**2))
""")
r('D', 'helpers', """    if b == 0:  # centered on north pole
        a = c
        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
    elif b == np.pi:  # centered on south pole
        a = c
        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
    else:""", """    north, south = b == 0, b == np.pi
    if north or south:
        a = c
        C = np.pi-(lons-lon0) if north else lons-lon0
        visible = c <= np.pi/2 if north else c >= np.pi/2
        C = np.where(visible, C, np.nan)
    else:""")
r('D', 'xoflares', """    flare_lc = np.zeros_like(time)
    flare_lc = np.where(
        (time <= tpeak) * ((time - tpeak) / fwhm > -1.0),
        (
            _fr[0]
            + _fr[1] * ((time - tpeak) / fwhm)
            + _fr[2] * ((time - tpeak) / fwhm) ** 2.0
            + _fr[3] * ((time - tpeak) / fwhm) ** 3.0
            + _fr[4] * ((time - tpeak) / fwhm) ** 4.0
        )
        * ampl,
        flare_lc,
    )
    flare_lc = np.where(
        (time > tpeak) * ((time - tpeak) / fwhm < 20.0),
        (
            _fd[0] * np.exp(((time - tpeak) / fwhm) * _fd[1])
            + _fd[2] * np.exp(((time - tpeak) / fwhm) * _fd[3])
        )
        * ampl,
        flare_lc,
    )
    return flare_lc
""", """    tau = (time - tpeak) / fwhm
    rise = 0.
    for coeff in reversed(_fr):
        rise = rise*tau + coeff
    decay = _fd[0] * np.exp(tau * _fd[1]) + _fd[2] * np.exp(tau * _fd[3])
    return ampl*np.where((tau > -1.0) & (tau <= 0), rise, np.where((tau > 0) & (tau < 20.0), decay, 0.))
""")
r('D', 'xoflares', """    multiflare_lc = np.zeros_like(time)
    npeaks = tpeaks.shape[0]
    for i in range(npeaks):
        flare_lc = _flaremodelnp(time, tpeaks[i], fwhms[i], ampls[i])
        multiflare_lc = multiflare_lc + flare_lc
    return multiflare_lc
""", """    return sum((_flaremodelnp(time, *args) for args in zip(tpeaks, fwhms, ampls)), np.zeros_like(time))
""")
r('D', 'flares', """        X = np.atleast_1d(X)
        if not (np.all(X >= 0.) and np.all(X < 1.)):
            raise ValueError('`X` must be in [0,1)')
        return self.min_energy * (1-X)**(1/self.alpha)
""", """        X = np.atleast_1d(X)
        allowed = (0. <= X) & (X < 1.)
        if not allowed.all():
            raise ValueError('`X` must be in [0,1)')
        return self.min_energy / (1-X)**(-1/self.alpha)
""")
r('D', 'flares', """        return 1 - (energy/self.min_energy).to_value(u.dimensionless_unscaled)**self.alpha
""", """        ratio = (self.min_energy/energy).to_value(u.dimensionless_unscaled)
        return 1 - ratio**(-self.alpha)
""")
r('D', 'flares', """        nexp = self.get_ntotal(time)
        n_flares = self.rng.poisson(nexp)
        if n_flares == 0:
            return []

        energies = self.quantile_func(self.rng.random(n_flares))
""", """        n_flares = self.rng.poisson(self.get_ntotal(time))
        if not n_flares:
            return []
        energies = self.quantile_func(self.rng.random(size=n_flares))
""")
r('D', 'flares', """        flares = [
            StellarFlare(
                fwhm=f,
                energy=e,
                lat=lat,
                lon=lon,
                Teff=teff,
                tpeak=t
            ) for f, e, lat, lon, teff, t in zip(fwhms, energies, lats, lons, teffs, tpeaks)
        ]
        return flares
""", """        flares = []
        for i in range(n_flares):
            flares.append(StellarFlare(fwhms[i], energies[i], lats[i], lons[i], teffs[i], tpeaks[i]))
        return flares
""")
r('D', 'spots', """        if coverage > 1 or coverage < 0:
            raise ValueError('Coverage must be between 0 and 1.')
""", """        if not 0 <= coverage <= 1:
            raise ValueError('Coverage must be between 0 and 1.')
""")
r('D', 'spots', """        target_omega = (4*np.pi*coverage*u.steradian).to(u.deg**2)
        while current_omega < target_omega:
            new_spot""", """        target_omega = (4*np.pi*coverage*u.steradian).to(u.deg**2)
        while True:
            if current_omega >= target_omega:
                break
            new_spot""")
r('D', 'spots', """        for spot in self.spots:
            spot.set_gridmaker(self.gridmaker)

""", """        for feature in self.spots:
            feature.set_gridmaker(gridmaker)

""")
r('D', 'faculae', """        if self.dist == 'iso':
            x = self.rng.random(size=n_to_generate)
            lats = np.arcsin(2*x - 1)/np.pi * 180*u.deg
            lons = self.rng.random(size=n_to_generate) * 360 * u.deg
            return lats, lons
        elif self.dist == 'solar':
            raise NotImplementedError(
                f'{self.dist} has not been implemented as a distribution')
        else:
            raise ValueError(
                f'{self.dist} is not recognized as a distribution')
""", """        if self.dist == 'solar':
            raise NotImplementedError(
                f'{self.dist} has not been implemented as a distribution')
        if self.dist != 'iso':
            raise ValueError(
                f'{self.dist} is not recognized as a distribution')
        colat_share, lon_share = self.rng.random(size=n_to_generate), self.rng.random(size=n_to_generate)
        return (np.pi/2 - np.arccos(2*colat_share - 1))*180/np.pi*u.deg, lon_share*360*u.deg
""")
r('D', 'faculae', """        for i, facula in enumerate(self.faculae):
            pix_in_fac = facula.map_pixels(star_rad)
            is_photosphere = pixmap == star_teff
            int_map[pix_in_fac & is_photosphere] = i+1
            map_dict[i] = i+1
        return int_map, map_dict
""", """        is_photosphere = pixmap == star_teff
        for number, facula in enumerate(self.faculae, start=1):
            int_map = np.where(facula.map_pixels(star_rad) & is_photosphere, number, int_map)
            map_dict[number-1] = number
        return int_map, map_dict
""")
r('D', 'granules', """        tau = jnp.atleast_1d(jnp.abs(X1 - X2))[..., None]

        return jnp.sum(self.scale*self.freq*jnp.exp(
            -self.freq*tau/jnp.sqrt(2)
        )
            * jnp.cos((self.freq*tau/jnp.sqrt(2))-(jnp.pi/4)))
""", """        phase = self.freq*jnp.abs(X2 - X1)/jnp.sqrt(2)
        wave = (jnp.cos(phase) + jnp.sin(phase))/jnp.sqrt(2)
        return jnp.sum(self.scale*self.freq*wave/jnp.exp(phase))
""")
r('D', 'coordinate_grid', """        return self.zeros() + 1/self.n_points
""", """        area = self.zeros()
        area += 1/self.n_points
        return area
""")
r('D', 'coordinate_grid', """        if not data.ndim == 2:
            raise TypeError('data must be 2 dimensional')
        if not data.shape[0] == nlon:
            raise TypeError('data must have shape (nlon, nlat)')
        if not data.shape[1] == nlat:
            raise TypeError('data must have shape (nlon, nlat)')
""", """        if data.ndim != 2 or data.shape != (nlon, nlat):
            raise TypeError('data must have shape (nlon, nlat)')
""")
