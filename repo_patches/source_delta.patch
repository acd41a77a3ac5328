From 9da543b71a304fb5e704b2bfe0bc40ce8ad05b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 01/16] fix: average_teff parses the temperature labels of
 calc_coverage

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..6bb3e56 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From 08c710ce6c32c8693a53e2668cc0dda71efe3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 02/16] fix: FlareGenerator.pdf is a density per unit energy

---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..cdb94e6 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -325,7 +325,7 @@ class FlareGenerator:
         pdf : float or np.ndarray
             The probability density of energy
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From 2ba613068ee8e4e0be9a6b71cc94c6e0c470d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 03/16] fix: get_granulation_coverage looked up a granulation
 parameter that does not exist

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 6bb3e56..4972e85 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -776,7 +776,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From af106597eadce539b03e5c7608e7a827fab9b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 04/16] fix: a spot added to a collection is laid out on the
 grid of the collection

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..9545480 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From e0cf5c284300c2315c5244d8c0e1ce77c9595738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 05/16] fix: comparing a rectangular grid with another kind of
 grid is False, not an error

---
 vspec_vsm/coordinate_grid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 8f5433b..19881ee 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -339,10 +339,15 @@ class RectangularGrid(CoordinateGrid):
             If `other` is not a CoordinateGrid object.
 
         """
-        if not isinstance(other, RectangularGrid):
-            raise TypeError('other must be of type RectangularGrid')
+        if isinstance(other, CoordinateGrid):
+            if isinstance(other, RectangularGrid):
+                return (self.nlat == other.nlat) & (self.nlon == other.nlon)
+            else:
+                warnings.warn(
+                    'Comparing two different subclasses of CoordinateGrid. Evaluating to False.')
+                return False
         else:
-            return (self.nlat == other.nlat) & (self.nlon == other.nlon)
+            raise TypeError('other must be of type CoordinateGrid')
 
     @property
     def _area(self) -> np.ndarray:
-- 
2.43.0


From 490462fcf7fa39d34db8673218fb46ad21e4061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 06/16] fix: a decaying spot never reaches a negative area

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 9545480..3ebcde8 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From d37bd4363cee9b8cb02fb8359559d6ace637b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 07/16] fix: calc_coverage loses no area when temperatures
 share a label or no photosphere is left

---
 vspec_vsm/spots.py |  2 +-
 vspec_vsm/star.py  | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 3ebcde8..f7fa91f 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 4972e85..c86653d 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,15 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            # different temperatures can have the same label
+            label = f'{teff:.2f}'
+            total_data[label] = total_data.get(label, 0) + nominal_area/total_area
+            covered_data[label] = covered_data.get(label, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        for teff in (granulation_teff, self.teff):
+            total_data.setdefault(f'{teff:.2f}', 0)
+            covered_data.setdefault(f'{teff:.2f}', 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 226ad581ac54941b0a7914f1aebe4dbeec593008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 08/16] fix: get_angle_between is never NaN by rounding

---
 vspec_vsm/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..3310aa8 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
-- 
2.43.0


From 71009d494f5ef01d936236fc659d9cc8727f892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 09/16] fix: calc_circ_fraction_inside_unit_circle is never NaN
 at tangency

---
 vspec_vsm/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 3310aa8..7cf9039 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -273,7 +273,8 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
-        return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
+        cos_half = np.clip(_d/_R, -1, 1)
+        return _R**2 * (np.arccos(cos_half) - cos_half * np.sqrt(1 - cos_half**2))
     A1 = area(R, d1)
     A2 = area(r, d2)
     area_of_intersection = A1+A2
-- 
2.43.0


From 3ba5ace6f4c1359d7cad41d9a6b8c99f3ccc6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 10/16] fix: proj_ortho is never NaN by rounding on the near
 side

---
 vspec_vsm/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 7cf9039..354f966 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -188,6 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
+        mu = np.clip(mu, -1, 1)
         a = np.arccos(mu)
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
@@ -197,7 +198,7 @@ def proj_ortho(
             num / den,
             1
         )
-        cos_C = np.round(cos_C, 4)
+        cos_C = np.clip(np.round(cos_C, 4), -1, 1)
         C = np.where(
             lons == lon0,
             0, np.arccos(cos_C)
-- 
2.43.0


From a44283cdeb9d840e06879fdb1d01a8b0788ae35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 11/16] fix: proj_ortho honours the central longitude at the
 poles

---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 354f966..e760b8a 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From 9edc8381a7f3744a020f67d0d7909ba52857475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 12/16] fix: display_grid of a spiral grid is never NaN by
 rounding

---
 vspec_vsm/coordinate_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 19881ee..97223a5 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -489,7 +489,7 @@ class SpiralGrid(CoordinateGrid):
 
         for value, lat, lon in zip(data, data_lat, data_lon):
             cos_r = rect.cos_angle_from_disk_center(lat, lon)
-            r = np.arccos(cos_r)
+            r = np.arccos(np.clip(cos_r, -1, 1))
             weight = np.exp(-(r/characteristic_len)**2)
             numerator += weight*value
             denominator += weight
-- 
2.43.0


From 1150ca0932a692a86cd740e4361aedee69eb2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 13/16] fix: the flare integral covers both ends of a short
 exposure

---
 vspec_vsm/flares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index cdb94e6..ac50007 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -680,6 +680,7 @@ class FlareCollection:
         flare_timeareas = []
         time_resolution = 10*u.min
         N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = max(N_steps, 2)
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 8e527f93188472a645c7a0a37f2689fe43e50380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 14/16] fix: mean spot area integrates the growth phase from
 the initial area

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index f7fa91f..86ec322 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From 25436fe74574eb8698ef18c4051617e58309e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 15/16] fix: facula wall and floor temperatures must differ
 after rounding

---
 vspec_vsm/faculae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..066737d 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -242,7 +242,7 @@ class Facula:
 
         
         """
-        if self.floor_dteff == self.wall_dteff:
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
         if self.radius < self.floor_teff_min_rad:
-- 
2.43.0


From a77ad37f457c92362830b48ec5d8441b3f6a882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:24 +0000
Subject: [PATCH 16/16] fix: StarSpot.surface_fraction is never NaN by rounding

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 86ec322..b92a773 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0

