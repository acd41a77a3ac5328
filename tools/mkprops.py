"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V = 'vspec_vsm/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[V+f for f in files],
                          mechanism=[dict(name=n, where=V+w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=V+w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Disk temperature fractions are a partition of the visible disk',
  'For every star, set of spots and faculae, granulation fraction in [0,1], viewing direction and limb-darkening law that keeps the disk non-negative, the reported per-temperature surface fractions are each in [0,1] and sum to 1. This holds whatever temperatures coincide (spot, facula, granule or photosphere temperatures that are equal or print the same), and also when no photosphere at all is visible.',
  ['inputs', 'configurations'], 'all temperature maps, all coincidences between temperatures, all granulation fractions, all viewing directions',
  'Tests look at a spotless star only, where a single temperature gets fraction 1.0; losing area needs two temperatures that collide or a missing photosphere entry.',
  ['star.py'], [('coverage bookkeeping', 'star.py:calc_coverage'), ('map of the surface', 'star.py:add_faculae_to_map')],
  observe=['Star.calc_coverage()[0]'])
p('C02', 'A temperature\'s fraction is its limb-darkened projected area share',
  'The fraction reported for a temperature equals the sum over visible surface cells of that temperature of (cell area x cosine of the viewing angle x limb-darkening 1-u1(1-mu)-u2(1-mu)^2), divided by the same sum over all visible cells; cells on the far hemisphere contribute nothing. Granulation moves exactly its fraction of the photosphere share to the temperature dteff below the photosphere and changes no other share.',
  ['inputs', 'configurations'], 'all cell positions and areas, limb-darkening coefficients, viewing directions and granulation fractions',
  'No test has two temperatures on the disk together with limb darkening or granulation, so weights cancel in every tested case.',
  ['star.py', 'coordinate_grid.py'], [('weights', 'star.py:ld_mask_for_plotting'), ('projection', 'star.py:area_projection_coefficient'), ('mu', 'coordinate_grid.py:cos_angle_from_disk_center')],
  observe=['Star.calc_coverage()[0]', 'Star.ld_mask', 'Star.ld_mask_for_plotting'])
p('C03', 'A planet never occults more than is there, and only from in front',
  'For every orbit, phase, inclination and planet not larger than the star, the occulted fraction reported for each temperature lies between 0 and that temperature\'s total fraction, and each cell\'s occulted fraction is in [0,1]. It is exactly zero everywhere when the planet is on the far half of its orbit (closer to phase 0 than to 180 degrees) or is outside the stellar disk by more than its own diameter; otherwise a cell on the visible disk whose projected centre is deeper inside the planet\'s disk than its projected size has occulted fraction 1 and a cell clearly outside has 0.',
  ['inputs', 'configurations'], 'all phases, inclinations, orbit and planet radii, viewing directions and cell positions',
  'Tests use mid-transit at the equator only; far-side phases, grazing transits and poles are never exercised.',
  ['star.py', 'helpers.py'], [('mask', 'star.py:get_transit_mask'), ('bookkeeping', 'star.py:calc_coverage')],
  observe=['Star.get_transit_mask()[0]', 'Star.calc_coverage()[1]'])
p('C04', 'The visible fraction of the planet is the un-eclipsed part of its disk',
  'The reported visible fraction of the planet is a number in [0,1], never undefined, for every orbit, phase, inclination and planet no larger than the star. It is 1 whenever the planet is on the near half of its orbit or its disk lies clear of the star, 0 when it is entirely behind the star, and in between it is one minus the area share of the planet\'s disk overlapping the star\'s disk.',
  ['inputs'], 'all planet positions including tangency, all radii in (0, R_star]',
  'Tests evaluate the overlap at four points and never the eclipse itself; tangent disks sit on a rounding boundary no sample hits.',
  ['helpers.py', 'star.py'], [('circle overlap', 'helpers.py:calc_circ_fraction_inside_unit_circle'), ('eclipse', 'star.py:get_pl_frac'), ('phase test', 'star.py:get_transit_mask')],
  observe=['Star.get_transit_mask()[1]', 'Star.get_pl_frac', 'calc_circ_fraction_inside_unit_circle'])
p('C05', 'Projected cell positions are the orthographic projection',
  'For every sub-observer point, including both poles, each visible surface point is placed at x = cos(lat) sin(lon-lon0), y = cos(lat0) sin(lat) - sin(lat0) cos(lat) cos(lon-lon0) to within 0.02 stellar radii, and each point on the far hemisphere is marked undefined. The placement depends on longitudes only through their difference.',
  ['inputs'], 'all sub-observer points (poles included) and all surface points',
  'Tests check six points away from the poles.',
  ['helpers.py'], [('projection', 'helpers.py:proj_ortho')], observe=['proj_ortho'])
p('C06', 'Angular distances on the sphere are exact, symmetric and defined',
  'The angle between any two surface points is defined for all coordinates (coincident and antipodal points included), lies in [0, 180] degrees, is symmetric, is unchanged by adding full turns to a longitude, and its cosine is the dot product of the two unit vectors. The grid\'s cosine of the viewing angle and the cell-to-feature distance used for spots and faculae are the same quantity.',
  ['inputs'], 'all pairs of points on the sphere',
  'Tests check six pairs to within one degree; coincident points at generic latitude, where rounding leaves the arccosine domain, are not among them.',
  ['helpers.py', 'coordinate_grid.py', 'spots.py', 'faculae.py'],
  [('law of cosines', 'helpers.py:get_angle_between'), ('mu', 'coordinate_grid.py:cos_angle_from_disk_center'), ('haversine', 'spots.py:set_gridmaker'), ('haversine', 'faculae.py:_r')],
  observe=['get_angle_between', 'CoordinateGrid.cos_angle_from_disk_center', 'StarSpot.r'])
p('C07', 'A spot or facula covers exactly the cells within its angular radius',
  'A cell is marked as covered by a spot exactly when its great-circle distance from the spot centre is smaller than the angular radius of the spherical cap whose area is the spot\'s current area; the umbra is a concentric cap whose radius is smaller by the square root of the spot-to-umbra area ratio, so it is contained in the spot. A facula covers exactly the cells within (radius / stellar radius) radians of its centre.',
  ['inputs'], 'all positions, areas up to the stellar surface, area ratios >= 1 and stellar radii',
  'Tests count pixels of a few spots at latitude 0 on one grid to within 1-5 percent.',
  ['spots.py', 'faculae.py'], [('cap radius', 'spots.py:angular_radius'), ('umbra and penumbra masks', 'spots.py:StarSpot.map_pixels'), ('facula mask', 'faculae.py:Facula.map_pixels')],
  observe=['StarSpot.map_pixels', 'StarSpot.radius', 'Facula.map_pixels'])
p('C08', 'The spot map shows the coolest temperature covering each cell',
  'With umbrae no hotter than their penumbrae, every cell of the spot map carries the minimum of the photosphere temperature and the temperatures of all spot umbrae and penumbrae covering it. The map therefore does not depend on the order in which spots were added, never exceeds the photosphere temperature, and the reported spot coverage is the area share of cells covered by at least one spot.',
  ['inputs', 'histories'], 'all sets and orders of overlapping spots and all temperatures, equal ones included',
  'One test overlaps two concentric spots in a single order.',
  ['spots.py', 'star.py'], [('map', 'spots.py:SpotCollection.map_pixels'), ('coverage', 'spots.py:SpotCollection.get_coverage'), ('property', 'star.py:map')],
  observe=['Star.map', 'SpotCollection.map_pixels', 'SpotCollection.get_coverage'])
p('C09', 'Spot ageing follows growth then linear decay, whatever the time steps',
  'A spot grows by its fractional growth rate per day until it reaches its maximum area and from that instant shrinks linearly at its decay rate until zero, so its area always stays between 0 and its maximum and it never grows again once decaying. Ageing by t1 and then t2 gives the same area and phase as ageing once by t1+t2, for all step sizes and any unit of time.',
  ['inputs', 'histories'], 'all starting states, rates and sequences of time steps, including steps that straddle the peak or the end of life',
  'Tests follow three fixed histories whose steps end exactly on the transition points.',
  ['spots.py'], [('ageing', 'spots.py:StarSpot.age')],
  state=[('area_current', 'current area', 'spots.py:StarSpot'), ('is_growing', 'growth phase flag', 'spots.py:StarSpot')],
  observe=['StarSpot.area_current', 'StarSpot.is_growing'])
p('C10', 'Facula ageing is exponential growth then decay, whatever the time steps',
  'A facula\'s radius grows by a factor e^2 per lifetime until it reaches its maximum and from that instant decays by the same rate; it always stays positive and never above its maximum, and never grows again once decaying. Ageing by t1 then t2 equals ageing once by t1+t2 for all step sizes and any unit of time.',
  ['inputs', 'histories'], 'all starting states, lifetimes and step sequences, including steps that straddle the peak',
  'One test takes two half-lifetime steps landing exactly on the peak.',
  ['faculae.py'], [('ageing', 'faculae.py:Facula.age')],
  state=[('radius', 'current radius', 'faculae.py:Facula'), ('is_growing', 'growth phase flag', 'faculae.py:Facula')],
  observe=['Facula.radius', 'Facula.is_growing'])
p('C11', 'Ageing the star removes exactly the features that have died',
  'After the star or a collection is aged, every feature has been aged exactly once by the given time; spots that finished decaying to zero area and decaying faculae at or below their maximum radius divided by e^2 are gone, every other feature is still present, in order and only once. A growing feature is never removed, and features can still be added afterwards.',
  ['inputs', 'histories'], 'all mixtures of growing, decaying and dead features, all time steps, repeated ageing and adding',
  'Tests age one spot or four identical faculae.',
  ['spots.py', 'faculae.py', 'star.py'], [('cleaning', 'spots.py:clean_spotlist'), ('cleaning', 'faculae.py:clean_faclist'), ('star step', 'star.py:age'), ('adding', 'spots.py:add_spot'), ('adding', 'faculae.py:add_faculae')],
  state=[('spots', 'live spots', 'spots.py:SpotCollection'), ('faculae', 'live faculae', 'faculae.py:FaculaCollection')],
  observe=['SpotCollection.spots', 'FaculaCollection.faculae'])
p('C12', 'A facula\'s wall and floor split its projected area exactly',
  'For every viewing angle off the limb, the hot-wall and cool-floor areas of a facula add up to pi r^2 cos(angle), each share lies in [0,1] and the shares add to 1; the floor share is the overlap share of two equal disks whose centres are depth*tan(angle)/radius radii apart, so a flat facula is all floor and one smaller than its threshold radius is all wall. The two areas are labelled with the wall and floor temperature excesses rounded to the nearest kelvin, or the request is refused when these coincide.',
  ['inputs'], 'all radii, depths, thresholds, angles and temperature laws',
  'Tests evaluate five angles for one radius.',
  ['faculae.py', 'helpers.py'], [('areas', 'faculae.py:effective_area'), ('shares', 'faculae.py:fractional_effective_area'), ('temperature laws', 'faculae.py:floor_dteff'), ('temperature laws', 'faculae.py:wall_dteff')],
  observe=['Facula.effective_area', 'Facula.fractional_effective_area'])
p('C13', 'Faculae repaint exactly their own cells, wall towards the limb',
  'On the combined map, cells outside every facula keep the spot-map temperature, and each cell inside a facula carries either the wall or the floor temperature of the last facula covering it (photosphere plus rounded excess, held within the model bounds 2300-3900 K). Within one facula every wall cell is at least as far from disk centre as every floor cell, a facula with no floor share is all wall, and a facula smaller than a cell changes nothing.',
  ['inputs', 'configurations'], 'all viewing directions, facula positions, overlaps and temperatures',
  'No test looks at the combined map at all.',
  ['star.py', 'helpers.py', 'faculae.py'], [('painting', 'star.py:add_faculae_to_map'), ('bounds', 'helpers.py:clip_teff')],
  observe=['Star.add_faculae_to_map'])
p('C14', 'Every feature lives on the star\'s grid, however it was made',
  'Whatever grid a spot or facula was built on, once it belongs to a collection or a star (through the constructor, add, or birth) it is mapped on that star\'s grid: its mask has the grid\'s shape and covers exactly the cells it would cover had it been built on that grid. This holds across rectangular and spiral grids in any combination, and after the collection\'s grid is replaced.',
  ['configurations', 'histories'], 'all combinations of the grids of feature, collection, generator and star, and all orders of construction, adding and re-gridding',
  'Tests compare grid objects but never map a feature that changed grid.',
  ['spots.py', 'faculae.py', 'star.py', 'coordinate_grid.py'], [('adopt grid', 'spots.py:add_spot'), ('adopt grid', 'faculae.py:add_faculae'), ('star constructor', 'star.py:__init__'), ('distance cache', 'spots.py:set_gridmaker'), ('comparison', 'coordinate_grid.py:__eq__')],
  state=[('r', 'cached distance of every cell from the spot centre', 'spots.py:StarSpot')],
  observe=['Star.map', 'Star.add_faculae_to_map', 'StarSpot.map_pixels'])
p('C15', 'Grid cells tile the sphere',
  'For every grid size, latitudes lie in [-90,90] degrees, longitudes in [0,360), the coordinate arrays, area array and zero array have one and the same shape, and cell areas are non-negative and sum to 1. On a rectangular grid latitudes run evenly from pole to pole, longitudes are evenly spaced starting at 0 and area is proportional to cos(latitude); on a spiral grid all areas are equal, the latitude of point i has sine 1-(2i+1)/n, and consecutive longitudes differ by a full turn divided by the golden ratio.',
  ['configurations'], 'all grid sizes and every cell index',
  'Tests look at one size of each grid and at shapes and ranges only.',
  ['coordinate_grid.py'], [('points', 'coordinate_grid.py:RectangularGrid._grid'), ('points', 'coordinate_grid.py:SpiralGrid._grid'), ('areas', 'coordinate_grid.py:_area')],
  observe=['CoordinateGrid.grid', 'CoordinateGrid.area', 'CoordinateGrid.zeros'])
p('C16', 'Grid comparison is an equivalence that never fails between grids',
  'Comparing any two grids gives a boolean: equal exactly when both are of the same kind with the same size parameters; the result is symmetric, and inequality is its negation. Comparing with something that is not a grid is refused with a type error, and a grid is built as spiral from an int and as rectangular from a pair.',
  ['inputs', 'configurations'], 'all pairs of grids of both kinds and all sizes',
  'Tests compare grids of one kind only.',
  ['coordinate_grid.py'], [('comparison', 'coordinate_grid.py:RectangularGrid.__eq__'), ('comparison', 'coordinate_grid.py:SpiralGrid.__eq__'), ('factory', 'coordinate_grid.py:CoordinateGrid.new')],
  observe=['==', 'CoordinateGrid.new'])
p('C17', 'Resampling for display averages and never invents values',
  'Resampling spiral-grid data to a rectangular display returns an array of the requested shape in the data\'s unit whose every value is defined and lies between the smallest and largest input value (so constant data stay constant), and is linear in the data with nearer points weighing more. A rectangular grid returns its own data unchanged, with its own coordinates, and refuses data whose shape does not match.',
  ['inputs', 'configurations'], 'all data, grid sizes and display sizes',
  'Tests check shapes and units only.',
  ['coordinate_grid.py'], [('resampling', 'coordinate_grid.py:SpiralGrid._display_grid'), ('pass-through', 'coordinate_grid.py:RectangularGrid._display_grid')],
  observe=['CoordinateGrid.display_grid'])
p('C18', 'Spot birth rate sustains the requested coverage',
  'The expected number of new spots in a time interval is proportional to that interval and to the requested coverage, and times the mean spot area times the mean spot lifetime it equals coverage x stellar surface x interval. The mean lifetime is the growth time log(Amax/A0)/growth plus the decay time Amax/decay, the mean area is the area integrated over exponential growth and linear decay divided by that lifetime and so never exceeds the mean peak area; spots that do not decay live for ever and none are born.',
  ['inputs'], 'all positive areas, rates, radii, coverages and intervals',
  'Tests check a zero-coverage generator and one lifetime value; mean area is not tested.',
  ['spots.py'], [('rate', 'spots.py:get_n_spots_to_birth'), ('lifetime', 'spots.py:mean_lifetime'), ('mean area', 'spots.py:mean_area')],
  observe=['SpotGenerator.get_n_spots_to_birth', 'SpotGenerator.mean_area', 'SpotGenerator.mean_lifetime'])
p('C19', 'Facula birth rate follows the documented balance',
  'The expected number of new faculae in a time t on a star of radius R with coverage X is X 4 pi R^2 t / (2 tau A), with tau the peak lifetime and A = pi r0^2 (1-e^-2)/2 the mean area for peak radius r0; it is non-negative, proportional to t and X, and zero for zero coverage, in any units.',
  ['inputs'], 'all positive radii, lifetimes, coverages and intervals',
  'The facula generator\'s rate is not tested.',
  ['faculae.py'], [('rate', 'faculae.py:get_n_faculae_expected'), ('mean area', 'faculae.py:mean_area')],
  observe=['FaculaGenerator.get_n_faculae_expected'])
p('C20', 'Born spots and faculae are well-formed, as many as drawn',
  'A birth event creates exactly as many features as the random count drawn with the expected mean. Each has a longitude in [0,360), an isotropic latitude whose sine is uniform in [-1,1] (or a solar latitude 15+-5 degrees mirrored into either hemisphere), starts growing at the configured initial size (spots: init area; faculae: maximum radius / e^2), with positive maximum size, lifetime and area ratio, and inherits the generator\'s temperatures, rates, depth and grid; each feature uses its own draws.',
  ['inputs', 'histories'], 'all values the random source can return and all generator parameters',
  'Tests generate three spots and check their number and initial area; generated faculae are not tested.',
  ['spots.py', 'faculae.py', 'star.py'], [('spots', 'spots.py:generate_spots'), ('positions', 'spots.py:get_coordinates'), ('faculae', 'faculae.py:generate_faculae'), ('positions', 'faculae.py:get_coords'), ('star', 'star.py:birth_spots')],
  observe=['SpotGenerator.birth_spots', 'FaculaGenerator.birth_faculae', 'Star.birth_spots', 'Star.birth_faculae'])
p('C21', 'Mature spots reach the requested coverage and no more than one spot over',
  'Generating mature spots for a coverage in [0,1] returns spots whose summed solid angles (pi times angular radius squared) reach coverage x 4 pi steradian, while without the last spot they would fall short; zero coverage returns none, and coverages outside [0,1] are refused. Non-decaying spots get an area between the initial and their maximum area; others are aged by less than the mean lifetime.',
  ['inputs', 'histories'], 'all random draws, coverages and stellar radii',
  'Tests check that some spot is bigger than the initial size.',
  ['spots.py', 'star.py'], [('loop', 'spots.py:generate_mature_spots'), ('star', 'star.py:generate_mature_spots')],
  observe=['SpotGenerator.generate_mature_spots', 'Star.generate_mature_spots'])
p('C22', 'A flare radiates exactly its energy',
  'A flare\'s peak area is such that Stefan-Boltzmann emission sigma T^4 times its area curve integrated over the whole flare equals the flare\'s energy, for every energy, temperature, duration and unit. Peak area is therefore positive, proportional to energy, and inversely proportional to duration and to the fourth power of temperature.',
  ['inputs'], 'all energies, temperatures and durations',
  'No test evaluates a flare\'s area.',
  ['flares.py', 'xoflares.py'], [('normalisation', 'flares.py:calc_peak_area'), ('template integral', 'xoflares.py:_flareintegralnp'), ('template', 'xoflares.py:_flaremodelnp')],
  observe=['StellarFlare.calc_peak_area', 'StellarFlare.areacurve'])
p('C23', 'Flare light curves are compact, bounded and additive',
  'A flare\'s area is zero earlier than one FWHM before its peak and later than 20 FWHM after it, is non-negative in between, equals the peak area at the peak time and never exceeds it, falls monotonically after the peak, and depends on time only through (t - tpeak)/FWHM. The curve of several flares is the sum of their individual curves, in any order.',
  ['inputs'], 'all times, peak times, durations, amplitudes and sets of flares',
  'No test evaluates a light curve.',
  ['xoflares.py', 'flares.py'], [('template', 'xoflares.py:_flaremodelnp'), ('sum', 'xoflares.py:multiflaremodelnp'), ('area curve', 'flares.py:areacurve')],
  observe=['StellarFlare.areacurve', 'get_light_curvenp'])
p('C24', 'No flare that shines in the window is missed, no hidden flare is shown',
  'Selecting flares for a time window returns, in order, every flare whose area is non-zero at some time inside the window, and no flare that ended before it or whose peak lies more than 10 FWHM after it. Selecting visible flares keeps exactly those among them that lie on the hemisphere facing the observer; without an observer direction the observer is at latitude 0, longitude 0.',
  ['inputs', 'histories'], 'all sets of flares, windows, positions and observer directions, all time units',
  'Tests check only that a list of flares is returned.',
  ['flares.py', 'star.py'], [('time mask', 'flares.py:mask'), ('index', 'flares.py:index'), ('visibility', 'flares.py:get_visible_flares_in_timeperiod')],
  observe=['FlareCollection.get_flares_in_timeperiod', 'FlareCollection.get_visible_flares_in_timeperiod'])
p('C25', 'A flare\'s exposure integral is the area under its curve over the window',
  'For every visible flare in a time window the reported time-area is a quadrature of its area curve over exactly that window: it is non-negative, lies between the window length times the smallest and the largest area taken within the window, and is positive whenever the flare shines through the whole window, however short the window. The flare is reported with its own temperature, one entry per visible flare.',
  ['inputs'], 'all windows (also shorter than the internal time resolution), flares and units',
  'The integral is never tested; short exposures need a window below 20 minutes.',
  ['flares.py', 'star.py'], [('quadrature', 'flares.py:get_timearea'), ('sampling', 'flares.py:get_flare_integral_in_timeperiod')],
  observe=['FlareCollection.get_flare_integral_in_timeperiod', 'Star.get_flare_int_over_timeperiod', 'StellarFlare.get_timearea'])
p('C26', 'Flare energies follow one consistent power law',
  'The rate of flares above an energy is 10^beta (E/erg)^alpha per day; the cumulative distribution, its density and its quantile function describe the same law: the quantile function maps [0,1) increasingly onto energies of at least the minimum energy and inverts the cumulative distribution, 1-cdf is the rate above E relative to the rate above the minimum energy, and the density (per erg) is the derivative of the cumulative distribution. Draws outside [0,1) are refused.',
  ['inputs'], 'all energies, alpha < 0, beta, minimum energies, units',
  'None of these functions is tested.',
  ['flares.py'], [('rate', 'flares.py:frequency_greater_than'), ('cdf', 'flares.py:cdf'), ('pdf', 'flares.py:pdf'), ('quantile', 'flares.py:quantile_func')],
  observe=['FlareGenerator.cdf', 'FlareGenerator.quantile_func', 'FlareGenerator.pdf', 'FlareGenerator.get_nexp_greater_than'])
p('C27', 'A flare series has as many flares as drawn, in time order',
  'For every outcome of the random source, a generated series has exactly the drawn number of flares (none when zero is drawn), every energy is at least the minimum energy, peak times are non-negative and never decrease along the series, widths are positive, latitudes lie in [-90,90] and longitudes in [0,360) degrees, and each flare carries its own draws.',
  ['inputs', 'histories'], 'all values the random source can return, all cluster sizes and counts',
  'Tests check the length for one seed-dependent draw of ten flares.',
  ['flares.py', 'star.py'], [('peaks', 'flares.py:get_peaks'), ('series', 'flares.py:generate_flare_series')],
  observe=['FlareGenerator.generate_flare_series', 'FlareGenerator.get_peaks', 'Star.get_flares_over_observation'])
p('C28', 'Granulation coverage is always a fraction',
  'For every outcome of the underlying random process, including undefined samples, the granulation coverage reported by the star is a number in [0,1] per requested time, equal to the sampled value wherever that already lies in [0,1] and to the nearest bound otherwise, and 0 where the sample is undefined. It is identically 0 when the granules have no temperature contrast or when mean and amplitude are zero, and any other parameters, a zero mean included, are accepted.',
  ['inputs', 'configurations'], 'all sampled processes and granulation parameters',
  'Tests check one random sample and never the zero-mean or undefined cases.',
  ['granules.py', 'star.py'], [('clipping', 'granules.py:save_cast_coverage'), ('switches', 'star.py:get_granulation_coverage'), ('sampling', 'granules.py:get_coverage')],
  observe=['Star.get_granulation_coverage', 'Granulation.get_coverage'])
p('C29', 'The granulation kernel is a stationary damped oscillation',
  'The covariance between two times depends only on their separation, is symmetric, is largest in magnitude at zero separation where it equals scale/(period sqrt 2), and is scale/period exp(-x) cos(x - pi/4) at separation x period sqrt 2; the process has the configured mean, and times given in any unit are converted to hours.',
  ['inputs'], 'all pairs of times, scales and periods',
  'Tests only call the kernel once without looking at the value.',
  ['granules.py'], [('kernel', 'granules.py:GranulationKernel.evaluate'), ('process', 'granules.py:build_gp')],
  observe=['GranulationKernel.evaluate', 'Granulation.get_coverage'])
p('C30', 'The mean disk temperature lies between the coolest and the hottest',
  'The average effective temperature of the disk is defined for every star and viewing direction and is the fourth root of the fraction-weighted mean of the fourth powers of the reported temperatures, so it lies between the smallest and the largest temperature present on the disk and equals the photosphere temperature for a featureless star.',
  ['inputs', 'configurations'], 'all temperature maps and viewing directions',
  'The method is never called by a test.',
  ['star.py'], [('average', 'star.py:average_teff')], observe=['Star.average_teff'])
p('C31', 'Results do not depend on the units inputs are expressed in',
  'Expressing the same time, length, area, energy, angle or rate in another compatible unit (hours or days, km or solar radii, msh or km^2, erg or J, degrees or radians) changes no result of ageing, mapping, footprint, coverage, transit, eclipse, birth-rate, flare-area, flare-selection, flare-integral or granulation computations.',
  ['inputs', 'configurations'], 'all inputs, for every choice of compatible units',
  'Tests use one unit per quantity.',
  ['spots.py', 'faculae.py', 'flares.py', 'star.py', 'granules.py', 'helpers.py', 'xoflares.py'], [('conversions', 'flares.py:areacurve'), ('conversions', 'spots.py:age'), ('conversions', 'faculae.py:angular_radius'), ('conversions', 'star.py:get_transit_mask')],
  observe=['all public results'])
p('C32', 'Only relative longitude matters',
  'Rotating the observer and every spot, facula and grid point by the same longitude, or adding whole turns to any longitude, changes neither the temperature map, the disk fractions, the occulted fractions nor the set of visible flares.',
  ['inputs', 'configurations'], 'all configurations, all rotations (for a given grid: all rotations that map the grid to itself)',
  'Tests observe from longitude 0 only.',
  ['star.py', 'helpers.py', 'coordinate_grid.py', 'spots.py', 'faculae.py', 'flares.py'], [('mu', 'coordinate_grid.py:cos_angle_from_disk_center'), ('projection', 'helpers.py:proj_ortho'), ('distance', 'spots.py:set_gridmaker')],
  observe=['Star.calc_coverage', 'FlareCollection.get_visible_flares_in_timeperiod'])
p('C33', 'Temperature rounding and clipping are faithful',
  'Rounding a temperature returns an integer number in the same unit at most one half away and is the identity on integers; clipping returns the temperature itself inside 2300-3900 K and the nearest bound outside, so it is idempotent and order-preserving.',
  ['inputs'], 'all temperatures',
  'Tests use four values.',
  ['helpers.py', 'config.py'], [('rounding', 'helpers.py:round_teff'), ('clipping', 'helpers.py:clip_teff')],
  observe=['round_teff', 'clip_teff'])
p('C34', 'A star with everything switched off does nothing',
  'A star built without generators and granulation never gains a spot, facula or flare over any time, reports zero granulation, and its disk is its photosphere temperature with fraction 1 from every direction for any limb darkening.',
  ['inputs', 'histories'], 'all durations, viewing directions, stellar parameters and random outcomes',
  'Tests check one viewing direction at default parameters.',
  ['star.py', 'spots.py', 'faculae.py', 'flares.py', 'granules.py'], [('off generators', 'spots.py:off'), ('off generators', 'faculae.py:off'), ('off generators', 'flares.py:off'), ('off granulation', 'granules.py:off')],
  observe=['Star.birth_spots', 'Star.birth_faculae', 'Star.get_flares_over_observation', 'Star.get_granulation_coverage'])
p('C35', 'A single spot\'s disk fraction is non-negative and vanishes out of view',
  'The disk fraction reported for one spot is non-negative, is zero when the spot\'s whole angular extent lies on the far hemisphere, depends only on its angular distance from disk centre and its angular radius, and does not decrease when the spot grows.',
  ['inputs'], 'all spot positions, areas and observer directions',
  'Tests evaluate two directions.',
  ['spots.py'], [('strip integral', 'spots.py:surface_fraction')], observe=['StarSpot.surface_fraction'])
p('C36', 'Seeded runs are reproducible',
  'All randomness comes from the random generator or seed the user supplies: repeating any sequence of birth, mature-spot, flare or granulation operations with the same generator outputs and seeds gives identical features and values, and two generators fed from different sources do not influence one another.',
  ['inputs', 'histories'], 'all outcomes of the supplied generator and all operation sequences',
  'Tests use unseeded module-level generators.',
  ['spots.py', 'faculae.py', 'flares.py', 'granules.py', 'star.py'], [('rng plumbing', 'spots.py:SpotGenerator'), ('rng plumbing', 'faculae.py:FaculaGenerator'), ('rng plumbing', 'flares.py:FlareGenerator'), ('seed', 'granules.py:get_coverage')],
  observe=['generated features'])
p('C37', 'Surface plots show the modelled star',
  'The plotted surface shows, at every displayed position, the temperature of the combined map, the occulting planet in front of the disk during transit and behind it otherwise, and the limb-darkening shading of the model.',
  ['inputs', 'configurations'], 'all stars and viewing geometries',
  'Plotting is not tested.',
  ['star.py'], [('plot', 'star.py:plot_surface')], observe=['Star.plot_surface'])
p('C38', 'Granulation time series have the kernel\'s covariance',
  'Sampled granulation series are draws of a Gaussian process whose covariance matrix is the kernel evaluated on all pairs of times, which is positive semi-definite for every set of times, scale and period.',
  ['inputs'], 'all sets of times and parameters',
  'Statistical; tests draw one sample.',
  ['granules.py'], [('process', 'granules.py:build_gp')], observe=['Granulation.get_coverage'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
