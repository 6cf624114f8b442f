"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
I = ["inputs"]; IC = ["inputs", "configurations"]; H = ["histories", "inputs"]

p("C01", "Every value is assigned to exactly the half-open bin containing it",
  "Bin-index assignment puts a value v in bin i exactly when edges[i] <= v < edges[i+1]; values below the first edge get the underflow sentinel, values at or above the last edge and NaN get the overflow sentinel, and the returned validity mask is true exactly for the values inside a bin. The result depends only on the physical values, so expressing data and edges in different compatible units changes nothing, and a Quantity binned with unitless edges is a TypeError.",
  I, "for every strictly increasing edge array (finite or with infinite ends, uniform or not, one bin or many), every value including edges, neighbours of edges, +-inf and NaN, every unit pair",
  "tests look at a few hand-picked values in a uniform grid; off-by-one on edges, NaN, infinite edges and mixed units are not sampled",
  ["pyirf/binning.py"], [("np.digitize minus one plus sentinels", "pyirf/binning.py:calculate_bin_indices")],
  observe=["pyirf.binning.calculate_bin_indices"])
p("C02", "Event histograms conserve events, weights and particle-type totals",
  "A histogram table counts every event inside the binning exactly once in its bin (bins half-open, the very last edge inclusive) and none outside it; n_weighted is the sum of the weights of exactly those events (equal to n when there are no weights), and for each particle type present the per-type columns follow the same rule so that they add up to the totals. Bin low/high/center columns describe the binning that was passed.",
  I, "for every event table (empty, single event, with or without weight and particle_type columns, repeated values, events on edges, out of range), every key and every binning",
  "tests compare total counts for a couple of random tables; which bin each event, weight and particle lands in is not checked",
  ["pyirf/binning.py"], [("np.histogram per column and per group", "pyirf/binning.py:create_histogram_table")],
  state=[dict(name="n, n_weighted, n_<type>, n_<type>_weighted", meaning="accumulated tallies per bin", where="returned QTable")],
  observe=["pyirf.binning.create_histogram_table"])
p("C03", "Bin-edge helpers are inverse to each other and never lose or invent edges",
  "Splitting edges into low/high parts and joining them again returns the original edges for any leading dimensions, and joining parts that do not match raises ValueError. Adding overflow bins keeps every original edge and adds an outer edge (0 or -inf below, inf above, in the units of the bins) only where the range does not already extend that far. Bins per decade start at the lower limit, are logarithmically equidistant with the requested number per decade, never exceed the upper limit, and include it when it fits the spacing; bin centers are the midpoints.",
  I, "for every edge array of any dimension and unit, both overflow modes, every energy range and number of bins per decade",
  "tests try one or two arrays per helper",
  ["pyirf/binning.py"], [("allclose guarded concatenate", "pyirf/binning.py:join_bin_lo_hi"), ("conditional append", "pyirf/binning.py:add_overflow_bins"), ("arange in log10", "pyirf/binning.py:create_bins_per_decade")],
  observe=["pyirf.binning.join_bin_lo_hi", "split_bin_lo_hi", "add_overflow_bins", "create_bins_per_decade", "bin_center"])
p("C04", "Histogram resampling conserves contents along the chosen axis",
  "Resampling a histogram onto new edges that are a subset of the old ones gives exactly the sums of the merged bins, along the chosen axis and with all other axes untouched; new edges covering the old range conserve each slice's total, new bins outside the old range are zero, empty slices stay empty, and the unit of the data is kept.",
  I, "for every histogram of 1 to 3 dimensions, any axis, integer or float contents, with or without units, finite or infinite outer old edges, any new edges",
  "tests use one identity and one random case on fixed shapes",
  ["pyirf/binning.py"], [("interpolated normalised cumulative sum", "pyirf/binning.py:resample_histogram1d")],
  observe=["pyirf.binning.resample_histogram1d"])
p("C05", "Percentile cuts are the per-bin percentile with fill, bounds and smoothing rules",
  "For each bin the cut equals the requested percentile(s) (linear interpolation, NaN values ignored) of exactly the values whose bin value falls in that bin, limited to [min_value, max_value] when given; a bin with fewer than min_events events gets the fill value, and n_events reports the number of events per bin. With several percentiles each column equals the single-percentile result; smoothing is a Gaussian filter along the bins with the edge values extended; units of values, fill value and limits are converted consistently.",
  IC, "for every value/bin_value array (finite or NaN data with ties, integers, quantities in any unit, empty input), every percentile or list of percentiles, min_events, limits, smoothing width and binning",
  "tests check a handful of normal samples to loose tolerance and never combine several percentiles with smoothing, integer data, limits and nearly empty bins",
  ["pyirf/cuts.py"], [("group_by bin index and nanpercentile", "pyirf/cuts.py:calculate_percentile_cut"), ("gaussian_filter1d", "pyirf/cuts.py:calculate_percentile_cut")],
  observe=["pyirf.cuts.calculate_percentile_cut"])
p("C06", "A binned cut selects exactly the events satisfying the cut of their own bin",
  "An event is selected if and only if its bin value lies inside the binning of the cut table and the comparison operator holds between its value and the cut of exactly that bin; events outside the binning are never selected, and evaluating with precomputed indices and their validity mask gives the same mask. Comparing cut tables says they match if and only if all tables hold the same binning and the same cut values, and a table that is not a QTable is rejected with ValueError.",
  IC, "for every cut table, every event list including events on bin edges, values equal to the cut, NaN, out-of-range events, all comparison operators, any units",
  "tests use one table with two bins and one operator",
  ["pyirf/cuts.py"], [("index gather plus operator", "pyirf/cuts.py:evaluate_binned_cut_by_index"), ("pairwise table comparison", "pyirf/cuts.py:compare_irf_cuts")],
  observe=["pyirf.cuts.evaluate_binned_cut", "evaluate_binned_cut_by_index", "compare_irf_cuts"])
p("C07", "Li & Ma significance follows formula 17 and is a finite non-negative number",
  "For all non-negative counts the significance equals Li & Ma formula 17, is zero when n_on <= alpha * n_off, is never NaN or negative when at least one count is positive, grows with n_on above the background expectation and falls with n_off. Integer, float, scalar and array inputs give the same numbers, arrays broadcast element by element, and scalar counts give a scalar.",
  I, "for every n_on, n_off >= 0 (zero, exact balance, tiny, huge, integer or float, scalar or array) and every alpha > 0",
  "tests evaluate a few published numbers; the balance point, zeros, extreme ratios and mixed scalar/array calls are not covered",
  ["pyirf/statistics.py"], [("log-likelihood terms with limits", "pyirf/statistics.py:li_ma_significance")],
  observe=["pyirf.statistics.li_ma_significance"])
p("C08", "Relative sensitivity is the smallest signal scaling meeting all three criteria",
  "The relative sensitivity of a positive excess is the smallest scaling of the signal for which the significance reaches min_significance, the scaled signal reaches min_signal_events, and the scaled signal reaches min_excess_over_background times the background; when it is finite all three hold at it and at least one is met with equality. No positive excess gives infinity, NaN inputs give NaN, negative counts raise ValueError, and array results equal the element-wise scalar results for every broadcastable argument.",
  IC, "for every n_on, n_off, alpha > 0, every threshold setting, user significance functions, scalars and arrays",
  "tests check one scalar example and a monotonic trend; the joint criterion over all threshold combinations cannot be sampled by hand",
  ["pyirf/sensitivity.py"], [("bracketed root finding then rescaling", "pyirf/sensitivity.py:_relative_sensitivity")],
  observe=["pyirf.sensitivity.relative_sensitivity"])
p("C09", "Background estimate and sensitivity table are consistent per energy bin",
  "The background estimate counts exactly the events with fov_offset_min <= offset < fov_offset_max in their reconstructed energy bin and scales every count column (also per particle type) by the on-region solid angle over the ring solid angle over alpha, the on region given by the theta cut interpolated to the bin center. The sensitivity table reports, per bin, the relative sensitivity of signal + alpha * background against background, the signal scaled by it, the unscaled background columns, and the significance at that flux; histograms with different binning are rejected with ValueError.",
  IC, "for every event list, energy binning, theta cut table (same or different binning), alpha, ring limits and criteria",
  "tests use one configuration with identical binning, alpha = 1 or 0.2 and loosely check a total",
  ["pyirf/sensitivity.py"], [("ring selection, theta interpolation and solid angle ratio", "pyirf/sensitivity.py:estimate_background"), ("table assembly", "pyirf/sensitivity.py:calculate_sensitivity")],
  observe=["pyirf.sensitivity.estimate_background", "pyirf.sensitivity.calculate_sensitivity"])
p("C10", "Cut optimisation returns, per energy bin, the best point of the scanned grid",
  "For every energy bin the returned sensitivity row is the one with the smallest relative sensitivity among all scanned cut combinations (the first one on exact ties, the first combination if none is valid), and the returned cuts and efficiencies are those of that very combination, so that applying the returned cuts reproduces the returned sensitivity row. Each scanned cut keeps the requested fraction of the signal: percentiles of the signal in the bin, on the side selected by the comparison operator.",
  IC, "for every signal and background list, set of efficiencies and multiplicities, operator, alpha, theta limits and sensitivity settings, including particle types eliminated by some cuts and empty bins",
  "tests run one data set and check column names and a few values; the argmin over the grid and the coupling row-cut-efficiency is never recomputed",
  ["pyirf/cut_optimization.py"], [("grid scan with nanargmin per bin", "pyirf/cut_optimization.py:optimize_gh_cut, optimize_cuts")],
  state=[dict(name="best per bin", meaning="best-so-far combination of the scan", where="pyirf/cut_optimization.py")],
  observe=["pyirf.cut_optimization.optimize_gh_cut", "pyirf.cut_optimization.optimize_cuts"])
p("C11", "Simulated showers per energy and offset bin are exact and additive",
  "The expected number of simulated showers in an energy bin is the number of showers times the fraction of the simulated power law inside the bin, in an offset bin times the fraction of the view cone's solid angle inside the bin, and in a 2D bin times both: zero outside the simulated range, correct for bins that overlap a limit or enclose the whole range, additive when bins are merged, and adding up to the total for bins covering the simulated range. Units of bins do not matter, a spectral index above -1 is rejected, and a point-like simulation has no offset distribution (ValueError).",
  IC, "for every spectral index <= -1, energy range, view cone and every binning (partially overlapping, enclosing, outside, any unit)",
  "tests use one or two binnings aligned with the simulated range",
  ["pyirf/simulations.py"], [("power-law integral with clipping", "pyirf/simulations.py:calculate_n_showers_per_energy"), ("view cone integral", "pyirf/simulations.py:calculate_n_showers_per_fov")],
  observe=["SimulatedEventsInfo.calculate_n_showers_per_energy", "calculate_n_showers_per_fov", "calculate_n_showers_per_energy_and_fov"])
p("C12", "Simulated showers in 3D field-of-view bins match their share of solid angle",
  "Simulated showers in (energy, offset, position angle) bins equal the 2D expectation times the bin's fraction of the full circle; in (energy, longitude, latitude) bins they equal the energy expectation times the share of the view cone's solid angle lying in that bin (resolved by sub-pixels), zero for bins outside the cone, and the total is conserved for a grid covering the cone. Array axes follow the documented order, whatever the (non-uniform, unequal) bin widths and units.",
  IC, "for every view cone (with or without hole) and every grid: non-uniform bins, different numbers of bins per axis, one bin enclosing the cone, bins entirely inside or outside, any unit and subpixel count",
  "tests use symmetric uniform grids of equal size, for which swapped axes and uniform-width shortcuts are invisible",
  ["pyirf/simulations.py"], [("position angle share", "pyirf/simulations.py:calculate_n_showers_3d_polar"), ("sub-pixel overlap", "pyirf/simulations.py:_fov_lonlat_grid_overlap")],
  observe=["SimulatedEventsInfo.calculate_n_showers_3d_polar", "calculate_n_showers_3d_lonlat"])
p("C13", "Spectra, simulation normalisation and event weights are mutually consistent",
  "Each spectrum returns its defining formula in its flux unit for every energy, in any energy unit; table spectra reproduce their points exactly and interpolate/extrapolate linearly in the selected (log) space. The spectrum derived from a simulation integrates over energy, area, time (and solid angle if diffuse) to exactly the number of simulated showers; event weights are the ratio of target to simulated spectrum, equal one when both agree and multiply along chains; integrating a diffuse spectrum over a cone multiplies every flux value by the cone's solid angle and is refused for point-source spectra.",
  IC, "for every parameter set, energy, unit, observation time, view cone and table",
  "tests evaluate a few fixed values",
  ["pyirf/spectral.py"], [("__call__ of the spectra", "pyirf/spectral.py:PowerLaw, LogParabola, PowerLawWithExponentialGaussian, TableInterpolationSpectrum"), ("from_simulation, integrate_cone", "pyirf/spectral.py:PowerLaw"), ("calculate_event_weights", "pyirf/spectral.py")],
  observe=["pyirf.spectral.*"])
p("C14", "Effective areas are selected over simulated times area in every bin",
  "Every effective-area table equals, bin by bin and with the documented axis order, the number of selected events inside that bin divided by the expected number of simulated showers in the same bin, times the simulated area pi * max_impact^2, in 1D, 2D, 3D polar and 3D longitude/latitude; counts are half-open bins in physical units with the last edge included. Bins in which nothing was simulated carry no statement.",
  IC, "for every event list, simulation and binning with different bin counts per axis, mixed units",
  "tests use symmetric grids and one event pattern, so transposition and unit mistakes may cancel",
  ["pyirf/irf/effective_area.py"], [("histogram ratio", "pyirf/irf/effective_area.py")],
  observe=["pyirf.irf.effective_area*"])
p("C15", "Energy dispersion and migration matrices are normalised per energy/offset bin",
  "For every true-energy and offset bin the energy dispersion is the histogram of reco/true energy divided by the events counted there and by the migration bin width, so it integrates to one if any event was counted and is all zero otherwise, never NaN; the migration matrix is the corresponding probability over reconstructed-energy bins. Converting a dispersion to a migration matrix yields non-NaN probabilities with row sums at most one, equal to one when the new reconstructed range covers the dispersion's migration range and zero where the dispersion is empty (up to the resampling's own interpolation error), and for unchanged true-energy bins and reco edges matching migration edges times the true energy gives the dispersion's own bin probabilities.",
  IC, "for every event list, binning, and re-binning; several offset bins; empty rows",
  "tests check normalisation on Gaussian samples; bin-by-bin contents, empty rows and unusual bins are not checked",
  ["pyirf/irf/energy_dispersion.py"], [("histogramdd and normalisation", "pyirf/irf/energy_dispersion.py:energy_dispersion, energy_migration_matrix"), ("resampling", "pyirf/irf/energy_dispersion.py:energy_dispersion_to_migration")],
  observe=["pyirf.irf.energy_dispersion.*"])
p("C16", "PSF tables integrate to one over solid angle wherever there are events",
  "In every true-energy and field-of-view offset bin the PSF equals the fraction of that bin's events per source-offset bin divided by the solid angle of that ring, so it integrates to one when at least one event falls in the source-offset range and is zero (never NaN) otherwise, with axes (energy, fov offset, source offset).",
  IC, "for every event list and binning (non-uniform, different bin counts, empty bins, any unit)",
  "tests check one normalisation on uniform bins",
  ["pyirf/irf/psf.py"], [("histogramdd and solid angle normalisation", "pyirf/irf/psf.py")],
  observe=["pyirf.irf.psf_table"])
p("C17", "Background rates integrate back to the summed event weights",
  "In every bin the background rate equals the sum of the weights of the events in the bin divided by bin width in energy, observation time and bin solid angle, in 2D (energy, offset ring) and 3D (energy, longitude, latitude rectangle), so that multiplying back recovers the weights; units of events, bins and observation time do not matter.",
  IC, "for every weighted event list, every grid with unequal numbers and widths of bins, every observation time and unit",
  "tests use a single populated bin or uniform grids with equal axis lengths",
  ["pyirf/irf/background.py"], [("weighted histogram and division by widths", "pyirf/irf/background.py")],
  observe=["pyirf.irf.background_2d", "pyirf.irf.background_3d_lonlat"])
p("C18", "Resolution benchmarks equal the per-bin quantiles of exactly the bin's events",
  "Angular resolution is, per energy bin and requested quantile, the quantile of theta of the events in that bin; energy bias and resolution are the chosen functions (by default median and half the central 68% interval) of reco/true - 1 of those events; n_events counts them, bins without events hold NaN, empty input gives an all-NaN table. Bias and resolution from an energy dispersion are the corresponding quantiles of its piecewise linear cumulative distribution, NaN for empty rows (any point of a gap of the distribution being a valid quantile there).",
  IC, "for every event list and binning, true or reco energy, one or several quantiles, NaN thetas, any units, any dispersion matrix",
  "tests use large normal samples with loose tolerances",
  ["pyirf/benchmarks/angular_resolution.py", "pyirf/benchmarks/energy_bias_resolution.py"], [("group_by and nanquantile", "pyirf/benchmarks"), ("cdf inversion", "pyirf/benchmarks/energy_bias_resolution.py")],
  observe=["pyirf.benchmarks.*"])
p("C19", "Field-of-view coordinates are the exact spherical transformation",
  "Separation-type quantities (theta, source offset, GADF theta) equal the great-circle distance between the two directions, are symmetric, zero only for equal directions and unaffected by full turns in azimuth; GADF longitude/latitude and theta/phi describe the same point of the sphere relative to the pointing with the documented orientation (longitude sign reversed against the offset frame and within half a turn of the pointing, phi running opposite to the position angle, in [0, 360) deg), true and reco prefixes select their own columns. Cone and rectangle solid angles equal 2*pi*(1-cos) and delta-lon times delta-sin-lat and are additive.",
  I, "for every pair of directions on the sphere including poles, antipodes and azimuth wrap, every unit",
  "tests evaluate a few directions near the equator",
  ["pyirf/coordinates.py", "pyirf/utils.py"], [("SkyOffsetFrame, angular_separation, position_angle", "pyirf/coordinates.py"), ("solid angle formulas", "pyirf/utils.py")],
  observe=["pyirf.coordinates.*", "pyirf.utils.calculate_*", "cone_solid_angle", "rectangle_solid_angle"])
p("C20", "GADF HDUs round-trip every IRF value, edge, axis order and header card",
  "Writing an IRF to a GADF HDU and reading it back gives the same values in the standard's units at the same physical bin: low/high edge columns equal the edges passed (TeV, deg), the data column equals the array with axes reversed, its CREF card names the axis columns in that order, and the classification cards describe the IRF kind (point-like versus full-enclosure as requested). Extra cards and the extension name are stored, and incompatible units or an unknown alignment are rejected; every file names its creator and the time, in UTC, when it was made.",
  IC, "for every IRF kind, array shape (unequal axis lengths), input units, extname and header cards",
  "tests check against the schema and one shape with ones or arange",
  ["pyirf/io/gadf.py"], [("QTable to BinTableHDU", "pyirf/io/gadf.py")],
  observe=["pyirf.io.create_*_hdu, read back through astropy"])
p("C21", "gammapy objects carry the same IRF values at the same coordinates",
  "The gammapy effective area, PSF and energy dispersion objects hold exactly the given values and units with the named axes built from exactly the given edges, so that looking up a bin center returns the value of that bin.",
  IC, "for every array with unequal axis lengths and every unit",
  "tests only check that construction works and one shape",
  ["pyirf/gammapy.py"], [("MapAxis.from_edges", "pyirf/gammapy.py")],
  observe=["pyirf.gammapy.create_*"])
p("C22", "Estimators interpolate inside, extrapolate outside, reject malformed input",
  "An estimator uses the interpolator for every target inside or on the border of the convex hull of its grid and otherwise warns and uses the extrapolator, or raises ValueError if there is none; this decision and the result do not depend on previous calls or on the order in which grid points were given. Malformed constructor arguments or targets (wrong types, too few points, mismatching numbers of grid points, templates or bins, wrong dimension, several targets, wrong inter-/extrapolator classes, unsupported dimensions) raise the documented TypeError or ValueError before producing any result.",
  ["histories", "inputs", "configurations"], "for every grid (1D sorted or not, 2D, 3D), every sequence of targets inside, on the border, at nodes and outside, every estimator and inter-/extrapolator combination",
  "tests call each estimator once or twice on a fixed grid",
  ["pyirf/interpolation/component_estimators.py"], [("dispatch on hull membership", "pyirf/interpolation/component_estimators.py:BaseComponentEstimator.__call__"), ("validation", "pyirf/interpolation/component_estimators.py:__init__")],
  observe=["pyirf.interpolation.*Estimator"])
p("C23", "Parametrised interpolation reproduces nodes and affine maps and stays bounded",
  "Linear grid interpolation returns the stored parameters at every grid point, reproduces any function that is affine in the grid coordinates inside the hull, never leaves the range of the enclosing nodes, treats every parameter component independently and is unaffected by permuting the grid points (where the triangulation of the grid is unique); used directly outside the hull it has no value (NaN, or the fill value given), and as a nearest-neighbour lookup it returns the parameters of a closest grid point everywhere.",
  IC, "for every 1D, 2D and 3D grid, parameter array shape and target inside the hull",
  "tests use one linear function on one regular grid",
  ["pyirf/interpolation/griddata_interpolator.py", "pyirf/interpolation/component_estimators.py"], [("scipy griddata", "pyirf/interpolation/griddata_interpolator.py"), ("sorting of 1D grids", "pyirf/interpolation/component_estimators.py")],
  observe=["pyirf.interpolation.GridDataInterpolator", "ParametrizedComponentEstimator"])
p("C24", "Extrapolation continues the nearest simplex, or blends all visible ones",
  "Outside the hull the nearest-simplex extrapolation is the affine continuation of the parameters of the simplex owning the hull facet nearest to the target, at a shared vertex the one seen under the larger angle (in 1D the first or last segment), so affine functions are reproduced exactly. The visible-edges extrapolation is the average of the affine continuations over exactly the hull facets visible from the target, weighted by the (m+1)-th power of the angle under which they are seen, and equals the nearest-simplex result if only one facet is visible; unsupported dimensions and invalid m are rejected.",
  IC, "for every 1D and 2D grid, every target outside at any distance and direction, every blending power m, every parameter shape",
  "tests use one or two grids with selected targets",
  ["pyirf/interpolation/nearest_simplex_extrapolator.py", "pyirf/interpolation/visible_edges_extrapolator.py", "pyirf/interpolation/utils.py"], [("nearest facet search", "pyirf/interpolation/utils.py"), ("visible facets and angle weights", "pyirf/interpolation/visible_edges_extrapolator.py")],
  observe=["ParametrizedNearestSimplexExtrapolator", "ParametrizedVisibleEdgesExtrapolator"])
p("C25", "Estimated PDFs are non-negative and normalised, or zero for empty templates",
  "Every estimated energy dispersion or PSF has, for each of its PDFs, only finite non-negative entries and integrates to one in its own measure (bin width for dispersions, solid angle for PSFs) when all templates used for it are non-empty (and the estimated distribution overlaps the given bins), and is identically zero when one of them is empty; each PDF is estimated independently of the others in the same table, and the axis holding the bins is found and restored wherever it is.",
  IC, "for every 1D and 2D grid, every template set (narrow, wide, single-bin, gaps, empty), every target inside and outside, both normalisations, every inter-/extrapolator pair and axis position",
  "tests use Gaussians on one grid",
  ["pyirf/interpolation/quantile_interpolator.py", "pyirf/interpolation/moment_morph_interpolator.py", "pyirf/interpolation/nearest_simplex_extrapolator.py", "pyirf/interpolation/component_estimators.py"], [("norm_pdf", "pyirf/interpolation/quantile_interpolator.py"), ("re-normalisation", "pyirf/interpolation/moment_morph_interpolator.py"), ("cut-off and re-normalisation", "pyirf/interpolation/nearest_simplex_extrapolator.py")],
  observe=["EnergyDispersionEstimator", "PSFTableEstimator", "QuantileInterpolator", "MomentMorphInterpolator", "MomentMorphNearestSimplexExtrapolator"])
p("C26", "Moment morphing and quantile interpolation follow their published construction",
  "Moment morphing returns the coefficient-weighted sum of templates shifted and scaled to the interpolated mean and standard deviation (equal to the template itself at a grid point, coefficients affine and summing to one), for interpolation in the enclosing segment or triangle and for extrapolation from the nearest one. Quantile interpolation moves the quantiles linearly between the templates, so that the mean and the quantiles of the result equal the interpolated ones within the bin and quantile resolution.",
  IC, "for every template set, bin edges (uniform or not), grid and target, both normalisations",
  "tests compare Gaussians to a few percent at one target",
  ["pyirf/interpolation/moment_morph_interpolator.py", "pyirf/interpolation/quantile_interpolator.py"], [("moment_morph_estimation", "pyirf/interpolation/moment_morph_interpolator.py"), ("ppf interpolation", "pyirf/interpolation/quantile_interpolator.py")],
  observe=["MomentMorphInterpolator", "MomentMorphNearestSimplexExtrapolator", "QuantileInterpolator"])
p("C27", "Effective-area estimation is logarithmic above the floor and zero below it",
  "The estimated effective area at a target is the exponential of the inter-/extrapolated logarithm of the areas, each raised to the minimum effective area first; a result below the minimum is returned as exactly zero, other results in square metres, the value at a grid point with an area above the minimum being that area; the caller's array is not changed.",
  IC, "for every area table in any area unit, including zeros, every minimum, grid and target, every inter-/extrapolator",
  "tests use one smooth table",
  ["pyirf/interpolation/component_estimators.py"], [("floor, log, exp, zeroing", "pyirf/interpolation/component_estimators.py:EffectiveAreaEstimator")],
  observe=["pyirf.interpolation.EffectiveAreaEstimator"])
p("C28", "RAD_MAX estimation never mixes fill values with real cuts",
  "Without a fill value the estimate is the plain inter-/extrapolation, cut off at zero. With one (given, or inferred as the maximum), each entry is the fill value if in 1D any, or in 2D at least two, of the templates of the enclosing or nearest segment/triangle are fill values; with one of three it is the smallest of the three; with none the plain estimate limited to [0, fill value]; nearest-neighbour estimates are returned unchanged, independent of grid order; more than two dimensions with a fill value are refused.",
  IC, "for every 1D (sorted or not) and 2D grid, every pattern of fill values, every target inside, on nodes, on borders and outside, every inter-/extrapolator",
  "tests cover a few fill patterns at interior points of sorted grids",
  ["pyirf/interpolation/component_estimators.py"], [("fill-value masks per segment/simplex", "pyirf/interpolation/component_estimators.py:RadMaxEstimator")],
  observe=["pyirf.interpolation.RadMaxEstimator"])
p("C29", "Nearest-neighbour search returns the template of a closest grid point, unchanged",
  "The nearest-neighbour searchers return exactly the stored template of the grid point with the smallest distance to the target in the chosen norm (the first such point on ties), also when used as interpolator or extrapolator of every estimator; orders that are not positive finite integers are rejected with ValueError.",
  IC, "for every grid of 1 to 3 dimensions, template shape, norm order and target including ties",
  "tests use one grid and the default norm mostly",
  ["pyirf/interpolation/nearest_neighbor_searcher.py"], [("argmin of norms", "pyirf/interpolation/nearest_neighbor_searcher.py")],
  observe=["BaseNearestNeighborSearcher", "DiscretePDFNearestNeighborSearcher", "ParametrizedNearestNeighborSearcher"])
p("C30", "No call changes its inputs, and results never depend on earlier calls",
  "No function, constructor or estimator call modifies the arrays, tables, dictionaries or objects passed to it, changing a returned result never changes later results or stored templates, and repeating a call in any session, after any other calls, gives the same result.",
  H, "for every sequence of public calls sharing inputs, including modification of returned objects in between",
  "tests call functions once on fresh inputs, so aliasing, in-place modification and cached state cannot show",
  ["pyirf/binning.py", "pyirf/cuts.py", "pyirf/sensitivity.py", "pyirf/cut_optimization.py", "pyirf/simulations.py", "pyirf/irf", "pyirf/benchmarks", "pyirf/io/gadf.py", "pyirf/interpolation"], [("copies instead of in-place updates", "throughout")],
  state=[dict(name="heap of shared inputs", meaning="caller-owned arrays, tables and dicts", where="caller")],
  observe=["all public functions"])
p("C31", "Results do not depend on the units in which inputs are expressed",
  "Expressing any quantity argument or event column in another compatible unit leaves the physical result of every analysis step unchanged (up to rounding), and energy, angle, area or time arguments given in an incompatible unit are rejected rather than silently used.",
  IC, "for every public analysis function and every combination of energy, angle, length, time and area units of its arguments",
  "tests use the same units everywhere, so a dropped conversion is invisible",
  ["pyirf/binning.py", "pyirf/cuts.py", "pyirf/sensitivity.py", "pyirf/simulations.py", "pyirf/spectral.py", "pyirf/irf", "pyirf/benchmarks", "pyirf/io/gadf.py", "pyirf/interpolation/component_estimators.py"], [("to_value / quantity_input", "throughout")],
  observe=["all public functions"])
p("C32", "Event order is irrelevant and separately processed samples add up",
  "Permuting the events of any table leaves every histogram, cut, IRF, benchmark, background estimate and optimisation result unchanged (up to rounding), and for all additive products (histograms, background rates and estimates, selected counts of effective areas) processing two event lists separately and adding equals processing the merged list.",
  H, "for every event list, permutation and split into parts",
  "tests never reorder or split their inputs",
  ["pyirf/binning.py", "pyirf/cuts.py", "pyirf/irf", "pyirf/benchmarks", "pyirf/sensitivity.py"], [("histogramming and group_by", "throughout")],
  observe=["all event-based functions"])
p("C33", "Table validation accepts exactly the tables that satisfy the requirements",
  "Checking a table raises the missing-columns error naming the absent required columns and no others, the wrong-unit error for a column whose unit cannot be converted to the required one, and nothing otherwise; comparing histograms raises ValueError if and only if any low, center or high edge differs; the scalar test is true exactly for zero-dimensional values.",
  I, "for every table, set of required columns and units, every pair of histograms",
  "tests use three tables",
  ["pyirf/utils.py", "pyirf/exceptions.py"], [("set difference and unit equivalence", "pyirf/utils.py:check_table"), ("edge comparison", "pyirf/utils.py:check_histograms")],
  observe=["pyirf.utils.check_table", "check_histograms", "is_scalar"])
p("C34", "The EventDisplay reader returns every event and the true simulation parameters",
  "Reading an EventDisplay DL2 file returns all events with every documented column renamed and its values and units unchanged, and simulation information whose energy range, scatter radius, spectral index and view cone equal the run header and whose number of showers is the histogram total, or the number of distinct (observation, pointing) runs times showers times reuse when the histogram is not used.",
  IC, "for every file with any number of runs, pointings, events and header values",
  "there is no test data file available offline; the reader is untested",
  ["pyirf/io/eventdisplay.py"], [("column map and run header", "pyirf/io/eventdisplay.py")],
  observe=["pyirf.io.read_eventdisplay_fits"])

p("C35", "The chain from events to a GADF file folds back to the selected events",
  "Take simulated events through the documented chain: weights, field-of-view offsets and theta; binned cuts on the score and on theta; effective area, energy dispersion, PSF, background and RAD_MAX; a GADF file, read back by gammapy or astropy. Then in every bin the effective area times the showers simulated per area equals the number of selected gammas, and folded with a target spectrum of the simulated index the sum of their weights; dispersion and PSF give the share of selected gammas in each migration and source-offset bin; background rate times live time, width and solid angle gives the weights of the selected background; RAD_MAX is the theta cut applied. Point-like tables count events passing both cuts, full-enclosure ones those passing the score cut.",
  H, "for every production (point-like or diffuse), cut table, binning with or without overflow, combination of units, enclosure and order of the tables in the file, and repeated rounds on the same events",
  "tests never run the chain as a whole nor compare its end with its beginning",
  ["pyirf/utils.py", "pyirf/spectral.py", "pyirf/simulations.py", "pyirf/cuts.py", "pyirf/irf", "pyirf/io/gadf.py"],
  [("weights of events", "pyirf/spectral.py:calculate_event_weights"), ("IRFs", "pyirf/irf"), ("HDUs", "pyirf/io/gadf.py")],
  observe=["the documented analysis chain, ending in a file read by gammapy or astropy"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
