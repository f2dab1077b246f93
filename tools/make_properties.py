#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
S = "src/pybsm/simulation/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "A scenario's atmosphere always matches its current location",
 "Whatever sequence of altitude, ground-range and visibility changes and atmosphere reads (including reads that fail) has been applied to a scenario, reading its atmosphere yields exactly the atmosphere the database gives for the scenario's current altitude, ground range and visibility under the lookup mode chosen at construction. It fails with IndexError exactly when the database has none for them, and works again as soon as the location is valid again. Scenarios never influence one another.",
 ["histories"], "all interleavings of setters and reads over several scenarios, in both lookup modes, including failing reads",
 "Tests set one field once on one scenario and look at a private cache variable; they never interleave changes, failures and reads, and here the module does not even collect because the data are Git-LFS stubs.",
 [S+"scenario.py", "src/pybsm/utils.py"],
 [("cache invalidated by the setters, filled on demand by the atm property", "Scenario.ihaze/altitude/ground_range setters, Scenario.atm")],
 [dict(name="cached atmosphere", meaning="atmosphere of the location at which it was last loaded, or empty", where="Scenario")], ["Scenario.atm"])
prop("C02", "Atmosphere lookup returns exactly the requested record or fails",
 "For every condition listed in the shipped catalogue, a non-interpolated lookup returns the 1371-row table of that very record: wavelengths 0.3 to 14 micrometres in metres in the first column, transmission unchanged in the second, and the four radiance columns, in database order, converted from W/(sr cm^2 um) to W/(sr m^2 m). Every condition that is not listed, however close to a listed one, and every listed one whose data file is absent, fails with IndexError instead of returning another record.",
 ["inputs"], "all 3430 catalogued conditions and all uncatalogued ones (neighbours, other visibilities, combinations beyond the horizon)",
 "Tests name two of 3430 records and five bad conditions, and need data files that are absent here.",
 ["src/pybsm/utils.py", "src/pybsm/atms/fileDecoder.csv"],
 [("catalogue filter by haze, altitude, ground range; column-major decode; unit conversion", "utils.load_database_atmosphere_no_interp")], None, ["pybsm.utils.load_database_atmosphere_no_interp"])
prop("C03", "Interpolated atmospheres are bilinear between the bracketing records",
 "For every altitude from 2 to 20000 m and ground range from 0 to 300 km, the interpolated lookup returns the bilinear combination, in altitude and ground range, of the at most four database records of the requested visibility that bracket the request, and therefore the record itself on a database node. It succeeds whenever those records are in the database. A request outside these limits, or whose bracketing records are not all in the database, fails with IndexError.",
 ["inputs"], "all altitudes, ground ranges and visibilities, on nodes, between nodes, on the limits and outside them",
 "Tests try a handful of points, at most one of them off-grid in each direction, against stored arrays that are absent here.",
 ["src/pybsm/utils.py"], [("bracketing nodes and two-stage linear weights", "utils.load_database_atmosphere")], None, ["pybsm.utils.load_database_atmosphere"])
prop("C04", "Evaluations leave inputs untouched and do not depend on earlier calls",
 "No public evaluation (radiometry, OTF, imaging, metrics, NIIRS, image simulation) modifies the arrays, sensor, scenario or reference image it is given, except that a NIIRS evaluation overrides the scenario's target and background reflectance and temperature as documented. The result of a call is determined by the current values of its arguments, whatever was called, changed or computed before (for a simulated image: together with the state of the random generator).",
 ["histories"], "all sequences of parameter changes and evaluations over shared sensors, scenarios and images",
 "Tests make one call on fresh objects; hidden mutation or stale memoised results only show up in the second call of a sequence.",
 ["src/pybsm/metrics/functional.py", S+"functional.py", "src/pybsm/otf/functional.py", "src/pybsm/radiance/functional.py", S+"sensor.py", S+"scenario.py", S+"ref_image.py"],
 [("functions compute on copies", "all modules"), ("documented scenario overrides", "metrics.niirs / metrics.niirs5")],
 [dict(name="sensor, scenario, image settings", meaning="what the caller configured", where="Sensor, Scenario, RefImage")])
prop("C05", "Exposure is cut back exactly as far as the allowed well fill requires",
 "For every sensor and scene the contrast-SNR calculation scales the exposure by one factor: 1 if the brighter of target and background stays within the allowed fraction of the well, otherwise the factor that brings the brighter one exactly to it. Target and background electron counts, reported integration time, well fraction, dark-current noise and self-emission noise all describe that scaled exposure.",
 ["inputs"], "all sensors (well size, fill limit, integration time, TDI, dark current, temperatures) and target/background radiances, with either one brighter, under, at and over the limit",
 "The radiance tests do not collect here, and upstream pins one saturated and one unsaturated example.",
 ["src/pybsm/radiance/functional.py"], [("well-fill test and common scale factor", "radiance.check_well_fill, radiance.photon_detector_SNR")], None, ["SNRMetrics.int_time, tgt_n, bkg_n, well_fraction, dark_current_noise, self_emission_noise"])
prop("C06", "The contrast SNR is contrast signal over the full root-sum-square noise",
 "For every sensor and scene, the reported signal is target minus background electrons (negative if the target is darker), and the total noise is the root sum square of the shot noise of the brighter of the two, the quantisation noise of the full well over the converter's bit depth, the read noise and every additional noise term of the sensor. The SNR is their quotient, and optical transmission (including obscuration and cold filter) and quantum efficiency enter the electron counts once each.",
 ["inputs"], "all sensors and scenes, any number of additional noise terms, either sign of contrast",
 "One stored example upstream; none runs here.",
 ["src/pybsm/radiance/functional.py", "src/pybsm/noise.py"], [("noise terms and SNR", "radiance.photon_detector_SNR"), ("quantisation noise", "noise.quantization_noise")], None, ["SNRMetrics"])
prop("C07", "Reflectance maps to photoelectrons within the well, scaled as a whole",
 "For every atmosphere and sensor the reflectance-to-photoelectron curve has 100 equally spaced reflectances from 0 to 1 whose electron counts are the total detected rate (scene reflection and emission at the requested target temperature, system self-emission, dark current) times integration time and TDI stages. If the largest count exceeds the full well, the whole curve is scaled by one factor so that its maximum equals the well, otherwise it is unscaled. The reported spectral weights are the in-band wavelengths with their relative contributions to the full-reflectance signal, the largest being 1.",
 ["inputs"], "all atmospheres, bands, sensors, integration times and target temperatures, saturated or not",
 "Upstream compares one stored array at the default temperature; none runs here.",
 ["src/pybsm/radiance/functional.py"], [("loop over reflectances, saturation scaling", "radiance.reflectance_to_photoelectrons")], None, ["returned ref, pe, spectral_weights"])
prop("C08", "Radiance, irradiance and detected signal follow the radiometric chain",
 "For every input, apparent radiance is path emission plus scattered sunlight plus transmitted blackbody emission weighted by one minus the reflectance plus the ground-reflected column scaled by reflectance over 0.15; spectral irradiance on the focal plane is radiance times pi/(1+4(f/D)^2); the cold shield fills the rest of the hemisphere. Optics and cold-stop emission are proportional to their emissivities; detected electrons are proportional to wavelength, detector area and quantum efficiency, and integrate over the band with dark current added once. The GIQE target/background pair is 0.15/0.07 reflectance when reflective and 282 K/280 K blackbodies when emissive.",
 ["inputs"], "all wavelengths, temperatures, apertures, emissivities, reflectances and atmospheres",
 "The radiance test module does not collect here; upstream uses unit-valued arguments (D=f=w=1) under which many wrong formulas agree.",
 ["src/pybsm/radiance/functional.py"], [("radiometric functions", "radiance.total_radiance, at_focal_plane_irradiance, blackbody_radiance, *_self_emission, photon_detection_rate, signal_rate, giqe_radiance, focal_plane_integrated_irradiance")])
prop("C09", "Every blur component is a proper transfer function of its own parameters",
 "Every component transfer function (aperture with or without obscuration or defocus, detector with or without aggregation, charge transfer, diffusion, defocus, drift, jitter, Gaussian, TDI, turbulence, wavefront) is 1 at zero frequency, at most 1 in magnitude within the optics cutoff, unchanged when either frequency axis is reversed, and identically 1 when its blur parameter vanishes. Each x or y parameter acts on its own axis only, and the value is the published closed form of the component.",
 ["inputs"], "all frequencies (zero, inside, at and beyond the cutoff), wavelengths, obscurations and blur parameters",
 "Tests evaluate each function at u=v=1 or at zero with equal or unit parameters, so swapped axes, wrong branches beyond the first region and lost parameters pass.",
 ["src/pybsm/otf/functional.py"], [("closed forms", "otf.*_OTF functions")])
prop("C10", "The system transfer function is the product of all seven components",
 "For every sensor, scenario and frequency grid, the system transfer function is exactly the product of the aperture, turbulence, detector, jitter, drift, wavefront and filter components reported with it. Each component is the one for the current sensor and scenario values: drift and turbulence use the integration time multiplied by the TDI stages, aperture, wavefront and turbulence are averaged over the given spectral weights, turbulence is 1 everywhere when ground-level turbulence is 0, and the filter is 1 everywhere for a single-element kernel.",
 ["inputs", "configurations"], "all sensors, scenarios, spectral weights, grids, with turbulence and filter on and off",
 "Tests use all-zero and all-one parameters on a 1- or 2-point grid, where a missing or wrongly fed component equals 1.",
 ["src/pybsm/otf/functional.py"], [("assembly", "otf.common_OTFs")], None, ["OTF.ap_OTF, turb_OTF, det_OTF, jit_OTF, drft_OTF, wav_OTF, filter_OTF, system_OTF"])
prop("C11", "Spectral averaging is a normalised weighted mean",
 "For any distinct wavelengths, non-negative weights with a positive sum, and any wavelength-dependent quantity, the spectral average is the sum of weight times value over the sum of weights. It is therefore unchanged by rescaling the weights or by reordering wavelengths together with their weights, lies between the extreme values, and reproduces a wavelength-independent quantity exactly.",
 ["inputs"], "all lists of wavelengths and weights, in any order, including zero weights, and scalar-, array-, real- or complex-valued quantities",
 "Tests use one or two wavelengths with equal weights.",
 ["src/pybsm/otf/functional.py"], [("weighted accumulation", "otf.weighted_by_wavelength")])
prop("C12", "The blur kernel is normalised, centred and correctly sampled",
 "For every transfer function and output sampling, the point spread function sums to 1 and is square or complete, centred to within half a sample, and for a symmetric transfer function symmetric. It is the inverse transform resampled to the requested angular sampling, cropped to the smallest of the tried supports that holds more than 95 percent of the energy.",
 ["inputs"], "all transfer functions (narrow and broad, even and odd sizes, asymmetric widths) and output samplings, from fine to so coarse that the kernel is a few samples",
 "Tests use a constant transfer function whose kernel is a single sample.",
 ["src/pybsm/otf/functional.py"], [("inverse transform, resize, crop, renormalise", "otf.otf_to_psf")])
prop("C13", "Applying a transfer function blurs linearly and resamples to the camera",
 "For every image, sampling, range and transfer function, the simulated image has the input's field of view at the camera's sampling: each side is the input side times (ground sample distance / range) / camera field of view, rounded. Outside its border the scene continues as its mirror image about the outermost pixels. A uniform image stays uniform at the same level, the result is linear in the image, bounded by its extremes for a non-negative kernel, features stay at their place in the field of view, and rows and columns are treated alike.",
 ["inputs"], "all images (any aspect ratio and level), samplings, ranges and transfer functions",
 "Tests use an all-ones image with unit sampling, which cannot show a shift, a swapped axis, a gain or a wrong scale.",
 ["src/pybsm/otf/functional.py"], [("filtering and resampling", "otf.apply_otf_to_image, otf.resample_2D")])
prop("C14", "Image counts map to reflectance by the calibration, truncated to [0, 1]",
 "For every image and every list of calibration pairs in any order, the reflectance of a pixel is the piecewise-linear interpolation of the calibration pairs, extended linearly beyond the outermost pairs and truncated to between 0 and 1. A reference image without calibration values is calibrated with its 0.2 and 99.8 percentile counts at reflectances 0.05 and 0.95, and one with counts but no reflectances is rejected with ValueError.",
 ["inputs"], "all images, count types and calibration lists with two or more pairs, sorted or not, rising or falling",
 "Tests use one two-pair calibration on images equal to it; reference-image tests need an image that is absent here.",
 [S+"functional.py", S+"ref_image.py"], [("interpolation and truncation", "simulation.img_to_reflectance"), ("default calibration", "RefImage.__init__")])
prop("C15", "Image simulation is the calibrated, blurred, noisy image of the scene",
 "For every reference image, sensor and scenario, the true image has the reference image's shape and holds, pixel by pixel, the photoelectrons the sensor collects for that pixel's reflectance; the blurred image is the true image with the current system transfer function applied at the line-of-sight range sqrt(altitude^2+ground range^2). The noisy image is a random draw around the blurred image, independent between pixels, with Poisson variance plus the variance of read and quantisation noise, reproducible from the random seed and different for different seeds.",
 ["inputs", "histories"], "all reference images, sensors, scenarios, calibrations and random states",
 "No test runs the simulation at all (it needs atmosphere data).",
 [S+"functional.py"], [("pipeline", "simulation.simulate_image")], None, ["returned true_img, blur_img, noisy_img"])
prop("C16", "Edge-response, overshoot and resolution metrics follow their definitions",
 "For every one-dimensional modulation transfer function, frequency step and detector field of view, the edge response at a position is 1/2 plus the sine-transform integral of the transfer function, so it is 1/2 at the edge and the responses at opposite positions sum to 1; the relative edge response is its difference at plus and minus half a pixel. Edge overshoot is the largest response from 1 to 3 pixels in quarter-pixel steps, or the response at 1.25 pixels if the response rises throughout, x and y directions using their own slice and field of view. Ground resolved distance is the larger of the range times the period at which the transfer function falls to 3/SNR and of two detector footprints.",
 ["inputs"], "all transfer functions (monotone or sharpened), steps, fields of view, SNRs and ranges, with different x and y",
 "There are no tests of these functions.",
 ["src/pybsm/metrics/functional.py"], [("edge metrics", "metrics.edge_response, relative_edge_response, edge_height_overshoot, giqe_edge_terms, giqe5_RER, ground_resolved_distance")])
prop("C17", "The image-quality equations give the published ratings",
 "For every edge response, ground sample distance, overshoot, noise gain, SNR and elevation angle, versions 3, 4 and 5 of the General Image Quality Equation return the published value, with distances in metres converted to inches and the version-4 coefficients switching at an edge response of 0.9. The ground-plane projected or elevation-weighted sample distance and the weighted edge response returned with it are those used in the rating; version 5 is symmetric in its two edge responses.",
 ["inputs"], "all positive arguments, on both sides of and at the regime switch, and all elevation angles",
 "There are no tests of these functions.",
 ["src/pybsm/metrics/functional.py"], [("equations", "metrics.giqe3, giqe4, giqe5")])
prop("C18", "A NIIRS evaluation reports one consistent chain from scene to rating",
 "For every sensor, scenario and lookup mode, all reported intermediate results belong together: the atmosphere is the scenario's, limited to the sensor band; radiances are the GIQE pair for the band (emissive from 2.9 micrometres); noise breakdown, spatial frequencies up to the optics cutoff, transfer functions at the scaled integration time, sample distances, edge terms, elevation angle and ratings follow from the reported quantities they depend on. Ratings use the SNR after frame stacking, version 3/4 uses the sensor's sharpening kernel and its noise gain, version 5 ignores the kernel. The scenario afterwards shows reflectances 0.15/0.07 for a reflective band, or reflectances 0/0 and temperatures 282/280 K for an emissive one.",
 ["inputs", "configurations"], "all sensors (band, stacks, kernel, non-square detectors), scenarios and both evaluations and lookup modes",
 "No test runs a NIIRS evaluation (it needs atmosphere data).",
 ["src/pybsm/metrics/functional.py"], [("chains", "metrics.niirs, metrics.niirs5")], None, ["Metrics fields"])
prop("C19", "Line-of-sight geometry over the curved Earth is consistent",
 "For every target height, sensor height and ground range, the slant range, the nadir angle and the heights along the path describe one and the same triangle with the Earth's centre: the path starts at distance 0 at the target height, ends at the slant range at the sensor height, is evenly sampled, and the nadir angle is the one between the downward vertical and that line of sight. The result is defined for every geometry in which the triangle exists, including looking straight down or straight up; the ground sample distance is the field of view times the slant range.",
 ["inputs"], "all heights and ranges, including straight-down views and non-integer heights",
 "The geometry test module does not collect here; upstream uses 1 m examples.",
 ["src/pybsm/geospatial.py"], [("law of cosines", "geospatial.altitude_along_slant_path, nadir_angle, curved_earth_slant_range, ground_sample_distance")])
prop("C20", "A transfer-function slice follows the requested direction",
 "For every transfer function on a square frequency grid and every angle, the slice starts at zero frequency, keeps the grid's sample spacing, and its k-th value is the (bilinearly interpolated) transfer function at distance k samples from the origin in the direction of the angle, counted counter-clockwise from the u axis with v pointing up.",
 ["inputs"], "all angles over the full circle, all grids and non-symmetric transfer functions",
 "Tests use a 2x2 grid, whose slice has one sample, and angles for which any direction gives the same value.",
 ["src/pybsm/otf/functional.py"], [("interpolated slice", "otf.slice_otf")])
prop("C21", "Turbulence follows path, profile, wavelength, wind and exposure",
 "For every profile and path, the structure parameter is the Hufnagel-Valley profile, the coherence diameter is the spherical-wave path integral weighted by relative distance from the target to the power 5/3, scales with wavelength to the power 6/5 and shrinks as turbulence or path grow. The wind-adjusted transfer function lies between the short-exposure one (no motion) and the long-exposure one (long dwell), with weight exp(-velocity*dwell/coherence diameter); the polychromatic one is the spectral average along the curved-Earth path.",
 ["inputs"], "all paths, wind speeds, ground-level strengths, wavelengths, dwell times and velocities",
 "Tests use unit or zero arguments with one or two path samples.",
 ["src/pybsm/otf/functional.py"], [("turbulence model", "otf.hufnagel_valley_turbulence_profile, coherence_diameter, turbulence_OTF, wind_speed_turbulence_OTF, polychromatic_turbulence_OTF")])
prop("C22", "The 8-bit contrast stretch preserves order and fills the display range",
 "For every non-constant image and percentile pair, the stretched image has the same shape, holds unsigned 8-bit values, maps the lower percentile and everything below it to 0 and the upper percentile and everything above it to 255, and in between is linear in the input to within rounding. It never reverses the order of two pixels, and the input image keeps its values.",
 ["inputs"], "all integer and floating images and percentile pairs, default and explicit",
 "The function has no test.",
 [S+"functional.py"], [("percentile stretch", "simulation.stretch_contrast_convert_8bit")])
prop("C23", "Sensor, scenario and estimated-camera descriptions hold what was asked for",
 "A sensor or scenario description holds every value given, and for each omitted one its documented default: square pixels, full fill factor in x, the same fill factor in y as in x, correlation lengths equal to the aperture, flat unit transmission and quantum efficiency over the band, no sharpening, one frame. The camera estimated for a reference image has, from the given altitude and straight above, exactly the image's ground sample distance, no turbulence or motion, and an aperture that resolves the pixel; descriptions never share mutable state with one another.",
 ["inputs", "configurations"], "all combinations of given and omitted arguments and all values; all images, sample distances and altitudes",
 "Tests set one argument at a time with p_x = w_x = 1, under which the fill-factor rule cannot be seen; estimation tests need an absent image.",
 [S+"sensor.py", S+"scenario.py", S+"ref_image.py"], [("constructors and defaults", "Sensor.__init__, Scenario.__init__, RefImage.estimate_capture_parameters")])
prop("C24", "Noise gain and quantisation noise are right for every valid kernel and ADC",
 "Noise gain is the root sum of squares of the kernel for every kernel that sums to 1 (to floating-point accuracy), and any kernel that does not is rejected with ValueError. Quantisation noise is the electron range divided by the number of converter steps (2^bits - 1) and by the square root of 12; dark current from a current density is density times detector area over the electron charge, and defocus radii follow their two published forms.",
 ["inputs"], "all kernels, well sizes and bit depths, densities, detector sizes and defocus geometries",
 "Tests use dyadic kernels that sum exactly, and unit arguments.",
 ["src/pybsm/noise.py", "src/pybsm/otf/functional.py"], [("noise terms", "noise.noise_gain, noise.quantization_noise"), ("small formulas", "otf.dark_current_from_density, object_domain_defocus_radii, image_domain_defocus_radii")])
prop("C25", "Spectral resampling interpolates inside the band and is zero outside",
 "For every tabulated spectral quantity and every requested wavelength, resampling returns the linear interpolation between the two neighbouring table entries, the table value itself on an entry (including the first and last), and 0 outside the tabulated range.",
 ["inputs"], "all tables of two or more wavelengths and all requested wavelengths, on, between, just outside and far outside the entries",
 "The test module does not collect here and upstream uses tables of ones and zeros.",
 ["src/pybsm/radiance/functional.py"], [("np.interp with zero fill", "radiance.resample_by_wavelength")])
prop("C26", "Without OpenCV only the imaging functions are unavailable",
 "Whether or not OpenCV is installed, every module imports and every function that does not form images gives the same results. Without OpenCV, kernel formation, image filtering, image resampling and image simulation fail with ImportError naming the extras to install, rather than with another error or a wrong result, and change nothing they were given.",
 ["configurations"], "with and without OpenCV, for every public function",
 "One test flips an internal flag on three functions; it never runs the library in an environment without OpenCV.",
 ["src/pybsm/otf/functional.py", S+"functional.py"], [("optional import and guards", "otf.otf_to_psf, apply_otf_to_image, resample_2D")])
prop("C27", "Diagnostic plots show exactly the reported metrics",
 "For the result of any NIIRS evaluation and any orientation, the transfer-function plot draws without error, in the current figure, the aperture, turbulence, detector, jitter, drift, wavefront, filter and system slices against image-plane frequency and marks the Nyquist frequency, and the noise plot draws the seven reported noise terms under their own names with the well-fill summary, in a figure of its own. A reference image is shown in metres on the ground, centred on the origin, one pixel per ground sample distance. Plotting changes none of the metrics and not the image.",
 ["inputs", "configurations"], "all metrics results, orientations, axis limits and images",
 "The plot functions have no test.",
 ["src/pybsm/metrics/functional.py", S+"ref_image.py"], [("plots", "metrics.plot_common_MTFs, metrics.plot_noise_terms, RefImage.show")])
prop("C28", "A sharpening filter's transfer function is that of its kernel",
 "For every kernel, detector field of view and frequency, the filter transfer function is the magnitude of the kernel's frequency response, to within its 1/100-cycle frequency sampling, repeated periodically beyond the Nyquist frequency; at zero frequency it is the magnitude of the sum of the kernel to the same accuracy (1 for a kernel that sums to one), it is 1 everywhere for the unit kernel, and does not depend on where in its array the kernel is placed.",
 ["inputs"], "all kernels (symmetric or not, any size), fields of view and frequencies, below and beyond Nyquist",
 "Tests use single-element or zero frequencies and kernels for which the interpolation is flat.",
 ["src/pybsm/otf/functional.py"], [("zero-padded transform, wrap and interpolation", "otf.filter_OTF")])
prop("C29", "The restoration filter undoes blur as far as the noise allows",
 "For every transfer function H (real or complex, one- or two-dimensional) and every non-negative noise-to-signal power ratio N (one number, or one per spatial frequency), the Wiener filter is conj(H) / (|H|^2 + N) at every frequency: blurring and then restoring leaves the real fraction |H|^2 / (|H|^2 + N) of each frequency, never more than all of it, everything where there is no noise, and nothing of a frequency the blur destroyed; phase is restored exactly. The filter has the shape of H and its inputs are unchanged. The instantaneous field of view of a detector is its width over the focal length.",
 ["inputs"], "all transfer functions with or without lost frequencies, all noise ratios including none, scalar or per frequency",
 "Neither function has a test; the relation must hold for every complex transfer function and noise spectrum.",
 [S+"functional.py"], [("restoration filter", "simulation.functional.wiener_filter"), ("detector footprint", "simulation.functional.instantaneous_FOV")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
