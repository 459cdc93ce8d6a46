PROPS, NOT_CLAIMED = [], []
NOTES = ("Every check imports PyFHD from /repo's working tree (nothing is compiled or cached) and enumerates its bounded space "
         "completely; ./check <ID> [quick|thorough] [--replay FILE]. known_findings.json lists recorded and repaired defects.")
T = {"exploration": "exhaustive bounded exploration of the implementation against a reference model",
     "model_checking": "explicit-state exploration of a reference model, every trace replayed on the implementation",
     "fault_enumeration": "exhaustive fault-point enumeration on the implementation"}


def P(id, title, statement, over, text, why, files, mech, level, note, technique=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors=a, level=level, note=note, technique=technique or T[level]))


U = "PyFHD/pyfhd_tools/pyfhd_utils.py"
# ---------------------------------------------------------------- tools
P("T01", "Histogram counts and reverse indices partition the in-range data",
  "For a positive bin width, or a requested number of equal bins, and a range whose minimum is not above its maximum, the histogram "
  "counts each value lying inside the range in the bin whose half-open interval holds it (the maximum belongs to the last bin) and "
  "counts no other value, NaN included. The reverse indices list, for every bin and in increasing order, exactly the positions of the "
  "values counted there. The data are not modified.",
  ["inputs"], "all data arrays, bin widths, bin counts and ranges",
  "Only a few recorded arrays are compared, most of which are not shipped; every gridding, flagging and calibration step indexes through it, so an off-by-one at an edge corrupts data silently.",
  [U], [("histogram", U + ":get_bins/get_hist/get_ri/histogram")], "exploration",
  "All data sequences to length 4 (quick) or 5 over 4-5 letter alphabets times widths, counts and ranges; float edges only for exactly representable widths.")
P("T02", "Rebinning interpolates, averages or samples exactly as defined",
  "Rebinning to an integer multiple interpolates linearly between neighbours and repeats the last row or column, rebinning to an integer factor "
  "averages each block (truncating for integers), mixed requests do both, and sampling repeats or strides without interpolating. The result has the "
  "requested shape, any other target shape is refused, and the source is not modified.",
  ["inputs"], "all source shapes, integer-ratio target shapes and value types",
  "Four literal arrays are tested; shape and edge combinations decide which branch runs.",
  [U], [("rebin", U + ":rebin/rebin_rows/rebin_columns")], "exploration",
  "All source shapes to 4x4 (6x6 thorough), all ratio targets to 12, impulses at every position so that linear behaviour is fully determined.")
P("T03", "Inverting weights never yields NaN or infinity and zeroes what is cut",
  "Inverting weights returns the reciprocal of each selected value and zero for every other one: without a threshold the nonzero values are selected, with "
  "a threshold those at or above it, judged by magnitude for complex values or on request. NaN, infinite and overflowing reciprocals become zero, a "
  "single value comes back as a scalar, and the input is not modified.",
  ["inputs"], "all scalars and arrays of real or complex weights and all thresholds",
  "The shipped tests need recorded data; special values (NaN, signed infinity, subnormal, complex with NaN parts) are combinatorial.",
  [U], [("weight_invert", U + ":weight_invert")], "exploration",
  "All vectors to length 2 (4 thorough) over 7-8 special values times thresholds; elementwise so short vectors determine it.")
P("T04", "Index lookups find every match and only matches; medians are order statistics",
  "Looking up values returns, in increasing order, exactly the positions at which the first (or, if given, the second) array holds one of the wanted values, "
  "and nothing when there is no match. On sorted input the unique lookup returns the last position of each distinct value in order. The median without even "
  "averaging is the upper middle element of the sorted data, and with a width that of each window, the values within half a width of the ends staying as they are.",
  ["inputs"], "all integer arrays, value sets and sorted arrays",
  "The shipped tests use three recorded arrays (absent here); a missed or spurious match flags the wrong baselines.",
  [U], [("array_match", U + ":array_match"), ("idl_argunique", U + ":idl_argunique"), ("idl_median", U + ":idl_median")], "exploration",
  "All array pairs to length 3 (4 thorough) over 4 values with all value sets to size 3; all sorted vectors to length 6 (8), running medians of widths 1 to 5.")
P("T05", "Region growing returns exactly the connected in-range component(s) of the seeds",
  "Growing from seed pixels returns exactly the interior pixels 4-connected, through pixels within the thresholds, to some interior seed that is itself within them, and "
  "nothing if there is none; thresholds left out are taken from the seeds. Edge pixels can connect but are never returned, NaN is out of range, and the image is not modified.",
  ["inputs"], "all images, seed sets and thresholds", "Two literal arrays are tested; component shapes and seed sets are combinatorial.",
  [U], [("region_grow", U + ":region_grow")], "exploration",
  "Every interior pattern of 4x4 and 3x5 images (5x5, 4x6 thorough), 4 border patterns, every seed and every interior seed pair.")
P("T06", "The resistant mean averages exactly the values kept by its two cuts",
  "The resistant mean equals the mean of the values whose deviation from the median is within the requested number of compensated standard deviations of those that "
  "pass the median-absolute-deviation cut, for real and complex data and any ordering. The data are not modified.",
  ["inputs"], "all real and complex vectors and deviation limits", "Six literal arrays are tested.",
  [U], [("resistant_mean", U + ":resistant_mean")], "exploration",
  "All multisets to size 6 (8 thorough) over values with outliers, all rotations, 4 limits; ties at a threshold are skipped.")

# ---------------------------------------------------------------- io
IO = "PyFHD/io/pyfhd_io.py"
P("I01", "Saving then loading returns the saved tree",
  "Loading a saved file returns the value last saved under that name and nothing of earlier ones: the same nested keys, array shapes, types and values (real, complex, integer, boolean, string), scalars, "
  "strings (including non-ASCII and empty), None, NaN and infinities, whatever mixture a tree holds and however deep. Lists come back as arrays, paths as strings; a dictionary holding only one array is loaded as that array. "
  "HDF5 files not written by PyFHD load with all their groups and data sets.",
  ["inputs", "histories"], "all nested dictionaries of supported leaf kinds and all save/load histories",
  "The few shipped io tests save a couple of literal trees; leaf kinds interact with their neighbours (None inside arrays, mixed types, single entries) and with overwriting.",
  [IO], [("save/load", IO + ":save/dict_to_group/save_dataset/load/group_to_dict")], "model_checking",
  "Every pair of 30-odd leaf kinds at every pair of positions in trees to depth 3, and every save/load history to depth 3 (4) over two files; the model is a dictionary of files and every trace is replayed.",
  state=[("file -> tree", "what was last saved under each name", IO + ":save")], observe=["value returned by load"])
P("I02", "Chunking, ragged arrays and IDL record conversion keep every value",
  "Saving with a chunk shape, at the top level or for nested arrays, or ragged lists as variable length data, loses and reorders nothing: loading gives the same rows, lengths, types (rows of several types: the one which holds them all) and values. "
  "Converting record arrays read from IDL save files gives nested dictionaries with one entry per field, byte strings as text, the same array values, for any nesting.",
  ["inputs"], "all chunk shapes, ragged lists and nested record arrays",
  "The shipped tests check one recorded sav file (absent here); chunk and raggedness combinations are not tested.",
  [IO], [("chunked/variable length save", IO + ":save_dataset"), ("recarray_to_dict", IO + ":recarray_to_dict")], "exploration",
  "All ragged lists to 4 rows x lengths 0-3, all chunk shapes of small arrays, every pair of record field kinds to two levels.")
P("I03", "An interrupted save leaves the previous file or the complete new one",
  "If saving is killed at any file operation, or the disk fills up, loading that name afterwards gives either the complete previous value (or no file if there was none) or the complete new value, "
  "never a partial or unreadable file; running out of space is reported as an error, and saving again afterwards succeeds with the new value.",
  ["crash points", "histories"], "every crash point and out-of-space point of every save",
  "No test interrupts a save; checkpoints exist to survive interruptions.",
  [IO], [("temporary file and rename", IO + ":save")], "fault_enumeration",
  "Every file-system operation of a save (interposed in libc) is killed before, torn half way, or fails for lack of space, for every pair of old and new contents; no power-loss reordering.")

# ---------------------------------------------------------------- data setup
UV, OB = "PyFHD/data_setup/uvfits.py", "PyFHD/data_setup/obs.py"
P("D01", "Reading a UVFITS file yields exactly the visibilities and metadata it holds",
  "For any numbers of times, baselines, frequencies and polarisations, any order of the group parameters, any scaling and precision, degenerate axes and any baseline encoding: visibilities and weights come back in "
  "(polarisation, frequency, row) order with the file's real, imaginary and weight values, for the first n_pol polarisations; u, v, w, time and antenna numbers are the scaled group parameters; frequencies, phase centre and Julian dates follow "
  "from the header's reference values and pixels; missing keywords or parameters get the documented default or stop the run with an error status.",
  ["inputs"], "all UVFITS files of one spectral window",
  "The shipped tests need one absent file; axis order, scaling and encoding combine freely between instruments.",
  [UV], [("extract_header", UV + ":extract_header"), ("create_params", UV + ":create_params"), ("extract_visibilities", UV + ":extract_visibilities")], "exploration",
  "1415 (2383) hand-written files covering the product of sizes, encodings, parameter orders and scalings, precisions and missing entries; small dimensions.")
P("D02", "The antenna layout equals the antenna table, with documented defaults for gaps",
  "The layout returned, and the layout file saved from it, hold each antenna-table keyword and each column's per-antenna values in table order; any keyword or column the table lacks gets its documented default, and the others are unaffected.",
  ["inputs"], "all antenna tables with any subset of keywords and columns missing",
  "The shipped tests need absent files; a missing keyword takes a branch of its own and subsets are combinatorial.",
  [UV], [("create_layout", UV + ":create_layout")], "exploration",
  "Every subset of up to two (three) missing entries of 25-odd, for 1-5 antennas.")
P("D03", "The observation description follows from data, tables and options by definition",
  "Numbers of tiles, times, baselines, frequencies and visibilities, time bins, tile indices of each row (any antenna numbering), frequency bins, polarisation names, integration time, uv-pixel size, dimension, degrees per pixel, "
  "baseline limits and phase-centre pixel equal their definitions from the header, params, layout and options, with dimension, elements, kbinsize, FoV and minimum baseline honoured as documented; use flags start at one.",
  ["inputs"], "all combinations of numbering, sizes and uv-plane options",
  "The shipped tests compare one recorded observation (absent here).",
  [OB], [("create_obs", OB + ":create_obs")], "exploration",
  "2935 (4935) combinations: all permutations and shifts of up to 4 antenna numbers, channel, time and uv-plane options; rows grouped by increasing time.")
P("D04", "Metadata files, time cuts and re-derived observations are applied exactly",
  "Tile names, and flags come from the metadata file matched by antenna, whatever its row order; a file that flags every tile stops the run with an error status. A time cut disables exactly the time steps within the "
  "requested seconds of the start or end. Re-deriving an observation for a new dimension, pixel size, field of view or frequency averaging changes just the dependent fields consistently and never the original observation.",
  ["inputs"], "all row orders, flag patterns, time cuts and re-derivations",
  "The shipped tests compare recorded observations (absent here).",
  [OB], [("read_metafits", OB + ":read_metafits"), ("time_cut", OB + ":create_obs"), ("update_obs", OB + ":update_obs")], "exploration",
  "Up to 3 antennas (quick: every fifth row order), all flag patterns, time cuts on a grid to 4 (6) steps, all re-derivation combinations on a grid.")
UC = "PyFHD/pyfhd_tools/unit_conv.py"
P("C01", "Pixel, celestial and horizon coordinates convert correctly and invertibly",
  "Pixels map to the right ascension and declination of the slant orthographic projection about the phase centre, and back to the same pixel, inside the visible hemisphere, for scalars and arrays; pixels beyond the horizon give NaN. "
  "Altitude and azimuth agree with the IAU transformation for the site and time and convert back. Angular separations and parallactic angles equal those of spherical trigonometry in every quadrant.",
  ["inputs"], "all phase centres, zeniths, image geometries, sites and times",
  "The shipped tests use recorded grids (absent here) of one pointing.",
  [UC, U, OB], [("pixel_to_radec/radec_to_pixel/radec_to_altaz/altaz_to_radec", UC), ("project_slant_orthographic", OB + ":project_slant_orthographic"), ("parallactic_angle/angle_difference", U)], "exploration",
  "Grids of phase centre x zenith x size x pixel scale, all pixels of a lattice; sites and times on a grid, to 0.01 degrees for the horizon system.")
P("C02", "Direction cosines follow from sky positions about the pointing",
  "The direction cosines l, m and n - 1 of a set of positions are the components, east, north and along the line of sight, of their unit vectors about the pointing, for the given or the observation's pointing and the given or the beam's positions; where a coordinate is missing (NaN) all three are zero. The inputs are unchanged.",
  ["inputs"], "all pointings and positions, and all patterns of missing values",
  "The shipped tests need recorded data of one pointing.",
  [U], [("l_m_n", U + ":l_m_n")], "exploration",
  "Grids over the whole sphere for pointing and positions; every pattern of missing values in small arrays.")

# ---------------------------------------------------------------- flagging
FL = "PyFHD/flagging/flagging.py"
P("G01", "Basic flagging flags exactly what the data and the options ask for",
  "Basic flagging zeroes the weights of exactly the frequencies outside the requested limits, the requested coarse-channel edges, every baseline of a named tile and every baseline of a cut time; names that do not exist flag nothing. "
  "If channel edges are not to be flagged, a channel left without any positive weight in a polarisation gets weight one wherever its data are nonzero on a baseline with some positive weight, and no frequency is taken out of use; otherwise a frequency, and always a tile, "
  "stays in use exactly if it was and has positive weight in every polarisation. All other weights, and the visibilities, are unchanged; the flag counts match the use arrays.",
  ["inputs"], "all flag requests, weight patterns, channel widths and tile name lists",
  "The shipped tests need recorded data; flags of different origin interact through shared index arrays.",
  [FL], [("vis_flag_basic", FL + ":vis_flag_basic"), ("vis_flag_tiles", FL + ":vis_flag_tiles")], "exploration",
  "4998 (13848) combinations of options and weight patterns on small observations; every set of tile names; every channel count dividing the band.")
P("G02", "Updating weights cuts exactly flagged, out-of-range or off-plane visibilities",
  "A visibility's weight becomes zero in all polarisations exactly if its tile, frequency or time is out of use, its length in wavelengths is outside the baseline limits, or the gridding kernel centred on its (conjugate-folded) position would leave the uv plane; "
  "others keep their weight. The counts of visibilities and of flagged tiles, frequencies and times match the result, and updating again changes nothing.",
  ["inputs"], "all baseline positions, limits, use flags and weight patterns",
  "The shipped test needs recorded data; boundaries of the plane and of the length window are where off-by-ones hide.",
  [U], [("vis_weights_update", U + ":vis_weights_update")], "exploration",
  "All half-pixel positions of small square planes and beyond x kernel sizes x windows; every subset of flagged channels, tiles and times.")
P("G03", "Statistical flagging removes the outlying tiles, channels and times only",
  "Statistical flagging cuts exactly those tiles, then channels, then time steps whose scatter lies outside the n-sigma band of the rest, in two passes of which the second leaves out what the first found, or which have no usable samples; weights of cut visibilities become zero, "
  "all others are unchanged, and use flags and the visibility count agree with the weights.",
  ["inputs"], "all positions and strengths of outliers",
  "No test runs this function; it raised an exception on every input before it was repaired.",
  [FL], [("vis_flag", FL + ":vis_flag")], "exploration",
  "Every position and strength of one or two outlying or empty tiles, channels and times for several sizes; more than 10 good samples each, no decisions within rounding.")

# ---------------------------------------------------------------- even/odd splitting, noise, phase shift
P("E01", "Even/odd splitting pairs neighbouring times with equal weights",
  "Time steps in use are paired from the first one on; both members of each pair belong to the even and odd sets and both get, per sample, the same weight: positive exactly if both were, and then the smaller of the two and one. All other rows get zero. "
  "The noise per polarisation and frequency is the standard deviation of the imaginary even-minus-odd differences over the samples positive in both, divided by the square root of two; the data and weights passed in are not altered by it.",
  ["inputs"], "all numbers of times, use flags and weight patterns",
  "The shipped tests need recorded data; unequal weights, cut times and odd counts combine.",
  [U], [("split_vis_weights", U + ":split_vis_weights"), ("vis_noise_calc", U + ":vis_noise_calc")], "exploration",
  "Every subset of used times for 2-6 steps and all sample weight patterns on small arrays; same number of rows for each time, at least one time in use.")
P("W01", "Phase-shifting visibilities multiplies by the w-term and undoes itself",
  "Phasing visibilities in a direction multiplies each sample of the chosen polarisations by exp(i direction w f), keeps every amplitude, changes no parameter, and phasing with the opposite direction restores them.",
  ["inputs"], "all directions, w values, frequencies and polarisation counts",
  "The shipped test is one recorded case.",
  [U], [("vis_phase/simple_deproject_w_term", U + ":simple_deproject_w_term")], "exploration",
  "A lattice of directions, w, frequencies and sizes with distinguishable samples.")

# ---------------------------------------------------------------- calibration
CS, CU, CA = ("PyFHD/calibration/" + f for f in ("vis_calibrate_subroutine.py", "calibration_utils.py", "calibrate.py"))
P("K01", "The calibration solver recovers the tile gains that made the data",
  "From noiseless data made by a model and per-tile gains, the solver returns those gains for every tile with at least five usable samples, phases referred to the reference tile (the second, or the first in use), for any start value, update option, time averaging and "
  "flags; tiles with fewer samples get zero, unused channels keep the start value, tiles out of use get NaN, and a channel whose reference tile cannot be solved gets zero gains and weights. Usable are samples of positive weight inside the calibration baseline window; others do not matter, noisy data give each tile the least-squares fit given the others' gains, and data and model are unchanged.",
  ["inputs"], "all gain patterns, flag patterns, baseline windows and solver options",
  "The shipped tests need recorded data; which equations a flag removes depends on tile, channel, time and polarisation together.",
  [CS], [("vis_calibrate_subroutine", CS + ":vis_calibrate_subroutine"), ("calculate_adaptive_gain", CU + ":calculate_adaptive_gain")], "exploration",
  "2311 (over 10000) combinations: 6-7 (5-12) tiles, 3 channels, every tile, tile pair and channel flagged in turn; 1e-4 after convergence; determined solutions only.")
P("K02", "Applying a calibration divides by the two tiles' gains",
  "Calibrated visibilities are the data divided by the first tile's gain and the conjugate of the second's, polarisations paired as named (XX, YY, XY, YX), zero where that product is zero or NaN, for any number of times; a measured cross phase rotates XY and YX oppositely. Gains and inputs are unchanged.",
  ["inputs"], "all gains including zero and NaN, polarisation counts and tile pairs",
  "The shipped tests need recorded data and have two polarisations.",
  [CU], [("vis_calibration_apply", CU + ":vis_calibration_apply")], "exploration",
  "Every tile with zero or NaN gain in each polarisation and channel, 1-4 polarisations, several times, cross phases on a lattice.")
P("K03", "The bandpass is the robust mean of the normalised tile amplitudes",
  "In each used channel, the bandpass of a used tile is the mean, robust to values over two deviations out, of the amplitudes of its group's used tiles, each first divided by that tile's robust mean over used channels; it is zero in unused channels. "
  "The group is every used tile, or the tiles of the same cable length if cable bandpass is chosen, every length has a used tile and auto-correlation ratios are off; the remaining gain times the bandpass gives the gain back in used channels. The gains passed in and the observation are unchanged.",
  ["inputs"], "all gains, use flags, cable length tables and options",
  "The shipped tests need recorded data; grouping, flags and normalisation interact.",
  [CU], [("vis_cal_bandpass", CU + ":vis_cal_bandpass"), ("resistant_mean", U + ":resistant_mean")], "exploration",
  "Every subset of used tiles and channels for several sizes; every way of keeping all, one or no tile of each cable length; used tiles and channels compared.")
P("K04", "Polynomial and cable-reflection fits of the gains follow their definition",
  "The fitted gain of a used tile has as amplitude and unwrapped phase the least-squares polynomials of the chosen degrees over the used channels, evaluated over the whole band (with the digital gain jump option, separately below and above 187.515 MHz). If a reflection mode is chosen, it is that of the file, of the tile's nominal cable length, "
  "or the strongest mode of the gain's delay spectrum, refined on request within 2.5 modes in steps of 0.05; the gain is multiplied by one plus the reflection, for tiles of the chosen cable lengths. With auto-correlation ratios only the reflection's phase is used; recorded parameters are those used.",
  ["inputs"], "all gains, degrees, used channels, cable lengths and reflection options",
  "The shipped tests need recorded data; a wrong axis, degree or cable group changes gains plausibly.",
  [CU], [("vis_cal_polyfit", CU + ":vis_cal_polyfit")], "exploration",
  "1534 (2704) cases: degree pairs x every pattern of used channels, phase wraps, jump at every channel, all reflection modes and length lists; unique strongest mode.")
P("K05", "Auto-correlations give start gains, fits and ratios by their definitions",
  "Auto-correlations are taken per row, or averaged over used times per tile; start gains are the square roots of data over model power, scaled per polarisation to the overall ratio of data and model amplitudes, and one where that is not positive. The fit replaces each cross gain's amplitude by its linear regression on the auto gain over channels away from flagged ones, "
  "keeping its phase. Dividing gains by the ratio to the reference tile and remultiplying restores them.",
  ["inputs"], "all sets of tiles with auto-correlations, times, flags and signals",
  "The shipped tests need recorded data; missing auto-correlations shift tile indices silently.",
  [CU], [("vis_extract_autocorr/vis_cal_auto_init/vis_cal_auto_fit/cal_auto_ratio_divide/cal_auto_ratio_remultiply", CU)], "exploration",
  "Every subset of tiles with autos x used times x used channels for 2-4 tiles; one row per tile and time.")
P("K06", "Calibration flagging cuts exactly the tiles and channels its tests name",
  "Flagging by calibration cuts exactly the tiles whose amplitude level is a factor two or five deviations from the others, or whose amplitude scatter, phase slope or phase scatter is, in up to three passes, and channels of outlying scatter only if channel flagging is requested; already cut tiles and channels stay cut and the gains do not change.",
  ["inputs"], "all positions, kinds and strengths of outliers",
  "The shipped test needs recorded data with one outlier configuration.",
  [CU], [("vis_calibration_flag", CU + ":vis_calibration_flag")], "exploration",
  "3873 (14862) cases: every tile or channel made an outlier of each kind and strength, and pairs; more than 26 tiles and channels; decisions clear of rounding.")
P("K07", "Q-U mixing angle and residual histograms equal their definitions",
  "The Q-U mixing angle is the angle of the least-squares slope of Q on U of the model minus that of the data, over time sums weighted with the XX weights clipped to zero and one. The residual histogram holds, per 5-wavelength bin with model signal, the mean and the deviation of |calibrated - model| over the mean |model|, over samples with nonzero model within the limits. Inputs are unchanged.",
  ["inputs"], "all angles, flag patterns, length windows and zero-model patterns",
  "The shipped tests need recorded data.",
  [CA, CU], [("calibrate_qu_mixing", CA + ":calibrate_qu_mixing"), ("vis_baseline_hist", CU + ":vis_baseline_hist")], "exploration",
  "A grid of data and model angles x weight patterns; every length window and zero-model pattern on small arrays, lengths away from bin edges.")
P("L01", "Calibration plots show every tile's gains under its name",
  "Plotting a calibration writes, for each page of 128 tiles, the amplitudes and the phases of the gains, of the raw gains (gain plus residual) and of the differences between the two. Every tile has one panel under its name, with one curve per polarisation in the colour of the legend holding that tile's values at the used frequencies in MHz, none of them outside the range shown. "
  "Tiles out of use or without gains are left blank; the gains and the observation are unchanged.",
  ["inputs"], "all numbers of tiles, flags, missing gains and phases",
  "No test plots anything; a slipped tile, page or channel index still gives a plausible figure.",
  ["PyFHD/plotting/calibration.py"], [("plot_cals", "PyFHD/plotting/calibration.py:plot_cals")], "exploration",
  "Tile counts about each page boundary x flag patterns x missing gains x phases; every curve of every figure is read at the moment it is saved. Image plots (quick_image, called from nowhere) are outside.")
P("K08", "The adaptive update weight follows its filter and never drops below half",
  "The weight of a calibration update is the base gain for the first three iterations and afterwards the value of the documented convergence filter, fed by the convergence history, but at least half the base gain; it is recorded in the list of weights, and no earlier entry changes.",
  ["histories"], "all convergence histories",
  "The shipped test replays recorded histories (absent here); the state carried between iterations is what matters.",
  [CU], [("calculate_adaptive_gain", CU + ":calculate_adaptive_gain")], "exploration",
  "Every history over a three-letter alphabet to length 7 (quick) or 9, for each base gain, final value given or estimated.")
P("K09", "A transferred bandpass is what the calfits file holds for the observation",
  "A bandpass transferred from a calfits file is the file's gain for each polarisation (in the observation's convention), channel and tile: at the time closest to the observation's middle, or averaged over time if the steps match, and averaged over unflagged channels or interpolated linearly if its channels are finer or coarser by a whole factor. "
  "The remaining gains are the calibration divided by it. A file that is missing, of another layout, or does not fit in polarisations, frequencies, tiles or time is refused and the observation's own bandpass used.",
  ["inputs"], "all layouts, polarisation conventions, channel ratios, flags, times and misfits",
  "No test reads a calfits file; index slips between its five or six axes give plausible gains of another tile, channel or time.",
  [CU], [("transfer_bandpass", CU + ":transfer_bandpass"), ("vis_cal_bandpass", CU + ":vis_cal_bandpass")], "exploration",
  "Layouts x polarisations x conventions x tiles x channels, whole ratios 1:7 to 7:1 with each channel flagged, every place among the times, 24 ways of not fitting; gains compared one by one. Files of whole pointings (1600 to 2000 s steps) are outside.")
P("K10", "Calibrating data made by gains the options can describe restores the model",
  "When the data are a model times gains the chosen options (bandpass, polynomial, auto-correlation ratio, fit and start, time averaging) can represent, calibration returns those gains referred to the reference tile and the model as calibrated data, in all polarisations; residual gains vanish and mean gains follow. "
  "For any other data the gains are those of the steps asked for, in their order, on the solver's gains; the residual gains are what these leave, and means and deviations are theirs. "
  "Values of flagged data do not matter, tiles found to be outliers are cut, and model and weights are unchanged.",
  ["inputs"], "all option combinations, flag patterns, times and polarisation counts",
  "No test runs the whole calibration without recorded data; the steps hand each other modified copies of one structure.",
  [CA], [("calibrate", CA + ":calibrate")], "exploration",
  "2757 (more) option and flag combinations end to end on 8 tiles x 12 channels, over half with gains the options cannot describe; 1e-5 on gains; X-Y phase difference the same for all channels.")

# ---------------------------------------------------------------- gridding and imaging
VG, GU, FI = ("PyFHD/gridding/" + f for f in ("visibility_grid.py", "gridding_utils.py", "filters.py"))
P("R01", "Gridding adds every usable visibility with its own kernel at its own place",
  "The gridded planes are sums over exactly the usable visibilities (positive weight, in the requested rows and channels, length within limits over the whole band, kernel inside the plane): those of positive v enter conjugated at -u,-v. Each adds the conjugate of its kernel, that of its polarisation and frequency group at its sub-pixel position (nearest step below or bilinearly interpolated), times its value to the image plane and alike to model, weight, variance and "
  "spectral planes, over the number gridded; then planes are averaged with their conjugate mirror unless suppressed (variance: quarter sum). Counts are returned, inputs unchanged; with nothing usable no planes result.",
  ["inputs"], "all visibilities, positions, weights, beams and gridding options",
  "The shipped tests need recorded data of one layout each; grouping of visibilities and axis order only show with several frequencies, groups and duplicates.",
  [VG, GU], [("visibility_grid", VG + ":visibility_grid"), ("baseline_grid_locations/interpolate_kernel/conjugate_mirror", GU)], "exploration",
  "6252 quick cases: every third-of-pixel position, every row and channel subset of small layouts, all option combinations; grid_uniform and beam_per_baseline off.")
P("R04", "Visibility counts and the uniform filter count each visibility once",
  "The visibility count of a uv pixel is the number of usable visibilities whose kernel box covers it, averaged with the mirrored plane unless suppressed; ignoring flags counts every row and channel in the plane. The uniform filter is one over the count where it is at least one, else zero, divided by its mean over weighted (or counted) pixels, with counts given, derived from the weights, or from the observation; the plane is multiplied by it and the inputs are unchanged.",
  ["inputs"], "all layouts, subsets, weights and counts",
  "The shipped tests need recorded data.",
  [GU, FI], [("visibility_count", GU + ":visibility_count"), ("filter_uv_uniform", FI + ":filter_uv_uniform")], "exploration",
  "Every subset of channels and rows x options on square and rectangular planes; every small pattern of counts; some count of one or more.")
P("R05", "A dirty image is the Fourier sum of the uv plane, weighted as requested",
  "The image is the discrete Fourier sum of the uv plane about its centre divided by the number of pixels, after the baseline threshold, masking, filtering and resizing; padding by a factor samples the same image that much finer; it is scaled by the pixel solid angle, beam (optimal filter) and normalisation if given, real unless complex output is requested. The conjugate mirror maps each pixel to its negative position conjugated, and twice is the identity; "
  "cross polarisations reformat into their half difference and its mirror. Inputs are unchanged.",
  ["inputs"], "all planes, sizes and imaging options",
  "The shipped tests need recorded images; a shift by a pixel or sign needs off-centre, asymmetric planes.",
  [GU], [("dirty_image_generate/conjugate_mirror/crosspol_reformat", GU)], "exploration",
  "Every single-pixel plane (with linearity: every plane) of small even sizes and dense planes x all options, thresholds and filter counts; odd sizes not.")

VMT, QV = "PyFHD/source_modeling/vis_model_transfer.py", "PyFHD/io/pyfhd_quickview.py"
P("K11", "The calibration solver iterates, and stops, as documented",
  "Each iteration replaces every gain by the average, weighted by base and update weight, of its present value and its least-squares value given the others' present gains (only the phase of that value in the first iterations), takes a third of the step where a gain collapses, and turns the reference tile's phase to zero. "
  "It stops when the largest relative change meets the threshold, when the mean change no longer falls and meets it, or, one iteration back, when the changes grow as documented; gains, last iteration, last changes and the number of converged channels are those of that iteration.",
  ["histories"], "all histories of the iteration",
  "Where the iteration stops depends on the whole history of changes; a wrong stop gives gains that are slightly off or a channel wrongly counted as converged.",
  [CS], [("vis_calibrate_subroutine", CS + ":vis_calibrate_subroutine"), ("calculate_adaptive_gain", CU + ":calculate_adaptive_gain")], "model_checking",
  "1984 runs of a transition system (noise, start, weights, thresholds, phase-only iterations, flags), each replayed with 14 limits on the iterations, so that the state after every iteration is compared.")
P("M01", "A transferred model is lined up with the data by antennas, channel and time",
  "Each row of the transferred model is the model's visibility of the same two tiles, named by number or index, at the data's time step (the nearest one, for offsets below half an integration), in every channel and polarisation; auto-correlations of the data absent from the model are zero, and rows, tiles and times the data lack are dropped. "
  "A model without all the tiles or times of the data, of other channels, or whose file is missing or of unknown type is refused with a failure status, never used.",
  ["inputs"], "all tile sets, auto-correlations, time ranges and offsets of data and model",
  "The shipped tests need recorded models that match the data but for the tiles.",
  [VMT], [("vis_model_transfer/import_vis_model_from_uvfits/import_vis_model_from_sav/flag_model_visibilities", VMT)], "exploration",
  "16007 (26047) pairs of data and model: every pair of tile sets of 5; sav files by a stand-in for scipy's reader.")
P("Q01", "Quickview writes exactly the products requested, each with its own data",
  "At the end of a run exactly the files asked for are written (observation, parameters, calibration, visibilities, weights, images, beams), per polarisation where they have one. Images are those of the gridded planes with the chosen filter, padding and beam correction; cross polarisations appear as real and imaginary part; the header of each places every pixel where it is on the sky. Inputs are unchanged.",
  ["inputs"], "all combinations of saving options, polarisations, filters, paddings and pointings",
  "The shipped tests have none for it; a swapped polarisation or a one-pixel shift of the header passes unnoticed.",
  [QV, GU], [("quickview", QV + ":quickview"), ("get_image_renormalization", QV + ":get_image_renormalization"), ("crosspol_split_real_imaginary", GU)], "exploration",
  "884 (thorough more) cases, every single-pixel uv plane of 6 x 6; square even images, whole padding factors.")

HU, HX, BU = "PyFHD/healpix/healpix_utils.py", "PyFHD/healpix/export.py", "PyFHD/beam_setup/beam_utils.py"
P("H01", "A HEALPix map is the image interpolated at the right HEALPix pixels",
  "Converting an image gives each selected HEALPix pixel the bilinear interpolation of the image at its direction on the slant orthographic projection, zero outside the image. Selected are the listed pixels or, without a list, those within the radius, strictly inside the image and between unmasked pixels only; always above the horizon, in list order. "
  "The resolution is that of the list, else the given one, else the coarsest whose pixels are no larger than the image's; without a list file the shipped list of the nearest field, then nearest frequency, is used.",
  ["inputs"], "all images, pointings, geometries, masks and pixel lists",
  "The shipped tests need recorded data; neighbouring pixels and wrap-around at edges only show with every single pixel lit.",
  [HU], [("healpix_cnv_generate/healpix_cnv_apply", HU)], "exploration",
  "1668 (4836) cases, every single-pixel image of each; HEALPix pixels within rounding of an edge, the disc or the horizon excluded; square images.")
P("H02", "Images per channel group hold exactly that group's gridded visibilities",
  "Splitting by frequency gives, for each group of the averaging length, the data, model, weight and variance images (or uv planes) of the usable visibilities in that group's used channels, in the given rows or those with weight, times their number; zero where nothing is gridded. Weights and variance are shifted to the original phase centre if requested; the uv planes are saved on request, "
  "and the numbers of visibilities are those of this call only. Data, model and weights are unchanged.",
  ["inputs", "histories"], "all channel, row and flag subsets, groupings and options",
  "The shipped tests need recorded data; counts carried over between polarisations only show with empty groups.",
  [HU], [("vis_model_freq_split/phase_shift_uv_image", HU)], "exploration",
  "5194 (10906) cases; square planes of 14 pixels, 3 tiles.")
P("H03", "Exported HEALPix cubes are exactly those requested, with exactly their data",
  "Exporting writes one file per polarisation and half (even and odd times, or one if not split or if there is only one time), holding the pixel list, averaging length, observation and the beam-squared, weight, variance, model and dirty (or residual) cubes: per channel group, maps of the images of the remaining visibilities. Size and resolution follow the options in their documented precedence; "
  "flagged tiles, channels, times and unpaired visibilities do not contribute. The observation, data and model passed in are unchanged.",
  ["inputs"], "all option combinations, times, polarisations and flags",
  "No shipped test runs the export; each option path only meets the others here.",
  [HX, HU, OB], [("healpix_snapshot_cube_generate", HX + ":healpix_snapshot_cube_generate"), ("update_obs", OB + ":update_obs")], "exploration",
  "226 (402) option and data combinations of 4 tiles; everything in the files recomputed from the definition; even image sizes.")
P("B01", "The beam a run uses is the one stored in the beam file",
  "A beam read from an FHD save file holds the kernel of each polarisation, frequency bin and sub-pixel offset of the first baseline, the beam group of each polarisation, bin and baseline, and every other entry, null ones as missing. "
  "The save file stays as it is, and the HDF5 file written beside it holds the same beam, loaded or read lazily. An HDF5 beam is returned as stored, and a FITS beam is refused with a failure status.",
  ["inputs"], "all beam structures and files", "No beam file is shipped, so nothing of this is tested; axis orders and pointer nesting are easily exchanged.",
  ["PyFHD/beam_setup/beam.py", "PyFHD/io/pyfhd_io.py"], [("reading the beam", "PyFHD/beam_setup/beam.py:create_psf"), ("converting records", "PyFHD/io/pyfhd_io.py:recarray_to_dict")], "exploration",
  "538 (1482) save files written as IDL does, to 4 polarisations x 3 bins x 4 baselines with distinct kernels; HDF5 files; more than one kernel.")
P("H04", "Beam images are those of the requested polarisation and channels",
  "The beam image is the sum of the Gaussian lobes (or Fourier sum of the uv kernel) of the polarisation and frequency group, squared if requested, averaged over the used or given channels with the groups' normalisation. The beam cube holds one image per requested channel (given by number of bins, index or frequency), and the mask is one exactly where every polarisation's and channel's beam is connected to the centre above the threshold (squared for squared beams). The beam is unchanged.",
  ["inputs"], "all beams, channel subsets, groupings, sizes and thresholds",
  "The shipped tests need recorded data of one beam; carry-over between groups needs several.",
  [BU, HU], [("beam_image/gaussian_decomp", BU), ("beam_image_cube", HU + ":beam_image_cube")], "exploration",
  "13000 (29000) cases: every channel subset x grouping x form of the beam; one beam for all tiles, even kernels, square images.")

# ---------------------------------------------------------------- running
SU, MAIN = "PyFHD/pyfhd_tools/pyfhd_setup.py", "PyFHD/pyfhd.py"
P("F01", "Options that cannot work are refused before a run starts",
  "A run whose options name files that do not exist, sav models that are incomplete, or simulation or image options without what they depend on ends with a failure status before it starts; every other one starts with each option as given, but for the documented adjustments and paths made absolute. "
  "Its output goes to a directory named after the description (else the time) under the output path, which is created if needed, with a log file unless turned off; files already there are kept.",
  ["inputs"], "all combinations of options, files present and output locations",
  "No shipped test runs the validation; a check that never fires or a success status on failure goes unnoticed until a pipeline wastes hours.",
  [SU], [("pyfhd_setup/pyfhd_logger", SU)], "exploration",
  "5836 (thorough more) sets of up to two conditions of 69, some triples; reflection fits with several nominal modes excluded.")
P("F02", "The configuration a run writes reproduces the run",
  "Feeding the configuration file written by a run back gives the same value of every option. An option in a configuration file has the effect it has on the command line, where it takes precedence; switches can be turned on and off; lists of names are kept whole. The configuration files shipped are accepted.",
  ["inputs", "histories"], "all options, values and pairs of options",
  "No shipped test reads a configuration back.",
  [SU], [("write_collated_yaml_config/pyfhd_parser", SU)], "exploration",
  "4295 (thorough more) option sets: every option with up to 27 values, pairs of options; no control characters.")
P("P01", "Runs killed or out of space leave only whole products and restart exactly",
  "A run that is killed, or that runs out of space, at any point leaves under the final name of each HDF5 product and checkpoint either nothing or the complete file. "
  "Started again, from nothing or from any checkpoint left behind, a run ends with the very products of an undisturbed run. A run started from a checkpoint of another run makes everything that follows from it, alike.",
  ["faults", "histories"], "all kill points, points of lack of space and checkpoints",
  "No shipped test kills or restarts a run; partial files and state the checkpoints miss only show at certain points.",
  [IO, MAIN], [("save/recovering files", IO + ":save"), ("main", MAIN)], "fault_enumeration",
  "25 (79) cases, some 400 (7000) whole runs under an injected fault; process crash, not loss of power; FITS images excepted.")
P("P02", "A run writes exactly the products asked for, alike whatever else is asked for",
  "A run writes exactly the files its saving, checkpoint, imaging, export, gridding and stopping options ask for, with the documented names. The contents of each are the same whichever of the others are written; beside them lie a log and the options used.",
  ["inputs"], "all combinations of the options that decide what is saved",
  "No shipped test runs the program; products that depend on whether another is saved go unnoticed.",
  [MAIN, QV, SU], [("main", MAIN)], "exploration",
  "266 (2000) whole runs over 10 switches, with and without calibration, 2 and 4 polarisations, split or not.")

P("P03", "The products of a run follow from its input files and options",
  "The visibilities, weights, uv planes, images and HEALPix cubes a run writes are what flagging, calibration with the gains it wrote, gridding, imaging and export give for its input files and options. With noiseless data and nothing fitted, calibration restores the model.",
  ["inputs"], "all kinds of miniature observations with all options, and pairs of them",
  "No shipped test runs the program, and its stages are tested apart, so that wiring between them is untested.",
  [MAIN, CA, QV, HX], [("main", MAIN)], "exploration",
  "289 (2900) whole runs: 16 kinds of observation with 58 settings of the options; every product from a reference working on one visibility at a time.")

P("P04", "Flagged samples never influence a product",
  "The data and model values of samples flagged by weights, tile flags or options change nothing a run writes but the visibilities stored for those samples themselves.",
  ["inputs"], "all kinds of sets of flagged samples with all options, data and model altered",
  "Every stage has to leave flagged samples out; a leak shows as a small error of the products only, and no shipped test runs the program.",
  [MAIN, CA, QV, HX], [("main", MAIN)], "exploration",
  "174 (1800) sets of four whole runs: as is, data altered, data zero, model altered at the flagged samples; all products equal. Auto-correlations and the start of the gains taken from them are left out.")
