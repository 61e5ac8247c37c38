"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
S = "src/legwork/"
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "Orbital algebra: Kepler and Peters closed forms, in both directions",
  "For every pair of masses, orbital frequency or semi-major axis, eccentricity 0 <= e < 1 and harmonic n >= 1 (scalar or array, integer or float, any unit), the chirp mass, Kepler conversions, Peters' beta, F(e), c_0, a(e) and the chirp rate of the n-th harmonic equal their closed-form values to rounding error, with the right dimension and broadcast shape. "
  "The conversions are mutually inverse: f_orb to a and back, and e to a along the track fixed by c_0. "
  "A harmonic below 1, alone or anywhere in an array, is refused with ValueError and never gives a number.",
  ["inputs"], "all m_1, m_2 > 0, f_orb or a > 0, 0 <= e < 1 (0 < e for c_0), n >= 1; every unit of the right dimension",
  "test_utils checks a round trip of Kepler's law on one random sample with one unit; beta, c_0, a(e), F(e) and fn_dot have no value check at all.",
  ["utils.py"], [("closed-form expressions and unit simplification", S + "utils.py: chirp_mass .. fn_dot")],
  ["return values of utils.chirp_mass, get_a_from_f_orb, get_f_orb_from_a, beta, peters_f, c_0, get_a_from_ecc, fn_dot"])

p("C02", "Relative harmonic power g(n, e) is the quadrupole power spectrum of an orbit",
  "For every harmonic n >= 1 and eccentricity 0 <= e < 1, the relative power g(n, e) is the n-th Fourier component of the quadrupole radiation of a Keplerian orbit: never negative beyond rounding, exactly n = 2 alone for a circular orbit, and summing over n to the enhancement factor F(e). "
  "It is evaluated element by element on any broadcastable combination of n and e, and the values do not depend on which other harmonics or eccentricities are evaluated in the same call. "
  "The interpolated g(n, e) that a source collection uses when interpolation is switched on agrees with the exact one to better than 0.1% of the peak power at that eccentricity for e <= 0.95.",
  ["inputs"], "1 <= n <= 10^4 and 0 <= e < 1 on scalars, vectors and grids, exact and interpolated",
  "No stable test evaluates g(n, e); an exponent or a Bessel order can change (upstream issue #127 did exactly that) without any test noticing, because it only shows for low harmonics of very eccentric orbits.",
  ["utils.py", "source.py"], [("Bessel function expression", S + "utils.py: peters_g"), ("bivariate spline over a precomputed grid", S + "source.py: set_g")],
  ["utils.peters_g, utils.peters_f, Source.g"])

p("C03", "Strain amplitudes per harmonic are correct in every element of the output cube",
  "For every collection of x binaries, y timesteps and z harmonics, the strain amplitude h_0,n and characteristic strain h_c,n have shape (x, y, z) and entry [i, j, k] is the quadrupole strain of binary i at timestep j in the k-th requested harmonic, whatever the order or repetition of harmonics. "
  "They satisfy h_c,n^2 = f_n^2 h_0,n^2 / (df_n/dt), scale as 1/distance, and stay finite and non-negative for exact and for interpolated g(n, e). "
  "Harmonics below 1, alone or anywhere in a list, are refused with ValueError.",
  ["inputs"], "all masses, distances, f_orb and e of shape (x,) or (x, y), harmonic lists of any order, scalars or arrays",
  "test_strains compares h_0 and h_c for one harmonic and one timestep with each other; values, shapes for several timesteps and harmonics and the sky-independent scaling are unchecked.",
  ["strain.py"], [("n-independent part times n-dependent part, broadcast to (x, y, z)", S + "strain.py: h_0_n, h_c_n")],
  ["return values of strain.h_0_n and strain.h_c_n"])

p("C04", "Sky position, polarisation and inclination modulate the strain correctly",
  "For every sky position, polarisation and inclination the orbit-averaged response factors and the modulation of the squared strain are those of Cornish & Larson (2003) in ecliptic coordinates: in [0, 1], unchanged by reflecting the inclination (i to pi - i), by shifting the polarisation by pi/2, or by the angular units used. "
  "A source collection built with positions in any sky frame gives, source by source, the strains and stationary SNRs of the orientation-averaged calculation times the square root of that modulation at the source's ecliptic coordinates. "
  "Missing inclinations are drawn uniform in cos(i) on [0, pi/2] and missing polarisations uniform on [0, pi], given angles are kept as they are, and orientations for an eccentric source or without a position are refused with ValueError.",
  ["inputs"], "all ecliptic (lon, lat), psi, inclination; ICRS, galactic and ecliptic frames; scalar and array sources; harmonics n >= 1",
  "The one stable test integrates F over the sky; the modulation in the strain, frames, per-source alignment and the random draws need Source, which no stable test can build.",
  ["utils.py", "strain.py", "source.py"],
  [("response averages", S + "utils.py: D_plus_squared .. F_cross_squared"), ("amplitude_modulation", S + "strain.py: amplitude_modulation, h_0_n, h_c_n"), ("frame transformation and draws", S + "source.py: Source.__init__")],
  ["utils.F_plus_squared, utils.F_cross_squared, strain.amplitude_modulation, Source.position, Source.get_snr, Source.get_h_0_n, Source.get_h_c_n"])
p("C05", "Detector noise curves equal the published power spectral densities",
  "For every frequency, mission length, arm length, response option and confusion-noise choice, the LISA, TianQin and DECIGO power spectral densities equal the published instrument noise plus the chosen confusion noise, element by element, in inverse Hertz, whatever the frequency unit or array shape. "
  "Outside the instrument's validity band (LISA: 1e-7 to 2 Hz, DECIGO: its lower to upper limit) the density is infinite, inside it is finite and positive, the band edges included. "
  "The generic function gives the same curve as the instrument function, with 'auto' standing for the documented per-instrument arm length, mission length and confusion model, hands a custom PSD its arguments unchanged, and refuses an unknown instrument with ValueError.",
  ["inputs", "configurations"], "all f > 0 in and out of band, t_obs 0.1-10 yr, any arm length, exact and approximate response, every confusion model, every instrument",
  "test_psd compares curves with each other (approximate R vs exact, longer mission vs shorter); the absolute values of no curve and no band edge are pinned.",
  ["psd.py"], [("lisa_psd, tianqin_psd, decigo_psd", S + "psd.py"), ("dispatch and auto values", S + "psd.py: power_spectral_density")],
  ["return values of psd.lisa_psd, psd.tianqin_psd, psd.decigo_psd, psd.power_spectral_density"])

p("C06", "Galactic confusion noise follows the chosen model at the right mission length",
  "For every frequency up to 2 Hz and every mission length each confusion model (Robson+19, Huang+20, Thiele+21, Karnesis+21, none) gives its published value in inverse Hertz, never negative, as one value per frequency: Robson and Huang with the coefficients of the tabulated mission length closest to the requested one (in any time unit), Karnesis as a continuous function of it, Huang exactly 0 outside 1e-4 to 1 Hz. "
  "Asking without a mission length uses the model's documented default, Thiele+21 for anything but 4 years and unknown model names are refused with ValueError, and 'no model' is exactly zero. "
  "A user-supplied noise function is called with the frequencies and mission length and its result, in whatever inverse-frequency unit, is what is added to the instrument noise of every detector.",
  ["inputs", "configurations"], "f over 1e-5 to 10 Hz as scalars and arrays, t_obs 0.05-20 yr in any unit, all models, callables in any inverse-frequency unit",
  "test_psd only checks that a longer mission has less noise for one model and that bad names raise; coefficient tables and nearest-length selection are not pinned.",
  ["psd.py"], [("model tables and nearest mission length", S + "psd.py: get_confusion_noise_*"), ("dispatch", S + "psd.py: get_confusion_noise")],
  ["return values of psd.get_confusion_noise*, and of the PSDs given a callable"])

p("C07", "Merger times solve Peters' equations within the documented accuracy",
  "For every binary the merger time is the Peters (1964) inspiral time: exact (to integration error) for circular binaries and for eccentricities from the small-e to the large-e tolerance, within 3% where the documented small-e and large-e limits are used, and within 0.6% of the exact value with the fitted formula (0.01 <= e <= 0.99). "
  "The result is the same for a scalar, a one-element array or any position in a mixed array, whether given masses and frequency, masses and separation, or beta and separation, in any units; it scales as a^4/beta at fixed eccentricity and decreases with eccentricity (to the accuracy of the approximations). "
  "When more than needed is given, beta counts before the masses and the separation before the frequency. Missing inputs (neither beta nor both masses; neither a nor f_orb; f_orb without masses) raise ValueError.",
  ["inputs"], "0 <= e <= 1 - 1e-6 including both tolerance boundaries and user-chosen tolerances, all masses, separations and frequencies, exact and fitted",
  "test_evol compares the fit with the exact value and arrays with scalars for a random sample; no value is compared with an independent integration, and special eccentricities are few.",
  ["evol.py"], [("branches by eccentricity", S + "evol.py: get_t_merge_ecc, get_t_merge_circ"), ("Mandel fit", S + "evol.py: t_merge_mandel_fit"), ("input resolution", S + "evol.py: check_mass_freq_input")],
  ["return values of evol.get_t_merge_circ, evol.get_t_merge_ecc, evol.t_merge_mandel_fit"])

p("C08", "Circular inspirals follow the exact track up to and past the merger",
  "For every circular binary and every requested time, the evolved separation is (a_0^4 - 4 beta t)^(1/4), the orbital frequency is its Kepler counterpart and the GW frequency twice that; once the merger time has passed the separation is 0 and the orbital frequency 100 Hz, and never before. "
  "The requested outputs come back in the requested order, one row per binary and one column per timestep (flat for a scalar binary), with the times actually used: n_step equally spaced times up to the (scalar or per-binary) evolution time, up to the merger by default, or exactly the user's 1D or 2D timesteps, in any unit. "
  "Splitting an evolution into consecutive pieces, or sampling it at more times, does not change the state reached.",
  ["inputs", "histories"], "all masses, a or f_orb, beta or masses, t_evol scalar/array/default, timesteps 1D/2D, every list of output variables, including past merger",
  "test_evol checks array shapes and that the last step of one evolution to merger is merged; intermediate values are compared only for equality of two code paths.",
  ["evol.py"], [("analytic track", S + "evol.py: evol_circ"), ("times", S + "evol.py: create_timesteps_array")],
  ["return values of evol.evol_circ, evol.create_timesteps_array"])

p("C09", "Eccentric inspirals follow Peters' equations at every timestep",
  "For every eccentric binary (0.01 <= e <= 0.95) and requested time before its merger, the evolved eccentricity solves Peters' de/dt to integration accuracy, the separation is the one on the binary's own c_0 track and the frequency its Kepler counterpart; eccentricity and separation only ever decrease with time, and the first entry is the initial state. "
  "With merger avoidance on, times closer to the merger than t_before repeat the last permitted time (the first is always kept), so that times, eccentricities and frequencies returned together always belong together; with it off, binaries past their merger have e = 0, a = 0 and f_orb = 100 Hz. "
  "Requested outputs come back in order with one row per binary and one column per time, however the times were given (duration, per-binary durations, default, 1D or 2D timesteps, any unit), and splitting an evolution in consecutive pieces reaches the same state.",
  ["inputs", "histories"], "all masses, 0.01 <= e <= 0.95, a or f_orb, all forms of times, merger times computed or supplied, past-merger evolution with and without avoidance",
  "test_evol evolves nearly-circular binaries and compares them with the circular track; no eccentric track is compared with a solution of the equations, and the cut-off near merger is untested.",
  ["evol.py"], [("de/dt integration", S + "evol.py: evol_ecc, de_dt, integrate_de_dt"), ("merger avoidance", S + "evol.py: evol_ecc")],
  ["return values of evol.evol_ecc"])

p("C10", "Circular/eccentric and stationary/evolving classes are exact and exhaustive",
  "For every binary the frequency after t_evol with the initial enhancement factor held is the closed-form chirp (the merged marker frequency if it merges within that time, by default 1 GHz or the caller's value), and a binary is stationary exactly when its relative frequency change is at most the tolerance; so no binary whose true orbit changes by more than the tolerance is called stationary. "
  "Source masks select per source exactly the conjunction of the requested circular (e at most the transition eccentricity) and stationary conditions, so that the four classes partition every collection, under the collection's stationarity tolerance and the given or instrument-default mission length. "
  "Anything but True, False or None is refused with ValueError, as is a request without masses.",
  ["inputs", "configurations"], "all masses, f_orb, 0 <= e < 1, t_evol, tolerances; instruments and t_obs settings; merging and non-merging binaries",
  "test_sources needs a Source (not constructible in the repository's own test environment) and checks counts on one sample; determine_stationarity has no value test at the threshold.",
  ["evol.py", "source.py"], [("closed-form frequency", S + "evol.py: evolve_f_orb_circ"), ("threshold", S + "evol.py: determine_stationarity"), ("masks", S + "source.py: get_source_mask")],
  ["return values of evol.evolve_f_orb_circ, evol.determine_stationarity, Source.get_source_mask"])

p("C11", "Stationary SNR is the harmonic sum of signal over noise",
  "For every stationary circular or eccentric binary, observing time, instrument and confusion choice, SNR^2 is the sum over harmonics 1..N (n = 2 alone for circular) of h_0,n^2 t_obs / S_n(n f_orb) with the noise for that mission length, one value per binary. "
  "The per-harmonic breakdown has one row per binary and one column per harmonic and sums to SNR^2, the reported strongest harmonic is the one with the largest contribution, and a supplied noise interpolator or g interpolator is used in place of the exact function. "
  "SNR is inversely proportional to distance, finite and non-negative, 0 where all harmonics fall out of band, and independent of the other binaries in the call.",
  ["inputs", "configurations"], "all masses, f_orb (in and out of band), e, distances, t_obs, N, instruments, confusion models, arm lengths, sky orientations (circular)",
  "test_snrs compares circular with nearly circular eccentric and stationary with evolving on random samples with rough tolerance, so errors common to both or in single harmonics stay unseen.",
  ["snr.py", "strain.py", "psd.py"], [("snr_circ_stationary, snr_ecc_stationary", S + "snr.py")],
  ["return values of snr.snr_circ_stationary and snr.snr_ecc_stationary"])

p("C12", "Evolving SNR integrates signal over noise along the true inspiral",
  "For every evolving binary SNR^2 is the sum over harmonics of the trapezoidal integral of h_c,n^2 / (f_n^2 S_n) over f_n along its inspiral track, sampled at n_step equally spaced times from 0 to the observing time or, if earlier, just before the merger (1 s for circular, 0.1 yr for eccentric binaries; with less than that left it is 0). "
  "It converges with n_step to the continuous integral and, for slowly evolving binaries, to the stationary SNR; merger times passed by the caller give the same result as those computed inside, and the per-harmonic breakdown, strongest harmonic, noise and g interpolators behave as for stationary binaries. "
  "It is finite, non-negative, inversely proportional to distance and independent of the other binaries in the call.",
  ["inputs", "configurations"], "all masses, f_orb, e (0.01 to 0.9 for eccentric), t_obs, n_step, N, instruments; binaries merging long after, during and shortly after the observation",
  "test_snrs compares evolving with stationary SNR for slowly evolving binaries only, to 1e-3 absolute; nothing tests a binary that chirps or merges during the mission.",
  ["snr.py", "evol.py", "strain.py"], [("snr_circ_evolving, snr_ecc_evolving", S + "snr.py")],
  ["return values of snr.snr_circ_evolving and snr.snr_ecc_evolving"])

p("C13", "Each binary's result is independent of the batch it is computed in",
  "For every public calculation (orbital algebra, strain, merger time, circular and eccentric evolution, stationarity, the four SNR functions and the source-collection methods built on them), permuting, splitting, concatenating or duplicating the binaries of a call permutes, splits, concatenates or duplicates the results and changes no binary's numbers. "
  "A batch of one gives the same numbers as the same binary inside a large mixed batch of circular, eccentric, merging and merged binaries. "
  "The memory layout of the input arrays (strided, reversed, read-only, Fortran order, integer dtype) does not matter.",
  ["inputs"], "all batches of 1 to a few hundred mixed binaries, all permutations, splits, duplications and memory layouts",
  "Tests run each function on a single batch and compare functions with each other, never two batchings of the same binaries.",
  ["utils.py", "strain.py", "evol.py", "snr.py", "source.py"], [("masked assignment per branch", S + "evol.py, " + S + "source.py"), ("broadcasting", S + "strain.py, " + S + "snr.py")],
  ["return values of every public function on pairs of batches"])

p("C14", "Physical results do not depend on the units of the inputs",
  "For every public calculation, giving the same physical masses, distances, frequencies, separations, times, angles and mission parameters in different units of the same dimension (per argument, mixed freely) gives the same physical results. "
  "Quantities come back with units of the right dimension and dimensionless results as plain numbers. "
  "Source collections built from the same binaries in different units have the same strains, SNRs, merger times, classification and evolution.",
  ["inputs"], "all combinations of mass (Msun, kg, g, ...), frequency (Hz, mHz, 1/yr, ...), length, time and angle units over all public functions",
  "All tests use one unit per argument (Msun, kpc, Hz, yr), so a stripped or assumed unit is invisible to them.",
  ["utils.py", "strain.py", "psd.py", "evol.py", "snr.py", "source.py"], [("astropy quantities and explicit .to() before every .value", "all modules")],
  ["return values of every public function on pairs of unit choices"])

p("C15", "Calculations are pure: no side effects, repeatable, safe to run in parallel",
  "No public function or source method changes an argument the caller passed in (arrays, quantities, lists, dictionaries) or any default value or process-wide state (random number generator, floating-point error handling, plotting style, working directory); only documented methods change the source collection they are called on. "
  "Repeating a call with the same inputs gives bit-identical results whatever was called in between, and calls running in several threads at once give the same results as running one after another. "
  "Eccentric evolution and SNR are identical for every number of worker processes.",
  ["inputs", "histories", "schedules"], "all public functions and Source methods over random inputs, orders of calls, thread interleavings and n_proc 1..4",
  "Tests call each function once on throw-away inputs and never look at the inputs, the defaults or the global state again.",
  ["utils.py", "strain.py", "psd.py", "evol.py", "snr.py", "source.py", "visualisation.py"], [("functions work on fresh arrays; n_proc > 1 maps binaries over a pool", S + "evol.py: evol_ecc"), ("style context", S + "visualisation.py: legwork_plot_style")],
  ["digests of arguments, defaults and global state before and after each call; results of repeated, threaded and pooled calls"])

p("C16", "Source SNR: every source gets the right calculation, once",
  "For every collection, the SNR call gives each source the value of the calculation for its class (stationary or evolving, circular or eccentric, with enough harmonics for the luminosity tolerance), for the requested instrument, mission length, arm length, response, confusion noise and number of steps, falling back to the collection's own settings for whatever is not given. "
  "Merged sources get SNR 0, a subset selected with a mask gets the same values as in a full call (others are 0 in the generic call's result), and the strongest harmonic recorded for each source computed is the one with its largest contribution (2 for circular sources). "
  "The stationary-only and evolving-only calls return the selected sources' values in order and record SNR and strongest harmonic only for these, leaving earlier records of other sources alone; asking for the SNR prints nothing unless verbose.",
  ["inputs", "configurations", "histories"], "all mixed collections (circular/eccentric, stationary/evolving, merged), masks, instruments and settings, explicit or from the collection, subclasses",
  "No stable test can build a Source; the skipped ones use one unsorted sample per class with default settings.",
  ["source.py", "snr.py"], [("class masks and harmonic groups", S + "source.py: get_snr, get_snr_stationary, get_snr_evolving")],
  ["return values, Source.snr, Source.max_snr_harmonic, stdout"],
  [("snr / max_snr_harmonic", "cached results per source", S + "source.py")])

p("C17", "Source strains: right source, right harmonic, merged sources silent",
  "For every collection and list of harmonics, the source strain and characteristic strain are an array with one row per selected source in collection order and one column per harmonic in the requested order, each equal to that source's own strain. "
  "Merged sources have strain exactly 0, selecting a subset returns exactly the corresponding rows of the full result, and orientation information is applied to the source it belongs to. "
  "A single harmonic (Python or numpy integer) gives one column and asking changes nothing in the collection.",
  ["inputs"], "all collections with merged and oriented sources, all masks, harmonics as int, list or array in any order",
  "test_sources only checks that the collection strain equals the function call with the same arrays, for unmerged sources without a mask.",
  ["source.py", "strain.py"], [("masking of inspiralling sources", S + "source.py: get_h_0_n, get_h_c_n")],
  ["return values of Source.get_h_0_n and Source.get_h_c_n"])

p("C18", "Indexing and copying select exactly the requested sources, sharing no state",
  "For every index (integer, negative integer, slice with any step, list or array of integers with repeats, boolean mask) the new collection has the same class and, for every per-source attribute (masses, distance, frequency, eccentricity, position, polarisation, inclination, weights, merger time, SNR, strongest harmonic, merged flag), the same elements numpy indexing would select, with all settings equal. "
  "Results computed from the subset are the corresponding results of the full collection. "
  "The new collection, a copy or a deep copy is independent: changing attributes, arrays, sensitivity-curve parameters or evolving one never changes the other; out-of-range integers, wrong-length masks and non-integer indices are refused.",
  ["inputs", "histories"], "all indices and chains of indexing, before and after SNR, merger-time and evolution calls, on Source and subclasses",
  "The tests for indexing need a Source and sample a few indices; independence after later mutations is only sampled for one attribute.",
  ["source.py"], [("__getitem__, copy, __deepcopy__ of the parameters", S + "source.py")],
  ["attributes of the new and the original collection after each operation"])

p("C19", "Saving and loading a collection round-trips everything",
  "For every collection and state (with or without positions, weights, SNRs, merger times, merged sources; any units, settings and sensitivity-curve parameters that are not functions), saving and loading gives a collection of the same class with equal values and units for every attribute and setting, so that every later calculation gives the same result. "
  "Saving never changes the collection, never replaces an existing file unless asked to, adds .h5 when the name has no HDF5 extension, and an overwrite leaves nothing of the old content. "
  "Functions that cannot be stored come back as defaults, explicit load options override stored ones, and a missing file is refused with FileNotFoundError.",
  ["inputs", "histories"], "all Source/Stationary/Evolving collections, histories of operations before saving, names with and without extension, repeated save/load chains",
  "The I/O tests need a Source and check one or two collections; combinations of optional attributes, units and parameters are open-ended.",
  ["source.py"], [("save / from_file, dataset units as attributes", S + "source.py: save, from_file, _write_dataset, _read_dataset")],
  ["attributes before saving and after loading; file system before and after"],
  [("HDF5 file", "datasets per attribute, settings as attributes, sc_params group", S + "source.py: save")])

p("C20", "The interpolated sensitivity curve always belongs to the current parameters",
  "After every sequence of changes to a collection's sensitivity-curve parameters (setting a key, update, in-place union, assigning a new dictionary, passing settings to an SNR call), the interpolated curve is that of the power spectral density with exactly the current parameters (to interpolation accuracy inside the instrument's band), and parameters left out of a newly assigned dictionary are back at their defaults. "
  "Unknown keys are refused with KeyError and removals with TypeError, leaving parameters and curve as they were. "
  "The parameters of different collections never influence one another, nothing is re-interpolated when nothing changes, and without interpolation there is no curve at any time.",
  ["histories", "configurations"], "all sequences of parameter operations and SNR calls over instruments, mission lengths, arm lengths, confusion models (names and functions), custom PSDs, on several live collections",
  "The tests set a handful of parameters once; the guarantee is about every sequence of operations, and needs a Source.",
  ["source.py", "psd.py"], [("dictionary subclass bound to the source", S + "source.py: SensitivityCurveParams, sc_params, set_sc")],
  ["Source.sc_params, Source.sc on a frequency grid, after every operation"],
  [("_sc_params / sc", "current parameters and the interpolated curve", S + "source.py")])

p("C21", "Evolving a collection advances every source by the same clock",
  "After every sequence of evolution steps (same time for all, or one per source) each source is in the state its own inspiral reaches after its accumulated time: frequency and eccentricity follow the track, its merger time decreases by exactly the time evolved and never below 0, and a source is marked merged exactly when its accumulated time reaches its merger time; from then on it stays merged, circular, at 100 Hz and without SNR or strain. "
  "Evolving into a new collection leaves the original untouched, gives the same state as evolving in place, and keeps masses, distances, weights, orientation, tolerances and curve settings. "
  "Merger times asked from a collection equal the merger-time calculation for each source (0 for merged ones), for a subset in order, and are recorded only when asked for.",
  ["histories", "inputs"], "all collections (circular and eccentric up to e = 0.9, merging and not) and sequences of in-place and new-class evolutions, with and without prior merger-time calls",
  "test_sources evolves a collection twice and checks the merger times; it needs a Source and does not compare states with a solution.",
  ["source.py", "evol.py"], [("evolve_sources, get_merger_time", S + "source.py")],
  ["Source.f_orb, ecc, merged, t_merge after every step, against the inspiral solution"],
  [("t_merge / merged", "remaining time and merged flag per source", S + "source.py")])

p("C22", "Enough harmonics are used for the requested luminosity accuracy",
  "For every luminosity tolerance and eccentricity covered by the harmonics table, the number of harmonics a collection uses captures at least the fraction 1 - tolerance of the gravitational-wave luminosity (to table accuracy), is at least 2, is exactly 2 for a circular orbit, and never decreases with eccentricity or with a tighter tolerance; the strongest-strain harmonic it reports is that of the largest g(n, e) to within the table's resolution. "
  "Below the circular/eccentric transition eccentricity, and only below, n = 2 alone is within tolerance. "
  "Changing the tolerance updates all of these together at once, re-assigning the same value changes nothing, and the transition and counts depend only on the current tolerance, not on the order of changes.",
  ["inputs", "histories"], "all tolerances 1e-4 to 0.3 and eccentricities 0 to 0.995, arrays and scalars, and sequences of tolerance changes",
  "The harmonics table is absent from the repository's test environment, so nothing about harmonic counts is tested there.",
  ["source.py", "utils.py"], [("create_harmonics_functions, find_eccentric_transition, gw_lum_tol", S + "source.py")],
  ["Source.harmonics_required, Source.max_strain_harmonic, Source.ecc_tol, Source.gw_lum_tol"])

p("C23", "Interpolation is an optimisation: it never changes the answer noticeably",
  "For every collection, switching interpolation of the sensitivity curve on or off changes stationary and evolving SNRs by less than 0.5% for sources whose contributing harmonics lie inside the band, for every instrument and parameter choice, including custom noise given in any inverse-frequency unit. "
  "Switching interpolation of g(n, e) on or off changes strains of harmonics that matter and SNRs by less than 1% for e <= 0.9, and changes neither classification, harmonic counts nor merger and evolution results at all. "
  "The collection reports truthfully whether it interpolates, and copies, subsets, evolved and reloaded collections keep the choice.",
  ["inputs", "configurations"], "all collections, instruments, confusion models, custom PSDs and both interpolation switches",
  "Interpolation needs the g(n, e) table and a Source, absent from the stable tests; the accuracy is a statement over all sources and instruments.",
  ["source.py", "strain.py", "snr.py"], [("set_g, set_sc", S + "source.py")],
  ["Source.get_snr, get_h_0_n, get_h_c_n on twin collections; Source.interpolate_g, Source.interpolate_sc"])

p("C24", "Plots show exactly the data they are given, with the promised heights and units",
  "For every collection the sensitivity-curve plot shows the square root of the power spectral density (or the characteristic noise) of the requested settings, and sources are drawn at their dominant-harmonic frequency at a height above the curve equal to their SNR; exactly the stationary, unmerged sources above the SNR cutoff are drawn, and evolving ones are counted in the warning of their own kind. "
  "Distribution plots draw exactly the selected, unmerged values in the source's units with their weights, log-scaled as requested, and label axes with the right quantity and unit unless told otherwise. "
  "A plot drawn on a caller's figure stays on it, nothing is shown unless asked, and neither the data nor the user's plotting style changes.",
  ["inputs", "configurations"], "all collections, variables, masks, cutoffs, weights, settings and plot types drawn with a non-interactive backend",
  "The repository has no stable test of any plot.",
  ["visualisation.py", "source.py"], [("plot_sources_on_sc, plot_sensitivity_curve, plot_1D_dist, plot_2D_dist", S + "visualisation.py"), ("plot_source_variables, plot_sources_on_sc", S + "source.py")],
  ["matplotlib artists on the returned axes, labels, log messages, rcParams, pyplot.show calls"])

p("C25", "A collection's inputs are validated and its derived values never go stale",
  "Building a collection succeeds exactly for consistent inputs: missing units fail with AssertionError; missing both frequency and separation, arrays (including weights and orientation) of unequal length, or orientation without a position fail with ValueError; scalars become collections of one. "
  "Chirp mass, separation, number of sources and transition eccentricity always equal what follows from the current masses, frequencies and tolerance, after any sequence of assignments, evolutions, or assignments to the separation (which update the frequency); frequency takes precedence over separation, and read-only values refuse assignment. "
  "Building from a separation equals building from the corresponding frequency, and building several collections, with or without parameters, never makes them share state.",
  ["inputs", "histories"], "all combinations of valid, missing and inconsistent inputs; all sequences of attribute assignments on several live collections",
  "test_sources needs a Source and samples a few invalid inputs; staleness is a statement over histories of assignments.",
  ["source.py"], [("__init__ checks, properties", S + "source.py: Source.__init__, m_c, a, n_sources, ecc_tol")],
  ["exceptions, attributes after each operation"])

p("C26", "A collection's results depend only on what it currently contains",
  "After every sequence of operations on a set of collections (building, evolving in place or into new collections, indexing, copying, saving and loading, assigning values and settings, changing sensitivity-curve parameters, switching interpolation, SNR and merger-time calls, refused operations) everything calculated from a collection - classes, strains, SNRs and strongest harmonics, merger times, further evolution, numbers of harmonics, noise curve, derived values - equals what a new collection built from its current sources, settings and recorded merger times gives. "
  "Nothing remembered from an earlier state, from another collection or from the way it came about plays a role, and the order in which independent settings are made does not matter. "
  "An operation that is refused leaves the collection as it was, and no operation on one collection changes what another contains.",
  ["histories", "inputs", "configurations"], "all sequences of public operations and attribute assignments on pools of Source, Stationary and Evolving collections derived from one another",
  "Tests call one method on a new collection; a stale cache, a missed update or shared state shows only after particular sequences of operations.",
  ["source.py"], [("cached functions and curve, derived properties, recorded results", S + "source.py: Source (sc, g, harmonics_required, _ecc_tol, t_merge, merged)"), ("new collections from old ones", S + "source.py: __getitem__, evolve_sources, from_file")],
  ["every public result of a collection and of a twin built from its attributes; attributes of all other live collections"],
  [("sc, harmonics_required, max_strain_harmonic, ecc_tol", "functions cached for the current settings", S + "source.py")])

p("C27", "Messages appear exactly when they are due, and say what is true",
  "LEGWORK says that it draws missing inclinations or polarisations, warns about interpolating g(n, e) for up to 1000 sources, about evolving past the merger and about times all too close to it (only when avoiding mergers), reports as an error that there is nothing to plot (no SNR, nothing above the cutoff), names functions that cannot be saved and files of another version, and warns when it has to approximate the LISA response because its table is missing; each once per call, at its level, and nothing otherwise. "
  "SNR calls print only when verbose, and then the true numbers of sources asked for, merged, and computed in each class. "
  "Messages go through the logger LEGWORK: by default from level info to standard output, one line with the prefix LEGWORK and the level, coloured only on a terminal, never passed on to the root logger; a handler or level the user has set is respected.",
  ["inputs", "configurations"], "all collections, evolutions, plots, files and SNR calls with and without the conditions; interpreters with pipes and terminals, user handlers and levels",
  "No test looks at any message; conditions such as past the merger for one binary of several, or 1000 against 1001 sources, are not sampled.",
  ["_logging.py", "source.py", "evol.py", "psd.py", "visualisation.py"], [("logger set-up and formatting", S + "_logging.py"), ("conditions", S + "source.py: __init__, get_snr*, save, from_file, plot_sources_on_sc; " + S + "evol.py: evol_ecc; " + S + "psd.py: load_response_function; " + S + "visualisation.py: plot_sources_on_sc")],
  ["records of the LEGWORK logger, standard output and error of calls and of fresh interpreters"])

p("C28", "Specialised collections agree with the generic one",
  "A Stationary (Evolving) collection calculates for every source, whatever class it is really in, exactly what the stationary-only (evolving-only) call of a generic Source of the same content gives, records the same results and settings, shares every other behaviour, and its subsets and copies stay of the same class. "
  "VerificationBinaries holds the published catalogue: 16 labelled circular binaries with their masses, distances, galactic positions, inclinations and published SNR, orbital frequency half the gravitational-wave frequency, polarisations drawn anew each time; through any history it gives the same results as an ordinary collection of that content, and it refuses indexing with NotImplementedError.",
  ["inputs", "histories", "configurations"], "all contents, settings, SNR arguments and histories of Stationary, Evolving and VerificationBinaries collections",
  "The tests of the subclasses need a Source and compare one sample; the verification binaries are only loaded.",
  ["source.py"], [("subclasses", S + "source.py: Stationary, Evolving, VerificationBinaries")],
  ["results, records and attributes of specialised and generic collections of equal content"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
