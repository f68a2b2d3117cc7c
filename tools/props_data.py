prop(
    "C01", "Sinusoidal tracks follow the peaks by the stated continuation rule",
    "Frame by frame, the peaks are visited from the loudest to the softest; "
    "each continues the not-yet-continued track with the nearest last "
    "frequency when the difference is below the frequency-dependent deviation "
    "threshold, tracks that nobody continues end, and left-over peaks start "
    "new tracks while the maximum number of tracks is not exceeded. Every "
    "visible track is gap-free, starts at the frame of its first peak, holds "
    "exactly the peaks assigned to it, no peak is in two tracks, and tracks "
    "shorter than the minimum duration (never less than two frames) are not "
    "visible.",
    ["inputs", "histories"],
    "every sequence of peak frames and every tracker configuration",
    "tests run a few synthetic sounds end to end with loose tolerances; the "
    "assignment depends on the order, distance and history of arbitrary peak "
    "sequences", ["sample/sms/sm.py", "sample/utils/__init__.py"],
    [("loudest-first assignment to the nearest free track, cap on tracks",
      "sample/sms/sm.py:SineTracker.__call__"),
     ("visibility of ended and active tracks", "sample/sms/sm.py:all_tracks_"),
     ("minimum duration in frames", "sample/sms/sm.py:min_sine_len"),
     ("first minimum of the distances", "sample/utils/__init__.py:min_key")],
    "model_checking",
    "explicit-state exploration of the real tracker in lock step with a "
    "reference model",
    "Exhaustive over all frame sequences within the stated alphabet and depth; "
    "assumes the behaviour on the dyadic frequency grid is representative and "
    "that magnitudes within a frame are distinct.", ["tracks_ after each frame"])

prop(
    "C02", "Modal tracks are accepted, merged, bounded and stripped as configured",
    "A modal track is kept only if it is long enough, does not grow, has its "
    "mean frequency within the configured frequency bounds and an onset "
    "magnitude (that of its regression line) which reaches the configured "
    "threshold, the onset being the end of the track when the sound is "
    "analysed in reverse. A track is joined to the closest in frequency of the "
    "compatible tracks that ended before it, comparing the end of the one to "
    "the beginning of the other with the single merge strategy and their mean "
    "frequencies with the average strategy, with a gap of undefined values for "
    "the frames in between. The strip time hides the tracks with an onset "
    "later than it, in the original direction of time, and start frames count "
    "the frames in the order of the analysis.", ["inputs", "histories", "configurations"],
    "every sequence of peak frames, every combination of merge strategy, "
    "direction, bounds, threshold, strip time and minimum length",
    "tests only fit whole sounds with the default options; merges need gaps "
    "at specific frames and configurations no test combines",
    ["sample/sms/mm.py", "sample/sms/sm.py"],
    [("acceptance test", "sample/sms/mm.py:ModalTracker.track_ok"),
     ("merge of compatible tracks", "sample/sms/mm.py:ModalTracker.deactivate"),
     ("strip and time direction", "sample/sms/mm.py:ModalTracker.all_tracks_")],
    "model_checking",
    "explicit-state exploration of the real modal tracker in lock step with a "
    "reference model",
    "Exhaustive over all frame sequences within alphabet and depth for each "
    "configuration; two merge candidates at exactly the same distance are "
    "excluded.", ["tracks_ after each frame"])

prop(
    "C03", "Framing, spectra and peak detection cover the input exactly",
    "The analysis reads every window of the (optionally zero-padded) input at "
    "multiples of the hop and nothing else, each spectrum is the magnitude in "
    "decibels and the phase of the zero-phase windowed transform, and the "
    "peaks are all and only the local maxima above the threshold, "
    "interpolated parabolically. The tracks of a sound are the tracks of "
    "those peaks, whatever its length, window, transform size and hop.",
    ["inputs", "configurations"],
    "every signal length, window length, transform size, hop, threshold and "
    "sample values", "tests use two or three typical sizes; boundary frames, "
    "even and odd windows and hops that do not divide the length are not "
    "combined", ["sample/sms/dsp.py", "sample/sms/sm.py", "sample/utils/dsp.py"],
    [("windowing", "sample/utils/dsp.py:n_windows, overlapping_windows"),
     ("zero-phase spectrum", "sample/sms/dsp.py:dft"),
     ("peaks", "sample/sms/dsp.py:peak_detect, peak_refine"),
     ("padding", "sample/sms/sm.py:SinusoidalModel.pad_input")],
    "exploration", "exhaustive enumeration of small input shapes and signals "
    "against brute-force references",
    "Complete for all shapes and alphabets within the bounds; signals shorter "
    "than a window by more than a hop are outside the property.",
    ["spectra, peaks and tracks of the analysis"])

prop(
    "C04", "Fitted frequency, decay and amplitude describe the analysed tracks",
    "Each fitted mode has the frequency, the -60 dB decay time and the onset "
    "amplitude of one analysed partial, with times measured from the onset of "
    "the sound whatever the padding, reversal, hop and gaps in the track. "
    "Synthetic sums of decaying sinusoids are recovered within analysis "
    "accuracy.", ["inputs", "configurations"],
    "every track layout and gap pattern, every analysis geometry and a "
    "complete grid of synthetic modal sounds",
    "tests recover a handful of sounds with default geometry", [
        "sample/sample.py", "sample/sms/mm.py"
    ], [("mapping of a track to parameters",
         "sample/sample.py:SAMPLE.fit, _fit_track"),
        ("time axis of a track", "sample/sms/mm.py, sample/sample.py")],
    "exploration", "exhaustive enumeration of track layouts through the real "
    "fit with a scripted analysis, plus a grid of whole analyses",
    "Exact for all layouts within bounds with a linear regressor; the end to "
    "end part has numeric tolerances.", ["param_matrix_"])

prop(
    "C05", "Results depend only on the current parameters and the last input",
    "After any history of fits, parameter changes, overrides passed to a fit, "
    "failed or interrupted fits, reads and clones, fitting a model gives "
    "exactly the parameters, tracks, decisions and synthesis that a fresh "
    "model with the same parameters gives. Two models never influence one "
    "another, reading results changes nothing, and the input is not modified.",
    ["histories", "fault_sequences"],
    "every sequence of operations on one or two models, every point at which "
    "an analysis is aborted",
    "tests fit each model once; leftovers of a previous fit need a specific "
    "sequence of two different fits",
    ["sample/sample.py", "sample/sms/sm.py", "sample/utils/learn.py",
     "sample/beatsdrop/sample.py"],
    [("reset of tracker and intermediate results",
      "sample/sms/sm.py:SinusoidalModel.fit, sample/sample.py:SAMPLE.fit"),
     ("defaults created per instance",
      "sample/utils/learn.py:default_property"),
     ("optional storage", "sample/utils/learn.py:OptionalStorage")],
    "model_checking", "explicit-state exploration of operation histories of "
    "the real models against a fresh model as reference",
    "Exhaustive over operation sequences within the depth; each operation has "
    "a small set of inputs and parameter values.",
    ["parameters, tracks and fitted results after every step"])

prop(
    "C06", "Parallel estimation gives exactly the serial results",
    "Fitting with any number of worker processes gives the same parameters, "
    "in the same order, and the same per-track beat decisions as fitting "
    "serially, for every order in which workers finish. A failure of a worker "
    "task or of the pool reaches the caller as an error, the pool is always "
    "closed, and a later fit, serial or parallel, is not affected by an "
    "earlier one.", ["schedules", "fault_sequences", "histories"],
    "every completion order of the tasks, every answer of the polling, every "
    "single failure, every sequence of serial and parallel fits",
    "tests run one real pool, whose tasks always finish in about the same "
    "order and never fail", [
        "sample/sample.py", "sample/beatsdrop/sample.py",
        "sample/beatsdrop/decision.py"
    ], [("pool, task submission, polling", "sample/sample.py:SAMPLE.fit"),
        ("shared storage of decisions", "sample/beatsdrop/sample.py")],
    "fault_enumeration", "stateless exploration of a scheduled pool and "
    "storage manager under the real fit, with fault injection",
    "All completion orders and polls within the deviation bound; workers run "
    "tasks atomically on pickled arguments, real pools only in three fits.",
    ["param_matrix_, decisions, exceptions"])

prop(
    "C07", "Deprecated argument names behave as their current names",
    "Every deprecated argument, at construction, in a parameter change or as "
    "override of a fit, alone or with others, directly or through a nested "
    "model, has the effect of the argument that replaces it and is announced "
    "by a deprecation warning. Current names never cause a warning and "
    "unknown names are rejected.", ["configurations", "histories"],
    "every subset of deprecated names, every mix of old and current names "
    "along a history of parameter changes", "tests pass few deprecated names, "
    "one at a time", [
        "sample/utils/__init__.py", "sample/sms/sm.py", "sample/sms/mm.py",
        "sample/sample.py", "sample/psycho.py", "sample/optimize.py"
    ], [("renaming decorator", "sample/utils/__init__.py:deprecated_argument"),
        ("renamed arguments", "sample/sms/sm.py:_decorate_sinusoidal_model, "
         "sample/sms/mm.py:_decorate_modal_model")],
    "exploration", "exhaustive enumeration of subsets and histories of "
    "deprecated names, compared with the current names",
    "Complete over subsets up to the bound; an argument given under both "
    "names is outside the property.", ["parameters, fitted results, warnings"])

prop(
    "C08", "Ordering, truncation, export and resynthesis agree on the modes",
    "Modes are ordered by decreasing energy and every view of a fitted model "
    "(frequencies, decays, amplitudes, energies, phases, exported parameters) "
    "lists the same modes in the same order. With a maximum number of modes "
    "resynthesis uses exactly the most energetic ones and the export holds all "
    "of them, losslessly, also when there are no modes; assigning parameters "
    "or phases to a model gives the sound of those parameters.",
    ["inputs", "configurations"],
    "every set of modes up to the bound, with equal, zero and extreme "
    "energies, every truncation and every form of phases",
    "tests export and resynthesize one typical model with all its modes",
    ["sample/sample.py", "sample/beatsdrop/sample.py"],
    [("order by energy", "sample/sample.py:SAMPLE.fit, modal_energy"),
     ("export", "sample/sample.py:SAMPLE.sdt_params"),
     ("resynthesis", "sample/sample.py:SAMPLE.predict")], "exploration",
    "exhaustive enumeration of sets of modes, truncations and phases through "
    "the real fit, export and resynthesis",
    "Complete within the alphabet of modes; the order of modes with exactly "
    "equal energy is free.", ["param_matrix_, exports and audio"])

prop(
    "C09", "Additive synthesis is the sum of the modes",
    "The synthesized value at each instant is the sum over the modes of "
    "amplitude times exponential decay times cosine (or complex exponential, "
    "when analytic) at the given phase, for any number of modes and instants, "
    "zero included, and for any shape of the arguments, which are never "
    "modified. Random phases are drawn once per mode. Modal energy is the "
    "integral of the squared envelope.", ["inputs", "configurations"],
    "every tuple of instants, modes and phases over the alphabets, every "
    "array form", "tests check shapes and a few sums", ["sample/sample.py"],
    [("synthesis", "sample/sample.py:additive_synth"),
     ("energy", "sample/sample.py:modal_energy")], "exploration",
    "exhaustive enumeration of instants, modes, phases and array forms "
    "against a term by term sum",
    "Complete within the alphabets, up to floating point tolerance.",
    ["returned audio"])

prop(
    "C10", "Array functions give the value of their formula for every form of input",
    "Conversions (decibels, bins, frequency scales, weights, envelopes, "
    "energies, hinge, rectification, normalization) compute the documented "
    "formula element by element for scalars, lists, nested or empty "
    "sequences, arrays of any shape, memory order and numeric type. They never "
    "modify the input, store the result in the output array when one is given "
    "(also the input itself) and refuse unknown variants by name.",
    ["inputs", "configurations"],
    "every tuple of values over the alphabets, every array form, every way of "
    "giving the output", "tests use float arrays and no output array",
    ["sample/utils/__init__.py", "sample/utils/dsp.py", "sample/psycho.py",
     "sample/hinge.py", "sample/beatsdrop/__init__.py", "sample/sample.py"],
    [("output arrays and types", "sample/utils/__init__.py:numpy_out"),
     ("variants", "sample/utils/__init__.py:function_with_variants"),
     ("formulas", "sample/psycho.py, sample/utils/dsp.py")], "exploration",
    "exhaustive enumeration of values, array forms and output modes against "
    "scalar formulas",
    "Complete within alphabets; normalization of silent or constant inputs "
    "is outside the property.", ["returned and output arrays"])

prop(
    "C11", "Frequency scales are invertible and the mel filterbank is triangular",
    "Bark, mel and ERB-rate conversions are strictly increasing and inverse to "
    "each other for every variant; the ERB-rate scale grows by one for each "
    "equivalent rectangular bandwidth. The filters of the mel filterbank are "
    "triangles with the configured centers and corners, invalid "
    "configurations are refused, and mel spectrograms are the filtered "
    "magnitudes (to the configured power) of the transform, which is not "
    "modified.", ["inputs", "configurations"],
    "every frequency of a grid up to 24 kHz; every combination of axis, "
    "transform, bandwidth, limits and number of filters",
    "tests check monotonicity and shapes on a few configurations",
    ["sample/psycho.py"],
    [("scales", "sample/psycho.py:hz2bark, hz2mel, hz2cams, erb"),
     ("filterbank", "sample/psycho.py:mel_triangular_filterbank, stft2mel")],
    "exploration", "exhaustive enumeration of a frequency grid and of "
    "filterbank configurations against pointwise triangles",
    "Complete on the grid; the ERB-rate slope is checked within the rounding "
    "of the published constants (2%).", ["returned arrays"])

prop(
    "C12", "Cochleagrams are the aligned convolutions with the gammatone filters",
    "Each gammatone filter has the impulse response of its formula, decays by "
    "60 dB at its t60 and covers it, whichever parameters are given as "
    "numbers, functions or left to their defaults. The cochleagram is, channel "
    "by channel, the convolution with the filter, delayed so that time zero is "
    "the same in all channels; with a stride it is exactly every stride-th "
    "sample of it, of the same length. Every analytic mode, method and "
    "post-processing applies as documented and impossible combinations are "
    "refused.", ["inputs", "configurations"],
    "every combination of filter parameters, every bank, signal, stride and "
    "analytic mode within the bounds",
    "tests compare three strides within a tolerance that hides the errors of "
    "the last frames", ["sample/psycho.py", "sample/utils/dsp.py"],
    [("impulse responses", "sample/psycho.py:GammatoneFilter"),
     ("alignment and stride",
      "sample/psycho.py:GammatoneFilterbank.PrecomputedIRBank.convolve"),
     ("t60 search", "sample/utils/dsp.py:dychotomic_zero_crossing")],
    "exploration", "exhaustive enumeration of filters, banks, signals and "
    "strides against convolutions computed term by term",
    "Complete within bounds; impulse responses of order 1 are checked on "
    "explicit axes only.", ["impulse responses and cochleagrams"])

prop(
    "C13", "Onsets are the instants that satisfy the published definition",
    "An instant is an onset if and only if the detection function, normalized "
    "to zero mean and unit variance, is a maximum within the radius, exceeds "
    "its local average by the threshold and is not below the decaying "
    "envelope of the previous values. Spectral flux is the sum of the "
    "increments of magnitude. Results do not depend on scale and offset of "
    "the function nor on previous contents of memory, and inputs are not "
    "modified.", ["inputs", "configurations"],
    "every function over three levels, every radius, key and prior content of "
    "the output array, every pair of impulses, every small matrix",
    "tests detect the onsets of one sound", ["sample/utils/dsp.py"],
    [("maxima", "sample/utils/dsp.py:local_maxima"),
     ("selection", "sample/utils/dsp.py:onset_selection"),
     ("flux", "sample/utils/dsp.py:spectral_flux_from_tf")], "exploration",
    "exhaustive enumeration of detection functions and parameters against the "
    "definition", "Complete within lengths; comparisons decided by rounding "
    "only are not checked.", ["boolean arrays of onsets"])

prop(
    "C14", "The beat model is the sum of its two partials",
    "The amplitude and the frequency of a beat are the magnitude and the "
    "derivative of the phase of the sum of the two partials, its phase starts "
    "at the phase of the sum and the signal is the sum itself up to the "
    "integration step, with any mix of constant and time-varying parameters. "
    "Each variable has the same value whatever other variables are requested, "
    "and copies of a model compute the same values.",
    ["inputs", "configurations"],
    "every combination of amplitude functions, frequencies, phases and time "
    "axes, every pair of outputs, every mix of numbers and functions",
    "tests compare one beat on one axis", ["sample/beatsdrop/__init__.py"],
    [("computational graph", "sample/beatsdrop/__init__.py:Beat"),
     ("decay", "sample/beatsdrop/__init__.py:ExponentialDecay")],
    "exploration", "exhaustive enumeration of beats and of requested outputs "
    "against the complex sum of the partials",
    "Complete within alphabets; time axes start at zero.",
    ["computed variables"])

prop(
    "C15", "Beats are decided and laid out as documented",
    "A track gives two columns of parameters if and only if the two partials "
    "of its beat model differ in frequency and both are not silent, by more "
    "than the threshold in units of machine precision; otherwise it gives the "
    "parameters of a single mode. Columns with non-finite parameters are "
    "dropped, amplitude, frequency, decay and phase of a partial stay "
    "together, the decisions are stored at the index of their track only when "
    "storage is enabled, and the models given by the user are never fitted "
    "themselves.", ["inputs", "histories"],
    "every tuple of track outcomes, every storage and decision model, every "
    "triple of statistics around the threshold, every parameter order",
    "tests fit one sound with the default decision model",
    ["sample/beatsdrop/decision.py", "sample/beatsdrop/sample.py",
     "sample/beatsdrop/regression.py"],
    [("decision", "sample/beatsdrop/decision.py:AlmostNotABeatDecisor"),
     ("parameters", "sample/beatsdrop/sample.py:SAMPLEBeatsDROP"),
     ("sorting", "sample/beatsdrop/regression.py:sort_params")], "exploration",
    "exhaustive enumeration of track outcomes through the real fit with "
    "scripted tracks and beat regressions",
    "Complete within bounds; the beat regression is scripted.",
    ["parameter matrix, phases, stored decisions"])

prop(
    "C16", "Regressions stay in their bounds and never get worse than their start",
    "The hinge fitted to a track has its knee inside the track, its slope "
    "between the slope of the regression line and eight times that and its "
    "intercept within the range of the data, fits no worse than its starting "
    "point and reproduces lines, and hinges with a knee in the upper part of "
    "the axis, exactly. The beat model starts from the documented estimate, "
    "minimizes the documented residuals of amplitude (and of frequency in "
    "mel, clipped and weighted) inside its bounds, names exactly the "
    "parameters whose start is out of bounds, and associates amplitudes and "
    "frequencies in the way with the smaller residual. User-defined starts, "
    "bounds, losses and solver options are honoured and inputs are never "
    "modified.", ["inputs", "configurations"],
    "every magnitude sequence, axis, knee, slope and level, every beat, start, "
    "bound, loss and solver option within the bounds",
    "tests fit one noisy hinge and a few beats",
    ["sample/hinge.py", "sample/beatsdrop/regression.py"],
    [("hinge", "sample/hinge.py:HingeRegression"),
     ("beat", "sample/beatsdrop/regression.py:BeatRegression"),
     ("association",
      "sample/beatsdrop/regression.py:DualBeatRegression.fit")],
    "exploration",
    "exhaustive enumeration of tracks, starts, bounds and options against "
    "independently written residuals and invariants of the solution",
    "Complete within bounds; global optimality is not claimed.",
    ["fitted coefficients, predictions, errors"])

prop(
    "C17", "Hyperparameters are optimized without side effects",
    "The default remapper gives a window and a hop for every combination of "
    "parameters, never replaces explicit ones and passes through any other. "
    "Evaluating the loss fits a fresh copy of the model with the values of the "
    "dimensions, resynthesizes on the sampling instants, clips to the peak of "
    "the original and depends on its arguments only; minimization resumes "
    "from a given state unless points are given, returns a model fitted with "
    "the best values, restores the warning filters on every exit and never "
    "modifies the model and audio given by the user. The progress callback "
    "counts calls and closes its bar for every sequence of operations.",
    ["inputs", "histories", "failures"],
    "every combination of remapped parameters, every dimension list, history "
    "of evaluations, failing evaluation and sequence of callback operations",
    "tests run the real minimizer and check that it does not raise",
    ["sample/optimize.py"],
    [("remapper", "sample/optimize.py:sample_kwargs_remapper"),
     ("loss", "sample/optimize.py:SAMPLEOptimizer.loss"),
     ("minimization", "sample/optimize.py:SAMPLEOptimizer.gp_minimize"),
     ("progress", "sample/optimize.py:TqdmCallback")], "exploration",
    "exhaustive enumeration of parameters, histories of evaluations, fault "
    "points and callback operations with scripted models and minimizers",
    "Complete within bounds; the Gaussian process itself is trusted.",
    ["calls received by the model, results, warnings, progress"])

prop(
    "C18", "Losses are the documented distances, however they are scheduled",
    "The distance of two vectors of any numeric type is the lp-norm of their "
    "difference; the spectral loss is the distance of the magnitudes plus the "
    "weighted distance of the floored decibels; the multiscale loss is the "
    "sum over the scales whether serial, in a pool or in its own processes "
    "and for every completion order, and reports the failure of any scale; "
    "the cochleagram loss is the distance of the post-processed cochleagrams. "
    "Losses are zero for equal inputs, symmetric, real, and leave the inputs "
    "alone.", ["inputs", "schedules", "configurations"],
    "every pair of small vectors of every type, every option combination, "
    "every completion order of the workers",
    "tests compare two signals and one pool run",
    ["sample/evaluation/metrics.py"],
    [("distance", "sample/evaluation/metrics.py:lp_distance"),
     ("spectral", "sample/evaluation/metrics.py:lin_log_spectral_loss"),
     ("scales", "sample/evaluation/metrics.py:MultiScaleSpectralLoss"),
     ("cochleagram", "sample/evaluation/metrics.py:CochleagramLoss")],
    "exploration",
    "exhaustive enumeration of inputs, options and worker completion orders "
    "against independently computed spectra and distances",
    "Complete within bounds; signals shorter than the window are outside.",
    ["loss values"])

prop(
    "C19", "Random sounds respect their configuration and seed",
    "For every answer of the random number generator the three frequencies "
    "lie in the configured range, the first two differ by a beat frequency "
    "and the others by a distance in Bark within the configured limits, all of "
    "which are reachable on both sides; decays exceed their minimum, "
    "amplitudes sum to the sinusoidal share of the signal-to-noise ratio, and "
    "the audio is the sum of the three partials and of the noise. The same "
    "seed gives the same sounds, and a batch is the sequence of its elements.",
    ["inputs", "histories", "configurations"],
    "every answer of the generator including the extremes, every sequence of "
    "calls with a seed",
    "tests draw a few hundred random samples", ["sample/evaluation/random.py"],
    [("frequencies", "sample/evaluation/random.py:BeatsGenerator.freqs"),
     ("two-sided", "sample/evaluation/random.py:BeatsGenerator.beta_twosides"),
     ("audio", "sample/evaluation/random.py:BeatsGenerator.audio")],
    "exploration",
    "exhaustive exploration of the answers of a controlled random number "
    "generator",
    "Complete on a grid with the extremes; the distributions themselves are "
    "trusted.", ["generated parameters and audio"])

prop(
    "C20", "Storages, default sub-models and parameters never leak",
    "A storage holds exactly what was appended while it was active since its "
    "last reset, at the requested index, and gives away deep copies on request. "
    "Default values of attributes are built once per assignment and never "
    "shared by two objects, explicit ones are kept. Setting any parameter of "
    "any model, in any order and way, changes that parameter only, and no "
    "other model; clones, copies and pickles have the same parameters and "
    "share none of them.", ["histories", "configurations"],
    "every sequence of operations of storages and default properties, every "
    "class and pair of parameters",
    "tests and examples use them once", ["sample/utils/learn.py",
                                         "sample/sample.py",
                                         "sample/sms/sm.py",
                                         "sample/sms/mm.py",
                                         "sample/beatsdrop/sample.py",
                                         "sample/hinge.py"],
    [("storage", "sample/utils/learn.py:OptionalStorage"),
     ("default values", "sample/utils/learn.py:_DefaultProperty")],
    "model_checking",
    "explicit-state exploration of operation sequences on the real objects in "
    "lock step with a reference state",
    "Complete within depth; pairs of parameters of models that can be built "
    "without arguments.", ["state, parameters, identities"])

prop(
    "C21", "Helpers for warnings, variants and arguments have no side effects",
    "Filtered functions hide exactly the selected warnings while they run, "
    "unless toggled off, and give the warning filters back on every exit, "
    "return or exception; so does the analysis. A function with variants calls "
    "the variant selected by name, whatever the order of registrations, and "
    "names the supported ones otherwise. Default arguments never replace "
    "explicit ones nor modify the dictionaries they are given, added arguments "
    "keep the signature, and deprecation warnings point at the caller.",
    ["inputs", "histories", "failures"],
    "every filter, toggle, call and outcome of the function, every sequence of "
    "registrations and calls",
    "examples in the documentation show one call of each",
    ["sample/utils/__init__.py", "sample/sample.py"],
    [("filters", "sample/utils/__init__.py:warnings_simplefilter"),
     ("variants", "sample/utils/__init__.py:function_with_variants"),
     ("defaults", "sample/utils/__init__.py:default_kws")], "exploration",
    "exhaustive enumeration of filters, outcomes and operation sequences "
    "against a reference", "Complete within bounds.",
    ["results, warnings shown, warning filters, signatures"])

prop(
    "C22", "What is applied in the settings is what is analysed, shown and kept",
    "Whatever is typed in the entries of the settings, applying never fails: "
    "every value is brought into its documented domain (positive integers, "
    "powers of two not smaller than the window, clipped and ordered "
    "frequency bounds, choices), then the values shown, those of the settings "
    "file and the parameters of the next analysis are the same. Applying again "
    "or restarting the GUI changes nothing; any readable settings file, with "
    "missing or foreign entries, is accepted. Changing the theme asks once "
    "whether to reload and does so only if the answer is yes.",
    ["inputs", "histories", "configurations"],
    "every text in every entry, every pair of entries, every sequence of "
    "edits, applications and restarts",
    "there is no test of the GUI", ["sample/widgets/settings.py",
                                    "sample/widgets/sample.py",
                                    "sample/widgets/userfiles.py"],
    [("parsing", "sample/widgets/settings.py:custom_positive_int"),
     ("normalisation", "sample/widgets/settings.py:postprocess_windows"),
     ("application", "sample/widgets/settings.py:SettingsTab.apply_cbk"),
     ("model", "sample/widgets/sample.py:sample_factory")], "model_checking",
    "explicit-state exploration of the real settings tab, driven without a "
    "display, in lock step with a reference state",
    "Complete on the alphabets of texts; Tk itself is replaced with a "
    "recorder.", ["entries, settings file, parameters of the model"])

prop(
    "C23", "User files survive crashes and failed writes",
    "A file of the user (settings, cached state) always holds the previous or "
    "the new content, completely: whatever the point at which the process "
    "dies, the disk fills up or the content turns out not to be serializable. "
    "After any of these the GUI starts, with the settings of before or after, "
    "and no temporary file hides or replaces the content. What was saved is "
    "what is loaded, and an unusable path or content is reported as such.",
    ["crashes", "failures", "histories"],
    "every crash point, every partial write, every size at which the disk is "
    "full, every sequence of operations",
    "no test touches user files", ["sample/widgets/userfiles.py",
                                   "sample/widgets/main.py",
                                   "sample/widgets/audioload.py"],
    [("files", "sample/widgets/userfiles.py:UserDir"),
     ("start of the GUI", "sample/widgets/main.py:SAMPLEGUI")],
    "fault_enumeration",
    "enumeration of all the on-disk states at which a process can die while "
    "the real code writes, and of all write failures, with recovery by the "
    "real code", "Process death, not power loss; partial writes at every byte "
    "(thorough) or at a set of lengths (quick).", ["content of the files"])

prop(
    "C24", "The selected region is what is shown, played and kept",
    "After any sequence of loads (successful or failed), typed times, mouse "
    "selections, toolbar use and cancelled dialogs, the region is a non-empty "
    "part of the audio: 0 <= start < stop <= length, the last action moves only "
    "the edge it refers to and as close as possible to the requested time, the "
    "times shown select exactly that region when typed again, and the region "
    "is what is highlighted and played. Audio files of every sample format "
    "and number of channels are loaded in [-1, 1], a file that cannot be read "
    "is reported and leaves everything as it was.",
    ["inputs", "histories", "failures"],
    "every sequence of user actions, every sample format, every time",
    "there is no test of the GUI", ["sample/widgets/audioload.py",
                                    "sample/widgets/audio.py",
                                    "sample/widgets/pyplot.py"],
    [("region", "sample/widgets/audioload.py:AudioLoadTab.set_trim"),
     ("mouse", "sample/widgets/audioload.py:AudioLoadTab.manual_trim_cbk_press"),
     ("automatic region", "sample/widgets/audioload.py:AudioLoadTab.auto_trim"),
     ("playback", "sample/widgets/audio.py:TempAudio")], "model_checking",
    "explicit-state exploration of the real tab, driven without a display, in "
    "lock step with a reference state",
    "Complete within depth on the alphabet of actions; Tk and the audio device "
    "are replaced with recorders.", ["region, entries, plot, played audio"])

prop(
    "C25", "Analyses, resyntheses and exports of the GUI are those of the library",
    "Analysing the selected region with the applied settings gives the model "
    "that the library fits on it, and what is plotted, played, exported as WAV "
    "(with its sample rate) and as JSON is that model's; a failed or refused "
    "analysis, a cancelled dialog or a failed write leaves the previous "
    "analysis in place and is reported. Whatever the user does while an "
    "analysis is running, at most one analysis runs at a time, its outcome is "
    "not affected, and the next one works. An analysis with worker processes "
    "ends with the same modes as one without, also after audio was played.",
    ["inputs", "histories", "schedules", "failures"],
    "every sequence of user actions, every action at every refresh of the "
    "window during an analysis",
    "there is no test of the GUI", ["sample/widgets/analysis.py",
                                    "sample/widgets/sample.py",
                                    "sample/plots.py"],
    [("analysis", "sample/widgets/analysis.py:AnalysisTab.analysis_cbk"),
     ("lock", "sample/widgets/analysis.py:_non_block_lock"),
     ("progress", "sample/widgets/sample.py:_GUIFitArgs"),
     ("resynthesis", "sample/widgets/analysis.py:AnalysisTab._get_audio")],
    "model_checking",
    "explicit-state exploration of the real tabs, driven without a display, in "
    "lock step with a reference state and the library",
    "Complete within depth on the alphabet of actions; Tk is replaced with a "
    "recorder.", ["models, plots, played and exported audio and JSON"])

prop(
    "C26", "The application restarts exactly when asked, and resumes",
    "The launcher starts the GUI once, and again only when the user accepted "
    "a reload: not after the window was closed, and not after the process "
    "crashed, exited, was killed or failed to start. After a reload the loaded "
    "audio, the selected region and the settings are those of before, with the "
    "new theme; the cached state is used once. Closing the window ends the "
    "process and tells the launcher. Options of the command line reach the GUI.",
    ["histories", "crashes", "failures"],
    "every history of sessions and of ways in which a process can end",
    "there is no test of the GUI", ["sample/gui.py", "sample/widgets/main.py",
                                    "sample/widgets/settings.py",
                                    "sample/widgets/audioload.py"],
    [("launcher", "sample/gui.py:run"), ("process", "sample/gui.py:launch"),
     ("closing", "sample/widgets/main.py:SAMPLERoot.on_closing"),
     ("resuming", "sample/widgets/audioload.py:AudioLoadTab")],
    "model_checking",
    "explicit-state exploration of histories of real processes of the real "
    "launcher and widgets, in lock step with a reference state",
    "Complete within depth on the alphabet of sessions; Tk is replaced with a "
    "recorder, its main loop with a script.", ["processes started, state of "
                                                 "every session"])

prop(
    "C27", "Plots show the data of the models",
    "The lines of tracking plots are the tracks of the model, at their "
    "instants in the original direction of time also when it was analysed in "
    "reverse, dashed for the tracks decided to be beats. Resynthesis plots show "
    "the original and the sound of each model on the same instants with their "
    "spectrograms (in decibels above the floor) and pass the same data to the "
    "callback; time-frequency plots have the given limits and proportions. "
    "Comparisons of beat regressions fit copies of any number of them to the "
    "chosen track and draw their curves. Figures and axes given by the user are "
    "used, in any arrangement, and models and signals are not modified.",
    ["inputs", "configurations"],
    "every layout of tracks, kind and state of model, every set of models and "
    "way of giving figure and axes",
    "tests only check that plotting a few models does not fail",
    ["sample/plots.py"],
    [("tracks", "sample/plots.py:sine_tracking_2d"),
     ("3D", "sample/plots.py:sine_tracking_3d"),
     ("images", "sample/plots.py:tf_plot"),
     ("resynthesis", "sample/plots.py:resynthesis"),
     ("beats", "sample/plots.py:beatsdrop_comparison")], "exploration",
    "exhaustive enumeration of models and arguments against the data of every "
    "line and image drawn", "Complete within the number of tracks and models; "
    "appearance is not checked.", ["lines and images of the axes"])

prop(
    "C28", "Notebook displays are complete",
    "The collapsible list of the parameters of a model has, for every parameter "
    "of the model and of its sub-models at any depth, exactly one entry, inside "
    "the entry of its model, with the complete description of the "
    "documentation, without markup, or its name if there is none. Audio players "
    "hold all channels and samples in order, at the given rate. Labels and "
    "audio are displayed when given, clipped unless normalization is asked. "
    "Timers display the elapsed time in the given unit and never swallow "
    "exceptions. Arguments are not modified.", ["inputs", "configurations"],
    "every pair of forms of documentation, every model of the package, every "
    "form of audio and label, every outcome of the timed code",
    "tests only check that a few displays are created", ["sample/ipython.py"],
    [("parameters", "sample/ipython.py:CollapsibleModelParams"),
     ("players", "sample/ipython.py:WebAudio"),
     ("labels", "sample/ipython.py:LabelAndPlayForeach"),
     ("timers", "sample/ipython.py:time_this")], "exploration",
    "exhaustive enumeration of models, documentation layouts and inputs "
    "against the parsed displays", "Complete within two parameters per model "
    "and three levels.", ["parsed HTML, decoded audio"])

prop(
    "C29", "Periodograms and autocorrelograms follow their definitions",
    "Detrending gives, sample by sample, the residuals of the trend model (a "
    "regression line by default) on the given or uniform instants. Frequencies "
    "are converted to the first bin not below them and bins to their "
    "frequency. The Lomb-Scargle periodogram is evaluated at the frequencies "
    "of the transform and is zero outside the cutoff frequencies; the "
    "autocorrelogram of a transform, magnitude or power, one- or two-sided, is "
    "the circular autocorrelation of the signal on the requested number of "
    "lags, and that of an uneven signal is the inverse transform of its "
    "periodogram. Inputs are not modified.", ["inputs", "configurations"],
    "every small signal, axis, trend model, transform size, pair of cutoffs "
    "and form of spectrum",
    "tests look for the first peak of three sinusoids",
    ["sample/utils/dsp.py"],
    [("detrending", "sample/utils/dsp.py:detrend"),
     ("bins", "sample/utils/dsp.py:f2bin"),
     ("periodogram", "sample/utils/dsp.py:lombscargle_as_fft"),
     ("autocorrelogram", "sample/utils/dsp.py:fft2autocorrelogram")],
    "exploration",
    "exhaustive enumeration of signals and parameters against sums computed "
    "term by term", "Complete within the stated lengths and values; the power "
    "of the frequency zero and of those at the cutoffs is not specified.",
    ["returned arrays"])

prop(
    "C30", "Interrupted evaluations and benchmarks resume to the complete results",
    "The evaluation script can be interrupted, killed at any moment, or run with "
    "more tests, and be started again: every test of the campaign ends up in the "
    "results exactly once, with its own seed and its own values, independent of "
    "the order in which workers finish; checkpoints hold only finished tests, are "
    "removed only when the results hold them, and no file is ever left "
    "incomplete. Tests already done are not run again. Reported statistics are "
    "those of the results they are reported with, and with the same results they "
    "are the same. The benchmark, interrupted and started again, ends up with one "
    "time for every filter and size, in its own cell, and the time is that of the "
    "filter under test.",
    ["histories", "crash points", "schedules"],
    "every history of runs, every order of the results of the workers, every "
    "point where the process can be killed",
    "tests do not run these scripts; what matters is the state left by an "
    "interrupted run and what the next one makes of it",
    ["scripts/beatsdrop/evaluation.py", "scripts/cim22/performance.py",
     "scripts/cim22/cochleagram_setup.py.in"],
    [("campaign, checkpoints, results and statistics",
      "scripts/beatsdrop/evaluation.py:main"),
     ("tests", "scripts/beatsdrop/evaluation.py:test_case"),
     ("benchmark", "scripts/cim22/performance.py:main"),
     ("timed code", "scripts/cim22/cochleagram_setup.py.in")],
    "fault_enumeration",
    "enumeration of histories on a controlled pool and clock, and of every state "
    "of the disk reachable by killing the process",
    "Exhaustive within the stated number of runs and tests; the number of tests "
    "does not decrease; process death, not power loss.",
    ["CSV and JSON files left on disk", "tests run"])

prop(
    "C31", "Release and notebook tools preserve what they are given",
    "Formatting a notebook never changes what its code cells do: every cell has "
    "the same syntax tree, the same commands and magics, complete and in the same "
    "places, and the same comments, laid out as the style says; cells that are "
    "not Python, are marked as ignored or are not code, outputs and metadata are "
    "not touched. The answer says whether something changed, a dry run and a "
    "clean notebook write nothing, formatting again changes nothing, and a "
    "notebook is never lost or left incomplete, also if the process dies or the "
    "disk is full. The changelog lists every version exactly once, from the newest "
    "to the oldest by numeric comparison, whatever the order of the directory, "
    "and the notes of a release are those of its version without their title.",
    ["inputs", "crash points", "failures"],
    "every notebook, every point where writing can fail, every set of versions",
    "tests do not run these scripts",
    ["scripts/utils/yapf_nbformat.py", "scripts/utils/make_changelog.py",
     "scripts/utils/extract_changelog.py"],
    [("notebooks", "scripts/utils/yapf_nbformat.py:format_nb"),
     ("commands", "scripts/utils/yapf_nbformat.py:_unwrap_command_line"),
     ("order of versions", "scripts/utils/make_changelog.py:_version_compare"),
     ("notes of a release", "scripts/utils/extract_changelog.py:main")],
    "fault_enumeration",
    "enumeration of cells and notebooks against syntax trees, of crash points and "
    "write failures, of versions in every directory order",
    "Exhaustive within the stated pieces, cells and versions; lines in the middle "
    "of statements that look like commands may leave a cell unformatted.",
    ["notebooks and files written, text printed"])

prop(
    "C32", "The example program analyses the chosen region of the chosen sound",
    "The example program reads sounds of any format and number of channels, from "
    "a file or an address, as the mean of their channels between -1 and 1; crops "
    "them between the given times or, for the missing ones, the onset before the "
    "end, the onset after the start or, without both, the onset with the longest "
    "interval before the next one; writes exactly the region it analyses; shows "
    "the progress of the fit that is going on; and writes a resynthesis as long "
    "as the region that is not clipped unless that is asked, and not altered if "
    "it does not need to be.",
    ["inputs", "histories"],
    "every format, pattern of onsets, pair of times, level and sequence of "
    "progress updates",
    "tests do not run this program", ["scripts/beatsdrop/example.py"],
    [("loading", "scripts/beatsdrop/example.py:load_audio"),
     ("cropping", "scripts/beatsdrop/example.py:crop_audio"),
     ("progress", "scripts/beatsdrop/example.py:ScriptFitArgs"),
     ("resynthesis", "scripts/beatsdrop/example.py:resynth_audio")],
    "exploration",
    "exhaustive enumeration of inputs, onset patterns and progress sequences "
    "against definitions", "Complete within the stated number of samples; the "
    "onsets are those of C13.", ["arrays, files, progress shown"])

prop(
    "C33", "Reports and images of the evaluations show the computed results",
    "The report of the evaluation is one complete document. It gives, for every "
    "parameter and model, the median and the confidence interval of its absolute "
    "errors (frequencies in mel, amplitudes in decibel, decays in seconds) in the "
    "row of the parameter and the column of the model, and says of every pair of "
    "models and of partials that the error of one is smaller than, larger than or "
    "equal to that of the other exactly as the tests decided, whichever the "
    "approach, the order of the results and the number of samples. The report of "
    "the decisions gives their precision and recall for tracks with and without "
    "beats, and its images order the parameters by importance and show, for each "
    "of them, how many tracks had each decision and which fraction. The image of "
    "the benchmark gives every combination of stride and duration its own "
    "speed-up with respect to the best other method, on a logarithmic scale "
    "normalized on each side, and its colorbar and axes label positions with the "
    "speed-ups, strides and durations that are there.",
    ["inputs", "configurations"],
    "every order of the results, outcome of the tests, matrix of timings and range "
    "of the axes",
    "tests do not run these scripts; a report with two numbers exchanged looks as "
    "good as the right one",
    ["scripts/beatsdrop/evaluation.py", "scripts/cim22/performance.py"],
    [("report", "scripts/beatsdrop/evaluation.py:print_report"),
     ("tests", "scripts/beatsdrop/evaluation.py:statistical_tests"),
     ("decisions", "scripts/beatsdrop/evaluation.py:decision_report"),
     ("speed-up", "scripts/cim22/performance.py:compute_speedup"),
     ("image", "scripts/cim22/performance.py:log_speedup_imshow"),
     ("axes", "scripts/cim22/performance.py:main")],
    "exploration",
    "exhaustive enumeration of orders, outcomes, timings and ranges; what is "
    "printed and drawn is parsed and compared with definitions",
    "Complete within the stated levels and sizes; the decisions of the library "
    "autorank are taken as they are.", ["text printed, images drawn"])
