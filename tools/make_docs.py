"""Writes properties.jsonl and MANIFEST.json.  Run: python3 tools/make_docs.py"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "gw_eccentricity/"
DEF = G + "eccDefinition.py"
FITS = G + "eccDefinitionUsingFrequencyFits.py"
MAIN = G + "gw_eccentricity.py"
LOAD = G + "load_data.py"
UTIL = G + "utils.py"
FILT = G + "spin_filter.py"
RAT = G + "rational_fit.py"
TRUNC = G + "truncate_waveform_by_flow.py"
COMP = G + "compare_methods.py"
PP = [G + "postprocess/core.py", G + "postprocess/postprocess.py",
      G + "postprocess/postprocess_for_bilby.py",
      G + "postprocess/postprocess_cli.py"]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    assert len(re.findall(r"[.;](?:\s|$)", statement)) <= 4, id
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note))


SYN = ("closed-form eccentric inspirals whose eccentricity, mean anomaly and "
       "extrema are known independently of the code")

prop("C01", "Measured eccentricity and anomaly match the analytic truth",
     "For a waveform whose pericenters, apocenters and their frequencies are "
     "known in closed form, every method returns the eccentricity defined by "
     "those frequencies and a mean anomaly that is 0 at pericenters and grows "
     "linearly to 2 pi at the next one, up to the sampling error.",
     ["inputs", "configurations"],
     "all eccentric inspirals (initial eccentricity, anomaly, frequency, "
     "chirp, pericenter advance, duration, sampling, mode content) and all "
     "six methods and interpolation options",
     "tests compare a handful of LAL waveforms with stored numbers produced "
     "by the code itself; no test has an independent truth, and none varies "
     "the input continuously",
     [DEF, FITS, G + "eccDefinitionUsingAmplitude.py",
      G + "eccDefinitionUsingResidualAmplitude.py"],
     [("extrema location", DEF + " measure_ecc, find_extrema, "
       "get_good_extrema"),
      ("eccentricity from the extrema interpolants", DEF +
       " compute_eccentricity, et_from_ew22_0pn"),
      ("anomaly between pericenters", DEF + " compute_mean_anomaly")],
     "property-based testing against a closed-form model",
     "Random sampling over " + SYN + "; tolerances follow from the sampling "
     "step, so errors below them are not seen.")

prop("C02", "Eccentricity follows the documented formula at every time",
     "At every reference time the eccentricity returned is the documented "
     "function of the frequencies interpolated through the reported "
     "pericenters and apocenters, and the mean anomaly is the documented "
     "linear function of time between the reported pericenters.",
     ["inputs", "configurations"],
     "all waveforms, methods, options and reference times",
     "tests look at stored values at a few times only; the formula is never "
     "evaluated independently",
     [DEF, MAIN],
     [("formula", DEF + " et_from_ew22_0pn, compute_eccentricity"),
      ("anomaly", DEF + " compute_mean_anomaly")],
     "property-based testing against an independently written formula",
     "Reference formula re-implemented in the harness; exact up to rounding "
     "for spline interpolants, on randomly generated waveforms.")

prop("C03", "Output contract: which references are returned, and in what form",
     "The returned references are exactly the input references inside the "
     "advertised bounds, in input order and unchanged, with the other arrays "
     "aligned and of the same length, scalars giving scalars. Eccentricity is "
     "in [0, 1] and mean anomaly in [0, 2 pi); references outside produce the "
     "documented exception when nothing is left.",
     ["inputs", "configurations"],
     "all scalar, list and array references inside, on and outside the "
     "bounds, by time and by frequency",
     "tests use references well inside the bounds; the boundary values and "
     "mixed lists are combinatorial",
     [DEF, MAIN],
     [("bounds and truncation", DEF + " measure_ecc, get_fref_out, "
       "check_input_limits"),
      ("return dictionary", DEF +
       " make_return_dict_for_eccentricity_and_mean_anomaly")],
     "property-based testing of an output validity predicate",
     "References are generated on, around and between the bounds; the "
     "predicate is exact.")

prop("C04", "Each reference value is measured independently of the others",
     "The eccentricity and mean anomaly at one reference time or frequency do "
     "not depend on which other references are requested in the same call, "
     "nor on their order or multiplicity.",
     ["inputs"],
     "all splittings, permutations and repetitions of a list of references",
     "no test measures the same point in two different requests; the space "
     "of requests is unbounded",
     [DEF],
     [("vectorised evaluation", DEF + " compute_eccentricity, "
       "compute_mean_anomaly"),
      ("frequency to time conversion", DEF +
       " compute_tref_in_and_fref_out_from_fref_in")],
     "metamorphic property-based testing",
     "Exact equality (rounding for frequency references) between requests on "
     "random waveforms.")

prop("C05", "Measurements do not depend on the origin of time",
     "Shifting the time array and the reference times by the same constant "
     "leaves eccentricity and mean anomaly unchanged and shifts every "
     "reported time by that constant; references by frequency are unaffected.",
     ["inputs", "configurations"],
     "all waveforms, methods, options and time shifts",
     "one test shifts one waveform by one value for one method",
     [DEF, FITS, UTIL, FILT],
     [("internal time origin", DEF + " process_data_dict, "
       "peak_time_via_quadratic_fit in utils.py")],
     "metamorphic property-based testing",
     "Dyadic sampling makes shifts exact, so that differences are not "
     "attributed to rounding.")

prop("C06", "Measurements do not depend on units or on the phase origin",
     "Rescaling the amplitude, rescaling time (mass units or seconds) or "
     "adding a constant to the phase leaves eccentricity and mean anomaly "
     "unchanged at the corresponding references, and reported times and "
     "frequencies scale with the unit.",
     ["inputs", "configurations"],
     "all waveforms, methods, options and rescalings in the documented units",
     "one test compares one LAL waveform in two unit systems",
     [DEF, FITS, LOAD],
     [("scale-free extrema finding", DEF +
       " get_width_for_peak_finder_from_phase_gw"),
      ("scale-free fits", FITS)],
     "metamorphic property-based testing",
     "Powers of two for exactness plus generic factors with a rounding "
     "tolerance.")

prop("C07", "Equivalent representations of the waveform give equal results",
     "Giving the same modes as complex strain or as amplitude and phase, with "
     "or without the optional frequency, together with extra modes or "
     "unrelated entries, gives the same measurement.",
     ["inputs", "configurations"],
     "all waveforms and all ways of describing them in the input dictionary",
     "tests give each waveform in the one form that its loader returns",
     [DEF, MAIN],
     [("conversion", DEF + " get_amp_phase_omega_data, process_data_dict")],
     "differential property-based testing",
     "Agreement up to rounding between representations of one waveform.")

prop("C08", "Inputs are never modified and calls do not affect each other",
     "No call changes the data, reference values or option dictionaries it is "
     "given, even nested ones or read-only arrays. Repeating a call, or "
     "making other calls in between, successful or failing, gives identical "
     "results.",
     ["histories", "inputs", "configurations"],
     "all sequences of measurement calls with shared inputs",
     "tests never compare the inputs afterwards, nor two calls in one "
     "process; histories of calls are unbounded",
     [DEF, FITS, MAIN, UTIL, FILT, G + "plot_settings.py"],
     [("copies of the user's input", DEF + " __init__, process_data_dict"),
      ("defaults", UTIL + " check_kwargs_and_set_defaults")],
     "stateful property-based testing with snapshots",
     "Random histories over a pool of shared inputs; equality is bit for "
     "bit.")

prop("C09", "Invalid input is rejected with an error, never measured",
     "Malformed data, references, method names or options are refused with an "
     "exception that says what is wrong, before any result is returned.",
     ["inputs", "configurations"],
     "all single corruptions of a valid call",
     "tests cover a few of the refusals; corruptions of nested options and "
     "arrays are a large space",
     [DEF, MAIN, UTIL, FITS, FILT, LOAD],
     [("validation", DEF + " __init__, process_data_dict"),
      ("option names", UTIL + " check_kwargs_and_set_defaults")],
     "mutation-style fuzzing of valid calls",
     "Each generated corruption must raise, and the uncorrupted call must "
     "not; the kind of exception is checked where documented.")

prop("C10", "The debug level changes what is reported, never what is measured",
     "Debug level -1 is silent, 0 shows only important warnings, 1 shows all "
     "of them and 2 turns them into exceptions. A measurement that succeeds "
     "at several levels returns identical values at all of them. (Recorded "
     "exception: with three or fewer extrema of a kind the spline order is "
     "lowered with a warning at every level.)",
     ["inputs", "configurations"],
     "all waveforms and options, including those that trigger each warning",
     "tests run at one level each and ignore what is printed",
     [UTIL, DEF, RAT, FILT],
     [("reporting", UTIL + " debug_message")],
     "differential property-based testing across levels",
     "Warnings and output are captured per level on waveforms made to "
     "trigger them.")

prop("C11", "Reference frequency and time agree through the average frequency",
     "A measurement at a reference frequency equals the one at the time where "
     "the chosen average frequency takes that value, and the average is the "
     "documented one, increasing with time. Frequencies in the advertised "
     "bounds are measured, those outside are not.",
     ["inputs", "configurations"],
     "all waveforms, averaging methods and frequencies",
     "tests check three averaging methods on one waveform at a few points",
     [DEF],
     [("inversion", DEF + " compute_tref_in_and_fref_out_from_fref_in"),
      ("averages", DEF + " compute_orbit_averaged_omega_gw_between_extrema, "
       "compute_mean_of_extrema_interpolants, compute_omega_gw_zeroecc")],
     "property-based testing against independently computed averages",
     "Averages recomputed from the data and the reported extrema.")

prop("C12", "Restricting to a number of orbits keeps the measurement",
     "Using only a given number of orbits around the reference gives the "
     "measurement of the full waveform up to the interpolation error at the "
     "edges, from a segment that has that many orbits around the reference "
     "wherever the data allow.",
     ["inputs", "configurations"],
     "all waveforms, numbers of orbits and references, by time and frequency, "
     "near the ends of the data or not",
     "one test runs one waveform and compares with a loose tolerance",
     [DEF],
     [("segment selection", DEF + " get_amp_phase_omega_gw_segments"),
      ("approximate time of a frequency", DEF +
       " get_approximate_tref_for_fref_using_secular_trend")],
     "differential property-based testing against the full measurement",
     "Segment length and position are checked through the exposed arrays.")

prop("C13", "Failure for nearly circular data is zero only when asked for",
     "When eccentricity is too small to find enough extrema the call raises, "
     "or, when the option is set, returns exactly zero eccentricity and "
     "anomaly for the requested references in the usual form. The option "
     "changes nothing when the measurement succeeds, and does not hide other "
     "errors.",
     ["inputs", "configurations"],
     "all waveforms around the threshold of measurability, all methods and "
     "reference forms",
     "one test uses one quasicircular waveform per method",
     [DEF],
     [("fallback", DEF + " check_num_extrema, "
       "set_eccentricity_and_mean_anomaly_to_zero")],
     "differential property-based testing (option on and off)",
     "Outcome with the option is predicted from the outcome without it.")

prop("C14", "Measurements do not depend on the frame of the modes",
     "Rotating all modes of a waveform by a constant or time-dependent "
     "rotation and declaring the system precessing gives the same measurement "
     "as the co-precessing modes themselves, given in either frame and in "
     "either representation. The transformation to the co-precessing frame "
     "gives, for any range of ell, the modes seen from the frame that follows "
     "the orbit, and refuses data that lack one of them.",
     ["inputs", "configurations"],
     "all waveforms, rotations and precession histories",
     "precession tests need network downloads, and use one system",
     [DEF, LOAD],
     [("frame transformation", DEF + " transform_inertial_to_coprecessing; " +
       LOAD + " get_coprecessing_data_dict")],
     "metamorphic property-based testing",
     "Rotations use independently written Wigner matrices.")

prop("C15", "Spin-induced asymmetry and oscillations do not bias the result",
     "For precessing systems the asymmetry of the (2, 2) and (2, -2) modes "
     "cancels, and spin-induced oscillations are removed when and only when "
     "the asymmetry exceeds the threshold, so that the measurement stays "
     "close to that of the underlying orbit.",
     ["inputs", "configurations"],
     "all asymmetries, oscillation strengths, filter options and waveforms",
     "tests cover one precessing system, from the network",
     [DEF, FILT],
     [("averaging", DEF + " get_amp_phase_omega_gw"),
      ("filter", FILT + " check_and_filter_spin_induced_oscillations")],
     "property-based testing against a closed-form model",
     "Sampling of an explicit model of asymmetry; accuracy bounds of the "
     "filter are empirical.")

prop("C16", "Rational fits reproduce rational data and warn outside it",
     "A rational fit of sufficient degree through data from a pole-free "
     "rational function reproduces that function inside the data range, for "
     "any scaling of the axes, and keeps the best iterate it found. Evaluation "
     "outside the data range warns; invalid degrees, data of different "
     "lengths and evaluation before a fit raise ValueError. The numerator and "
     "denominator together never have as many free coefficients as there are "
     "points in the fits of a measurement, and are raised, lowered and given "
     "up for a spline as documented.",
     ["inputs"],
     "all pole-free rational functions, degrees, sample points and scalings",
     "tests fit one function at fixed degrees",
     [RAT, UTIL, DEF],
     [("fit", RAT + " RationalFit"),
      ("degree reduction", RAT + " get_reduced_degrees")],
     "property-based testing against the generating function",
     "Random functions with poles kept away from the interval.")

prop("C17", "Numerical building blocks are exact where they must be",
     "The fourth-order derivative is exact for polynomials up to degree four, "
     "the peak time is exact for a parabola and independent of units, "
     "interpolation passes through its data and refuses to extrapolate, and "
     "option dictionaries are completed with defaults or refused.",
     ["inputs"],
     "all polynomials, sample spacings, times, data and option dictionaries",
     "these helpers are not tested on their own",
     [UTIL],
     [("derivative", UTIL + " time_deriv_4thOrder"),
      ("peak", UTIL + " peak_time_via_quadratic_fit"),
      ("interpolation", UTIL + " interpolate, get_interpolant"),
      ("options", UTIL + " check_kwargs_and_set_defaults")],
     "property-based testing of algebraic laws",
     "Exact laws up to rounding, on thousands of generated inputs.")

prop("C18", "Only the data before the excluded merger matter",
     "The measurement does not depend on the data in the orbits excluded "
     "before merger, beyond where the merger is, and the number of excluded "
     "orbits is the one requested.",
     ["inputs", "configurations"],
     "all waveforms, methods, excluded orbits and late-time data",
     "no test changes the data in the excluded region",
     [DEF],
     [("truncation", DEF + " get_index_at_num_orbits_earlier_than_merger, "
       "process_data_dict")],
     "metamorphic property-based testing",
     "The excluded part is replaced by different data with the same peak.")

prop("C19", "Residual methods do not depend on how the companion is sampled",
     "The quasicircular companion of the residual methods may have any time "
     "origin, step, length and phase as long as it covers the eccentric "
     "waveform, and gives the same measurement.",
     ["inputs", "configurations"],
     "all companions of all waveforms",
     "tests use companions on the same grid from the same loader",
     [DEF],
     [("alignment at the merger", DEF + " process_data_dict, "
       "compute_res_amp_gw_and_res_omega_gw")],
     "metamorphic property-based testing",
     "Companions resampled from a closed form; interpolation error is "
     "allowed for.")

prop("C20", "Reported extrema are genuine, ordered and alternate",
     "The reported pericenters and apocenters are increasing in time, "
     "alternate, are local extrema of the data of the method up to the "
     "sampling, and none of those in the measured range is missing. With the "
     "mid-point option apocenters are the mid points of pericenters in phase "
     "or time as documented. Extrema that are refined stay with the samples "
     "they belong to, and sampling a waveform more finely finds the same "
     "ones.",
     ["inputs", "configurations"],
     "all waveforms, methods and extrema options",
     "tests do not look at the extrema themselves",
     [DEF, FITS],
     [("extrema", DEF + " get_good_extrema, drop_extra_extrema_at_ends, "
       "drop_extrema_if_extrema_jumps, get_apocenters_from_pericenters")],
     "property-based testing of a validity predicate",
     "Compared with the closed-form extrema of the generated waveform.")

prop("C21", "LAL waveforms are requested and returned as documented",
     "The parameters given to the loader reach the waveform generator in its "
     "conventions, and the generated polarisations come back as the (2, 2) "
     "mode in the requested units with the merger at time zero, with the "
     "quasicircular companion made from the same system.",
     ["inputs", "configurations"],
     "all masses, spins, eccentricities, frequencies, steps, units",
     "tests use one or two parameter sets per approximant",
     [LOAD],
     [("generation", LOAD + " load_LAL_waveform, generate_LAL_waveform")],
     "property-based testing against a recording stand-in",
     "The external generator is replaced by a stand-in that records its "
     "arguments and returns known polarisations.")

prop("C22", "Waveform files load as what was written to them",
     "A waveform written in one of the supported file formats comes back as "
     "the same modes on the same times, up to the documented conventions "
     "(sign, time origin at the peak, removed initial part), whatever its "
     "length, sampling and mode content.",
     ["inputs", "configurations"],
     "all contents of EOB, EMRI and LVCNR-format files and loader options",
     "tests load no or one file per format",
     [LOAD],
     [("loaders", LOAD + " load_EOB_waveform, load_EOB_EccTest_file, "
       "load_EMRI_waveform, load_lvcnr_hack, load_lvcnr_waveform")],
     "round-trip property-based testing",
     "The harness writes the files itself in a scratch directory.")

prop("C23", "SXS simulations load with junk removed and metadata honoured",
     "Loading a simulation in the SXS catalog format gives the stored modes "
     "after the requested number of orbits or the metadata reference time, "
     "the parameters in its metadata, and a quasicircular companion long "
     "enough for it, for every option combination.",
     ["inputs", "configurations"],
     "all simulations (modes, times, horizons, metadata) and options",
     "tests need the network for this loader",
     [LOAD],
     [("loader", LOAD + " load_sxs_catalogformat, "
       "get_modes_dict_from_sxs_catalog_format"),
      ("junk", LOAD + " reomve_junk_from_nr_data, "
       "remove_junk_from_sxs_catalogformat_using_horizons_data"),
      ("companion", LOAD + " get_zeroecc_dataDict_for_nr")],
     "round-trip property-based testing",
     "Files in the older catalog layout are written by the harness; the "
     "approximant of the companion is a stand-in where noted.")

prop("C24", "Errors between two measurements are the true differences",
     "Comparing two measurements gives the absolute differences of "
     "eccentricity and of mean anomaly, the latter on the circle, on the "
     "common time range, is symmetric in the two and zero for identical "
     "ones.",
     ["inputs", "configurations"],
     "all pairs of measurements with overlapping ranges",
     "no test uses the comparison on anomalies that straddle zero",
     [COMP],
     [("comparison", COMP + " compute_errors_between_methods")],
     "property-based testing against a direct computation",
     "Both real measurements and stubs with prescribed anomalies.")

prop("C25", "Truncation by lowest frequency keeps exactly the band",
     "Truncating a waveform at flow keeps an unchanged suffix of the data "
     "that starts where the highest frequency of an orbit, that of the "
     "highest mode at pericenter, reaches flow: nothing at or above flow is "
     "lost, no orbit that is wholly below it is kept, and the whole waveform "
     "is returned when its first pericenter is above flow. Measurements on "
     "the result agree with those of the full waveform.",
     ["inputs", "configurations"],
     "all waveforms, frequencies, mode content and options",
     "no test covers truncation",
     [TRUNC],
     [("truncation", TRUNC + " truncate_waveform_by_flow")],
     "property-based testing of a validity predicate",
     "Compared with closed-form pericenter frequencies.")

prop("C26", "Post-processing measures each posterior sample on its own",
     "Each posterior sample is measured with its own parameters, a failing "
     "sample becomes missing values without disturbing others, results are "
     "in the order of the samples whatever the number of processes, and "
     "agree with a direct measurement.",
     ["inputs", "histories", "configurations"],
     "all sample sets, failing subsets, process counts and options",
     "no test covers post-processing",
     PP[:3],
     [("per-sample measurement", PP[0]), ("pool", PP[1])],
     "model-based property-based testing",
     "A cheap stand-in generator returns closed-form inspirals per sample.")

prop("C27", "An interrupted post-processing run resumes without loss",
     "Stopping a run at any point and starting it again gives the same final "
     "results as one that was never interrupted, every sample being present "
     "once and none computed from another's parameters.",
     ["crash_points", "histories", "inputs"],
     "all interruption points, numbers of interruptions, sample counts and "
     "checkpoint intervals",
     "no test interrupts a run",
     PP[1:],
     [("checkpoint", PP[3] + " checkpoint and resume")],
     "fault-injection property-based testing",
     "Interruptions are injected at sample boundaries and at file "
     "operations.")

prop("C28", "The command line reads samples and writes results faithfully",
     "Sample selections given on the command line are parsed to exactly those "
     "indices, and results, summaries and injections in the output are those "
     "of the samples they are labelled with.",
     ["inputs", "configurations"],
     "all selection strings, result files and option combinations",
     "no test covers the command line",
     PP[1:],
     [("parsing and merging", PP[3])],
     "round-trip and model-based property-based testing",
     "In-process, in a scratch directory.")

prop("C29", "Diagnostic plots show the measurement and do not change it",
     "Making any of the diagnostic plots, in any order and style, succeeds "
     "after a successful measurement, draws the measured curves, and leaves "
     "all later evaluations unchanged. Asking for plots while measuring "
     "changes neither the result nor the error of a measurement that is "
     "refused.",
     ["histories", "inputs", "configurations"],
     "all measurements, plot sequences and styles",
     "one test checks that plots can be made for a single waveform",
     [DEF, G + "plot_settings.py"],
     [("plots", DEF + " make_diagnostic_plots and plot_*")],
     "stateful property-based testing",
     "Line data of the figures are compared with the measurement.")

prop("C30", "Evaluation between references and derivatives are consistent",
     "After a measurement, eccentricity and anomaly can be evaluated at any "
     "time in the measured range with the values a measurement there would "
     "return, derivatives of eccentricity integrate back to it, and times "
     "outside the range are refused.",
     ["inputs", "configurations"],
     "all waveforms, options, times and derivative orders",
     "no test evaluates derivatives or times other than the references",
     [DEF],
     [("evaluation", DEF + " compute_eccentricity, "
       "derivative_of_eccentricity, compute_mean_anomaly, "
       "check_input_limits")],
     "metamorphic property-based testing",
     "Integral and finite-difference relations within stated tolerances.")

prop("C31", "All methods agree on physical waveforms",
     "On waveforms of one physical system all applicable methods agree on "
     "eccentricity and mean anomaly, eccentricity decreases with time, the "
     "value follows the eccentricity the system was given, and a pericenter "
     "lies where the waveform model starts its orbit.",
     ["inputs", "configurations"],
     "all eccentric systems supported by the waveform model",
     "tests compare each method with its own stored output on one system",
     [DEF, FITS, LOAD],
     [("methods", MAIN + " get_available_methods")],
     "differential property-based testing across methods",
     "Waveforms are generated by the installed approximant; tolerances are "
     "empirical.")

prop("C32", "Doubtful measurements are flagged, and only those",
     "A measurement that is doubtful for one of the documented reasons "
     "(extrema too close or too far apart, missing on one side, not "
     "alternating, dropped, or frequencies or an eccentricity that behave "
     "unphysically) tells so at debug level 1, and one without such a reason "
     "does not claim it. The times and counts in the messages are those of "
     "the measurement.",
     ["inputs", "configurations"],
     "all waveforms, defects of the extrema, methods and options",
     "tests let warnings pass without looking at when they appear",
     [DEF, FITS, UTIL],
     [("extrema", DEF + " check_extrema_separation, "
       "check_num_extrema, drop_extrema_if_too_close"),
      ("eccentricity", DEF + " check_monotonicity_and_convexity")],
     "property-based testing against recomputed conditions",
     "Conditions are recomputed from reported extrema and eccentricity; cases "
     "within rounding of a limit are not judged.")

prop("C33", "Definitions added by the user get the documented measurement",
     "A definition derived from eccDefinition that only supplies its data and "
     "its extrema is measured like a built-in method with those extrema. "
     "Whatever extrema it supplies, spurious or missing ones included, the "
     "documented rules remove the same ones, and eccentricity and mean "
     "anomaly follow from those that remain.",
     ["inputs", "configurations"],
     "all sets of extrema, waveforms and options",
     "tests only use the built-in methods, whose extrema are seldom wrong",
     [DEF],
     [("cleaning", DEF + " get_good_extrema, drop_extra_extrema_at_ends, "
       "drop_extrema_if_extrema_jumps, drop_extrema_if_too_close"),
      ("measurement", DEF + " measure_ecc")],
     "property-based testing against a reference model",
     "Cases where a pair of extrema lies within rounding of a limit are not "
     "judged.")

prop("C34", "The form in which input is given does not matter",
     "References given as Python or numpy numbers, lists, tuples, ranges, "
     "series or arrays of any type and shape, modes in views or in any order, "
     "and options as Python or numpy values give identical results. What "
     "cannot be used in a form is refused, never measured differently.",
     ["inputs", "configurations"],
     "all forms of references, waveforms and options, alone and combined",
     "tests pass plain arrays and Python constants",
     [MAIN, DEF],
     [("references", DEF + " measure_ecc, check_input_limits"),
      ("options", DEF + " __init__, get_amp_phase_omega_gw")],
     "metamorphic property-based testing",
     "Equality is exact. Mode data that are no arrays may be refused.")

prop("C35", "Leaving an option out is the same as giving its default",
     "Giving any of the options of a measurement, of its option dictionaries "
     "(whole or in part), or of a waveform loader with the value that is "
     "documented as its default changes nothing: all results are identical "
     "to those without it, whatever the other options are.",
     ["inputs", "configurations"],
     "all subsets of options, alone and with others that are not at default",
     "tests give few options and never compare with their absence",
     [MAIN, DEF],
     [("options", DEF + " __init__, get_default_extra_kwargs; " + MAIN),
      ("loaders", "gw_eccentricity/load_data.py get_load_waveform_defaults")],
     "metamorphic property-based testing",
     "Equality is exact. The defaults are those of the documentation.")

IMPLEMENTED = sorted(
    f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "gwv", "props"))
    if re.fullmatch(r"c\d\d\.py", f))

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items()
                                if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in IMPLEMENTED:
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"bin/check {p['id']} --tier quick",
                thorough_cmd=f"bin/check {p['id']} --tier thorough",
                technique=p["_t"], level="exploration",
                level_note=p["_n"]))
        else:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(
                p["id"], "no check built yet")))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks,
             not_applicable=na,
             notes="No hooks: the checks use the public interface and "
             "replace external collaborators from outside.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
