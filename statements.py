"""The properties: source of properties.jsonl and MANIFEST.json."""

SETUP = "python3-vt -c 'import numpy, scipy, yaml'"
NOTES = ("One process simulates everything: processes, disk, HDF5 files, "
         "clock, randomness and crashes are in sim/; props/ holds the "
         "workloads and oracles. No hooks in /repo: the seams are the module "
         "imports of the code under test.")


def q(over, text):
    return {"over": over, "text": text}


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


STORE = "echidna/output/store.py"
SPECTRA = "echidna/core/spectra.py"
CONFIG = "echidna/core/config.py"
PARAM = "echidna/core/parameter.py"
MIN = "echidna/fit/minimise.py"
RES = "echidna/fit/fit_results.py"
FIT = "echidna/fit/fit.py"
LIMIT = "echidna/limit/limit.py"

LEVEL = ("Seeded random search; no violation in the runs made is not a "
         "proof. ")

PROPERTIES = [
    {
        "id": "S01",
        "title": "A saved spectrum loads back as the same spectrum",
        "statement": (
            "Loading a spectrum that was saved, in the same process or in a "
            "later one, gives a spectrum equal to the saved one in contents, "
            "axes, names, background name, decay and event counts, style, "
            "regions of interest and fit parameters. Every later operation "
            "has the same effect on the loaded spectrum as on the original. "
            "A load that is hit by an error raises; it never gives a "
            "spectrum with other contents."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all spectra that sequences of operations can make, "
                        "all sequences of saves, loads and process restarts, "
                        "any error during a load"),
        "why_tests_cant": (
            "The tests save one fixed spectrum; they do not run here, never "
            "load in another process, with fit parameters, after a fit or "
            "while reads fail."),
        "anchors": {"files": [STORE, SPECTRA, CONFIG, PARAM],
                    "mechanism": mech(
                        ("dump writes attributes and data", STORE + ":dump"),
                        ("load restores them", STORE + ":load"),
                        ("dictionary strings", STORE + ":dict_to_string"),
                        ("config dictionaries", CONFIG + ":dump, load")),
                    "observe_at": ["the spectrum returned by load"],
                    "hook_needed": None},
        "level_note": LEVEL + "HDF5 is a stand-in with h5py's value "
        "conversions; the code under test is the real one.",
    },
    {
        "id": "S02",
        "title": "An interrupted save or load never yields wrong contents",
        "statement": (
            "If saving or loading spectra, fit results or limit results "
            "fails or the process dies at any point, a later load gives the "
            "complete old contents, the complete new contents, or an error; "
            "never a mixture or values that were not saved. A save that "
            "returns is complete, a save that is refused leaves the file as "
            "it was, and saving never changes the saved object. After a "
            "failure the same object can be saved again."),
        "quantifier": q(["crash_points", "fault_sequences", "histories"],
                        "a crash or error at any operation on the file, for "
                        "every kind of saved object, into new and existing "
                        "files"),
        "why_tests_cant": (
            "No test makes a write or read fail, kills the process or looks "
            "at the file afterwards; the number of crash points is the "
            "number of writes."),
        "anchors": {"files": [STORE, RES],
                    "mechanism": mech(
                        ("order of checks and writes", STORE + ":dump"),
                        ("results", STORE + ":dump_fit_results, "
                         "dump_limit_results"),
                        ("read errors are not defaults", STORE + ":load*")),
                    "observe_at": ["loads by a fresh process"],
                    "hook_needed": None},
        "level_note": LEVEL + "Process death, not power loss; a torn HDF5 "
        "file is unopenable, as before, or a prefix of the operations.",
    },
    {
        "id": "S03",
        "title": "Adding to a file leaves its other contents as they were",
        "statement": (
            "Adding a spectrum or results to an existing file leaves "
            "everything else in that file, and every other file, loadable "
            "as before. Saving under a name the file already holds is "
            "refused unless overwriting was asked for, and then replaces "
            "exactly that one. A failed addition affects at most the part "
            "that was being added."),
        "quantifier": q(["histories", "fault_sequences"],
                        "all sequences of saves with and without appending "
                        "and overwriting, of several kinds of object, from "
                        "several processes, some failing"),
        "why_tests_cant": (
            "The tests append nothing, hold one object per file, and never "
            "fail part way."),
        "anchors": {"files": [STORE],
                    "mechanism": mech(("append and overwrite",
                                       STORE + ":dump"),
                                      ("append", STORE + ":dump_fit_results,"
                                       " dump_limit_results")),
                    "observe_at": ["loads by a fresh process"],
                    "hook_needed": None},
        "level_note": LEVEL + "Files are exclusive to one writer, as HDF5 "
        "locking enforces.",
    },
    {
        "id": "S04",
        "title": "Saved fit results load back complete",
        "statement": (
            "Loading saved fit results gives the same fit parameters in the "
            "same order with their values and best fits, the same axes, "
            "statistics, penalties and name, whatever the numbers of "
            "parameters and points and whether per-bin or not. Asking the "
            "original and the loaded results the same question, or changing "
            "both the same way, gives the same answer."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all fit results, saved, changed and loaded in any "
                        "order, with errors and crashes in between"),
        "why_tests_cant": (
            "The test of fit results saves one fixed grid and does not run "
            "here; nothing compares behaviour after loading or more than "
            "one generation."),
        "anchors": {"files": [STORE, RES, MIN, CONFIG],
                    "mechanism": mech(
                        ("save", STORE + ":dump_fit_results"),
                        ("load", STORE + ":load_fit_results"),
                        ("order of parameters", STORE + ":_order_pars")),
                    "observe_at": ["the results returned by the load"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "S05",
        "title": "Saved limit results load back complete",
        "statement": (
            "Loading saved limit results gives the same signal scales, "
            "statistics, best fits and penalty terms of every parameter, "
            "configuration, and the same stored fits at the same scales. "
            "Asking the original and the loaded results the same question "
            "gives the same answer."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all limit results, with stored fits at any subset "
                        "of scales, saved, changed and loaded in any order, "
                        "with errors and crashes in between"),
        "why_tests_cant": (
            "No test saves limit results with stored fits of several "
            "parameters or loads them in another process."),
        "anchors": {"files": [STORE, RES, CONFIG],
                    "mechanism": mech(
                        ("save", STORE + ":dump_limit_results"),
                        ("load", STORE + ":load_limit_results"),
                        ("results", RES + ":LimitResults")),
                    "observe_at": ["the results returned by the load"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "S06",
        "title": "Saved objects of arrays and old files load back complete",
        "statement": (
            "Loading a file that dump_ndarray wrote, in any process, gives "
            "an object with the same attributes every array and value that "
            "was saved (None is not), and leaves its other attributes. If a "
            "save or load fails or the process dies at any point, a later "
            "load gives the complete old contents, the complete new "
            "contents, or an error, and a load that fails leaves the object "
            "as it was. Spectra saved in the layout of older versions load "
            "as the spectra that the files describe."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all objects of arrays, strings and numbers, and all "
                        "old spectrum files, with errors, full disks and "
                        "crashes in saves and loads"),
        "why_tests_cant": (
            "No test saves an object of arrays or loads an old file, and "
            "none interrupts a save."),
        "anchors": {"files": [STORE],
                    "mechanism": mech(
                        ("save", STORE + ":dump_ndarray"),
                        ("load", STORE + ":load_ndarray"),
                        ("old files", STORE + ":_load_old")),
                    "observe_at": ["the object loaded into"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "F01",
        "title": "A fit reports the true minimum over its whole grid",
        "statement": (
            "After a fit, the statistic stored at every grid point is the "
            "one of the inputs at that point: each floating background at "
            "its rate with the global parameters (systematics) applied, "
            "plus all fixed backgrounds and the signal, against the data, "
            "within the region of interest, also when asked for by point, "
            "line or projection; penalties are kept apart. The "
            "reported minimum is the smallest total, and the best fits and "
            "penalty terms are those of that point, whatever the numbers of "
            "parameters, points and bins, the statistic, per bin or not. A "
            "fit that was interrupted can be repeated with the right "
            "result."),
        "quantifier": q(["inputs", "fault_sequences", "histories"],
                        "all combinations of backgrounds, rates, global "
                        "parameters, grids, statistics and regions of "
                        "interest, with interrupts and memory failures "
                        "anywhere in a fit"),
        "why_tests_cant": (
            "The tests of the minimiser use one function of two or three "
            "parameters; no test runs Fit, combines parameters, or repeats "
            "an interrupted fit."),
        "anchors": {"files": [FIT, MIN, RES, SPECTRA],
                    "mechanism": mech(
                        ("function that is minimised", FIT + ":_funct"),
                        ("grid search", MIN + ":GridSearch._minimise, "
                         "find_minimum, get_minimum"),
                        ("results grid", RES + ":FitResults")),
                    "observe_at": ["the fit results of the minimiser",
                                   "best fits of the fit config",
                                   "return value of fit"],
                    "hook_needed": None},
        "level_note": LEVEL + "Convolution with one global parameter is "
        "taken from echidna; its combination and everything else is "
        "recomputed.",
    },
    {
        "id": "F02",
        "title": "A fit depends on its present inputs alone",
        "statement": (
            "The result of a fit is that of a new fitter with the same "
            "inputs: fits made, changed or interrupted earlier, replaced "
            "data, signals, backgrounds, rates, regions of interest or "
            "minimisers, and other fitters that share the same spectra "
            "leave no trace. A fit leaves the spectra that it was given, and "
            "what earlier fits returned, as they were."),
        "quantifier": q(["histories", "fault_sequences"],
                        "all histories of changes, fits and failed fits of "
                        "one or two fitters with shared spectra"),
        "why_tests_cant": (
            "No test runs a Fit, let alone a second one after a change; "
            "caches of convolved spectra and shared objects only show in "
            "histories."),
        "anchors": {"files": [FIT, MIN, SPECTRA],
                    "mechanism": mech(
                        ("caches", FIT + ":_funct, load_pre_made, "
                         "_fixed_pars, _global_dict"),
                        ("changes", FIT + ":set_data, set_signal, "
                         "set_fixed_backgrounds, append_fixed_background, "
                         "set_floating_backgrounds, set_roi, "
                         "remove_signal")),
                    "observe_at": ["results of every completed fit",
                                   "contents of the given spectra"],
                    "hook_needed": None},
        "level_note": LEVEL + "Convolution with one global parameter is "
        "taken from echidna.",
    },
    {
        "id": "F03",
        "title": "A fit with pre-made convolved spectra uses the right file",
        "statement": (
            "With pre-made convolved spectra, every grid point uses the "
            "file for exactly its global parameter values, its background "
            "or signal, from the set directory, scaled to the present rate. "
            "A fit that needs a file that is missing, damaged or unreadable "
            "fails; it never falls back on other contents, and repeated "
            "with the file back it gives the right result. Changing the "
            "directory, signal, its scale or the data takes effect at the "
            "next fit."),
        "quantifier": q(["histories", "fault_sequences", "inputs"],
                        "all grids of global parameters, backgrounds and "
                        "signals, with missing, damaged and unreadable "
                        "files and changed directories"),
        "why_tests_cant": (
            "Nothing tests pre-made spectra: they need a directory with a "
            "file for every grid point."),
        "anchors": {"files": [FIT, STORE],
                    "mechanism": mech(
                        ("file of a grid point", FIT + ":load_pre_made"),
                        ("directory", FIT + ":set_pre_made_dir")),
                    "observe_at": ["results of every completed fit"],
                    "hook_needed": None},
        "level_note": LEVEL + "Spectra names that look like parameter "
        "tokens are excluded; one known finding.",
    },
    {
        "id": "L01",
        "title": "A limit is the one that its statistics define",
        "statement": (
            "Limit setting fits every signal scale of the rate parameter, "
            "minimising over the floating backgrounds, and reports the "
            "first scale, from the one with the smallest raw statistic "
            "on, where the full statistic exceeds that of the fit without "
            "signal (or the given minimum) by more than the threshold, or "
            "raises LimitError if there is none. Recorded statistics, "
            "best fits and penalties are those of each scale. The outcome "
            "depends on the present inputs alone: not on earlier limits, "
            "interruptions, fits, or other limits with the same fitter."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all histories of limits, fits and changes, with "
                        "any thresholds, given minima, scales including "
                        "zero, and interrupts anywhere"),
        "why_tests_cant": (
            "No test sets a limit; what matters shows at the second limit, "
            "after an interrupt or with unusual scales."),
        "anchors": {"files": [LIMIT, FIT, RES],
                    "mechanism": mech(
                        ("loop over scales", LIMIT + ":get_limit, "
                         "get_statistics"),
                        ("results", RES + ":LimitResults")),
                    "observe_at": ["the limit", "the limit results"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "L02",
        "title": "Limit setting stores on disk what it found",
        "statement": (
            "The results file of a completed limit, whether or not a limit "
            "was found, loads back as the results that it reported, under "
            "the given file name or exactly one new file. Stored fits are "
            "those of the scales they are stored for, and are stored if and "
            "only if asked for; stored spectra are the ones that were "
            "fitted. Failed or killed limit setting leaves the files of "
            "completed limits as they were and can be repeated."),
        "quantifier": q(["histories", "fault_sequences", "crash_points"],
                        "all histories of limits with and without stored "
                        "fits and spectra, with disk errors, full disks, "
                        "interrupts and crashes at any point"),
        "why_tests_cant": (
            "No test sets a limit, reads its files or fails a write."),
        "anchors": {"files": [LIMIT, STORE, RES],
                    "mechanism": mech(
                        ("what is stored", LIMIT + ":get_limit"),
                        ("files", STORE + ":dump_limit_results")),
                    "observe_at": ["files loaded by a fresh process"],
                    "hook_needed": None},
        "level_note": LEVEL + "Process death, not power loss.",
    },
    {
        "id": "L03",
        "title": "Limits never overwrite the results of one another",
        "statement": (
            "Limits that are set without a file name, one after another or "
            "at the same time by several processes on hosts that share a "
            "disk, each leave their results in a file of their own, however "
            "fast they follow and whatever the clock does. A failed or "
            "killed process does not affect the results of the others."),
        "quantifier": q(["schedules", "fault_sequences", "histories"],
                        "all interleavings of system calls of several "
                        "processes, stopped and jumping clocks, stalls, "
                        "errors and crashes"),
        "why_tests_cant": (
            "No test sets a limit or runs two processes; the collision "
            "needs two limits within one second or one instant."),
        "anchors": {"files": [LIMIT, STORE],
                    "mechanism": mech(("default file name",
                                       LIMIT + ":get_limit"),
                                      ("save directory",
                                       "echidna/output/__init__.py")),
                    "observe_at": ["files loaded by a fresh process"],
                    "hook_needed": None},
        "level_note": LEVEL + "The shared disk creates files atomically.",
    },
    {
        "id": "C01",
        "title": "Configurations written to YAML load back the same",
        "statement": (
            "A spectral, spectral-fit or global-fit config that was written "
            "to YAML loads back, in any process, with the same parameters, "
            "bounds, bins, scales and (unless only the basics were written) "
            "fit state, under the documented file and config names. A write "
            "that fails, is killed or runs next to another leaves each file "
            "complete, as one of the versions written to it; a reader never "
            "sees anything else. Changing a parameter has the same effect as "
            "making it with the new values."),
        "quantifier": q(["histories", "crash_points", "schedules",
                         "fault_sequences"],
                        "all configs and sequences of changes, writes and "
                        "reads by several processes, some at the same time, "
                        "with errors and crashes at any operation"),
        "why_tests_cant": (
            "No test writes a config, changes a parameter after use, fails a "
            "write or reads a file while it is written."),
        "anchors": {"files": [CONFIG, PARAM, "echidna/util/yaml_loader.py"],
                    "mechanism": mech(
                        ("dictionaries", CONFIG + ":dump, load"),
                        ("files", CONFIG + ":dump_to_file, load_from_file"),
                        ("replacement", "echidna/util/yaml_loader.py:"
                         "ordered_dump_to_file"),
                        ("changes", PARAM + ":set_par, get_values")),
                    "observe_at": ["configs loaded by any process",
                                   "values of parameters"],
                    "hook_needed": None},
        "level_note": LEVEL + "Writers of one file run on one host; process "
        "death, not power loss.",
    },
    {
        "id": "H01",
        "title": "A spectrum stays the histogram of its history",
        "statement": (
            "After any sequence of fills, additions, scalings, cuts, regions "
            "of interest and rebinnings, with restarts in between, a "
            "spectrum has the contents, axes, event and decay counts that a "
            "plain histogram has, whatever the number and order of its axes. "
            "Projections and interpolations show these contents, change "
            "nothing, and their results belong to the caller. A call that is "
            "refused (out of range, unknown axis, axes that do not match) "
            "changes nothing at all."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all sequences of operations on spectra with one to "
                        "three axes in any order, with restarts, interrupts "
                        "and memory failures"),
        "why_tests_cant": (
            "The tests check single operations on one fixed spectrum; they "
            "do not combine them, vary the axes, restart, or look at what a "
            "refused call leaves behind."),
        "anchors": {"files": [SPECTRA, CONFIG, PARAM],
                    "mechanism": mech(
                        ("filling", SPECTRA + ":fill"),
                        ("slicing", SPECTRA + ":shrink, cut, shrink_to_roi"),
                        ("binning", SPECTRA + ":rebin"),
                        ("sums", SPECTRA + ":add, scale"),
                        ("projections", SPECTRA + ":project, nd_project, "
                         "surface, interpolate1d")),
                    "observe_at": ["contents and axes of the spectrum"],
                    "hook_needed": None},
        "level_note": LEVEL + "Cuts are given at bin edges or 10-90% of a "
        "bin, away from the code's 1% tolerance.",
    },
    {
        "id": "H02",
        "title": "A systematic moves events, and makes or loses none",
        "statement": (
            "Scaling, shifting or smearing (weighted) a spectrum gives a new "
            "spectrum with the same axes and decays, whose contents are the "
            "original's moved along that axis only, by the factor, shift or "
            "resolution asked for, with none made, lost or negative; only a "
            "shift by whole bins drops what leaves the axis. The original "
            "and all other spectra are unchanged, and stay so whatever is "
            "done to the result. An interrupted convolution changes nothing "
            "and can be repeated; a reused object gives what a new one "
            "gives."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all chains of convolutions and other operations, "
                        "values, axes and orders of axes, reused objects, "
                        "interrupts and memory failures at any point"),
        "why_tests_cant": (
            "The tests convolve one fixed spectrum once with a new object; "
            "they do not chain, reuse, interrupt or look at other axes."),
        "anchors": {"files": ["echidna/core/scale.py",
                              "echidna/core/shift.py",
                              "echidna/core/smear.py", PARAM, SPECTRA],
                    "mechanism": mech(
                        ("scaling", "echidna/core/scale.py:scale"),
                        ("shifting", "echidna/core/shift.py:shift"),
                        ("smearing", "echidna/core/smear.py:weighted_smear"),
                        ("by parameter", PARAM + ":apply_to")),
                    "observe_at": ["contents of the result and of all other "
                                   "spectra"],
                    "hook_needed": None},
        "level_note": LEVEL + "Scaled and shifted contents are compared with "
        "the documented interpolation, smeared ones with the full kernel.",
    },
    {
        "id": "R01",
        "title": "Random smearing moves every event exactly once",
        "statement": (
            "Smearing at random gives a new spectrum of whole events: each "
            "event of the original appears in it exactly once, in the same "
            "slice of all other axes, unless it left the axis, and where it "
            "goes is distributed as the resolution says. The original is "
            "unchanged, two smearings differ, and an interrupted one changes "
            "nothing and can be repeated."),
        "quantifier": q(["histories", "inputs", "fault_sequences"],
                        "all spectra of whole events, resolutions, axes and "
                        "outcomes of the random draws, with an interrupt or "
                        "memory failure between any two draws"),
        "why_tests_cant": (
            "The test smears one spectrum and looks at its mean and width; "
            "that accepts lost events, other slices and correlated draws."),
        "anchors": {"files": ["echidna/core/smear.py", SPECTRA],
                    "mechanism": mech(
                        ("energy", "echidna/core/smear.py:random_smear"),
                        ("draws", "echidna/core/smear.py:"
                         "calc_smear_ran")),
                    "observe_at": ["contents of the smeared spectrum"],
                    "hook_needed": None},
        "level_note": LEVEL + "Counts are compared at 7 standard deviations; "
        "the draws are seeded by the simulator.",
    },
    {
        "id": "E01",
        "title": "A filled spectrum counts exactly the events selected",
        "statement": (
            "A spectrum filled from event files (ROOT or ntuple), or "
            "extended by further files, counts each event that passes the "
            "documented cuts once, in the bin of its quantities, whatever "
            "else the file holds; num_decays and raw events add up. A file "
            "that is missing or cannot be read is an error, not an empty "
            "one, and a fill or append that failed changes nothing and can "
            "be repeated."),
        "quantifier": q(["inputs", "histories", "fault_sequences"],
                        "all event files, axes, cuts, sequences of fills and "
                        "appends, and read errors, interrupts, memory "
                        "failures and crashes at any entry"),
        "why_tests_cant": (
            "No test fills a spectrum from events: that needs ROOT and rat. "
            "Validity flags, cuts, quantities and read errors combine freely."),
        "anchors": {"files": ["echidna/core/fill_spectrum.py",
                              "echidna/core/dsextract.py", SPECTRA],
                    "mechanism": mech(
                        ("selection", "echidna/core/dsextract.py:"
                         "DSExtract"),
                        ("fill", "echidna/core/fill_spectrum.py:"
                         "fill_from_root"),
                        ("fill ntuple", "echidna/core/fill_spectrum.py:"
                         "fill_from_ntuple")),
                    "observe_at": ["contents and counts of the spectrum"],
                    "hook_needed": None},
        "level_note": LEVEL + "ROOT and rat are stand-ins written from their "
        "documentation.",
    },
    {
        "id": "J01",
        "title": "The conversion scripts make the file they document, nothing "
                 "else",
        "statement": (
            "Each script that converts files (scale, shift, smear, shrink, "
            "rebin, combine, dump from ROOT or ntuple files) leaves, at the "
            "documented place, the documented transformation of its input, "
            "and leaves every other file as it was. Hit by an error or "
            "killed, it leaves no wrong output and (unless killed) says that "
            "it failed; run again, it succeeds. Two at once do not affect "
            "each other."),
        "quantifier": q(["inputs", "schedules", "fault_sequences",
                         "crash_points"],
                        "all input files and options, two scripts at once in "
                        "any interleaving, disk errors, interrupts and kills "
                        "at any file operation"),
        "why_tests_cant": (
            "No test runs a script; where a script fails depends on the "
            "form of its paths, on faults and on what other scripts do."),
        "anchors": {"files": ["echidna/scripts/dump_scaled.py",
                              "echidna/scripts/dump_shifted.py",
                              "echidna/scripts/dump_smeared.py",
                              "echidna/scripts/dump_smeared_energy.py",
                              "echidna/scripts/dump_shrink.py",
                              "echidna/scripts/rebin.py",
                              "echidna/scripts/combine_hdf5.py",
                              "echidna/scripts/dump_spectra_root.py",
                              "echidna/scripts/dump_spectra_ntuple.py",
                              "echidna/scripts/multi_ntuple_spectrum.py",
                              STORE],
                    "mechanism": mech(
                        ("script", "echidna/scripts/dump_scaled.py:main"),
                        ("dump", STORE + ":dump")),
                    "observe_at": ["files on the disk", "messages"],
                    "hook_needed": None},
        "level_note": LEVEL + "The transformations themselves are judged in "
        "H01, H02, R01 and E01.",
    },
    {
        "id": "V01",
        "title": "What is refused is always refused, and changes nothing",
        "statement": (
            "Calls that cannot be carried out (spectra: values, cuts, axes, "
            "bins or summands that do not fit; parameters: unknown names, "
            "bins out of range, a use before a value is set; configs: unknown "
            "parameters, types or keys; systematics: impossible factors and "
            "resolutions, axes that are not there; results: wrong shapes, "
            "types and indices; statistics: data that do not match; fits and "
            "limits: regions of interest, spectra, configs or arrays that do "
            "not fit, incomplete fitters; isotopes: impossible fractions, "
            "radii, masses and livetimes) raise the documented error, "
            "whatever was called before. The objects of the call, and all "
            "others, are then exactly as before it: every later call gives "
            "what it would have given without the refused one. In particular "
            "a call with several parts (parameters, cuts, spectra) of which "
            "one is refused carries out none of them."),
        "quantifier": q(["inputs", "histories", "fault_sequences"],
                        "all mixtures of valid, interrupted and refused calls "
                        "on objects that live through them"),
        "why_tests_cant": (
            "The tests check for some errors that they are raised, on a fresh "
            "object with one wrong argument; none looks at the object after "
            "the error, or uses it again."),
        "anchors": {"files": [SPECTRA, "echidna/core/parameter.py",
                              "echidna/core/config.py",
                              "echidna/core/scale.py",
                              "echidna/core/shift.py",
                              "echidna/core/smear.py", FIT, MIN,
                              "echidna/fit/test_statistic.py",
                              "echidna/limit/limit.py",
                              "echidna/calc/decay.py"],
                    "mechanism": mech(
                        ("cuts", SPECTRA + ":Spectra.shrink, rebin, add"),
                        ("parameters", "echidna/core/parameter.py:"
                         "FitParameter.set_par"),
                        ("fitter", FIT + ":check_roi, check_spectra, "
                         "check_fitter"),
                        ("results", MIN + ":GridSearch.set_stats")),
                    "observe_at": ["exceptions", "the objects afterwards",
                                   "results of later calls"],
                    "hook_needed": None},
        "level_note": LEVEL + "Spectra passed to a fitter with shrinking may "
        "be left cut to the region of interest by a refused call.",
    },
    {
        "id": "U01",
        "title": "The log of a run holds all its messages and no others",
        "statement": (
            "A process that starts logging has a log file in the configured "
            "directory, its own unless a short name was asked for, which "
            "holds every message of every level and (if asked for) every "
            "warning, in order, once, with its level; the terminal shows "
            "those of the configured level and above. Starting again, other "
            "processes and hosts, restarts, kills and a disk that cannot be "
            "written do not lose, repeat or mix earlier or later messages, "
            "and never stop the work that logs. In cautious mode a "
            "UserWarning is raised, otherwise it never stops anything."),
        "quantifier": q(["histories", "schedules", "fault_sequences"],
                        "all orders of starts, messages, warnings, restarts "
                        "and kills of processes on several hosts, all "
                        "settings, with write errors and full disks"),
        "why_tests_cant": (
            "No test starts logging; the interplay of processes, restarts "
            "and failing disks does not occur in one test process."),
        "anchors": {"files": ["echidna/utilities.py", "echidna/settings.py"],
                    "mechanism": mech(
                        ("set up", "echidna/utilities.py:start_logging"),
                        ("formats", "echidna/utilities.py:"
                                    "DispatchingFormatter")),
                    "observe_at": ["log files", "terminal output"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "P01",
        "title": "Plots show what they are given and change none of it",
        "statement": (
            "Every plot of a projection, a surface, several spectra with "
            "their sums, or of the statistics, best fits and penalty terms of "
            "fit and limit results shows, with matplotlib and with ROOT, the "
            "contents its arguments have at that time: each value once, in "
            "its own bin or at its own point of the right axis, and the sums "
            "and bands that follow from them. Making, showing, interrupting "
            "or repeating a plot, or a plot that fails, changes none of the "
            "spectra and results it was made of. Spectra whose ranges or "
            "bins differ along the plotted dimension are refused."),
        "quantifier": q(["inputs", "histories", "fault_sequences"],
                        "all spectra (axes in any order), fit and limit "
                        "results, histories of changes and plots with both "
                        "back ends, interrupts while a plot is made or waits "
                        "for the user"),
        "why_tests_cant": (
            "No test makes a plot; that plotting writes into the results it "
            "shows is seen only by what is done with them afterwards."),
        "anchors": {"files": ["echidna/output/plot.py",
                              "echidna/output/plot_root.py",
                              "echidna/fit/fit_results.py"],
                    "mechanism": mech(
                        ("matplotlib", "echidna/output/plot.py:spectral_plot"),
                        ("surface", "echidna/output/plot.py:plot_surface"),
                        ("ROOT", "echidna/output/plot_root.py:spectral_plot"),
                        ("results", "echidna/output/plot_root.py:"
                         "plot_sigma_best_fit_vs_scale")),
                    "observe_at": ["contents of the histograms, graphs and "
                                   "figures that are drawn", "the plotted "
                                   "objects before and after"],
                    "hook_needed": None},
        "level_note": LEVEL,
    },
    {
        "id": "D01",
        "title": "Conversions between counts, half-life and mass are inverse",
        "statement": (
            "Conversions between counts, activities, half-lives and effective "
            "masses follow the documented formulas and are inverse to one "
            "another."),
        "quantifier": q(["inputs"], "all isotopes and values"),
        "why_tests_cant": "The tests compare a few published values.",
        "anchors": {"files": ["echidna/calc/decay.py"],
                    "mechanism": mech(
                        ("conversions", "echidna/calc/decay.py:DBIsotope")),
                    "observe_at": ["return values"], "hook_needed": None},
        "not_applicable": (
            "Pure arithmetic on the arguments: no state, clock, I/O, "
            "randomness or schedule for a simulator to decide. (That "
            "impossible arguments are refused is in V01.)"),
    },
]
