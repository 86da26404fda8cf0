#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the file has one readable source)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

S = "src/wam2layers/"
FT, BT, CORE, IO = S+"tracking/forwardtrack.py", S+"tracking/backtrack.py", S+"tracking/core.py", S+"tracking/io.py"
PS, ERA, CMIP, ARCO = S+"preprocessing/shared.py", S+"preprocessing/era5.py", S+"preprocessing/cmip.py", S+"preprocessing/arco.py"
PL, VAL, APP, PU = S+"preprocessing/pressure_levels.py", S+"preprocessing/input_validation.py", S+"preprocessing/xarray_append.py", S+"preprocessing/utils.py"
CFG, CLI, DL, CAL, GRID, PROF, SHP = S+"config.py", S+"cli.py", S+"download.py", S+"utils/calendar.py", S+"utils/grid.py", S+"utils/profiling.py", S+"utils/shapefile_mask.py"

prop("C01", "An interrupted tracking run continues exactly after a restart",
 "Whatever instant a tracking run (forward or backward) is killed at, running it again with `restart: true` from the last complete output makes every remaining output equal, within single-precision rounding, to what one uninterrupted run writes, and the outputs written before the kill stay usable and unchanged. This holds for any number of successive kills and restarts, and also when a finished run is extended to a later (backward: earlier) date.",
 ["crash_points", "histories", "configurations"],
 "every kill instant (between and inside file writes), every chain of kill/restart, both directions, all grids, calendars, timesteps, output frequencies and tagging settings",
 "No test ever sets restart: true or interrupts a run; the claim quantifies over every kill instant and chain of restarts.",
 [FT, BT, IO, CFG], [("restart state reload", FT+" initialize / "+BT+" initialize"), ("state stored in every output file", IO+" write_output")],
 [("s_track_upper_restart/s_track_lower_restart", "tracked moisture in the two layers at the output time", "output files")],
 ["output NetCDF files"])

prop("C02", "Tagged moisture is conserved across all outputs, restarts and crashes",
 "Over any consecutive set of outputs, the area-weighted total of tagged moisture plus numerically gained water equals the tracked moisture, the reported losses (boundary transport included) and the change of tracked storage in the two layers, to rounding. The balance also closes over the whole output set of a run that was killed and restarted any number of times.",
 ["inputs", "histories", "crash_points", "configurations"],
 "all forcings (weak to CFL-violating and zero fluxes), domains (regional, sub-domain, periodic, rolled), both directions, and all histories of kills and restarts",
 "The regression tests compare one stored output file; none sums a budget, and none covers a multi-output or restarted history.",
 [CORE, FT, BT, GRID], [("donor-cell fluxes telescope", CORE+" horizontal_advection"), ("losses/gains book-keeping", FT+" forwardtrack / "+BT+" backtrack"), ("accumulators flushed after each output", FT+" run_experiment")],
 [("tagged_*/p_track_*/e_track/losses/gains", "accumulations since the previous output", "output files")], ["output NetCDF files"])

prop("C03", "Tracked fields stay finite and within physical bounds",
 "For finite forcing with positive storages, every value in every output is finite; tracked storage in each layer lies between zero and the total moisture of that layer at the output time and is zero on the open domain boundary. Tagged and tracked amounts, losses and gains are never negative, tracked precipitation (forward) or evaporation (backward) never exceeds the total that fell or evaporated in the same cell and output interval, and tagged amounts never exceed the total flux in the tagging region.",
 ["inputs", "histories", "crash_points"],
 "all finite forcings including exactly-zero and very strong fluxes, dry layers, any run length and any kill/restart history, at every output of the run",
 "Tests use one small ERA5 sample in which no flux is exactly zero and check one output; the bound is an invariant over all steps and histories.",
 [CORE, FT, BT], [("CFL limiter", CORE+" stabilize_fluxes"), ("vertical flux limiter", CORE+" calculate_fz"), ("overshoot redistribution and clipping", FT+" forwardtrack / "+BT+" backtrack")],
 [], ["output NetCDF files"])

prop("C04", "Every model step is accounted in exactly one output, at the right time",
 "A tracking run writes one output for each output-frequency boundary reached by the model clock plus one for its last step, named and time-stamped with exactly that time and no others, in any supported calendar and across day, month, leap-day and year ends. Each output holds the accumulation of exactly the steps since the previous one, so totals over any common period do not depend on the output frequency or on where the run was killed and restarted. The bounds stored with an output are those of its period (where that is a full output interval) and of its grid cells.",
 ["configurations", "histories", "crash_points"],
 "all calendars, start/end dates, timesteps, input and output frequencies (dividing or not), both directions, and all kill/restart histories",
 "Tests run a single short case per direction on one calendar and look at one output file.",
 [FT, BT, IO, CAL, S+"tracking/shared.py"], [("step loop and output test", FT+" run_experiment / "+BT+" run_experiment"), ("calendar-aware rounding", CAL+" round_cftime"), ("flush after write", FT+" run_experiment")],
 [], ["set of output files", "their time coordinate", "their accumulations"])

prop("C05", "Moisture is tagged exactly within the tagging window and region",
 "In each step whose starting time (in tracking direction) lies in the tagging window, both ends included, the tagged amount equals the evaporation (forward) or precipitation (backward) of that step times the region's weight in each cell, and it is zero in every other step and cell. This holds for bounding boxes (also across the date line), static and time-varying mask files and shapefiles, in the full domain or a cut-out, and a restart neither repeats, skips nor shifts tagging.",
 ["configurations", "histories", "crash_points"],
 "all tagging windows relative to the run, all region kinds and domains, both directions, all kill/restart histories",
 "Tests use one static mask per direction with a window covering the whole run, and never restart.",
 [FT, BT, IO, S+"tracking/shared.py", SHP], [("window test", FT+" run_experiment / "+BT+" run_experiment"), ("bounding-box mask", S+"tracking/shared.py initialize_tagging_region"), ("mask files and shapefiles", IO+" load_tagging_region")],
 [], ["tagged_evap / tagged_precip in output files"])

prop("C06", "Forcing seen by the model equals the stored data at that time and place",
 "The fluxes and storages used for any model time are the stored values at that time, or the linear interpolation between the two neighbouring stored times, restricted to the requested tracking domain in unbroken longitude order. They never depend on what was read before, on values the model changed in memory, on how often a read was retried, on the order in which a directory is listed, or on earlier runs in the same process over data that has since been regenerated.",
 ["histories", "inputs", "fault_sequences"],
 "all read histories (times, variables, sub-domains, runs in one process), all calendars and input frequencies, all sub-domains, with transient read faults in between",
 "Unit tests read a couple of slices once; caching, aliasing and data that changes between runs need histories.",
 [IO, CAL], [("slice cache with defensive copy", IO+" load_slice / _load_slice_with_cache"), ("time interpolation", IO+" load_data"), ("domain cut-out", IO+" select_subdomain")],
 [("slice cache", "recently read slices", IO+" _load_slice_with_cache")], ["fields returned by the forcing reader", "tracking outputs"])

prop("C07", "Transient remote read failures are retried with bounded back-off, others surface",
 "When forcing is read over OPeNDAP, a read that fails transiently (the spurious time-decoding index error) is retried up to 8 times with exponentially growing, jittered delays of 0.5-1 s doubling each time, and a run whose failures stop within that budget gives exactly the outputs of a fault-free run. A read that keeps failing, or fails for another reason, ends the command with that error within about five minutes of waiting and is never replaced by missing, partial or stale data. Once the server answers again, continuing from the last output gives the results of an undisturbed run.",
 ["fault_sequences", "schedules"],
 "every placement, number and kind of read failures during a run, under every jitter value, judged on simulated time",
 "No test injects a read failure or controls the clock; real delays add up to minutes.",
 [IO], [("retry loop", IO+" read_or_retry")], [("retry counter and delay", "progress of the back-off", IO+" read_or_retry")], ["sleeps on the simulated clock", "number of opens", "exit status", "outputs"])

prop("C08", "Commands running at the same time do not disturb each other",
 "Any number of tracking and preprocessing commands started at the same time, reading the same preprocessed data and writing to their own (possibly not yet existing, possibly nested) folders, or a forward and a backward experiment writing to one folder, each finish with exit status 0 and the same results as when run alone, whatever the interleaving. Killing one of them never affects another.",
 ["schedules", "crash_points"],
 "all interleavings of the file-system operations of two or three concurrent commands, including concurrent creation of a shared parent folder, and kills of any one of them",
 "Tests run commands one after another; interleavings are never controlled.",
 [CFG, CLI, IO, PS], [("folder creation", CFG+" Config._make_dir"), ("read-only use of shared input", IO+" _load_slice_with_cache")], [], ["exit status of every command", "files written"])

prop("C09", "An interrupted preprocessing run is fully repaired by running it again",
 "If preprocessing is killed at any instant, or fails on a storage fault, running the same command again once the fault is gone gives preprocessed files equal to those of an undisturbed run: no missing, duplicated, stale or misplaced record, and days already complete stay correct. Preprocessing again over existing complete output likewise reproduces it.",
 ["crash_points", "fault_sequences", "histories"],
 "every kill instant and storage fault in a preprocessing run, in sequential and parallel mode, and every chain of them, for each supported input kind",
 "Tests preprocess into an empty folder, once, undisturbed.",
 [PS, APP], [("day file is rewritten from its first record", PS+" preprocess"), ("record append", APP+" append_to_netcdf")], [("time dimension of day files", "records written so far", "preprocessed files")], ["preprocessed NetCDF files"])

prop("C10", "Parallel preprocessing equals sequential preprocessing under every schedule",
 "With `parallel_preprocess: true` the preprocessed files are identical in content to those of the sequential mode, whatever the number of workers and however the workers are scheduled. If any worker fails, the command fails with that error instead of reporting success; if a worker is killed (for example because the system ran out of memory), the command ends with an error as well, instead of reporting success or waiting for ever.",
 ["schedules", "configurations", "fault_sequences"],
 "all assignments and interleavings of worker processes, worker counts, day counts, and failures or deaths of any worker",
 "The tests run the parallel mode once on an uncontrolled schedule without failures.",
 [PS, ERA, CMIP], [("one task per day", PS+" parallel_preprocess / group_timestamps_by_day"), ("per-process input caches", ERA+" open_da")], [], ["preprocessed NetCDF files", "exit status"])

prop("C11", "The preprocessed store holds each requested time once, correctly derived",
 "After a successful preprocessing of ERA5, ARCO-ERA5 or CMIP data the day files hold every requested time exactly once, in order, in the file of its own day, and every record equals, to single precision (pressures to the whole Pascal), the documented derivation from the raw input of that same time: layer storages and fluxes as vertical integrals split at the configured layer boundary (scaled to total column water when given), and precipitation and evaporation as non-negative rates with condensation moved to precipitation. Coordinates follow the convention the tracker relies on: decreasing latitude, increasing longitude within -180..180, calendar preserved.",
 ["inputs", "configurations", "histories"],
 "all calendars, period boundaries, input frequencies, level types and selections, raw files per day or per period, with or without total column water, in any order of processing",
 "Regression tests compare a single day of one ERA5 sample; multi-day histories, other calendars and the CMIP and ARCO paths are not compared with an independent derivation.",
 [PS, ERA, CMIP, ARCO, PL, PU], [("time list and day grouping", PS+" get_input_dates / group_timestamps_by_day"), ("vertical integration", PS+" preprocess"), ("sign conventions", ERA+" preprocess_precip_and_evap / "+CMIP+" get_input_data")], [], ["preprocessed NetCDF files"])

prop("C12", "Missing or invalid input stops the command and is never stored as data",
 "If raw input or forcing needed for some time is missing, unreadable, lacks a variable, dimension or time, or contains missing values, the command exits with a non-zero status naming the problem before a record or output for that time is written. Everything written for earlier times is correct and complete, and rerunning once the input is available gives the full correct result.",
 ["inputs", "histories", "fault_sequences"],
 "every kind of defect, at every time of the period and in every variable, in preprocessing (sequential, parallel) and tracking, and its later repair",
 "Tests feed the validator a few broken datasets directly; none checks what is left on disk when a defect appears in the middle of a run.",
 [VAL, PS, IO, ERA, CMIP], [("input validation before every record", VAL+" validate_input"), ("exact time selection", IO+" _load_slice_with_cache / "+ERA+" load_data")], [], ["exit status", "files on disk"])

prop("C13", "Storage faults are never reported as success and spare earlier results",
 "When writing results meets a full disk, an I/O error on a write, truncate or close, or a lost connection to storage, the command ends with a non-zero exit status; whenever it ends with status 0, every file it was to write is complete and correct, short or interrupted writes included. Outputs of earlier times stay intact in every case.",
 ["fault_sequences", "crash_points"],
 "every position and kind of storage fault in a tracking, preprocessing or download command",
 "No test makes a write fail.",
 [IO, PS, APP, DL], [("errors propagate from the writer", IO+" write_output / "+PS+" preprocess"), ("record append", APP+" append_to_netcdf")], [], ["exit status", "files on disk"])

prop("C14", "A download is complete and exact or fails, and overwrites nothing",
 "Downloading an example case either stores every file of the case with exactly the bytes the server holds, decoded from any transport encoding, and exits with status 0, or it exits with a non-zero status; an HTTP error page, a truncated body or a failed connection is never stored as a successfully downloaded file. An existing target folder is never written to or changed, also when two downloads of the same case start at the same time.",
 ["fault_sequences", "schedules"],
 "every placement and kind of HTTP, connection and disk fault over all requests of a download, and all interleavings of two downloads",
 "The download tests need the network and cover only the fault-free path.",
 [DL, CLI], [("target folder must not exist", DL+" create_target_directory"), ("streamed copy", DL+" download")], [], ["exit status", "downloaded files"])

prop("C15", "Results do not depend on clock, directory order, randomness or process history",
 "The scientific content of preprocessed files and tracking outputs is a function of configuration and input data only: wall-clock time and jumps of the clock, order in which directories list their entries, random-number state, hash seeds, working directory, and other commands run earlier in the same process have no influence on it.",
 ["schedules", "histories", "configurations"],
 "all clock values and jumps, directory orders, random states, hash seeds, working directories and sequences of earlier commands in one process",
 "Tests run with one clock, one directory order, and mostly one command per process.",
 [IO, CLI, CMIP, ERA, PS, S+"preprocessing/utils.py"], [("caches keyed by their inputs", IO+" _load_slice_with_cache / "+ERA+" open_da / "+CMIP+" open_var"), ("time stamps only in history and log", IO+" get_main_attrs")], [], ["data variables and coordinates of all written files"])

prop("C16", "Tracking implements the documented two-layer scheme in every history",
 "At every output, tracked storage and all accumulations equal, within single-precision rounding accumulated over the steps, those of the documented two-layer Eulerian scheme: donor-cell horizontal transport limited by the CFL criterion, upwind vertical transport closing the moisture balance of the two layers, with the configured extra dispersive exchange, precipitation and evaporation applied in proportion to relative tracked moisture, and book-keeping of boundary transport, losses and gains. This holds step after step, also after restarts.",
 ["inputs", "configurations", "histories", "crash_points"],
 "all forcings, grids (also with different spacing in the two directions), periodic or open domains, parameters, both directions, all lengths of run and restart histories",
 "Two regression files fix two particular outputs on one square grid; most terms (limiter, overshoot, periodic edge, negative vertical flux) can change without touching them.",
 [CORE, FT, BT, GRID, "docs/theory.md"], [("advection", CORE+" horizontal_advection"), ("vertical exchange", CORE+" calculate_fz / vertical_advection / vertical_dispersion"), ("grid geometry", GRID+" get_grid_info / stagger_x / stagger_y")], [], ["output NetCDF files"])

prop("C17", "Every result carries the configuration that reproduces it",
 "Each tracking output embeds its configuration and each command leaves a copy of its configuration file and a log in its result folder; running again from either configuration, at any later time, in the same or a fresh process, succeeds and reproduces the same outputs. An embedded configuration also does so from another working directory. Running a command from the archived copy inside the result folder never damages or truncates that copy.",
 ["histories", "configurations", "crash_points"],
 "all valid configurations (calendars, region kinds, optional settings), all sequences of run, rerun from embedded configuration and rerun from archived copy, also after kills",
 "Tests check that attributes and copies exist, not that they reproduce the run.",
 [CLI, CFG, IO], [("configuration embedded in outputs", IO+" get_main_attrs / "+CFG+" Config.to_string"), ("archived copy", CLI+" _copy_config_yaml")], [], ["WAM2Layers_config attribute", "archived yaml", "outputs of the rerun"])

prop("C18", "A crash never leaves a partial file that is taken for a complete one",
 "If a tracking run is killed at any instant, including inside a write, every output file found under its final name is complete and correct (that of this run or, untouched, that of an earlier one): a restart or a later reader never continues from an empty, truncated or partly filled file. The same holds for the preprocessed day files used by a later tracking run: each day file present holds every requested time of its day, and tracking over days that are missing fails instead of using fill values.",
 ["crash_points", "fault_sequences"],
 "every kill instant and torn write in tracking and preprocessing, followed by restart, rerun or tracking on what is left",
 "No test interrupts a write.",
 [IO, PS, APP], [("output file creation", IO+" write_output"), ("day file creation and append", PS+" preprocess / "+APP+" append_to_netcdf")], [], ["files on disk after the kill", "behaviour of restart and tracking on them"])

prop("C19", "Reported progress agrees with the moisture ledger",
 "At each output a tracking run logs the tracked, in-atmosphere, boundary, lost and gained percentages of the moisture tagged so far, and these equal the cos(latitude)-weighted totals of what it has written so far in this run, to the printed precision. In a run that starts from empty storage the logged closure is 100% within rounding for every forcing, so that a deviation always means a real imbalance.",
 ["inputs", "histories", "configurations"],
 "all forcings (also with numerical gains), domains, directions, output frequencies and lengths of run",
 "No test reads the log contents.",
 [PROF, FT, BT], [("running totals", PROF+" ProgressTracker")], [("tracked/lost/gained/boundary totals", "sums over outputs so far", PROF+" ProgressTracker")], ["log lines", "output NetCDF files"])

prop("C24", "Preprocessing and tracking together always reach the undisturbed result",
 "Running preprocessing and then tracking gives, for any raw data, the outputs of the documented tracking scheme applied to the documented derivation from that raw data. However the commands of this chain are killed, interrupted, hit by storage faults, started too early or at the same time, repeated, or run again after the raw data was replaced, a tracking command over what preprocessing has left either stops with a non-zero status or writes exactly the outputs of the undisturbed chain; and once preprocessing and tracking (restarted from its last complete output) have been run to the end, all outputs equal those of the undisturbed chain.",
 ["inputs", "crash_points", "fault_sequences", "schedules", "histories"],
 "all raw data sources, all tracking experiments over them, all histories of interrupted, overlapping and repeated commands",
 "Tests run each command once, alone, on its own prepared input; no test feeds freshly preprocessed data to the tracker.",
 [PS, ERA, CMIP, ARCO, IO, FT, BT, APP], [("day files written and replaced", PS+" write_output"), ("day files read by the tracker", IO+" load_data"), ("restart from an output", FT+" initialize")],
 [("preprocessed day files", "records of one day", "preprocessed_data_folder")], ["output NetCDF files", "exit status"])

prop("C25", "Limited transport is always reported, with the field it concerns",
 "In every step and layer where the CFL criterion reduces the meridional transport more strongly (by 10%) than reported before in this run, or in more than 5% of the grid and in 10% more cells than reported before, the tracking run logs one warning giving the share of the grid, the mean and the strongest correction factor of exactly that step and layer, and leaves that field of factors in a debug file named after the time of the step (of the last warning, when both layers warn). No other step or layer causes a warning, so a run without warnings was not limited beyond these bounds. This holds step after step, also after kills and restarts.",
 ["inputs", "histories", "crash_points"],
 "all forcings, directions, time steps, domains and lengths of run, all histories of kills, restarts and extensions",
 "Whether a step warns depends on all earlier steps of the run; no test looks at a warning or a debug file.",
 [PROF, CORE, FT, BT], [("criteria and debug file", PROF+" track_stability_correction"), ("the limiter", CORE+" stabilize_fluxes")],
 [("previous strongest factor and share", "what was reported so far in this run", PROF+" ProgressTracker")], ["log lines", "debug/stability_correction_*.nc"])

prop("C26", "Open files and memory do not grow with the length of a run",
 "Tracking years of data, or preprocessing them, needs no more open files and (for tracking) no more memory late in the run than early in it: whatever the number of time steps, of input files, of outputs written and of failed and repeated remote reads, each instant at which a result is written finds the process holding a bounded set of files open, and resident memory that has stopped growing.",
 ["inputs", "faults", "histories"],
 "all forcings, file layouts, sources, regions, lengths of run and histories of failed reads",
 "A leak of one slice or one file per step passes every test, which run a handful of steps; it ends a run of weeks with an out-of-memory kill or 'Too many open files'.",
 [IO, FT, BT, ERA, CMIP], [("slice cache", IO+" _load_slice_with_cache, fully_load_and_detach"), ("file cache", ERA+" open_da")],
 [("cached slices", "at most six", IO+" _load_slice_with_cache"), ("cached files", "at most sixteen", ERA+" open_da")], ["open descriptors and resident memory of the process"])

prop("C20", "Configuration validation accepts exactly the documented settings",
 "A configuration is accepted exactly when its bounding boxes, dates, calendars and options are valid and consistent, and exporting and re-reading a configuration gives an equal configuration.",
 ["inputs"], "all configuration files",
 "Tests sample a few invalid settings.", [CFG, CAL], [("validators", CFG+" Config")])

prop("C21", "Shapefile regions are converted to exact area-fraction masks",
 "The mask derived from a shapefile holds, in every grid cell, the fraction of that cell covered by the polygon.",
 ["inputs"], "all polygons and grids", "Tests use a single polygon.", [SHP], [("box intersection", SHP+" create_mask")])

prop("C22", "Humidity and level formulas match the ECMWF definitions",
 "Specific humidity from dew point and surface pressure, pressure thickness of any subset of ERA5 model levels, and accumulation-to-flux conversion follow the documented ECMWF formulas.",
 ["inputs"], "all temperatures, pressures, level subsets and frequencies", "Tests sample a few values.", [PU, ERA], [("formulas", PU+" calculate_humidity / accumulation_to_flux; "+ERA+" get_dp_modellevels")])

prop("C23", "Figures show the fields that were preprocessed and tracked",
 "The visualisation commands draw the accumulated input and tracked fields of the configured period on the right map positions.",
 ["inputs", "configurations"], "all configurations with outputs", "Tests compare a few images and need cartopy.", [S+"analysis/visualization.py"], [("plotting", S+"analysis/visualization.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
