"""Source of properties.jsonl and MANIFEST.json (python3 properties.py rewrites both)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, check=None, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, check=check, na=na, note=note))


prop("C01", "A configuration and seed fully determine the run",
     "Two runs with the same configuration and random seed have bit-identical model state after every "
     "update and write identical output records, whatever the wall clock, system entropy, other random "
     "generators, models run earlier in the same process, or observation options (saved grids and figures, "
     "save and checkpoint intervals, verbosity) are. If no seed is given, the seed that was drawn is reported "
     "by the model and recorded in its log, and running with that seed reproduces the run exactly. A given "
     "seed is the one used and recorded.",
     ["inputs", "configurations", "histories"],
     "all configurations, seeds, numbers of updates, clocks, entropy values and preceding in-process activity",
     "The tests compare a few fixed seeds with stored numbers in one process; they do not vary clock, entropy, "
     "earlier activity or output options against the same seed.",
     ["pyDeltaRCM/init_tools.py", "pyDeltaRCM/shared_tools.py", "pyDeltaRCM/water_tools.py",
      "pyDeltaRCM/sed_tools.py", "pyDeltaRCM/iteration_tools.py"],
     [("seed drawn/recorded/applied at construction", "init_tools.determine_random_seed"),
      ("single JIT generator for every draw", "shared_tools.set_random_seed/get_random_uniform")],
     ["model fields, time, sea level and generator state after each update", "output file", "log"],
     "c01_seed")

prop("C02", "Stopping and resuming from checkpoints does not change the run",
     "A run that is stopped, abandoned or killed at any point any number of times, and each time resumed from "
     "its latest checkpoint, goes through exactly the states of the uninterrupted run: immediately after a "
     "resume and after every later update, all grids, model time, timestep count, sea level and the random "
     "generator equal those of the uninterrupted run at the same timestep, bit for bit.",
     ["crash_points", "histories", "configurations"],
     "all interruption histories (including resumes of resumes), checkpoint intervals and configurations",
     "The tests resume once, cleanly, for a handful of configurations, mostly with checkpoints at every step.",
     ["pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/init_tools.py", "pyDeltaRCM/model.py"],
     [("checkpoint contents", "iteration_tools.save_the_checkpoint"),
      ("checkpoint loading", "init_tools.load_checkpoint")],
     ["model fields, time, sea level and generator after each update of the resumed run"],
     "c02_resume")

prop("C03", "A crash or I/O error never costs more than the last checkpoint interval",
     "While checkpointing is on, a process kill, torn write, I/O error or full disk at any file operation leaves "
     "a complete, loadable checkpoint holding the state of one completed timestep, whenever one had been "
     "completed before. After every update that returns, the checkpoint on disk is less than one checkpoint "
     "interval of model time old, so a resume repeats no more than that.",
     ["crash_points", "fault_sequences", "histories"],
     "every file operation of a run, every fault kind there, fresh and resumed runs, all checkpoint intervals",
     "No test interrupts a write or makes one fail; tests only look at the checkpoint after a clean run.",
     ["pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/init_tools.py"],
     [("write to a temporary file, then rename", "iteration_tools.save_the_checkpoint"),
      ("interval accounting", "iteration_tools.output_checkpoint, model.update")],
     ["checkpoint.npz", "the resumed model"],
     "c03_checkpoint")

prop("C04", "Output records are complete, truthful and durable",
     "The output file holds one record for the initial state and one for each first timestep at which at least "
     "the save interval of model time has passed since the previous record, in order, and no others. Each record "
     "holds, for every requested grid and for time and each time-varying metadata value, exactly the (single "
     "precision) model state at that time, with coordinates, fixed metadata and units complete. Requested figures "
     "are made with the records, and switching one on or off during a run acts from the next timestep on. A record is "
     "readable by another process as soon as the update that produced it has returned, even if the process is "
     "killed right after.",
     ["configurations", "histories", "crash_points"],
     "all combinations of saved variables, save intervals (also shorter than a timestep), both file layouts, "
     "custom variables, and every kill point between updates",
     "Tests read a few variables of a few finished runs with one or two save intervals.",
     ["pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/init_tools.py", "pyDeltaRCM/model.py"],
     [("save schedule", "iteration_tools.output_data"), ("record writing and sync",
                                                         "iteration_tools.save_grids_and_figs"),
      ("file layout", "init_tools.init_output_file")],
     ["pyDeltaRCM_output.nc", "figure files"],
     "c04_records")

prop("C05", "Resuming neither loses, repeats nor damages saved output",
     "After any history of interruptions and resumes the output file of a completed run equals that of the "
     "uninterrupted run: the same records at the same times with the same values, and the same variables, "
     "coordinates, fixed metadata, units and attributes (except the creation time). A crash at any point while a "
     "run is being resumed never loses records already saved.",
     ["crash_points", "histories", "configurations"],
     "all interruption histories and save/checkpoint interval combinations; every file operation of a resume",
     "Tests resume once with equal intervals and check lengths of a few variables; nothing interrupts a resume.",
     ["pyDeltaRCM/init_tools.py", "pyDeltaRCM/iteration_tools.py"],
     [("copying the output file at resume", "init_tools.load_checkpoint"),
      ("save counters in the checkpoint", "iteration_tools.save_the_checkpoint")],
     ["pyDeltaRCM_output.nc"],
     "c05_resume_output")

prop("C06", "A failed save is never silent",
     "If storage fails while a model is initialised, updated or finalised (I/O errors, full disk, short writes), "
     "then either the call raises or an error is logged, or everything that call should have stored is on disk "
     "and correct. A storage failure never changes the state the model computes, and never stores a record or "
     "checkpoint with wrong values that looks complete.",
     ["fault_sequences", "crash_points"],
     "every file operation of a run, transient and persistent EIO/ENOSPC and short writes",
     "No test makes a file operation fail.",
     ["pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/init_tools.py", "pyDeltaRCM/model.py"],
     [("errors propagate from save and sync", "iteration_tools.save_grids, save_grids_and_figs"),
      ("errors at close are logged", "model.finalize")],
     ["exceptions", "log", "output file and checkpoint"],
     "c06_save_failure")

prop("C07", "Every job of a multi-job run equals running its configuration alone",
     "A matrix, set or ensemble specification runs exactly one job per parameter combination, each in its own "
     "numbered folder, and the parameter table and each job's configuration file state the parameters and seed "
     "that job really used. Each job's states and output equal those of running its configuration alone, bit for "
     "bit, whether jobs run serially or in parallel, however many there are, in any order, and with any "
     "interleaving.",
     ["schedules", "configurations", "histories"],
     "all multi-job specifications, serial and parallel, all interleavings of jobs",
     "Tests run a few small expansions once under the operating system's schedule and compare counts and names.",
     ["pyDeltaRCM/preprocessor.py", "pyDeltaRCM/shared_tools.py"],
     [("expansion", "preprocessor.BasePreprocessor._expand_matrix/_expand_set/_expand_ensemble"),
      ("per-job generator state", "preprocessor._BaseJob, _SerialJob.run, _ParallelJob.run")],
     ["job folders, tables, configuration files, output files"],
     "c07_jobs")

prop("C08", "The parallel runner is bounded, complete and always ends",
     "A parallel run executes every job exactly once, never has more jobs running at a time than requested, "
     "leaves no slot idle for ever, and returns once all jobs have ended, whatever their speed, order of ending, "
     "error output or death by a signal. It returns only after every job has ended and reports for each job "
     "whether it succeeded, failed or was killed.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings, job speeds, job failures (including very long error messages), kills at any point, numbers "
     "of jobs and slots",
     "Tests run two to four healthy jobs under whatever schedule the operating system gives.",
     ["pyDeltaRCM/preprocessor.py"],
     [("slot accounting", "preprocessor.BasePreprocessor.run_jobs, _ParallelJob.run"),
      ("result queue", "preprocessor.BasePreprocessor.run_jobs")],
     ["job processes", "standard output"],
     "c08_parallel")

prop("C09", "An error in one job is contained and reported",
     "Any error raised while one job runs (by the physics, by a customisation or by storage) ends only that job: "
     "every other job still runs to its end with the results it would have alone. The failed job's error is "
     "recorded in its log (and on standard output in parallel runs), its output file is closed, and the records "
     "it saved before the error remain readable and correct.",
     ["fault_sequences", "schedules", "histories"],
     "all kinds of errors at any step of any subset of jobs, serial and parallel",
     "Tests inject one RuntimeError into mocked jobs and look at log calls.",
     ["pyDeltaRCM/preprocessor.py", "pyDeltaRCM/model.py"],
     [("try/except around run and finalize", "preprocessor._SerialJob.run, _ParallelJob.run")],
     ["job output files and logs", "standard output"],
     "c09_containment")

prop("C10", "A run lasts exactly as long as specified",
     "A run specified by a number of timesteps performs exactly that many, and one specified by a time (seconds "
     "or years, scaled by the intermittency factor) stops after the first timestep at which that much model time "
     "has passed and not before. A resumed run performs the specified amount in addition to what the checkpoint "
     "holds. Where several durations are given, timesteps go before seconds and seconds before years. A dry run "
     "performs no timestep and saves nothing. Serial and parallel runs do the same.",
     ["configurations", "inputs", "histories"],
     "all durations, timestep lengths, intermittency factors, resume points",
     "Tests use one to three timesteps with one timestep length, where rounding cannot show.",
     ["pyDeltaRCM/preprocessor.py"],
     [("end of the run", "preprocessor._BaseJob")],
     ["number of updates, model time"],
     "c10_duration")

prop("C11", "Finalising ends a run exactly once",
     "After a model is finalised its output file is closed and holds every record saved, further update or "
     "finalise calls raise and change neither state nor data files (the log may get an entry), and this holds whatever sequence of calls came "
     "before, also when closing fails and when no output was requested. Initialised, never-updated models "
     "finalise too.",
     ["histories", "fault_sequences"],
     "all call sequences of update, finalise and state access, with and without output, with storage failures",
     "Tests call finalise twice on one healthy model.",
     ["pyDeltaRCM/model.py"],
     [("finalised flag", "model.DeltaModel.update/finalize")],
     ["exceptions", "model state", "open files", "output file bytes"],
     "c11_lifecycle")

prop("C12", "Existing results are never overwritten unless asked for",
     "Starting a run in a folder that already holds an output (NetCDF) file, or a set of jobs whose output folder "
     "exists, raises FileExistsError and leaves every existing data file byte for byte as it was (logs may grow), "
     "unless overwriting or resuming was requested. With overwriting requested, the new output file holds only the "
     "new run.",
     ["histories", "configurations", "crash_points"],
     "all earlier contents of the output folder (complete, interrupted or foreign), single runs and multi-job "
     "runs",
     "Tests check that the exception is raised for one configuration.",
     ["pyDeltaRCM/init_tools.py", "pyDeltaRCM/preprocessor.py"],
     [("existence check before creating", "init_tools.init_output_file"),
      ("job folder check", "preprocessor.BasePreprocessor._prepare_multijob_output/_write_job_configs")],
     ["files below the output folder"],
     "c12_no_clobber")

prop("C13", "The log records the whole run and survives crashes and clock changes",
     "Each run's log states its configuration values and the seed used, and holds one entry for every completed "
     "timestep with its model time; entries for completed timesteps are on disk when the update returns, so "
     "they survive a kill. No later run or resume in the same folder removes or alters earlier log entries, even "
     "when both start in the same second or the clock jumps.",
     ["histories", "crash_points", "schedules"],
     "all kill points, clock values and jumps, sequences of runs in one folder",
     "Tests read the log of single clean runs under the real clock.",
     ["pyDeltaRCM/init_tools.py", "pyDeltaRCM/iteration_tools.py"],
     [("log file naming and append", "init_tools.init_logger"), ("time entries",
                                                                 "iteration_tools.log_model_time")],
     ["*.log files"],
     "c13_log")

prop("C14", "Flow fields stay physically valid for every random history",
     "After every update, whatever values the random generator yields, all flow fields are finite, depth equals "
     "water surface minus bed and is never negative, the water surface is nowhere below sea level of that step, "
     "the inlet keeps its imposed depth and discharge, flow speed never exceeds its maximum, "
     "magnitudes agree with their components, and land cells carry no flow. Water parcels start in inlet cells, "
     "step only between neighbouring cells (apart from the short relocation that ends a loop), never leave the "
     "domain or enter land, step into dry cells only where no neighbour is wet, and together carry exactly the inlet discharge through every cell they visit.",
     ["inputs", "configurations", "histories"],
     "all random histories (including extreme draws), configurations and numbers of updates",
     "Tests check stored numbers of a few seeds; extreme draws have negligible probability under any seed.",
     ["pyDeltaRCM/water_tools.py", "pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/shared_tools.py"],
     [("free surface and limits", "water_tools.compute_free_surface, update_flow_field, "
       "update_velocity_field"), ("end of step", "iteration_tools.finalize_timestep")],
     ["model fields after each update", "parcel paths"],
     "c14_flow")

prop("C15", "Sediment is conserved and bounded for every random history",
     "In every timestep, whatever the random generator yields, the supplied number of sand and mud parcels is routed, "
     "sediment routing adds no more volume to the bed than was supplied, deposits are non-negative and no larger than supply "
     "plus erosion, the bed is raised by no more than what was deposited there and never above the water surface, "
     "flow below the erosion threshold does not erode and one parcel visit erodes only a bounded part of the depth, "
     "topographic diffusion only exchanges sediment between neighbouring cells, sand fraction and active layer stay within 0 "
     "and 1 and follow from the deposits, land cells never change, and sand arrives only along paths from the inlet.",
     ["inputs", "configurations", "histories"],
     "all random histories (including extreme draws), configurations and numbers of updates",
     "Tests check stored numbers of a few seeds and unit values of helper functions.",
     ["pyDeltaRCM/sed_tools.py", "pyDeltaRCM/iteration_tools.py"],
     [("deposition and erosion limits", "sed_tools.SandRouter/MudRouter"), ("sand fraction",
                                                                           "iteration_tools.compute_sand_frac")],
     ["model fields before and after routing"],
     "c15_sediment")

prop("C16", "Base level and subsidence follow their schedule exactly",
     "After every update sea level equals its initial value plus rise rate times elapsed model time (up to "
     "rounding), across resumes. When subsidence is on, every subsiding cell sinks by rate times timestep in "
     "exactly the timesteps that begin at or after the starting time and in no others, land rows never "
     "sink, and without subsidence nothing sinks. Both follow a timestep changed between updates, and sea level "
     "a changed rate of rise.",
     ["configurations", "histories", "crash_points"],
     "all rates, starting times, timestep lengths, numbers of updates and resume points, and changes of rise rate, sea "
     "level and timestep while running",
     "Tests look at one or two steps with one starting time and never across a resume.",
     ["pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/init_tools.py", "pyDeltaRCM/model.py"],
     [("subsidence", "iteration_tools.apply_subsidence, init_tools.init_subsidence"),
      ("sea level", "iteration_tools.finalize_timestep")],
     ["sea level and bed after each update", "metadata in the output file"],
     "c16_base_level")

prop("C17", "Changing a boundary condition mid-run acts as if it were configured",
     "Setting the inlet flow velocity or depth, sediment concentration, bedload fraction or rate of sea-level rise through the "
     "model's named variables between updates takes effect completely and at once: from then on every state equals, bit for "
     "bit, that of a model configured with the new value and continued from the same checkpoint (erosion and deposition "
     "thresholds stay as configured), the saved metadata hold the values in force, and a later resume under the new "
     "configuration continues the changed run exactly.",
     ["histories", "configurations", "crash_points"],
     "all sequences of changes, points between updates, configurations and later interruptions",
     "Tests set one value and read one or two attributes back; they do not compare the run that follows.",
     ["pyDeltaRCM/model.py", "pyDeltaRCM/init_tools.py"],
     [("named variables", "model.DeltaModel.channel_flow_velocity/channel_flow_depth/influx_sediment_concentration/"
       "bedload_fraction/sea_surface_elevation_change"),
      ("derived values", "init_tools.create_boundary_conditions, init_sediment_routers")],
     ["model state after each update", "metadata in the output file"],
     "c17_boundary")

prop("C18", "Hooks run exactly where documented and do not disturb the run",
     "In every construction, resume and update each hook runs exactly once right before (or, for the after-hooks, right after) "
     "its method, in the documented order of stages and once per water iteration. Hooks that only observe leave the run "
     "bit-identical, and what a hook changes (bed, sea level, routing weights, random draws, a raised error) has exactly the "
     "effect of doing the same at the start (end) of that method.",
     ["histories", "configurations", "schedules"],
     "all hooks, sequences of perturbations, configurations, interruptions and resumes",
     "Tests mock single hooks and count calls in one update; they do not compare runs.",
     ["pyDeltaRCM/model.py", "pyDeltaRCM/iteration_tools.py", "pyDeltaRCM/water_tools.py", "pyDeltaRCM/sed_tools.py",
      "pyDeltaRCM/hook_tools.py"],
     [("hook calls", "model.DeltaModel.__init__/update, iteration_tools.solve_water_and_sediment_timestep, "
       "water_tools.route_water, sed_tools.route_sediment")],
     ["sequence of hook and method calls", "model state after each update"],
     "c18_hooks")

here = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        path = os.path.join(here, "checks", "%s.py" % p["check"]) if p["check"] else None
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif path and os.path.exists(path):
            src = open(path).read()
            lev = src.split('LEVEL = "')[1].split('"')[0]
            checks.append({
                "property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "technique": "deterministic simulation with fault injection (seeded search over "
                             "simulated runs)",
                "level": lev, "level_note": p["note"] or
                "Held on every simulated run explored from the seed; sampled, not exhaustive. "
                "Trusts the simulated-OS layer, the reference model in the check and the libraries."})
        else:
            na.append({"property": p["id"], "reason": "check under construction"})
    doc = {"version": 1, "setup_cmd": "gcc --version >/dev/null && /opt/venv/bin/python -c 'import numba, netCDF4'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks were needed in /repo: the seams are the system-call boundary (preloaded "
                    "library), multiprocessing, the model's hook methods and the generator state."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
