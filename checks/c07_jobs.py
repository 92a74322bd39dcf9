"""C07: every job of a multi-job run equals running its configuration alone."""
import os

import yaml

from sim import core, drive, jobs, mdl, par
from sim.core import Outcome, simproc

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("one case = one matrix/set/ensemble/single specification run through the preprocessor, serially or "
        "in parallel under a seeded interleaving of real forked jobs (optionally then resumed for more "
        "timesteps, or continued from the checkpoint of another run), plus each job's configuration run alone (as "
        "specified, or from the file written for it) in its own simulated process; non-trivial with "
        "two or more jobs compared; distinct by specification and order of schedule events")
REAL = ["Preprocessor (expansion, files, job loop)", "serial and parallel job classes", "DeltaModel",
        "netCDF4/HDF5", "process isolation (real forks, run one at a time)"]
STUB = ["multiprocessing.Process/Semaphore/Queue/cpu_count (simulated scheduler)", "wall clock and sleep",
        "physics kernel (cheap seeded stand-in) in the quick tier, mixed in the thorough tier"]
ASSUMPTIONS = ["jobs interleave at their schedule points (model hooks, queue and semaphore operations)"]
RUNS = {"quick": 260, "thorough": 6000}


def warm(tier):
    par.install()
    mdl.warm("light" if tier == "quick" else "full")


def gen(rng, i, tier):
    light = tier == "quick" or rng.random() < 0.7
    cfg, spec = jobs.gen_spec(rng, maxjobs=5 if tier == "quick" else 8, light=light, extra=0.3)
    parallel = rng.choice([False, False, True, 1, 2, 3])
    scn = {"cfg": cfg, "spec": spec, "parallel": parallel, "duration": {"timesteps": rng.randint(1, 4)},
           "sched": rng.getrandbits(48), "ncpu": rng.choice([1, 2, 4]),
           "greedy": rng.choice(["mixed", "mixed", "parent", "children", "lifo", "nofeed"]),
           "env": drive.environment(rng), "env2": drive.environment(rng), "cli": rng.random() < 0.25,
           "folder": rng.choice(jobs.FOLDERS), "resume": False, "prior": drive.gen_prior(rng, light)}
    if rng.random() < 0.3:
        scn["resume"] = True
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = 1
        scn["duration2"] = {"timesteps": rng.randint(1, 3)}
    scn["by_file"] = rng.random() < 0.4
    if rng.random() < 0.2:
        scn["from"] = rng.randint(0, 3)     # all jobs continue from the checkpoint of another run
    if spec["kind"] != "single" and rng.random() < 0.2:
        fixed = {"timesteps": rng.choice([0 if not scn["resume"] else 3, 1, 2, 5]), "Np_sed": 7, "itermax": 2, "S0": 0.0003, "u0": 0.8, "H_SL": 0.2}
        used = set(spec.get("matrix") or (spec.get("set") or [{}])[0])
        k = rng.choice([x for x in sorted(fixed) if x not in used])
        if rng.random() < 0.3:
            k = "timesteps"
        scn["edit"], scn["edit_job"] = {k: fixed[k]}, rng.randrange(8)
    if spec["kind"] != "single" and not scn["cli"] and rng.random() < 0.3:
        scn["as_dict"] = rng.choice(["once", "again"])
    return scn


def base_run(emit, cfg, out, env, n):
    drive.enter(out, env)
    m = drive.make(dict(cfg, save_checkpoint=True, checkpoint_dt=1), out)
    for _ in range(n):
        m.update()
    m.finalize()
    core.simos().end()
    return True


def go(emit, scn, root, env, resume):
    if scn["prior"]:
        drive.prior_activity(scn["prior"], root)
    return jobs.run_pp(emit, scn, root, env, resume)


def edited(scn, name, n):
    return scn["edit"] if scn.get("edit") and name == "job_%03d" % (scn["edit_job"] % n) else {}


def declared(o, scn, root, r):
    """Which job used which parameters, according to the files written."""
    cfg, spec = scn["cfg"], scn["spec"]
    combos = jobs.expected_combos(spec)
    folder = scn.get("folder", "out")
    if spec["kind"] == "single":
        rows = [(folder, {})]
        if r.of("njobs")[0] != 1:
            o.bad("a single configuration made %s jobs" % r.of("njobs"))
    else:
        head, table = jobs.read_table(root, folder)
        rows = []
        for row in table:
            rows.append((row[0], {k: jobs.typed(k, v) for k, v in zip(head[1:], row[1:])}))
        want = sorted(sorted((k, float(v)) for k, v in c.items()) for c in combos)
        got = sorted(sorted((k, float(v)) for k, v in p.items() if not (k == "seed" and "ensemble" in spec))
                     for _, p in rows)
        if want != got:
            o.bad("parameter table lists %s, specification means %s" % (got, want))
            return None
        names = sorted(x for x in os.listdir(os.path.join(root, folder))
                       if os.path.isdir(os.path.join(root, folder, x)))
        if sorted(x for x, _ in rows) != names or names != ["job_%03d" % k for k in range(len(combos))]:
            o.bad("job folders %s, table %s" % (names, [x for x, _ in rows]))
            return None
        if "ensemble" in spec:
            per = {}
            for _, p in rows:
                if "seed" not in p:
                    o.bad("ensemble jobs without seeds in the parameter table")
                    return None
                per.setdefault(str(sorted((k, v) for k, v in p.items() if k != "seed")), []).append(p["seed"])
            for v in per.values():
                if len(set(v)) != len(v):
                    o.bad("members of an ensemble share a seed: %s" % v)
        for name, p in rows:
            with open(os.path.join(root, folder, name, name + ".yml")) as f:
                y = yaml.safe_load(f)
            full = dict(p, **edited(scn, name, len(rows)))
            for k, v in list(full.items()) + [(k, v) for k, v in mdl.clean(cfg).items()
                                              if isinstance(v, (int, float)) and not isinstance(v, bool)
                                              and k not in full]:
                if k not in y or float(y[k]) != float(v):
                    o.bad("configuration file of %s states %s=%s, specification says %s"
                          % (name, k, y.get(k), v))
                    return None
    return rows


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("pp")
    cfg, spec = scn["cfg"], scn["spec"]
    folder = scn.get("folder", "out")
    n = scn["duration"]["timesteps"]
    first = 0
    if scn.get("from") is not None:
        first = scn["from"]
        src = ctx.dir("from")
        c0 = dict(cfg, **jobs.expected_combos(spec)[0])
        c0.setdefault("seed", 11)
        b = simproc(base_run, c0, src, scn["env2"], first)
        if not b.value:
            o.bad("the run to continue from failed: %s" % (b.error or b.describe()))
            return o
        scn = dict(scn)
        scn["from"] = src
        cfg = dict(cfg, resume_checkpoint=src)
        o.count("continued_from_another_run")
    r = simproc(go, scn, root, scn["env"], False, timeout=120)
    if r.value is None or r.value["end"] != "returned":
        o.bad("run did not complete: %s" % (r.value["err"] if r.value else (r.error or r.describe())))
        return o
    hist = [r.value]
    rows = declared(o, scn, root, r)
    if rows is None:
        return o
    total = first + n
    if scn["resume"]:
        r2 = simproc(go, dict(scn, sched=scn["sched"] + 1), root, scn["env2"], True, timeout=120)
        if r2.value is None or r2.value["end"] != "returned":
            o.bad("resumed run did not complete: %s" % (r2.value["err"] if r2.value else
                                                        (r2.error or r2.describe())))
            return o
        hist.append(r2.value)
        again = declared(o, scn, root, r2)
        if again is None:
            return o
        if again != rows:
            o.bad("after resuming, the parameter table lists %s, the jobs ran with %s" % (again, rows))
            return o
        total += scn["duration2"]["timesteps"]
        o.count("resumed_multi_job_runs")
    for name, p in rows:
        sd = ctx.dir("solo")
        if "seed" not in p and "seed" not in cfg and not scn.get("from"):
            continue
        yml = os.path.join(root, folder, name, name + ".yml") \
            if scn.get("by_file") and spec["kind"] != "single" else None
        total_here = total
        if edited(scn, name, len(rows)):
            p = dict(p, **drive.strip(scn["edit"], ("timesteps",)))
            if "timesteps" in scn["edit"]:
                total_here = first + len(hist) * scn["edit"]["timesteps"]
            o.count("edited_jobs")
        s = jobs.solo(cfg, p, sd, scn["env2"], total_here, file=yml)
        if s.value is None:
            o.bad("configuration of %s alone fails: %s" % (name, s.error or s.describe()))
            return o
        got = [u for h in hist for u in jobs.updates_of(h["history"], name)]
        if not jobs.compare_updates(o, name + " (%s)" % ("parallel" if scn["parallel"] else "serial"),
                                    got, s.of("updated")):
            return o
        d = os.path.join(root, folder) if spec["kind"] == "single" else os.path.join(root, folder, name)
        nc = simproc(jobs.nc_of, os.path.join(d, "pyDeltaRCM_output.nc"))
        if nc.error:
            o.bad("%s: output unreadable: %s" % (name, nc.error["msg"]))
            return o
        if nc.value != s.value["nc"]:
            o.bad("%s: output differs from running it alone in %s" % (
                name, mdl.diff_digest(s.value["nc"] or {}, nc.value or {})[:8]))
            return o
        o.count("jobs_compared")
    o.count("parallel_runs" if scn["parallel"] else "serial_runs")
    o.count("schedule_steps", sum(h["steps"] for h in hist))
    o.fault("interleaving", 1 if scn["parallel"] and len(rows) > 1 else 0)
    o.sim_time = total * len(rows) * mdl.dt_of(dict(mdl.base_cfg(__import__("random").Random(0)), **cfg))
    o.sig = core.digest([(a, t) for a, t, _ in hist[0]["history"]], spec, scn["duration"])
    o.nontrivial = len(rows) > 1
    o.sample = {"spec": spec, "parallel": scn["parallel"],
                "schedule": [(a, t) for a, t, _ in hist[0]["history"]][:40]}
    return o


def shrink(scn):
    if scn.get("from") is not None:
        yield {k: v for k, v in scn.items() if k != "from"}
    if scn.get("edit"):
        yield {k: v for k, v in scn.items() if k != "edit"}
    if scn.get("as_dict"):
        yield {k: v for k, v in scn.items() if k != "as_dict"}
    if scn["prior"]:
        yield dict(scn, prior=None)
    if scn["resume"]:
        yield dict(scn, resume=False)
    if scn["folder"] != "out":
        yield dict(scn, folder="out")
    if scn["cli"]:
        yield dict(scn, cli=False)
    if scn["duration"]["timesteps"] > 1:
        yield dict(scn, duration={"timesteps": 1})
    if scn["parallel"]:
        yield dict(scn, parallel=False)
    sp = scn["spec"]
    if "set" in sp and len(sp["set"]) > 1:
        yield dict(scn, spec=dict(sp, set=sp["set"][:-1]))
    if "matrix" in sp:
        for k, v in sp["matrix"].items():
            if len(v) > 1:
                yield dict(scn, spec=dict(sp, matrix=dict(sp["matrix"], **{k: v[:-1]})))
