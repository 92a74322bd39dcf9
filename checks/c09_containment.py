"""C09: an error in one job is contained and reported."""
import errno
import glob
import os

from sim import core, drive, jobs, mdl, par
from sim.core import Outcome, simproc

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("one case = one serial or parallel run of 2..6 jobs in which chosen jobs fail: an exception of one of "
        "27 types raised from the physics or a customisation at a chosen timestep, before or after output, or "
        "in finalize; or EIO/ENOSPC/EACCES on a chosen file operation of that job; every other job is compared "
        "with its configuration run alone; non-trivial when at least one job failed and one did not; distinct "
        "by failures and order of schedule events")
REAL = ["Preprocessor.run_jobs, _SerialJob, _ParallelJob", "DeltaModel life cycle, output, checkpoints, logging",
        "netCDF4/HDF5", "process isolation (real forks, run one at a time)"]
STUB = ["multiprocessing.Process/Semaphore/Queue (simulated scheduler)", "wall clock and sleep",
        "physics kernel (cheap seeded stand-in)", "failing system calls (injected)"]
ASSUMPTIONS = ["errors are exceptions derived from Exception, raised after the job's model was constructed",
               "a crash inside the netCDF library after a storage error is not this code's error"]
RUNS = {"quick": 320, "thorough": 12000}


def warm(tier):
    par.install()
    mdl.warm("light")


def gen(rng, i, tier):
    cfg, spec = jobs.gen_spec(rng, maxjobs=6, light=True, kinds=("matrix", "set", "set", "set+ensemble"))
    if len(jobs.expected_combos(spec)) < 2:
        spec = {"kind": "set", "set": [{"u0": 1.0, "seed": 5}, {"u0": 1.3, "seed": 6}, {"u0": 0.7, "seed": 7}]}
    cfg.setdefault("seed", rng.randrange(2**31))
    for k in (spec.get("matrix") or spec["set"][0]):
        cfg.pop(k, None)
    if "ensemble" in spec:
        cfg.pop("seed", None)
    n = len(jobs.expected_combos(spec))
    steps = rng.randint(1, 4)
    parallel = rng.choice([False, False, 1, 2, 3])
    scn = {"cfg": cfg, "spec": spec, "parallel": parallel, "ncpu": 4, "duration": {"timesteps": steps},
           "sched": rng.getrandbits(48), "cli": False,
           "greedy": rng.choice(["mixed", "parent", "children", "lifo", "nofeed"]),
           "env": drive.environment(rng), "env2": drive.environment(rng), "fails": [], "plan": []}
    bad = rng.sample(range(n), rng.randint(1, max(1, n - 1)) if rng.random() < 0.4 else 1)
    for k in bad:
        name = "job_%03d" % k
        if rng.random() < 0.2:
            f = rng.choice(["checkpoint.npz", "checkpoint.npz", "pyDeltaRCM_output.nc"])
            if f == "checkpoint.npz":
                cfg["save_checkpoint"] = True
                cfg["checkpoint_dt"] = 1
            # later than the initial record and checkpoint, which serial jobs write when constructed
            scn["plan"].append({"at": rng.randint(2, 5) if f == "checkpoint.npz" else rng.randint(60, 120),
                                "action": core.ERRNO, "span": rng.choice([1, 1, 10**9]),
                                "err": rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES]),
                                "match": name + "/" + f})
        else:
            where = rng.choice(["solve", "solve", "output", "step_end", "finalize"] + ["init"] * bool(parallel))
            scn["fails"].append({"name": name, "where": where,
                                 "step": rng.randint(1, steps) if where == "output" else rng.randint(0, steps - 1),
                                 "exc": rng.choice(sorted(jobs.EXC) + ["JobError", "bare", "bare", "odd", "odd"]),
                                 "msg": rng.choice(jobs.MSGS) % k, "times": rng.choice([1, 1, 3, 5000])})
    return scn


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("pp")
    r = simproc(jobs.run_pp, scn, root, scn["env"], False, timeout=120)
    mode = "parallel" if scn["parallel"] else "serial"
    if r.value is None:
        if scn["plan"] and r.describe() in ("signal 11", "signal 6"):
            o.count("netcdf_library_crashes")
            return o
        o.bad("the run died: %s" % (r.error or r.describe()))
        return o
    v = r.value
    if v["end"] != "returned":
        if scn["plan"] and "__init__" in (v["err"] or "") and "DeltaModel(input_file" in (v["err"] or ""):
            o.count("failed_while_constructing")
            return o
        o.bad("an error of one job ended the %s run: %s" % (mode, v["err"]))
        return o
    if v["open"]:
        o.bad("output files still open after the run: %s" % v["open"])
    fails = {f["name"]: f for f in scn["fails"]}
    planned = {p["match"].split("/")[0] for p in scn["plan"]}
    raised = {d["job"]: d["where"] for _, t, d in v["history"] if t == "failing"}
    head, table = jobs.read_table(root)
    rows = [(t[0], {k: jobs.typed(k, x) for k, x in zip(head[1:], t[1:])}) for t in table]
    nsteps = scn["duration"]["timesteps"]
    healthy = 0
    for name, p in rows:
        d = os.path.join(root, "out", name)
        sd = ctx.dir("solo")
        s = jobs.solo(scn["cfg"], p, sd, scn["env2"], nsteps)
        if s.value is None:
            o.bad("%s alone fails: %s" % (name, s.error or s.describe()))
            return o
        want = s.of("updated")
        got = jobs.updates_of(v["history"], name)
        log = "".join(open(x, errors="replace").read() for x in sorted(glob.glob(os.path.join(d, "*.log"))))
        ncp = os.path.join(d, "pyDeltaRCM_output.nc")
        if name not in raised and name not in planned:
            healthy += 1
            if not jobs.compare_updates(o, "%s (%s, healthy)" % (name, mode), got, want):
                return o
            nc = simproc(jobs.nc_of, ncp)
            if nc.error or nc.value != s.value["nc"]:
                o.bad("%s: output of a healthy job differs from running it alone: %s" % (
                    name, nc.error["msg"] if nc.error else
                    mdl.diff_digest(s.value["nc"] or {}, nc.value or {})[:6]))
                return o
            if "ERROR" in log or "Traceback" in log:
                o.bad("%s: errors in the log of a healthy job" % name)
            continue
        # failed jobs: the steps it made are right, the error is on record
        if not jobs.compare_updates(o, "%s (%s, failing)" % (name, mode), got, want[:len(got)]):
            return o
        if name in raised:
            f = fails[name]
            full = f["where"] == "finalize"
            exp = nsteps if full else (0 if f["where"] == "init" else
                                       f["step"] - 1 if f["where"] == "output" else f["step"])
            if len(got) != exp:
                o.bad("%s: %d timesteps completed, error planned after %d" % (name, len(got), exp))
            msg = "AssertionError" if f["exc"] == "bare" else f["msg"] * f["times"]
            if msg not in log or "ERROR" not in log:
                o.bad("%s (%s): the error raised in %s is not in its log" % (name, mode, f["where"]))
            told = "ob %d ended in error" % int(name[4:]) if f["exc"] == "bare" else f["msg"]
            if scn["parallel"] and told not in v["stdout"]:
                o.bad("%s: the error is not reported on standard output" % name)
            # an error in the very hook that precedes creation leaves no file
            if s.value["nc"] is not None and f["where"] != "init":
                t = max([0.0] + [u["time"] for u in got])
                ref = simproc(head_to, os.path.join(sd, "pyDeltaRCM_output.nc"), t)
                nrec = ref.value["__upto__"]
                nc = simproc(head_of, ncp, nrec)
                if nc.error:
                    o.bad("%s: records saved before the error are unreadable: %s" % (name, nc.error["msg"]))
                elif not nrec <= nc.value["__n__"] <= nrec + 1:
                    o.bad("%s: %d records, %d were saved before the error" % (name, nc.value["__n__"], nrec))
                else:
                    diff = [k for k in mdl.diff_digest(ref.value, nc.value) if k not in ("__n__", "__upto__")]
                    if diff:
                        o.bad("%s: records saved before the error differ in %s" % (name, diff[:6]))
                o.count("failed_outputs_compared")
        elif len(got) < nsteps:
            if "ERROR" not in log:
                o.bad("%s (%s): ended early after a storage error without an error in its log" % (name, mode))
            o.count("storage_failures")
        if o.violations:
            return o
    o.fault("job-error", len(raised))
    o.fault("storage-error", sum(1 for n in planned if n))
    o.count("healthy_jobs_compared", healthy)
    o.count("%s_runs" % mode)
    o.sim_time = float(nsteps * len(rows))
    o.sig = core.digest([(a, t) for a, t, _ in v["history"]], scn["fails"], scn["plan"])
    o.nontrivial = bool(raised or planned) and healthy > 0
    o.sample = {"mode": mode, "fails": scn["fails"], "plan": scn["plan"]}
    return o


def head_of(emit, path, n):
    return mdl.nc_digest(path, n)


def head_to(emit, path, t):
    times = mdl.read_nc(path)["vars"]["time"][0]
    n = int(sum(1 for x in times if x <= t * (1 + 1e-6) + 1e-6))
    return dict(mdl.nc_digest(path, n), __upto__=n)


def shrink(scn):
    for key in ("fails", "plan"):
        for j in range(len(scn[key])):
            yield dict(scn, **{key: scn[key][:j] + scn[key][j + 1:]})
    if scn["parallel"]:
        yield dict(scn, parallel=False)
    sp = scn["spec"]
    if "set" in sp and len(sp["set"]) > 2:
        yield dict(scn, spec=dict(sp, set=sp["set"][:-1]))
    for j, f in enumerate(scn["fails"]):
        if f["times"] > 1:
            yield dict(scn, fails=scn["fails"][:j] + [dict(f, times=1)] + scn["fails"][j + 1:])
