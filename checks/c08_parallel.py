"""C08: the parallel runner is bounded, complete and always ends."""
import re
import signal

from sim import core, drive, jobs, mdl, par
from sim.core import Outcome, simproc

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("one case = one parallel run of 1..8 jobs (requested width 1..9, or from a simulated core count) "
        "under a seeded interleaving of real forked jobs, with jobs that fail with short or very long "
        "messages, stall, exit their process, or die by a signal at a chosen schedule point; non-trivial with two or more jobs; "
        "distinct by the order of schedule events")
REAL = ["Preprocessor.run_jobs, _ParallelJob, DeltaModel life cycle", "process isolation (real forks, run one "
        "at a time)"]
STUB = ["multiprocessing.Process/Semaphore/Queue/cpu_count (simulated scheduler, 64 KiB pipe)", "sleep",
        "wall clock", "physics kernel (cheap seeded stand-in)"]
ASSUMPTIONS = ["a job is not killed in the middle of writing a queue message (the standard library's queue "
               "cannot survive that)", "the simulated queue, semaphore and process behave as documented by "
               "the standard library"]
RUNS = {"quick": 500, "thorough": 20000}


def warm(tier):
    par.install()
    mdl.warm("light")


def gen(rng, i, tier):
    cfg, spec = jobs.gen_spec(rng, maxjobs=8, light=True,
                              kinds=("matrix", "set", "set", "ensemble", "set+ensemble", "single"))
    if spec["kind"] == "set" and rng.random() < 0.6:
        spec["set"] = [{k: rng.choice(jobs.PARAMS[k]) for k in spec["set"][0]}
                       for _ in range(rng.randint(3, 8))]
    n = len(jobs.expected_combos(spec))
    names = ["out"] if spec["kind"] == "single" else ["job_%03d" % k for k in range(n)]
    scn = {"cfg": cfg, "spec": spec, "parallel": rng.choice([True, 1, 1, 2, 2, 3, 4, 9]),
           "ncpu": rng.choice([1, 2, 3, 4, 16]), "duration": {"timesteps": rng.randint(0, 2)},
           "sched": rng.getrandbits(48), "cli": rng.random() < 0.2,
           "pvia": rng.choice(["yaml", "yaml", "arg"]),
           "greedy": rng.choice(["mixed", "mixed", "parent", "never", "children", "lifo", "nofeed"]),
           "env": drive.environment(rng), "fails": [], "kills": [], "stalls": []}
    for k, name in enumerate(names):
        r = rng.random()
        if r < 0.2:
            scn["fails"].append({"name": name, "where": rng.choice(["init", "solve", "step_end", "finalize"]),
                                 "step": rng.randint(0, 2), "exc": rng.choice(sorted(jobs.EXC)),
                                 "msg": rng.choice(jobs.MSGS) % k,
                                 "times": rng.choice([1, 1, 100, 20000, 60000])})
        elif r < 0.25:
            # ends its process from within (sys.exit in a customisation, an interrupt)
            scn["fails"].append({"name": name, "where": rng.choice(["init", "solve", "step_end"]),
                                 "step": rng.randint(0, 2), "exc": rng.choice(["exit", "exit", "interrupt"]),
                                 "code": rng.choice([1, 2, 3, 15, 255]), "msg": "", "times": 1})
        elif r < 0.42:
            scn["kills"].append({"job": k, "at": rng.randint(0, 12),
                                 "sig": int(rng.choice([signal.SIGKILL, signal.SIGTERM]))})
        elif r < 0.55:
            scn["stalls"].append({"job": k, "at": rng.randint(1, 9), "for": rng.choice([1.5, 30.0, 5000.0])})
    return scn


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("pp")
    r = simproc(jobs.run_pp, scn, root, scn["env"], False, timeout=120)
    if r.value is None:
        o.bad("the run died: %s" % (r.error or r.describe()))
        return o
    v = r.value
    n = len(jobs.expected_combos(scn["spec"]))
    width = scn["parallel"] if scn["parallel"] is not True else max(1, scn["ncpu"] - 1)
    width = min(width, n)
    hist = v["history"]
    sched = [(a, t) for a, t, _ in hist]
    if v["end"] != "returned":
        o.bad("the run does not end: %s" % v["err"] if v["end"] == "hang" else
              "the run raised %s" % v["err"])
        return o
    for k in range(n):
        if sched.count((k, "spawned")) != 1:
            o.bad("job %d was started %d times" % (k, sched.count((k, "spawned"))))
    if len(v["codes"]) != n:
        o.bad("%d processes for %d jobs" % (len(v["codes"]), n))
    if o.violations:
        return o
    if v["alive"]:
        o.bad("run returned while jobs %s were still running" % v["alive"])
        return o
    # concurrency, and the life of each job
    working, most, killed, failed = set(), 0, {}, {}
    names = ["out"] if scn["spec"]["kind"] == "single" else ["job_%03d" % k for k in range(n)]
    fails, quits = {f["name"]: f for f in scn["fails"]}, 0
    done_steps = {k: 0 for k in range(n)}
    ran = {k: None for k in range(n)}
    for a, t, d in hist:
        if a == "main":
            continue
        if t in ("work", "load"):
            working.add(a)
            if ran[a] is None:
                ran[a] = d["job"]
            elif ran[a] != d["job"]:
                o.bad("process %d worked on %s and %s" % (a, ran[a], d["job"]))
        if t == "updated":
            done_steps[a] += 1
        if t == "failing":
            failed[a] = d["where"]
        if t in ("finalized", "ended", "killed") or (t == "failing" and d["where"] == "finalize"):
            working.discard(a)
        if t == "release" and a in failed and fails[names[a]]["exc"] in ("exit", "interrupt"):
            working.discard(a)
        if t == "killed":
            killed[a] = True
        if len(working) > most:
            most = len(working)
    if most > width:
        o.bad("%d jobs ran at the same time, %d were requested" % (most, width))
    if scn["greedy"] == "never":
        first = next((i for i, e in enumerate(sched) if e[1] != "spawned"), len(sched))
        if len([e for e in sched[:first] if e[1] == "spawned"]) < width:
            o.bad("only %d of %d requested slots were used at the start" % (first, width))
    for k in range(n):
        if k in killed:
            if v["codes"][k] == 0:
                o.bad("job %d was killed but exit code is 0" % k)
            continue
        if ran[k] != names[k]:
            o.bad("job %d ran %s" % (k, ran[k]))
        if k in failed and fails[names[k]]["exc"] in ("exit", "interrupt"):
            quits += 1
            continue
        if v["codes"][k] != 0:
            o.bad("job %d ended with code %s" % (k, v["codes"][k]))
        if k not in failed and done_steps[k] != scn["duration"]["timesteps"]:
            o.bad("job %d performed %d of %d timesteps" % (k, done_steps[k], scn["duration"]["timesteps"]))
        if failed.get(k) != "finalize" and (k, "finalized") not in sched:
            o.bad("job %d was not finalized" % k)
    # the report
    text = v["stdout"]
    for k in range(n):
        lines = [ln for ln in text.split("\n") if re.search(r"\b[Jj]ob:? %d\b" % k, ln)]
        if not lines:
            o.bad("nothing is reported about job %d" % k)
            continue
        if k in killed:
            if not any(str(v["codes"][k]) in ln for ln in lines):
                o.bad("the death of job %d (code %s) is not reported: %s" % (k, v["codes"][k], lines))
        elif k in failed:
            f = fails[names[k]]
            if f["exc"] in ("exit", "interrupt"):
                if not any("error" in ln or "exited" in ln for ln in lines):
                    o.bad("the end of job %d (code %s) is not reported: %s" % (k, v["codes"][k], lines))
            elif not any("error" in ln for ln in lines) or f["msg"] * f["times"] not in text:
                o.bad("the failure of job %d is not reported: %s" % (k, [x[:80] for x in lines]))
        elif any("error" in ln or "exited" in ln for ln in lines):
            o.bad("job %d succeeded but is reported as failed: %s" % (k, lines))
    for k, c in v["faults"].items():
        o.fault(k, c)
    o.fault("job-error", len(failed) - quits)
    o.fault("job-exit", quits)
    o.fault("interleaving", 1 if n > 1 else 0)
    o.count("jobs", n)
    o.count("schedule_steps", v["steps"])
    o.count("wait_timeouts", v["timeouts"])
    o.count("max_parallel_%d" % most)
    o.sim_time = v["virtual"]
    o.sig = core.digest(sched)
    o.nontrivial = n > 1
    o.sample = {"jobs": n, "parallel": scn["parallel"], "greedy": scn["greedy"], "fails": scn["fails"],
                "kills": scn["kills"], "schedule": sched[:50]}
    return o


def shrink(scn):
    for key in ("kills", "stalls", "fails"):
        for j in range(len(scn[key])):
            yield dict(scn, **{key: scn[key][:j] + scn[key][j + 1:]})
    for j, f in enumerate(scn["fails"]):
        if f["times"] > 1:
            yield dict(scn, fails=scn["fails"][:j] + [dict(f, times=1)] + scn["fails"][j + 1:])
    sp = scn["spec"]
    if "set" in sp and len(sp["set"]) > 1:
        yield dict(scn, spec=dict(sp, set=sp["set"][:-1]))
    if scn["duration"]["timesteps"] > 0:
        yield dict(scn, duration={"timesteps": scn["duration"]["timesteps"] - 1})
    on = [k for k in list(mdl.GRIDS) + list(mdl.COMPONENTS) if scn["cfg"].get(k)]
    if on:
        yield dict(scn, cfg=drive.strip(scn["cfg"], on))
