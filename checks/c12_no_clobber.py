"""C12: existing results are never overwritten unless asked for."""
import hashlib
import os

from sim import core, drive, jobs, mdl, par
from sim.core import Outcome, simproc

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("one case = a first run (model or multi-job) that is finished, left unfinalised, still open in the same "
        "process, or killed at a seeded file operation; then a second run of the same or another configuration "
        "started in the same folder, as a model, a serial or a parallel job, with or without overwriting asked "
        "for; every existing file is compared byte for byte; non-trivial when output existed at the second "
        "start; distinct by (state left behind, way of starting, configuration, verdict)")
REAL = ["DeltaModel construction and output", "Preprocessor folder handling, serial and parallel jobs",
        "netCDF4/HDF5"]
STUB = ["multiprocessing (simulated scheduler)", "physics kernel (cheap seeded stand-in)", "wall clock",
        "process death at a file operation"]
ASSUMPTIONS = ["only output files, job folders and what they hold are protected; log files may grow"]
RUNS = {"quick": 500, "thorough": 16000}


def warm(tier):
    par.install()
    mdl.warm("light")


def one_cfg(rng):
    cfg = mdl.base_cfg(rng, light=True)
    mdl.add_outputs(rng, cfg, must=1, figs=False)
    cfg["save_dt"] = max(1, int(rng.choice([0.5, 1.5]) * mdl.dt_of(cfg)))
    if rng.random() < 0.5:
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = max(1, int(0.5 * mdl.dt_of(cfg)))
    cfg["verbose"] = rng.choice([0, 1])
    return cfg


def gen(rng, i, tier):
    c1 = one_cfg(rng)
    c2 = dict(c1) if rng.random() < 0.4 else one_cfg(rng)
    if rng.random() < 0.15:
        c2 = drive.strip(c2, tuple(mdl.GRIDS) + tuple(mdl.COMPONENTS))
        c2["save_metadata"] = True
    multi = rng.random() < 0.3
    scn = {"c1": c1, "c2": c2, "n1": rng.randint(0, 4), "n2": rng.randint(0, 3),
           "left": rng.choice(["finalize", "finalize", "exit", "open", "crash", "crash"]),
           "crash_pick": rng.random(), "clobber": rng.random() < 0.3,
           "how": rng.choice(["model", "model", "serial", "parallel"]), "multi": multi,
           "env": drive.environment(rng), "env2": drive.environment(rng), "sched": rng.getrandbits(32)}
    if multi:
        cfg, spec = jobs.gen_spec(rng, maxjobs=4, light=True, kinds=("matrix", "set", "ensemble", "set+ensemble"))
        cfg2, spec2 = (cfg, spec) if rng.random() < 0.5 else jobs.gen_spec(
            rng, maxjobs=4, light=True, kinds=("matrix", "set", "ensemble"))
        scn.update(c1=cfg, s1=spec, c2=cfg2, s2=spec2, how=rng.choice(["serial", "parallel"]),
                   left=rng.choice(["finalize", "crash"]))
        scn["cli"] = rng.random() < 0.3
        if rng.random() < 0.3:      # what is in the way is not a set of jobs
            scn["left"] = rng.choice(["empty", "notes", "table", "single", "link", "job"])
            if scn["left"] == "single":
                scn["c1"] = one_cfg(rng)
    for k in ("c1", "c2"):      # asking not to resume is the same as not asking
        if rng.random() < 0.35:
            scn[k] = dict(scn[k], resume_checkpoint=False)
    if scn["left"] == "crash" and not multi and rng.random() < 0.3:
        scn["early"] = rng.randint(0, 3)
    if rng.random() < 0.4:      # both start in the same second
        scn["env2"]["clock"] = dict(scn["env"]["clock"])
    return scn


def tree(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = "dir"
        for x in names:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                b = f.read()
            out[os.path.relpath(p, d)] = (len(b), hashlib.sha1(b).hexdigest())
    return out


def compare(o, label, before, after, d, new_ok):
    for k, v in before.items():
        if k.endswith(".log") or k.endswith("input.yml"):
            if k not in after:
                o.bad("%s removed %s" % (label, k))
            continue
        if k not in after:
            o.bad("%s removed %s" % (label, k))
        elif after[k] != v:
            o.bad("%s changed %s" % (label, k))
    extra = [k for k in after if k not in before and not k.endswith((".log", "input.yml"))]
    if extra and not new_ok:
        o.bad("%s left %s behind" % (label, extra[:5]))


def first(emit, scn, out, plan):
    drive.enter(out, scn["env"], plan)
    m = drive.make(scn["c1"], out)
    for _ in range(scn["n1"]):
        m.update()
    if scn["left"] in ("finalize", "crash"):
        m.finalize()
    core.simos().end()
    return core.simos().opno()


def pp_scn(scn, cfg, spec, n):
    return {"cfg": cfg, "spec": spec, "parallel": 2 if scn["how"] == "parallel" else False,
            "duration": {"timesteps": n}, "sched": scn["sched"], "ncpu": 2, "cli": scn.get("cli")}


def first_pp(emit, scn, root, plan):
    return jobs.run_pp(emit, dict(pp_scn(scn, scn["c1"], scn["s1"], scn["n1"]), plan=plan), root, scn["env"])


def second(emit, scn, out, cfg, clobber, other):
    """Start the second run; report how it ended."""
    drive.enter(out, scn["env2"])
    keep = None
    if scn["left"] == "open" and other:
        keep = drive.make(scn["c1"], out)
        for _ in range(scn["n1"]):
            keep.update()
        emit("tree", tree(out))
    err = None
    obs = []
    try:
        c = dict(cfg)
        if clobber:
            c["clobber_netcdf"] = True
        m = drive.make(c, out)
        for _ in range(scn["n2"]):
            m.update()
            obs.append(drive.observe(m, ("state",))["state"])
        m.finalize()
    except Exception as e:
        err = [x.__name__ for x in type(e).__mro__]
    core.simos().end()
    if keep is not None:
        emit("after", tree(out))
        try:
            keep.finalize()
        except Exception:
            pass
    return {"err": err, "obs": obs}


def second_job(emit, scn, out, cfg, clobber):
    c = dict(cfg)
    if clobber:
        c["clobber_netcdf"] = True
    return jobs.run_pp(emit, pp_scn(scn, c, {"kind": "single"}, scn["n2"]), out, scn["env2"])


def run(scn, ctx):
    o = Outcome()
    return run_multi(o, scn, ctx) if scn["multi"] else run_single(o, scn, ctx)


def run_single(o, scn, ctx):
    root = ctx.dir("a")
    out = os.path.join(root, "out")
    os.makedirs(out)
    plan = ()
    if scn["left"] == "crash":
        ref = simproc(first, scn, ctx.dir("ref"), ())
        if ref.value is None:
            o.bad("first run failed: %s" % ref.error)
            return o
        plan = [{"at": int(scn["crash_pick"] * ref.value), "action": core.KILL_BEFORE}]
        if scn.get("early") is not None:    # while the output file is being created
            plan = [{"at": scn["early"], "action": core.KILL_AFTER, "match": "pyDeltaRCM_output"}]
        o.fault("crash-before-op" if scn.get("early") is None else "crash-creating-output")
    if scn["left"] != "open":
        r = simproc(first, scn, out, plan)
        if r.error or not (r.killed or r.value is not None):
            o.bad("first run failed: %s" % (r.error or r.describe()))
            return o
    how = scn["how"] if scn["left"] != "open" else "model"
    before = tree(out)
    if how == "model":
        r2 = simproc(second, scn, out, scn["c2"], scn["clobber"], True)
        if r2.value is None:
            o.bad("second run died: %s" % (r2.error or r2.describe()))
            return o
        if scn["left"] == "open":
            before = r2.of("tree")[0]
        err = r2.value["err"]
        refused = bool(err)
        told = refused and "FileExistsError" in err
    else:
        r2 = simproc(second_job, scn, root, scn["c2"], scn["clobber"])
        if r2.value is None:
            o.bad("second run died: %s" % (r2.error or r2.describe()))
            return o
        v = r2.value
        text = (v["err"] or "") + v["stdout"]
        if how == "serial":
            refused = v["end"] == "raised"
            told = refused and "FileExistsError" in text
        else:
            refused = "ended in error" in text or v["end"] == "raised"
            told = refused and "xisting NetCDF4" in text
    exists = "pyDeltaRCM_output.nc" in before
    label = "second run (%s) after %s" % (how, scn["left"])
    if scn["left"] == "open" and scn["clobber"]:
        # overwriting a file that is open elsewhere is outside the statement
        o.count("clobber_of_open_file")
        return o
    if exists and not scn["clobber"]:
        if not told:
            o.bad("%s: an output file exists but no FileExistsError was raised (%s)" % (label, r2.value.get("err")))
        compare(o, label, before, r2.of("after")[0] if scn["left"] == "open" else tree(out), out, False)
        o.count("refusals")
    else:
        if refused:
            o.bad("%s failed: %s" % (label, r2.value.get("err")))
            return o
        sd = ctx.dir("solo")
        s = simproc(second, dict(scn, left="x"), sd, scn["c2"], False, False)
        a = simproc(jobs.nc_of, os.path.join(out, "pyDeltaRCM_output.nc"))
        b = simproc(jobs.nc_of, os.path.join(sd, "pyDeltaRCM_output.nc"))
        if a.error or a.value != b.value or a.value is None:
            o.bad("%s with overwriting: output is not that of the new run alone: %s" % (
                label, a.error["msg"] if a.error else mdl.diff_digest(b.value or {}, a.value or {})[:5]))
        o.count("overwritten_as_asked" if exists else "nothing_there_yet")
    o.sig = core.digest(scn["left"], how, exists, scn["clobber"], scn["n1"], scn["n2"], sorted(scn["c2"]),
                        sorted(before)[:3], [k for k in before if k.endswith("npz")])
    o.nontrivial = exists
    o.sim_time = float(scn["n1"] + scn["n2"])
    o.sample = {k: scn[k] for k in ("left", "how", "clobber", "n1", "n2")}
    return o


THERE = ("empty", "notes", "table", "single", "link", "job")


def there(emit, scn, root):
    """A folder of the name of the jobs' output folder that some earlier activity left."""
    out = os.path.join(root, "out")
    if scn["left"] == "link":
        os.makedirs(os.path.join(root, "elsewhere"))
        os.symlink(os.path.join(root, "elsewhere"), out)
        return True
    os.makedirs(out)
    if scn["left"] == "single":
        return first(emit, scn, out, ())
    if scn["left"] == "job":
        os.makedirs(os.path.join(out, "job_001"))
        out = os.path.join(out, "job_001")
    if scn["left"] != "empty":
        with open(os.path.join(out, "jobs_parameters.txt" if scn["left"] == "table" else "notes.txt"), "w") as f:
            f.write("kept\n")
    return True


def run_multi(o, scn, ctx):
    root = ctx.dir("pp")
    plan = ()
    if scn["left"] == "crash":
        plan = [{"at": int(2 + scn["crash_pick"] * 150), "action": core.KILL_BEFORE}]
    if scn["left"] in THERE:
        r = simproc(there, scn, root)
        o.count("folder_there:" + scn["left"])
    else:
        r = simproc(first_pp, scn, root, plan)
    if scn["left"] in THERE:
        if not r.value:
            o.bad("could not prepare: %s" % (r.error or r.describe()))
            return o
    elif r.killed:
        o.fault("crash-before-op")
    elif r.value is None or r.value["end"] != "returned":
        if not (scn["left"] == "crash" and r.value):
            o.bad("first run failed: %s" % (r.value["err"] if r.value else (r.error or r.describe())))
            return o
    before = tree(root)
    out = "out/" in before
    r2 = simproc(jobs.run_pp, pp_scn(scn, scn["c2"], scn["s2"], scn["n2"]), root, scn["env2"])
    if r2.value is None:
        o.bad("second run died: %s" % (r2.error or r2.describe()))
        return o
    label = "second multi-job run (%s) after %s" % (scn["how"], scn["left"])
    if out:
        if r2.value["end"] != "raised" or "FileExistsError" not in r2.value["err"]:
            o.bad("%s: the job folder exists but no FileExistsError was raised" % label)
        compare(o, label, before, tree(root), root, False)
        o.count("multi_refusals")
        o.nontrivial = True
    elif not out and r2.value["end"] != "returned":
        o.bad("%s failed: %s" % (label, r2.value["err"]))
    o.sig = core.digest(scn["left"], scn["how"], sorted(before), scn["s1"]["kind"], scn["s2"]["kind"], scn["n1"])
    o.sim_time = float(scn["n1"])
    o.sample = {"left": scn["left"], "how": scn["how"], "first": scn["s1"], "second": scn["s2"]}
    return o


def shrink(scn):
    for k in ("n1", "n2"):
        if scn[k] > 0:
            yield dict(scn, **{k: scn[k] - 1})
    if scn["left"] == "crash":
        yield dict(scn, left="finalize")
    if not scn["multi"] and scn["how"] != "model":
        yield dict(scn, how="model")
