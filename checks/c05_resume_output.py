"""C05: resuming neither loses, repeats nor damages saved output."""
import os
import shutil

from checks.c04_records import custom_class
from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C05"
LEVEL = "fault_enumeration"
RULE = ("one case = one run with output and checkpoints, as an uninterrupted run and as a history of 1-4 "
        "interruptions: clean end, end without finalizing, SIGKILL at a numbered file operation during "
        "updates (outside netCDF writes) or at any file operation of a resume; after each interruption "
        "the records saved so far are read by another process, and the completed file is compared "
        "with the uninterrupted one; non-trivial when a resume happened and a record was saved after it; "
        "distinct by interruption points, schedule and variables")
REAL = ["DeltaModel time keeping, output file creation, copying at resume, saving, checkpoints",
        "netCDF4/HDF5"]
STUB = ["physics kernel (cheap seeded stand-in) in the quick tier, mixed in the thorough tier",
        "wall clock", "process death (SIGKILL of a forked process)"]
ASSUMPTIONS = ["no power failure: what the kernel accepted survives",
               "SIGKILL while the netCDF library writes a new record into the output file is excluded "
               "(HDF5 gives no guarantee there)"]
RUNS = {"quick": 420, "thorough": 10000}


def warm(tier):
    mdl.warm("light" if tier == "quick" else "full")


def gen(rng, i, tier):
    light = tier == "quick" or rng.random() < 0.7
    cfg = mdl.base_cfg(rng, light=light)
    n = rng.randint(2, 8) if i % 40 != 9 or not light else rng.choice([20, 35, 60])
    cfg["save_checkpoint"] = True
    drive.intervals(rng, cfg, n)
    dt = mdl.dt_of(cfg)
    if rng.random() < 0.6:
        cfg["save_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5, 2.5]) * dt))
    if rng.random() < 0.6:
        cfg["checkpoint_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5, 2.5]) * dt))
    if rng.random() < 0.15:
        dt = mdl.exact(cfg)
        cfg["checkpoint_dt"], cfg["save_dt"] = dt * rng.choice([1, 2]), dt * rng.choice([1, 1, 2, 3])
    mdl.add_outputs(rng, cfg, must=1)
    if rng.random() < 0.1:
        for k in list(mdl.GRIDS) + list(mdl.COMPONENTS):
            cfg.pop(k, None)
        cfg["save_metadata"] = True
    segs = []
    for _ in range(rng.randint(1, 4 if n < 10 else 8)):
        segs.append({"how": rng.choice(["finalize", "exit", "op", "op", "resume-op", "resume-op"]),
                     "upto": rng.randint(0, n), "env": drive.environment(rng),
                     "pick": rng.random(), "frac": rng.random(),
                     "action": rng.choice([core.KILL_BEFORE, core.KILL_AFTER, core.TORN_KILL])})
    return {"cfg": cfg, "n": n, "segs": segs, "env": drive.environment(rng),
            "last": drive.environment(rng), "custom": rng.random() < 0.25}


def body(emit, cfg, out, env, upto, custom, plan, end):
    drive.enter(out, env, plan)
    sm = core.simos()
    cls = mdl.model_class(cfg)
    if custom:
        cls = custom_class(cls)
    m = cls(out_dir=out, **mdl.clean(cfg))
    emit("init", {"iter": int(m.time_iter), "op": sm.opno()})
    while m.time_iter < upto:
        m.update()
        emit("step", {"iter": int(m.time_iter), "op": sm.opno(), "saved": int(m.save_iter)})
    ev = sm.events()
    if end == "finalize":
        m.finalize()
    sm.end()
    return ev


def reader(emit, out, full):
    p = os.path.join(out, "pyDeltaRCM_output.nc")
    if full:
        return mdl.nc_digest(p)
    r = mdl.read_nc(p)
    return {k: v[0] for k, v in r["vars"].items() if k not in ("x", "y")}


def lost(before, after):
    """Records of `before` that `after` no longer holds."""
    for k, a in before.items():
        if k not in after:
            return "variable %s" % k
        b = after[k]
        if b.shape[0] < a.shape[0]:
            return "records %d..%d of %s" % (b.shape[0], a.shape[0] - 1, k)
        if a.tobytes() != b[:a.shape[0]].tobytes():
            return "values of %s" % k
    return None


def run(scn, ctx):
    o = Outcome()
    cfg, n, custom = scn["cfg"], scn["n"], scn["custom"]
    rdir = ctx.dir("ref")
    ref = simproc(body, cfg, rdir, scn["env"], n, custom, (), "finalize")
    if ref.value is None:
        o.bad("uninterrupted run failed: %s" % ((ref.error or {}).get("msg") or ref.describe()))
        return o
    refnc = simproc(reader, rdir, True).value
    total = refnc["__n__"]
    out = ctx.dir("seg")
    resumes = 0
    trace = []
    prev = None            # records known to be saved
    for k, s in enumerate(scn["segs"] + [{"how": "finalize", "upto": n, "env": scn["last"]}]):
        have = os.path.exists(os.path.join(out, "checkpoint.npz"))
        nc = os.path.join(out, "pyDeltaRCM_output.nc")
        c = drive.resumed(cfg) if have else cfg
        if not have:
            if os.path.exists(nc) and k:
                pass
            shutil.rmtree(out)
            os.makedirs(out)
            prev = None
        plan = ()
        if s["how"] in ("op", "resume-op"):
            # number the operations of this very segment in a copy of the folder
            cp = ctx.dir("cp")
            shutil.rmtree(cp)
            shutil.copytree(out, cp)
            dry = simproc(body, c, cp, s["env"], s["upto"], custom, (), "exit")
            if dry.value is None:
                o.bad("segment %d cannot %s: %s" % (k, "resume" if have else "run",
                                                    (dry.error or {}).get("msg") or dry.describe()))
                return o
            ev = dry.value
            shutil.rmtree(cp)
            first = dry.of("init")[0]["op"]
            if s["how"] == "resume-op" and have:
                cand = [i for i in range(first) if s["action"] != core.TORN_KILL
                        or ev[i][1] != "pyDeltaRCM_output.nc"]
                if s["pick"] > 0.5:       # around the moves of files
                    near = [i for i in cand if ev[i][0] in ("rename", "unlink", "create", "truncate")]
                    cand = near or cand
            else:
                cand = [i for i in range(first, len(ev)) if ev[i][1] != "pyDeltaRCM_output.nc"]
            if cand:
                at = cand[int(s["pick"] * 7919 % 1 * len(cand))]
                plan = [{"at": at, "action": s["action"], "frac": s["frac"]}]
                o.count("kill-op:" + ev[at][0])
        r = simproc(body, c, out, s["env"], s["upto"], custom, plan,
                    "finalize" if s["how"] == "finalize" else "exit")
        if r.error or r.timed_out:
            o.bad("segment %d (%s) failed: %s" % (k, "resumed" if have else "fresh",
                                                  (r.error or {}).get("msg") or r.describe()))
            return o
        o.fault(("kill-during-resume" if s["how"] == "resume-op" and have else "kill-during-update")
                if r.killed else "stop-" + s["how"].replace("resume-op", "exit").replace("op", "exit"))
        resumes += bool(have)
        trace.append((s["how"], plan[0]["at"] if plan else -1, [x["iter"] for x in r.of("step")][-1:]))
        if r.of("init") or have:
            if not os.path.exists(nc):
                o.bad("after segment %d (%s) the output file is gone" % (k, trace[-1],))
                return o
            now = simproc(reader, out, False)
            if now.value is None:
                o.bad("after segment %d %s the output file cannot be read: %s"
                      % (k, trace[-1], now.error and now.error["msg"]))
                return o
            if prev is not None and have:
                x = lost(prev, now.value)
                if x:
                    o.bad("segment %d %s lost %s" % (k, trace[-1], x))
                    return o
            prev = now.value
    fin = simproc(reader, out, True)
    if fin.value is None:
        o.bad("completed output file cannot be read: %s" % (fin.error and fin.error["msg"]))
        return o
    d = mdl.diff_digest(refnc, fin.value)
    if d:
        o.bad("output of the interrupted run differs from the uninterrupted one in %s"
              % ", ".join("%s (%s vs %s)" % (x, fin.value.get(x), refnc.get(x)) for x in d[:6]))
    o.count("resumes", resumes)
    o.count("records_compared", total)
    o.sim_time = n * mdl.dt_of(cfg)
    o.sig = core.digest(trace, cfg["save_dt"], cfg.get("checkpoint_dt"), sorted(refnc))
    o.nontrivial = resumes > 0 and total > 1
    return o


def shrink(scn):
    for k in range(len(scn["segs"])):
        yield dict(scn, segs=scn["segs"][:k] + scn["segs"][k + 1:])
    for k, s in enumerate(scn["segs"]):
        if s["how"] != "finalize":
            yield dict(scn, segs=scn["segs"][:k] + [dict(s, how="finalize")] + scn["segs"][k + 1:])
    if scn["n"] > 1:
        yield dict(scn, n=scn["n"] - 1,
                   segs=[dict(s, upto=min(s["upto"], scn["n"] - 1)) for s in scn["segs"]])
    if scn["custom"]:
        yield dict(scn, custom=False)
    on = [k for k in list(mdl.GRIDS) + list(mdl.COMPONENTS) if scn["cfg"].get(k)]
    if len(on) > 1:
        for k in on:
            yield dict(scn, cfg=drive.strip(scn["cfg"], (k,)))
