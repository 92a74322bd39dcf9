"""C03: a crash or I/O error at any point leaves a usable, fresh checkpoint."""
import errno
import os

from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C03"
LEVEL = "fault_enumeration"
RULE = ("one case = one run with checkpointing; a first pass numbers its file operations, then the "
        "run is repeated with a fault (SIGKILL before/after, torn write + SIGKILL, EIO, ENOSPC for a "
        "span, short write) at one of them, then resumed in a new process; non-trivial when the fault "
        "fired and a checkpoint had been completed before; distinct by (fault, operation, kind of "
        "operation, file, resumed timestep)")
REAL = ["DeltaModel time keeping, checkpoint writing/loading, saving, logging", "numpy savez/load",
        "netCDF4/HDF5"]
STUB = ["physics kernel (cheap seeded stand-in drawing from the model's generator) in the quick tier",
        "wall clock", "process death (SIGKILL of a forked process)", "failing system calls (injected)"]
ASSUMPTIONS = ["no power failure: what the kernel accepted survives",
               "SIGKILL inside netCDF library writes to the output file is outside this property"]
RUNS = {"quick": 700, "thorough": 20000}


def warm(tier):
    mdl.warm("light" if tier == "quick" else "full")


def gen(rng, i, tier):
    light = tier == "quick" or rng.random() < 0.7
    cfg = mdl.base_cfg(rng, light=light)
    n = rng.randint(2, 6) if i % 50 != 9 or not light else rng.choice([25, 50])
    cfg["save_checkpoint"] = True
    drive.intervals(rng, cfg, n)
    dt = mdl.dt_of(cfg)
    if rng.random() < 0.8:
        cfg["checkpoint_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5, 2.5]) * dt))
    if rng.random() < 0.15:
        cfg["checkpoint_dt"] = mdl.exact(cfg) * rng.choice([1, 2, 3])
        cfg["save_dt"] = max(1, int(rng.choice([0.5, 1, 2]) * mdl.dt_of(cfg)))
    if rng.random() < 0.35:
        mdl.add_outputs(rng, cfg, must=1)
    act = rng.choice([core.KILL_BEFORE, core.KILL_AFTER, core.TORN_KILL, core.KILL_BEFORE,
                      core.ERRNO, core.ERRNO, core.SHORT])
    f = {"action": act, "pick": rng.random(), "frac": rng.random(),
         "err": rng.choice([errno.EIO, errno.ENOSPC]), "span": rng.choice([1, 1, 3, 10**9]),
         "rare": rng.random() < 0.5}
    if act == core.ERRNO and rng.random() < 0.5:      # and killed a few operations after the error
        f["then"] = {"action": rng.choice([core.KILL_BEFORE, core.KILL_AFTER, core.TORN_KILL]),
                     "after": rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])}
        f["rare"] = rng.random() < 0.8
    scn = {"cfg": cfg, "n": n, "fault": f, "env": drive.environment(rng),
           "env2": drive.environment(rng), "start_resumed": rng.random() < 0.3,
           "split": rng.randint(1, n), "persist": rng.random() < 0.6}
    if rng.random() < 0.2:              # switched on, or given another interval, on the way
        scn["start_resumed"] = False
        scn["turn"] = {"at": rng.randint(1, max(1, n - 1)), "off": rng.random() < 0.6,
                       "dt": max(1, int(rng.choice([0.5, 1.5, 2.5, 3.5]) * dt))
                       if rng.random() < 0.6 else None}
    return scn


def body(emit, cfg, out, env, n, plan, persist=False, turn=None):
    drive.enter(out, env, plan)
    sm = core.simos()
    if turn and turn["off"]:
        cfg = dict(cfg, save_checkpoint=False)
    m = drive.make(cfg, out)
    emit("done", {"iter": int(m.time_iter), "op": sm.opno(), "ckp": drive.ckp_digest(m),
                  "time": float(m.time)})
    while m.time_iter < n:
        if turn and m.time_iter >= turn["at"]:
            m.save_checkpoint = True
            if turn["dt"]:
                m.checkpoint_dt = turn["dt"]
        try:
            m.update()
        except OSError:
            if not persist:
                raise
            continue        # a caller that goes on when a save failed
        emit("done", {"iter": int(m.time_iter), "op": sm.opno(), "ckp": drive.ckp_digest(m),
                      "time": float(m.time)})
    ev = sm.events()
    fired = sm.fired()
    m.finalize()
    sm.end()
    return {"ev": ev, "fired": fired}


def peek(emit, out):
    """A reader of the checkpoint file itself."""
    z = mdl.read_ckp(os.path.join(out, "checkpoint.npz"))
    return {"iter": int(z["time_iter"]), "time": float(z["time"])}


def prepare(scn, ctx, tag):
    """A directory in the state from which the examined process starts."""
    out = ctx.dir(tag)
    if scn["start_resumed"]:
        simproc(drive.run_model, scn["cfg"], out, scn["env"], scn["split"], (), None, "exit",
                None, ())
        return out, drive.resumed(scn["cfg"])
    return out, scn["cfg"]


def run(scn, ctx):
    o = Outcome()
    n = scn["n"]
    ckdt = scn["cfg"].get("checkpoint_dt", scn["cfg"]["save_dt"])
    full = simproc(drive.run_model, scn["cfg"], ctx.dir("full"), scn["env"], n, (), None,
                   "finalize", None, ("state", "ckp"))
    out, cfg = prepare(scn, ctx, "dry")
    turn = scn.get("turn")
    dry = simproc(body, cfg, out, scn["env"], n, (), False, turn)
    for r, w in ((full, "run"), (dry, "run")):
        if r.error or r.value is None:
            o.bad("%s without faults failed: %s" % (w, (r.error or {}).get("msg") or r.describe()))
            return o
    want = {s["iter"]: s["ckp"] for s in full.of("init") + full.of("step")}
    times = {s["iter"]: s["time"] for s in full.of("init") + full.of("step")}
    f = scn["fault"]
    kill = f["action"] in (core.KILL_BEFORE, core.KILL_AFTER, core.TORN_KILL)
    ev = dry.value["ev"]
    if kill:
        cand = [i for i, e in enumerate(ev) if e[1] != "pyDeltaRCM_output.nc"]
        near = [i for i in cand if "checkpoint" in ev[i][1]]
    else:
        cand = near = [i for i, e in enumerate(ev) if "checkpoint" in e[1]]
    pool = near if (near and int(f["pick"] * 1e6) % 4) else cand
    if f.get("rare"):
        # operations other than writes are few, but each is a different place
        pool = [i for i in pool if ev[i][0] != "write"] or pool
    if not pool and scn["start_resumed"]:
        return o            # nothing was due in the resumed part
    if not pool:
        o.bad("checkpointing is on, but no checkpoint was written")
        return o
    at = pool[int(f["pick"] * len(pool))]
    plan = [{"at": at, "action": f["action"], "frac": f["frac"], "err": f["err"], "span": f["span"]}]
    if f.get("then"):
        plan.append({"at": sum("checkpoint" in e[1] for e in ev[:at]) + f["then"]["after"],
                     "match": "checkpoint", "action": f["then"]["action"], "frac": f["frac"]})
    out, cfg = prepare(scn, ctx, "flt")
    had = None
    if scn["start_resumed"]:
        p = simproc(peek, out)
        had = p.value and p.value["iter"]
    persist = bool(scn.get("persist")) and not kill
    r = simproc(body, cfg, out, scn["env"], n, plan, persist, turn)
    if r.timed_out:
        o.bad("run hung under %s at operation %d" % (core.ACTION_NAME[f["action"]], at))
        return o
    done = r.of("done")
    # (the netCDF library may crash in a later close when its file could not be written)
    died = r.killed or r.error is not None or r.describe() in ("signal 11", "signal 6")
    label = "%s at operation %d (%s %s)" % (core.ACTION_NAME[f["action"]], at, ev[at][0], ev[at][1])
    o.fault(core.ACTION_NAME[f["action"]] + (":" + errno.errorcode[f["err"]]
                                             if f["action"] == core.ERRNO else ""))
    if f.get("then") and r.killed:
        label += ", then killed"
        o.fault("crash-after-io-error")
    if not died and f["action"] != core.SHORT and r.value is None:
        o.bad("%s: process ended strangely (%s)" % (label, r.describe()))
        return o
    # a checkpoint that must exist: at the last completed call, no older than checkpoint_dt
    must = None
    if turn and turn["dt"] and done and done[-1]["iter"] > turn["at"]:
        ckdt = turn["dt"]
    if turn and turn["off"] and not (done and done[-1]["iter"] > turn["at"]):
        done = []
    if done:
        must = done[-1]["time"] - ckdt
    elif had is not None:
        must = times[had]
    if must is None:
        o.sig = core.digest("early", label)
        return o
    if not os.path.exists(os.path.join(out, "checkpoint.npz")):
        o.bad("%s: no checkpoint is left, though one had been completed" % label)
        return o
    p = simproc(peek, out)
    if p.value is None:
        o.bad("%s: the checkpoint left behind cannot be read: %s" % (label, p.error and p.error["msg"]))
        return o
    t = p.value["time"]
    if done and not (t > must or p.value["iter"] == done[-1]["iter"]):
        o.bad("%s: checkpoint is %.6g s old (timestep %d of %d), more than the checkpoint interval %g"
              % (label, done[-1]["time"] - t, p.value["iter"], done[-1]["iter"], ckdt))
        return o
    if not done and t < must:
        o.bad("%s: checkpoint went back from time %g to %g" % (label, must, t))
        return o
    rr = simproc(body, drive.resumed(scn["cfg"]), out, scn["env2"], n, ())
    if rr.error or rr.value is None:
        o.bad("%s: cannot resume: %s" % (label, (rr.error or {}).get("msg") or rr.describe()))
        return o
    for x in rr.of("done"):
        if x["iter"] not in want:
            o.bad("%s: resumed at timestep %d, never reached" % (label, x["iter"]))
            return o
        d = mdl.diff_digest(want[x["iter"]], x["ckp"])
        if d:
            o.bad("%s: after resuming, state at timestep %d differs in %s"
                  % (label, x["iter"], ", ".join(d)))
            return o
    o.count("resumes_after_fault")
    o.count("op:" + ev[at][0])
    o.sim_time = times[n]
    o.sig = core.digest(label, p.value["iter"])
    o.nontrivial = True
    return o


def shrink(scn):
    if scn["n"] > 2:
        yield dict(scn, n=scn["n"] - 1, split=min(scn["split"], scn["n"] - 1))
    if scn["start_resumed"]:
        yield dict(scn, start_resumed=False)
    if scn.get("turn"):
        yield drive.strip(scn, ("turn",))
    c = drive.strip(scn["cfg"], tuple(mdl.GRIDS) + tuple(mdl.COMPONENTS) + ("save_metadata",))
    if c != scn["cfg"]:
        yield dict(scn, cfg=c)
    if scn["fault"].get("then"):
        yield dict(scn, fault=drive.strip(scn["fault"], ("then",)))
    for p in (0.0, 0.25, 0.5):
        if scn["fault"]["pick"] > p:
            yield dict(scn, fault=dict(scn["fault"], pick=p))
