"""C06: a failed save is never silent."""
import errno
import logging
import os

from checks import c04_records as c4
from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C06"
LEVEL = "fault_enumeration"
RULE = ("one case = one run with output and/or checkpoints whose file operations are numbered in a first "
        "pass and which is repeated with EIO, ENOSPC or EACCES at one of them (once, for a span, or from "
        "then on) or with short writes; the caller carries on after a raised error; every call is "
        "classified as reported (raised, or error logged) or quiet; non-trivial when a fault hit a data "
        "file; distinct by (fault, operation, file, call, reported)")
REAL = ["DeltaModel time keeping, saving, sync, checkpointing, finalize, logging", "netCDF4/HDF5"]
STUB = ["physics kernel (cheap seeded stand-in)", "wall clock", "failing system calls (injected)"]
ASSUMPTIONS = ["after a reported failure of the netCDF library nothing is claimed about the readability "
               "of that file", "failed writes of log lines are reported on standard error by the "
               "logging library and are not data"]
RUNS = {"quick": 700, "thorough": 20000}


def warm(tier):
    mdl.warm("light")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng, light=True)
    n = rng.randint(1, 5)
    drive.intervals(rng, cfg, n)
    dt = mdl.dt_of(cfg)
    cfg["save_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5]) * dt))
    if rng.random() < 0.85:
        mdl.add_outputs(rng, cfg, must=1, figs=(i % 12 == 4))
    if rng.random() < 0.5:
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = max(1, int(rng.choice([0.5, 1.5]) * dt))
    f = {"action": rng.choice([core.ERRNO] * 4 + [core.SHORT]), "pick": rng.random(),
         "frac": rng.random(), "err": rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES]),
         "span": rng.choice([1, 1, 2, 5, 40, 10**9])}
    return {"cfg": cfg, "n": n, "fault": f, "env": drive.environment(rng),
            "go_on": rng.random() < 0.6}


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.ERROR)
        self.n = 0

    def emit(self, record):
        self.n += 1


def body(emit, cfg, out, env, n, plan, go_on):
    h = Errors()
    logging.getLogger().addHandler(h)
    drive.enter(out, env, plan)
    sm = core.simos()

    def call(name, fn):
        e0, o0 = h.n, sm.opno()
        f0 = sum(sm.fired().values())
        try:
            v = fn()
            err = None
        except Exception as e:
            v, err = None, "%s: %s" % (type(e).__name__, str(e)[:200])
        emit("call", {"name": name, "err": err, "logged": h.n - e0, "ops": (o0, sm.opno()),
                      "faults": sum(sm.fired().values()) - f0})
        return v, err
    m, err = call("init", lambda: drive.make(cfg, out))
    if m is not None:
        emit("snap", (float(m.time), drive.saved_arrays(m)))
        emit("state", drive.observe(m, ("state", "ckp")))
        for k in range(n):
            _, err = call("update %d" % (k + 1), m.update)
            emit("snap", (float(m.time), drive.saved_arrays(m)))
            emit("state", drive.observe(m, ("state", "ckp")))
            if err and not go_on:
                break
        call("finalize", m.finalize)
    ev = sm.events()
    sm.end()
    return ev


def ckreader(emit, out):
    z = mdl.read_ckp(os.path.join(out, "checkpoint.npz"))
    import hashlib
    d = {f: hashlib.sha1(mdl._b(z[f])).hexdigest()[:12] for f in drive.CKP_FIELDS}
    return {"iter": int(z["time_iter"]), "fields": d}


def run(scn, ctx):
    o = Outcome()
    cfg, n, f = scn["cfg"], scn["n"], scn["fault"]
    rdir = ctx.dir("ref")
    ref = simproc(body, cfg, rdir, scn["env"], n, (), False)
    if ref.value is None or any(c["err"] or c["logged"] for c in ref.of("call")):
        bad = [c for c in ref.of("call") if c["err"] or c["logged"]]
        o.bad("run without faults failed: %s" % (ref.error or bad))
        return o
    ev = ref.value
    cand = [i for i, e in enumerate(ev) if not e[1].endswith(".log")]
    if not cand or int(f["pick"] * 1e7) % 12 == 0:
        cand = list(range(len(ev)))
    pics = [i for i in cand if ev[i][1].endswith(".png")]
    if pics and int(f["pick"] * 1e5) % 3:
        cand = pics
    at = cand[int(f["pick"] * len(cand))]
    plan = [{"at": at, "action": f["action"], "err": f["err"], "span": f["span"], "frac": f["frac"]}]
    out = ctx.dir("flt")
    r = simproc(body, cfg, out, scn["env"], n, plan, scn["go_on"])
    name = core.ACTION_NAME[f["action"]]
    if f["action"] == core.ERRNO:
        name += ":" + errno.errorcode[f["err"]] + (":for-ever" if f["span"] > 1000 else "")
    label = "%s at operation %d (%s %s)" % (name, at, ev[at][0], ev[at][1])
    o.fault(name)
    calls = r.of("call")
    if r.value is None:
        if r.describe() not in ("signal 11", "signal 6"):
            o.bad("%s: process died: %s" % (label, r.error or r.describe()))
            return o
        # HDF5/netCDF crashes on the storage error: loud, and not this code's
        o.count("netcdf_library_crashes")
        calls = calls + [{"name": "crashed", "err": r.describe(), "logged": 0}]
    reported = [c for c in calls if c["err"] or c["logged"]]
    # the computed states are those of the healthy run
    for a, b in zip(ref.of("state"), r.of("state")):
        d = mdl.diff_digest(a["state"], b["state"])
        if d:
            o.bad("%s: model state at timestep %d changed: %s" % (label, a["iter"], ", ".join(d)))
            return o
    snaps = ref.of("snap")
    grids = mdl.saved_vars(cfg)
    if not reported:
        if len(calls) != n + 2:
            o.bad("%s: calls made: %s" % (label, [c["name"] for c in calls]))
            return o
        pics = [x for x in os.listdir(rdir) if x.endswith(".png")]
        for x in pics:
            if not os.path.exists(os.path.join(out, x)):
                o.bad("%s: figure %s is missing, nothing reported" % (label, x))
                continue
            with open(os.path.join(out, x), "rb") as fh:
                if b"IEND" not in fh.read()[-16:]:
                    o.bad("%s: figure %s incomplete, nothing reported" % (label, x))
        if grids or cfg.get("save_metadata"):
            rd = simproc(c4.reader, out)
            if rd.value is None:
                o.bad("%s: nothing was reported but the output file is unreadable: %s"
                      % (label, rd.error and rd.error["msg"]))
                return o
            sched = c4.expected_schedule([t for t, _ in snaps], cfg["save_dt"])
            nc = rd.value
            if len(nc["vars"]["time"][0]) != len(sched):
                o.bad("%s: nothing was reported but %d of %d records are on disk"
                      % (label, len(nc["vars"]["time"][0]), len(sched)))
                return o
            for rec, k in enumerate(sched):
                for v in ["time"] + [g[0] for g in grids]:
                    if not c4.same(nc["vars"][v][0][rec], snaps[k][1][v]):
                        o.bad("%s: nothing was reported but record %d of %s is wrong" % (label, rec, v))
                        return o
                for v in mdl.TIMEVAR_META:
                    if not c4.same(nc["meta"][v][0][rec], snaps[k][1]["meta:" + v]):
                        o.bad("%s: nothing was reported but record %d of metadata %s is wrong"
                              % (label, rec, v))
                        return o
            o.count("quiet_runs_verified_on_disk")
    if cfg.get("save_checkpoint"):
        p = os.path.join(out, "checkpoint.npz")
        states = {s["iter"]: s for s in r.of("state")}
        quiet = []
        for c, s in zip(calls, r.of("state")):
            if not (c["err"] or c["logged"]):
                quiet.append(s)
        if os.path.exists(p):
            z = simproc(ckreader, out)
            if z.value is None:
                o.bad("%s: a damaged checkpoint is in place: %s" % (label, z.error and z.error["msg"]))
                return o
            s = states.get(z.value["iter"])
            if s is None or any(s["ckp"][k] != v for k, v in z.value["fields"].items()):
                o.bad("%s: checkpoint of timestep %s does not hold that state" % (label, z.value["iter"]))
                return o
            if quiet and quiet[-1]["time"] - s["time"] >= cfg["checkpoint_dt"]:
                o.bad("%s: nothing was reported at timestep %d but the checkpoint is of timestep %d"
                      % (label, quiet[-1]["iter"], s["iter"]))
                return o
        elif quiet and quiet[0]["iter"] == 0:
            o.bad("%s: no checkpoint and nothing reported" % label)
            return o
    o.count("calls_reporting", len(reported))
    o.count("calls_quiet", len(calls) - len(reported))
    o.sim_time = snaps[-1][0]
    o.sig = core.digest(label, [c["name"] for c in reported])
    o.nontrivial = not ev[at][1].endswith(".log")
    o.sample = {"fault": label, "calls": [(c["name"], c["err"]) for c in calls][:8]}
    return o


def shrink(scn):
    if scn["n"] > 1:
        yield dict(scn, n=scn["n"] - 1)
    if scn["go_on"]:
        yield dict(scn, go_on=False)
    if scn["fault"]["span"] > 1:
        yield dict(scn, fault=dict(scn["fault"], span=1))
    on = [k for k in list(mdl.GRIDS) + list(mdl.COMPONENTS) if scn["cfg"].get(k)]
    if len(on) > 1:
        for k in on:
            yield dict(scn, cfg=drive.strip(scn["cfg"], (k,)))
