"""C11: finalising ends a run exactly once."""
import hashlib
import logging
import os

from checks import c04_records as c4
from checks.c06_save_failure import Errors
from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("one case = one to three models in one process, each in its own folder, driven by a seeded sequence of "
        "update, failing update, finalize, reading properties and (after a finalize) further update and finalize "
        "calls, with or without output, fresh or resumed, in which closing the file may fail; compared with a "
        "two-state reference machine; non-trivial when a call was made on a finalised model; distinct by call "
        "sequence and outcome")
REAL = ["DeltaModel construction, update, finalize", "netCDF4/HDF5", "logging"]
STUB = ["physics kernel (cheap seeded stand-in)", "wall clock", "netCDF close that fails (stand-in)"]
ASSUMPTIONS = ["a second finalize may write to the log"]
RUNS = {"quick": 700, "thorough": 20000}


def warm(tier):
    mdl.warm("light")


def gen(rng, i, tier):
    k = rng.choice([1, 1, 2, 3])
    models, ops = [], []
    for j in range(k):
        cfg = mdl.base_cfg(rng, light=True)
        dt = mdl.dt_of(cfg)
        if rng.random() < 0.8:
            mdl.add_outputs(rng, cfg, must=1)
        cfg["save_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5]) * dt))
        cfg["verbose"] = rng.choice([0, 1, 2])
        if rng.random() < 0.4:
            cfg["save_checkpoint"] = True
            cfg["checkpoint_dt"] = max(1, int(0.5 * dt))
        models.append({"cfg": cfg, "resumed": bool(cfg.get("save_checkpoint")) and rng.random() < 0.5})
    for _ in range(rng.randint(2, 9)):
        ops.append([rng.randrange(k), rng.choice(["update", "update", "update", "finalize", "finalize",
                                                  "failing-update", "look", "close-fails"])])
    return {"models": models, "ops": ops, "env": drive.environment(rng),
            "close_exc": rng.choice(["RuntimeError", "OSError", "ValueError"]),
            "fail_at": rng.choice(["hook_solve_water_and_sediment_timestep", "hook_finalize_timestep",
                                   "hook_output_data", "hook_output_checkpoint"])}


class BadClose:
    """An output file whose close fails."""

    def __init__(self, ds, exc):
        self.__dict__["ds"], self.__dict__["exc"] = ds, exc

    def close(self):
        raise {"RuntimeError": RuntimeError, "OSError": OSError, "ValueError": ValueError}[self.exc]("cannot close")

    def __getattr__(self, k):
        return getattr(self.ds, k)

    def __getitem__(self, k):
        return self.ds[k]


def files(d):
    out = {}
    for root, _, names in os.walk(d):
        for x in names:
            if not x.endswith(".log"):
                with open(os.path.join(root, x), "rb") as f:
                    out[x] = hashlib.sha1(f.read()).hexdigest()
    return out


def is_open(d):
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + fd).startswith(os.path.join(d, "pyDeltaRCM_output"))
        except OSError:
            pass
    return n


class Boom(Exception):
    pass


def body(emit, scn, root):
    h = Errors()
    drive.enter(root, scn["env"])
    ms, dirs, dead = [], [], []
    for j, s in enumerate(scn["models"]):
        d = os.path.join(root, "m%d" % j)
        if s["resumed"]:
            m = drive.make(s["cfg"], d)
            m.update()
            m.finalize()
            m = drive.make(drive.resumed(s["cfg"]), d)
        else:
            m = drive.make(s["cfg"], d)
        m.logger.addHandler(h)
        ms.append(m)
        dirs.append(d)
        dead.append(None)

    def boom():
        raise Boom("injected")
    for j, op in scn["ops"]:
        m, d = ms[j], dirs[j]
        others = [(i, is_open(dirs[i])) for i in range(len(ms)) if i != j]
        before = (mdl.state_digest(m), files(d), m.time_iter) if dead[j] else None
        e0 = h.n
        err = None
        try:
            if op == "update":
                m.update()
            elif op == "failing-update":
                setattr(m, scn["fail_at"], boom)
                try:
                    m.update()
                finally:
                    delattr(m, scn["fail_at"])
            elif op == "look":
                (m.time, m.time_iter, m.save_iter, m.dt, m.out_dir)
            elif op == "close-fails":
                if hasattr(m, "output_netcdf") and not dead[j]:
                    m.output_netcdf = BadClose(m.output_netcdf, scn["close_exc"])
            elif op == "finalize":
                m.finalize()
        except Exception as e:
            err = type(e).__name__
        rec = {"op": op, "model": j, "err": err, "was": dead[j], "logged": h.n - e0}
        if dead[j]:
            d2 = mdl.diff_digest(before[0], mdl.state_digest(m))
            rec["changed"] = d2 + [k for k in set(before[1]) | set(files(d)) if before[1].get(k) != files(d).get(k)]
        if op == "finalize" and not dead[j]:
            bad = isinstance(getattr(m, "output_netcdf", None), BadClose)
            dead[j] = "badclose" if bad else "closed"
            rec["open"] = 0 if bad else is_open(d)
            rec["now"] = dead[j]
        rec["others"] = [i for i, n in others if is_open(dirs[i]) != n]
        emit("op", rec)
        if not dead[j] and op == "update" and err is None:
            emit("snap", (j, float(m.time), int(m.time_iter), drive.saved_arrays(m)))
    core.simos().end()
    return dead


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("m")
    r = simproc(body, scn, root)
    if r.value is None:
        o.bad("process died: %s" % (r.error or r.describe()))
        return o
    after = 0
    for x in r.of("op"):
        lab = "%s on model %d" % (x["op"], x["model"])
        if x["others"]:
            o.bad("%s changed the output files of other models %s" % (lab, x["others"]))
        if x["was"]:
            after += 1
            if x["op"] in ("update", "failing-update", "finalize") and x["err"] is None:
                o.bad("%s after finalize did not raise" % lab)
            if x["op"] == "failing-update" and x["err"] == "Boom":
                o.bad("an update after finalize ran the model")
            if x["changed"]:
                o.bad("%s after finalize changed %s" % (lab, x["changed"]))
        elif x["op"] == "finalize":
            if x["now"] == "badclose":
                o.fault("close-fails")
                if x["err"] is None and not x["logged"]:
                    o.bad("%s: failure to close the output file was not reported" % lab)
            elif x["err"]:
                o.bad("%s raised %s" % (lab, x["err"]))
            elif x["open"]:
                o.bad("%s left the output file open" % lab)
        elif x["op"] == "update" and x["err"]:
            o.bad("%s raised %s" % (lab, x["err"]))
        elif x["op"] == "failing-update":
            o.fault("failing-update")
            if x["err"] != "Boom":
                o.bad("%s: error raised by a hook became %s" % (lab, x["err"]))
    # files of finalised models hold what was saved
    for j, s in enumerate(scn["models"]):
        cfg = s["cfg"]
        if r.value[j] != "closed" or not (mdl.saved_vars(cfg) or cfg.get("save_metadata")):
            continue
        rd = simproc(c4.reader, os.path.join(root, "m%d" % j))
        if rd.value is None:
            o.bad("output of finalised model %d is unreadable: %s" % (j, rd.error and rd.error["msg"]))
            continue
        times = list(rd.value["vars"]["time"][0])
        if times[:1] != [0.0] or any(a >= b for a, b in zip(times, times[1:])):
            o.bad("record times of model %d are %s" % (j, times))
        snaps = {float(__import__("numpy").float32(t)): d for jj, t, _, d in r.of("snap") if jj == j}
        failing = any(a == j and b == "failing-update" for a, b in scn["ops"])
        dt = mdl.dt_of(cfg)
        if cfg["save_dt"] < dt and not failing:
            first_final = next(i for i, x in enumerate(r.of("op")) if x["model"] == j and x.get("now"))
            n_up = sum(1 for x in r.of("op")[:first_final] if x["model"] == j and x["op"] == "update")
            want = 1 + n_up + (1 if s["resumed"] else 0)
            if len(times) != want:
                o.bad("output of finalised model %d has %d records, %d were saved" % (j, len(times), want))
        for k, t in enumerate(times):
            d = snaps.get(float(t))
            if d is None:
                continue
            for v in [g[0] for g in mdl.saved_vars(cfg)]:
                if not c4.same(rd.value["vars"][v][0][k], d[v]):
                    o.bad("record %d of %s of finalised model %d is wrong" % (k, v, j))
        o.count("finalised_files_verified")
    o.count("calls_after_finalise", after)
    o.sim_time = float(len(r.of("snap")))
    o.sig = core.digest([(x["op"], x["model"], x["err"], x["was"]) for x in r.of("op")], scn["fail_at"])
    o.nontrivial = after > 0
    o.sample = {"ops": scn["ops"], "outcome": [x["err"] for x in r.of("op")]}
    return o


def shrink(scn):
    for j in range(len(scn["ops"])):
        yield dict(scn, ops=scn["ops"][:j] + scn["ops"][j + 1:])
    for j, s in enumerate(scn["models"]):
        if s["resumed"]:
            yield dict(scn, models=scn["models"][:j] + [dict(s, resumed=False)] + scn["models"][j + 1:])
