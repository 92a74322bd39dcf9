"""C17: changing a boundary condition while running acts as if it had been configured."""
import os
import shutil

import numpy as np

from sim import core, drive, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("one case = one full-physics run in which 1-4 boundary conditions (inlet velocity and depth, "
        "sediment concentration, bedload fraction, rate of sea-level rise) are changed through the "
        "model's named variables at 1-2 points between updates; from the last change on, every state "
        "is compared bit for bit with that of a model configured with the new values and resumed, in "
        "another simulated process with another clock and entropy, from the checkpoint written just "
        "before the change; then both are stopped or killed and the first is resumed under the new "
        "configuration and compared again. Saved metadata must hold the values in force. Non-trivial "
        "when a changed value differs and updates were compared; distinct by final state")
REAL = ["DeltaModel (all physics)", "checkpoint writing and loading", "netCDF4/HDF5", "numba JIT code"]
STUB = ["clock and entropy", "process death (SIGKILL of a forked process)"]
ASSUMPTIONS = ["velocity changes are by powers of two, so that the erosion and deposition thresholds, which "
               "stay as configured, can be configured exactly for the compared model",
               "subsidence is off (C16 covers it)"]
RUNS = {"quick": 240, "thorough": 8000}


def warm(tier):
    mdl.warm("full")


NAMES = ("channel_flow_velocity", "channel_flow_depth", "influx_sediment_concentration",
         "bedload_fraction", "sea_surface_elevation_change")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng)
    if rng.random() < 0.3:
        phys.tune(rng, cfg)
    for k in ("toggle_subsidence", "subsidence_rate", "start_subsidence"):
        cfg.pop(k, None)
    cfg.update(hb=cfg.get("hb", cfg["h0"]), active_layer_thickness=cfg["h0"] / 2,
               save_checkpoint=True, checkpoint_dt=1, save_eta_grids=True, save_dt=1,
               save_metadata=True, coeff_U_dep_mud=0.3, coeff_U_ero_mud=1.5,
               coeff_U_ero_sand=1.05)
    k = rng.randint(1, 2)
    names = NAMES
    if rng.random() < 0.3:              # back and forth between a few values of a few conditions
        k = rng.randint(3, 4)
        names = rng.sample(NAMES[:3], 2) + rng.sample(NAMES[3:], 1)
    back = names is not NAMES
    at = sorted(rng.sample(range(0, 5), k))
    changes = []
    for a in at:
        what = rng.sample(names, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.1:
            what.append(what[0])        # set twice at once
        ch = []
        for w in what:
            ch.append([w, {"channel_flow_velocity": rng.choice([0.5, 2.0]),
                           "channel_flow_depth": rng.choice([0.5, 0.9, 1.6, 2.5, rng.uniform(0.6, 2.5)])
                           if not back else rng.choice([0.9, 1.6, cfg["h0"]]),
                           "influx_sediment_concentration":
                           rng.choice([0.0005, 0.001, 0.0021, 0.004, rng.uniform(0.0005, 0.004)])
                           if not back else rng.choice([0.0005, 0.0021]),
                           "bedload_fraction": rng.choice([0.0, 0.1, 0.3, 0.65, 1.0, rng.random()]),
                           "sea_surface_elevation_change":
                           rng.choice([0.0, 1e-5, -3e-6, 2e-4, rng.uniform(-1e-5, 1e-4)])}[w]])
        changes.append({"at": a, "set": ch})
    if not in_domain(cfg, changes):
        cfg["S0"] = 1e-5
    n = at[-1] + rng.randint(1, 3)
    return {"cfg": cfg, "changes": changes, "n": n, "more": rng.choice([0, 1, 2]),
            "how": rng.choice(["finalize", "exit", "kill"]),
            "envs": [drive.environment(rng) for _ in range(3)]}


def in_domain(cfg, changes):
    """Is the flow routing defined for every velocity of the run?"""
    f, low = 1.0, 1.0
    for ch in changes:
        for k, v in ch["set"]:
            f *= v if k == "channel_flow_velocity" else 1
            low = min(low, f)
    return phys.gamma(cfg, low) < 0.8


def final_cfg(scn):
    """The configuration that states the values in force after the last change."""
    c = dict(scn["cfg"])
    u0 = c["u0"]
    for ch in scn["changes"]:
        for k, v in ch["set"]:
            if k == "channel_flow_velocity":
                c["u0"] = c["u0"] * v
            elif k == "channel_flow_depth":
                c["h0"] = v
            elif k == "influx_sediment_concentration":
                c["C0_percent"] = v * 100
            elif k == "bedload_fraction":
                c["f_bedload"] = v
            else:
                c["SLR"] = v
    r = u0 / c["u0"]
    for k in ("coeff_U_dep_mud", "coeff_U_ero_mud", "coeff_U_ero_sand"):
        c[k] = c[k] * r
    return c


def changing(emit, scn, out, snap, env):
    drive.enter(out, env)
    m = drive.make(scn["cfg"], out)
    todo = {c["at"]: c["set"] for c in scn["changes"]}
    last = max(todo)
    emit("meta", (float(m.time), inforce(m)))
    while m.time_iter < scn["n"]:
        it = int(m.time_iter)
        if it in todo:
            if it == last and it > 0:
                m.output_netcdf.sync()
                shutil.copytree(out, snap)
            for k, v in todo[it]:
                if k == "channel_flow_velocity":
                    v = m.channel_flow_velocity * v
                setattr(m, k, v)
                got = getattr(m, k)
                want = v * 100 if k == "influx_sediment_concentration" else v
                if got != want:
                    emit("bad", "%s was set to %r, it is %r" % (k, want, got))
        m.update()
        emit("step", drive.observe(m, ("state",)))
        emit("meta", (float(m.time), inforce(m)))
    if scn["how"] == "finalize":
        m.finalize()
    elif scn["how"] == "kill":
        os.kill(os.getpid(), 9)
    core.simos().end()
    return True


def inforce(m):
    return {k: float(getattr(m, k)) for k in mdl.TIMEVAR_META}


def read_meta(emit, path):
    r = mdl.read_nc(path)
    return [(float(t), {k: float(r["meta"][k][0][i]) for k in mdl.TIMEVAR_META})
            for i, t in enumerate(r["vars"]["time"][0])]


def run(scn, ctx):
    o = Outcome()
    if not in_domain(scn["cfg"], scn["changes"]):
        return o                # only a shrunk scenario gets here
    out = ctx.dir("a")
    snap = os.path.join(ctx.dir("s"), "b")
    last = scn["changes"][-1]["at"]
    cfg2 = final_cfg(scn)
    a = simproc(changing, scn, out, snap, scn["envs"][0])
    for b in a.of("bad"):
        o.bad(b)
    if a.error or not (a.value or (scn["how"] == "kill" and a.killed)):
        o.bad("the run with changes failed: %s" % ((a.error or {}).get("msg") or a.describe()))
    if o.violations:
        return o
    rd = simproc(read_meta, os.path.join(out, "pyDeltaRCM_output.nc"))
    if rd.value is None:
        o.bad("output file not readable: %s" % ((rd.error or {}).get("msg") or rd.describe()))
        return o
    force = {np.float32(t): v for t, v in a.of("meta")}
    for t, v in rd.value:
        w = force.get(np.float32(t))
        for k in mdl.TIMEVAR_META:
            if w is None or abs(v[k] - w[k]) > 1e-6 * (1 + abs(w[k])):
                o.bad("saved %s at %g s is %g, %s was in force" % (k, t, v[k], w and w[k]))
                return o
    want = {s["iter"]: s["state"] for s in a.of("step")}
    n = scn["n"] + scn["more"]
    base = snap if last > 0 else ctx.dir("f")
    b = simproc(drive.run_model, drive.resumed(cfg2) if last > 0 else cfg2, base, scn["envs"][1], n,
                (), None, "finalize", None, ("state",))
    if b.error or b.value is None:
        o.bad("the configured run failed: %s" % ((b.error or {}).get("msg") or b.describe()))
        return o
    mine = {s["iter"]: s["state"] for s in b.of("step")}
    if last == 0:
        # the initial state itself depends on the configuration: only time keeping is compared
        for it, s in mine.items():
            if it in want and want[it]["time"] != s["time"]:
                o.bad("timestep %d ends at another time than if configured" % it)
                return o
    else:
        for it in range(last + 1, scn["n"] + 1):
            d = mdl.diff_digest(want[it], mine[it])
            if d:
                o.bad("timestep %d after the change differs from the configured model in %s"
                      % (it, ", ".join(d)))
                return o
            o.count("updates_compared")
        if scn["more"]:
            c = simproc(drive.run_model, drive.resumed(cfg2), out, scn["envs"][2], n, (), None,
                        "finalize", None, ("state",))
            if c.error or c.value is None:
                o.bad("resuming under the new configuration failed: %s"
                      % ((c.error or {}).get("msg") or c.describe()))
                return o
            for s in c.of("step"):
                d = mdl.diff_digest(mine[s["iter"]], s["state"])
                if d:
                    o.bad("timestep %d after a resume under the new configuration differs in %s"
                          % (s["iter"], ", ".join(d)))
                    return o
            o.fault("resume-after-" + scn["how"])
    for ch in scn["changes"]:
        for k, _ in ch["set"]:
            o.fault("change-" + k)
    o.sim_time = a.of("step")[-1]["time"]
    o.sig = core.digest(want[scn["n"]])
    o.nontrivial = o.cov.get("updates_compared", 0) > 0
    return o


def shrink(scn):
    ch = scn["changes"]
    if len(ch) > 1:
        yield dict(scn, changes=ch[1:])
    for i, c in enumerate(ch):
        if len(c["set"]) > 1:
            for j in range(len(c["set"])):
                yield dict(scn, changes=ch[:i] + [dict(c, set=c["set"][:j] + c["set"][j + 1:])] + ch[i + 1:])
    if scn["more"]:
        yield dict(scn, more=0)
    if scn["n"] > ch[-1]["at"] + 1:
        yield dict(scn, n=scn["n"] - 1)
