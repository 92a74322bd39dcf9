"""C10: a run lasts exactly as long as specified."""
import os

from sim import core, drive, jobs, mdl, par
from sim.core import Outcome, simproc

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("one case = one run (single or multi-job, serial or parallel under a seeded interleaving) whose duration "
        "is given in timesteps (0..400, arbitrary timestep length), seconds or years with an intermittency "
        "factor (or in several ways, of which the documented one counts), by YAML, keyword or command line, run to its end or cut off by a kill, and then resumed for a "
        "second duration; the timesteps performed are counted from the model's own calls; some runs are dry; non-trivial when a "
        "timestep was performed; distinct by timestep length, duration, way of giving it and schedule")
REAL = ["Preprocessor, serial and parallel jobs", "DeltaModel time keeping, checkpoint and resume"]
STUB = ["multiprocessing (simulated scheduler)", "wall clock and sleep", "physics kernel (cheap seeded stand-in)",
        "process death"]
ASSUMPTIONS = ["durations in time are not within rounding error of a whole number of timesteps, unless both are "
               "whole seconds"]
RUNS = {"quick": 420, "thorough": 16000}
YEAR = 86400 * 365.25


def warm(tier):
    par.install()
    mdl.warm("light")


def gen_duration(rng, dt, upto):
    """-> (duration keys, expected number of timesteps)"""
    k = rng.choice([0, 1, 1, 2, 3, 3, 5, 7, rng.randint(0, upto)])
    kind = rng.choice(["timesteps", "timesteps", "timesteps", "time", "time_years"])
    if kind == "timesteps":
        d = {"timesteps": k}
        if rng.random() < 0.15:         # timesteps go before time, and time before years
            d[rng.choice(["time", "time_years"])] = rng.choice([0.0, 0.5, 3.3, 1e6])
        if rng.random() < 0.3:
            d["If"] = rng.choice([1, 0.5, 0.1])
        return d, k
    If = rng.choice([None, None, 1, 0.5, 0.1, 0.037])
    if k == 0:
        T = 0.0
    elif dt == int(dt) and If is None and kind == "time" and rng.random() < 0.6:
        T = k * dt                      # exact: whole seconds
    elif rng.random() < 0.5:            # just past a timestep, or just short of one
        eps = rng.choice([0.3, 0.01, 0.6]) if dt > 2 else 0.05 * dt
        T = (k - 1) * dt + eps if rng.random() < 0.6 else k * dt - eps
    else:
        T = (k - rng.uniform(0.1, 0.9)) * dt
    T = T / (If or 1)
    d = {kind: T if kind == "time" else T / YEAR}
    if kind == "time" and rng.random() < 0.15:
        d["time_years"] = rng.choice([0.0, 1e-7, 1.0])
    if If is not None:
        d["If"] = If
    return d, k


def gen(rng, i, tier):
    multi = rng.random() < 0.45
    cfg, spec = jobs.gen_spec(rng, maxjobs=3, light=True, kinds=("set", "matrix") if multi else ("single",))
    for k in ("u0", "C0_percent", "h0"):
        for s in spec.get("set", ()):
            s.pop(k, None)
        spec.get("matrix", {}).pop(k, None)
    if "set" in spec and not all(spec["set"]):
        spec["set"] = [{"seed": 1 + j} for j in range(len(spec["set"]))]
    if "matrix" in spec and not spec["matrix"]:
        spec["matrix"] = {"seed": [4, 5]}
    base = mdl.base_cfg(rng, light=True)
    for k in ("u0", "C0_percent", "h0"):
        cfg[k] = base[k]
    if rng.random() < 0.3:
        cfg.update(dx=5.0, Length=50.0, Width=60.0, N0_meters=15.0, L0_meters=5.0, u0=1.0, h0=1.0,
                   C0_percent=0.1)
        cfg.pop("hb", None)
    for k in list(spec.get("matrix") or (spec.get("set") or [{}])[0]):
        cfg.pop(k, None)
    long = i % 6 == 0
    for k in list(mdl.GRIDS) + list(mdl.COMPONENTS) + ["save_metadata"]:
        cfg.pop(k, None)
    if long:
        cfg.pop("save_checkpoint", None)
        spec = {"kind": "single"}
        cfg.setdefault("seed", 1)
    dt = mdl.dt_of(dict(base, **cfg))
    d1, k1 = gen_duration(rng, dt, 400 if long else 9)
    d2, k2 = gen_duration(rng, dt, 400 if long else 9)
    scn = {"cfg": cfg, "spec": spec, "parallel": rng.choice([False, False, 1, 2]), "ncpu": 3,
           "duration": d1, "duration2": d2, "k": [k1, k2], "dt": dt,
           "via": rng.choice(["yaml", "yaml", "kwargs", "cli"]), "pvia": rng.choice(["yaml", "arg"]), "sched": rng.getrandbits(48),
           "greedy": rng.choice(["mixed", "parent", "children"]), "resume": rng.random() < 0.6,
           "env": drive.environment(rng), "env2": drive.environment(rng), "plan": [], "kills": []}
    if rng.random() < 0.2:      # a user's model that changes the inlet velocity, and with it the timestep
        for _ in range(rng.randint(1, 3)):
            scn.setdefault("vary", {})[str(rng.randint(0, 6))] = rng.choice([0.31, 0.55, 0.9, 1.7, 2.6])
    if rng.random() < 0.06:
        scn.update(dry=rng.choice(["yaml", "arg"]), resume=False)
    if scn["via"] != "yaml" and rng.random() < 0.5:
        scn["yaml_duration"] = {k: (v + 3 if k == "timesteps" else v * 1.5 + dt) for k, v in d1.items()
                                if k != "If"}
        if scn["resume"]:
            scn["duration2"], scn["k"][1] = dict(d1), k1
    if scn["resume"]:
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = max(1, int(rng.choice([0.4, 1.3, 2.6]) * dt))
        if rng.random() < 0.4:
            if scn["parallel"]:
                scn["kills"] = [{"job": rng.randint(0, 2), "at": rng.randint(2, 25)}]
            else:
                scn["plan"] = [{"at": rng.randint(12, 160), "action": core.KILL_BEFORE}]
    return scn


def body(emit, scn, root, env, resume):
    jobs.OBS = ()
    return jobs.run_pp(emit, scn, root, env, resume)


def start_of(emit, root, names):
    out = {}
    for name, d in names:
        p = os.path.join(d, "checkpoint.npz")
        if os.path.exists(p):
            z = mdl.read_ckp(p)
            out[name] = (int(z["time_iter"]), float(z["time"]))
        else:
            out[name] = None
    return out


def judge(o, scn, v, starts, k, d, names, killed, label):
    for j, (name, _) in enumerate(names):
        ups = jobs.updates_of(v["history"], name)
        it0, t0 = starts[name]
        if j in killed:
            continue
        if scn.get("vary"):
            if "timesteps" not in d:
                T = (d["time"] if "time" in d else d["time_years"] * YEAR) * d.get("If", 1)
                tol = 1e-9 * (t0 + T) + 1e-6
                ts = [u["time"] - t0 for u in ups]
                if (ts[-1] if ts else 0) < T - tol or any(t > T + tol for t in ts[:-1]):
                    o.bad("%s: %s stopped after times %s, %s means %r" % (label, name, ts[-3:], d, T))
                    return
                k = len(ups)
            o.count("runs_with_changing_timestep")
        if len(ups) != k:
            o.bad("%s: %s performed %d timesteps, %s means %d" % (label, name, len(ups), d, k))
            return
        for a, u in enumerate(ups):
            if u["iter"] != it0 + a + 1:
                o.bad("%s: %s: timestep %d is numbered %d" % (label, name, it0 + a + 1, u["iter"]))
                return
            want = (it0 + a + 1) * scn["dt"]
            if not scn.get("vary") and abs(u["time"] - want) > 1e-9 * want + 1e-6:
                o.bad("%s: %s: time after timestep %d is %r, expected %r" % (label, name, u["iter"], u["time"], want))
                return
        o.count("timesteps", len(ups))


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("pp")
    n = len(jobs.expected_combos(scn["spec"]))
    out = os.path.join(root, "out")
    names = [("out", out)] if scn["spec"]["kind"] == "single" else [
        ("job_%03d" % j, os.path.join(out, "job_%03d" % j)) for j in range(n)]
    first = dict(scn) if scn["resume"] else dict(scn, plan=[], kills=[])
    r = simproc(body, first, root, scn["env"], False, timeout=120)
    cut = r.killed
    label = "%s, given by %s" % ("parallel" if scn["parallel"] else "serial", scn["via"])
    if not cut:
        if r.value is None or r.value["end"] != "returned":
            o.bad("run failed: %s" % (r.value["err"] if r.value else (r.error or r.describe())))
            return o
        if scn.get("dry"):
            made = [os.path.join(d, f) for d, _, fs in os.walk(out) for f in fs if f.endswith((".nc", ".npz"))]
            if made or any(t == "updated" for _, t, _ in r.value["history"]):
                o.bad("a dry run (%s) performed timesteps or made output: %s" % (scn["dry"], made))
            o.count("dry_runs")
            return o
        killed = {a for a, t, _ in r.value["history"] if t == "killed"}
        judge(o, scn, r.value, {nm: (0, 0.0) for nm, _ in names}, scn["k"][0], scn["duration"], names, killed, label)
        o.fault("kill-job", len(killed))
    else:
        o.fault("process-kill")
    if o.violations:
        return o
    done = 0 if cut else scn["k"][0]
    if scn["resume"]:
        st = simproc(start_of, root, names)
        if st.value and all(st.value.values()):
            r2 = simproc(body, dict(scn, plan=[], kills=[], sched=scn["sched"] + 1), root, scn["env2"], True,
                         timeout=120)
            if r2.value is None or r2.value["end"] != "returned":
                o.bad("resumed run failed: %s" % (r2.value["err"] if r2.value else (r2.error or r2.describe())))
                return o
            judge(o, scn, r2.value, st.value, scn["k"][1], scn["duration2"], names, (), label + ", resumed")
            done += scn["k"][1]
            o.count("resumed_runs")
    o.count("runs_by_" + next(x for x in ("timesteps", "time", "time_years") if x in scn["duration"]))
    o.sim_time = done * scn["dt"] * n
    o.sig = core.digest(scn["dt"], scn["duration"], scn["duration2"], scn["via"], scn["parallel"], cut, scn["resume"])
    o.nontrivial = done > 0
    o.sample = {k: scn[k] for k in ("dt", "duration", "duration2", "k", "via", "parallel", "resume")}
    return o


def shrink(scn):
    if scn.get("vary"):
        yield drive.strip(scn, ("vary",))
    if scn["resume"]:
        yield dict(scn, resume=False)
    if scn["via"] != "yaml":
        yield dict(scn, via="yaml")
    if scn["parallel"]:
        yield dict(scn, parallel=False, kills=[])
    if scn["plan"] or scn["kills"]:
        yield dict(scn, plan=[], kills=[])
    for j, key in ((0, "duration"), (1, "duration2")):
        if "timesteps" in scn[key] and scn["k"][j] > 1:
            for kk in (scn["k"][j] // 2, scn["k"][j] - 1):
                ks = list(scn["k"])
                ks[j] = kk
                yield dict(scn, k=ks, **{key: dict(scn[key], timesteps=kk)})
