"""C01: configuration and seed determine the run."""
import os
import re
import time

from sim import core, drive, jobs, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("one case = one configuration run twice or three times (full physics) in simulated "
        "processes whose clock, entropy, numpy/python generators, earlier in-process activity "
        "and observation options differ; a case is non-trivial when the bed changed and the "
        "environments differ; distinct by digest of the final state")
REAL = ["DeltaModel (all physics, initialisation, saving, checkpointing, logging)", "numba JIT code",
        "netCDF4/HDF5", "file system (scratch directory)"]
STUB = ["wall clock and sleep (simulated)", "kernel entropy (simulated)"]
ASSUMPTIONS = ["one model is updated at a time in a process (models share one generator)",
               "same machine and library versions for both runs"]
RUNS = {"quick": 300, "thorough": 6000}


def warm(tier):
    mdl.warm("full")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng)
    if rng.random() < 0.3:
        phys.tune(rng, cfg)
    n = rng.randint(2, 5)
    drive.gen_observation(rng, cfg, n, figs=(i % 40 == 7))
    if i % 40 == 7:
        n = min(n, 3)
    kind = rng.choice(["env", "env", "observe", "observe", "noseed", "stepmax"])
    if kind == "stepmax":
        cfg["stepmax"] = float(rng.choice([20, 60]))
        kind = "env"
    scn = {"cfg": cfg, "n": n, "kind": kind, "env": drive.environment(rng),
           "env2": drive.environment(rng), "prior2": drive.gen_prior(rng, False)}
    scn["way2"] = {"file": rng.random() < 0.3, "relative": rng.random() < 0.3,
                   "tz": rng.choice(["UTC", "UTC", "XXX-11:30", "YYY9"])}
    prior = scn["prior2"]
    if prior and rng.random() < 0.5:    # the very same model or seed was run before
        if prior["kind"] == "draws":
            prior["seed"] = cfg["seed"]
        elif rng.random() < 0.5:
            prior["cfg"] = dict(prior["cfg"], seed=cfg["seed"])
        else:
            prior["cfg"] = {k: v for k, v in cfg.items() if not k.startswith("save_")}
    if i % 50 == 11:                    # another interpreter, with another hash seed and core count
        scn["cold"] = {"hashseed": rng.randrange(1, 2**32), "threads": rng.choice([2, 4])}
    if kind == "observe":
        c = dict(cfg)
        drive.gen_observation(rng, c, n, figs=(3 if i % 8 == 0 else 0))
        if i % 8 == 0:
            c["save_dt"] = 1
        scn["cfg2"] = c
    return scn


def read_log_seed(d):
    for f in sorted(os.listdir(d)):
        if f.endswith(".log"):
            with open(os.path.join(d, f)) as fh:
                text = fh.read()
            m = re.search(r"Random seed is: (\d+)", text)
            if m:
                return int(m.group(1))
            m = re.search(r"(?i)seed\D{0,20}?\b(\d+)\b", text)      # however it is put
            if m:
                return int(m.group(1))
    return None


def go(emit, cfg, out, env, n, prior, way=None):
    way = way or {}
    drive.enter(out, env)
    os.environ["TZ"] = way.get("tz", "UTC")
    time.tzset()
    if prior:
        drive.prior_activity(prior, out)
    at = out
    if way.get("relative"):
        os.chdir(os.path.dirname(out))
        at = os.path.basename(out)
    if way.get("file"):
        path = os.path.join(os.path.dirname(out), "c01.yml")
        jobs.write_yaml(path, dict(mdl.clean(cfg), out_dir=at))
        m = mdl.model_class(cfg)(path)
    else:
        m = drive.make(cfg, at)
    emit("seed", None if m.seed is None else int(m.seed))
    emit("step", drive.observe(m, ("state",)))
    e0 = m.eta.copy()
    for _ in range(n):
        m.update()
        emit("step", drive.observe(m, ("state",)))
    m.finalize()
    core.simos().end()
    p = os.path.join(out, "pyDeltaRCM_output.nc")
    return {"moved": bool((m.eta != e0).any()),
            "nc": mdl.nc_digest(p) if os.path.exists(p) else None}


def compare(o, a, b, label):
    sa, sb = a.of("step"), b.of("step")
    for x, y in zip(sa, sb):
        d = mdl.diff_digest(x["state"], y["state"])
        if d:
            o.bad("%s: after %d timesteps the runs differ in %s" % (label, x["iter"], ", ".join(d)))
            return
    if len(sa) != len(sb):
        o.bad("%s: runs performed %d and %d steps" % (label, len(sa), len(sb)))


def failed(o, r, label):
    if r.error or r.value is None:
        o.bad("%s: run failed: %s" % (label, (r.error or {}).get("msg") or r.describe()))
        return True
    return False


def run(scn, ctx):
    o = Outcome()
    cfg, n = scn["cfg"], scn["n"]
    if scn["kind"] == "noseed":
        cfg = drive.strip(cfg, ("seed",))
    d1 = ctx.dir("a")
    a = simproc(go, cfg, d1, scn["env"], n, None)
    if failed(o, a, "reference"):
        return o
    cfg2 = dict(scn.get("cfg2", cfg))
    if scn["kind"] == "noseed":
        seed = a.of("seed")[0]
        logged = read_log_seed(d1)
        if seed is None:
            o.bad("no seed was given and the model reports none")
            return o
        if logged != seed:
            o.bad("no seed was given: the log records %s, the model used %s" % (logged, seed))
        cfg2["seed"] = seed
        o.count("unspecified_seed_runs")
    d2 = ctx.dir("b")
    if scn.get("cold"):
        b = core.coldproc(go, cfg2, d2, scn["env2"], n, scn["prior2"], scn.get("way2"),
                          where=ctx.dir("cold"), **scn["cold"])
        if b is None:
            o.count("cold_no_answer")
            return o
        o.fault("new-interpreter")
    else:
        b = simproc(go, cfg2, d2, scn["env2"], n, scn["prior2"], scn.get("way2"))
    if failed(o, b, "second run"):
        return o
    compare(o, a, b, {"env": "same configuration and seed, different environment",
                      "observe": "same physics and seed, different output options",
                      "noseed": "rerun with the recorded seed"}[scn["kind"]])
    if scn["kind"] != "observe" and a.value["nc"] != b.value["nc"]:
        o.bad("output files differ in %s" % ", ".join(
            mdl.diff_digest(a.value["nc"] or {}, b.value["nc"] or {})))
    if scn["kind"] != "noseed" and cfg.get("seed") is not None:
        if read_log_seed(d2) != cfg["seed"] or b.of("seed")[0] != cfg["seed"]:
            o.bad("seed %s was given but %s logged, %s reported" % (
                cfg["seed"], read_log_seed(d2), b.of("seed")[0]))
    o.fault("clock-offset")
    o.fault("entropy-change")
    o.fault("other-timezone", int((scn.get("way2") or {}).get("tz", "UTC") != "UTC"))
    o.fault("other-working-directory", int(bool((scn.get("way2") or {}).get("relative"))))
    if scn["prior2"]:
        o.fault("earlier-activity-" + scn["prior2"]["kind"])
    o.count("updates", 2 * n)
    o.sim_time = 2 * a.of("step")[-1]["time"]
    o.sig = core.digest(a.of("step")[-1]["state"])
    o.nontrivial = a.value["moved"]
    return o


def shrink(scn):
    if scn["n"] > 1:
        yield dict(scn, n=1)
        yield dict(scn, n=scn["n"] - 1)
    if scn["prior2"]:
        yield dict(scn, prior2=None)
    if scn.get("cold"):
        yield drive.strip(scn, ("cold",))
    if scn.get("way2"):
        yield drive.strip(scn, ("way2",))
    if scn["env2"] != scn["env"]:
        yield dict(scn, env2=scn["env"])
    base = drive.strip(scn["cfg"], drive.OBSERVATION)
    if scn["kind"] != "observe" and base != scn["cfg"]:
        yield dict(scn, cfg=base)
