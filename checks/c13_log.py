"""C13: the log records the whole run and survives crashes and clock changes."""
import errno
import glob
import os
import re

from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("one case = a history of 1..4 runs and resumes in one or two folders, each in the same or a new process, "
        "starting in the same second, later, or after the clock was set back, with clock jumps during the run, "
        "ended by finalize, exit, SIGKILL or SIGKILL in the middle of a (possibly torn) log write, or with "
        "failing log writes; after each one, what was added to the logs is compared with the timesteps, "
        "configuration and seed; non-trivial when a timestep was logged; distinct by history")
REAL = ["DeltaModel logging, configuration, seed, resume", "Python logging"]
STUB = ["physics kernel (cheap seeded stand-in)", "wall clock", "process death, torn and failing writes"]
ASSUMPTIONS = ["entries during an injected log write error may be lost (reported on standard error by the logging "
               "library)"]
RUNS = {"quick": 600, "thorough": 16000}


def warm(tier):
    mdl.warm("light")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng, light=True)
    cfg["save_checkpoint"] = True
    cfg["checkpoint_dt"] = 1
    if rng.random() < 0.4:
        mdl.add_outputs(rng, cfg, must=1)
        cfg["clobber_netcdf"] = True
    if rng.random() < 0.3:
        cfg.pop("seed")
    if rng.random() < 0.2:              # long timesteps
        cfg["C0_percent"] = rng.choice([0.01, 0.001, 0.0003, 0.00007])
    env = drive.environment(rng)
    env["clock"]["step"] = rng.choice([1000, 1000, 10**6, 10**9])
    runs = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        runs.append({"n": rng.randint(0, 5) if rng.random() < 0.985 else rng.randint(90, 140), "verbose": rng.choice([0, 0, 1, 2]),
                     "resume": k > 0 and rng.random() < 0.5,
                     "folder": rng.choice([0, 0, 0, 1]),
                     "newproc": rng.random() < 0.6,
                     "jump": rng.choice([None, None, "same", "back", "ahead", "mid-back", "mid-ahead"]),
                     "jump_s": rng.choice([1, 3600, 10**6, 3 * 10**7]),
                     "end": rng.choice(["finalize", "finalize", "exit", "kill", "torn", "eio"]),
                     "at": rng.random(), "frac": rng.random()})
    return {"cfg": cfg, "runs": runs, "env": env}


def logs(d):
    return {os.path.relpath(p, d): open(p, "rb").read() for p in glob.glob(os.path.join(d, "**", "*.log"),
                                                                             recursive=True)}


def body(emit, cfg, root, env, group, ck):
    """Consecutive runs that share one process."""
    drive.enter(root, env)
    sm = core.simos()
    t0 = env["clock"]["ns"]
    for idx, r in group:
        d = os.path.join(root, "f%d" % r["folder"])
        have = os.path.exists(os.path.join(d, "checkpoint.npz"))
        c = dict(cfg, verbose=r["verbose"])
        c.setdefault("seed", None)
        c = {k: v for k, v in c.items() if v is not None}
        resume = r["resume"] and have
        if resume:
            c = drive.resumed(c)
        if r["jump"] == "same":
            sm.jump(t0 - sm.l.simos_now())
        elif r["jump"] == "back":
            sm.jump(-r["jump_s"] * 10**9)
        elif r["jump"] == "ahead":
            sm.jump(r["jump_s"] * 10**9)
        emit("begin", {"run": idx, "logs": logs(root), "resume": resume, "cfg": dict(c, out_dir=d)})
        sm.clear_plan()
        o0 = sm.opno()
        if r["end"] == "torn":
            sm.add_plan({"at": o0 + int(r["at"] * 60) + 1, "action": core.TORN_KILL, "frac": r["frac"]})
        elif r["end"] == "eio":
            sm.add_plan({"at": 3 + int(r["at"] * 60), "action": core.ERRNO, "span": 2, "err": errno.ENOSPC,
                         "match": ".log"})
        m = drive.make(c, d)
        emit("start", {"iter": int(m.time_iter), "seed": int(m.seed)})
        for k in range(r["n"]):
            if r["jump"] in ("mid-back", "mid-ahead") and k == r["n"] // 2:
                sm.jump((-1 if r["jump"] == "mid-back" else 1) * r["jump_s"] * 10**9)
            m.update()
            emit("step", {"iter": int(m.time_iter), "time": float(m.time)})
        if r["end"] == "kill":
            os.kill(os.getpid(), 9)
        if r["end"] in ("finalize", "torn", "eio"):
            m.finalize()
        if r["end"] == "torn":
            os.kill(os.getpid(), 9)
        sm.clear_plan()
        emit("end", {"run": idx, "logs": logs(root)})
    t1 = sm.l.simos_now()
    sm.end()
    return t1


ENTRY = re.compile(rb"[Tt]ime:? *([0-9.eE+]+) *[;,]? *timestep:? *([0-9.eE+]+)")


_DEF = {}


def defaults():
    """Values of what is not configured (None where the model derives one)."""
    if not _DEF:
        import yaml
        with open(os.path.join(os.path.dirname(mdl.shared().__file__), "default.yml")) as f:
            d = yaml.load(f, Loader=mdl.shared().custom_yaml_loader())
        _DEF.update({k: v["default"] for k, v in d.items() if v["default"] is not None})
    return _DEF


def judge(o, scn, beg, start, steps, after, label, run, complete):
    before = beg["logs"]
    new = b""
    for k, b in before.items():
        a = after.get(k)
        if a is None:
            o.bad("%s: earlier log %s is gone" % (label, k))
            return
        if not a.startswith(b):
            o.bad("%s: entries of earlier log %s were altered" % (label, k))
            return
    d = "f%d/" % run["folder"]
    for k, a in after.items():
        add = a[len(before.get(k, b"")):]
        if add and not k.startswith(d):
            o.bad("%s: wrote to the log of another folder: %s" % (label, k))
        new += add
    ents = [(int(float(b)), float(a)) for a, b in ENTRY.findall(new)]
    if start is None:
        return
    mine = [e for e in ents if e[0] > start["iter"]]
    want = [(s["iter"], s["time"]) for s in steps]
    if run["end"] == "eio":
        o.fault("log-write-error")
        w = {i: t for i, t in want}
        for i, t in mine:
            if i not in w or abs(w[i] - t) > 0.06 + 1e-9 * abs(t):
                o.bad("%s: log states timestep %s at %s" % (label, i, t))
    else:
        # a process killed inside an update may have logged that timestep
        if complete is False and len(mine) == len(want) + 1:
            mine = mine[:-1]
        if [i for i, _ in mine] != [i for i, _ in want]:
            o.bad("%s: timesteps in the log are %s, completed were %s" % (
                label, [i for i, _ in mine], [i for i, _ in want]))
            return
        for (i, t), (_, t2) in zip(mine, want):
            if abs(t - t2) > 0.06 + 1e-9 * abs(t2):
                o.bad("%s: log gives time %s for timestep %d, model time is %s" % (label, t, i, t2))
                return
        text = new.decode("utf8", "replace").split("\n")
        if not any("seed" in ln.lower() and str(start["seed"]) in ln for ln in text):
            o.bad("%s: the seed %s is not in the log" % (label, start["seed"]))
        if not beg["resume"]:
            said = dict(defaults(), **mdl.clean(beg["cfg"]))
            for k, v in said.items():
                if not any(re.search(r"\b%s\b" % re.escape(k), ln) and str(v) in ln for ln in text):
                    o.bad("%s: configuration value %s=%s is not in the log" % (label, k, v))
                    return
            o.count("configurations_verified")
    o.count("entries_verified", len(want))


def run(scn, ctx):
    o = Outcome()
    root = ctx.dir("l")
    cfg = scn["cfg"]
    groups = []
    for idx, r in enumerate(scn["runs"]):
        prev = scn["runs"][idx - 1] if idx else None
        if not groups or r["newproc"] or prev["end"] in ("kill", "torn"):
            groups.append([])
        groups[-1].append((idx, r))
    env = scn["env"]
    total = 0
    for g in groups:
        p = simproc(body, cfg, root, env, g, None)
        if p.error or not (p.killed or p.value is not None):
            o.bad("run failed: %s" % (p.error["type"] + ": " + p.error["msg"] if p.error else p.describe()))
            return o
        cur = None
        segs = []
        for kind, val in p.msgs:
            if kind == "begin":
                cur = {"beg": val, "start": None, "steps": [], "end": None}
                segs.append(cur)
            elif kind == "start":
                cur["start"] = val
            elif kind == "step":
                cur["steps"].append(val)
            elif kind == "end":
                cur["end"] = val["logs"]
        for s in segs:
            r = scn["runs"][s["beg"]["run"]]
            after = s["end"] if s["end"] is not None else logs(root)
            label = "run %d (%s%s, ended by %s)" % (s["beg"]["run"], "resumed" if s["beg"]["resume"] else "new",
                                                    ", new process" if r["newproc"] else "", r["end"])
            done = s["start"] is not None and len(s["steps"]) == r["n"]
            judge(o, scn, s["beg"], s["start"], s["steps"], after, label, r, done)
            total += len(s["steps"])
            if r["end"] in ("kill", "torn"):
                o.fault("sigkill" if r["end"] == "kill" else "torn-write-crash")
            if r["jump"]:
                o.fault("clock-" + r["jump"])
            if o.violations:
                return o
        now = p.value
        env = dict(env, clock=dict(env["clock"], ns=now if now else env["clock"]["ns"]))
    o.sim_time = float(total)
    o.nontrivial = total > 0
    o.sig = core.digest([{k: r[k] for k in ("n", "resume", "folder", "newproc", "jump", "end")}
                         for r in scn["runs"]], "seed" in cfg)
    o.sample = {"runs": scn["runs"]}
    return o


def shrink(scn):
    for j in range(len(scn["runs"])):
        if len(scn["runs"]) > 1:
            yield dict(scn, runs=scn["runs"][:j] + scn["runs"][j + 1:])
    for j, r in enumerate(scn["runs"]):
        if r["n"] > 0:
            yield dict(scn, runs=scn["runs"][:j] + [dict(r, n=r["n"] - 1)] + scn["runs"][j + 1:])
        if r["jump"]:
            yield dict(scn, runs=scn["runs"][:j] + [dict(r, jump=None)] + scn["runs"][j + 1:])
        if r["end"] != "finalize":
            yield dict(scn, runs=scn["runs"][:j] + [dict(r, end="finalize")] + scn["runs"][j + 1:])
