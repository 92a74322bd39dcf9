"""C02: stopping and resuming from checkpoints does not change the run."""
import os
import shutil

from sim import core, drive, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("one case = one configuration (full physics) run uninterrupted and run again as a history "
        "of 1-4 interruptions (clean end, end without finalizing, SIGKILL between updates, SIGKILL "
        "or torn write at a numbered file operation outside the output file), each followed by a "
        "resume in a new simulated process with another clock, entropy and earlier activity; "
        "non-trivial when at least one resume happened and the bed changed after it; distinct by "
        "interruption points and final state")
REAL = ["DeltaModel (all physics)", "checkpoint writing and loading", "netCDF4/HDF5", "numba JIT code"]
STUB = ["wall clock (simulated)", "kernel entropy (simulated)", "process death (SIGKILL of a forked process)"]
ASSUMPTIONS = ["a killed process loses nothing the kernel already accepted (no power failure)",
               "SIGKILL while the netCDF library itself writes the output file is excluded here"]
RUNS = {"quick": 260, "thorough": 6000}


def warm(tier):
    mdl.warm("full")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng)
    if rng.random() < 0.3:
        phys.tune(rng, cfg)
    n = rng.randint(3, 7) if i % 40 != 9 else rng.choice([20, 30, 45])
    cfg["save_checkpoint"] = True
    drive.intervals(rng, cfg, n)
    if rng.random() < 0.7:   # most cases checkpoint every step or two
        dt = mdl.dt_of(cfg)
        cfg["checkpoint_dt"] = max(1, int(rng.choice([0.5, 0.5, 1.5]) * dt))
    if rng.random() < 0.1:
        cfg["checkpoint_dt"] = mdl.exact(cfg) * rng.choice([1, 2])
    if rng.random() < 0.4:
        mdl.add_outputs(rng, cfg, must=1)
    segs = []
    for _ in range(rng.randint(1, 4 if n < 10 else 9)):
        how = rng.choice(["finalize", "exit", "kill", "op", "op"])
        s = {"how": how, "upto": rng.randint(0, n), "env": drive.environment(rng),
             "prior": drive.gen_prior(rng, False)}
        if how == "op":
            s["action"] = rng.choice([core.KILL_BEFORE, core.KILL_AFTER, core.TORN_KILL])
            s["match"] = rng.choice(["checkpoint", "checkpoint", ".log"])
            s["at"] = rng.randrange(0, 30)
            s["frac"] = rng.random()
        if rng.random() < 0.25:     # resumed again in the same process
            s["reopen"] = sorted([rng.randint(1, n), rng.random() < 0.6] for _ in range(rng.choice([1, 1, 2])))
        segs.append(s)
    return {"cfg": cfg, "n": n, "segs": segs, "env": drive.environment(rng),
            "last": {"env": drive.environment(rng), "prior": drive.gen_prior(rng, False)},
            "moved": rng.random() < 0.2}


def run(scn, ctx):
    o = Outcome()
    cfg, n = scn["cfg"], scn["n"]
    ref = simproc(drive.run_model, cfg, ctx.dir("ref"), scn["env"], n, (), None, "finalize",
                  None, ("state", "ckp"))
    if ref.error or ref.value is None:
        o.bad("uninterrupted run failed: %s" % ((ref.error or {}).get("msg") or ref.describe()))
        return o
    want = {s["iter"]: s for s in ref.of("init") + ref.of("step")}
    out = ctx.dir("seg")
    resumes = after = 0
    trace = []
    segs = scn["segs"] + [dict(scn["last"], how="finalize", upto=n)]
    folder = True
    for k, s in enumerate(segs):
        have = os.path.exists(os.path.join(out, "checkpoint.npz"))
        c = cfg
        if have:
            c = drive.resumed(cfg, folder)
            if scn["moved"] and k == len(segs) - 1 and not mdl.saved_vars(cfg) \
                    and not cfg.get("save_metadata"):
                # resume in another directory, naming the folder of the checkpoint
                new = ctx.dir("moved")
                c = drive.resumed(cfg, out)
                out = new
        else:
            shutil.rmtree(out)
            os.makedirs(out)
        plan = ()
        if s["how"] == "op":
            plan = [{"at": s["at"], "action": s["action"], "match": s["match"], "frac": s["frac"]}]
        end = s["how"] if s["how"] != "op" else "finalize"
        r = simproc(drive.run_model, c, out, s["env"], s["upto"], plan, s["prior"], end,
                    None, ("state", "ckp"), None, s.get("reopen", ()))
        if r.error:
            o.bad("segment %d (%s) failed: %s: %s" % (k, "resumed" if have else "fresh",
                                                      r.error["type"], r.error["msg"]))
            return o
        if r.timed_out:
            o.bad("segment %d hung" % k)
            return o
        if r.killed:
            o.fault("kill-" + s["how"])
        else:
            o.fault("stop-" + s["how"])
        for x in s.get("reopen", ()):
            o.fault("resume-in-process", 1 if len(r.of("init")) > 1 else 0)
        if have or s.get("reopen"):
            resumes += have + len(r.of("init")[1:])
            for x in r.of("init"):
                w = want.get(x["iter"])
                if w is None:
                    o.bad("resumed at timestep %d, which the run never had" % x["iter"])
                    return o
                d = mdl.diff_digest(w["ckp"], x["ckp"])
                if d:
                    o.bad("state just after resuming at timestep %d differs in %s"
                          % (x["iter"], ", ".join(d)))
                    return o
        for x in r.of("step"):
            w = want.get(x["iter"])
            if w is None:
                o.bad("resumed run reached unexpected timestep %d" % x["iter"])
                return o
            d = mdl.diff_digest(w["state"], x["state"])
            if d:
                o.bad("state after timestep %d of the resumed run differs in %s"
                      % (x["iter"], ", ".join(d)))
                return o
            after += have
        trace.append((s["how"], s["upto"], [x["iter"] for x in r.of("step")][-1:]))
    o.count("resumes", resumes)
    o.count("updates_compared_after_resume", after)
    o.sim_time = ref.of("step")[-1]["time"] if ref.of("step") else 0
    o.sig = core.digest(trace, want[n]["state"])
    o.nontrivial = resumes > 0 and after > 0
    return o


def shrink(scn):
    for k in range(len(scn["segs"])):
        yield dict(scn, segs=scn["segs"][:k] + scn["segs"][k + 1:])
    if scn["n"] > 1:
        yield dict(scn, n=scn["n"] - 1,
                   segs=[dict(s, upto=min(s["upto"], scn["n"] - 1)) for s in scn["segs"]])
    for k, s in enumerate(scn["segs"]):
        if s["how"] == "op":
            yield dict(scn, segs=scn["segs"][:k] + [dict(s, how="finalize")] + scn["segs"][k + 1:])
        if s["prior"]:
            yield dict(scn, segs=scn["segs"][:k] + [dict(s, prior=None)] + scn["segs"][k + 1:])
        if s.get("reopen"):
            yield dict(scn, segs=scn["segs"][:k] + [dict(s, reopen=s["reopen"][:-1])] + scn["segs"][k + 1:])
    if scn["last"]["prior"]:
        yield dict(scn, last=dict(scn["last"], prior=None))
