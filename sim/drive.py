"""Functions that run inside simulated processes, and scenario helpers."""
import os

import numpy as np

from . import mdl
from .core import simos

DAY0 = 1_600_000_000 * 10**9


def clock(rng):
    """A simulated clock: where it starts and how fast it runs."""
    return {"ns": DAY0 + rng.randrange(10**9) * 10**9,
            "step": rng.choice([1000, 10**6, 10**9, 50 * 10**9])}


def environment(rng):
    """What surrounds a simulated process, none of which may matter."""
    return {"clock": clock(rng), "entropy": rng.getrandbits(64),
            "pyrand": rng.getrandbits(32)}


def enter(out, env, plan=()):
    import random
    np.random.seed(env["pyrand"])
    random.seed(env["pyrand"])
    simos().begin(out, plan, env["clock"], env["entropy"])


def resumed(cfg, folder=True):
    c = dict(cfg)
    c["resume_checkpoint"] = folder
    return c


def make(cfg, out):
    return mdl.model_class(cfg)(out_dir=out, **mdl.clean(cfg))


def run_model(emit, cfg, out, env, upto, plan=(), prior=None, end="finalize",
              root=None, want=("state",), pre=None, reopen=()):
    """Construct a model and update it until `upto` completed timesteps.

    end: "finalize" | "exit" (the process ends without finalizing) |
         "kill" (SIGKILL itself between two updates)
    reopen: timesteps at which the model is given up (finalized or just left) and
         resumed by another model in the same process
    """
    enter(root or out, env, plan)
    if prior:
        prior_activity(prior, out)
    m = make(cfg, out)
    if pre:
        pre(m)
    emit("init", observe(m, want))
    reopen, left = list(reopen), []
    while m.time_iter < upto:
        m.update()
        emit("step", observe(m, want))
        if reopen and m.time_iter >= reopen[0][0]:
            if reopen.pop(0)[1]:
                m.finalize()
            elif getattr(m, "output_netcdf", None) is not None:
                m.output_netcdf.close()
            left.append(m)
            m = make(resumed(cfg), out)
            emit("init", observe(m, want))
    if end == "finalize":
        m.finalize()
        emit("final", m.time_iter)
    elif end == "kill":
        os.kill(os.getpid(), 9)
    simos().end()
    return {"fired": simos().fired(), "ops": simos().opno()}


def observe(m, want):
    o = {"iter": int(m.time_iter), "time": float(m.time)}
    if "state" in want:
        o["state"] = mdl.state_digest(m)
    if "save" in want:
        o["save"] = saved_arrays(m)
    if "ckp" in want:
        o["ckp"] = ckp_digest(m)
    if "arrays" in want:
        o["arrays"] = {f: np.array(getattr(m, f)) for f in mdl.FIELDS}
    o["H_SL"] = float(m.H_SL)
    return o


CKP_FIELDS = ("eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy",
              "sand_frac", "active_layer")


def ckp_digest(m):
    """What a restart must bring back."""
    d = mdl.state_digest(m, fields=CKP_FIELDS)
    return d


def saved_arrays(m):
    d = {}
    for k, v in mdl.GRIDS.items():
        d[v[0]] = np.array(getattr(m, v[1]), dtype=np.float32)
    for k, vs in mdl.COMPONENTS.items():
        for name, attr in vs:
            d[name] = np.array(getattr(m, attr), dtype=np.float32)
    d["active_layer"] = np.array(m.active_layer, dtype=np.float32)
    d["time"] = np.float32(m.time)
    for k in mdl.TIMEVAR_META:
        d["meta:" + k] = np.float32(getattr(m, k))
    return d


def prior_activity(prior, out):
    """Things that happened earlier in the same process."""
    kind = prior["kind"]
    st = mdl.shared()
    if kind == "draws":
        st.set_random_seed(prior["seed"])
        for _ in range(prior["n"]):
            st.get_random_uniform(1.0)
    elif kind == "model":
        m = make(prior["cfg"], os.path.join(out, "..", os.path.basename(out) + "_prior"))
        for _ in range(prior["n"]):
            m.update()
        if prior.get("finalize", True):
            m.finalize()


def gen_prior(rng, light):
    r = rng.random()
    if r < 0.4:
        return None
    if r < 0.7:
        return {"kind": "draws", "seed": rng.randrange(2**31), "n": rng.randrange(1, 700)}
    cfg = mdl.base_cfg(rng, light=light)
    return {"kind": "model", "cfg": cfg, "n": rng.randint(0, 2), "finalize": rng.random() < 0.7}


def intervals(rng, cfg, n, key_save="save_dt", key_ck="checkpoint_dt"):
    """Save and checkpoint intervals, in whole seconds, relative to dt."""
    dt = mdl.dt_of(cfg)

    def pick():
        k = rng.choice([0.5, 1, 1, 1.5, 2, 2.5, 3, 3.5, n + 2])
        v = max(1, int(k * dt))
        # stay clear of floating-point ties unless they are exact
        for j in range(1, 4 * n + 8):
            if abs(v - j * dt) < 1e-6 * dt and not (float(int(dt)) == dt):
                v += max(1, int(0.2 * dt))
        return int(v)
    cfg[key_save] = pick()
    if rng.random() < 0.6:
        cfg[key_ck] = pick()


def strip(cfg, keys):
    return {k: v for k, v in cfg.items() if k not in keys}


OBSERVATION = tuple(mdl.GRIDS) + tuple(mdl.COMPONENTS) + (
    "save_metadata", "save_dt", "checkpoint_dt", "save_checkpoint", "verbose",
    "save_figs_sequential", "save_eta_figs", "save_depth_figs", "save_stage_figs",
    "save_discharge_figs", "save_velocity_figs", "save_sedflux_figs", "save_sandfrac_figs",
    "legacy_netcdf")


def gen_observation(rng, cfg, n, figs=False):
    for k in OBSERVATION:
        cfg.pop(k, None)
    if figs or rng.random() < 0.8:
        mdl.add_outputs(rng, cfg, must=0, figs=figs)
    intervals(rng, cfg, n)
    if rng.random() < 0.5:
        cfg["save_checkpoint"] = True
    cfg["verbose"] = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.2:
        cfg["legacy_netcdf"] = True
