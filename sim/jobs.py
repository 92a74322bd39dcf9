"""Multi-job runs under the simulated multiprocessing."""
import contextlib
import io
import itertools
import json
import os
import sys

import numpy as np

from . import core, drive, mdl, par

EXC = {"ValueError": ValueError, "RuntimeError": RuntimeError, "OSError": OSError,
       "KeyError": KeyError, "IndexError": IndexError, "TypeError": TypeError,
       "MemoryError": MemoryError, "ZeroDivisionError": ZeroDivisionError,
       "AttributeError": AttributeError, "FloatingPointError": FloatingPointError,
       "NotImplementedError": NotImplementedError, "AssertionError": AssertionError,
       "LinAlgError": np.linalg.LinAlgError, "StopIteration": StopIteration,
       "FileNotFoundError": FileNotFoundError, "PermissionError": PermissionError,
       "FileExistsError": FileExistsError, "InterruptedError": InterruptedError, "TimeoutError": TimeoutError,
       "EOFError": EOFError, "RecursionError": RecursionError, "UnboundLocalError": UnboundLocalError,
       "UserWarning": UserWarning, "OverflowError": OverflowError, "ImportError": ImportError,
       "BrokenPipeError": BrokenPipeError, "StopAsyncIteration": StopAsyncIteration}


# what errors may say: plain, with signs that formatting gives a meaning, and not ASCII
MSGS = ["boom%d-", "boom%d-", "boom%d {x} {0} {} %%s %%d ", "boom%d: d\u00e9bit ", "boom%d, 100%% "]


class JobError(Exception):
    pass


class OddError(Exception):
    """An error that holds on to what cannot be pickled, as errors of libraries may."""

    def __init__(self, msg, model):
        super().__init__(msg)
        self.model = lambda: model


_CLS = {}
OBS = ("state",)
VARY = {}        # timestep -> inlet velocity set (by the user's model) before it
FAILS = {}       # job folder name -> {"where", "step", "exc", "msg"}


def job_class(light, extra=False):
    """The model class handed to the job runner: records what happens, offers
    schedule points at the documented hooks, raises injected errors."""
    if (light, extra) in _CLS:
        return _CLS[light, extra]
    base = mdl.model_class({"_light": light, "_extra": extra})

    class JobModel(base):
        def _job(self):
            return os.path.basename(os.path.normpath(self.out_dir))

        def _maybe(self, where):
            f = FAILS.get(self._job())
            if f and f["where"] == where and (where in ("init", "finalize", "ctor")
                                              or self.time_iter == f["step"]):
                par.point("failing", {"job": self._job(), "where": where})
                exc = EXC.get(f["exc"], JobError)
                if f["exc"] == "exit":
                    raise SystemExit(f["code"])
                if f["exc"] == "interrupt":
                    raise KeyboardInterrupt
                if f["exc"] == "bare":
                    raise AssertionError
                if f["exc"] == "odd":
                    raise OddError(f["msg"] * f.get("times", 1), self)
                raise exc(f["msg"] * f.get("times", 1))

        def hook_init_output_file(self):
            par.point("work", {"job": self._job()})
            self._maybe("init")

        def hook_load_checkpoint(self):
            par.point("load", {"job": self._job()})

        def hook_solve_water_and_sediment_timestep(self):
            par.point("work", {"job": self._job()})
            self._maybe("solve")

        def hook_output_data(self):
            self._maybe("output")

        def hook_after_finalize_timestep(self):
            par.point("work", {"job": self._job()})
            self._maybe("step_end")

        def update(self):
            if str(int(self.time_iter)) in VARY:
                self.channel_flow_velocity = VARY[str(int(self.time_iter))]
            super().update()
            par.point("updated", {"job": self._job(), "obs": drive.observe(self, OBS)})

        def finalize(self):
            super().finalize()
            self._maybe("finalize")
            par.point("finalized", {"job": self._job()})
    _CLS[light, extra] = JobModel
    return JobModel


def write_yaml(path, cfg):
    with open(path, "w") as f:
        def dump(d, ind):
            for k, v in d.items():
                if isinstance(v, dict):
                    f.write("%s%s:\n" % (ind, k))
                    dump(v, ind + "  ")
                elif isinstance(v, list):
                    f.write("%s%s:\n" % (ind, k))
                    for e in v:
                        if isinstance(e, dict):
                            f.write("%s  - {%s}\n" % (ind, ", ".join("%s: %s" % kv for kv in e.items())))
                        else:
                            f.write("%s  - %s\n" % (ind, e))
                else:
                    f.write("%s%s: %s\n" % (ind, k, json.dumps(v) if isinstance(v, str) else v))
        dump(cfg, "")


PARAMS = {"u0": [0.7, 1.0, 1.3, 0.9], "C0_percent": [0.1, 0.2, 0.13, 0.07],
          "SLR": [0.0, 1e-06, 3e-05, -1e-06], "f_bedload": [0.25, 0.5, 0.8, 0.4],
          "h0": [1.0, 2.0, 0.7, 1.4], "seed": [3, 77, 12345, 4294967290],
          "S0": [0.00015, 0.0002, 0.001, 0.0005], "itermax": [1, 2, 3],
          "toggle_subsidence": [True, False], "legacy_netcdf": [True, False], "Np_water": [5, 10, 20],
          "save_dt": [1, 307, 1503]}
EXTRA = {"relief": [0.0, 0.5, 1, -0.25], "ridge": [True, False]}      # of a user's own model
FOLDERS = ("out", "out", "out", "out 2", "run #3", "a: b", "it's", "[x]", "\u00e9t\u00e9", "100%")


def gen_spec(rng, maxjobs=6, light=True, kinds=("matrix", "matrix", "set", "ensemble",
                                                 "matrix+ensemble", "set+ensemble", "single"), extra=0):
    cfg = mdl.base_cfg(rng, light=light)
    kind = rng.choice(kinds)
    spec = {"kind": kind}
    values = dict(PARAMS)
    if extra and rng.random() < extra:
        cfg["_extra"] = True
        values.update(EXTRA)
        for k in EXTRA:
            if rng.random() < 0.5:
                cfg[k] = rng.choice(EXTRA[k])
    keys = rng.sample([k for k in values if not ("ensemble" in kind and k == "seed")],
                      rng.randint(1, 3))
    ens = rng.choice([2, 2, 3])
    room = max(1, maxjobs // ens) if "ensemble" in kind else maxjobs
    if "matrix" in kind:
        m, n = {}, 1
        for k in keys:
            c = rng.randint(1, max(1, min(3, room // n)))
            m[k] = rng.sample(values[k], min(c, len(values[k])))
            n *= len(m[k])
        spec["matrix"] = m
    elif "set" in kind:
        spec["set"] = [{k: rng.choice(values[k]) for k in rng.sample(keys, len(keys))}
                       for _ in range(rng.randint(1, room))]
    if "ensemble" in kind:
        spec["ensemble"] = ens
    for k in (spec.get("matrix") or (spec.get("set") or [{}])[0]):
        cfg.pop(k, None)
    if "ensemble" in kind:
        cfg.pop("seed", None)
    if rng.random() < 0.85:
        mdl.add_outputs(rng, cfg, must=1)
    if not any("save_dt" in x for x in [spec.get("matrix", {})] + spec.get("set", [])):
        cfg["save_dt"] = rng.choice([1, 217, 701, 2003])
    if rng.random() < 0.4:
        cfg["save_checkpoint"] = True
    cfg["verbose"] = rng.choice([0, 0, 1])
    return cfg, spec


def expected_combos(spec):
    """Reference expansion: parameter assignments without the drawn seeds."""
    if spec.get("matrix"):
        ks = list(spec["matrix"])
        combos = [dict(zip(ks, v)) for v in itertools.product(*[spec["matrix"][k] for k in ks])]
    elif spec.get("set"):
        combos = [dict(s) for s in spec["set"]]
    else:
        combos = [{}]
    if spec.get("ensemble"):
        combos = [c for c in combos for _ in range(spec["ensemble"])]
    return combos


def run_pp(emit, scn, root, env, resume=False):
    """The process that configures and runs the jobs."""
    global FAILS, VARY
    VARY = scn.get("vary") or {}
    cfg, spec = scn["cfg"], scn["spec"]
    c = par.begin(scn)
    FAILS = {f["name"]: f for f in scn.get("fails", ())}
    drive.enter(root, env, scn.get("plan", ()))
    y = dict(mdl.clean(cfg), out_dir=os.path.join(root, scn.get("folder", "out")))
    for k in ("matrix", "set", "ensemble"):
        if k in spec:
            y[k] = spec[k]
    dur = dict(scn["duration2"] if resume else scn["duration"])
    via = scn.get("via", "yaml")
    y.update(dur if via == "yaml" else scn.get("yaml_duration", {}))
    if scn.get("from"):
        y["resume_checkpoint"] = scn["from"]
    if resume:
        y["resume_checkpoint"] = True
    pvia = scn.get("pvia", "yaml")
    if scn.get("parallel") and pvia == "yaml":
        y["parallel"] = scn["parallel"]
    dry = scn.get("dry")
    if dry == "yaml":
        y["dryrun"] = True
    path = os.path.join(root, "input.yml")
    write_yaml(path, y)
    from pyDeltaRCM import preprocessor
    out = io.StringIO()
    end = "returned"
    err = None
    with contextlib.redirect_stdout(out):
        try:
            if scn.get("cli") or via == "cli":
                sys.argv = ["pyDeltaRCM", "--config", path]
                if via == "cli":
                    for k, x in dur.items():
                        sys.argv += ["--" + k, repr(x)]
                if scn.get("parallel") and pvia == "arg":
                    sys.argv += ["--parallel"] + [repr(scn["parallel"])] * (scn["parallel"] is not True)
                if dry == "arg":
                    sys.argv += ["--dryrun"]
                pp = preprocessor.PreprocessorCLI()
            else:
                kw = dict(dur) if via == "kwargs" else {}
                if scn.get("parallel") and pvia == "arg":
                    kw["parallel"] = scn["parallel"]
                if dry == "arg":
                    kw["dryrun"] = True
                if scn.get("as_dict"):
                    if scn["as_dict"] == "again" and not resume:
                        # what the caller configured before, from the same objects
                        preprocessor.Preprocessor(dict(y, out_dir=os.path.join(root, "before")), dryrun=True)
                    path = y
                pp = preprocessor.Preprocessor(path, **kw)
            emit("njobs", len(pp.file_list))
            for k, v in (scn.get("edit") or {}).items():
                # the user edits what was written for one job before running the jobs
                f = pp.file_list[scn["edit_job"] % len(pp.file_list)]
                with open(f) as fh:
                    text = fh.read()
                with open(f, "w") as fh:
                    fh.write("".join(ln + "\n" for ln in text.splitlines() if not ln.startswith(k + ":"))
                             + "%s: %s\n" % (k, v))
            pp.run_jobs(job_class(bool(cfg.get("_light")), bool(cfg.get("_extra"))))
        except par.SimHang as e:
            end, err = "hang", str(e)
        except BaseException as e:
            import traceback
            end, err = "raised", "%s: %s\n%s" % (type(e).__name__, str(e)[:300],
                                                 traceback.format_exc()[-1200:])
    fired = core.simos().fired()
    core.simos().end()
    still_open = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(root) and t.endswith(".nc"):
            still_open.append(os.path.relpath(t, root))
    alive = [x.idx for x in c.children if x.code is None]
    res = {"end": end, "err": err, "history": c.history, "stdout": out.getvalue(),
           "alive": alive, "codes": [x.code for x in c.children], "faults": c.faults,
           "steps": c.steps, "virtual": c.now, "fired": fired, "open": still_open, "timeouts": c.timeouts,
           "sem": [(s.initial, s.value) for s in c.sems.values()]}
    c.shutdown()
    return res


def read_table(root, folder="out"):
    with open(os.path.join(root, folder, "jobs_parameters.txt")) as f:
        lines = [x for x in f.read().split("\n") if x.strip()]
    head = [x.strip() for x in lines[0].split(",")]
    return head, [[x.strip() for x in ln.split(",")] for ln in lines[1:]]


def typed(key, s):
    if s in ("True", "False"):
        return s == "True"
    v = float(s)
    if key in ("seed", "itermax", "Np_water", "Np_sed", "checkpoint_dt", "save_dt"):
        return int(s)
    return v


def solo(cfg, params, out, env, n, upto_time=None, file=None):
    """Run one job's configuration alone (as stated in its configuration file, if given)."""
    c = dict(cfg)
    c.update(params)
    return core.simproc(_solo, c, out, env, n, upto_time, file)


def _solo(emit, cfg, out, env, n, upto_time, file):
    drive.enter(out, env)
    if file:
        m = mdl.model_class(cfg)(file, out_dir=out, resume_checkpoint=cfg.get("resume_checkpoint", False))
    else:
        m = drive.make(cfg, out)
    while (m.time_iter < n) if upto_time is None else (m.time < upto_time):
        m.update()
        emit("updated", drive.observe(m, ("state",)))
    m.finalize()
    core.simos().end()
    p = os.path.join(out, "pyDeltaRCM_output.nc")
    return {"nc": mdl.nc_digest(p) if os.path.exists(p) else None}


def nc_of(emit, path):
    return mdl.nc_digest(path) if os.path.exists(path) else None


def updates_of(history, job):
    return [d["obs"] for (_, tag, d) in history if tag == "updated" and d["job"] == job]


def compare_updates(o, label, got, want):
    if len(got) != len(want):
        o.bad("%s performed %d timesteps, alone it performs %d" % (label, len(got), len(want)))
        return False
    for g, w in zip(got, want):
        d = mdl.diff_digest(w["state"], g["state"])
        if d:
            o.bad("%s: state after timestep %d differs from running it alone in %s"
                  % (label, w["iter"], ", ".join(d)))
            return False
    return True
