"""C18: hooks run exactly where documented, and only there."""
import hashlib
import os
import shutil

import numpy as np

from sim import core, drive, jobs, mdl, par, phys
from sim.core import Outcome, simproc

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("one case = one full-physics run of 1-4 updates, some interrupted and resumed, executed four "
        "times: plain; with every hook and hooked method recorded; with a seeded sequence of "
        "perturbations (bed, sea level, routing weights, extra random draws, a raised error) made in one hook; and with "
        "the same perturbations made by overriding the hooked method. Recording must not change any "
        "state and must show each hook right before (or after) its method and the documented order; "
        "the last two runs must go through identical states. Some perturbations are made while the model is "
        "constructed. In one case of six the recorded model is run by the job runner, serially or in "
        "parallel under a seeded interleaving. Non-trivial when a perturbation acted; "
        "distinct by hook and final state")
REAL = ["DeltaModel (all physics)", "checkpointing", "netCDF4/HDF5", "numba JIT code"]
STUB = ["clock and entropy", "multiprocessing (simulated scheduler) where the job runner is used"]
ASSUMPTIONS = []
RUNS = {"quick": 240, "thorough": 6000}

BEFORE = ("solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep", "output_data",
          "output_checkpoint", "route_water", "init_water_iteration", "run_water_iteration",
          "compute_free_surface", "finalize_water_iteration", "route_sediment",
          "init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion",
          "route_all_mud_parcels", "compute_sand_frac")
INIT = ("import_files", "process_input_to_model", "create_other_variables", "create_domain",
        "load_checkpoint", "init_output_file")
EARLY = [("before", "create_other_variables"), ("before", "create_domain"), ("after", "create_domain"),
         ("after", "create_domain"), ("before", "load_checkpoint"), ("before", "init_output_file"),
         ("before", "output_data"), ("before", "output_checkpoint")]
AFTER = ("create_domain", "route_water", "route_sediment", "finalize_timestep")


def warm(tier):
    par.install()
    mdl.warm("full")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng)
    if rng.random() < 0.3:
        phys.tune(rng, cfg)
    n = rng.randint(1, 4)
    cfg["save_checkpoint"] = True
    cfg["checkpoint_dt"] = 1
    if rng.random() < 0.6:
        mdl.add_outputs(rng, cfg, must=1)
        cfg["save_dt"] = max(1, int(rng.choice([0.5, 1.5]) * mdl.dt_of(cfg)))
    hook = rng.choice([("before", b) for b in BEFORE] + [("after", a) for a in AFTER[1:]])
    stop = rng.randint(1, n) if rng.random() < 0.3 else None
    early = rng.random() < 0.2
    if early:       # acts while the model is constructed
        hook = rng.choice([h for h in EARLY if h[1] != "init_output_file" or stop is None])
    if stop is None and rng.random() < 0.4:
        cfg["save_checkpoint"] = False
    return {"early": early, "runner": rng.choice([False, 1, 2]) if rng.random() < 1 / 6 else None,
            "sched": rng.getrandbits(48), "greedy": rng.choice(["mixed", "children", "parent"]),
            "cfg": cfg, "n": n, "hook": hook, "ps": rng.getrandbits(32),
            "every": rng.choice([1, 1, 2, 3]), "stop": stop,
            "raise": rng.randint(1, 4) if rng.random() < 0.2 and not early else None,
            "envs": [drive.environment(rng) for _ in range(4)]}


def seen(m):
    """What a hook can see, in short."""
    h = hashlib.sha1(mdl.rng_digest().encode())
    for f in mdl.FIELDS + ("mod_water_weight", "mod_sed_weight", "mod_erosion", "inlet", "cell_type"):
        v = getattr(m, f, None)
        if v is not None:
            h.update(np.ascontiguousarray(v).tobytes())
    for f in ("_time", "_time_iter", "_H_SL", "_save_iter", "_save_time_since_data",
              "_save_time_since_checkpoint", "_dt", "u_max", "Vp_sed", "_u0", "_h0"):
        h.update(repr(getattr(m, f, None)).encode())
    return "at " + h.hexdigest()[:12]


class Bang(Exception):
    pass


class Perturb:
    def __init__(self, scn, n0=0):
        import random
        self.r = random.Random(scn["ps"] + n0)
        self.every = scn["every"]
        self.at = scn["raise"]
        self.calls = 0
        self.done = 0
        self.live = self.early = bool(scn.get("early"))
        self.stage = scn["hook"][1]

    def __call__(self, m):
        if not self.live:
            return
        if self.early:
            return self.construct(m)
        self.calls += 1
        if self.at == self.calls:
            raise Bang("call %d" % self.calls)
        if self.calls % self.every:
            return
        self.done += 1
        k = self.r.choice(["eta", "draw", "sea", "weight", "sedweight"])
        i, j = self.r.randrange(1, m.L), self.r.randrange(m.W)
        if k == "eta":
            if m.cell_type[i, j] != -2:
                m.eta[i, j] -= np.float32(0.03)
        elif k == "draw":
            mdl.shared().get_random_uniform(1.0)
        elif k == "sea":
            m.H_SL = m.H_SL + 0.01
        elif k == "weight":
            m.mod_water_weight[i, j] = np.float32(0.25)
        else:
            m.mod_sed_weight[i, j] = np.float32(0.5)


    def construct(self, m):
        """While the model is built: what later stages of the construction make use of."""
        self.done += 1
        if self.stage == "create_other_variables":
            setattr(m, *self.r.choice([("u0", m.u0 * 1.25), ("h0", m.h0 * 0.75), ("Np_sed", m.Np_sed + 3),
                                       ("coeff_U_dep_mud", 0.5), ("alpha", 0.3)]))
        elif self.stage == "create_domain" and not hasattr(m, "eta"):
            setattr(m, *self.r.choice([("qw0", m.qw0 * 0.5), ("CTR", m.CTR + 1), ("h0", m.h0 * 0.75),
                                       ("sand_frac_bc", 0.75)]))
        elif self.stage == "create_domain":
            k = self.r.choice(["erosion", "theta", "thresholds", "bed"])
            if k == "erosion":
                m.mod_erosion = np.full_like(m.eta, np.float32(0.3))
            elif k == "theta":
                m.theta_sand, m.theta_mud = 1.5, 0.5
            elif k == "thresholds":
                m.U_ero_mud, m.U_ero_sand = 0.4, 0.3
            else:
                m.eta[m.L0:, :] -= np.float32(0.125)
        elif self.stage in ("output_data", "init_output_file"):
            m.eta[m.L0:, :] -= np.float32(0.125)
        else:
            m.mod_sed_weight[2:4, :] = np.float32(0.5)


def build(kind, scn, p=None, events=None):
    """A model class that records, or perturbs by hook or by override."""
    D = mdl.DeltaModel()
    ns = {}

    def hook(name, fn):
        def h(self, *a, **k):
            fn(self)
            if kind == "record" and (a or k):
                events.append("given %r" % (list(a) + list(k.values()),))
        ns[name] = h

    def method(name, pre=None, post=None):
        real = getattr(D, name)

        def meth(self, *a, **k):
            if pre:
                pre(self)
            if kind == "record" and name == "finalize_water_iteration":
                events.append("given %r" % (list(a) + list(k.values()),))
            v = real(self, *a, **k)
            if post:
                post(self)
            return v
        ns[name] = meth

    if kind == "record":
        for b in BEFORE + INIT:
            hook("hook_" + b, lambda self, b=b: events.extend(["hook_" + b, seen(self)]))
            method(b, lambda self, b=b: events.extend([b, seen(self)]),
                   lambda self, b=b: events.extend(["end_" + b, seen(self)]))
        for a in AFTER:
            hook("hook_after_" + a, lambda self, a=a: events.extend(["hook_after_" + a, seen(self)]))
    else:
        where, name = scn["hook"]
        if kind == "hook":
            hook(("hook_after_" if where == "after" else "hook_") + name, p)
        elif where == "after":
            method(name, post=p)
        else:
            method(name, pre=p)
    return type("Custom", (D,), ns)


def go(emit, scn, out, env, kind, upto, resume, end):
    drive.enter(out, env)
    events = []
    p = Perturb(scn, 7 * int(resume))
    cls = mdl.DeltaModel() if kind == "plain" else build(kind, scn, p, events)
    m = cls(out_dir=out, **mdl.clean(drive.resumed(scn["cfg"]) if resume else scn["cfg"]))
    emit("events", list(events))
    emit("step", drive.observe(m, ("ckp",)))
    p.live = not scn.get("early")
    while m.time_iter < upto:
        del events[:]
        try:
            m.update()
        except Bang as e:
            emit("raised", (int(m.time_iter), str(e)))
            break
        emit("events", list(events))
        emit("step", drive.observe(m, ("state",)))
    if end:
        m.finalize()
    core.simos().end()
    return p.done


def order(itermax):
    water = []
    for _ in range(itermax):
        water += ["init_water_iteration", "run_water_iteration", "compute_free_surface",
                  "finalize_water_iteration"]
    return (["solve_water_and_sediment_timestep", "route_water"] + water
            + ["route_sediment", "init_sediment_iteration", "route_all_sand_parcels",
               "topo_diffusion", "route_all_mud_parcels", "apply_subsidence", "finalize_timestep",
               "compute_sand_frac", "output_data", "output_checkpoint"])


class Told(list):
    """Events, told to the scheduler."""

    def __init__(self, m):
        self.m = m

    def append(self, e):
        par.point("ev", (os.path.basename(str(self.m.input_file)), e))
        if not e.startswith("given "):
            par.point("ev", (os.path.basename(str(self.m.input_file)), seen(self.m)))


def go_runner(emit, scn, root, env):
    """The recorded model, run by the job runner."""
    c = par.begin(scn)
    drive.enter(root, env)
    D = mdl.DeltaModel()

    ns = {}
    for b in BEFORE + INIT:
        def h(self, *a, b=b, **k):
            Told(self).append("hook_" + b)
            if a or k:
                Told(self).append("given %r" % (list(a) + list(k.values()),))

        def meth(self, *a, b=b, **k):
            Told(self).append(b)
            if b == "finalize_water_iteration":
                Told(self).append("given %r" % (list(a) + list(k.values()),))
            v = getattr(D, b)(self, *a, **k)
            Told(self).append("end_" + b)
            return v
        ns["hook_" + b], ns[b] = h, meth
    for a in AFTER:
        ns["hook_after_" + a] = lambda self, a=a: Told(self).append("hook_after_" + a)
    cls = type("Custom", (D,), ns)
    y = dict(mdl.clean(scn["cfg"]), out_dir=os.path.join(root, "out"), timesteps=scn["n"],
             ensemble=2, parallel=scn["runner"])
    y.pop("seed", None)
    path = os.path.join(root, "input.yml")
    jobs.write_yaml(path, y)
    from pyDeltaRCM import preprocessor
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        preprocessor.Preprocessor(path).run_jobs(cls)
    core.simos().end()
    hist = [d for _, tag, d in c.history if tag == "ev"]
    c.shutdown()
    return hist, out.getvalue()


def check_runner(scn, ctx, o):
    r = simproc(go_runner, scn, ctx.dir("runner"), scn["envs"][0])
    if r.error or r.value is None:
        o.bad("the job runner failed: %s" % ((r.error or {}).get("msg") or r.describe()))
        return
    hist, text = r.value
    if "error" in text:
        o.bad("a job failed: %s" % text[:300])
    for job in ("job_000.yml", "job_001.yml"):
        chunks, prev = [[]], None
        for e in [e for j, e in hist if j == job]:
            if e.startswith("at "):
                chunks[-1].append(e)
                continue
            if e == "hook_" + BEFORE[0] or (e == BEFORE[0] and prev != "hook_" + e):
                chunks.append([])
            chunks[-1].append(e)
            prev = e
        if len(chunks) != scn["n"] + 1:
            o.bad("%s performed %d updates of %d" % (job, len(chunks) - 1, scn["n"]))
        for k, ev in enumerate(chunks):
            judge(ev, scn["cfg"]["itermax"], k == 0, False, o)
            if o.violations:
                o.violations[-1] += " (%s run by the job runner)" % job
                return
    o.count("runner_events", len(hist))
    o.fault("interleaving", 1 if scn["runner"] else 0)


def judge(events, itermax, first, resume, o):
    known = set(BEFORE + INIT)
    # what the hook of a water iteration and the iteration itself were given
    given = [e for e in events if e.startswith("given ")]
    if given[0::2] != given[1::2]:
        o.bad("a hook was given other arguments than its method: %s" % given)
        return
    events = [e for e in events if not e.startswith("given ")]
    # each event is followed by what could be seen at it
    at = [e for e in events if e.startswith("at ")]
    events = [e for e in events if not e.startswith("at ")]
    for i, e in enumerate(events[:-1]):
        if at[i] != at[i + 1] and (
                (e.startswith("hook_") and not e.startswith("hook_after_") and events[i + 1] == e[5:])
                or (e.startswith("end_") and events[i + 1] == "hook_after_" + e[4:])):
            o.bad("the model changed between %s and %s" % (e, events[i + 1]))
            return
    for i, e in enumerate(events):
        nxt = events[i + 1] if i + 1 < len(events) else None
        prev = events[i - 1] if i else None
        if e in known and prev != "hook_" + e:
            o.bad("%s ran without its hook right before it" % e)
        if e.startswith("hook_after_"):
            if prev != "end_" + e[11:]:
                o.bad("%s did not run right after its method" % e)
        elif e.startswith("hook_") and nxt != e[5:]:
            if not (resume and first and e == "hook_init_output_file"):
                o.bad("%s was not followed by its method" % e)
        if e.startswith("end_") and e[4:] in AFTER and nxt != "hook_after_" + e[4:]:
            o.bad("%s ran without the hook after it" % e[4:])
        if o.violations:
            return
    calls = [e for e in events if e in known]
    if not first:
        if calls != order(itermax):
            o.bad("an update ran its stages as %s" % " ".join(calls))
    else:
        want = ["import_files", "process_input_to_model", "create_other_variables", "create_domain"]
        want += ["load_checkpoint"] if resume else ["init_output_file", "output_data",
                                                    "output_checkpoint"]
        if calls != want:
            o.bad("construction ran its stages as %s" % " ".join(calls))


def run(scn, ctx):
    o = Outcome()
    parts = [(scn["n"], False, True)]
    if scn["stop"]:
        parts = [(scn["stop"], False, False), (scn["n"], True, True)]
    res = {}
    acted = 0
    if scn.get("runner") is not None:
        check_runner(scn, ctx, o)
        if o.violations:
            return o
    for k, kind in enumerate(("plain", "record", "hook", "override")):
        out = ctx.dir(kind)
        res[kind] = []
        for upto, resume, end in parts:
            r = simproc(go, scn, out, scn["envs"][k], kind, upto, resume, end)
            if r.error or r.value is None:
                o.bad("%s run failed: %s" % (kind, (r.error or {}).get("msg") or r.describe()))
                return o
            res[kind] += [("step", s["iter"], s.get("state") or s["ckp"]) for s in r.of("step")] \
                + [("raised", x) for x in r.of("raised")]
            if kind == "hook":
                acted += r.value + len(r.of("raised"))
                if r.of("raised"):
                    o.fault("error-in-hook")
            if kind == "record":
                for j, ev in enumerate(r.of("events")):
                    judge(ev, scn["cfg"]["itermax"], j == 0, resume, o)
                    if o.violations:
                        return o
                    o.count("events", len(ev))
            if resume:
                o.fault("resume")
    for a, b, what in (("plain", "record", "hooks that only look change the run"),
                       ("hook", "override", "acting in a hook differs from acting at its method")):
        for x, y in zip(res[a], res[b]):
            if x != y:
                if x[0] == y[0] == "step" and x[1] == y[1]:
                    o.bad("%s: after timestep %d %s differ (%s)" % (
                        what, x[1], ", ".join(mdl.diff_digest(x[2], y[2])), "%s %s" % tuple(scn["hook"])))
                else:
                    o.bad("%s: %r / %r" % (what, x[:2], y[:2]))
                return o
        if len(res[a]) != len(res[b]):
            o.bad("%s: another number of updates" % what)
            return o
    o.fault("perturbation-in-hook", acted)
    o.count("updates", scn["n"] * 4)
    o.sig = core.digest(scn["hook"], res["hook"])
    o.nontrivial = acted > 0
    return o


def shrink(scn):
    if scn["stop"]:
        yield dict(scn, stop=None)
    if scn.get("runner") is not None:
        yield dict(scn, runner=None)
    if scn["n"] > 1:
        yield dict(scn, n=scn["n"] - 1, stop=scn["stop"] and min(scn["stop"], scn["n"] - 1))
    if scn["raise"]:
        yield dict(scn, **{"raise": None})
