"""C16: base level and subsidence follow their schedule exactly."""
import os

import numpy as np

from sim import core, drive, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C16"
LEVEL = "fault_enumeration"
RULE = ("one case = one base-level history: rise rate, subsidence rate and starting time (also on exact "
        "multiples of the timestep), 2-12 updates with 0-3 interruptions (clean end, end without "
        "finalizing, SIGKILL) followed by resumes, and changes of rise rate, sea level and timestep "
        "between updates; sea level is compared with the sum of rate times timestep, the bed just "
        "before and after the subsidence stage with rate times timestep, and the saved metadata with "
        "both. Non-trivial when sea level or bed moved; distinct by schedule and final sea level")
REAL = ["DeltaModel time keeping, subsidence, end of timestep, checkpointing, saving", "netCDF4/HDF5"]
STUB = ["water and sediment physics in four of five cases (cheap stand-in)", "clock and entropy"]
ASSUMPTIONS = ["rates and timesteps are changed only between updates, through the model's attributes"]
RUNS = {"quick": 450, "thorough": 20000}


def warm(tier):
    mdl.warm("full")
    mdl.warm("light")


def gen(rng, i, tier):
    cfg = mdl.base_cfg(rng, light=rng.random() < 0.8)
    n = rng.randint(2, 12) if cfg.get("_light") else rng.randint(2, 5)
    dt = mdl.dt_of(cfg)
    cfg["SLR"] = rng.choice([0.0, 1e-7, 3e-5, -2e-6, 1e-4] + [-2e-4, 1e-3, -1e-3] * bool(cfg.get("_light")))
    cfg["toggle_subsidence"] = rng.random() < 0.75
    cfg["subsidence_rate"] = rng.choice([2e-9, 1e-6, 5e-5, 0.0, -1e-5])
    cfg["start_subsidence"] = rng.choice([0.0, 0.5 * dt, dt, 2 * dt, 2.5 * dt, (n - 1) * dt,
                                          n * dt, 100 * n * dt])
    if rng.random() < 0.5:
        cfg["H_SL"] = rng.choice([0.0, 0.4, -0.3] + [-1.7, 2.5, -12.0, 40.0] * bool(cfg.get("_light")))
    cfg["save_checkpoint"] = True
    cfg["checkpoint_dt"] = 1
    cfg["save_eta_grids"] = True
    cfg["save_dt"] = 1
    stops = sorted(rng.randint(1, n) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
    segs = [{"upto": k, "how": rng.choice(["finalize", "exit", "kill"])} for k in stops]
    changes = {}
    if not segs and rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            changes[str(rng.randint(0, n - 1))] = rng.choice([
                ["SLR", rng.choice([0.0, 2e-5, -1e-6])],
                ["sea_surface_elevation_change", rng.choice([0.0, 5e-6])],
                ["sea_surface_mean_elevation", rng.choice([0.2, 0.5])],
                ["time_step", dt * rng.choice([0.5, 2.0, 1.25])],
                ["channel_flow_velocity", cfg["u0"] * 2],
                ["influx_sediment_concentration", cfg["C0_percent"] / 50.0]])
    scn = {"cfg": cfg, "n": n, "segs": segs, "changes": changes, "env": drive.environment(rng)}
    if rng.random() < 0.5:      # parts of the bed above the water, parts far below it
        scn["relief"] = [[rng.random(), rng.random(), rng.choice([-30.0, -2.0, 0.3, 2.0, 25.0])]
                         for _ in range(rng.randint(1, 12))]
    if rng.random() < 0.2:      # subsidence of a part of the domain, as documented
        scn["region"] = sorted(rng.random() for _ in range(2))
    return scn


_REG = {}


def regional(base):
    if base not in _REG:
        class Regional(base):
            region = None

            def init_subsidence(self):
                if self._toggle_subsidence:
                    self.subsidence_mask = np.zeros((self.L, self.W), dtype=bool)
                    a, b = [int(x * self.W) for x in self.region]
                    self.subsidence_mask[:, a:b + 1] = True
                    self.subsidence_mask[: self.L0, :] = False
                    self.sigma = self.subsidence_mask * self.subsidence_rate * self.dt
        _REG[base] = Regional
    return _REG[base]


def pattern(scn, L0, shape, value):
    """How much each cell sinks in a timestep."""
    want = np.zeros(shape)
    a, b = [int(x * shape[1]) for x in scn["region"]] if scn.get("region") else (0, shape[1])
    want[L0:, a:b + 1] = value
    return want


def go(emit, scn, out, upto, how, resume):
    drive.enter(out, scn["env"])
    cfg = scn["cfg"]
    cls = phys.Watch(bool(cfg.get("_light")))
    if scn.get("region"):
        cls = regional(cls)
        cls.region = scn["region"]
    m = cls(out_dir=out, **mdl.clean(drive.resumed(cfg) if resume else cfg))
    if not resume:
        for a, b, z in scn.get("relief", ()):
            i, j = m.L0 + int(a * (m.L - m.L0)), int(b * m.W)
            if m.cell_type[i, j] == 0:
                m.eta[i, j] = m.stage[i, j] + z
                m.depth[i, j] = max(-z, 0)
    cur = {}
    rate = cfg["subsidence_rate"]

    def watch(stage, m):
        if stage == "begin":
            cur["t"] = float(m.time)
        elif stage == "subsidence":
            cur["eta"] = np.float64(m.eta)
        elif stage == "finalize":
            want = np.zeros_like(cur["eta"])
            if cfg["toggle_subsidence"] and cur["t"] >= cfg["start_subsidence"]:
                want = pattern(scn, m.L0, want.shape, rate * m.dt)
                cur["sank"] = cur.get("sank", 0) + 1
            d = cur["eta"] - np.float64(m.eta)
            phys.cells(np.abs(d - want) > 1e-6 * (1 + np.abs(cur["eta"]) + np.abs(want)),
                       "bed sank by %.6g instead of %.6g m in the timestep beginning at %.6g s "
                       "(start %.6g s)" % (float(np.abs(d).max()), float(want.max()), cur["t"],
                                           cfg["start_subsidence"]))
    cls.watch = staticmethod(watch)
    emit("state", (int(m.time_iter), float(m.time), float(m.H_SL)))
    h, t, h_now = float(m.H_SL), float(m.time), float(m.H_SL)
    while m.time_iter < upto:
        ch = scn["changes"].get(str(m.time_iter))
        if ch:
            setattr(m, ch[0], ch[1])
            if ch[0] == "sea_surface_mean_elevation":
                h = ch[1]
        dt, slr = float(m.dt), float(m.SLR)
        if ch and ch[0] == "time_step":
            phys.need(dt == ch[1], "time step %r was set, %r is used" % (ch[1], dt))
        try:
            m.update()
        except phys.Violation as e:
            emit("bad", "timestep %d: %s" % (m.time_iter + 1, e))
            break
        h += slr * dt
        t += dt
        if abs(float(m.H_SL) - h) > 1e-12 + 1e-9 * abs(h):
            emit("bad", "timestep %d: sea level is %.9g, should be %.9g" % (m.time_iter,
                                                                          float(m.H_SL), h))
            break
        if abs(float(m.time) - t) > 1e-9 * t:
            emit("bad", "timestep %d: time is %.9g, should be %.9g" % (m.time_iter,
                                                                      float(m.time), t))
            break
        emit("state", (int(m.time_iter), float(m.time), float(m.H_SL)))
    val = {"sank": cur.get("sank", 0), "dt": float(m.dt), "L0": int(m.L0)}
    if how == "finalize":
        m.finalize()
    emit("val", val)
    if how == "kill":
        os.kill(os.getpid(), 9)
    core.simos().end()
    return val


def run(scn, ctx):
    o = Outcome()
    cfg = scn["cfg"]
    out = ctx.dir("m")
    segs = scn["segs"] + [{"upto": scn["n"], "how": "finalize"}]
    states = {}
    sank = 0
    for k, s in enumerate(segs):
        r = simproc(go, scn, out, s["upto"], s["how"], k > 0)
        for b in r.of("bad"):
            o.bad(b)
        if r.error or (r.value is None and not (s["how"] == "kill" and r.killed)):
            o.bad("the run failed: %s" % ((r.error or {}).get("msg") or r.describe()))
        if o.violations:
            return o
        for it, t, h in r.of("state"):
            if it in states and states[it] != (t, h):
                o.bad("after a resume at timestep %d time and sea level are %r, they were %r"
                      % (it, (t, h), states[it]))
                return o
            states[it] = (t, h)
        sank += r.of("val")[-1]["sank"]
        if k:
            o.fault("resume")
        if s["how"] == "kill" and r.killed:
            o.fault("kill")
    # overall: initial value plus rate times elapsed time
    if not scn["changes"]:
        h0 = cfg.get("H_SL", 0.0)
        for it, (t, h) in states.items():
            if abs(h - (h0 + cfg["SLR"] * t)) > 1e-9 * (1 + abs(h)):
                o.bad("sea level after %d timesteps is %.9g, should be %.9g" % (
                    it, h, h0 + cfg["SLR"] * t))
                return o
        r = simproc(read_meta, os.path.join(out, "pyDeltaRCM_output.nc"))
        if r.value is None:
            o.bad("output file not readable: %s" % ((r.error or {}).get("msg") or r.describe()))
            return o
        v = r.value
        by_t = {np.float32(t): h for t, h in states.values()}
        for t, h in zip(v["time"], v["H_SL"]):
            # a record is written after the sea level has been raised for the next timestep
            if t not in by_t:
                o.bad("record at an unknown time %r" % float(t))
            elif abs(float(h) - by_t[t]) > 1e-6 * (1 + abs(by_t[t])):
                o.bad("saved sea level at %g s is %g, it was %g" % (t, h, by_t[t]))
        if cfg["toggle_subsidence"]:
            val = r.value
            last = states[max(states)]
            dt = last[0] / max(states)
            want = pattern(scn, int(val["L0"]), val["shape"], cfg["subsidence_rate"] * dt)
            if val["sigma"] is None or np.any(np.abs(val["sigma"] - want) > 1e-6 * np.abs(want) + 1e-15):
                o.bad("saved subsidence pattern is not rate times timestep")
        if o.violations:
            return o
    for k in scn["changes"].values():
        o.fault("change-" + k[0])
    o.count("updates", scn["n"])
    o.count("subsiding_timesteps", sank)
    o.sim_time = states[max(states)][0]
    o.sig = core.digest(sorted(states.items()), sank, cfg["start_subsidence"])
    o.nontrivial = bool(sank or cfg["SLR"])
    return o


def read_meta(emit, path):
    r = mdl.read_nc(path)
    return {"time": r["vars"]["time"][0], "H_SL": r["meta"]["H_SL"][0],
            "sigma": r["meta"]["sigma"][0] if "sigma" in r["meta"] else None,
            "L0": r["meta"]["L0"][0], "shape": r["vars"]["eta"][0].shape[1:]}


def shrink(scn):
    for k in ("region", "relief"):
        if scn.get(k):
            yield drive.strip(scn, (k,))
    if scn["n"] > 1:
        n = scn["n"] - 1
        yield dict(scn, n=n, segs=[s for s in scn["segs"] if s["upto"] <= n],
                   changes={k: v for k, v in scn["changes"].items() if int(k) < n})
    for i in range(len(scn["segs"])):
        yield dict(scn, segs=scn["segs"][:i] + scn["segs"][i + 1:])
    for k in scn["changes"]:
        yield dict(scn, changes={a: b for a, b in scn["changes"].items() if a != k})
    if not scn["cfg"].get("_light"):
        yield dict(scn, cfg=dict(scn["cfg"], _light=True))
