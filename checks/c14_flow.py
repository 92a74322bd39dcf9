"""C14: flow fields stay physically valid for every random history."""
from sim import core, drive, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("one case = one configuration run with full physics for 1-5 updates while the simulator "
        "decides the model's random numbers: before each routing stage the generator is put into a "
        "state that yields a chosen sequence (all lowest, all highest, alternating, sticky, values "
        "next to bin edges, or ordinary); some cases are resumed from a checkpoint on the way. Field "
        "relations are checked after each flow solution and update, parcel paths and conservation of "
        "discharge after each routing of water. Non-trivial when parcels moved and the bed changed; "
        "distinct by final flow field")
REAL = ["DeltaModel (all physics)", "numba JIT code", "checkpoint loading (some cases)"]
STUB = ["draws of the random generator (chosen by the simulator)", "clock and entropy"]
ASSUMPTIONS = ["draws lie strictly between 0 and 1 (the generator yields exactly 0 with probability 2^-53)"]
RUNS = {"quick": 700, "thorough": 30000}


def warm(tier):
    mdl.warm("full")


def gen(rng, i, tier):
    cfg = phys.tune(rng, mdl.base_cfg(rng))
    n = rng.randint(1, 6)
    scn = {"cfg": cfg, "n": n, "style": rng.choice(mdl.STYLES + ("random",)),
           "every": rng.choice(["stage", "update", "none"]), "rs": rng.getrandbits(32),
           "env": drive.environment(rng)}
    scn["terrain"] = phys.terrain(rng, cfg, land=False)
    if rng.random() < 0.15:
        scn["resume"] = rng.randint(1, n)
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = 1
    return scn


def injector(scn):
    return phys.Draws(scn["rs"], scn["style"], scn["every"] != "none")


def go(emit, scn, out, upto, resume):
    drive.enter(out, scn["env"])
    cls = phys.Watch()
    cls.terrain = scn.get("terrain")
    cfg = drive.resumed(scn["cfg"]) if resume else scn["cfg"]
    m = cls(out_dir=out, **mdl.clean(cfg))
    put = injector(scn)
    tot = {}
    cur = {"h": 0.0}

    def watch(stage, m):
        if stage == "begin":
            cur["h"] = float(m.H_SL)
            put()
        elif stage in ("water", "sand", "mud"):
            if stage == "water":
                cur["depth"] = m.depth.copy()
            if scn["every"] == "stage":
                put()
        elif stage == "walked":
            for k, v in phys.check_walks(m, cur["depth"]).items():
                tot[k] = tot.get(k, 0) + v
        elif stage == "flow":
            # the bed of the inlet is what the last timestep left it
            phys.check_flow(m, cur["h"], "after flow routing", inlet_depth=False)
            phys.check_water_speed(m, "after flow routing")
        elif stage == "end":
            phys.check_flow(m, cur["h"], "after the timestep")
    cls.watch = staticmethod(watch)
    e0 = m.eta.copy()
    if resume:
        phys.check_flow(m, float(m.H_SL) - abs(m.SLR) * m.dt, "after the resume")
    while m.time_iter < upto:
        try:
            m.update()
        except phys.Void:
            return None
        except phys.Violation as e:
            if put.zero():
                return None
            emit("bad", "timestep %d: %s" % (m.time_iter + 1, e))
            break
    moved = bool((m.eta != e0).any())
    t = float(m.time)
    sig = mdl.state_digest(m)
    if upto == scn["n"]:
        m.finalize()
    core.simos().end()
    return {"moved": moved, "time": t, "sig": sig, "tot": tot, "iters": int(m.time_iter)}


def run(scn, ctx):
    o = Outcome()
    out = ctx.dir("m")
    parts = [(scn["n"], False)]
    if scn.get("resume"):
        parts = [(scn["resume"], False), (scn["n"], True)]
    moved = False
    for upto, res in parts:
        r = simproc(go, scn, out, upto, res)
        for b in r.of("bad"):
            o.bad(b)
        if r.value is None and not r.error and r.status == 0:
            o.count("void_zero_draw")
            return o
        if r.error or r.value is None:
            o.bad("the run failed: %s" % ((r.error or {}).get("msg") or r.describe()))
        if o.violations:
            return o
        moved = moved or r.value["moved"]
        for k, v in r.value["tot"].items():
            o.count(k, v)
        if res:
            o.fault("resume")
    if scn["every"] != "none":
        o.fault("chosen-draws-" + scn["style"], scn["n"])
    o.count("updates", scn["n"])
    o.sim_time = r.value["time"]
    o.sig = core.digest(r.value["sig"])
    o.nontrivial = moved
    return o


def shrink(scn):
    if scn["n"] > 1:
        yield dict(scn, n=scn["n"] - 1, resume=min(scn.get("resume") or 0, scn["n"] - 1) or None)
    if scn.get("resume"):
        yield dict(scn, resume=None)
    if scn["every"] != "none":
        yield dict(scn, every="none")
    t = scn.get("terrain")
    if t:
        yield dict(scn, terrain=None)
        for k in ("bumps", "land"):
            for j in range(len(t[k])):
                yield dict(scn, terrain=dict(t, **{k: t[k][:j] + t[k][j + 1:]}))
    base = {"theta_water", "Nsmooth", "Csmooth", "omega_sfc", "omega_flow", "alpha", "sed_lag",
            "coeff_theta_sand", "coeff_theta_mud", "coeff_U_dep_mud", "coeff_U_ero_mud",
            "coeff_U_ero_sand", "beta", "active_layer_thickness", "toggle_subsidence", "hb", "H_SL"}
    for k in sorted(base & set(scn["cfg"])):
        yield dict(scn, cfg=drive.strip(scn["cfg"], (k,)))
