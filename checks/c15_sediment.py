"""C15: sediment is conserved and bounded for every random history."""
import math

import numpy as np

from sim import core, drive, mdl, phys
from sim.core import Outcome, simproc

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("one case = one configuration run with full physics for 1-6 updates while the simulator "
        "decides the model's random numbers (see C14); the bed is accounted for through sand routing, "
        "diffusion, mud routing and the end of each timestep, cell by cell, against bounds and an "
        "independent reference for diffusion and sand fraction. Non-trivial when sediment was "
        "deposited; distinct by final bed")
REAL = ["DeltaModel (all physics)", "numba JIT code", "checkpoint loading (some cases)"]
STUB = ["draws of the random generator (chosen by the simulator)", "clock and entropy"]
ASSUMPTIONS = ["draws lie strictly between 0 and 1 (the generator yields exactly 0 with probability 2^-53)",
               "single-precision rounding of the fields (tolerances scale with the number of parcels)"]
RUNS = {"quick": 700, "thorough": 30000}

KNOWN = "parcel-fraction"


def warm(tier):
    mdl.warm("full")


def gen(rng, i, tier):
    cfg = phys.tune(rng, mdl.base_cfg(rng))
    if rng.random() < 0.2:
        cfg["f_bedload"] = rng.choice([0.0, 1.0])
    if rng.random() < 0.25:          # few, short parcel paths: single visits show
        cfg["Np_sed"] = rng.choice([1, 2])
        cfg["stepmax"] = float(rng.choice([4, 5, 6]))
        cfg["f_bedload"] = rng.choice([0.0, 0.5, 1.0])
    n = rng.randint(1, 6)
    scn = {"cfg": cfg, "n": n, "style": rng.choice(mdl.STYLES + ("random",)),
           "every": rng.choice(["stage", "update", "none"]), "rs": rng.getrandbits(32),
           "env": drive.environment(rng), "split": rng.random() < 0.6}
    scn["terrain"] = phys.terrain(rng, cfg)
    if rng.random() < 0.15:
        scn["resume"] = rng.randint(1, n)
        cfg["save_checkpoint"] = True
        cfg["checkpoint_dt"] = 1
    return scn


def count_starts(tot):
    """Counts the parcels given to each router."""
    st = mdl.shared()
    seen = []
    real = getattr(st, "get_start_indices", None)
    if real is None:
        return seen

    def wrapped(*a, **kw):
        r = real(*a, **kw)
        seen.append(len(r))
        return r
    st.get_start_indices = wrapped
    return seen


def go(emit, scn, out, upto, resume):
    drive.enter(out, scn["env"])
    cls = phys.Watch()
    cls.terrain = scn.get("terrain")
    cfg = drive.resumed(scn["cfg"]) if resume else scn["cfg"]
    m = cls(out_dir=out, **mdl.clean(cfg))
    put = phys.Draws(scn["rs"], scn["style"], scn["every"] != "none")
    starts = count_starts(m)
    tot = {}
    c = phys.SedCheck()
    known = []
    # parcels by kind: whole parcels of sand, the rest mud
    ns = int(m.Np_sed * m.f_bedload)
    nm = m.Np_sed - ns

    def add(d):
        for k, v in d.items():
            tot[k] = tot.get(k, 0) + v

    def split(m, kind, u_ero):
        """From here to the end of this routing each parcel is accounted for."""
        if not scn.get("split"):
            return
        last = [c.fields(m)]

        def seen():
            now = c.fields(m)
            add({"parcels_seen": c.parcel(m, kind, last[0], now, u_ero)})
            last[0] = now
        if not phys.watch_parcels(m, kind, seen):
            add({"parcels_not_visible": 1})

    def watch(stage, m):
        if stage == "begin":
            c.snap(m, "begin")
            put()
            del starts[:]
        elif stage in ("water", "sand", "mud") and scn["every"] == "stage":
            put()
        if stage == "sand":
            c.snap(m, "sand")
            phys.cells(c.s["sand"]["eta"] != c.s["begin"]["eta"], "flow routing changed the bed")
            c.mark = len(starts)
            split(m, "sand", m.U_ero_sand)
        elif stage == "diffusion":
            c.snap(m, "diffusion")
            add(c.routing(m, "sand", "sand", "diffusion", ns, "Vp_dep_sand", m.U_ero_sand))
            qs = c.s["diffusion"]["qs"]
            phys.cells(~np.isfinite(qs) | (qs < 0), "negative or non-finite sediment flux")
            phys.cells((m.cell_type == -2) & (qs != 0), "sediment flux on land")
        elif stage == "mud":
            c.snap(m, "mud")
            c.diffusion(m)
            split(m, "mud", m.U_ero_mud)
        elif stage == "routed":
            c.snap(m, "routed")
            add(c.routing(m, "mud", "mud", "routed", nm, "Vp_dep_mud", m.U_ero_mud))
            got = starts[c.mark:]
            if len(got) == 2:
                phys.need(got[0] == ns, "%d sand parcels routed, not %d" % (got[0], ns))
                if got[1] != nm:
                    whole = int(m.Np_sed * (1 - m.f_bedload))
                    phys.need(got[1] == whole and whole == nm - 1,
                              "%d mud parcels routed, not %d" % (got[1], nm))
                    known.append(KNOWN)
        elif stage == "subsidence":
            c.snap(m, "subsidence")
        elif stage == "end":
            c.sand_frac(m, c.s["begin"])
            b = c.s["subsidence"]
            sink = np.zeros_like(b["eta"])
            if m.toggle_subsidence and m.time >= m.start_subsidence:
                sink[m.L0:, :] = m.subsidence_rate * m.dt
            d = np.float64(m.eta) - (b["eta"] - sink)
            d[0, m.inlet] = 0
            phys.cells(np.abs(d) > 2e-6 * (1 + np.abs(b["eta"])), "the bed changed after "
                       "sediment routing")
    cls.watch = staticmethod(watch)
    while m.time_iter < upto:
        try:
            m.update()
        except phys.Void:
            return None
        except phys.Violation as e:
            if put.zero():
                return None
            emit("bad", "timestep %d: %s" % (m.time_iter + 1, e))
            break
    t = float(m.time)
    sig = mdl.state_digest(m)
    if upto == scn["n"]:
        m.finalize()
    core.simos().end()
    return {"time": t, "sig": sig, "tot": tot, "known": known}


def run(scn, ctx):
    o = Outcome()
    out = ctx.dir("m")
    parts = [(scn["n"], False)]
    if scn.get("resume"):
        parts = [(scn["resume"], False), (scn["n"], True)]
    dep = 0
    for upto, res in parts:
        r = simproc(go, scn, out, upto, res)
        for b in r.of("bad"):
            o.bad(b)
        if r.value is None and not r.error and r.status == 0:
            o.count("void_zero_draw")
            return o
        if r.error or r.value is None:
            o.bad("the run failed: %s" % ((r.error or {}).get("msg") or r.describe()))
        if o.violations:
            return o
        for k, v in r.value["tot"].items():
            o.count(k, v)
        dep += r.value["tot"].get("deposit", 0)
        o.known += r.value["known"][:1]
        if res:
            o.fault("resume")
    if scn["every"] != "none":
        o.fault("chosen-draws-" + scn["style"], scn["n"])
    o.count("updates", scn["n"])
    o.sim_time = r.value["time"]
    o.sig = core.digest(r.value["sig"])
    o.nontrivial = dep > 0
    return o


def shrink(scn):
    from . import c14_flow
    return c14_flow.shrink(scn)
