"""C04: output records are complete, truthful and durable."""
import os

import numpy as np

from sim import core, drive, mdl
from sim.core import Outcome, simproc

PROPERTY = "C04"
LEVEL = "fault_enumeration"
RULE = ("one case = one run with a random set of saved variables, intervals and file layout, ended by "
        "finalize, by leaving without it, or by SIGKILL right after a chosen update; a separate "
        "simulated process then reads the file and compares every record with the states captured "
        "in memory; non-trivial when at least one record after the initial one was compared; "
        "distinct by variables, schedule and end")
REAL = ["DeltaModel time keeping, output file creation, saving, sync, figures", "netCDF4/HDF5"]
STUB = ["physics kernel (cheap seeded stand-in) in the quick tier, mixed in the thorough tier",
        "wall clock", "process death (SIGKILL of a forked process)"]
ASSUMPTIONS = ["no power failure: what the kernel accepted survives"]
RUNS = {"quick": 700, "thorough": 15000}


def warm(tier):
    mdl.warm("light" if tier == "quick" else "full")


_CUSTOM = {}
FIGS = {"save_eta_figs": "eta", "save_depth_figs": "depth", "save_stage_figs": "stage",
        "save_discharge_figs": "discharge", "save_velocity_figs": "velocity",
        "save_sedflux_figs": "sedflux", "save_sandfrac_figs": "sandfrac"}


def custom_class(base):
    """A model that adds variables to the output in the documented way."""
    if base not in _CUSTOM:
        class Custom(base):
            def hook_init_output_file(self):
                self._save_var_list["active_layer"] = [
                    "active_layer", "fraction", "f4", self._netcdf_coords]
                self._save_var_list["meta"]["np_sed_fixed"] = ["Np_sed", "parcels", "i8", ()]
                self._save_var_list["meta"]["SLR"] = [
                    None, "meters per second", "f4", (self._netcdf_coords[0])]
                if self.save_eta_figs:
                    self._save_fig_list["bed_layer"] = ["active_layer"]
        _CUSTOM[base] = Custom
    return _CUSTOM[base]


def gen(rng, i, tier):
    light = tier == "quick" or rng.random() < 0.7
    cfg = mdl.base_cfg(rng, light=light)
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    if i % 50 == 7 and light:
        n = rng.choice([40, 70, 110, 180])
    if rng.random() < 0.3:      # timestep of exactly a whole number of seconds: exact ties
        mdl.exact(cfg)
    drive.intervals(rng, cfg, n)
    dt = mdl.dt_of(cfg)
    if dt == int(dt) and rng.random() < 0.5:
        cfg["save_dt"] = int(dt) * rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        cfg["save_dt"] = max(1, int(rng.choice([0.3, 0.5, 0.9, 1.2, 1.5]) * dt))
    mdl.add_outputs(rng, cfg, must=0 if rng.random() < 0.1 else 1, figs=rng.choice([1, 1, 2, 3]) if i % 20 == 3 else 0)
    switch = []
    if i % 20 == 3:             # figures switched on or off during the run
        for _ in range(rng.choice([0, 1, 2])):
            on = [k for k in FIGS if cfg.get(k)]
            k = rng.choice(on + ["save_velocity_figs", rng.choice(sorted(FIGS))])
            switch.append([rng.randint(0, n), k, rng.random() < 0.4])
    if rng.random() < 0.12:     # metadata only
        for k in list(mdl.GRIDS) + list(mdl.COMPONENTS):
            cfg.pop(k, None)
        cfg["save_metadata"] = True
    if rng.random() < 0.3:
        cfg["save_checkpoint"] = True
    change = []
    if rng.random() < 0.25:     # the boundary or the save interval changed between updates
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(["save_dt", "save_dt", "channel_flow_velocity", "influx_sediment_concentration",
                            "bedload_fraction", "sea_surface_elevation_change"])
            change.append([rng.randint(0, n), k, {
                "save_dt": max(1, int(rng.choice([0.4, 0.8, 1.3, 2.3, 3.7]) * dt)),
                "channel_flow_velocity": rng.choice([0.45, 0.8, 1.1, 2.1]),
                "influx_sediment_concentration": rng.choice([0.0007, 0.0011, 0.0019]),
                "bedload_fraction": rng.choice([0.1, 0.35, 0.9]),
                "sea_surface_elevation_change": rng.choice([1e-5, -2e-6, 0.0])}[k]])
        change.sort(key=lambda z: z[0])
    return {"cfg": cfg, "n": n, "env": drive.environment(rng),
            "end": rng.choice(["finalize", "finalize", "exit", "kill", "kill"]),
            "custom": rng.random() < 0.2, "mid": rng.random() < 0.3, "switch": switch, "change": change}


def expected_schedule(times, save_dt, change=()):
    """First timestep with at least save_dt since the last record; ties resolved
    from exact rational arithmetic only where the timestep is a whole number.
    None if the timesteps were changed so that one meets the interval up to rounding."""
    rec = [0]
    for k in range(1, len(times)):
        dt = times[k] - times[k - 1]
        for at, key, v in change:
            if at == k - 1 and key == "save_dt":
                save_dt = v
        gap = times[k] - times[rec[-1]]
        if change and abs(gap - save_dt) < 1e-6 * dt and gap != save_dt:
            return None
        if gap >= save_dt - 1e-9 * max(1.0, dt):
            rec.append(k)
    return rec


SHOWS = dict({v: v for v in FIGS.values()}, bed_layer="active_layer")


def watch_figures(emit):
    """What the figures saved show (where that can be told from the figure)."""
    from matplotlib.figure import Figure
    save, seen = Figure.savefig, []

    def savefig(self, fname, *a, **k):
        for ax in self.axes:
            for im in list(ax.collections) + list(ax.images):
                arr = im.get_array()
                if arr is not None and np.size(arr) > 90 and np.size(arr) != 256:     # (not a colour bar)
                    emit("shown", (len(seen), os.path.basename(str(fname)),
                                   np.array(np.ma.filled(arr, np.nan), dtype=np.float32).ravel()))
        return save(self, fname, *a, **k)
    Figure.savefig = savefig
    return seen


def body(emit, cfg, out, env, n, end, custom, switch, change):
    drive.enter(out, env)
    cls = mdl.model_class(cfg)
    if custom:
        cls = custom_class(cls)
    seen = watch_figures(emit)
    m = cls(out_dir=out, **mdl.clean(cfg))

    def snap():
        d = drive.saved_arrays(m)
        d["meta:SLR"] = np.float32(m.SLR)
        emit("snap", (float(m.time), d))
        seen.append(1)
    static = {"L0": m.L0, "N0": m.N0, "CTR": m.CTR, "dx": np.float32(m.dx), "h0": np.float32(m.h0),
              "hb": np.float32(m.hb), "cell_type": m.cell_type.copy(),
              "x": m.x.astype("f4") if m.legacy_netcdf else m.xc.astype("f4"),
              "y": m.y.astype("f4") if m.legacy_netcdf else m.yc.astype("f4"),
              "L": m.L, "W": m.W, "Np_sed": m.Np_sed}
    if m.toggle_subsidence:
        static["start_subsidence"] = int(m.start_subsidence)
        static["sigma"] = np.asarray(m.sigma, dtype="f4")
    emit("static", static)
    snap()
    for k in range(n):
        for at, key, val in switch:
            if at == k:
                setattr(m, key, val)
        for at, key, val in change:
            if at == k:
                setattr(m, key, val)
        m.update()
        snap()
    if end == "finalize":
        m.finalize()
    elif end == "kill":
        os.kill(os.getpid(), 9)
    core.simos().end()
    return True


def reader(emit, out):
    return mdl.read_nc(os.path.join(out, "pyDeltaRCM_output.nc"))


META_UNITS = {"H_SL": "meters", "f_bedload": "fraction", "C0_percent": "percent",
              "u0": "meters per second", "L0": "cells", "N0": "cells", "CTR": "cells", "dx": "meters",
              "h0": "meters", "hb": "meters", "cell_type": "type", "start_subsidence": "seconds",
              "sigma": "meters per timestep"}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def run(scn, ctx):
    o = Outcome()
    cfg, n = scn["cfg"], scn["n"]
    out = ctx.dir("m")
    r = simproc(body, cfg, out, scn["env"], n, scn["end"], scn["custom"], scn.get("switch", ()),
                scn.get("change", ()))
    if r.error or not (r.value or r.killed):
        o.bad("run failed: %s" % ((r.error or {}).get("msg") or r.describe()))
        return o
    snaps = r.of("snap")
    static = r.of("static")[0]
    sched = expected_schedule([t for t, _ in snaps], cfg["save_dt"], scn.get("change", ()))
    if sched is None:
        o.count("ambiguous_interval")
        o.sig = core.digest("ambiguous")
        return o
    grids = mdl.saved_vars(cfg)
    any_nc = bool(grids) or cfg.get("save_metadata")
    o.fault({"finalize": "clean-end", "exit": "exit-without-finalize", "kill": "kill-after-update"}[
        scn["end"]])
    path = os.path.join(out, "pyDeltaRCM_output.nc")
    figs = list(FIGS.items())
    if scn["custom"] and any_nc and not scn.get("switch"):
        figs.append(("save_eta_figs", "bed_layer"))
    for key, f in figs:
        # the records at which the figure was on (a switch at k acts from timestep k + 1 on)
        at = [j for j, k in enumerate(sched) if ([cfg.get(key)] + [
            v for a, b, v in sorted(scn.get("switch", ()), key=lambda z: z[0]) if b == key and a < k])[-1]]
        want = ["%s_%05d.png" % (f, k) for k in at] \
            if cfg.get("save_figs_sequential", True) else ["%s_latest.png" % f] * bool(at)
        have = sorted(x for x in os.listdir(out) if x.startswith(f + "_") and x.endswith(".png"))
        if have != want:
            o.bad("figures %s, expected %s" % (have, want))
        for x in have:
            with open(os.path.join(out, x), "rb") as fh:
                b = fh.read()
            if not (b.startswith(b"\x89PNG") and b.rstrip(b"\0").endswith(b"IEND\xaeB`\x82")):
                o.bad("figure %s is not a complete PNG file" % x)
        o.count("figures", len(have))
    for k, name, arr in r.of("shown"):
        f = SHOWS.get(name.rpartition("_")[0])
        if f and k < len(snaps) and arr.size == snaps[k][1][f].size:
            if not np.array_equal(arr, snaps[k][1][f].ravel()):
                o.bad("figure %s made with timestep %d does not show %s of that time" % (name, k, f))
            o.count("figures_compared")
    if not any_nc:
        if os.path.exists(path):
            o.bad("an output file was written although nothing was to be saved in it")
        o.sig = core.digest("none", n)
        return o
    rd = simproc(reader, out)
    if rd.value is None:
        o.bad("output file unreadable after %s: %s" % (scn["end"], rd.error and rd.error["msg"]))
        return o
    nc = rd.value
    legacy = bool(cfg.get("legacy_netcdf"))
    tdim, xd, yd = ("total_time", "length", "width") if legacy else ("time", "x", "y")
    dims = nc["dims"]
    if dims.get(tdim, (0, 0))[0] != len(sched):
        o.bad("%d records on disk after %s at timestep %d, expected %d (timesteps %s)" % (
            dims.get(tdim, (0, 0))[0], scn["end"], n, len(sched), sched))
        return o
    if dims.get(xd, (0,))[0] != static["L"] or dims.get(yd, (0,))[0] != static["W"]:
        o.bad("dimensions are %s" % dims)
    expect_vars = {"time", "x", "y"} | {g[0] for g in grids}
    if scn["custom"]:
        expect_vars.add("active_layer")
    if set(nc["vars"]) != expect_vars:
        o.bad("variables are %s, expected %s" % (sorted(nc["vars"]), sorted(expect_vars)))
        return o
    meta_t = set(mdl.TIMEVAR_META) | ({"SLR"} if scn["custom"] else set())
    meta_s = {"L0", "N0", "CTR", "dx", "h0", "hb", "cell_type"} | \
        ({"start_subsidence", "sigma"} if cfg.get("toggle_subsidence") else set()) | \
        ({"np_sed_fixed"} if scn["custom"] else set())
    if set(nc["meta"]) != meta_t | meta_s:
        o.bad("metadata are %s, expected %s" % (sorted(nc["meta"]), sorted(meta_t | meta_s)))
        return o
    for k in ("x", "y"):
        if not same(nc["vars"][k][0], static[k]):
            o.bad("coordinate %s on disk differs from the model's" % k)
    for k in meta_s:
        w = static["Np_sed"] if k == "np_sed_fixed" else static[k]
        if not same(nc["meta"][k][0], w) or nc["meta"][k][1]:
            o.bad("fixed metadata %s is %r, model has %r" % (k, nc["meta"][k][0], w))
    for k in expect_vars - {"active_layer"}:
        if nc["units"].get(k) != mdl.UNITS[k]:
            o.bad("units of %s are %r" % (k, nc["units"].get(k)))
    for k in (meta_t | meta_s) - {"SLR", "np_sed_fixed"}:
        if nc["meta_units"].get(k) != META_UNITS[k]:
            o.bad("units of metadata %s are %r" % (k, nc["meta_units"].get(k)))
    for rec, k in enumerate(sched):
        snap = snaps[k][1]
        for v in expect_vars - {"x", "y"}:
            got = nc["vars"][v][0][rec]
            if not same(got, snap[v]):
                o.bad("record %d (timestep %d) of %s differs from the model state" % (rec, k, v))
        for v in meta_t:
            if not same(nc["meta"][v][0][rec], snap["meta:" + v]):
                o.bad("record %d (timestep %d) of metadata %s is %r, model had %r" % (
                    rec, k, v, nc["meta"][v][0][rec], snap["meta:" + v]))
        if o.violations:
            break
    o.count("changed_between_updates", len(scn.get("change", ())))
    o.count("records_compared", len(sched))
    o.count("variables_compared", len(sched) * (len(expect_vars) + len(meta_t)))
    o.sim_time = snaps[-1][0]
    o.nontrivial = len(sched) > 1
    o.sig = core.digest(sorted(expect_vars), sched, scn["end"], legacy, scn["custom"])
    return o


def shrink(scn):
    for j in range(len(scn.get("change", ()))):
        yield dict(scn, change=scn["change"][:j] + scn["change"][j + 1:])
    if scn["n"] > 12:
        yield dict(scn, n=scn["n"] // 2)
    if scn.get("switch"):
        yield dict(scn, switch=scn["switch"][:-1])
    if scn["n"] > 0:
        yield dict(scn, n=scn["n"] - 1)
    if scn["custom"]:
        yield dict(scn, custom=False)
    if scn["end"] != "finalize":
        yield dict(scn, end="finalize")
    on = [k for k in list(mdl.GRIDS) + list(mdl.COMPONENTS) if scn["cfg"].get(k)]
    if len(on) > 1:
        for k in on:
            yield dict(scn, cfg=drive.strip(scn["cfg"], (k,)))
