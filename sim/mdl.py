"""The system under simulation: model configurations, state capture, seams."""
import hashlib
import os
import struct

import numpy as np

FIELDS = ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "qs",
          "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud")

GRIDS = {"save_eta_grids": ("eta", "eta"), "save_stage_grids": ("stage", "stage"),
         "save_depth_grids": ("depth", "depth"), "save_discharge_grids": ("discharge", "qw"),
         "save_velocity_grids": ("velocity", "uw"), "save_sedflux_grids": ("sedflux", "qs"),
         "save_sandfrac_grids": ("sandfrac", "sand_frac")}
COMPONENTS = {"save_discharge_components": (("discharge_x", "qx"), ("discharge_y", "qy")),
              "save_velocity_components": (("velocity_x", "ux"), ("velocity_y", "uy"))}
UNITS = {"eta": "meters", "stage": "meters", "depth": "meters",
         "discharge": "cubic meters per second", "velocity": "meters per second",
         "sedflux": "cubic meters per second", "sandfrac": "fraction",
         "discharge_x": "cubic meters per second", "discharge_y": "cubic meters per second",
         "velocity_x": "meters per second", "velocity_y": "meters per second",
         "time": "second", "x": "meter", "y": "meter"}
TIMEVAR_META = ("H_SL", "f_bedload", "C0_percent", "u0")


def DeltaModel():
    from pyDeltaRCM.model import DeltaModel as D
    return D


def shared():
    from pyDeltaRCM import shared_tools
    return shared_tools


_LIGHT = None


def Light():
    """A DeltaModel whose physics is a cheap stand-in (documented in evidence):
    bed and water fields follow a few draws of the model's own generator.
    Everything else - time keeping, base level, saving, checkpointing, logging,
    jobs - is the real code."""
    global _LIGHT
    if _LIGHT is None:
        class LightModel(DeltaModel()):
            def solve_water_and_sediment_timestep(self):
                st = shared()
                self.eta0 = np.copy(self.eta)
                a = np.float32(st.get_random_uniform(1.0))
                b = np.float32(st.get_random_uniform(1.0))
                k = int(st.get_random_uniform(self.L * self.W - 1))
                wet = self.cell_type == 0
                self.eta[wet] += np.float32(0.01) * a
                self.eta.flat[k] += np.float32(0.05) * b * wet.flat[k]
                self.stage[wet] = self.stage[wet] + np.float32(0.001) * b
                self.depth[:] = np.maximum(self.stage - self.eta, 0)
                self.qx[wet] = self.qx[wet] * np.float32(0.9) + a
                self.qy[wet] = self.qy[wet] * np.float32(0.9) + (b - np.float32(0.5))
                self.qw = ((self.qx**2 + self.qy**2) ** 0.5).astype(np.float32)
                self.ux[wet] = a
                self.uy[wet] = b - np.float32(0.5)
                if wet.flat[k]:         # very slow here
                    self.ux.flat[k] *= np.float32(1e-9)
                    self.uy.flat[k] *= np.float32(1e-9)
                self.uw = ((self.ux**2 + self.uy**2) ** 0.5).astype(np.float32)
                self.qs[wet] = a * b
                self.qs.flat[k] *= np.float32(1e-9)
                self.Vp_dep_sand[:] = 0
                self.Vp_dep_mud[:] = 0
                self.Vp_dep_sand.flat[k] = a * wet.flat[k]
                self.Vp_dep_mud.flat[k] = b * wet.flat[k]
        _LIGHT = LightModel
    return _LIGHT


_EXTRA = {}


def with_extra(base):
    """A user's model with configuration parameters of its own (as documented)."""
    if base not in _EXTRA:
        class ExtraModel(base):
            def hook_import_files(self):
                self.subclass_parameters["relief"] = {"type": ["int", "float"], "default": 0.125}
                self.subclass_parameters["ridge"] = {"type": "bool", "default": False}

            def hook_after_create_domain(self):
                wet = self.cell_type == 0
                self.eta[wet] += np.float32(self.relief)
                if self.ridge:
                    self.eta[:, self.W // 2][wet[:, self.W // 2]] += np.float32(0.25)
                self.depth[wet] = np.maximum(self.stage[wet] - self.eta[wet], 0)
        _EXTRA[base] = ExtraModel
    return _EXTRA[base]


def model_class(scn_cfg):
    base = Light() if scn_cfg.get("_light") else DeltaModel()
    return with_extra(base) if scn_cfg.get("_extra") else base


def clean(cfg):
    return {k: v for k, v in cfg.items() if not k.startswith("_")}


def base_cfg(rng, light=False):
    """A small but varied domain; every value has the type it has by default,
    so that one JIT specialisation serves all of them."""
    dx = rng.choice([1.0, 2.0, 5.0])
    L = rng.choice([10, 10, 12, 15])
    W = rng.choice([10, 12, 15, 16, 20])
    cfg = dict(
        Length=float(L * dx), Width=float(W * dx), dx=dx,
        L0_meters=float(rng.choice([1, 1, 2, 3]) * dx), S0=rng.choice([1.5e-4, 2e-4, 1e-3]),
        itermax=rng.choice([1, 1, 2, 3]), Np_water=rng.choice([5, 10, 20]),
        u0=rng.choice([1.0, 0.7, 1.3]), N0_meters=float(rng.choice([2, 3, 4]) * dx),
        h0=rng.choice([1.0, 2.0, 0.7]), SLR=rng.choice([0.0, 0.0, 1e-6, 3e-5, -1e-6]),
        Np_sed=rng.choice([6, 10, 20]), f_bedload=rng.choice([0.25, 0.5, 0.5, 0.8]),
        C0_percent=rng.choice([0.1, 0.1, 0.13, 0.3, 0.07]),
        seed=rng.choice([0, 1, 2**31, 2**32 - 2]) if rng.random() < 0.08 else
        rng.randrange(2**32 - 1),
    )
    if rng.random() < 0.3:
        cfg["hb"] = cfg["h0"] * rng.choice([0.5, 1.5])
    if rng.random() < 0.35:
        cfg["toggle_subsidence"] = True
        cfg["subsidence_rate"] = rng.choice([2e-9, 1e-6, 5e-5])
        cfg["start_subsidence"] = rng.choice([0.0, 400.0, 1000.0])
    if rng.random() < 0.2:
        cfg["sand_frac_bc"] = 0.25
    if rng.random() < 0.2:
        cfg["H_SL"] = rng.choice([0.0, 0.4, -0.3])
    if rng.random() < 0.2:
        cfg["legacy_netcdf"] = True
    if light:
        cfg["_light"] = True
    return cfg


def widen(rng, cfg):
    """A larger domain, in which parcels travel further before they reach the edge."""
    dx = cfg["dx"]
    cfg["Length"] = float(rng.choice([16, 20, 24]) * dx)
    cfg["Width"] = float(rng.choice([24, 30, 40]) * dx)
    return cfg


def exact(cfg):
    """A timestep of exactly a whole number of seconds, so that intervals can tie."""
    cfg.update(dx=5.0, Length=50.0, Width=60.0, N0_meters=15.0, L0_meters=5.0,
               u0=1.0, h0=1.0, C0_percent=0.1)
    cfg.pop("hb", None)
    dt = dt_of(cfg)
    assert dt == int(dt)
    return int(dt)


def dt_of(cfg):
    """Time step from the documented relation (dVs / Qs0)."""
    dx = cfg["dx"]
    W = int(round(cfg["Width"] / dx))
    N0 = max(3, min(int(round(cfg["N0_meters"] / dx)), W // 4))
    h0 = cfg["h0"]
    V0 = h0 * dx**2
    Qw0 = cfg["u0"] * h0 * N0 * dx
    return (0.1 * N0**2 * V0) / (Qw0 * (cfg["C0_percent"] / 100.0))


def add_outputs(rng, cfg, must=1, figs=False):
    ks = list(GRIDS) + list(COMPONENTS)
    n = rng.randint(must, 4)
    for k in rng.sample(ks, n):
        cfg[k] = True
    if rng.random() < 0.3:
        cfg["save_metadata"] = True
    if figs:
        for k in rng.sample(["save_eta_figs", "save_depth_figs", "save_stage_figs",
                             "save_discharge_figs", "save_velocity_figs",
                             "save_sedflux_figs", "save_sandfrac_figs"], figs):
            cfg[k] = True
        cfg["save_figs_sequential"] = rng.random() < 0.6


def saved_vars(cfg):
    out = []
    for k, v in GRIDS.items():
        if cfg.get(k):
            out.append(v)
    for k, vs in COMPONENTS.items():
        if cfg.get(k):
            out.extend(vs)
    return out


def _b(a):
    a = np.ascontiguousarray(a)
    return a.dtype.str.encode() + str(a.shape).encode() + a.tobytes()


def rng_digest():
    st = shared().get_random_state()
    h = hashlib.sha1()
    h.update(repr(int(st[0])).encode())
    h.update(np.asarray(st[1], dtype=np.uint64).tobytes())
    return h.hexdigest()[:12]


def state_digest(m, rng=True, fields=FIELDS):
    d = {}
    for f in fields:
        d[f] = hashlib.sha1(_b(getattr(m, f))).hexdigest()[:12]
    d["time"] = struct.pack("<d", float(m.time)).hex()
    d["time_iter"] = int(m.time_iter)
    d["H_SL"] = struct.pack("<d", float(m.H_SL)).hex()
    if rng:
        d["rng"] = rng_digest()
    return d


def diff_digest(a, b):
    return [k for k in a if a.get(k) != b.get(k)] + [k for k in b if k not in a]


# ----------------------------------------------------------- reading outputs
def read_nc(path):
    """Every record of an output file as plain data (run in a sim process)."""
    from netCDF4 import Dataset
    out = {"vars": {}, "units": {}, "meta": {}, "meta_units": {}, "dims": {}, "attrs": {},
           "info": {}}
    with Dataset(path) as ds:
        for k in ds.ncattrs():
            out["attrs"][k] = str(ds.getncattr(k))
        for k, v in ds.dimensions.items():
            out["dims"][k] = (len(v), bool(v.isunlimited()))
        for k, v in ds.variables.items():
            a = v[:]
            out["vars"][k] = (np.ma.getdata(a).copy(), np.ma.getmaskarray(a).any())
            out["units"][k] = getattr(v, "units", None)
            out["info"][k] = (v.dimensions, {a: str(v.getncattr(a)) for a in v.ncattrs()})
        if "meta" in ds.groups:
            for k, v in ds.groups["meta"].variables.items():
                a = v[:]
                out["meta"][k] = (np.ma.getdata(a).copy(), np.ma.getmaskarray(a).any())
                out["meta_units"][k] = getattr(v, "units", None)
                out["info"]["meta/" + k] = (v.dimensions,
                                            {a: str(v.getncattr(a)) for a in v.ncattrs()})
    return out


def nc_digest(path, n=None, ignore=("history",)):
    """Digest of everything in the file, limited to the first n records."""
    r = read_nc(path)
    d = {}
    tdim = [k for k, (l, u) in r["dims"].items() if u]
    nt = r["dims"][tdim[0]][0] if tdim else 0
    n = nt if n is None else n
    d["__n__"] = nt
    for k, (ln, unl) in r["dims"].items():
        d["dim:" + k] = "unlimited" if unl else ln
    for k, v in r["attrs"].items():
        d["attr:" + k] = v if k not in ignore else bool(v)
    for grp in ("vars", "meta"):
        for k, (a, masked) in r[grp].items():
            if a.ndim and a.shape[0] == nt and k not in ("x", "y", "cell_type", "sigma"):
                a = a[:n]
            d[grp + ":" + k] = hashlib.sha1(_b(a)).hexdigest()[:12]
    for k, v in r["info"].items():
        d["attributes:" + k] = repr((v[0], sorted(v[1].items())))
    return d


def read_ckp(path):
    with np.load(path, allow_pickle=True) as z:
        return {k: z[k] for k in z.files}


# -------------------------------------------------------------- adversarial
def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    y &= 0xFFFFFFFF
    t = y
    for _ in range(5):
        t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def mt_state_for(doubles, rng):
    """An MT19937 state whose next 312 uniform doubles are the given ones (the bits a
    double does not use are noise, so that later blocks look ordinary)."""
    words = []
    for u in doubles[:312]:
        k = min(max(int(u * 2.0**53), 1), 2**53 - 1)
        a, b = k >> 26, k & (2**26 - 1)
        words.append(_untemper(((a << 5) | rng.getrandbits(5)) & 0xFFFFFFFF))
        words.append(_untemper(((b << 6) | rng.getrandbits(6)) & 0xFFFFFFFF))
    return words


def adversarial_doubles(rng, style):
    if style == "low":
        return [2.0**-53] * 312
    if style == "high":
        return [1 - 2.0**-53] * 312
    if style == "alternate":
        return [2.0**-53 if i % 2 else 1 - 2.0**-53 for i in range(312)]
    if style == "mid":
        return [0.5] * 312
    if style == "sticky":
        out = []
        while len(out) < 312:
            out += [rng.random()] * rng.randint(2, 40)
        return out[:312]
    if style == "edges":
        return [rng.choice([2.0**-53, 1e-12, 0.25, 0.5, 0.75, 1 - 1e-12, 1 - 2.0**-53])
                for _ in range(312)]
    if style == "ramp":
        return [((i * 37) % 312 + 0.5) / 312 for i in range(312)]
    return [max(rng.random(), 2.0**-53) for _ in range(312)]


STYLES = ("low", "high", "alternate", "mid", "sticky", "edges", "ramp", "random")


def inject(rng, style):
    st = shared()
    cur = st.get_random_state()
    words = mt_state_for(adversarial_doubles(rng, style), rng)
    st.set_random_state((0, words) + tuple(cur[2:]))


def drew_zero(before, after, limit=400):
    """Whether the generator, going from one state to the other, yielded exactly 0.0 (which
    is outside what the checks assume about draws)."""
    r = np.random.RandomState()
    r.set_state(("MT19937", np.asarray(before[1], dtype=np.uint32), int(before[0])))
    goal = np.asarray(after[1], dtype=np.uint32)
    for _ in range(limit):
        cur = r.get_state()
        if np.array_equal(cur[1], goal):
            left = (int(after[0]) - int(cur[2])) // 2
            return bool(left > 0 and np.any(r.random_sample(left) == 0.0))
        n = max(1, (624 - int(cur[2])) // 2) if int(cur[2]) < 624 else 1
        if np.any(r.random_sample(n) == 0.0):
            return True
    return False


# ------------------------------------------------------------------- warm-up
def warm(kind="full", n=1):
    import random as _r
    import tempfile
    import warnings
    import shutil
    import contextlib
    import io
    warnings.simplefilter("ignore")
    d = tempfile.mkdtemp(prefix="warm_", dir=os.environ.get("SIM_SCRATCH"))
    st = shared()
    if kind == "none":
        return
    for j in range(n):
        rng = _r.Random("warm%d" % j)
        cfg = base_cfg(rng, light=(kind == "light"))
        cfg["save_eta_grids"] = True
        cfg["save_checkpoint"] = True
        cfg["save_dt"] = 1
        m = model_class(cfg)(out_dir=os.path.join(d, "w%d" % j), **clean(cfg))
        st.get_random_uniform(1.0)
        for _ in range(4 if kind == "full" else 1):
            m.update()
        m.finalize()
    if kind == "full":
        # a resumed model has Fortran/C order identical arrays, same signatures
        cfg["resume_checkpoint"] = True
        m = model_class(cfg)(out_dir=os.path.join(d, "w%d" % (n - 1)), **clean(cfg))
        m.update()
        m.finalize()
    shutil.rmtree(d, ignore_errors=True)
