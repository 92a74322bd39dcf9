"""Full-physics model under observation: adversarial generator states are put in
before every routing stage, and fields are snapshot at the model's public hooks."""
import random

import numpy as np

from . import mdl

_CLS = {}


def tune(rng, cfg):
    """Physics options on top of base_cfg, some of them extreme."""
    if rng.random() < 0.5:
        cfg["theta_water"] = rng.choice([0.5, 1.0, 1.5, 3.0])
    if rng.random() < 0.3:
        cfg["coeff_theta_sand"] = rng.choice([1.0, 2.0, 3.0])
    if rng.random() < 0.3:
        cfg["coeff_theta_mud"] = rng.choice([0.5, 1.0, 2.0])
    if rng.random() < 0.3:
        cfg["Nsmooth"] = rng.choice([0, 1, 5, 10])
    if rng.random() < 0.3:
        cfg["Csmooth"] = rng.choice([0.5, 0.9, 0.99])
    if rng.random() < 0.3:
        cfg["omega_sfc"] = rng.choice([0.1, 0.5, 1.0])
    if rng.random() < 0.3:
        cfg["omega_flow"] = rng.choice([0.5, 0.9, 1.0])
    if rng.random() < 0.3:
        cfg["alpha"] = rng.choice([0.01, 0.05, 0.1])
    if rng.random() < 0.3:
        cfg["sed_lag"] = rng.choice([0.2, 0.5, 1.0])
    if rng.random() < 0.3:
        cfg["coeff_U_dep_mud"] = rng.choice([0.1, 0.3, 0.6])
    if rng.random() < 0.3:
        cfg["coeff_U_ero_mud"] = rng.choice([0.8, 1.2, 1.5])
    if rng.random() < 0.3:
        cfg["coeff_U_ero_sand"] = rng.choice([0.7, 1.05, 1.4])
    if rng.random() < 0.3:
        cfg["stepmax"] = float(rng.choice([4, 8, 20, 200]))
    if rng.random() < 0.3:
        cfg["beta"] = rng.choice([2, 3, 5])
    if rng.random() < 0.3:
        cfg["f_bedload"] = rng.choice([0.0, 0.05, 0.3, 0.7, 0.95, 1.0])
    if rng.random() < 0.3:
        cfg["Np_sed"] = rng.choice([1, 2, 3, 7, 40])
    if rng.random() < 0.3:
        cfg["Np_water"] = rng.choice([1, 2, 3, 40])
    if rng.random() < 0.25:
        cfg["active_layer_thickness"] = rng.choice([0.01, 0.1, 1.0])
    if rng.random() < 0.2:
        cfg["S0"] = rng.choice([1e-5, 5e-3])
        if gamma(cfg) > 0.8:
            cfg["S0"] = 1e-5
    cfg["sand_frac_bc"] = rng.choice([0.0, 0.0, 0.25, 0.6])
    if rng.random() < 0.4:
        mdl.widen(rng, cfg)
    return cfg


def gamma(cfg, factor=1.0):
    """The partition of the routing weights between slope and inertia; only values below
    one mean anything (above, weights are negative and the model says so and stops)."""
    return 9.81 * cfg.get("S0", 0.00015) * cfg["dx"] / (cfg["u0"] * factor) ** 2


def terrain(rng, cfg, land=True):
    """A basin that is not flat: shoals, islands, holes and (sometimes) more land cells,
    laid out when the domain is created."""
    if rng.random() < 0.5:
        return None
    L, W = int(round(cfg["Length"] / cfg["dx"])), int(round(cfg["Width"] / cfg["dx"]))
    bumps = [[rng.randint(1, L - 1), rng.randint(0, W - 1), rng.choice([0.6, 1.0, 2.0, 4.0]),
              rng.choice([-0.5, 0.5, 0.9, 0.97, 1.0, 1.1, 1.5])] for _ in range(rng.randint(1, 6))]
    land = [[rng.randint(4, L - 2), rng.randint(1, W - 2)] for _ in range(rng.randint(1, 5))] \
        if land and rng.random() < 0.3 else []
    return {"bumps": bumps, "land": land}


def lay(m, t):
    if not t:
        return
    x, y = np.mgrid[0:m.L, 0:m.W]
    up = np.zeros((m.L, m.W))
    for r, c, w, h in t["bumps"]:
        b = h * np.exp(-((x - r) ** 2 + (y - c) ** 2) / (2 * w * w))
        up = np.where(np.abs(b) > np.abs(up), b, up)
    for r, c in t["land"]:
        if r >= m.L0 + 2:
            m.cell_type[r, c] = -2
    basin = (m.cell_type != -2) & (m.cell_type != 1) & (x >= m.L0)
    h = m.stage - m.eta
    m.eta[basin] += (up * h)[basin].astype(np.float32)
    wall = (m.cell_type == -2) & (x >= m.L0)
    m.eta[wall] = m.stage[wall]
    m.stage[:] = np.maximum(m.stage, m.eta)
    m.depth[:] = m.stage - m.eta


def Watch(light=False):
    """DeltaModel that reports stage boundaries to `self.watch(stage, model)`."""
    if light not in _CLS:
        class WatchModel(mdl.Light() if light else mdl.DeltaModel()):
            watch = None
            terrain = None

            def hook_after_create_domain(self):
                lay(self, self.terrain)

            def _w(self, stage):
                if self.watch is not None:
                    type(self).watch(stage, self)

            def hook_solve_water_and_sediment_timestep(self):
                self._w("begin")

            def hook_run_water_iteration(self):
                self._w("water")

            def hook_compute_free_surface(self):
                self._w("walked")

            def hook_after_route_water(self):
                self._w("flow")

            def hook_route_all_sand_parcels(self):
                self._w("sand")

            def hook_topo_diffusion(self):
                self._w("diffusion")

            def hook_route_all_mud_parcels(self):
                self._w("mud")

            def hook_after_route_sediment(self):
                self._w("routed")

            def hook_apply_subsidence(self):
                self._w("subsidence")

            def hook_finalize_timestep(self):
                self._w("finalize")

            def hook_after_finalize_timestep(self):
                self._w("end")
        _CLS[light] = WatchModel
    return _CLS[light]


class Violation(Exception):
    pass


class Void(Exception):
    """The run left the assumptions (a draw of exactly 0.0)."""


class Draws:
    """Decides the random numbers: each call puts the generator into a chosen state."""

    def __init__(self, seed, style, on):
        self.r = random.Random(seed)
        self.style = style
        self.on = on
        self.last = None

    def zero(self):
        return self.last is not None and mdl.drew_zero(self.last, mdl.shared().get_random_state())

    def __call__(self):
        if not self.on:
            return
        if self.zero():
            raise Void()
        mdl.inject(self.r, self.style)
        self.last = mdl.shared().get_random_state()


def need(ok, msg):
    if not ok:
        raise Violation(msg)


def at(mask):
    i = np.argwhere(mask)
    return "cell (%d, %d)%s" % (i[0][0], i[0][1], " and %d more" % (len(i) - 1)
                                if len(i) > 1 else "")


def cells(bad, msg):
    if np.any(bad):
        raise Violation("%s at %s" % (msg, at(bad)))


# --------------------------------------------------------------------- flow
FLOW = ("stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw")


def check_finite(m, names):
    for f in names:
        a = np.asarray(getattr(m, f))
        cells(~np.isfinite(a), "%s is not finite" % f)


def check_flow(m, h_sl, where, inlet_depth=True):
    """Field relations that hold whenever flow routing or a timestep has ended."""
    f8 = np.float64
    check_finite(m, FLOW + ("eta",))
    stage, depth, eta = f8(m.stage), f8(m.depth), f8(m.eta)
    sc = 1 + np.abs(stage).max() + np.abs(eta).max()
    cells(depth < 0, "%s: negative depth" % where)
    cells(np.abs(depth - np.maximum(stage - eta, 0)) > 2e-6 * sc,
          "%s: depth differs from water surface minus bed" % where)
    cells(stage < h_sl - 1e-6 * sc, "%s: water surface below sea level" % where)
    qx, qy, qw = f8(m.qx), f8(m.qy), f8(m.qw)
    q = np.hypot(qx, qy)
    cells(qw < 0, "%s: negative discharge" % where)
    cells(np.abs(qw - q) > 1e-5 * (qw.max() + q), "%s: discharge magnitude differs from its "
          "components" % where)
    ux, uy, uw = f8(m.ux), f8(m.uy), f8(m.uw)
    cells(uw < 0, "%s: negative speed" % where)
    cells(uw > m.u_max * (1 + 1e-6), "%s: speed exceeds its maximum" % where)
    cells(np.abs(uw - np.hypot(ux, uy)) > 1e-5 * m.u_max,
          "%s: speed differs from its components" % where)
    cells(ux * qx + uy * qy < -1e-5 * (1 + qw.max()) * m.u_max,
          "%s: velocity against discharge" % where)
    land = m.cell_type == -2
    cells(land & ((qw > 0) | (uw > 0)), "%s: flow on land" % where)
    inl = m.inlet
    need(np.allclose(qw[0, inl], m.qw0, rtol=1e-6) and np.allclose(qx[0, inl], m.qw0, rtol=1e-6)
         and np.all(qy[0, inl] == 0), "%s: inlet discharge is not the imposed one" % where)
    if inlet_depth:
        need(np.allclose(depth[0, inl], m.h0, rtol=1e-6),
             "%s: inlet depth is not the imposed one" % where)


def check_water_speed(m, where):
    """Right after flow routing: speed = discharge / depth, capped; dry cells still."""
    f8 = np.float64
    depth, qw, uw = f8(m.depth), f8(m.qw), f8(m.uw)
    wet = (depth > m.dry_depth * (1 + 1e-5)) & (qw > 0)
    exp = np.minimum(m.u_max, qw / np.where(wet, depth, 1))
    cells(wet & (np.abs(uw - exp) > 1e-5 * m.u_max), "%s: speed is not discharge over depth" % where)
    cells((depth < m.dry_depth * (1 - 1e-5)) & (uw > 0), "%s: flow in a dry cell" % where)


def check_walks(m, depth=None):
    """Water parcels: start in the inlet, step to neighbours (or are moved a few
    cells), never leave the domain or enter land, enter dry cells only where no wet
    one is near (depth: as the parcels met it), and carry all of the discharge."""
    W, L = m.W, m.L
    if not all(hasattr(m, k) for k in ("free_surf_walk_inds", "free_surf_flag", "Qp_water", "qwn",
                                       "qxn", "qyn")):
        return {"paths_not_visible": 1}
    walks = m.free_surf_walk_inds
    n = m.Np_water
    Qh = m.Qp_water / m.dx / 2
    need(walks.shape[0] == n, "%d of %d water parcels routed" % (walks.shape[0], n))
    ctf = m.cell_type.ravel()
    known = np.zeros(L * W)        # half discharges by cell
    kx, ky = np.zeros(L * W), np.zeros(L * W)
    half = slack = jumps = moves = 0
    dry = wet_near = None
    if depth is not None:
        # cells next to a wet one that is not land
        wet = (depth > m.dry_depth * (1 + 1e-5)) & (m.cell_type != -2)
        pw = np.pad(wet, 1)
        wet_near = np.zeros((L, W), dtype=bool)
        for i in (0, 1, 2):
            for j in (0, 1, 2):
                if i != 1 or j != 1:
                    wet_near |= pw[i:i + L, j:j + W]
        wet_near, dry = wet_near.ravel(), (depth < m.dry_depth * (1 - 1e-5)).ravel()
    for p in range(n):
        row = walks[p]
        nz = np.flatnonzero(row)
        k = len(nz)
        w = row[:k]
        need(k >= 1 and nz[-1] == k - 1, "water parcel path has a gap")
        need(np.all((w >= 0) & (w < L * W)), "water parcel outside the domain")
        x, y = w // W, w % W
        need(x[0] == 0 and y[0] in m.inlet, "water parcel enters outside the inlet")
        need(np.all(ctf[w] != -2), "water parcel on land")
        dx, dy = np.diff(x), np.diff(y)
        adj = (np.abs(dx) <= 1) & (np.abs(dy) <= 1)
        need(np.all((np.abs(dx) <= 6) & (np.abs(dy) <= 6)),
             "water parcel moved further than a relocation can take it")
        steps = k - 1
        need(steps <= m.stepmax, "water parcel took %d steps, %d are allowed" % (steps, m.stepmax))
        edge = ctf[w] == -1
        need(not np.any(edge[:-1]), "water parcel goes on after reaching the edge")
        ended = bool(edge[-1])
        if dry is not None:
            into = dry[w[1:]] & wet_near[w[:-1]] & adj & (x[:-1] > 0)
            # a relocation may end in a neighbouring cell where it is cut off
            into &= ~((x[1:] == L - 2) | (y[1:] == 1) | (y[1:] == W - 2))
            need(not into.any(), "water parcel enters a dry cell next to wet ones")
        known[w[0]] += 1
        kx[w[0]] += 1
        for i in range(steps):
            d = np.hypot(dx[i], dy[i])
            known[w[i]] += 1
            if adj[i] and d > 0:
                known[w[i + 1]] += 1
                for c in (w[i], w[i + 1]):
                    kx[c] += dx[i] / d
                    ky[c] += dy[i] / d
            else:
                jumps += 1
                half += 1
            # a relocation may end in a neighbouring cell only where it is cut off
            if x[i + 1] == L - 2 or y[i + 1] in (1, W - 2) or d == 0:
                slack += 1
        if ended:
            known[w[-1]] += 1
            if steps:
                d = np.hypot(dx[-1], dy[-1])
                kx[w[-1]] += dx[-1] / max(d, 1)
                ky[w[-1]] += dy[-1] / max(d, 1)
        elif steps < m.stepmax:
            # stops early only when relocated onto the edge while looping: its last
            # step is not in the path
            need(m.free_surf_flag[p] == 0, "water parcel stopped inside the domain after %d of "
                 "%d steps" % (steps, m.stepmax))
            known[w[-1]] += 1
            half += 2
            slack += 1
        moves += steps
    # the first row is left out: its discharge is imposed, not accumulated
    got = np.float64(m.qwn).ravel() / Qh
    fx, fy = np.float64(m.qxn).ravel(), np.float64(m.qyn).ravel()
    for a in (got, known, fx, kx, fy, ky):
        a[:W] = 0
    tot = known.sum() + half
    need(abs(got.sum() - tot) <= 1e-4 * tot, "water parcels carried %.3f half discharges, the "
         "fields hold %.3f" % (tot, got.sum()))
    exact = slack == 0 and jumps == 0
    if exact:
        eps = 1e-4 * (1 + known.max())
        cells((np.abs(got - known) > eps).reshape(L, W), "discharge is not that of the parcels "
              "that passed")
        for nm, f, kk in (("downstream", fx, kx), ("cross-stream", fy, ky)):
            cells((np.abs(f - kk) > eps).reshape(L, W),
                  "%s discharge direction is not that of the parcels that passed" % nm)
    return {"parcels": n, "moves": moves, "relocations": jumps, "exact_walk_sets": int(exact)}


# ----------------------------------------------------------------- sediment
class OneByOne:
    """Stands before a sediment router and hands it one parcel at a time, so that each
    parcel's own effect on bed and flux is seen. The router itself is the real one."""

    def __init__(self, router, seen):
        object.__setattr__(self, "_r", router)
        object.__setattr__(self, "_seen", seen)

    def __getattr__(self, k):
        return getattr(self._r, k)

    def __setattr__(self, k, v):
        setattr(self._r, k, v)

    def run(self, *a, **kw):
        ind = a[0] if a else kw.get("start_indices")
        if not (isinstance(ind, np.ndarray) and ind.ndim == 1 and ind.dtype.kind == "i"):
            return self._r.run(*a, **kw)
        out = None
        for k in range(len(ind)):
            one = ind[k:k + 1]
            if a:
                out = self._r.run(one, *a[1:], **kw)
            else:
                out = self._r.run(**dict(kw, start_indices=one))
            self._seen()
        if not len(ind):
            out = self._r.run(*a, **kw)
        return out


def watch_parcels(m, kind, seen):
    """Have seen() called after each parcel of the coming routing; False if not possible."""
    k = {"sand": "_sr", "mud": "_mr"}[kind]
    r = getattr(m, k, None)
    if r is None or not callable(getattr(r, "run", None)):
        return False
    if isinstance(r, OneByOne):
        r = r._r
    setattr(m, k, OneByOne(r, seen))
    return True


class SedCheck:
    """Accounts for the bed through the stages of one timestep."""

    def __init__(self):
        self.s = {}
        self.n = 0

    @staticmethod
    def fields(m):
        return {f: np.float64(getattr(m, f)) for f in
                ("eta", "stage", "uw", "qw", "Vp_dep_sand", "Vp_dep_mud")}

    def snap(self, m, stage):
        self.s[stage] = {f: np.float64(getattr(m, f)) for f in
                         ("eta", "stage", "depth", "uw", "qw", "qs", "Vp_dep_sand", "Vp_dep_mud",
                          "sand_frac", "active_layer")}

    def tol(self, m):
        a = self.s["sand"]
        return 2e-7 * (1 + np.abs(a["eta"]).max() + np.abs(a["stage"]).max()) * (
            20 + 2 * m.Np_sed)

    def routing(self, m, kind, a, b, n, dep, u_ero):
        f = {"sand": "Vp_dep_sand", "mud": "Vp_dep_mud"}[kind]
        A = m.dx * m.dx
        tol = self.tol(m) * 4
        a, b = self.s[a], self.s[b]
        for k in ("eta", "depth", "uw", "qs", f):
            cells(~np.isfinite(b[k]), "%s routing: %s is not finite" % (kind, k))
        land = m.cell_type == -2
        dE = b["eta"] - a["eta"]
        D = b[f] / A
        cells(b[f] < 0, "negative %s deposit" % kind)
        cells(land & (dE != 0), "%s routing changed the bed on land" % kind)
        cells(land & (D != 0), "%s deposit on land" % kind)
        cells(dE > D + tol, "%s routing raised the bed by more than was deposited" % kind)
        supply = n * m.Vp_sed
        net = dE.sum() * A
        T = tol * A * np.sqrt(dE.size) * 2
        need(net <= supply * (1 + 1e-5) + T, "%s routing added %.6g m3 to the bed, %.6g m3 were "
             "supplied" % (kind, net, supply))
        ero = np.maximum(D - dE, 0)
        need(b[f].sum() <= supply * (1 + 1e-5) + ero.sum() * A + T,
             "more %s deposited than supplied and eroded" % kind)
        st = a["stage"]
        cells(b["eta"] > np.maximum(a["eta"], st) + tol, "%s deposit above the water surface" % kind)
        # velocity that could have acted in the cell before anything changed
        wet = st - a["eta"]
        u_first = np.maximum(a["uw"], np.where(wet > 0, np.minimum(
            m.u_max, a["qw"] / np.where(wet > 0, wet, 1)), 0))
        cells((D == 0) & (ero > tol) & (u_first < u_ero * (1 - 1e-5)),
              "%s eroded by flow below the threshold" % kind)
        wet2 = st - b["eta"]
        u_last = np.where(wet2 > 1e-6, a["qw"] / np.where(wet2 > 1e-6, wet2, 1), np.inf)
        calm = (u_last < 0.79 * u_ero) & (a["uw"] < u_ero * (1 - 1e-5))
        cells(calm & (np.abs(dE - D) > tol), "%s routing: bed change differs from the deposit"
              % kind)
        visits = n * m.stepmax
        if visits <= 30:
            lim = np.maximum(wet, 0) * 1.25 ** visits
            cells((dE < -tol) & (wet > 0) & (wet2 > lim + tol),
                  "%s erosion beyond its limit" % kind)
        if kind == "sand" and not np.any(ero > tol / 4):
            # a parcel that only loses sediment leaves an unbroken trace from the inlet
            from scipy import ndimage
            lab, k = ndimage.label(b["qs"] > 0, structure=np.ones((3, 3)))
            ok = set(np.unique(lab[0, :]))
            # erosion below the resolution of the bed may give an empty parcel this much
            least = tol / 4 * A * dE.size / (m.dt * m.dx)
            cells((lab > 0) & ~np.isin(lab, list(ok)) & (b["qs"] > least),
                  "sand appears without a path from the inlet")
        if n == 0:
            cells(dE != 0, "no %s is supplied but the bed changed" % kind)
        other = "Vp_dep_mud" if kind == "sand" else "Vp_dep_sand"
        cells(a[other] != b[other], "%s routing changed the other deposit" % kind)
        self.n += int(np.sum(dE != 0))
        return {"deposit": float(D.sum() * A), "erosion": float(ero.sum() * A), "calm":
                int((calm & (D > 0)).sum())}

    def parcel(self, m, kind, a, b, u_ero):
        """The effect of one parcel; only it acted between the two snapshots."""
        f = {"sand": "Vp_dep_sand", "mud": "Vp_dep_mud"}[kind]
        A = m.dx * m.dx
        # resolution of a bed elevation, of a deposit and of the sums over a path
        ulp = 1.2e-7 * (np.abs(a["eta"]) + np.abs(b["eta"]) + np.abs(a["stage"]) + a[f] / A + 1e-3)
        tol = ulp * (4 + m.stepmax)
        dE = b["eta"] - a["eta"]
        D = (b[f] - a[f]) / A
        hit = (dE != 0) | (D != 0)
        if not hit.any():
            return 0
        T = float(tol[hit].sum()) * A + 1e-5 * m.Vp_sed
        cells(D < 0, "a %s parcel took back a deposit" % kind)
        cells(dE > D + tol, "a %s parcel raised the bed by more than it deposited" % kind)
        E = np.maximum(D - dE, 0)
        need(dE.sum() * A <= m.Vp_sed + T, "one %s parcel of %.6g m3 added %.6g m3 to the bed"
             % (kind, m.Vp_sed, dE.sum() * A))
        need(D.sum() * A <= m.Vp_sed + E.sum() * A + T, "one %s parcel of %.6g m3 deposited "
             "%.6g m3 and eroded %.6g m3" % (kind, m.Vp_sed, D.sum() * A, E.sum() * A))
        wet, wet2 = a["stage"] - a["eta"], a["stage"] - b["eta"]
        # a visit without effect brings the speed up to date, which a second one may meet
        u = np.maximum(a["uw"], np.where(wet > 0, np.minimum(
            m.u_max, a["qw"] / np.where(wet > 0, wet, 1)), 0))
        cells((D == 0) & (dE < -4 * ulp) & (u < u_ero * (1 - 1e-5)),
              "a %s parcel eroded below the threshold" % kind)
        cells((D > 0) & (wet <= 0) & (E == 0) & (dE > tol), "a %s parcel deposited above the "
              "water surface" % kind)
        if m.stepmax <= 30:
            # at most every other step of a parcel is in one cell, and only there it erodes
            lim = np.abs(wet) * 1.25 ** ((m.stepmax + 1) // 2)
            cells((dE < -tol) & (wet > 0) & (wet2 > lim + tol), "a %s parcel eroded beyond its "
                  "limit" % kind)
        return 1

    def diffusion(self, m):
        a, b = self.s["diffusion"], self.s["mud"]
        dE = b["eta"] - a["eta"]
        check = np.isfinite(b["eta"])
        cells(~check, "diffusion: bed is not finite")
        land = m.cell_type == -2
        cells(land & (dE != 0), "diffusion changed the bed on land")
        cells((np.arange(m.L)[:, None] == 0) & (dE != 0), "diffusion changed the bed at the "
              "inlet boundary")
        # independent reference: exchange between neighbouring cells, down slope
        eta, qs = a["eta"].copy(), a["qs"]
        fixed = land.copy()
        fixed[0, :] = True
        L, W = eta.shape
        pe = np.zeros((L + 2, W + 2))
        pq = np.zeros((L + 2, W + 2))
        pq[1:-1, 1:-1] = qs
        k = m.dt / m.N_crossdiff * m._alpha * 0.5 / m.dx**2 if hasattr(m, "_alpha") else \
            m.diffusion_multiplier
        for _ in range(m.N_crossdiff):
            pe[1:-1, 1:-1] = eta
            acc = np.zeros_like(eta)
            for i in (0, 1, 2):
                for j in (0, 1, 2):
                    if i == 1 and j == 1:
                        continue
                    ne = pe[i:i + L, j:j + W]
                    nq = pq[i:i + L, j:j + W]
                    acc += (qs + nq) * (ne - eta)
            acc[fixed] = 0
            eta = eta + k * acc
        sc = 1 + np.abs(a["eta"]).max() + np.abs(eta).max()
        tol = 1e-5 * sc * (1 + 20 * k * qs.max()) ** m.N_crossdiff
        if tol < 1e-2 * sc:
            cells(np.abs(eta - b["eta"]) > tol, "diffusion is not an exchange between "
                  "neighbouring cells")

    def sand_frac(self, m, before):
        """After the timestep: sand fraction and active layer follow from the deposits."""
        sf, al = np.float64(m.sand_frac), np.float64(m.active_layer)
        for n_, v in (("sand fraction", sf), ("active layer", al)):
            cells(~((v >= 0) & (v <= 1)), "%s outside 0..1" % n_)
        ds, dm = np.float64(m.Vp_dep_sand), np.float64(m.Vp_dep_mud)
        dep = (ds > 0) | (dm > 1e-6)
        mix = ds / np.where(dep, ds + dm, 1)
        cells(dep & ((np.abs(sf - mix) > 1e-5) | (np.abs(al - mix) > 1e-5)),
              "sand fraction of a new deposit is not that of its sediment")
        cells(~dep & (al != before["active_layer"]), "active layer changed without a deposit")
        eta0, eta = before["eta"], np.float64(m.eta)
        none = ~dep
        cells(none & (eta > eta0) & (sf != before["sand_frac"]),
              "sand fraction changed without deposit or erosion")
        cells(none & (eta == eta0) & (sf != before["sand_frac"]),
              "sand fraction changed where the bed did not")
        deep = eta < eta0 - m.active_layer_thickness - 1e-5 * (1 + np.abs(eta0))
        shallow = (eta < eta0) & (eta > eta0 - m.active_layer_thickness
                                  + 1e-5 * (1 + np.abs(eta0)))
        cells(none & deep & (np.abs(sf - m.sand_frac_bc) > 1e-6),
              "sand fraction below the active layer is not the initial one")
        cells(none & shallow & (sf != before["active_layer"]),
              "sand fraction of eroded bed is not that of the active layer")
