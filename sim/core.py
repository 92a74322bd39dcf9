"""Simulation core: bootstrap, simulated processes, seeded search, replay.

A *scenario* is a JSON value that determines one simulated execution exactly.
A check module provides

    PROPERTY, LEVEL, RUNS = {"quick": n, "thorough": m}
    WARM    -> "full" | "light"      what to JIT-compile before forking
    gen(rng, i, tier) -> scenario
    run(scn, ctx)     -> Outcome
    shrink(scn)       -> iterable of simpler scenarios (optional)

and `main(module)` turns it into a command.
"""
import ctypes
import errno
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

KILL_BEFORE, KILL_AFTER, TORN_KILL, ERRNO, SHORT = 1, 2, 3, 4, 5
ACTION_NAME = {1: "crash-before-op", 2: "crash-after-op", 3: "torn-write-crash",
               4: "io-error", 5: "short-write"}
OPNAME = {1: "create", 2: "truncate", 3: "write", 4: "rename", 5: "unlink",
          6: "mkdir", 7: "fsync", 8: "link", 9: "rmdir", 10: "mark", 11: "open"}


# ----------------------------------------------------------------- bootstrap
def bootstrap(argv=None):
    """Re-exec under the simulated-OS library with a controlled environment."""
    if os.environ.get("SIMOS_READY") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="simv_")
    so = os.path.join(scratch, "simos.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so,
                    os.path.join(HERE, "simos.c"), "-ldl"], check=True)
    env = {
        "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
        "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "1", "TZ": "UTC",
        "HDF5_USE_FILE_LOCKING": "FALSE",
        "LD_PRELOAD": so, "SIMOS_SO": so, "SIM_SCRATCH": scratch,
        "SIMOS_READY": "1",
    }
    for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "NUMBA_OPT", "SIM_JOBS",
              "SIM_RUNS", "SIM_CAP", "SIM_EVIDENCE", "SIM_DEBUG", "TMPDIR"):
        if k in os.environ:
            env[k] = os.environ[k]
    rc = 1
    try:
        p = subprocess.Popen([PY, "-X", "faulthandler"] + (argv or sys.argv), env=env)
        try:
            rc = p.wait()
        except KeyboardInterrupt:
            p.kill()
            rc = 130
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)


class _Ev(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int32), ("fault", ctypes.c_int32),
                ("size", ctypes.c_int64), ("off", ctypes.c_int64),
                ("name", ctypes.c_char * 64)]


class Simos:
    """Python face of the preloaded library."""

    def __init__(self):
        self.l = ctypes.CDLL(os.environ["SIMOS_SO"])
        L = self.l
        L.simos_root.argtypes = [ctypes.c_char_p]
        L.simos_plan.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int,
                                 ctypes.c_int64, ctypes.c_double, ctypes.c_char_p]
        L.simos_events.restype = ctypes.POINTER(_Ev)
        for f in ("simos_opno", "simos_nev", "simos_fired", "simos_now",
                  "simos_slept", "simos_clock_reads", "simos_rnd_reads"):
            getattr(L, f).restype = ctypes.c_int64
        L.simos_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        L.simos_jump.argtypes = [ctypes.c_int64]
        L.simos_entropy.argtypes = [ctypes.c_int, ctypes.c_uint64]
        L.simos_mark.argtypes = [ctypes.c_char_p]

    def begin(self, root, plan=(), clock=None, entropy=None):
        L = self.l
        L.simos_reset()
        L.simos_root(os.path.abspath(root).encode())
        for p in plan:
            L.simos_plan(p["at"], p["action"], p.get("err", errno.EIO),
                         p.get("span", 1), p.get("frac", 0.5),
                         p.get("match", "").encode())
        if clock is not None:
            L.simos_clock(1, int(clock["ns"]), int(clock.get("step", 1000)))
        if entropy is not None:
            L.simos_entropy(1, entropy & (2**64 - 1))
        L.simos_active(1)

    def end(self):
        L = self.l
        L.simos_active(0)
        L.simos_clock(0, 0, 0)
        L.simos_entropy(0, 0)

    def clear_plan(self):
        self.l.simos_clearplan()

    def add_plan(self, p):
        self.l.simos_plan(p["at"], p["action"], p.get("err", errno.EIO),
                          p.get("span", 1), p.get("frac", 0.5),
                          p.get("match", "").encode())

    def opno(self):
        return self.l.simos_opno()

    def mark(self, s):
        self.l.simos_mark(s.encode()[:60])

    def jump(self, ns):
        self.l.simos_jump(int(ns))

    def events(self):
        n = self.l.simos_nev()
        e = self.l.simos_events()
        return [(OPNAME.get(e[i].op, "?"), e[i].name.decode("utf8", "replace"),
                 e[i].size, e[i].fault) for i in range(n)]

    def fired(self):
        return {ACTION_NAME[a]: self.l.simos_fired(a) for a in range(1, 6)
                if self.l.simos_fired(a)}


SIMOS = None


def simos():
    global SIMOS
    if SIMOS is None:
        SIMOS = Simos()
    return SIMOS


# ------------------------------------------------------- simulated processes
class ProcResult:
    def __init__(self, msgs, status, timed_out):
        self.msgs = msgs            # everything the process emitted, in order
        self.status = status        # wait status
        self.timed_out = timed_out
        self.killed = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL \
            and not timed_out
        self.value = None
        self.error = None
        for m in msgs:
            if m[0] == "__value__":
                self.value = m[1]
            elif m[0] == "__error__":
                self.error = m[1]

    def of(self, kind):
        return [m[1] for m in self.msgs if m[0] == kind]

    def describe(self):
        if self.timed_out:
            return "hung"
        if os.WIFSIGNALED(self.status):
            return "signal %d" % os.WTERMSIG(self.status)
        return "exit %d" % os.WEXITSTATUS(self.status)


def simproc(fn, *args, timeout=60.0, quiet=True):
    """Run fn(emit, *args) in a forked process; return its ProcResult."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            if quiet and not os.environ.get("SIM_DEBUG"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            import warnings
            warnings.simplefilter("ignore")

            def emit(kind, val):
                b = pickle.dumps((kind, val), protocol=4)
                b = struct.pack("<I", len(b)) + b
                while b:
                    n = os.write(w, b)
                    b = b[n:]
            try:
                v = fn(emit, *args)
                simos().l.simos_active(0)
                emit("__value__", v)
            except BaseException as e:  # reported, never swallowed
                simos().l.simos_active(0)
                emit("__error__", {"type": type(e).__name__,
                                   "mro": [c.__name__ for c in type(e).__mro__],
                                   "msg": str(e)[:500],
                                   "tb": traceback.format_exc()[-3000:]})
                code = 3
        except BaseException:
            code = 4
        os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    _, status = os.waitpid(pid, 0)
    os.close(r)
    msgs = []
    i = 0
    while i + 4 <= len(buf):
        (n,) = struct.unpack_from("<I", buf, i)
        if i + 4 + n > len(buf):
            break
        msgs.append(pickle.loads(buf[i + 4:i + 4 + n]))
        i += 4 + n
    return ProcResult(msgs, status, timed_out)


_COLD = ("import sys, pickle, importlib\n"
         "sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True\n"
         "from sim import core\n"
         "core.repo_path_first()\n"
         "mod, fn, args = pickle.load(open(sys.argv[2], 'rb'))\n"
         "r = core.simproc(getattr(importlib.import_module(mod), fn), *args, timeout=240.0)\n"
         "pickle.dump((r.msgs, r.status, r.timed_out), open(sys.argv[3], 'wb'))\n")


def coldproc(fn, *args, where, hashseed, threads):
    """Like simproc, but in a newly started interpreter (another hash seed and number of
    threads, nothing imported or compiled before). None: no answer in time."""
    a, b = os.path.join(where, "args.pkl"), os.path.join(where, "res.pkl")
    with open(a, "wb") as f:
        pickle.dump((fn.__module__, fn.__name__, args), f)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), NUMBA_NUM_THREADS=str(threads),
               OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS=str(threads))
    try:
        subprocess.run([PY, "-c", _COLD, VERIF, a, b], env=env, timeout=300, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(b, "rb") as f:
            r = ProcResult(*pickle.load(f))
    except (subprocess.TimeoutExpired, subprocess.CalledProcessError):
        return None
    return None if r.timed_out else r


# ------------------------------------------------------------------ outcomes
class Outcome:
    """What one simulated run established."""

    def __init__(self):
        self.violations = []   # list of strings
        self.faults = {}       # fault kind -> times injected
        self.cov = {}          # counters
        self.sig = None        # distinct-state/interleaving signature
        self.nontrivial = False
        self.sim_time = 0.0    # simulated seconds of model time
        self.sample = None
        self.known = []        # keys of known findings met

    def bad(self, msg):
        self.violations.append(str(msg))

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n


class Ctx:
    def __init__(self, tmp):
        self.tmp = tmp
        self.n = 0

    def dir(self, name=""):
        self.n += 1
        d = os.path.join(self.tmp, "r%d%s" % (self.n, name))
        os.makedirs(d)
        return d


def digest(*xs):
    h = hashlib.sha1()
    for x in xs:
        h.update(x if isinstance(x, bytes) else repr(x).encode())
        h.update(b"|")
    return h.hexdigest()[:16]


def run_one(mod, scn, base):
    d = tempfile.mkdtemp(prefix="run_", dir=base)
    try:
        return mod.run(scn, Ctx(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _worker(mod, idxs, seed, tier, base, wfd, deadline):
    for i in idxs:
        if time.monotonic() > deadline:
            break
        scn = mod.gen(random.Random("%s/%s/%s" % (mod.PROPERTY, seed, i)), i, tier)
        t = time.monotonic()
        try:
            o = run_one(mod, scn, base)
            rec = dict(i=i, scn=scn, v=o.violations, faults=o.faults, cov=o.cov,
                       sig=o.sig, nt=o.nontrivial, st=o.sim_time, sample=o.sample,
                       known=o.known, dt=time.monotonic() - t)
        except Exception:
            rec = dict(i=i, scn=scn, crash=traceback.format_exc())
        b = pickle.dumps(rec, protocol=4)
        b = struct.pack("<I", len(b)) + b
        while b:
            b = b[os.write(wfd, b):]
    os._exit(0)


def search(mod, todo, seed, tier, cap):
    """Run the scenarios numbered in todo over forked workers; stop early on a violation."""
    n = len(todo)
    base = tempfile.mkdtemp(prefix="s_", dir=os.environ.get("SIM_SCRATCH"))
    jobs = int(os.environ.get("SIM_JOBS", "8"))
    jobs = max(1, min(jobs, n))
    deadline = time.monotonic() + cap
    procs = {}
    for w in range(jobs):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            for o in procs.values():
                os.close(o["r"])
            try:
                _worker(mod, todo[w::jobs], seed, tier, base, wr, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(5)
        os.close(wr)
        procs[pid] = {"r": r, "buf": b""}
    recs = []
    stop = False
    crashes = 0
    try:
        while procs and not stop:
            rl, _, _ = select.select([p["r"] for p in procs.values()], [], [], 5)
            if time.monotonic() > deadline + 120:
                break
            for pid, p in list(procs.items()):
                if p["r"] not in rl:
                    continue
                d = os.read(p["r"], 1 << 20)
                if not d:
                    os.close(p["r"])
                    os.waitpid(pid, 0)
                    del procs[pid]
                    continue
                p["buf"] += d
                while len(p["buf"]) >= 4:
                    (k,) = struct.unpack_from("<I", p["buf"])
                    if len(p["buf"]) < 4 + k:
                        break
                    rec = pickle.loads(p["buf"][4:4 + k])
                    p["buf"] = p["buf"][4 + k:]
                    recs.append(rec)
                    crashes += bool(rec.get("crash"))
                    if rec.get("v") or crashes >= 16:
                        stop = True
    finally:
        for pid, p in procs.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            os.close(p["r"])
        shutil.rmtree(base, ignore_errors=True)
    return recs


def confirm(mod, scn, tries=3):
    """Re-run a violating scenario alone: a deterministic one violates again."""
    base = tempfile.mkdtemp(prefix="c_", dir=os.environ.get("SIM_SCRATCH"))
    try:
        for _ in range(tries):
            try:
                v = run_one(mod, scn, base).violations
            except Exception:
                continue
            if v:
                return v
        return None
    finally:
        shutil.rmtree(base, ignore_errors=True)


def minimise(mod, scn, viol, budget_s=60.0):
    base = tempfile.mkdtemp(prefix="m_", dir=os.environ.get("SIM_SCRATCH"))
    end = time.monotonic() + budget_s
    try:
        improved = True
        while improved and time.monotonic() < end and hasattr(mod, "shrink"):
            improved = False
            for cand in mod.shrink(scn):
                if time.monotonic() > end:
                    break
                try:
                    o = run_one(mod, cand, base)
                except Exception:
                    continue
                if o.violations:
                    scn, viol, improved = cand, o.violations, True
                    break
        # exact replay: same scenario, same verdict
        again = None
        try:
            again = run_one(mod, scn, base).violations
        except Exception:
            again = ["replay raised: " + traceback.format_exc()[-500:]]
        return scn, viol, again
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --------------------------------------------------------------- the command
def repo_path_first():
    sys.path.insert(0, REPO)
    import importlib
    importlib.invalidate_caches()


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--dump", default=None, help="write what each run did (to compare executions)")
    ap.add_argument("--one", type=int, default=None, help="run only scenario number N")
    a = ap.parse_args(sys.argv[2:])
    t0 = time.monotonic()
    repo_path_first()
    mod.warm(a.tier)
    t_warm = time.monotonic() - t0
    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        base = tempfile.mkdtemp(prefix="rp_", dir=os.environ["SIM_SCRATCH"])
        o = run_one(mod, doc["scenario"], base)
        for v in o.violations:
            print("  " + v)
        if o.violations:
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, a.replay))
            same = o.violations == doc["violations"]
            print("replay identical to recording: %s" % same)
            return 1
        print("replay: property held")
        return 0
    if a.one is not None:
        base = tempfile.mkdtemp(prefix="o_", dir=os.environ["SIM_SCRATCH"])
        scn = mod.gen(random.Random("%s/%s/%s" % (mod.PROPERTY, a.seed, a.one)), a.one, a.tier)
        print(json.dumps(scn, default=str))
        t = time.monotonic()
        o = run_one(mod, scn, base)
        print("violations", o.violations, "cov", o.cov, "faults", o.faults, "nt", o.nontrivial,
              "sig", o.sig, "dt", time.monotonic() - t)
        return 1 if o.violations else 0
    n = a.runs or int(os.environ.get("SIM_RUNS", 0)) or mod.RUNS[a.tier]
    cap = float(os.environ.get("SIM_CAP", 0)) or {"quick": 420.0, "thorough": 5400.0}[a.tier]
    recs, bad, unrepro, crashed = [], [], [], []
    todo = list(range(n))
    end = time.monotonic() + cap
    while todo and time.monotonic() < end:
        new = search(mod, todo, a.seed, a.tier, end - time.monotonic())
        recs += new
        done = {r["i"] for r in new}
        todo = [i for i in todo if i not in done]
        crashed += [r for r in new if r.get("crash")]
        for r in sorted((r for r in new if r.get("v")), key=lambda r: r["i"]):
            v = confirm(mod, r["scn"])
            if v is None:
                # an overloaded host, not the code: only believed if it keeps happening
                print("  not reproduced: run %d: %s" % (r["i"], r["v"][0][:300]))
                unrepro.append(r)
            else:
                r["v"] = v
                bad.append(r)
                break
        if not bad and len(unrepro) >= 4:
            bad = unrepro[:1]
        if bad or crashed or not new:
            break
    if a.dump:
        with open(a.dump, "w") as f:
            for r in sorted(recs, key=lambda r: r["i"]):
                f.write(json.dumps([r["i"], r.get("sig"), r.get("v"), r.get("faults"),
                                    r.get("cov"), r.get("st")], sort_keys=True) + "\n")
    dropped = {r["i"] for r in unrepro}
    good = [r for r in recs if not r.get("crash") and r["i"] not in dropped]
    rc = 0
    replay = None
    if bad:
        r = bad[0]
        scn, viol, again = minimise(mod, r["scn"], r["v"])
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-seed%d-run%d.json" % (mod.PROPERTY, a.seed, r["i"]))
        with open(replay, "w") as f:
            json.dump({"property": mod.PROPERTY, "seed": a.seed, "run": r["i"],
                       "scenario": scn, "violations": viol,
                       "reproduced_identically": viol == again,
                       "replay_cmd": "/verif/check %s --replay %s" % (mod.PROPERTY, replay)},
                      f, indent=1, default=str)
        for v in viol[:10]:
            print("  " + v)
        print("  seed=%d run=%d; minimised scenario reproduces identically: %s"
              % (a.seed, r["i"], viol == again))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, replay))
        rc = 1
    elif crashed:
        print("HARNESS ERROR (no verdict):\n" + crashed[0]["crash"], file=sys.stderr)
        rc = 2
    known = {}
    for r in good:
        for k in r["known"]:
            known[k] = known.get(k, 0) + 1
    for e in load_known(mod.PROPERTY):
        print("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, e["what"]))
    wall = time.monotonic() - t0
    faults, cov = {}, {}
    for r in good:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["cov"].items():
            cov[k] = cov.get(k, 0) + v
    sigs = {r["sig"] for r in good if r["nt"] and r["sig"] is not None}
    samples = [r["sample"] if r["sample"] is not None else r["scn"]
               for r in sorted(good, key=lambda r: r["i"]) if r["nt"]][:3]
    search_s = max(1e-6, wall - t_warm)
    ev = {
        "property": mod.PROPERTY, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": json.loads(json.dumps(samples, default=str)),
            "planned_runs": n,
            "runs_per_hour": round(len(good) / search_s * 3600),
            "simulated_model_seconds": round(sum(r["st"] for r in good), 3),
            "faults_injected": faults,
            "counters": cov,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "known_findings_met": known,
            "replay": replay,
            "unreproduced_reports": len(unrepro),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    edir = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, mod.PROPERTY + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct non-trivial), %d violations, faults %s, %.1fs (warm-up %.1fs)"
          % (mod.PROPERTY, len(good), len(sigs), len(bad), faults, wall, t_warm))
    return rc
