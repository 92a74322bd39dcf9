"""A simulated multiprocessing: processes are real forks that run one at a time.

Every child is blocked in exactly one request at any moment; the coordinator
(in the process that runs the jobs) decides, from a seeded generator, which
event happens next: a child executes up to its next request, a feeder moves a
message into the queue's pipe, a timeout expires, or the parent proceeds.
Kill and stall faults are decided by the same generator or by the scenario.
"""
import os
import pickle
import queue as _queue
import random
import signal
import socket
import struct
import sys
import traceback

PIPE_CAPACITY = 65536
COORD = None      # in the parent
LINK = None       # in a child


class SimHang(BaseException):
    """The parent can never proceed (deadlock), or not within the bound."""


class Unsupported(Exception):
    pass


def _send(s, obj):
    b = pickle.dumps(obj, protocol=4)
    s.sendall(struct.pack("<I", len(b)) + b)


def _recv(s):
    h = b""
    while len(h) < 4:
        d = s.recv(4 - len(h))
        if not d:
            return None
        h += d
    (n,) = struct.unpack("<I", h)
    b = b""
    while len(b) < n:
        d = s.recv(min(1 << 20, n - len(b)))
        if not d:
            return None
        b += d
    return pickle.loads(b)


class Link:
    """A child's connection to the coordinator."""

    def __init__(self, sock):
        self.sock = sock

    def req(self, kind, data=None):
        _send(self.sock, (kind, data))
        r = _recv(self.sock)
        if r is None:
            os._exit(77)
        if r[0] == "die":
            os.kill(os.getpid(), r[1])
        return r[1]


def point(tag, data=None):
    """A schedule point inside a job (and a note in the history)."""
    if LINK is not None:
        return LINK.req("point", (tag, data))
    if COORD is not None:
        COORD.history.append(("main", tag, data))


class Child:
    def __init__(self, idx, proc, pid, sock):
        self.idx, self.proc, self.pid, self.sock = idx, proc, pid, sock
        self.pending = None      # request it is blocked in
        self.outbox = []         # messages not yet in the pipe
        self.inpipe = 0          # its messages not completely written
        self.code = None
        self.points = 0
        self.stalled_until = 0.0
        self.reaped = False
        self.released = 0


class Coordinator:
    def __init__(self, scn):
        self.rng = random.Random(scn["sched"])
        self.greedy = scn.get("greedy", "mixed")
        self.kills = {k["job"]: k for k in scn.get("kills", ())}
        self.stalls = {k["job"]: k for k in scn.get("stalls", ())}
        self.ncpu = scn.get("ncpu", 4)
        self.children = []
        self.now = 0.0
        self.history = []        # (job, tag, data) in schedule order
        self.idle = 0
        self.steps = 0
        self.faults = {}
        self.sems = {}
        self.queues = {}
        self.timeouts = 0
        self.max_idle = 400

    # ------------------------------------------------------------- children
    def spawn(self, proc):
        a, b = socket.socketpair()
        idx = len(self.children)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            global COORD, LINK
            a.close()
            for c in self.children:
                try:
                    c.sock.close()
                except OSError:
                    pass
            COORD = None
            LINK = Link(b)
            code = 0
            try:
                LINK.req("start")
                try:
                    proc.run()
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    code = 1
                    sys.stderr.write(traceback.format_exc())
                LINK.req("exit", code)
            finally:
                os._exit(code)
        b.close()
        c = Child(idx, proc, pid, a)
        self.children.append(c)
        c.pending = _recv(a)
        self.history.append((idx, "spawned", None))
        return c

    def _fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def _reap(self, c, status):
        c.code = -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
        c.pending = None
        c.outbox = []
        c.sock.close()
        self.history.append((c.idx, "ended", c.code))

    def _advance(self, c, reply):
        _send(c.sock, reply)
        r = _recv(c.sock)
        if r is None:
            _, status = os.waitpid(c.pid, 0)
            self._reap(c, status)
        else:
            c.pending = r

    def events(self):
        ev = []
        for c in self.children:
            if c.code is not None:
                continue
            if c.outbox and self.can_feed(c):
                ev.append(("feed", c))
            if c.stalled_until > self.now:
                continue
            k, d = c.pending
            if k == "acquire" and self.sems[d].value <= 0:
                continue
            if k == "exit" and (c.outbox or c.inpipe):
                continue
            ev.append(("run", c))
        return ev

    def can_feed(self, c):
        q = self.queues[c.outbox[0][0]]
        return q.incomplete is None and q.bytes < PIPE_CAPACITY

    def fire(self, ev):
        what, c = ev
        self.steps += 1
        self.idle = 0
        if what == "feed":
            qid, obj, n = c.outbox.pop(0)
            self.queues[qid].enter(c, obj, n)
            return
        kind, data = c.pending
        kill = self.kills.get(c.idx)
        if kill and c.points == kill["at"] and not c.inpipe:
            self._fault("kill-job")
            self.history.append((c.idx, "killed", kind))
            self._advance(c, ("die", kill.get("sig", signal.SIGKILL)))
            return
        c.points += 1
        st = self.stalls.get(c.idx)
        if st and c.points == st["at"]:
            c.stalled_until = self.now + st["for"]
            self._fault("stall-job")
            return
        if kind == "point":
            self.history.append((c.idx, data[0], data[1]))
            self._advance(c, ("ok", None))
        elif kind == "start":
            self.history.append((c.idx, "started", None))
            self._advance(c, ("ok", None))
        elif kind == "put":
            qid, obj = data
            n = len(pickle.dumps(obj)) + 4
            c.outbox.append((qid, obj, n))
            self._advance(c, ("ok", None))
        elif kind == "release":
            self.sems[data].value += 1
            c.released += 1
            self.history.append((c.idx, "release", None))
            self._advance(c, ("ok", None))
        elif kind == "acquire":
            self.sems[data].value -= 1
            self._advance(c, ("ok", True))
        elif kind == "get_value":
            self._advance(c, ("ok", self.sems[data].value))
        elif kind == "exit":
            self._advance(c, ("ok", None))
        else:
            raise Unsupported("child request %s" % kind)

    # --------------------------------------------------------------- parent
    def some(self, p=0.5):
        """Let other things happen before the parent goes on."""
        mode = self.greedy
        if mode == "parent":
            p = 0.05
        elif mode == "never":
            return
        elif mode == "children":
            p = 0.95
        while self.rng.random() < p:
            ev = self.events()
            if not ev:
                return
            self.fire(self.pick(ev))

    def pick(self, ev):
        if self.greedy == "lifo":
            return ev[-1] if self.rng.random() < 0.8 else self.rng.choice(ev)
        if self.greedy == "nofeed":
            r = [e for e in ev if e[0] == "run"]
            if r and self.rng.random() < 0.95:
                return self.rng.choice(r)
        return self.rng.choice(ev)

    def wait(self, ready, timeout, what):
        """Block the parent until ready(), or for at most `timeout`."""
        self.some()
        while not ready():
            ev = self.events()
            if ev and not (timeout is not None and self.rng.random() < 0.1):
                self.fire(self.pick(ev))
                if self.steps > 200000:
                    raise SimHang("no end after 200000 schedule steps in %s" % what)
                continue
            stalled = [c.stalled_until for c in self.children
                       if c.code is None and c.stalled_until > self.now]
            if timeout is not None:
                self.now += timeout
                self.timeouts += 1
                if not ev:
                    self.idle += 1
                    if not stalled and self.idle > self.max_idle:
                        raise SimHang("waiting in vain (%s): %s" % (what, self.explain()))
                return ready()
            if stalled:
                self.now = max(self.now, min(stalled))
                continue
            raise SimHang("blocked for ever in %s: %s" % (what, self.explain()))
        return True

    def explain(self):
        out = []
        for c in self.children:
            if c.code is not None:
                out.append("job %d ended (%d)" % (c.idx, c.code))
            elif c.pending[0] == "exit":
                out.append("job %d cannot end: %d messages unread" % (c.idx, len(c.outbox) + c.inpipe))
            else:
                out.append("job %d in %s" % (c.idx, c.pending[0]))
        return "; ".join(out) or "no job was started"

    def sleep(self, t):
        self.now += t
        self.some(0.8)

    def shutdown(self):
        for c in self.children:
            if c.code is None:
                try:
                    os.kill(c.pid, signal.SIGKILL)
                    os.waitpid(c.pid, 0)
                except OSError:
                    pass


class SimSemaphore:
    def __init__(self, value=1, ctx=None):
        self.value = int(value)
        self.initial = int(value)
        self.id = len(COORD.sems)
        COORD.sems[self.id] = self

    def acquire(self, block=True, timeout=None):
        if LINK:
            return LINK.req("acquire", self.id)
        if not block:
            COORD.some()
            ok = self.value > 0
        else:
            ok = COORD.wait(lambda: self.value > 0, timeout, "acquiring a slot")
        if ok:
            self.value -= 1
        return bool(ok)

    def release(self):
        if LINK:
            return LINK.req("release", self.id)
        COORD.some(0.2)
        self.value += 1

    def get_value(self):
        if LINK:
            return LINK.req("get_value", self.id)
        COORD.some(0.2)
        return self.value

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimQueue:
    def __init__(self, maxsize=0, ctx=None):
        self.id = len(COORD.queues)
        COORD.queues[self.id] = self
        self.items = []          # (obj, size, child)
        self.bytes = 0
        self.incomplete = None
        self.read = 0

    # called by the coordinator
    def enter(self, c, obj, n):
        self.items.append((obj, n, c))
        self.bytes += n
        if self.bytes > PIPE_CAPACITY:
            self.incomplete = c
            c.inpipe += 1

    def _settle(self):
        if self.incomplete is not None and self.bytes <= PIPE_CAPACITY:
            self.incomplete.inpipe -= 1
            self.incomplete = None

    def put(self, obj, block=True, timeout=None):
        if LINK:
            try:
                pickle.dumps(obj)
            except Exception:       # as the feeder thread of a real queue: reported, dropped
                traceback.print_exc()
                return None
            return LINK.req("put", (self.id, obj))
        self.items.append((obj, 0, None))

    put_nowait = put

    def empty(self):
        COORD.some(0.3)
        return not self.items

    def qsize(self):
        COORD.some(0.3)
        return len(self.items)

    def get(self, block=True, timeout=None):
        if not block:
            COORD.some(0.3)
            ok = bool(self.items)
        else:
            ok = COORD.wait(lambda: bool(self.items), timeout, "reading the queue")
        if not ok:
            raise _queue.Empty
        obj, n, c = self.items.pop(0)
        self.bytes -= n
        self.read += 1
        COORD.idle = 0
        if self.incomplete is not None and (c is self.incomplete or self.bytes <= PIPE_CAPACITY):
            # the reader drains while the writer completes its message
            self._settle()
        return obj

    def get_nowait(self):
        return self.get(False)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "SimProcess"
        self.daemon = bool(daemon)
        self._c = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._c is None, "cannot start a process twice"
        COORD.some(0.2)
        self._c = COORD.spawn(self)
        COORD.some()

    def join(self, timeout=None):
        COORD.wait(lambda: self._c.code is not None, timeout, "waiting for job %d" % self._c.idx)

    @property
    def exitcode(self):
        if self._c is None:
            return None
        COORD.some(0.15)
        return self._c.code

    def is_alive(self):
        COORD.some(0.15)
        return self._c is not None and self._c.code is None

    @property
    def pid(self):
        return self._c and self._c.pid

    ident = pid

    def terminate(self):
        c = self._c
        if c.code is None:
            os.kill(c.pid, signal.SIGKILL)
            _, st = os.waitpid(c.pid, 0)
            COORD._reap(c, st)

    kill = terminate

    def close(self):
        pass


class _Context:
    Process = SimProcess
    Semaphore = SimSemaphore
    BoundedSemaphore = SimSemaphore
    Queue = SimQueue
    JoinableQueue = SimQueue
    SimpleQueue = SimQueue

    @staticmethod
    def cpu_count():
        return COORD.ncpu if COORD else 4


def install():
    """Replace multiprocessing before the package under test is imported."""
    import multiprocessing as mp
    import time
    assert "pyDeltaRCM" not in sys.modules
    for k in ("Process", "Semaphore", "BoundedSemaphore", "Queue", "JoinableQueue", "SimpleQueue"):
        setattr(mp, k, getattr(_Context, k))
    mp.cpu_count = _Context.cpu_count
    os.cpu_count = _Context.cpu_count
    mp.get_context = lambda method=None: _Context
    mp.active_children = lambda: [c.proc for c in (COORD.children if COORD else []) if c.code is None]
    real_sleep = time.sleep

    def sleep(t):
        if COORD is not None:
            COORD.sleep(t)
        elif LINK is not None:
            LINK.req("point", ("sleep", t))
        else:
            real_sleep(t)
    time.sleep = sleep


def begin(scn):
    global COORD
    COORD = Coordinator(scn)
    return COORD
