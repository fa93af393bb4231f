"""Deterministic simulator for the Python parts: tasks are real threads that run one at a time.

A seeded scheduler decides at every traced line of the code under test, and at every simulated I/O call, which task goes on.
Time is virtual.  Processes are groups of tasks that can be killed; what they had buffered is lost."""
import builtins, errno, functools, hashlib, io, os, sys, threading, _thread

M64 = (1 << 64) - 1
REPO = os.environ.get("VERIF_REPO", "/repo")


class Rng:
    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03) & M64

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M64
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n if n else 0

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def unit(self):
        return (self.next() >> 11) / 9007199254740992.0

    def chance(self, p):
        return self.unit() < p

    def pick(self, v):
        return v[self.below(len(v))]


def mix(a, b):
    r = Rng((a ^ (b * 0x9E3779B97F4A7C15)) & M64)
    r.next()
    return r.next()


class Plan:
    def __init__(self, text=""):
        self.scenario, self.seed, self.knobs, self.ops, self.faults, self.explicit, self.sw = "", 0, {}, [], [], False, []
        for l in text.splitlines():
            w = l.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "scenario":
                self.scenario = w[1]
            elif w[0] == "seed":
                self.seed = int(w[1])
            elif w[0] == "knob":
                self.knobs[w[1]] = w[2]
            elif w[0] == "op":
                self.ops.append(w[1:])
            elif w[0] == "fault":
                self.faults.append([w[1], int(w[2]), int(w[3]), int(w[4]), w[5], int(w[6])])
            elif w[0] == "explicit":
                self.explicit = True
            elif w[0] == "sw":
                self.sw.append((int(w[1]), int(w[2])))

    def knob(self, k, d):
        return type(d)(self.knobs.get(k, d))

    def text(self):
        o = ["scenario " + self.scenario, "seed %d" % self.seed] + ["knob %s %s" % k for k in sorted(self.knobs.items())]
        if self.explicit:
            o.append("explicit")
        o += ["op " + " ".join(map(str, x)) for x in self.ops] + ["fault " + " ".join(map(str, x)) for x in self.faults]
        o += ["sw %d %d" % x for x in self.sw]
        return "\n".join(o) + "\n"

    def fault(self, cls, pid, nth, ln, action, arg=0):
        self.faults.append([cls, pid, nth, ln, action, arg])


class Task:
    def __init__(self, sim, tid, name, pid, fn):
        self.sim, self.id, self.name, self.pid, self.fn = sim, tid, name, pid, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state, self.cond, self.wake, self.error = "ready", None, None, None
        self.quiet = 0


class Sim:
    def __init__(self, plan, logfile=None):
        self.plan, self.rng = plan, Rng(mix(plan.seed, 7))
        self.tasks, self.cur, self.points, self.switches, self.now = [], None, 0, 0, 1_000_000
        self.p_switch = plan.knob("p_sw", 0.05)
        self.explicit, self.dev = plan.explicit, dict(plan.sw)
        self.recorded, self.probes = [], {}
        self.h, self.logfile, self.steps = hashlib.blake2b(digest_size=8), logfile, 0
        self.result, self.finished = None, _thread.allocate_lock()
        self.finished.acquire()
        self.local = threading.local()
        self.dead, self.nops, self.limit = set(), {}, plan.knob("limit", 400000)
        self.loglines = []
        self.faults_on = True
        self.on_crash = None

    # ---------------------------------------------------------------- reporting
    def log(self, *a):
        s = "%d %s %s" % (self.points, self.cur.name if self.cur else "-", " ".join(map(str, a)))
        if ROOT:
            s = s.replace(ROOT, "")  # the scratch directory has another name in each session
        self.h.update(s.encode() + b"\n")
        self.steps += 1
        if self.logfile:
            self.loglines.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def end(self, verdict, cls="", msg=""):
        if self.result is None:
            self.result = (verdict, cls, msg)
            self.finished.release()
        self.park()

    def violation(self, cls, msg):
        self.log("VIOLATION", cls, msg)
        self.end("violation", cls, msg)

    def park(self):
        l = _thread.allocate_lock()
        l.acquire()
        sys.settrace(None)
        while True:
            l.acquire()

    # ---------------------------------------------------------------- tasks
    def task(self):
        return getattr(self.local, "task", None)

    def spawn(self, name, fn, pid=0):
        t = Task(self, len(self.tasks), name, pid, fn)
        self.tasks.append(t)

        def body():
            self.local.task = t
            t.baton.acquire()
            try:
                sys.settrace(self.tracer)
                try:
                    fn()
                finally:
                    sys.settrace(None)
            except BaseException as e:
                t.error = e
                tb = e.__traceback__
                while tb is not None and tb.tb_next is not None:
                    tb = tb.tb_next
                where = "%s:%s" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name) if tb else "?"
                t.where = where
                self.log("task", name, "ended with", type(e).__name__, e, "in", where)
                if self.on_crash:
                    self.on_crash(t, e)
            t.state = "done"
            self.switch_away()
        threading.Thread(target=body, daemon=True).start()
        return t

    def ready(self):
        r = []
        for t in self.tasks:
            if t.state == "ready":
                r.append(t)
            elif t.state == "blocked" and t.cond():
                r.append(t)
            elif t.state == "sleep" and t.wake <= self.now:
                r.append(t)
        return r

    def give(self, t):
        t.state = "ready"
        self.cur = t
        t.baton.release()

    def choose(self, allow_stay):
        """Picks the next task; None: the current one goes on."""
        me = self.cur
        while True:
            r = self.ready()
            if r:
                break
            s = [t.wake for t in self.tasks if t.state == "sleep"]
            if not s:
                return "deadlock"
            self.now = min(s)
        d = me if (allow_stay and me in r) else r[0]
        pick = d
        if self.explicit:
            k = self.dev.get(self.points)
            if k is not None and k < len(self.tasks) and self.tasks[k] in r:
                pick = self.tasks[k]
        elif len(r) > 1 and (d is not me or self.rng.unit() < self.p_switch):
            pick = self.rng.pick(r)
        if pick is not d:
            self.recorded.append((self.points, pick.id))
        return pick

    def switch_away(self):
        """The current task cannot go on: run another one."""
        self.points += 1
        t = self.choose(False)
        if t == "deadlock":
            self.end("violation", "stuck", "nothing can run any more: " + ", ".join("%s %s" % (t.name, t.state) for t in self.tasks if t.state not in ("done", "dead")))
        self.switches += 1
        self.give(t)

    def point(self, kind="", detail=""):
        t = self.task()
        if t is None or t.quiet:
            return
        if t.pid in self.dead or t.state == "dead":
            self.park()
        self.points += 1
        if self.points > self.limit:
            self.end("inconclusive", "step-limit")
        nxt = self.choose(True)
        if nxt is not t:
            self.switches += 1
            self.h.update(b"s%d>%d" % (self.points, nxt.id))
            self.give(nxt)
            t.baton.acquire()

    def block(self, cond, why=""):
        t = self.task()
        if t is None:
            return
        self.point()
        while not cond():
            t.state, t.cond = "blocked", cond
            self.switch_away()
            t.baton.acquire()

    def sleep(self, us):
        t = self.task()
        if t is None:
            return
        self.points += 1
        t.state, t.wake = "sleep", self.now + int(us)
        self.switch_away()
        t.baton.acquire()

    def kill_task(self, t):
        if t.state == "done":
            return
        t.state = "dead"
        if t is self.task():
            self.switch_away()
            self.park()

    def kill(self, pid):
        """SIGKILL for a simulated process."""
        self.dead.add(pid)
        self.log("kill process", pid)
        mine = None
        for t in self.tasks:
            if t.pid == pid and t.state != "done":
                if t is self.task():
                    mine = t
                else:
                    t.state = "dead"
        if mine:
            self.kill_task(mine)

    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(TARGET) and not f.startswith(SKIP):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.point("line")
        return self.line

    # ---------------------------------------------------------------- faults
    def fault(self, cls):
        """The action due for this operation of the current process, or None."""
        t = self.task()
        if t is None or t.quiet or not self.faults_on:
            return None
        for c in (cls, "any"):
            k = (c, t.pid)
            self.nops[k] = self.nops.get(k, 0) + 1
            k0 = (c, 0)
            self.nops[k0] = self.nops.get(k0, 0) + 1
        for f in self.plan.faults:
            if f[0] not in (cls, "any"):
                continue
            n = self.nops.get((f[0], f[1]), 0)
            if f[1] not in (0, t.pid):
                continue
            if f[2] <= n < f[2] + f[3]:
                self.probe("fault:%s-%s" % (cls, f[4]))
                self.log("fault", cls, f[4], f[5])
                if f[4] == "stall":
                    self.sleep(f[5])
                    return None
                return f[4], f[5]
        return None


TARGET = os.path.join(REPO, "pairinteraction_gui") + os.sep
SKIP = ("\0",)  # code whose lines are no scheduling points
SIM = None


class Quiet:
    def __enter__(self):
        t = SIM.task()
        if t:
            t.quiet += 1

    def __exit__(self, *a):
        t = SIM.task()
        if t:
            t.quiet -= 1


# ---------------------------------------------------------------- simulated file I/O on a scratch directory
_open, _os = builtins.open, {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "makedirs", "mkdir", "listdir", "stat", "rmdir", "fsync", "open", "utime", "link")}
_exists, _getmtime, _isfile, _isdir = os.path.exists, os.path.getmtime, os.path.isfile, os.path.isdir
ROOT = None


def mine(path):
    if ROOT is None or SIM is None or SIM.task() is None or SIM.task().quiet:
        return False
    try:
        return os.path.abspath(os.fspath(path)).startswith(ROOT)
    except TypeError:
        return False


class SimRaw(io.FileIO):
    """A file whose writes and reads are points where things happen."""

    def __init__(self, path, mode):
        self._p = os.path.relpath(os.path.abspath(path), ROOT)
        super().__init__(path, mode)
        self._stamp()

    def _stamp(self):
        if self.writable():
            os.utime(self.fileno(), ns=(SIM.now * 1000, SIM.now * 1000))

    def write(self, b):
        SIM.point("write")
        n = len(b)
        f = SIM.fault("write")
        if f:
            a, arg = f
            if a == "kill" or a == "torn":
                if a == "torn":
                    super().write(bytes(b)[: arg % (n + 1)])
                SIM.kill(SIM.task().pid)
            if a == "short" and n > 1:
                n = 1 + arg % (n - 1)
            elif a == "enospc":
                k = arg % (n + 1)
                if k and k < n:
                    n = k
                    SIM.plan.faults.append(["write", SIM.task().pid, SIM.nops[("write", SIM.task().pid)] + 1, 1, "eio", 0])
                else:
                    raise OSError(errno.ENOSPC, "No space left on device")
            elif a == "eio":
                raise OSError(errno.EIO, "Input/output error")
        SIM.log("write", self._p, n)
        r = super().write(bytes(b)[:n])
        self._stamp()
        return r

    def readinto(self, b):
        SIM.point("read")
        return super().readinto(b)

    def truncate(self, *a):
        r = super().truncate(*a)
        self._stamp()
        return r


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) or not mine(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    SIM.point("open")
    f = SIM.fault("open")
    if f:
        if f[0] in ("kill", "torn"):
            SIM.kill(SIM.task().pid)
        raise OSError({"emfile": errno.EMFILE, "enospc": errno.ENOSPC}.get(f[0], errno.EIO), f[0], file)
    raw = SimRaw(file, mode.replace("b", "").replace("t", ""))
    SIM.log("open", raw._p, mode)
    buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedReader(raw, SIM.plan.knob("rbuf", 8192)) if "r" in mode else io.BufferedWriter(raw, SIM.plan.knob("wbuf", 8192))
    if "b" in mode:
        return buf if buffering != 0 else raw
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    t.mode = mode
    return t


def _wrap(name):
    orig = _os[name]

    @functools.wraps(orig)
    def g(path, *a, **k):
        if not isinstance(path, int) and mine(path):
            SIM.point(name)
            if name in ("replace", "rename", "remove", "unlink", "makedirs", "mkdir", "link", "open"):
                f = SIM.fault("dir")
                if f:
                    if f[0] in ("kill", "torn"):
                        SIM.kill(SIM.task().pid)
                    if name not in ("remove", "unlink"):
                        raise OSError(errno.EIO, f[0], path)
                SIM.log(name, os.path.relpath(os.path.abspath(path), ROOT))
            if name == "listdir":
                return sorted(orig(path, *a, **k))
        return orig(path, *a, **k)
    return g


def install(sim, root):
    global SIM, ROOT
    SIM, ROOT = sim, root.rstrip("/") + "/"
    builtins.open = io.open = sim_open
    for n in _os:
        if n != "utime":
            setattr(os, n, _wrap(n))
    for n, o in (("exists", _exists), ("isfile", _isfile), ("isdir", _isdir), ("getmtime", _getmtime)):
        def g(path, o=o, n=n):
            if mine(path):
                SIM.point(n)
            return o(path)
        setattr(os.path, n, g)
    import time
    time.time = lambda: (sim.now / 1e6 if sim.task() else 0.0)
    time.monotonic = time.perf_counter = time.time
    real_sleep = time.sleep
    time.sleep = lambda s: sim.sleep(s * 1e6) if sim.task() else real_sleep(s)
