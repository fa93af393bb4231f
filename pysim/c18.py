"""C18: a multi-process GUI calculation announces only complete result files of exactly its own steps."""
import copy, importlib.util, logging, os, pickle, sys, tempfile
import numpy as np
from . import core, gui, simpool

BASE = dict(species1="Rb", n1=50, l1=1, j1=0.5, m1=0.5, species2="Rb", n2=50, l2=1, j2=0.5, m2=0.5, deltaNSingle=1, deltaLSingle=1,
            deltaJSingle=-1, deltaMSingle=-1, deltaESingle=-1, deltaNPair=-1, deltaLPair=-1, deltaJPair=-1, deltaMPair=-1, deltaEPair=0.05,
            diamagnetism=False, samebasis=True, exponent=3, zerotheta=True, missingCalc=0, minEx=0.0, maxEx=0.0, minEy=0.0, maxEy=0.0,
            minEz=0.0, maxEz=1.0, minBx=0.0, maxBx=0.0, minBy=0.0, maxBy=0.0, minBz=0.0, maxBz=0.0, minR=10.0, maxR=5.0, steps=3,
            sametrafo=False, conserveM=False, dd=True, dq=False, qq=False, NUM_PROCESSES=0)
# what may differ between two calculations that share a cache directory
CHANGES = [
    {}, {"maxEz": 2.0}, {"steps": 5}, {"minEz": 0.5}, {"maxBz": 1.0}, {"maxBy": 1.0}, {"maxEy": 1.0}, {"l1": 0, "l2": 0}, {"m1": -0.5}, {"j1": 1.5, "j2": 1.5},
    {"deltaLSingle": -1}, {"deltaLSingle": -1, "l1": 0, "l2": 0}, {"deltaNSingle": 2}, {"missingCalc": 1}, {"diamagnetism": True},
    {"species1": "Cs", "species2": "Cs"}, {"deltaESingle": 0.05}, {"maxEx": 1.0}, {"minBx": 0.2, "maxBx": 0.2}, {"n1": 51, "n2": 51}, {"deltaMSingle": 1},
    {"maxEz": 1.0000001}, {"minBx": 1e-9, "maxBx": 1e-9}, {"species1": "Cs"}, {"deltaLSingle": -1, "l1": 0},
]
PAIR = [{}, {"maxR": 4.0}, {"invO": True, "invE": True}, {"perE": True}, {"exponent": 4}, {"samebasis": False}, {"deltaEPair": 0.02}, {"conserveM": True, "sametrafo": True},
        {"refO": True, "refE": True}, {"minR": 10.0, "maxR": 10.0}, {"zerotheta": False, "conserveM": True, "sametrafo": True}, {"deltaESingle": 0.05}]


def generate(p, r, thorough):
    p.knobs["p_sw"] = r.pick(["0.005", "0.02", "0.1"])
    p.knobs["wbuf"] = r.pick(["8192", "256", "64"])
    p.knobs["rbuf"] = r.pick(["8192", "512"])
    p.knobs["method"] = r.pick(["fork", "fork", "fork", "spawn"])
    p.knobs["ncpu"] = str(r.range(2, 4))
    p.knobs["limit"] = "1500000"
    sessions = r.pick([1, 2])
    two = r.chance(0.4)
    pool = []
    for _ in range(r.range(1, 3)):
        pool.append((2, r.below(len(PAIR)), r.pick([0, 0, 0, 1, 4, 5, 13, 16])) if two else (r.pick([0, 0, 3]), 0, r.below(len(CHANGES))))
    for s in range(sessions):
        for c in range(r.range(1, 4 if thorough else 3)):
            v = r.pick(pool)
            p.ops.append([s, "calc", *v, r.pick([1, 0, 2])])
            e = r.pick(["finish", "finish", "abort", "abort", "crash"])
            p.ops.append([s, e] + ([r.pick(["ticks", "points", "points"]), int(10 ** (r.unit() * 3.3))] if e != "finish" else []))
    for _ in range(r.below(5)):  # slow operations
        if r.chance(0.5):
            p.fault(r.pick(["write", "write", "any", "open", "dir"]), 0, 1 + int(10 ** (r.unit() * 2.2)), r.pick([1, 2]), "stall", int(10 ** (3 + 3 * r.unit())))
        else:
            p.fault(r.pick(["any", "any", "open", "write"]), 101 + r.below(8), 1 + r.below(8), 1 + r.below(4), "stall", int(10 ** (3 + 3 * r.unit())))
    faulty = r.chance(0.4)
    if faulty:
        for _ in range(r.range(1, 3)):
            a = r.pick(["kill", "torn", "eio", "enospc", "short", "torn"])
            p.fault(r.pick(["write", "write", "write", "any", "open", "dir"]), 0, 1 + int(10 ** (r.unit() * 2.2)), r.pick([1, 1, 1, 3, 30]), a, r.below(1 << 20))
    # whatever happened: a last session sees correct results
    for v in sorted(set(pool)):
        p.ops.append([9, "calc", *v, 1])
        p.ops.append([9, "finish"])


KEYS = {0: "field1", 1: "field2", 2: "potential", 3: "field12"}


def params(button, pv, cv):
    """What app.startCalc hands over for the calculation that a button starts."""
    q = dict(BASE, **{k: False for k in ("invO", "invE", "perO", "perE", "refO", "refE")}, precision=1e-10, missingWhittaker=0)
    q["samebasis"] = button in (2, 3)
    if button == 2:
        q.update(minEz=0.0, maxEz=0.0, deltaLSingle=1, deltaNSingle=0)
        q.update(CHANGES[cv] if cv != 1 else {"minEz": 1.0, "maxEz": 1.0})
        q.update(PAIR[pv])
    else:
        q.update(CHANGES[cv])
    keys = getattr(gui.app().SystemDict, "keys_for_cprogram_" + KEYS[button])
    q = {k: v for k, v in q.items() if k in keys}
    q.update(button_id=button, NUM_PROCESSES=0, pathCache="cache", pathConf="conf/conf.json", **({"zerotheta": BASE["zerotheta"] and PAIR[pv].get("zerotheta", True)} if button == 2 else {}))
    return q


REF = {}


def reference(q):
    """Every step of every block from scratch: no worker, no cache directory, no atom that changes its fields."""
    k = repr(sorted(q.items()))
    if k in REF:
        return REF[k]
    import pairinteraction_gui.pipy_thread as pt
    from pairinteraction_gui import pipy
    res = {}
    settings = pt.params_to_settings(copy.deepcopy(q))
    lo = settings["scriptoptions"]["listoptions"]
    syms = settings["scriptoptions"]["symmetries_list"]
    two = settings["config"]["nAtoms"] == 2
    fields = [f for f in ("Bx", "By", "Bz", "Ex", "Ey", "Ez")]
    same = all(q["min" + f] == q["max" + f] for f in fields) and q.get("minR") == q.get("maxR")
    steps = 1 if same else q["steps"]
    basis = {}
    for bn, sy in enumerate(syms):
        cfg = dict(settings["config"])
        if two:
            cfg.update(sy)
        base = pipy.atom_from_config(copy.deepcopy(cfg))
        if base.noStates:
            continue
        if two:
            base.system
            e0 = list(base.config.getEnergiesPair())
        basis[bn] = [[*(np.array(x)[:, 0]), *(np.array(x)[:, 1])] if two else list(x) for x in base.allQunumbers]
        for ip in range(steps):
            c = copy.deepcopy(cfg)
            for f in fields:
                c[f] = float(np.linspace(q["min" + f], q["max" + f], steps)[ip])
            if two:
                c["distance"] = float(np.linspace(q["minR"], q["maxR"], steps)[ip])
                c["pair._energies"] = e0
            a = pipy.atom_from_config(c)
            a.calcEnergies()
            z = a.config.getEnergiesPair() if two else a.config.getEnergiesSingle()
            want = {x: y for x, y in a.config.toOutDict().items() if not x.endswith("_energies")}
            res[(ip, bn)] = (np.asarray(a.energies) - np.mean(z), a.vectors.toarray(), want, len(a.basisQunumbers))
    REF[k] = (res, basis, len(syms), steps)
    return REF[k]


def same_params(a, b):
    a = {k: v for k, v in a.items() if not k.endswith("_energies")}
    if set(a) != set(b):
        return "keys %s" % sorted(set(a) ^ set(b))
    for k in a:
        x, y = a[k], b[k]
        if k == "pathCache":
            continue
        if isinstance(x, (int, float, np.floating)) and isinstance(y, (int, float, np.floating)):
            if abs(x - y) > 1e-12 * max(1, abs(x)):
                return "%s=%r, not %r" % (k, x, y)
        elif x != y:
            return "%s=%r, not %r" % (k, x, y)
    return ""


def run(s, scratch):
    A = gui.app()
    A.time = lambda: s.now / 1e6
    logging.disable(logging.CRITICAL)
    core.SKIP = (os.path.join(core.TARGET, "pipy") + os.sep,)  # no shared state there
    import pairinteraction_gui.pipy_thread as pt
    simpool.install()
    A.PipyThread = lambda *a, **k: simpool.MODS[s.task().pid].PipyThread(*a, **k)
    tempfile.tempdir = "tmp"
    for d in ("tmp", "conf", "cache"):
        core._os["makedirs"](d, exist_ok=True)
    import numpy.lib._datasource as ds
    ds._file_openers.open if hasattr(ds._file_openers, "open") else None
    ds._file_openers._loaded, ds._file_openers._file_openers = True, {None: core.sim_open}
    os.getpid = lambda: 1000 + (s.task().pid if s.task() else 0)
    # one block of points can be long: kills are counted in scheduling points too
    live = {"n": 0}
    s.killplan = {}
    names = {0: 1, 1: 2, 9: 3}

    def bad(cls, msg):
        s.violation(cls, msg)

    class Session:
        def __init__(self, no):
            self.no, self.gen = no, 0
            self.ops = [o[1:] for o in s.plan.ops if int(o[0]) == no]
            self.pc = 0

        # ------------------------------------------------------------ one GUI process
        def start_process(self):
            simpool.NEXT[0] += 1
            self.pid = simpool.NEXT[0]
            # every process has the module and its globals for itself
            with core.Quiet():
                name = "pairinteraction_gui.pipy_thread_%d" % self.pid
                spec = importlib.util.spec_from_file_location(name, pt.__file__)
                simpool.MODS[self.pid] = m = importlib.util.module_from_spec(spec)
                sys.modules[name] = m
                spec.loader.exec_module(m)
                m.multiprocessing = pt.multiprocessing
            self.task = s.spawn("gui%d.%d" % (self.no, self.gen), self.main, self.pid)
            self.gen += 1

        def crash(self):
            s.kill_children(self.pid)
            s.kill(self.pid)

        def main(self):
            self.w = w = gui.window(True, 1)
            orig = w.all_queues.processOneLine

            def line(l):
                self.announce(l)
                orig(l)
            w.all_queues.processOneLine = line
            self.calc = None
            while self.pc < len(self.ops):
                o = self.ops[self.pc]
                self.pc += 1
                if o[0] == "calc":
                    if w.timer.isActive():
                        self.finish()
                    self.start(*[int(x) for x in o[1:]])
                elif o[0] == "finish":
                    self.finish()
                elif o[0] in ("abort", "crash") and w.timer.isActive():
                    self.run_for(o[1], int(o[2]), o[0])
            self.finish()
            s.log("session over", self.no)

        def start(self, button, pv, cv, procs):
            w = self.w
            self.q = q = params(button, pv, cv)
            with core.Quiet():
                self.ref = reference(q)
            self.seen, self.ended, self.bases = {}, False, 0
            self.idx = {0: 0, 1: 1, 2: 2, 3: 0}[button]
            self.blocks = set()
            s.log("start", self.no, button, pv, cv, procs)
            for k in range(3):
                if gui.drain(w.all_queues.dataqueues[k]) or w.all_queues.basisfiles[k]:
                    bad("leftover", "a calculation begins with results of an older one")
            w.current_idx, w.storage_data, w.storage_states = self.idx, [[], [], []], [{}, {}, {}]
            w.numprocessors = procs
            # app.startCalc
            w.createThread()
            w.run_with_pipy = True
            w.pipy_thread.setParams(copy.deepcopy(q))
            w.pipy_thread.setNumProcesses(w.numprocessors)
            w.pipy_thread.start()
            self.thread = w.pipy_thread
            w.timer.start(0)
            w.starttime = s.now / 1e6

        def load(self, path):
            with core.Quiet():
                try:
                    with core._open(path, "rb") as f:
                        return f.read()
                except OSError as e:
                    return e

        def check_file(self, path, ip, bn, when):
            res = self.ref[0]
            if (ip, bn) not in res:
                bad("wrong-step", "%s: step %d of block %d does not exist" % (when, ip, bn))
            b = self.load(path)
            if isinstance(b, OSError):
                bad("missing-file", "%s of step %d, block %d: %s" % (when, ip, bn, b))
            try:
                d = pickle.loads(b)
                e, v, p = np.asarray(d["energies"]), d["basis"].toarray(), d["params"]
            except Exception as x:
                bad("incomplete-file", "%s of step %d, block %d: the file has %d bytes and does not load: %s: %s" % (when, ip, bn, len(b), type(x).__name__, x))
            re, rv, rp, dim = res[(ip, bn)]
            x = same_params(p, rp)
            if x:
                bad("wrong-params", "%s of step %d, block %d: the file's parameters have %s" % (when, ip, bn, x))
            if e.shape != re.shape or np.abs(e - re).max() > 1e-12 or v.shape != rv.shape or np.abs(v - rv).max() > 1e-12:
                bad("wrong-data", "%s of step %d, block %d: energies %s..., computed from scratch %s..." % (when, ip, bn, e[:3], re[:3]))
            return dim

        def check_basis(self, path, bn, when):
            b = self.load(path)
            if isinstance(b, OSError):
                bad("missing-file", "%s of the basis of block %d: %s" % (when, bn, b))
            want = self.ref[1].get(bn)
            got = [[float(x) for x in l.split()] for l in b.decode().splitlines()]
            if want is None or got != [[i] + [float(x) for x in r] for i, r in enumerate(want)]:
                bad("wrong-basis", "%s of block %d: the basis file has %d rows, expected %s" % (when, bn, len(got), want and len(want)))

        def announce(self, l):
            """Called with every line that the calculation announces, before the GUI sees it."""
            t = l[:5]
            if t == ">>OUT":
                ip, nb, bn, path = int(l[12:19]), int(l[19:26]), int(l[26:33]), l[34:].strip()
                s.log("out", ip, nb, bn)
                if (ip, bn) in self.seen:
                    bad("twice", "step %d of block %d is announced twice" % (ip, bn))
                self.seen[(ip, bn)] = path
                if nb != self.ref[2]:
                    bad("wrong-blocks", "%d blocks announced, there are %d" % (nb, self.ref[2]))
                dim = self.check_file(path, ip, bn, "announcement")
                if self.dim != dim:
                    bad("wrong-dimension", "dimension %d announced for step %d of block %d, it is %d" % (self.dim, ip, bn, dim))
                s.probe("announced")
            elif t == ">>DIM":
                self.dim = int(l[5:])
            elif t == ">>TOT":
                if int(l[5:]) != self.ref[2] * self.ref[3]:
                    bad("wrong-total", "%d results announced, there are %d" % (int(l[5:]), self.ref[2] * self.ref[3]))
            elif t == ">>STA":
                path = l[6:].strip()
                bn = int(path[path.index("blocknumber_") + 12:-4])
                self.check_basis(path, bn, "announcement")
            elif t == ">>END":
                self.ended = True

        def tick(self, sleep=True):
            """app.checkForData without the drawing."""
            w, aq = self.w, self.w.all_queues
            files, q = aq.basisfiles[self.idx], aq.dataqueues[self.idx]
            while len(files) > 0:
                f = files.pop(0)
                bn = int(f[f.index("blocknumber_") + 12:-4])
                self.check_basis(f, bn, "use")
                self.blocks.add(bn)
                w.storage_states[self.idx][bn] = 1
                os.remove(f)
            if not w.threadIsRunning() and q.empty():
                self.over()
                w.threadFinished()
                return
            n = 0
            while not q.empty() and n < 3:
                filestep, nb, bn, path = q.get()
                if bn not in w.storage_states[self.idx]:
                    q.put([filestep, nb, bn, path])
                    break
                self.check_file(path, filestep, bn, "use")
                s.probe("used")
                n += 1
            if sleep:
                s.sleep(4000)

        def over(self):
            if not self.ended:
                bad("no-end", "the calculation stopped without its end line")
            if set(self.seen) != set(self.ref[0]):
                bad("lost-step", "the calculation ended, steps without result: %s" % sorted(set(self.ref[0]) - set(self.seen))[:4])
            s.probe("finished")

        def finish(self):
            w, t0 = self.w, s.now
            while w.timer.isActive():
                self.tick()
                if s.now - t0 > 3_000_000_000:
                    bad("never-idle", "the calculation does not end")

        def run_for(self, unit, n, what):
            w = self.w
            end = s.points + n * 4
            k = 0
            while w.timer.isActive() and (k < n // 20 if unit == "ticks" else s.points < end):
                if unit == "ticks":
                    self.tick()
                else:
                    self.tick(False)
                    s.sleep(1)
                k += 1
            if not w.timer.isActive():
                return
            s.log(what)
            s.probe("fault:user-" + what)
            if what == "crash":
                return self.crash()
            w.abortCalculation()
            n = 0
            while w.timer.isActive():
                aq = w.all_queues
                if not aq.dataqueues[self.idx].empty() or aq.basisfiles[self.idx]:
                    bad("leftover", "results of the aborted calculation arrive after the abort")
                if not w.threadIsRunning():
                    w.threadFinished()
                    break
                n += 1
                if n > 3000:
                    bad("never-idle", "the GUI is not idle long after the abort")
                s.sleep(4000)

    def kill_children(pid):
        for c in simpool.CHILDREN.get(pid, []):
            if c not in s.dead and s.rng_child.chance(0.7):
                s.kill(c)
    s.kill_children = kill_children
    s.rng_child = core.Rng(s.plan.seed ^ 5)
    sessions = {n: Session(n) for n in sorted(set(int(o[0]) for o in s.plan.ops))}
    simpool.NEXT[0] = 100

    def owner(pid):
        for x in sessions.values():
            if getattr(x, "pid", None) == pid or pid in simpool.CHILDREN.get(getattr(x, "pid", None), []):
                return x

    def crashed(t, e):
        import traceback
        fr = traceback.extract_tb(e.__traceback__)
        if not any("pairinteraction_gui" in f.filename for f in fr):
            s.end("error", "harness", "".join(traceback.format_exception(e))[-1500:])
        # an exception that nobody handles ends a PyQt5 program
        if any(k.startswith("fault:") and not k.startswith("fault:user") and not k.endswith("-stall") and k != "fault:worker-terminated" for k in s.probes):
            s.probe("gui-ended-by-error")
            s.kill_children(t.pid)
            s.kill(t.pid)
        bad("died", "%s died of %s: %s in %s" % (t.name, type(e).__name__, e, t.where))
    s.on_crash = crashed

    def supervise():
        """Starts the sessions, and again when they were killed; the last one runs without faults."""
        for n, x in sessions.items():
            if n != 9:
                x.start_process()
        while True:
            s.sleep(5000)
            live = False
            for n, x in sessions.items():
                if n == 9:
                    continue
                if x.task.state == "dead":
                    if x.gen > 12:
                        s.end("inconclusive", "too-many-restarts")
                    # a worker may have been the victim: its pool waits for ever, the user ends the program
                    x.start_process()
                    live = True
                elif x.task.state != "done":
                    live = True
                    for c in simpool.CHILDREN.get(x.pid, []):
                        if c in s.dead and not x.task.state == "dead" and c in lost_workers:
                            lost_workers.discard(c)
                            s.log("worker lost, the program is ended")
                            s.kill_children(x.pid)
                            s.kill(x.pid)
            if not live:
                break
        s.faults_on = False
        if 9 in sessions:
            x = sessions[9]
            x.start_process()
            s.block(lambda: x.task.state in ("done", "dead"))
        s.end("ok")
    lost_workers = set()
    kill0 = s.kill

    def kill(pid):
        t = s.task()
        if t is not None and t.pid == pid and pid not in [getattr(x, "pid", None) for x in sessions.values()] and pid != 0:
            lost_workers.add(pid)  # killed by a fault, not by its pool
        kill0(pid)
    s.kill = kill
    s.spawn("supervisor", supervise, 0)
