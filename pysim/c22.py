"""C22: the GUI's settings, chosen cache directory and rotation coefficients survive kills, full disks and a second program."""
import json, locale, math, os, shutil, sqlite3
from . import core, gui, stubs

ANGLES = [0.0, 0.3, 0.300001, 0.7, -0.3, 1.2, math.pi / 2, math.pi, -0.7, 2.5, 0.0003]
JS = [0.5, 1.5, 2.5, 1, 2]
SYS = {"minEx": "volt/centimeter", "maxEz": "volt/centimeter", "minR": "micrometer", "n1": None, "steps": None, "deltaEPair": "gigahertz"}
PLOT = {"minE_field1": "gigahertz", "maxE_field1": "gigahertz", "szOverlap": None, "n1": None}


def generate(p, r, thorough):
    p.knobs["p_sw"] = r.pick(["0.005", "0.02", "0.1"])
    p.knobs["wbuf"] = r.pick(["8192", "64", "512"])
    p.knobs["rbuf"] = r.pick(["8192", "512"])
    two, dirs = r.chance(0.35), r.pick([0, 0, 0, 0.4])
    for g in range(2 if two else 1):
        lives = r.range(1, 5 if thorough else 4)
        for life in range(lives):
            p.ops.append([g, "new"])
            for _ in range(r.below(6)):
                x = 0.9 if r.chance(dirs) else r.unit()
                if x < 0.25:
                    p.ops.append([g, "sys", r.pick(sorted(SYS)), r.range(1, 99)])
                elif x < 0.4:
                    p.ops.append([g, "plot", r.pick(sorted(PLOT)), r.range(1, 99)])
                elif x < 0.5:
                    p.ops.append([g, "view", r.pick(["config", "plotter", "system", "filepath", "gradient"]), r.below(5)])
                elif x < 0.8:
                    j = r.pick(JS)
                    p.ops.append([g, "d", j, -j + r.below(int(2 * j) + 1), -j + r.below(int(2 * j) + 1), r.below(len(ANGLES))])
                elif x < 0.88:
                    p.ops.append([g, "dsave"])
                elif x < 0.925:
                    p.ops.append([g, "cachedir", r.pick([0, 0, 1, 2])])
                elif x < 0.955:
                    p.ops.append([g, r.pick(["resets", "resetp"])])
                elif x < 0.98:
                    p.ops.append([g, "export", r.below(2)])
                elif not two:
                    p.ops.append([g, "clear"])
            p.ops.append([g, r.pick(["close", "close", "close", "sigkill"])])
    if r.chance(0.75):
        for _ in range(r.range(1, 3)):
            a = r.pick(["kill", "torn", "kill", "torn", "eio", "enospc", "short"])
            p.fault(r.pick(["write", "write", "any", "open", "dir"]), r.pick([0, 0, 101, 102, 103, 104, 201, 202]), 1 + r.below(r.pick([6, 12, 30])), r.pick([1, 1, 1, 3, 30]), a, r.below(1 << 20))


class Box(stubs.Magic):
    """A widget that keeps its state."""

    def __init__(self, v):
        self.v = v

    def setCurrentIndex(self, v):
        self.v = v

    def currentIndex(self):
        return self.v

    def restoreState(self, v):
        self.v = v

    def saveState(self):
        return self.v


class UI(stubs.Magic):
    def __init__(self):
        self.gradientwidget_plot_gradient = Box({})
        self.tabwidget_config, self.tabwidget_plotter, self.toolbox_system = Box(0), Box(0), Box(0)


class Dict(dict):
    """The settings without their widgets."""

    def __init__(self, ui):
        super().__init__()

    def __getattr__(self, k):
        return self[k]


class Message:
    shown = 0
    Ok, Cancel, Information = "ok", "cancel", "information"

    def __init__(self, *a):
        pass

    def __getattr__(self, n):
        return lambda *a: None

    def exec(self):
        Message.shown += 1
        return Message.Ok
    exec_ = exec


def wigner(j, mp, m, b):
    f = lambda x: math.factorial(int(round(x)))
    t = 0.0
    for s in range(int(2 * j) + 1):
        a = (j + m - s, s, mp - m + s, j - mp - s)
        if min(a) < -1e-9:
            continue
        t += (-1) ** int(round(mp - m + s)) * math.cos(b / 2) ** int(round(2 * j + m - mp - 2 * s)) * math.sin(b / 2) ** int(round(mp - m + 2 * s)) / (f(a[0]) * f(a[1]) * f(a[2]) * f(a[3]))
    return t * math.sqrt(f(j + mp) * f(j - mp) * f(j + m) * f(j - m))


class Stored:
    """What may be on disk: the last completed save, and the ones that were under way since."""

    def __init__(self, v):
        self.may, self.open, self.readers, self.changes = [v], {}, {}, 0

    def changed(self):
        self.changes += 1
        for x in self.readers.values():
            x.update(self.may)

    def begin(self, key, v):
        self.open[key] = [v, []]
        self.may.append(v)
        self.changed()

    def end(self, key, done):
        v, later = self.open.pop(key)
        for o in self.open.values():
            o[1].append(v)
        if done:
            self.may = [v] + later + [o[0] for o in self.open.values()]
            self.changed()

    def read(self, key):
        """Somebody reads from now on."""
        self.readers[key] = set(self.may)
        self.since = dict(getattr(self, "since", {}), **{str(key): self.changes})

    def seen(self, key, v):
        """It read v, and says whether it may have."""
        x = self.readers.pop(key)
        if not self.open and self.since[str(key)] == self.changes and v in self.may:
            self.may = [v]
        return v in x, x


def norm(d):
    return json.dumps({k: [x.magnitude, x.units] for k, x in d.items()}, sort_keys=True)


def run(s, scratch):
    A = gui.app()
    from pairinteraction_gui.unitmanagement import Quantity
    from pairinteraction_gui.utils import Wignerd
    import scipy.special  # noqa: F401
    with core.Quiet():
        pass
    real_conf = os.path.join(core.REPO, "pairinteraction_gui", "conf")
    mk = core._os["makedirs"]
    mk("gui/conf")
    mk("gui/databases")
    mk("config")
    for n in ("example.sconf", "example.pconf"):
        with core._open(os.path.join(real_conf, n)) as a, core._open("gui/conf/" + n, "w") as b:
            b.write(a.read())
    core._open("gui/pairinteraction-backend-deprecated", "w").close()
    c = sqlite3.connect("gui/databases/quantum_defects.db")
    c.execute("create table rydberg_ritz(element text)")
    c.execute("insert into rydberg_ritz values('Rb')")
    c.commit()
    c.close()
    shutil._USE_CP_SENDFILE = False
    locale.setlocale = lambda *a: "C"
    locale.getlocale = lambda *a: ("C", "UTF-8")
    os.getpid = lambda: 1000 + (s.task().pid if s.task() else 0)
    os.environ["XDG_CONFIG_HOME"] = os.path.join(scratch, "config")
    os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
    os.environ["HOME"] = scratch
    A.__file__ = os.path.join(scratch, "gui", "app.py")
    A.Ui_plotwindow, A.SystemDict, A.PlotDict = UI, Dict, Dict
    A.QtWidgets.QMessageBox = Message
    A.pg.graphicsItems.GradientEditorItem.Gradients = {}
    answer = {}

    class Input(stubs.Magic):
        @staticmethod
        def getText(*a):
            return answer[s.task().pid], True
    A.QtWidgets.QInputDialog = Input
    default_cache = os.path.join(scratch, "cache", "pairinteraction")
    ex = {k: json.load(core._open("gui/conf/example." + k)) for k in ("sconf", "pconf")}
    grad0 = ex["pconf"].pop("gradientwidget")
    can = lambda d: json.dumps(d, sort_keys=True)
    first_sys, first_plot = can(ex["sconf"]), can([ex["pconf"], grad0])
    first_view = can([0, 0, 0, scratch])
    stored = {"system": Stored(first_sys), "plot": Stored(first_plot), "view": Stored(first_view), "cache directory": Stored(default_cache)}
    first = {"system": first_sys, "plot": first_plot, "cache directory": default_cache}
    saved_once = set()
    keep = []
    bad = s.violation
    refs = {}

    def exact(j, m2, m1, b):
        k = (j, m2, m1, b)
        if k not in refs:
            w = Wignerd(os.path.join(scratch, "nowhere"))
            w.save = lambda: None
            refs[k] = w.calc(j, m2, m1, b)
            refs[k, 0] = wigner(j, m2, m1, b)
        return refs[k]

    class Gui:
        def __init__(self, no):
            self.no, self.gen, self.lives = no, 0, []
            for o in s.plan.ops:
                if int(o[0]) == no:
                    if o[1] == "new":
                        self.lives.append([])
                    elif self.lives:
                        self.lives[-1].append(o[1:])
            self.task = None

        def start(self, ops, last=False):
            self.gen += 1
            self.pid = (self.no + 1) * 100 + self.gen
            self.last = last
            self.touched = []
            self.task = s.spawn("gui%d-%d" % (self.no, self.gen), lambda: self.live(ops), self.pid)

        def values(self):
            w = self.w
            return {"system": norm(w.systemdict), "plot": can([json.loads(norm(w.plotdict)), w.ui.gradientwidget_plot_gradient.saveState()]),
                    "view": can([w.ui.tabwidget_config.v, w.ui.tabwidget_plotter.v, w.ui.toolbox_system.v, w.filepath]), "cache directory": w.path_cache}

        def saving(self, what, value, f):
            """f writes the value of `what` to the disk."""
            for k in what:
                stored[k].begin(self.pid, value[k])
                self.touched.append(k)
            ok = False
            try:
                f()
                ok = True
            finally:
                if not ok and s.task().state != "dead":
                    s.log("saving failed")
                for k in what:
                    if self.pid in stored[k].open:
                        stored[k].end(self.pid, ok)
                        if ok:
                            saved_once.add(k)

        def over(self):
            """The process is gone."""
            for k, x in stored.items():
                x.readers.pop(self.pid, None)
                if self.pid in x.open:
                    x.end(self.pid, False)

        def live(self, ops):
            Message.shown = 0
            new = [k for k in first if k not in saved_once]
            self.w = None
            for k in new:  # a first start writes the defaults
                stored[k].begin(self.pid, first[k])

            for x in stored.values():
                x.read(self.pid)

            class Win(A.MainWindow):
                def getConstDistance(self):
                    return True
                getConstEField = getConstBField = getConstDistance

                def get1DPosition(self, v):
                    return 0.0

                def showCriticalMessage(self, m):
                    s.log("critical", m)
            w = self.w = Win()
            keep.append(w)
            for k in new:
                stored[k].end(self.pid, False)
            s.probe("starts")
            if Message.shown:
                bad("asked-to-delete", "the program offers to delete the settings or the cache of the same version")
            now = self.values()
            for k, v in now.items():
                ok, may = stored[k].seen(self.pid, v)
                if not ok:
                    bad("lost-settings", "%s: the program starts with %s instead of %s" % (k, v[:300], " or ".join(sorted(x[:300] for x in may))))
                if v != first.get(k):
                    s.probe("restored_" + k.replace(" ", "_"))
            for o in ops:
                self.act(o[0], o[1:])
            self.w = None

        def act(self, what, a):
            w = self.w
            s.point(what)
            if what == "sys":
                w.systemdict[a[0]] = Quantity(float(a[1]), SYS[a[0]])
            elif what == "plot":
                w.plotdict[a[0]] = Quantity(float(a[1]), PLOT[a[0]])
            elif what == "view":
                v = int(a[1])
                if a[0] == "filepath":
                    w.filepath = os.path.join(scratch, "d%d" % v)
                elif a[0] == "gradient":
                    w.ui.gradientwidget_plot_gradient.v = {"mode": "rgb", "ticks": [[v / 4, [0, v, 0, 255]]]}
                else:
                    {"config": w.ui.tabwidget_config, "plotter": w.ui.tabwidget_plotter, "system": w.ui.toolbox_system}[a[0]].v = v
            elif what == "d":
                j, m2, m1, b = float(a[0]), float(a[1]), float(a[2]), ANGLES[int(a[3])]
                x = w.wignerd.calc(j, m2, m1, b)
                with core.Quiet():
                    y = exact(j, m2, m1, b)
                s.probe("coefficients")
                if x != y or abs(y - refs[(j, m2, m1, b), 0]) > 1e-9:
                    bad("wrong-coefficient", "d(%g, %g, %g, %.9g) is %.17g instead of %.17g" % (j, m2, m1, b, x, refs[(j, m2, m1, b), 0] if abs(y - refs[(j, m2, m1, b), 0]) > 1e-9 else y))
            elif what == "dsave":
                w.wignerd.save()
                s.probe("coefficients_saved")
            elif what == "clear":
                w.clearCache()
            elif what == "cachedir":
                d = os.path.join(scratch, "cache%d" % int(a[0])) if int(a[0]) < 2 else default_cache
                answer[self.pid] = d
                self.saving(["cache directory"], {"cache directory": d}, w.changeCacheDirectory)
            elif what in ("resets", "resetp"):
                k = "system" if what == "resets" else "plot"
                self.saving([k], first, w.resetSConf if what == "resets" else w.resetPConf)
                if self.values()[k] != first[k]:
                    bad("lost-settings", "%s: the settings are not reset" % k)
            elif what == "export":
                import io
                f = io.StringIO()
                (w.saveSettingsPlotter if int(a[0]) else w.saveSettingsSystem)(f)
                x = json.loads(f.getvalue())
                if int(a[0]):
                    g = x.pop("gradientwidget")
                    x = [x, g]
                if can(x) != self.values()["plot" if int(a[0]) else "system"]:
                    bad("lost-settings", "the exported settings are others")
            elif what == "close":
                w.wignerd.save()
                self.saving(["system", "plot", "view"], self.values(), lambda: w.closeEvent(None))
                s.probe("closed")
            elif what == "sigkill":
                s.probe("fault:sigkill")
                s.kill(s.task().pid)

    guis = [Gui(n) for n in sorted(set(int(o[0]) for o in s.plan.ops))]

    def crashed(t, e):
        import traceback
        fr = traceback.extract_tb(e.__traceback__)
        g = [x for x in guis if x.task is t][0]
        if not any("pairinteraction_gui" in f.filename for f in fr):
            s.end("error", "harness", "".join(traceback.format_exception(e))[-1500:])
        if isinstance(e, OSError) and not g.last and t.pid in hit:
            s.probe("ended_by_error")
            return
        bad("start-failed" if g.w is None else "died", "%s: %s: %s in %s" % ("the program cannot start" if g.w is None else "the program died", type(e).__name__, e, t.where))
    s.on_crash = crashed
    hit = set()
    fault0 = s.fault

    def fault(cls):
        f = fault0(cls)
        if f:
            hit.add(s.task().pid)
        return f
    s.fault = fault

    def supervise():
        todo = {g: list(g.lives) for g in guis}
        while True:
            busy = False
            for g in guis:
                if g.task is not None and g.task.state not in ("done", "dead"):
                    busy = True
                    continue
                if g.task is not None:
                    g.over()
                    g.task = None
                if todo[g]:
                    g.start(todo[g].pop(0))
                    busy = True
            if not busy:
                break
            s.sleep(1000)
        s.faults_on = False
        for k in range(2):  # undisturbed: starts with what was saved, saves, starts again
            g = guis[0]
            g.start([["d", j, 0.5 if j % 1 else 0, -0.5 if j % 1 else 1, i] for i in range(len(ANGLES)) for j in (0.5, 1)] + [["sys", "n1", 7], ["close"]], True)
            s.block(lambda: g.task.state in ("done", "dead"))
            g.over()
        s.probe("histories")
        s.end("ok")
    s.spawn("supervisor", supervise, 0)
