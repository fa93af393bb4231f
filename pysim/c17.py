"""C17: what the backend announces reaches the GUI once, in order, in its own calculation."""
import re
from . import core, gui

PREFIX = ["Field map of first atom: ", "Field map of second atom: ", "Pair potential: ", "Field maps: "]
NOISE = ["", "One-atom Hamiltonian, construct diagonal Hamiltonian", "WARNING: something", ">> not a tag", ">>", "OUT      1      1", "Grüße aus der Ausgabe", "    ", ">>XYZ     12", "total time: 12 s"]


def generate(p, r, thorough):
    p.knobs["p_sw"] = r.pick(["0.02", "0.1", "0.3", "0.6"])
    p.knobs["pbuf"] = r.pick(["8192", "64", "1000"])
    n = r.range(1, 5 if thorough else 3)
    k = 0
    for c in range(n):
        idx = r.below(3)
        kind = r.pick(["single", "pair", "pairsame", "none"]) if idx == 2 else "field"
        steps, blocks = r.range(1, 8), r.pick([1, 1, 2, 3])
        end = "end" if r.chance(0.6) else r.pick(["crash", "err", "noend", "crash"])
        cut = r.below(1000)
        # how the output is cut into pieces, and how fast it comes
        chunk = r.pick(["line", "line", "block", "tiny", "all"])
        pace = r.pick([0, 0, 200, 3000])
        p.ops.append(["calc", c, idx, kind, steps, blocks, end, cut, chunk, pace, r.below(1 << 30), int(r.chance(0.3))])
        how = r.pick(["finish", "finish", "abort", "abort", "close"]) if c + 1 < n else r.pick(["finish", "abort", "close"])
        p.ops.append([how, c] + ([r.range(0, 40), r.below(3)] if how != "finish" else []))


class Calc:
    """What one backend run writes, and what that must lead to."""

    def __init__(self, c, idx, kind, steps, blocks, end, cut, chunk, pace, seed, noise):
        r = core.Rng(seed)
        self.c, self.idx, self.end = c, idx, end
        lines = []
        self.uid = 0
        tail = r.pick(["", "", " "])  # the C++ backend writes no blank after a file name, the Python one does

        def out(typ, steps, blocks):
            lines.append(">>TYP%7d" % typ)
            lines.append(">>BAS%7d" % r.range(1, 400))
            lines.append(">>STA %s%s" % (self.name(r, "basis"), tail))
            lines.append(">>TOT%7d" % (steps * blocks))
            items = [(s, b) for s in range(steps) for b in range(blocks)]
            for i in range(len(items) - 1, 0, -1):  # threads finish in any order
                j = max(0, i - r.below(4))
                items[i], items[j] = items[j], items[i]
            n = 0
            for s, b in items:
                if noise and r.chance(0.2):
                    lines.append(r.pick(NOISE))
                lines.append(">>DIM%7d" % r.range(1, 99999))
                n += 1
                lines.append(">>OUT%7d%7d%7d%7d %s%s" % (n, s, blocks, b, self.name(r, "mat"), tail))
        if idx == 2:
            if kind == "pair":
                out(0, r.range(1, 3), 1)
                out(1, r.range(1, 3), 1)
            elif kind == "pairsame":
                out(3, r.range(1, 3), 1)
            out(2, steps, blocks)
        else:
            out(r.pick([0, 3]) if idx == 0 else 1, steps, 1)
        if end == "err":
            del lines[max(1, len(lines) - cut % 7):]
            lines.append(">>ERR%s" % r.pick(["Something went wrong.", " No basis states: calculation stopped ", "Error é"]))
        elif end == "noend":
            pass
        else:
            lines.append(">>END")
        text = ("\n".join(lines) + "\n").encode()
        if end == "crash":
            text = text[: len(text) * cut // 1000]
        elif noise and end == "end" and r.chance(0.3):
            text += b"\nbye\n"
        self.text = text
        pieces, i = [], 0
        while i < len(text):
            if chunk == "line":
                j = text.find(b"\n", i) + 1 or len(text)
            elif chunk == "block":
                j = i + r.range(20, 200)
            elif chunk == "tiny":
                j = i + r.range(1, 30)
            else:
                j = len(text)
            pieces.append((r.range(0, pace) if pace and r.chance(0.5) else 0, text[i:j]))
            i = j
        self.pieces = pieces

    def name(self, r, kind):
        self.uid += 1
        d = r.pick(["/tmp/c", "/home/a b/cache", "/x/Übung", "/tmp/c"])
        return "%s/%s_%d_%d" % (d, kind, self.c, self.uid) + (".csv" if kind == "basis" else "")


class Model:
    """Reference reading of complete lines."""

    def __init__(self, text):
        self.q, self.basis, self.typ, self.finished, self.errors = [[], [], []], [[], [], []], 0, False, []
        self.total = self.current = self.dim = 0
        self.numbers, self.prefix = [], ""
        for l in text.split(b"\n")[:-1]:
            if self.finished:
                break
            l = l.decode("utf-8")
            tag = l[:5]
            if tag == ">>TYP":
                self.typ = int(l[5:])
                self.prefix, self.numbers = PREFIX[self.typ], []
            elif tag == ">>BAS":
                self.numbers = [int(l[5:])]
            elif tag == ">>STA":
                self.basis[self.typ % 3].append(l[5:].strip())
            elif tag == ">>TOT":
                self.total, self.current = int(l[5:]), 0
            elif tag == ">>DIM":
                self.dim = int(l[5:])
                self.numbers = [self.dim, self.dim, self.current, self.total]
            elif tag == ">>OUT":
                self.current += 1
                self.numbers = [self.dim, self.dim, self.current, self.total]
                self.q[self.typ % 3].append([int(l[12:19]), int(l[19:26]), int(l[26:33]), l[33:].strip()])
            elif tag == ">>ERR":
                self.errors.append(l[5:].strip())
            elif tag == ">>END":
                self.finished = True


def run(s, scratch):
    A = gui.app()
    A.time = lambda: s.now / 1e6
    st = {}

    def main():
        w = gui.window(False)
        st["w"] = w
        done = {}
        ops = [o for o in s.plan.ops]
        i = 0
        while i < len(ops):
            o = ops[i]
            i += 1
            if o[0] == "calc":
                if w.timer.isActive():
                    finish(w)
                start(w, Calc(*[x if j in (2, 5, 7) else int(x) for j, x in enumerate(o[1:])]))
            elif o[0] == "finish":
                finish(w)
            elif o[0] in ("abort", "close"):
                abort(w, int(o[2]), int(o[3]), o[0])
        finish(w)
        s.log("idle")
        s.end("ok")

    def bad(cls, msg):
        s.violation(cls, msg)

    def crashed(t, e):
        if t.name == "gui":
            import traceback
            tb = e.__traceback__
            fr = traceback.extract_tb(tb)
            if not any("pairinteraction_gui" in f.filename for f in fr):
                s.end("error", "harness", "".join(traceback.format_exception(e))[-1200:])
        bad("thread-died", "%s died of %s: %s in %s" % ("the reader thread" if t.name.startswith("Worker") else t.name, type(e).__name__, e, t.where))
    s.on_crash = crashed

    def start(w, c):
        s.log("start", c.c)
        for k in range(3):
            q, b = gui.drain(w.all_queues.dataqueues[k]), list(w.all_queues.basisfiles[k])
            if q or b:
                bad("leftover", "calculation %d begins with data of an older one: %s %s" % (c.c, q, b))
        if w.all_queues.message or getattr(w.all_queues, "finishedgracefully", False):
            bad("leftover", "calculation %d begins with the state of an older one: message %r, finished %s" % (c.c, w.all_queues.message, getattr(w.all_queues, "finishedgracefully", False)))
        st["c"], st["got"], st["basis"] = c, [[], [], []], []
        w.critical.clear()
        w.current_idx = c.idx
        w.storage_data, w.storage_states = [[], [], []], [{}, {}, {}]
        # app.startCalc
        w.createThread()
        w.proc = gui.Proc(c.pieces, c.end not in ("end", "noend"), 10 + c.c)
        st["proc"] = w.proc
        w.read_thread.execute(w.proc.stdout)
        w.timer.start(0)
        w.starttime = s.now / 1e6

    def tick(w):
        """app.checkForData without the drawing."""
        c, idx, aq = st["c"], st["c"].idx, w.all_queues
        message = aq.message
        p = st["proc"]
        files, q = aq.basisfiles[idx], aq.dataqueues[idx]
        while len(files) > 0:
            st["basis"].append(files.pop(0))
        if not w.threadIsRunning() and q.empty():
            final(w, c)
            w.threadFinished()
            return
        n = 0
        while not q.empty() and n < 5:
            x = q.get()
            st["got"][idx].append(list(x))
            s.log("got", x)
            n += 1
        m = Model(bytes(p.sent))
        if not prefix(st["got"][idx], m.q[idx]):
            bad("wrong-result", "the GUI got %s, the backend had announced %s" % (st["got"][idx][-3:], m.q[idx][max(0, len(st["got"][idx]) - 3):][:4]))
        if st["basis"] != m.basis[idx][: len(st["basis"])]:
            bad("wrong-basis", "the GUI got basis files %s, the backend had announced %s" % (st["basis"], m.basis[idx]))
        # the reader has seen everything and waits: the status must be exact
        t = w.read_thread._t if w.read_thread is not None else None
        if p.returncode is None and t is not None and t.state == "blocked" and not p.stdout_pipe.data and p.sent[-1:] == b"\n":
            status(aq, m, "while the backend is silent")
        # no bound on the reader's progress is needed beyond the scheduler's own fairness
        s.sleep(300)

    def status(aq, m, when):
        if m.finished:
            return
        s.probe("status-checked")
        nums = [int(x) for x in re.findall(r"\d+", aq.message)]
        if not aq.message.startswith(m.prefix) or nums != m.numbers:
            bad("wrong-status", "%s the status is %r, expected %r with %s" % (when, aq.message, m.prefix, m.numbers))

    def prefix(a, b):
        return a == b[: len(a)]

    def final(w, c):
        """The calculation is over by itself: nothing may be missing unless the backend broke off."""
        p, aq = st["proc"], w.all_queues
        m = Model(bytes(p.sent))
        got = [list(x) for x in st["got"]]
        for k in range(3):
            got[k] += [list(x) for x in gui.drain(aq.dataqueues[k])]
        s.log("over", c.c, m.finished, [len(x) for x in got])
        if m.finished:
            s.probe("finished")
            if not getattr(aq, "finishedgracefully", False):
                bad("end-missed", "the backend announced its end, the GUI does not know")
            for k in range(3):
                if got[k] != m.q[k]:
                    bad("lost-result", "queue %d delivered %d results %s, the backend had announced %d: %s" % (k, len(got[k]), got[k][-2:], len(m.q[k]), m.q[k][-2:]))
                b = (st["basis"] if k == c.idx else []) + list(aq.basisfiles[k])
                if b != m.basis[k]:
                    bad("wrong-basis", "basis files of part %d: %s, announced were %s" % (k, b, m.basis[k]))
            m.finished = False
            status(aq, m, "at the end")
        else:
            s.probe("broken-off")
            if getattr(aq, "finishedgracefully", False):
                bad("end-invented", "the GUI believes that a calculation without end line has ended")
            for k in range(3):
                if not prefix(got[k], m.q[k]):
                    bad("wrong-result", "queue %d delivered %s, the backend had announced %s" % (k, got[k][-3:], m.q[k][-4:]))
        if w.critical != m.errors:
            bad("critical", "critical messages shown: %s, announced were %s" % (w.critical, m.errors))

    def finish(w):
        if not w.timer.isActive():
            return
        t0, p = s.now, st["proc"]
        ended = None
        while w.timer.isActive():
            tick(w)
            if p.returncode is not None:
                ended = s.now if ended is None else ended
                if s.now - ended > 10_000_000:
                    bad("never-idle", "10 s after the backend ended the GUI still waits for the calculation")
        after(w)

    def after(w):
        aq = w.all_queues
        for k in range(3):
            q = gui.drain(aq.dataqueues[k])
            if q or aq.basisfiles[k]:
                bad("leftover", "after the calculation its data are still there: %s %s" % (q, aq.basisfiles[k]))

    def abort(w, ticks, where, how):
        if not w.timer.isActive():
            return
        if where == 1:  # as soon as something arrived
            while w.timer.isActive() and not st["got"][st["c"].idx] and s.now < 60_000_000:
                tick(w)
        for _ in range(ticks if where else ticks // 8):
            if w.timer.isActive():
                tick(w)
        if not w.timer.isActive():
            return
        s.log(how)
        s.probe("fault:user-" + how)
        if how == "abort":
            w.abortCalculation()
        else:
            w.closeEvent(None)
        m = Model(bytes(st["proc"].sent))
        if not prefix(w.critical, m.errors):
            bad("critical", "critical messages shown: %s, announced were %s" % (w.critical, m.errors))
        after(w)
        if w.all_queues.message or getattr(w.all_queues, "finishedgracefully", False):
            bad("leftover", "after the abort the old state is still there: message %r" % w.all_queues.message)
        # the timer goes on until it finds that nothing runs any more
        n = 0
        idx = st["c"].idx
        while w.timer.isActive():
            files, q = w.all_queues.basisfiles[idx], w.all_queues.dataqueues[idx]
            if not w.threadIsRunning() and q.empty():
                w.threadFinished()
                break
            if not q.empty() or files:
                bad("leftover", "data of the aborted calculation arrive after the abort: %s" % gui.drain(q))
            n += 1
            if n > 3000:
                bad("never-idle", "the GUI is not idle long after the abort")
            s.sleep(300)
        if how == "close":  # a new session
            st["w"] = w
        after(w)

    s.spawn("gui", main, 1)
