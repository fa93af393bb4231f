"""The GUI's main window without its widgets: the calculation life cycle is the code of app.py."""
import io, re, subprocess
from . import core, stubs

_mod = []


def app():
    if not _mod:
        import pairinteraction_gui.app as a
        _mod.append(a)
    return _mod[0]


class PipeRaw(io.RawIOBase):
    def __init__(self, pipe):
        self.pipe = pipe

    def readable(self):
        return True

    def readinto(self, b):
        p, s = self.pipe, core.SIM
        s.block(lambda: p.data or p.eof or self.closed)
        f = s.fault("read")
        n = len(b)
        if f and f[0] == "short":
            n = max(1, f[1] % n)
        p.waiting = False
        x = bytes(p.data[:n])
        del p.data[:n]
        b[: len(x)] = x
        return len(x)


class Pipe:
    def __init__(self):
        self.data, self.eof = bytearray(), False
        self.reader = io.BufferedReader(PipeRaw(self), core.SIM.plan.knob("pbuf", 8192))


class Proc:
    """A backend process that writes what it was given, piece by piece."""

    def __init__(self, pieces, crash, pid):
        s = core.SIM
        self.stdout_pipe, self.pieces, self.crash, self.pid = Pipe(), pieces, crash, pid
        self.stdout, self.returncode, self.sent, self.term = self.stdout_pipe.reader, None, bytearray(), False
        self.task = s.spawn("backend%d" % pid, self.run, pid)

    def run(self):
        s = core.SIM
        for delay, data in self.pieces:
            if delay:
                s.sleep(delay)
            else:
                s.point("write")
            self.stdout_pipe.data += data
            self.sent += data
        self.done(1 if self.crash else 0)

    def done(self, rc):
        self.stdout_pipe.eof = True
        self.returncode = rc
        core.SIM.log("backend ends", rc, len(self.sent))

    def terminate(self):
        core.SIM.point("sigterm")
        if self.returncode is None:
            core.SIM.kill(self.pid)
            self.done(-15)
    kill = terminate

    def send_signal(self, sig):
        self.terminate()

    def poll(self):
        core.SIM.point("poll")
        return self.returncode

    def wait(self, timeout=None):
        core.SIM.block(lambda: self.returncode is not None)
        return self.returncode


class Timer:
    def __init__(self):
        self.active = False

    def isActive(self):
        return self.active

    def start(self, *a):
        self.active = True

    def stop(self):
        self.active = False


class Check:
    def __init__(self, v):
        self.v = v

    def isChecked(self):
        return self.v


class UI(stubs.Magic):
    pass


def window(pipy, procs=1):
    A = app()

    class Win(A.MainWindow):
        def __init__(self):
            d = self.__dict__
            d["critical"], d["shown"] = [], []
            self.all_queues = A.AllQueues()
            self.pipy_thread = self.read_thread = self.proc = None
            self.timer, self.starttime, self.numprocessors = Timer(), 0, procs
            self.ui = UI()
            self.ui.checkbox_use_python_api = Check(pipy)
            self.senderbutton, self.current_idx, self.run_with_pipy = self.ui.pushbutton_field1_calc, None, pipy
            self.storage_data, self.storage_states, self.empty_data = [[], [], []], [{}, {}, {}], [0, 0, 0]

        def showCriticalMessage(self, msg):
            self.critical.append(msg)
            core.SIM.log("critical", msg)

        def saveSettingsSystem(self, p):
            pass
        saveSettingsPlotter = saveSettingsView = saveSettingsSystem
    return Win()


def drain(q):
    r = []
    while not q.empty():
        r.append(q.get())
    return r
