"""Stand-ins for PyQt5, pyqtgraph, pint and the generated modules, so that the GUI's own code can be imported and run."""
import importlib.abc, importlib.machinery, sys, types
from . import core


class MagicMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = magic(n)
        setattr(cls, n, m)
        return m


class Magic(metaclass=MagicMeta):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return magic(n)()

    def __call__(self, *a, **k):
        return Magic()

    def closeEvent(self, *a):
        pass

    def _self(self, *a):
        return self
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __add__ = __radd__ = __sub__ = __rsub__ = __pow__ = __neg__ = _self
    __getitem__ = _self

    def __iter__(self):
        return iter(())

    def __float__(self):
        return 1.0


def magic(n):
    return MagicMeta(n, (Magic,), {"__module__": "stub"})


class BoundSignal:
    def __init__(self):
        self.slots = []

    def connect(self, f, *a):
        self.slots.append(f)

    def disconnect(self, *a):
        self.slots = []

    def emit(self, *a):
        for s in list(self.slots):
            s(*a)


class pyqtSignal:
    def __init__(self, *types, **k):
        self.key = "_signal_%d" % id(self)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.setdefault(self.key, BoundSignal())


def pyqtSlot(*a, **k):
    return lambda f: f


class QObject:
    def __init__(self, parent=None):
        self._deleted = False

    def parent(self):
        return None

    def moveToThread(self, t):
        pass

    def deleteLater(self):
        pass


class QThread(QObject):
    def __init__(self, parent=None):
        super().__init__(parent)
        self._t = None
        self._interrupt = False
        self.started, self.finished = BoundSignal(), BoundSignal()

    def _alive(self):
        return self._t is not None and self._t.state not in ("done", "dead")

    def start(self, *a):
        s = core.SIM
        s.point("start")
        if self._alive():
            return
        me = s.task()
        self._interrupt = False
        self._t = s.spawn(type(self).__name__ + str(len(s.tasks)), self.run, me.pid)
        s.point("started")

    def run(self):
        pass

    def isRunning(self):
        core.SIM.point("isRunning")
        return self._alive()

    def isFinished(self):
        core.SIM.point("isFinished")
        return self._t is not None and not self._alive()

    def requestInterruption(self):
        self._interrupt = True

    def isInterruptionRequested(self):
        return self._interrupt

    def wait(self, *a):
        s = core.SIM
        if self._t is None or s.task() is self._t:
            return False
        s.block(lambda: not self._alive())
        return True

    def quit(self):
        pass

    def terminate(self):
        s = core.SIM
        s.point("terminate")
        if self._alive():
            s.log("terminate thread", self._t.name)
            s.kill_task(self._t)


class _Sip(types.ModuleType):
    def isdeleted(self, o):
        return False


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    TOP = ("PyQt5", "pyqtgraph", "pint", "sip")
    FULL = ("pairinteraction_gui.plotter", "pairinteraction_gui.version")

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in self.TOP or name in self.FULL:
            return importlib.machinery.ModuleSpec(name, self, is_package=name.split(".")[0] in self.TOP)
        return None

    def create_module(self, spec):
        m = _Sip(spec.name) if spec.name in ("sip", "PyQt5.sip") else types.ModuleType(spec.name)
        if spec.name == "PyQt5.QtCore":
            m.QThread, m.pyqtSignal, m.pyqtSlot, m.QObject = QThread, pyqtSignal, pyqtSlot, QObject
        if spec.name == "pairinteraction_gui.version":
            m.version_cache = m.version_program = m.version_settings = 1
        if spec.name == "PyQt5":
            def ga(n):
                import importlib as il
                try:
                    return il.import_module("PyQt5." + n)
                except ImportError:
                    raise AttributeError(n)
            m.__getattr__ = ga
        elif spec.name.endswith("sip"):
            pass
        else:
            def ga(n):
                if n.startswith("__"):
                    raise AttributeError(n)
                c = magic(n)
                setattr(m, n, c)
                return c
            m.__getattr__ = ga
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


def install():
    sys.meta_path.insert(0, Finder())
