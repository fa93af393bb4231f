"""multiprocessing.Pool with simulated worker processes: tasks of their own process id that share no objects with the parent."""
import copy, functools, pickle, types
from . import core

NEXT = [100]


def keep(o):
    """Objects that a copied process would have too, but that workers do not use through."""
    from .stubs import QThread
    return isinstance(o, (QThread, SimPool)) or type(o).__name__ in ("AllQueues",)


def fork_copy(f):
    """The function as a forked process sees it: what it refers to is a copy made at the time of the fork."""
    if isinstance(f, functools.partial):
        return functools.partial(fork_copy(f.func), *[cp(a) for a in f.args], **{k: cp(v) for k, v in f.keywords.items()})
    if isinstance(f, types.FunctionType) and (f.__closure__ or f.__defaults__):
        cells = tuple(types.CellType(cp(c.cell_contents)) for c in f.__closure__ or ())
        g = types.FunctionType(f.__code__, f.__globals__, f.__name__, tuple(cp(d) for d in f.__defaults__ or ()), cells)
        g.__kwdefaults__, g.__qualname__ = f.__kwdefaults__, f.__qualname__
        return g
    return f


def cp(o):
    if keep(o):
        return o
    if isinstance(o, types.FunctionType):
        return fork_copy(o)
    return copy.deepcopy(o)


class Ctx:
    def __init__(self, method):
        self.method = method

    def get_start_method(self):
        return self.method

    def Pool(self, n=None, *a, **k):
        return SimPool(n, self)

    def __getattr__(self, n):
        import multiprocessing as m
        return getattr(m, n)


class SimPool:
    def __init__(self, processes=None, ctx=None, *a, **k):
        s = core.SIM
        s.point("pool")
        self._ctx = ctx or Ctx(s.plan.knobs.get("method", "fork"))
        self.parent, self.jobs, self.closed, self.dead = s.task().pid, [], False, False
        self.pids, self.tasks = [], []
        pt = MODS[self.parent]
        for w in range(processes or s.plan.knob("ncpu", 3)):
            NEXT[0] += 1
            pid = NEXT[0]
            env = None
            if self._ctx.method == "fork":
                env = {n: fork_copy(f) for n, f in vars(pt).items() if isinstance(f, types.FunctionType) or isinstance(f, functools.partial)}
            self.pids.append(pid)
            self.tasks.append(s.spawn("worker%d" % pid, functools.partial(self.work, env, pt), pid))
        CHILDREN.setdefault(self.parent, []).extend(self.pids)

    def work(self, env, pt):
        s = core.SIM
        while True:
            s.block(lambda: self.jobs or self.closed or self.parent in s.dead)
            if not self.jobs or self.parent in s.dead:
                return
            res, i, f, args = self.jobs.pop(0)
            try:
                q = getattr(f, "__qualname__", "")
                if isinstance(f, (types.FunctionType,)) and "<locals>" in q:
                    raise pickle.PicklingError("Can't pickle local object " + q)
                if env is not None and q in env and f is not None:
                    g = env[q]
                elif env is not None and f.__module__ == pt.__name__ and "." not in q and q not in env:
                    raise AttributeError("Can't get attribute %r" % q)
                elif env is None and f.__closure__:
                    raise AttributeError("Can't get attribute %r" % q)
                else:
                    g = f
                s.local.worker = True
                r = (True, cp(g(*[cp(a) for a in args])))
            except Exception as e:
                s.log("worker error", type(e).__name__, e)
                r = (False, e)
            s.point("result")
            res.put(i, r)

    def submit(self, f, argss):
        s = core.SIM
        s.point("submit")
        r = Result(len(argss))
        for i, a in enumerate(argss):
            self.jobs.append((r, i, f, a))
        return r

    def imap_unordered(self, f, it, chunksize=1):
        return self.submit(f, [(x,) for x in it]).unordered()

    def imap(self, f, it, chunksize=1):
        return self.submit(f, [(x,) for x in it]).in_order()

    def map(self, f, it, chunksize=None):
        return self.submit(f, [(x,) for x in it]).get()

    def map_async(self, f, it, *a, **k):
        return self.submit(f, [(x,) for x in it])

    def starmap(self, f, it, chunksize=None):
        return self.submit(f, [tuple(x) for x in it]).get()

    def starmap_async(self, f, it, *a, **k):
        return self.submit(f, [tuple(x) for x in it])

    def apply_async(self, f, args=(), *a, **k):
        return self.submit(f, [tuple(args)]).one()

    def close(self):
        self.closed = True

    def terminate(self):
        s = core.SIM
        s.point("pool-terminate")
        self.closed = self.dead = True
        self.jobs.clear()
        for p, t in zip(self.pids, self.tasks):
            if t.state != "done" and p not in s.dead:
                if t.state != "blocked":
                    s.probe("fault:worker-terminated")
                s.kill(p)
            s.point("pool-terminate")

    def join(self):
        core.SIM.block(lambda: all(t.state in ("done", "dead") for t in self.tasks))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def gone(pid):
    return all(t.state in ("done", "dead") for t in core.SIM.tasks if t.pid == pid)


CHILDREN, MODS = {}, {}


class Result:
    def __init__(self, n):
        self.n, self.done, self.order, self.single = n, {}, [], False

    def put(self, i, r):
        self.done[i] = r
        self.order.append(i)

    def one(self):
        self.single = True
        return self

    def value(self, i):
        ok, v = self.done[i]
        if not ok:
            raise v
        return v

    def unordered(self):
        for k in range(self.n):
            core.SIM.block(lambda: len(self.order) > k)
            yield self.value(self.order[k])

    def in_order(self):
        for i in range(self.n):
            core.SIM.block(lambda: i in self.done)
            yield self.value(i)

    def ready(self):
        core.SIM.point("ready")
        return len(self.done) == self.n

    def wait(self, timeout=None):
        if timeout is None:
            core.SIM.block(lambda: len(self.done) == self.n)
        elif len(self.done) < self.n:
            core.SIM.sleep(timeout * 1e6)

    def get(self, timeout=None):
        core.SIM.block(lambda: len(self.done) == self.n)
        r = [self.value(i) for i in range(self.n)]
        return r[0] if self.single else r


def install():
    import multiprocessing, multiprocessing.pool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.Pool = SimPool
    multiprocessing.get_context = lambda m=None: Ctx(m or core.SIM.plan.knobs.get("method", "fork"))
    multiprocessing.active_children = lambda: [types.SimpleNamespace(pid=1000 + c, name="worker%d" % c) for c in CHILDREN.get(core.SIM.task().pid, []) if c not in core.SIM.dead and not gone(c)]
    multiprocessing.get_start_method = lambda *a: core.SIM.plan.knobs.get("method", "fork")
