#!/usr/bin/env python3
"""gen|exec|plan|list, the same command line and output files as the C++ runner."""
import os, sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    exe = "/opt/veriftools/pyvenv/bin/python"
    if not os.path.exists(exe):
        exe = sys.executable
    os.execv(exe, [exe, "-B"] + sys.argv)

import gc, json, select, shutil, signal, tempfile, time, traceback

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pysim import core, stubs

TIME, MONO = time.time, time.monotonic
sys.path.insert(0, core.REPO)
SCEN = {}


def load():
    stubs.install()
    from pysim import fakepi
    m = fakepi.module()
    sys.modules["pairinteraction"] = m
    sys.modules["pairinteraction.pireal"], sys.modules["pairinteraction.picomplex"] = m.pireal, m.picomplex
    from pysim import c17, c18, c22, gui
    try:
        gui.app()
    except Exception:
        traceback.print_exc()
    SCEN.update({"gui": ("C17", 1.0, c17), "pipy": ("C18", 1.0, c18), "settings": ("C22", 1.0, c22)})
    sys.setswitchinterval(1000)
    gc.collect()
    gc.freeze()
    gc.disable()


def make_plan(prop, base, i, thorough):
    r = core.Rng(core.mix(base, i * 2 + 1))
    c = [(n, s) for n, s in SCEN.items() if s[0] == prop]
    name, s = r.pick(c)
    p = core.Plan()
    p.scenario, p.seed = name, r.next() >> 1
    s[2].generate(p, r, thorough)
    return p


def child(plan, scratch, fd, want_log):
    out = {"verdict": "error", "cls": "harness", "msg": "", "hash": "0", "points": 0, "switches": 0, "sim_us": 0, "steps": 0, "probes": {}, "sw": []}
    try:
        import builtins
        devnull = core._open(os.devnull, "w")
        os.chdir(scratch)
        sys.stdout = devnull
        s = core.Sim(plan, want_log)
        core.install(s, scratch)
        SCEN[plan.scenario][2].run(s, scratch)
        s.choose_first = True
        t = s.ready()[0]
        s.give(t)
        s.finished.acquire()
        out.update(zip(("verdict", "cls", "msg"), s.result))
        out.update(hash=s.h.hexdigest(), points=s.points, switches=s.switches, sim_us=s.now, steps=s.steps, probes=s.probes, sw=s.recorded[:200000])
        if want_log:
            core._open(want_log, "w").write("\n".join(s.loglines) + "\n")
    except BaseException:
        out["msg"] = traceback.format_exc()[-1500:]
    b = json.dumps(out).encode()
    try:
        while b:
            b = b[os.write(fd, b):]
    finally:
        os._exit(0)


def run_forked(plan, log=None, wall=60):
    # always the same path, so that everything in it has the same length and order
    scratch = os.path.join(SCRATCH, "run")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(wall)
        child(plan, scratch, w, log)
    os.close(w)
    b = b""
    t0 = MONO()
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        b += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return json.loads(b)
    except ValueError:
        c = "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash"
        return {"verdict": "inconclusive" if c == "hang" else "error", "cls": c, "msg": "status %d" % st, "hash": "0", "points": 0, "switches": 0,
                "sim_us": 0, "steps": 0, "probes": {}, "sw": []}


def worker(w, a, out, t0, stop):
    prop, base, seconds = a["property"], int(a.get("seed", 1)), float(a.get("seconds", 10))
    maxn, maxfail, n = int(a.get("max", 10**9)), int(a.get("max-failures", 4)), int(a.get("workers", 8))
    tot = dict.fromkeys(("runs", "violations", "errors", "inconclusive", "steps", "points", "switches", "sleeps", "sim_us"), 0)
    probes, rw, why, per, seen, sample, fails = {}, {}, {}, {}, set(), [], 0
    esc = lambda s: json.dumps(s)[1:-1]
    with core._open(os.path.join(out, "worker_%d.txt" % w), "w") as o:
        i = w
        while i < maxn and not os.path.exists(stop) and MONO() - t0 < seconds:
            p = make_plan(prop, base, i, "thorough" in a)
            r = run_forked(p)
            tot["runs"] += 1
            per[p.scenario] = per.get(p.scenario, 0) + 1
            if "hashes" in a:
                o.write("H %d %s %s\n" % (i, r["hash"], r["verdict"]))
            seen.add(r["hash"])
            for k in ("steps", "points", "switches", "sim_us"):
                tot[k] += r[k]
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
                rw[k] = rw.get(k, 0) + 1
            if i < 3:
                sample.append("S %d %s\n" % (i, esc(p.text()[:700])))
            if r["verdict"] == "inconclusive":
                tot["inconclusive"] += 1
                why[r["cls"]] = why.get(r["cls"], 0) + 1
            elif r["verdict"] in ("violation", "error"):
                tot["violations" if r["verdict"] == "violation" else "errors"] += 1
                b = os.path.join(out, "fail_%d" % i)
                core._open(b + ".seedplan", "w").write(p.text())
                p.explicit, p.sw = True, [tuple(x) for x in r["sw"]]
                core._open(b + ".plan", "w").write(p.text())
                o.write("F %d %s %s %s %s\n" % (i, r["verdict"], r["cls"], r["hash"], esc(r["msg"])))
                fails += 1
                if fails >= max(1, maxfail // 2):
                    core._open(stop, "w").close()
            i += n
        for k, v in tot.items():
            o.write("T %s %d\n" % (k, v))
        for k, v in probes.items():
            o.write("P %d %d %s\n" % (v, rw[k], k))
        for k, v in why.items():
            o.write("I %d %s\n" % (v, k))
        for k, v in per.items():
            o.write("C %d %s\n" % (v, k))
        o.writelines(sample)
        o.write("D " + " ".join(sorted(seen)) + "\n")


def main():
    global SCRATCH
    argv = sys.argv[1:]
    a, pos, i = {}, [], 0
    while i < len(argv):
        if argv[i].startswith("--"):
            k = argv[i][2:]
            if k in ("thorough", "hashes"):
                a[k] = 1
            else:
                a[k] = argv[i + 1]
                i += 1
        else:
            pos.append(argv[i])
        i += 1
    load()
    if pos[0] == "plan":
        sys.stdout.write(make_plan(a["property"], int(a.get("seed", 1)), int(a.get("index", 0)), "thorough" in a).text())
        return 0
    top = tempfile.mkdtemp(prefix="pysim_", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    try:
        if pos[0] == "exec":
            SCRATCH = os.path.join(top, "w00")
            r = run_forked(core.Plan(open(pos[1]).read()), os.path.abspath(a["log"]) if "log" in a else None)
            print(json.dumps({k: r[k] for k in ("verdict", "cls", "msg", "hash", "steps", "points")}))
            return 0
        t0, stop, pids = MONO(), os.path.join(top, "stop"), []
        for w in range(int(a.get("workers", 8))):
            pid = os.fork()
            if pid == 0:
                SCRATCH = os.path.join(top, "w%02d" % w)
                try:
                    worker(w, a, a["out"], t0, stop)
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        return 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
