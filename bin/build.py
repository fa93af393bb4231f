"""Builds the simulator binaries from /repo's current working tree (content-addressed object cache)."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PI = os.path.join(REPO, "pairinteraction")

SIM = ["sim/sched.cpp", "sim/locks.cpp", "sim/gomp.cpp", "sim/tsan.cpp", "sim/runner.cpp", "sim/simfs.cpp", "sim/simvfs.cpp"]
DEFS = ["-DNDEBUG", "-DWITH_GSL", "-DEIGEN_USE_BLAS", "-DEIGEN_USE_LAPACKE", "-DFMT_HEADER_ONLY=1",
        "-Dlapack_complex_float=std::complex<float>", "-Dlapack_complex_double=std::complex<double>"]
LIBS = ["-lsqlite3", "-lgsl", "-lgslcblas", "-lopenblas", "-llapacke", "-ldl", "-lpthread"]

# group -> scenario sources, repository sources (None: header-only), instrumented (-fsanitize=thread) or not
GROUPS = {
    "cache": dict(scen=["c01_cache"], repo=[], tsan=True),
    "sqlite": dict(scen=["c03_statements"], repo=[], tsan=True),
    "contention": dict(scen=["c04_contention"], repo=[], tsan=True),
    "defects": dict(scen=["c02_defects"], repo=["QuantumDefect.cpp"], tsan=True),
    "matrix": dict(scen=["c15_matrix"], repo=["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp"], tsan=True),
    "numerics": dict(scen=["c19_numerics"], repo=["Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "QuantumDefect.cpp", "StateOld.cpp", "State.cpp",
                                                  "MatrixElementCache.cpp"], tsan=True),
    "backend": dict(scen=["c10_backend"], repo=["Interface.cpp", "HamiltonianOne.cpp", "HamiltonianTwo.cpp", "MatrixElements.cpp", "Basisnames.cpp", "Hamiltonianmatrix.cpp",
                                                "ConfParser.cpp", "StateOld.cpp", "QuantumDefect.cpp", "Wavefunction.cpp"], tsan=True),
    "elements": dict(scen=["c05_elements"], repo=["MatrixElementCache.cpp", "State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "Wavefunction.cpp", "WignerD.cpp"], tsan=False),
    "system": dict(scen=["c20_system"], repo=["SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "GreenTensor.cpp", "MatrixElementCache.cpp", "State.cpp", "StateOld.cpp",
                                              "QuantumDefect.cpp", "Wavefunction.cpp", "WignerD.cpp"], tsan=False),
    "config": dict(scen=["c16_config"], repo=["ConfParser.cpp"], tsan=True),
}


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def filehash(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(p, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def write_if_changed(p, s):
    try:
        if open(p).read() == s:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp%d" % os.getpid()
    open(tmp, "w").write(s)
    os.replace(tmp, p)


def generated():
    """The headers that the project's CMake generates."""
    g = os.path.join(BUILD, "gen")
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def var(n, d):
        m = re.search(r'set\(%s\s+"([^"]*)"' % n, cm)
        return m.group(1) if m else d
    v = {"VERSION_SOFTWARE": var("VERSION_SOFTWARE_DEFAULT", "v0.0.0"), "VERSION_SETTINGS": var("VERSION_SETTINGS", "v18"),
         "VERSION_CACHE": var("VERSION_CACHE", "v18"),
         "QUANTUM_DEFECT_DATABASE_CONTENT": open(os.path.join(PI, "databases", "quantum_defects.sql")).read()}
    for f in glob.glob(os.path.join(PI, "*.hpp.in")):
        s = open(f).read()
        for k, x in v.items():
            s = s.replace("@%s@" % k, x)
        write_if_changed(os.path.join(g, os.path.basename(f)[:-3]), s)
    return g


def cxxconfig():
    """A copy of libstdc++'s configuration that does not leave templates to the library."""
    d = os.path.join(BUILD, "cxx")
    for f in glob.glob("/usr/include/*/c++/13/bits/c++config.h"):
        s = open(f).read()
        t = s.replace("# define _GLIBCXX_EXTERN_TEMPLATE 1", "# define _GLIBCXX_EXTERN_TEMPLATE 0", 1)
        write_if_changed(os.path.join(d, "bits", "c++config.h"), t)
    return d


def compile_one(src, flags, tag):
    obj_dir = os.path.join(BUILD, "obj")
    os.makedirs(obj_dir, exist_ok=True)
    cmd = ["g++"] + flags + ["-c", src]
    base = os.path.join(obj_dir, tag + "-" + hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:12])
    meta = base + ".json"
    if os.path.exists(meta) and os.path.exists(base + ".o"):
        try:
            d = json.load(open(meta))
            if all(filehash(p) == h for p, h in d.items()):
                return base + ".o", None, d
        except ValueError:
            pass
    r = sh(cmd + ["-MMD", "-MF", base + ".d", "-o", base + ".o"])
    if r.returncode != 0:
        return None, r.stdout, None
    deps = open(base + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    # headers of the system are fixed; everything below /repo and /verif is tracked
    d = {p: filehash(p) for p in sorted(set(os.path.abspath(x) for x in deps)) if p.startswith((REPO + "/", VERIF + "/"))}
    json.dump(d, open(meta, "w"))
    return base + ".o", None, d


def build(group):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(group)


def _build(group):
    g = GROUPS[group]
    gen = generated()
    inc = ["-I" + gen, "-I" + os.path.join(VERIF, "stub"), "-I" + PI, "-isystem", "/usr/include/eigen3"]
    san = ["-fsanitize=thread"] if g["tsan"] else []
    base = ["-std=c++17", "-g1", "-w", "-fopenmp"] + DEFS
    # strings and streams are instantiated here instead of in libstdc++.so, so that accesses to them are seen
    lib = ["-isystem", cxxconfig()] if g["tsan"] else []
    repo_flags = base + lib + [g.get("opt", "-O1")] + san + inc + g.get("flags", [])
    scen_flags = base + lib + ["-O1"] + san + inc + ["-I" + VERIF] + g.get("flags", [])
    sim_flags = base + ["-O2"] + inc + ["-I" + VERIF]
    t0 = time.time()

    def attempt(repo_srcs):
        jobs = []
        for s in g["scen"]:
            jobs.append((os.path.join(VERIF, "scen", s + ".cpp"), scen_flags, "scen_" + s, True))
        for s in repo_srcs:
            jobs.append((os.path.join(PI, s), repo_flags, "repo_" + s.replace("/", "_").replace(".cpp", ""), False))
        for s in SIM:
            p = os.path.join(VERIF, s)
            if os.path.exists(p):
                jobs.append((p, sim_flags, os.path.basename(s)[:-4], True))
        if repo_srcs:
            jobs.append((os.path.join(VERIF, "stub", "wigner.cpp"), sim_flags, "wigner", True))
        # long compiles first
        order = sorted(range(len(jobs)), key=lambda i: -WEIGHT.get(os.path.basename(jobs[i][0]), 5))
        res = [None] * len(jobs)

        def work(i):
            res[i] = compile_one(*jobs[i][:3])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(work, order))
        objs, deps = [], {}
        for j, (o, err, d) in zip(jobs, res):
            if o is None:
                raise RuntimeError("compiling %s failed:\n%s" % (j[0], err[-4000:]))
            objs.append(o)
            deps.update(d)
        h = hashlib.sha256(("\n".join(objs) + json.dumps(sorted(deps.items())) + " ".join(LIBS)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "sim_%s_%s" % (group, h))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BUILD, "sim_%s_*" % group)):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            r = sh(["g++", "-rdynamic"] + objs + ["-o", exe + ".tmp"] + LIBS)
            if r.returncode != 0:
                raise LookupError("linking failed:\n" + r.stdout[-4000:])
            os.replace(exe + ".tmp", exe)
        return exe, h

    try:
        exe, h = attempt(g["repo"])
    except LookupError:
        # the tree may have gained files since: link everything that is there
        everything = sorted(os.path.relpath(p, PI) for p in glob.glob(os.path.join(PI, "*.cpp")) if os.path.basename(p) != "main.cpp")
        try:
            exe, h = attempt(everything)
        except LookupError as e:
            raise RuntimeError(str(e))
    return exe, h, time.time() - t0


WEIGHT = {"SystemBase.cpp": 100, "SystemTwo.cpp": 60, "SystemOne.cpp": 58, "Hamiltonianmatrix.cpp": 30, "HamiltonianTwo.cpp": 28,
          "c20_system.cpp": 90, "c10_backend.cpp": 27}

if __name__ == "__main__":
    for grp in (sys.argv[1:] or list(GROUPS)):
        exe, h, dt = build(grp)
        print("%-10s %s (%.1f s)" % (grp, exe, dt), flush=True)
