"""Per property: which simulator binary decides it, how long it searches, what is real and what is not."""
_BACKEND = ("the whole backend: Interface.cpp, HamiltonianOne.cpp, HamiltonianTwo.cpp, Hamiltonianmatrix.cpp, MatrixElements.cpp, Basisnames.cpp, StateOld.cpp, "
            "ConfParser.cpp, Wavefunction.cpp, QuantumDefect.cpp, SQLite.hpp, libsqlite3, Eigen, LAPACK, GSL, libstdc++ file system and streams")
_BSTUB = ("OpenMP runtime (simulated threads), thread scheduler and locks, file system and SQLite's operating-system layer (in memory, with faults, kills and damage), "
          "clock, random numbers, operator new (fault injection), processes")
_ELEM = ("MatrixElementCache.cpp, MatrixElementCache.hpp, State.cpp, StateOld.cpp, QuantumDefect.cpp, Wavefunction.cpp, WignerD.cpp, SQLite.hpp, libsqlite3, GSL, "
         "cereal, libstdc++ streams")
_ESTUB = ("scheduler and locks, file system and SQLite's operating-system layer (in memory, with faults, kills and damage), clock, operator new (fault injection), "
          "processes and fork, the wignerSymbols submodule (exact Racah formulas)")
PROPS = {
    "C01": dict(group="cache", quick=25, thorough=600,
                rule="Non-trivial: at least two client threads with at least four calls.",
                real="Cache.hpp (compiled from the tree), libstdc++ containers and std::thread",
                stub="thread scheduler and pthread locks (simulated), operator new (fault injection)"),
    "C02": dict(group="defects", quick=30, thorough=600,
                rule="Non-trivial: lookups in at least two databases.",
                real="QuantumDefect.cpp, Cache.hpp, SQLite.hpp, the embedded database, libsqlite3, libstdc++ streams",
                stub="thread scheduler and locks (simulated), file system (in memory, with faults), operator new (fault injection)"),
    "C03": dict(group="sqlite", quick=30, thorough=600,
                rule="Non-trivial: at least six statement operations on one connection.",
                real="SQLite.hpp (compiled from the tree), libsqlite3",
                stub="SQLite's operating-system layer and the disk (in memory, with faults and kills), clock, locks"),
    "C04": dict(group="contention", quick=30, thorough=600,
                rule="Non-trivial: at least two connections that each change the file.",
                real="SQLite.hpp, utils.hpp (compiled from the tree), libsqlite3",
                stub="SQLite's operating-system layer, file locks and the disk (in memory, with faults and kills), clock, threads, processes"),
    "C05": dict(group="elements", quick=35, thorough=600, rule="Non-trivial: at least six requests.", real=_ELEM, stub=_ESTUB),
    "C06": dict(group="elements", quick=35, thorough=600, rule="Non-trivial: at least six requests.", real=_ELEM, stub=_ESTUB),
    "C07": dict(group="elements", quick=35, thorough=600, rule="Non-trivial: at least six requests.", real=_ELEM, stub=_ESTUB),
    "C08": dict(group="elements", quick=35, thorough=600, rule="Non-trivial: at least six requests.", real=_ELEM, stub=_ESTUB),
    "C09": dict(group="elements", quick=35, thorough=600, rule="Non-trivial: at least six requests.", real=_ELEM, stub=_ESTUB),
    "C10": dict(group="backend", quick=60, thorough=900, rule="Non-trivial: at least two backend runs on one cache directory.", real=_BACKEND, stub=_BSTUB),
    "C11": dict(group="backend", quick=70, thorough=900, rule="Non-trivial: at least two backend runs on one cache directory.", real=_BACKEND, stub=_BSTUB),
    "C12": dict(group="backend", quick=70, thorough=900, rule="Non-trivial: at least two backend processes that run at the same time.", real=_BACKEND, stub=_BSTUB),
    "C13": dict(group="backend", quick=70, thorough=900, rule="Non-trivial: at least two threads in a backend run.", real=_BACKEND, stub=_BSTUB),
    "C14": dict(group="backend", quick=60, thorough=900, rule="Non-trivial: at least one backend run.", real=_BACKEND, stub=_BSTUB),
    "C15": dict(group="matrix", quick=25, thorough=500,
                rule="Non-trivial: at least one save or load.",
                real="Hamiltonianmatrix.cpp, Hamiltonianmatrix.hpp, Serializable.hpp, Eigen, LAPACK",
                stub="file system (in memory, with faults, kills and damage), operator new (fault injection), processes"),
    "C16": dict(group="config", quick=25, thorough=400,
                rule="Non-trivial: at least one save or load.",
                real="ConfParser.hpp, ConfParser.cpp, Boost property_tree, libstdc++ streams",
                stub="file system (in memory, with faults, kills and damage), operator new (fault injection), processes"),
    "C17": dict(python="pysim/main.py", quick=20, thorough=400, determinism=32,
                rule="Non-trivial: at least one calculation that was started in the GUI.",
                real="worker.py (Worker, AllQueues), app.py (createThread, abortCalculation, cleanupProcesses, threadIsRunning, threadFinished, closeEvent), "
                     "io.BufferedReader, queue.Queue",
                stub="PyQt5 (threads, signals, timer, widgets), the backend process and its pipe, the start of a calculation and the drawing in checkForData"),
    "C18": dict(python="pysim/main.py", quick=45, thorough=600, determinism=24,
                rule="Non-trivial: at least one calculation that was started in the GUI.",
                real="pipy_thread.py, pipy/atom.py, pipy/config.py, worker.py (AllQueues), app.py (createThread, abortCalculation, cleanupProcesses, threadIsRunning, threadFinished)",
                stub="the compiled pairinteraction module (spectra are hashes of the settings), multiprocessing.Pool (tasks that share no objects), PyQt5, "
                     "file operations (on a scratch directory, with faults and kills), the drawing in checkForData"),
    "C22": dict(python="pysim/main.py", quick=40, thorough=400, determinism=24,
                rule="Non-trivial: at least one start of the program that came up.",
                real="app.py (start of MainWindow, load/saveSettings*, closeEvent, changeCacheDirectory, clearCache, resetSConf, resetPConf), utils.py (Wignerd), unitmanagement.py, "
                     "json, pickle",
                stub="PyQt5 widgets and dialogs (values only, every question is answered with OK), plotting, the databases of the elements, "
                     "file operations (on a scratch directory, with faults and kills), process identity"),
    "C19": dict(group="numerics", quick=30, thorough=600,
                rule="Non-trivial: at least two threads that compute.",
                real="Wavefunction.cpp, WignerD.cpp, GreenTensor.cpp, QuantumDefect.cpp, State.cpp, StateOld.cpp, utils.hpp, Cache.hpp, SQLite.hpp, libsqlite3, GSL, Eigen, Boost.Math",
                stub="thread scheduler and locks (simulated), operator new (fault injection)"),
}

_SYS = ("SystemBase.cpp, SystemOne.cpp, SystemTwo.cpp, their headers, serialization_eigen.hpp, MatrixElementCache.cpp, GreenTensor.cpp, State.cpp, StateOld.cpp, QuantumDefect.cpp, "
        "Wavefunction.cpp, WignerD.cpp, SQLite.hpp, libsqlite3, Eigen, LAPACK, GSL, cereal, libstdc++ streams")
for _p in ("C20", "C21"):
    PROPS[_p] = dict(group="system", quick=50 if _p == "C20" else 40, thorough=900, rule="Non-trivial: at least one system whose basis was built.", real=_SYS, stub=_ESTUB)

_PURE = "a pure function of its arguments: no schedule, clock, fault, I/O or interleaving takes part, so there is nothing to simulate; "
NOT_APPLICABLE = {
    "C30": _PURE + "agreement of two integration methods is a question of numerical analysis",
    "C31": _PURE + "angular algebra is a question for algebraic or property-based testing",
    "C32": _PURE + "Hermiticity and closure under symmetry are algebraic facts about one sequential computation",
    "C33": _PURE + "limits of the Green tensor and of perturbation theory are numerical facts about one sequential computation",
    "C34": _PURE + "unit conversion is sequential arithmetic (and needs the absent pint package)",
}
