#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "pairinteraction/"
prop("C01", "A value cache shared by threads behaves like one atomic map",
  "When several threads save to, read from and clear one shared value cache, every outcome must be explainable by some one-at-a-time order of those calls: a read returns exactly a value that was saved for that key and not cleared since, or nothing; the first save of a key wins and a second save is refused with an error and changes nothing. No call may crash, hang or touch the cache's memory unsynchronised.",
  ["schedules", "histories"], "every interleaving (at memory-access granularity) of save, restore and clear calls by any number of threads on any keys, including failing allocations during a save",
  "The tests run one fixed workload under whatever schedule the OS gives; a lost lock or a window between two steps of one call shows only under particular preemptions.",
  [D+"Cache.hpp"], [("Cache::save/restore/clear", D+"Cache.hpp")], ["return values and exceptions of save/restore/clear", "memory accesses to the map"])
prop("C02", "Concurrent quantum-defect lookups use exactly the requested database",
  "Looking up the quantum defect, effective principal quantum number, energy or model-potential parameters of a state returns the values that the database named in that very call defines for it, no matter what other threads look up at the same time, which other databases were used before or which earlier lookups failed. A lookup fails only when its own database cannot be read or has no entry for the state, and then it reports an error instead of returning anything; a later valid lookup works.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of lookups by any threads over any sequence of built-in and user databases, species and states, with database files missing, unreadable, cut short or replaced",
  "Tests look up a few states from one thread with one database; the shared lookup cache, its invalidation and the per-thread database handles only go wrong under interleavings, database switches or read faults.",
  [D+"QuantumDefect.cpp", D+"QuantumDefect.hpp", D+"Cache.hpp", D+"SQLite.hpp", D+"EmbeddedDatabase.hpp.in"],
  [("lookup and process-wide cache", D+"QuantumDefect.cpp"), ("database load", D+"QuantumDefect.cpp")],
  ["fields of QuantumDefect, energy_level(), nstar(), exceptions"])
prop("C03", "Database statements deliver exact rows and report every failure",
  "Running a query, by stepping or in a range loop, visits every row of the result exactly once, in order, with the stored values, however often the statement is reset, rebound, re-prepared or given a new query and whichever of those calls failed before. Every failure of the underlying database (syntax, constraint, lock, read or write fault, full disk) surfaces as an error from the call that hit it, and a failed or unfinished change never appears applied.",
  ["histories", "fault_sequences"], "all sequences of set, prepare, bind, step, reset, exec and iteration over result sets of any size, with storage faults at any point",
  "The tests read a two-row table once and without faults; row counts other than two, reuse after errors and faults during a step are never exercised.",
  [D+"SQLite.hpp"], [("statement life cycle", D+"SQLite.hpp"), ("range iteration", D+"SQLite.hpp")], ["rows, values and exceptions seen through the wrapper", "table contents read back by an independent connection"])
prop("C04", "Contended database access waits, makes progress and loses no update",
  "When several connections, in threads or processes, use one database file at once, a connection that finds it locked waits and retries until the lock is free instead of failing, also after the connection object has been moved; every change reported as successful is applied exactly once, and every request completes within bounded time once the lock holder lets go.",
  ["schedules", "fault_sequences"], "all schedules of lock acquisition, holding, release and holder death among any number of connections, moved or not",
  "The test starts a few threads once; how long locks are held, who is waiting when, and what moved-from connections leave behind depend on the schedule.",
  [D+"SQLite.hpp", D+"utils.hpp"], [("busy handler", D+"SQLite.hpp"), ("connection move", D+"SQLite.hpp"), ("random delay", D+"utils.hpp")], ["exceptions, committed rows, simulated waiting time"])
prop("C05", "Cached matrix elements equal freshly computed ones in every history",
  "A matrix element returned by the matrix-element cache depends only on the requested states, multipole order and the radial method in force, never on what was requested, precalculated or stored before, in which order, by which other cache object or process, or whether the values come from memory, from the cache file or are computed now. It always equals the value computed from scratch without any cache.",
  ["histories", "schedules", "configurations"], "all histories of queries, precalculations, method changes and restarts by one or several processes that share a cache directory",
  "Tests query a handful of elements with an empty cache; key collisions, swapped state order, sign handling and stored-value mix-ups appear only after particular histories.",
  [D+"MatrixElementCache.cpp", D+"MatrixElementCache.hpp", D+"SQLite.hpp"],
  [("cache keys and canonical order", D+"MatrixElementCache.cpp"), ("load/compute/store of missing elements", D+"MatrixElementCache.cpp"), ("precalculation", D+"MatrixElementCache.cpp")],
  ["values returned by getElectricDipole, getElectricMultipole, getMagneticDipole, getDiamagnetism, getRadial"])
prop("C06", "A failed matrix-element request leaves the cache usable and correct",
  "When a matrix-element request fails, because a state has no data, the cache file cannot be read or written, the disk is full or the file stays locked, the failure is reported as an error, and the same cache object afterwards serves every request that does not hit a fault itself, with correct values, and keeps storing to its file. No failed request leaves wrong or partial values in memory or in the file.",
  ["fault_sequences", "histories"], "all histories of valid and invalid requests with storage errors, full disk and lock timeouts injected at any database operation",
  "Unit tests never make the database fail in the middle of an update; the state left behind by an aborted update is invisible to them.",
  [D+"MatrixElementCache.cpp", D+"SQLite.hpp"], [("update of missing elements", D+"MatrixElementCache.cpp")], ["exceptions and values of later requests", "contents of the cache file"])
prop("C07", "The matrix-element cache file survives a kill at any moment",
  "If a process that uses a cache directory is killed at any instant, the cache file stays readable: the next process opens it without error, gets correct values for every matrix element and can add further ones, and everything stored by requests that had returned before the kill is still there.",
  ["crash_points", "histories"], "every crash point inside any storage operation of any history of requests, repeated over several restarts, with other processes running on the same directory",
  "A test cannot kill the process between two writes of one transaction; only a simulated disk can place the crash there.",
  [D+"MatrixElementCache.cpp", D+"MatrixElementCache.hpp", D+"SQLite.hpp"], [("journal and transaction settings", D+"MatrixElementCache.cpp"), ("store of new elements", D+"MatrixElementCache.cpp")], ["database integrity, values and errors after restart"])
prop("C08", "User-supplied atomic data never mix with built-in data",
  "Once a user-defined defect database or a table of dipole matrix elements is loaded into a matrix-element cache, that object's values follow the user's data (a dipole table counts for the radial method in force when it is loaded), whatever it had computed before; data that cannot be read are refused with an error; and the values derived from user data never reach the shared cache file, other cache objects or other processes, in any order of loading, querying, failing and restarting.",
  ["histories", "fault_sequences"], "all interleavings of queries, database switches, dipole-table loads and restarts over several cache objects sharing a directory, with unreadable or malformed user files",
  "Whether a stale or foreign value is returned depends on what was queried before the switch and by whom, which single-shot tests never vary.",
  [D+"MatrixElementCache.cpp", D+"QuantumDefect.cpp"], [("setDefectDB, loadElectricDipoleDB", D+"MatrixElementCache.cpp"), ("database switch", D+"QuantumDefect.cpp")], ["values returned by each object", "contents of the shared cache file"])
prop("C09", "Matrix-element caches survive transfer to worker processes",
  "A matrix-element cache that is serialised and restored, or carried into another process by fork, at any point of its life gives there exactly the results it would have given in the original process, with the same method, user data, cache directory and pending work, and a carried-over object never uses a database connection that another process opened. Serialised data that are cut short are refused with an error.",
  ["histories", "schedules", "fault_sequences"], "all points in the life of a cache object at which it is transferred, with both sides continuing concurrently on the same cache directory, and with truncated transfer data",
  "The multiprocessing test transfers one freshly built system once; lost fields and shared connections show only with particular prior histories and concurrent continuation.",
  [D+"MatrixElementCache.hpp", D+"MatrixElementCache.cpp", D+"State.hpp"],
  [("cache serialisation and reconnect", D+"MatrixElementCache.hpp"), ("connection check before each update", D+"MatrixElementCache.cpp")], ["values on both sides", "owner of each database connection", "errors on truncated data"])
prop("C10", "Backend results do not depend on what the cache directory holds",
  "For a given configuration the backend announces the same basis and the same eigenvalues and eigenvectors for every step, whether the cache directory is empty or holds results and matrix elements from any earlier calculations, including ones whose parameters differ only slightly. A stored result is reused only for exactly the parameters it was computed for.",
  ["histories", "configurations"], "all sequences of calculations with equal, similar and different configurations on one cache directory",
  "A wrong reuse needs a second, specially related configuration on the same directory; the integration tests always start from an empty one.",
  [D+"HamiltonianOne.cpp", D+"HamiltonianTwo.cpp", D+"MatrixElements.cpp", D+"ConfParser.hpp", D+"ConfParser.cpp", D+"Basisnames.cpp"],
  [("lookup of stored matrices", D+"HamiltonianOne.cpp"), ("lookup of stored pair matrices", D+"HamiltonianTwo.cpp"), ("stored matrix elements", D+"MatrixElements.cpp")], ["progress output and the matrix files it names"])
prop("C11", "The backend recovers from kills, damaged files and full disks",
  "If the backend is killed at any moment, or a write to the cache directory fails or is cut short, the next run on that directory completes with correct results: incomplete or damaged cached files are detected and recomputed, never used and never fatal. A run that announces successful completion has left a complete, correct file for every result it announced.",
  ["crash_points", "fault_sequences"], "every crash point and every write fault in the storage operations of a calculation, repeated over several runs on one directory",
  "No test interrupts the backend between or inside its file operations.",
  [D+"HamiltonianOne.cpp", D+"HamiltonianTwo.cpp", D+"Hamiltonianmatrix.cpp", D+"Serializable.hpp", D+"MatrixElements.cpp", D+"ConfParser.cpp"],
  [("store and reuse of matrices", D+"HamiltonianOne.cpp"), ("matrix file write/read", D+"Hamiltonianmatrix.cpp"), ("matrix element store", D+"MatrixElements.cpp")], ["exit status, progress output and matrix files of the following run"])
prop("C12", "Backend runs sharing a cache directory do not disturb each other",
  "Several backend processes that run at the same time on one cache directory, with equal or different configurations, all complete, and each announces results identical to those of running alone on an empty directory.",
  ["schedules", "histories"], "all interleavings of the file and database operations of concurrent backend processes",
  "Conflicts need two processes inside the same short look-up, insert or write window.",
  [D+"HamiltonianOne.cpp", D+"HamiltonianTwo.cpp", D+"MatrixElements.cpp", D+"SQLite.hpp"], [("registration of stored matrices", D+"HamiltonianOne.cpp"), ("registration of pair matrices", D+"HamiltonianTwo.cpp"), ("matrix element store", D+"MatrixElements.cpp")], ["exit status, progress output and matrix files of every process"])
prop("C13", "Backend results do not depend on thread count or schedule",
  "The backend computes the same basis, matrices, stored results and announcements for any number of threads and any interleaving of them, and its threads never touch shared data unsynchronised, fail or wait for each other forever.",
  ["schedules"], "all thread counts and all interleavings of the parallel steps of single-atom and pair calculations",
  "The test machine's schedule is one of very many, and most interleavings of a race are harmless.",
  [D+"HamiltonianOne.cpp", D+"HamiltonianTwo.cpp", D+"SQLite.hpp", D+"Cache.hpp"], [("parallel loop over steps", D+"HamiltonianOne.cpp"), ("parallel loops over symmetries and steps", D+"HamiltonianTwo.cpp")], ["matrix files, progress output, exit status"])
prop("C14", "The backend's progress output is complete, ordered and truthful",
  "The progress lines of a calculation can always be parsed line by line: the calculation type and basis come first, the announced total equals the number of result lines that follow, every step and block is announced exactly once with its own numbers and the path of a result that is already complete on disk, lines of different threads never mix, and the end line appears exactly when everything succeeded.",
  ["schedules", "fault_sequences"], "all interleavings of the parallel steps, warm and cold cache directories, and storage faults",
  "Which thread prints when, and what is on disk at that moment, depends on the schedule; tests look only at the final files.",
  [D+"Interface.cpp", D+"HamiltonianOne.cpp", D+"HamiltonianTwo.cpp"], [("progress lines", D+"HamiltonianOne.cpp"), ("pair progress lines", D+"HamiltonianTwo.cpp"), ("type and end lines", D+"Interface.cpp")], ["standard output, files on disk at the time of each line"])
prop("C15", "Matrix files read back exactly or are refused",
  "A matrix saved to a file and loaded again, after any sequence of operations on it, has exactly the same entries and basis, or the save or load reports failure; a file that is missing, cut short, structurally damaged or of the wrong kind is refused without crashing and leaves the object usable, and a save that could not write everything does not claim success.",
  ["fault_sequences", "crash_points", "histories"], "matrices of any shape and sparsity after any operations, with short, failed or torn writes and truncated or flipped files",
  "Tests never inspect the saved files, let alone with faults; special shapes and stale buffers need particular histories.",
  [D+"Hamiltonianmatrix.cpp", D+"Hamiltonianmatrix.hpp", D+"Serializable.hpp"], [("save/load", D+"Hamiltonianmatrix.cpp"), ("byte format", D+"Serializable.hpp")], ["return values, exceptions and matrix contents"])
prop("C16", "Configuration files read back exactly or report failure",
  "A configuration written to a file and read back compares equal to the original with every value unchanged, numbers included, and writing or reading reports an error when the file cannot be written completely, is missing, no longer well-formed or cut short; a failed read never leaves a half-read configuration that is taken for the real one.",
  ["fault_sequences", "histories"], "configurations of any content, with write and read faults and kills at any point",
  "The test saves and loads three fixed entries on a healthy disk.",
  [D+"ConfParser.hpp", D+"ConfParser.cpp"], [("save_to_json/load_from_json", D+"ConfParser.cpp"), ("value conversion", D+"ConfParser.hpp")], ["configuration contents and exceptions"])
prop("C17", "The GUI delivers every backend result once, in order, to its calculation",
  "Whatever the timing and chunking of the backend's output, the GUI's reader puts each announced result exactly once and in order on the queue of the calculation part it belongs to, keeps basis files and progress numbers consistent, and recognises the end. After an abort or a backend crash nothing of the old calculation is delivered to the next one.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of reader and consumer over all well-formed, cut-off and error outputs, aborts at any point and repeated calculations",
  "The GUI test needs a display and the backend and runs one calculation to the end.",
  ["pairinteraction_gui/worker.py"], [("Worker.run", "pairinteraction_gui/worker.py"), ("AllQueues.processOneLine", "pairinteraction_gui/worker.py")], ["queue contents, status fields, critical signal"])
prop("C18", "GUI calculation results on disk are complete or recomputed",
  "A step of a multi-process GUI calculation announces a result file only when it is complete and belongs to exactly that step's parameters, whatever worker was killed earlier, which writes failed, or which other workers run at the same time on the same cache directory; leftovers of an interrupted calculation are recomputed, never shown.",
  ["crash_points", "schedules", "fault_sequences"], "every kill point and write fault in the file operations of workers running concurrently over several calculations",
  "No test kills a worker while it writes.",
  ["pairinteraction_gui/pipy_thread.py", "pairinteraction_gui/pipy/config.py"], [("one_run", "pairinteraction_gui/pipy_thread.py"), ("terminate", "pairinteraction_gui/pipy_thread.py")], ["announced files and their content"])
prop("C19", "Numerical routines give the same answer whichever threads run them",
  "Wave functions, radial matrix elements, rotation matrices, Green tensors, quantum defects and state energies computed in one thread equal, bit for bit, what a lone thread computes, however many other threads compute at the same time and whatever was computed before; the routines share no unsynchronised state, and a failing allocation or computation in one thread does not affect another.",
  ["schedules", "fault_sequences"], "all interleavings of calls to the numerical routines by several threads",
  "Tests call each routine from one thread; hidden static state shows only when calls overlap.",
  [D+"Wavefunction.cpp", D+"Wavefunction.hpp", D+"WignerD.cpp", D+"QuantumDefect.cpp", D+"utils.hpp", D+"StateOld.cpp"], [("numerical routines", D+"Wavefunction.cpp"), ("rotation matrices", D+"WignerD.cpp"), ("random engine", D+"utils.hpp")], ["returned values and memory accesses"])
prop("C20", "A failed or repeated system build never changes the spectrum",
  "An atom or pair system yields the same basis, Hamiltonian and energies for the same final settings, whatever sequence of setting changes, restrictions, rotations, selections of basis vectors, combinations of systems, rebuilds, copies and queries led there, and also when earlier steps were interrupted by an error such as a failing cache file or a failing allocation: a retry after the error gives the result an undisturbed build would have given. A setting that is refused, or a restriction that cannot be applied, leaves the system as it was, and impossible settings are reported each time.",
  ["histories", "fault_sequences"], "all sequences of field, distance, restriction, symmetry, transformation and build calls with cache faults and failing allocations injected at any point",
  "Tests build each system once from scratch without faults.",
  [D+"SystemBase.cpp", D+"SystemBase.hpp", D+"SystemOne.cpp", D+"SystemTwo.cpp"], [("incremental building", D+"SystemBase.cpp"), ("single-atom interaction", D+"SystemOne.cpp"), ("pair interaction", D+"SystemTwo.cpp")], ["basis, Hamiltonian and energies"])
prop("C21", "A system continues identically after serialisation or fork",
  "An atom or pair system that is serialised at any point of its life and restored in another process, or carried into a forked process, continues there exactly like the original would: same settings, basis, interaction terms, Hamiltonian and results of all later changes, also when the original is changed meanwhile. Serialised data that were cut short are refused with an error.",
  ["histories", "fault_sequences"], "all points in the life of a system at which it can be serialised, restored or carried over, with faults before and after",
  "The serialisation test restores one system right after it was built and compares it once; it never changes the restored one.",
  [D+"SystemBase.hpp", D+"SystemOne.hpp", D+"SystemTwo.hpp", D+"serialization_eigen.hpp"], [("serialize", D+"SystemBase.hpp"), ("serialize", D+"SystemOne.hpp"), ("serialize", D+"SystemTwo.hpp"), ("sparse matrices", D+"serialization_eigen.hpp")], ["settings, basis and Hamiltonian of the restored system"])
prop("C22", "The GUI's saved settings and coefficients survive kills and failing disks",
  "Whenever the GUI program is killed, or a write fails or the disk is full while it saves, also with a second GUI program on the same directories, the next start succeeds without offering to delete anything and restores for the system, plot and view settings and for the chosen cache directory what the last completed save or one that was under way since has stored, never a mixture and never the defaults instead; settings reset or exported are exactly the defaults or the current ones; and every rotation (Wigner d) coefficient the GUI uses is the one a fresh computation gives, whatever coefficients were stored before by this or another program.",
  ["crash_points", "fault_sequences", "histories", "schedules"], "all sequences of starts, changes, saves, resets and ends of one or two GUI programs with kills and write faults at every file operation",
  "The GUI test starts one program in a clean directory and ends it regularly.",
  ["pairinteraction_gui/app.py", "pairinteraction_gui/utils.py"], [("MainWindow start and closeEvent", "pairinteraction_gui/app.py"), ("Wignerd", "pairinteraction_gui/utils.py")], ["restored settings, rotation coefficients"])
# --- pure functions of their input: not simulation targets -------------------
prop("C30", "The two radial integration methods agree with each other",
  "Radial matrix elements from Numerov integration and from Coulomb functions agree within numerical accuracy for all states where both are valid, and the wave functions are normalised and satisfy the radial equation.",
  ["inputs"], "all species, states and multipole orders", "Only sampled states are compared.",
  [D+"Wavefunction.cpp"], [("Numerov", D+"Wavefunction.cpp"), ("Whittaker", D+"Wavefunction.cpp")], ["returned integrals"])
prop("C31", "Angular algebra is correct for all quantum numbers",
  "Rotation matrices are unitary and compose correctly, and angular matrix elements obey the selection rules and symmetry relations for all half-integer quantum numbers.",
  ["inputs"], "all quantum numbers and angles", "Only sampled values are compared.",
  [D+"WignerD.cpp", D+"State.cpp"], [("Wigner d", D+"WignerD.cpp")], ["returned matrices"])
prop("C32", "Hamiltonians are Hermitian and respect imposed symmetries",
  "Every Hamiltonian built for an atom or pair system is Hermitian, symmetry-restricted bases are orthonormal and closed under the interaction, and restricting the basis never changes matrix elements between retained states.",
  ["inputs", "configurations"], "all species, bases, fields, distances and symmetries", "Reference data cover a few configurations.",
  [D+"SystemOne.cpp", D+"SystemTwo.cpp"], [("interaction building", D+"SystemTwo.cpp")], ["Hamiltonian"])
prop("C33", "Green-tensor and perturbative results have the right limits",
  "The interaction through a surface tends to the free-space interaction far from the surface, multipole orders scale with their power of the distance, and perturbative coefficients agree with exact diagonalisation in the weak limit.",
  ["inputs"], "all distances, angles and states", "Only one distance is compared.",
  [D+"GreenTensor.cpp", D+"PerturbativeInteraction.cpp"], [("Green tensor", D+"GreenTensor.cpp")], ["returned tensors and coefficients"])
prop("C34", "Unit conversions in the GUI are exact and reversible",
  "Converting a quantity between the GUI's units and atomic units and back returns the same quantity for every supported dimension, and plotted and exported values carry the announced unit.",
  ["inputs"], "all quantities, units and values", "Only defaults are exercised.",
  ["pairinteraction_gui/unitmanagement.py"], [("Quantity", "pairinteraction_gui/unitmanagement.py")], ["converted values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
