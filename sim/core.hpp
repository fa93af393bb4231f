// Deterministic simulator: scheduler, plan, faults, probes, verdicts.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); } // inclusive
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plan
struct Fault {
    std::string cls;    // any | read | write | open | alloc | lock
    int pid = 0;        // process it applies to (0: every process)
    uint64_t nth = 0;   // fires at the nth (1-based) matching operation of that process
    uint64_t len = 1;   // ... and the following len-1 ones
    std::string action; // kill | torn | eio | enospc | short | emfile | enomem
    int64_t arg = 0;
};
struct Plan {
    std::string scenario;
    uint64_t seed = 0;
    std::map<std::string, std::string> knobs;
    std::vector<std::string> ops;
    std::vector<Fault> faults;
    bool explicit_sched = false;
    std::vector<std::pair<uint64_t, int>> switches; // scheduling point -> task
    double knob(const std::string &k, double dflt) const;
    std::string text() const;
    static Plan parse(const std::string &t);
};
extern Plan plan;

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char *name;
    const char *property;
    void (*generate)(Plan &, Rng &, bool thorough); // fill knobs, ops, faults from the seed
    void (*execute)(const Plan &);                  // run inside the simulator (task 0)
    double weight;
};
std::vector<Scenario> &scenarios();
struct Register {
    Register(Scenario s) { scenarios().push_back(s); }
};
// executed once in the parent before any run is forked (warm-up of pure, read-only reference data)
std::vector<void (*)()> &warmups();
struct Warmup {
    Warmup(void (*f)()) { warmups().push_back(f); }
};

extern std::string exec_plan; // text of the plan when a single one is executed, set before the warm-up

// ---------------------------------------------------------------- verdict
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void known_finding(const char *id, const char *fmt, ...); // listed finding hit; the run goes on
void probe(const char *name, uint64_t n = 1);
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // hashed, printed if verbose
void note(uint64_t v);                                                // hash only
bool verbose();

// ---------------------------------------------------------------- scheduler
enum Kind { K_MEM, K_SYNC, K_IO, K_OUT, K_YIELD };
struct Quiet { // inside: no scheduling points, no memory tracking, no faults
    Quiet();
    ~Quiet();
};
int &quiet_level(); // for harness code that calls into the code under test from inside a Quiet section
bool active();            // calling thread is a simulated task (and not Quiet)
bool on_task();           // calling thread is a simulated task
void point(Kind k);       // scheduling point
int self_task();
int self_pid();
uint64_t seq();           // global event sequence number (also counts as a tick)
int64_t now_us();
void advance_us(int64_t us);
void sleep_us(int64_t us);
void set_pid(int pid);    // move the calling task into another process (fork image continues)

int spawn(int pid, std::function<void()> fn); // new task in process pid
void join(int task);
enum class Exit { Running, Done, Exception, Aborted, Killed, ExitCall };
struct ProcInfo {
    Exit how = Exit::Running;
    int code = 0;
    std::string what;
};
int start_process(std::function<int()> fn); // returns pid
ProcInfo wait_process(int pid);
ProcInfo proc_info(int pid);
void kill_process(int pid);                // never returns if the caller belongs to pid
bool proc_alive(int pid);
void on_process_end(std::function<void(int pid, bool killed)> cb);
void set_end_deadlock_class(const char *cls);

// fault query used by the seams: counts one operation of class cls (and "any") by the calling
// process and returns the fault to apply, if any.
const Fault *fault_for(const char *cls, bool counts_as_any = true);
void fault_fired(const char *name, const char *action = ""); // allocates nothing that an injected failure could hit
uint64_t fault_count(); // faults fired so far
void faults_enable(bool on);
uint64_t io_count(int pid, const char *cls);

// happens-before edges for seams
void hb_acquire(const void *addr);
void hb_release(const void *addr);
void shadow_clear(const void *p, size_t n);

// stdout of simulated processes
void out_write(const char *p, size_t n);
std::string &proc_stdout(int pid);
void set_stdout_hook(std::function<void(int pid, const char *, size_t)> cb);

int runner_main(int argc, char **argv);
} // namespace sim
