#include "core.hpp"
#include "internal.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

Plan plan;
Shared *sh = nullptr;
thread_local Task *self = nullptr;
thread_local int quiet = 0;
std::vector<Task *> tasks;
Task *running = nullptr;
static std::vector<std::unique_ptr<Proc>> procs;
static Rng sched_rng;
static int64_t clock_us = 0;
static uint64_t point_idx = 0, slice = 0, event_seq = 0, steps = 0;
static size_t replay_pos = 0;
static double p_sync, p_mem, p_io, p_conf;
static uint64_t mem_countdown = 0;
static uint64_t max_steps = 0;
static bool g_started = false;
bool g_shadow = false;
static bool g_faults_on = true;
static std::vector<std::function<void(int, bool)>> end_cbs;
static const char *deadlock_cls = "deadlock";
std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> v;
    return v;
}
std::vector<void (*)()> &warmups() {
    static std::vector<void (*)()> v;
    return v;
}

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}

int &quiet_level() { return quiet; }
Quiet::Quiet() { ++quiet; }
Quiet::~Quiet() { --quiet; }
bool active() { return self && !quiet && g_started; }
bool on_task() { return self && g_started; }
int self_task() { return self ? self->id : -1; }
int self_pid() { return self ? self->pid : 0; }
int64_t now_us() { return clock_us; }
void advance_us(int64_t us) { clock_us += us; }
uint64_t seq() { return ++event_seq; }
void set_end_deadlock_class(const char *c) { deadlock_cls = c; }
void faults_enable(bool on) { g_faults_on = on; }
void on_process_end(std::function<void(int, bool)> cb) { end_cbs.push_back(std::move(cb)); }

// ------------------------------------------------------------ hash, log
void note(uint64_t v) { sh->hash = mix(sh->hash, v); }
bool verbose() { return sh && sh->log_fd >= 0; }
static void emit(const char *s, size_t n) {
    if (sh->log_fd >= 0) {
        ssize_t r = syscall(SYS_write, sh->log_fd, s, n);
        (void)r;
    }
}
void log(const char *fmt, ...) {
    Quiet q;
    char buf[2048];
    int k = snprintf(buf, sizeof buf, "[%llu t=%lldus task%d pid%d] ", (unsigned long long)event_seq,
                     (long long)clock_us, self ? self->id : -1, self ? self->pid : 0);
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(buf + k, sizeof buf - k - 2, fmt, ap);
    va_end(ap);
    if (m > int(sizeof buf) - k - 3) m = int(sizeof buf) - k - 3;
    k += m;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < k; i++) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
    note(h);
    buf[k++] = '\n';
    emit(buf, k);
}
[[noreturn]] static void finish(int verdict) {
    sh->verdict = verdict;
    sh->sim_us = clock_us;
    sh->points = point_idx;
    sh->steps = steps;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void finish_ok() { finish(V_OK); }
void violation(const char *cls, const char *fmt, ...) {
    quiet++;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    log("VIOLATION %s: %s", cls, sh->msg);
    finish(V_VIOLATION);
}
void harness_error(const char *fmt, ...) {
    quiet++;
    snprintf(sh->cls, sizeof sh->cls, "harness-error");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    log("HARNESS ERROR: %s", sh->msg);
    finish(V_ERROR);
}
void inconclusive(const char *why) {
    snprintf(sh->cls, sizeof sh->cls, "%s", why);
    log("INCONCLUSIVE: %s", why);
    finish(V_INCONCLUSIVE);
}
void known_finding(const char *id, const char *fmt, ...) {
    Quiet q;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    log("known finding %s: %s", id, b);
    std::string nm = std::string("known:") + id;
    probe(nm.c_str());
}
void probe(const char *name, uint64_t n) {
    Quiet q;
    for (int i = 0; i < NPROBE; i++) {
        if (sh->probes[i].name[0] == 0) snprintf(sh->probes[i].name, sizeof sh->probes[i].name, "%s", name);
        if (strncmp(sh->probes[i].name, name, sizeof sh->probes[i].name - 1) == 0) {
            sh->probes[i].n += n;
            return;
        }
    }
}
static uint64_t n_fired = 0;
uint64_t fault_count() { return n_fired; }
void fault_fired(const char *kind, const char *action) {
    Quiet q;
    n_fired++;
    std::string name = std::string(kind) + action, nm = "fault:" + name;
    probe(nm.c_str());
    note(mix(0xFA, std::hash<std::string>()(name)));
    log("fault fired: %s", name.c_str());
}

// ------------------------------------------------------------ baton
static void futex_wait(std::atomic<int> &f, int val) { syscall(SYS_futex, (int *)&f, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0); }
static void futex_wake(std::atomic<int> &f) { syscall(SYS_futex, (int *)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void wait_baton(Task *t) {
    while (t->go.load(std::memory_order_acquire) == 0) futex_wait(t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void give(Task *t) {
    running = t;
    slice = 0;
    t->go.store(1, std::memory_order_release);
    futex_wake(t->go);
}
static void wake_due() {
    for (auto *t : tasks)
        if (t->st == Task::Sleeping && t->wake <= clock_us) t->st = Task::Runnable;
}
static int runnable_list(Task **out) {
    int n = 0;
    for (auto *t : tasks)
        if (t->st == Task::Runnable) out[n++] = t;
    return n;
}
static void switch_to(Task *t) {
    if (t == self) return;
    note(0x5C00 + t->id);
    if (verbose()) {
        char b[96];
        int k = snprintf(b, sizeof b, "    ~ switch task%d -> task%d at point %llu\n", self ? self->id : -1, t->id,
                         (unsigned long long)point_idx);
        emit(b, k);
    }
    sh->switches_done++;
    Task *me = self;
    give(t);
    wait_baton(me);
}
// choose among runnable tasks; cur may be null (must switch)
static Task *choose(Kind k, Task *cur, double p_switch) {
    Task *r[MAXTASK];
    int n = runnable_list(r);
    if (n == 0) return nullptr;
    if (n == 1) return r[0];
    uint64_t idx = k == K_MEM ? point_idx : ++point_idx; // memory points count themselves
    Task *dflt = nullptr;
    if (cur && cur->st == Task::Runnable && slice < 50000) dflt = cur;
    if (!dflt) { // next in id order after cur, deterministic
        int cid = cur ? cur->id : -1;
        for (int i = 0; i < n && !dflt; i++)
            if (r[i]->id > cid) dflt = r[i];
        if (!dflt) dflt = r[0];
    }
    Task *pick = dflt;
    if (plan.explicit_sched) {
        while (replay_pos < plan.switches.size() && plan.switches[replay_pos].first < idx) replay_pos++;
        if (replay_pos < plan.switches.size() && plan.switches[replay_pos].first == idx) {
            int want = plan.switches[replay_pos].second;
            for (int i = 0; i < n; i++)
                if (r[i]->id == want) pick = r[i];
        }
    } else {
        bool forced = !(cur && cur->st == Task::Runnable);
        if (forced || p_switch >= 1.0 || sched_rng.chance(p_switch)) {
            int j;
            if (forced) {
                j = int(sched_rng.below(n));
                pick = r[j];
            } else {
                // another one than cur
                int others = 0;
                for (int i = 0; i < n; i++)
                    if (r[i] != cur) others++;
                j = int(sched_rng.below(others));
                for (int i = 0; i < n; i++)
                    if (r[i] != cur && j-- == 0) { pick = r[i]; break; }
            }
        }
        if (pick != dflt && sh->nsw < MAXSW) {
            sh->sw[sh->nsw].pt = idx;
            sh->sw[sh->nsw].task = pick->id;
            sh->nsw++;
        } else if (pick != dflt)
            sh->sw_overflow = 1;
    }
    (void)k;
    return pick;
}
static void draw_mem_countdown() {
    if (p_mem <= 0) {
        mem_countdown = UINT64_MAX;
        return;
    }
    // geometric
    double u = sched_rng.unit();
    double g = p_mem >= 1 ? 1 : __builtin_ceil(__builtin_log(1 - u) / __builtin_log(1 - p_mem));
    mem_countdown = g < 1 ? 1 : uint64_t(g);
}
static int nlive = 0; // runnable count cache is not kept; cheap check by number of tasks not done
void mem_point(bool conflict) {
    // called on every tracked memory access of a task
    if (nlive <= 1) return;
    steps++;
    ++slice;
    ++point_idx;
    bool sw = false;
    if (plan.explicit_sched) {
        while (replay_pos < plan.switches.size() && plan.switches[replay_pos].first < point_idx) replay_pos++;
        sw = replay_pos < plan.switches.size() && plan.switches[replay_pos].first == point_idx;
    } else {
        if (mem_countdown != UINT64_MAX && --mem_countdown == 0) {
            sw = true;
            draw_mem_countdown();
        }
        if (!sw && conflict && p_conf > 0) sw = sched_rng.chance(p_conf);
    }
    if (!sw && slice < 50000) return;
    Quiet q;
    if (steps > max_steps) inconclusive("step-limit");
    Task *t = choose(K_MEM, self, 1.0);
    if (t && t != self) switch_to(t);
}
void point(Kind k) {
    if (!active()) return;
    Quiet q;
    steps++;
    slice += (k == K_YIELD) ? 50000 : 1;
    if (steps > max_steps) inconclusive("step-limit");
    clock_us += 1;
    wake_due();
    double p = k == K_IO ? p_io : k == K_OUT ? p_io : p_sync;
    Task *t = choose(k, self, k == K_YIELD ? 1.0 : p);
    if (t && t != self) switch_to(t);
}
static void schedule_away() { // self is not runnable
    for (;;) {
        Task *t = choose(K_SYNC, self, 1.0);
        if (t) {
            if (t == self) return;
            switch_to(t);
            return;
        }
        int64_t best = INT64_MAX;
        for (auto *x : tasks)
            if (x->st == Task::Sleeping && x->wake < best) best = x->wake;
        if (best == INT64_MAX) {
            char b[600];
            int k = 0;
            for (auto *x : tasks)
                if (x->st == Task::Blocked && k < 500)
                    k += snprintf(b + k, sizeof b - k, " task%d(pid%d, %s)", x->id, x->pid, x->why);
            violation(deadlock_cls, "no task can run; blocked:%s", b);
        }
        clock_us = best;
        wake_due();
    }
}
void block_on(const void *addr, const char *why) {
    self->st = Task::Blocked;
    self->wait_addr = addr;
    self->why = why;
    schedule_away();
}
void wake_addr(const void *addr, int max) {
    for (auto *t : tasks)
        if (t->st == Task::Blocked && t->wait_addr == addr && max-- > 0) t->st = Task::Runnable;
}
void sleep_us(int64_t us) {
    Quiet q;
    if (us < 0) us = 0;
    note(mix(0x51EE, us));
    steps++;
    if (steps > max_steps) inconclusive("step-limit");
    sh->sleeps++;
    self->st = Task::Sleeping;
    self->wake = clock_us + us;
    schedule_away();
}
// timed block: returns true if woken by address, false on timeout
bool block_on_timed(const void *addr, const char *why, int64_t us) {
    self->st = Task::Sleeping;
    self->wait_addr = addr;
    self->why = why;
    self->wake = clock_us + us;
    self->timed = true;
    schedule_away();
    bool to = self->timed;
    self->timed = false;
    return !to;
}
void wake_addr_timed(const void *addr, int max) {
    for (auto *t : tasks)
        if (t->st == Task::Sleeping && t->timed && t->wait_addr == addr && max-- > 0) {
            t->st = Task::Runnable;
            t->timed = false;
        }
}

// ------------------------------------------------------------ tasks
static pthread_key_t end_key;
static void task_end(void *v) {
    Task *t = (Task *)v;
    if (t->end_rounds++ < 1) { // let other TSD destructors run first
        pthread_setspecific(end_key, v);
        return;
    }
    quiet++;
    vc_release(&t->join_vc);
    t->st = Task::Done;
    nlive--;
    note(0xE000 + t->id);
    wake_addr(t, INT_MAX);
    Proc *p = procs[t->pid].get();
    if (--p->ntasks == 0 && p->info.how == Exit::Running) {
        p->info.how = Exit::Done;
        proc_over(t->pid, false);
    }
    self = nullptr;
    // hand over the baton
    Task *keep = t;
    self = keep; // schedule_away needs a cur for ordering
    for (;;) {
        Task *n = choose(K_SYNC, nullptr, 1.0);
        if (n) {
            self = nullptr;
            note(0x5C00 + n->id);
            give(n);
            return;
        }
        int64_t best = INT64_MAX;
        for (auto *x : tasks)
            if (x->st == Task::Sleeping && x->wake < best) best = x->wake;
        if (best == INT64_MAX) {
            std::string b;
            for (auto *x : tasks)
                if (x->st == Task::Blocked) b += " task" + std::to_string(x->id) + "(" + x->why + ")";
            violation(deadlock_cls, "no task can run; blocked:%s", b.c_str());
        }
        clock_us = best;
        wake_due();
    }
}
void proc_over(int pid, bool killed) {
    for (auto &cb : end_cbs) cb(pid, killed);
    wake_addr(procs[pid].get(), INT_MAX);
}
struct StartArg {
    Task *t;
    void *(*fn)(void *);
    void *arg;
};
static void *task_main(void *v) {
    StartArg a = *(StartArg *)v;
    delete (StartArg *)v;
    self = a.t;
    quiet++;
    wait_baton(a.t);
    pthread_setspecific(end_key, a.t);
    vc_acquire(&a.t->start_vc);
    {   // the stack may have belonged to an earlier thread
        char *sp = (char *)__builtin_frame_address(0);
        shadow_clear(sp - 60000, 60000);
    }
    quiet--;
    void *r = a.fn(a.arg);
    a.t->ret = r;
    return r;
}
extern "C" {
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
}
static create_t real_create() {
    static create_t f = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    return f;
}
static std::map<int, std::vector<int>> &free_ids() {
    static auto *m = new std::map<int, std::vector<int>>;
    return *m;
}
// the task was joined and its number may be used again
void release_task(Task *t) {
    if (t->st == Task::Done) free_ids()[t->pid].push_back(t->id);
}
Task *new_task(int pid, void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *attr) {
    Task *t = new Task;
    t->pid = pid;
    auto &ids = free_ids()[pid];
    if (ids.empty()) {
        if (tasks.size() >= MAXTASK) harness_error("too many tasks");
        t->id = int(tasks.size());
        t->vc[t->id] = 1;
        tasks.push_back(t);
    } else { // the number of a joined worker of the same process; its clock goes on
        t->id = ids.back();
        ids.pop_back();
        t->vc[t->id] = tasks[t->id]->vc[t->id] + 1;
        tasks[t->id] = t;
    }
    nlive++;
    procs[pid]->ntasks++;
    vc_release(&t->start_vc);
    note(0xC000 + t->id);
    StartArg *a = new StartArg{t, fn, arg};
    pthread_t th;
    if (real_create()(&th, attr, task_main, a) != 0) harness_error("pthread_create failed");
    t->th = th;
    if (out) *out = th;
    t->st = Task::Runnable;
    return t;
}
static void *fn_tramp(void *v) {
    std::unique_ptr<std::function<void()>> f((std::function<void()> *)v);
    (*f)();
    return nullptr;
}
int spawn(int pid, std::function<void()> fn) {
    Task *t;
    {
        Quiet q;
        t = new_task(pid, fn_tramp, new std::function<void()>(std::move(fn)), nullptr, nullptr);
    }
    point(K_SYNC);
    return t->id;
}
void join(int id) {
    Task *t = tasks[id];
    point(K_SYNC);
    {
        Quiet q;
        while (t->st != Task::Done && t->st != Task::Crashed) block_on(t, "join");
        vc_acquire(&t->join_vc);
    }
}
// ------------------------------------------------------------ processes
int start_process(std::function<int()> fn) {
    int pid;
    {
        Quiet q;
        pid = int(procs.size());
        procs.emplace_back(new Proc);
        log("process pid%d starts", pid);
    }
    spawn(pid, [pid, fn]() {
        int code = 0;
        Proc *p = procs[pid].get();
        try {
            code = fn();
        } catch (std::exception &e) {
            Quiet q;
            p->info.how = Exit::Exception;
            p->info.what = e.what();
        } catch (const char *m) {
            Quiet q;
            p->info.how = Exit::Exception;
            p->info.what = m;
        }
        Quiet q;
        p->info.code = code;
        if (p->info.how == Exit::Exception) {
            log("process pid%d ends with exception: %s", pid, p->info.what.c_str());
            proc_over(pid, false);
        } else if (p->info.how == Exit::Running) {
            log("process pid%d ends with code %d", pid, code);
            p->info.how = Exit::Done;
            proc_over(pid, false);
        }
    });
    return pid;
}
ProcInfo proc_info(int pid) { return procs[pid]->info; }
bool proc_alive(int pid) { return procs[pid]->info.how == Exit::Running; }
ProcInfo wait_process(int pid) {
    Quiet q;
    while (procs[pid]->info.how == Exit::Running) block_on(procs[pid].get(), "wait for process");
    // let remaining tasks of a normally ended process drain
    if (procs[pid]->info.how == Exit::Done || procs[pid]->info.how == Exit::Exception) {
        for (auto *t : tasks)
            if (t->pid == pid)
                while (t->st != Task::Done && t->st != Task::Crashed) block_on(t, "drain process");
    }
    for (auto *t : tasks)
        if (t->pid == pid) vc_acquire(&t->join_vc);
    return procs[pid]->info;
}
static void end_process(int pid, Exit how, int code, const std::string &what) {
    Quiet q;
    Proc *p = procs[pid].get();
    if (p->info.how == Exit::Running) {
        p->info.how = how;
        p->info.code = code;
        p->info.what = what;
        log("process pid%d %s %s", pid, how == Exit::Killed ? "killed" : how == Exit::Aborted ? "aborted" : "exits",
            what.c_str());
    }
    for (auto *t : tasks)
        if (t->pid == pid && t->st != Task::Done && t->st != Task::Crashed) {
            if (t->st != Task::Done) nlive--;
            t->st = Task::Crashed;
            wake_addr(t, INT_MAX);
        }
    release_locks_of(pid);
    proc_over(pid, how != Exit::ExitCall);
    if (self && self->pid == pid) {
        schedule_away();
        for (;;) pause();
    }
}
void kill_process(int pid) { end_process(pid, Exit::Killed, 137, ""); }
void abort_process(const std::string &what) { end_process(self->pid, Exit::Aborted, 134, what); }
void exit_process(int code) { end_process(self->pid, Exit::ExitCall, code, ""); }
void set_pid(int pid) {
    while (int(procs.size()) <= pid) procs.emplace_back(new Proc);
    procs[self->pid]->ntasks--;
    procs[pid]->ntasks++;
    self->pid = pid;
}
int new_pid() {
    procs.emplace_back(new Proc);
    return int(procs.size()) - 1;
}
std::string &proc_stdout(int pid) { return procs[pid]->out; }
static std::function<void(int, const char *, size_t)> out_hook;
void set_stdout_hook(std::function<void(int, const char *, size_t)> cb) { out_hook = std::move(cb); }
void out_write(const char *p, size_t n) {
    if (!on_task()) {
        ssize_t r = syscall(SYS_write, 1, p, n);
        (void)r;
        return;
    }
    {
        Quiet q;
        procs[self->pid]->out.append(p, n);
        if (verbose()) {
            std::string s = "    | pid" + std::to_string(self->pid) + ": ";
            s.append(p, n);
            if (s.back() != '\n') s += '\n';
            emit(s.data(), s.size());
        }
        if (out_hook) out_hook(self->pid, p, n);
    }
    point(K_OUT);
}

static void on_terminate() {
    std::string what = "terminate";
    ++quiet;
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (std::exception &x) {
            what = std::string("uncaught exception: ") + x.what();
        } catch (...) {
            what = "uncaught exception";
        }
    }
    if (on_task() && self->pid != 0) {
        abort_process(what);
    }
    violation("abort", "program terminated: %s", what.c_str());
}

// ------------------------------------------------------------ faults
uint64_t io_count(int pid, const char *cls) { return procs[pid]->counts[cls]; }
const Fault *fault_for(const char *cls, bool any) {
    if (!self || quiet > 0 || !g_faults_on) return nullptr;
    Quiet q;
    Proc *p = procs[self->pid].get();
    uint64_t c = ++p->counts[cls];
    uint64_t a = any ? ++p->counts["any"] : 0;
    for (auto &f : plan.faults) {
        if (f.pid && f.pid != self->pid) continue;
        if (!f.pid && self->pid == 0) continue;
        uint64_t v = f.cls == cls ? c : (any && f.cls == "any") ? a : 0;
        if (v >= f.nth && v < f.nth + f.len && v) return &f;
    }
    return nullptr;
}

// ------------------------------------------------------------ vector clocks
void vc_release(VC *to) {
    if (!self || !g_shadow) return;
    for (int i = 0; i < MAXTASK; i++)
        if (self->vc[i] > (*to)[i]) (*to)[i] = self->vc[i];
    self->vc[self->id]++;
}
void vc_acquire(const VC *from) {
    if (!self || !g_shadow) return;
    for (int i = 0; i < MAXTASK; i++)
        if ((*from)[i] > self->vc[i]) self->vc[i] = (*from)[i];
}
static std::unordered_map<const void *, VC> *hbmap() {
    static auto *m = new std::unordered_map<const void *, VC>;
    return m;
}
void hb_acquire(const void *a) {
    if (!self || !g_shadow) return;
    Quiet q;
    vc_acquire(&(*hbmap())[a]);
}
void hb_release(const void *a) {
    if (!self || !g_shadow) return;
    Quiet q;
    vc_release(&(*hbmap())[a]);
}

// ------------------------------------------------------------ run
double Plan::knob(const std::string &k, double d) const {
    auto it = knobs.find(k);
    return it == knobs.end() ? d : atof(it->second.c_str());
}
void run_in_child(const Scenario &sc) {
    quiet++;
    std::set_terminate(on_terminate);
    pthread_key_create(&end_key, task_end);
    procs.emplace_back(new Proc);
    Task *t = new Task;
    t->id = 0;
    t->pid = 0;
    t->vc[0] = 1;
    t->st = Task::Runnable;
    t->th = pthread_self();
    tasks.push_back(t);
    nlive = 1;
    procs[0]->ntasks = 1;
    sched_rng = Rng(mix(plan.seed, 0x5ced));
    p_sync = plan.knob("p_sync", 0.2);
    p_mem = plan.knob("p_mem", 0);
    p_io = plan.knob("p_io", 0.1);
    p_conf = plan.knob("p_conf", 0);
    g_shadow = plan.knob("shadow", 0) != 0;
    max_steps = uint64_t(plan.knob("max_steps", 20000000));
    draw_mem_countdown();
    sh->hash = mix(plan.seed, 1);
    self = t;
    running = t;
    g_started = true;
    quiet--;
    sc.execute(plan);
    quiet++;
    finish_ok();
}
} // namespace sim
