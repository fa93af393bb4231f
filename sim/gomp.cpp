// A small OpenMP runtime with the libgomp ABI whose threads are simulated tasks.
#include "internal.hpp"
#include <climits>
#include <cstdlib>
#include <map>
#include <memory>
#include <omp.h>

using namespace sim;
namespace sim {
struct Loop {
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool up = true, ull = false, guided = false;
    int done = 0;
    int nthreads = 1;
    long ordered_next = 0;
};
struct Team {
    int n = 1;
    Team *parent = nullptr;
    int pnum = 0;
    int bar_count = 0;
    uint64_t bar_gen = 0;
    VC bar_vc;
    int singles = 0;
    std::map<int, Loop> loops;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
};
struct Crit {
    Task *owner = nullptr;
    VC vc;
};
static std::map<std::pair<int, const void *>, Crit> &crits() {
    static auto *m = new std::map<std::pair<int, const void *>, Crit>;
    return *m;
}
void gomp_forget(int pid) {
    for (auto &kv : crits())
        if (kv.first.first == pid) kv.second.owner = nullptr;
}
static int g_set_threads = 0;
static int default_threads() { return g_set_threads ? g_set_threads : int(plan.knob("omp_threads", 2)); }
static void crit_enter(const void *name) {
    if (quiet) return; // an oracle that looks at the code's results, not the code
    point(K_SYNC);
    Quiet q;
    int pid = self ? self->pid : 0;
    for (;;) {
        Crit &c = crits()[{pid, name}];
        if (!c.owner) {
            c.owner = self;
            vc_acquire(&c.vc);
            return;
        }
        probe("omp_critical_contended");
        block_on(&c, "omp critical");
    }
}
static void crit_exit(const void *name) {
    if (quiet) return;
    {
        Quiet q;
        Crit &c = crits()[{self ? self->pid : 0, name}];
        vc_release(&c.vc);
        c.owner = nullptr;
        wake_addr(&c, INT_MAX);
    }
    point(K_SYNC);
}
static void barrier(Team *t) {
    point(K_SYNC);
    Quiet q;
    if (!t || t->n == 1) return;
    vc_release(&t->bar_vc);
    uint64_t g = t->bar_gen;
    if (++t->bar_count == t->n) {
        t->bar_count = 0;
        t->bar_gen++;
        wake_addr(&t->bar_gen, INT_MAX);
    } else
        while (t->bar_gen == g) block_on(&t->bar_gen, "omp barrier");
    vc_acquire(&t->bar_vc);
}
struct WArg {
    Team *t;
    int num;
};
static void *worker(void *v) noexcept {
    WArg a = *(WArg *)v;
    {
        Quiet q;
        delete (WArg *)v;
        self->team = a.t;
        self->omp_num = a.num;
        self->omp_loop = self->omp_single = 0;
    }
    a.t->fn(a.t->data);
    return nullptr;
}
static Loop *loop_enter(long start, long end, long incr, long chunk, bool guided) {
    Team *t = self->team;
    static Team solo;
    if (!t) t = self->team = new Team;
    Loop &l = t->loops[self->omp_loop];
    if (l.nthreads == 1 && l.done == 0 && l.end == 0 && l.next == 0 && l.ordered_next == 0) {
        l.next = start;
        l.end = end;
        l.incr = incr;
        l.chunk = chunk > 0 ? chunk : 1;
        l.guided = guided;
        l.nthreads = t->n;
        l.ordered_next = start;
    }
    return &l;
}
static bool loop_next(long *istart, long *iend) {
    point(K_SYNC);
    Quiet q;
    Loop &l = self->team->loops[self->omp_loop];
    hb_acquire(&l);
    hb_release(&l);
    long total = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
    if (total <= 0) return false;
    long c = l.chunk;
    if (l.guided) c = std::max(c, (total + l.nthreads - 1) / l.nthreads);
    if (c > total) c = total;
    *istart = l.next;
    l.next += c * l.incr;
    *iend = l.next;
    if ((l.incr > 0 && *iend > l.end) || (l.incr < 0 && *iend < l.end)) *iend = l.end;
    return true;
}
static void loop_leave() { self->omp_loop++; }
} // namespace sim

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned) {
    if (!on_task()) {
        fn(data);
        return;
    }
    Team *old = self->team;
    int oldnum = self->omp_num, ol = self->omp_loop, os = self->omp_single;
    Team *t;
    std::vector<Task *> ws;
    {
        Quiet q;
        t = new Team;
        t->n = num_threads ? int(num_threads) : default_threads();
        if (old && old->n > 1) t->n = 1; // nested parallelism is off by default
        t->fn = fn;
        t->data = data;
        t->parent = old;
        self->team = t;
        self->omp_num = 0;
        self->omp_loop = self->omp_single = 0;
        for (int i = 1; i < t->n; i++) ws.push_back(new_task(self->pid, worker, new WArg{t, i}, nullptr, nullptr));
        if (t->n > 1) probe("omp_parallel_region");
    }
    point(K_SYNC);
    [&]() noexcept { fn(data); }();
    point(K_SYNC);
    {
        Quiet q;
        for (auto *w : ws) {
            while (w->st != Task::Done && w->st != Task::Crashed) block_on(w, "omp join");
            vc_acquire(&w->join_vc);
        }
        for (auto it = ws.rbegin(); it != ws.rend(); ++it) release_task(*it);
        self->team = old;
        self->omp_num = oldnum;
        self->omp_loop = ol;
        self->omp_single = os;
    }
}
void GOMP_barrier(void) {
    if (on_task()) barrier(self->team);
}
static char unnamed_key, atomic_key;
void GOMP_critical_start(void) {
    if (on_task()) crit_enter(&unnamed_key);
}
void GOMP_critical_end(void) {
    if (on_task()) crit_exit(&unnamed_key);
}
void GOMP_critical_name_start(void **p) {
    if (on_task()) crit_enter(p);
}
void GOMP_critical_name_end(void **p) {
    if (on_task()) crit_exit(p);
}
void GOMP_atomic_start(void) {
    if (on_task()) crit_enter(&atomic_key);
}
void GOMP_atomic_end(void) {
    if (on_task()) crit_exit(&atomic_key);
}
bool GOMP_single_start(void) {
    if (!on_task() || !self->team) return true;
    point(K_SYNC);
    return self->omp_single++ == self->team->singles ? (self->team->singles++, true) : false;
}
#define LOOPFAM(NAME, GUIDED)                                                                        \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) {               \
        if (!on_task()) {                                                                           \
            *a = s;                                                                                 \
            *b = e;                                                                                 \
            return s < e;                                                                           \
        }                                                                                           \
        {                                                                                           \
            Quiet q;                                                                                \
            loop_enter(s, e, i, c, GUIDED);                                                         \
        }                                                                                           \
        return loop_next(a, b);                                                                     \
    }                                                                                               \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return on_task() ? loop_next(a, b) : false; }  \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, \
                                   long c, unsigned f) {                                            \
        pending_loop(s, e, i, c, GUIDED, fn, d, n, f);                                              \
    }
struct PL {
    void (*fn)(void *);
    void *d;
    long s, e, i, c;
    bool g;
};
static void pl_tramp(void *v) {
    PL *p = (PL *)v;
    if (on_task()) {
        Quiet q;
        loop_enter(p->s, p->e, p->i, p->c, p->g);
    }
    p->fn(p->d);
}
static void pending_loop(long s, long e, long i, long c, bool g, void (*fn)(void *), void *d, unsigned n, unsigned f) {
    PL p{fn, d, s, e, i, c, g};
    GOMP_parallel(pl_tramp, &p, n, f);
}
LOOPFAM(dynamic, false)
LOOPFAM(guided, true)
LOOPFAM(static, false)
LOOPFAM(nonmonotonic_dynamic, false)
LOOPFAM(nonmonotonic_guided, true)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { pending_loop(s, e, i, 1, false, fn, d, n, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { pending_loop(s, e, i, 1, false, fn, d, n, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { pending_loop(s, e, i, 1, false, fn, d, n, f); }
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) {
    return GOMP_loop_dynamic_start(long(s), long(e), long(i), long(c), (long *)a, (long *)b);
}
bool GOMP_loop_ull_dynamic_next(ull *a, ull *b) { return GOMP_loop_dynamic_next((long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) {
    return GOMP_loop_dynamic_start(long(s), long(e), long(i), long(c), (long *)a, (long *)b);
}
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *a, ull *b) { return GOMP_loop_dynamic_next((long *)a, (long *)b); }
bool GOMP_loop_ull_guided_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) {
    return GOMP_loop_guided_start(long(s), long(e), long(i), long(c), (long *)a, (long *)b);
}
bool GOMP_loop_ull_guided_next(ull *a, ull *b) { return GOMP_loop_guided_next((long *)a, (long *)b); }
void GOMP_loop_end(void) {
    if (!on_task()) return;
    loop_leave();
    barrier(self->team);
}
void GOMP_loop_end_nowait(void) {
    if (on_task()) loop_leave();
}
unsigned GOMP_sections_start(unsigned n) {
    if (!on_task()) return 0;
    long a, b;
    {
        Quiet q;
        loop_enter(1, long(n) + 1, 1, 1, false);
    }
    return loop_next(&a, &b) ? unsigned(a) : 0;
}
unsigned GOMP_sections_next(void) {
    long a, b;
    return loop_next(&a, &b) ? unsigned(a) : 0;
}
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) {
    pending_loop(1, long(cnt) + 1, 1, 1, false, fn, d, n, f);
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpy) {
        char *buf = (char *)aligned_alloc(align < 16 ? 16 : align, (size + 63) / 16 * 16 + 64);
        cpy(buf, data);
        fn(buf);
        free(buf);
    } else
        fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return on_task() && self->team ? self->omp_num : 0; }
int omp_get_num_threads(void) { return on_task() && self->team ? self->team->n : 1; }
int omp_get_max_threads(void) { return on_task() ? default_threads() : 1; }
int omp_get_num_procs(void) { return on_task() ? default_threads() : 1; }
int omp_get_thread_limit(void) { return 32; }
void omp_set_num_threads(int n) { g_set_threads = n; }
int omp_in_parallel(void) { return on_task() && self->team && self->team->n > 1; }
int omp_get_level(void) { return omp_in_parallel(); }
int omp_get_active_level(void) { return omp_in_parallel(); }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
double omp_get_wtime(void) { return now_us() * 1e-6; }
void omp_init_lock(omp_lock_t *) {}
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t *l) {
    if (on_task()) crit_enter(l);
}
void omp_unset_lock(omp_lock_t *l) {
    if (on_task()) crit_exit(l);
}
}
