// Interposed thread, lock, time and randomness primitives.
#include "internal.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
#define REAL(name) \
    static auto real_##name = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace {
struct Mx {
    Task *owner = nullptr;
    int count = 0;
    int readers = 0;                      // rwlock
    std::unordered_map<int, int> rd;      // task -> count
    VC vc;
};
std::unordered_map<const void *, Mx> &mxs() {
    static auto *m = new std::unordered_map<const void *, Mx>;
    return *m;
}
std::unordered_map<pthread_t, Task *> &threads() {
    static auto *m = new std::unordered_map<pthread_t, Task *>;
    return *m;
}
bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
} // namespace

namespace sim {
void release_locks_of(int pid) {
    for (auto &kv : mxs()) {
        if (kv.second.owner && kv.second.owner->pid == pid) {
            kv.second.owner = nullptr;
            kv.second.count = 0;
            wake_addr(kv.first, INT_MAX);
        }
        for (auto it = kv.second.rd.begin(); it != kv.second.rd.end();)
            if (tasks[it->first]->pid == pid) {
                kv.second.readers -= it->second;
                it = kv.second.rd.erase(it);
                wake_addr(kv.first, INT_MAX);
            } else
                ++it;
    }
    gomp_forget(pid);
}
static int lock_mx(const void *a, bool rec) {
    for (;;) {
        Mx &m = mxs()[a];
        if (!m.owner && m.readers == 0) {
            m.owner = self;
            m.count = 1;
            vc_acquire(&m.vc);
            return 0;
        }
        if (m.owner == self) {
            if (rec) {
                m.count++;
                return 0;
            }
        }
        probe("lock_contended");
        block_on(a, "mutex");
    }
}
static int trylock_mx(const void *a, bool rec) {
    Mx &m = mxs()[a];
    if (!m.owner && m.readers == 0) {
        m.owner = self;
        m.count = 1;
        vc_acquire(&m.vc);
        return 0;
    }
    if (m.owner == self && rec) {
        m.count++;
        return 0;
    }
    return EBUSY;
}
static int unlock_mx(const void *a) {
    Mx &m = mxs()[a];
    if (m.owner != self) return EPERM;
    if (--m.count == 0) {
        vc_release(&m.vc);
        m.owner = nullptr;
        wake_addr(a, INT_MAX);
        wake_addr_timed(a, INT_MAX);
    }
    return 0;
}
// libsqlite3 takes and drops locks very often; those are not interesting preemption points
static bool quiet_lock(const void *ra) {
    static uintptr_t lo = 0, hi = 0;
    if (!lo) {
        void *p = dlsym(RTLD_DEFAULT, "sqlite3_open_v2");
        Dl_info di;
        if (p && dladdr(p, &di)) {
            lo = (uintptr_t)di.dli_fbase;
            hi = lo + (4u << 20);
        } else
            lo = hi = 1;
    }
    return (uintptr_t)ra >= lo && (uintptr_t)ra < hi;
}
} // namespace sim

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    REAL(pthread_mutex_lock);
    if (!active()) {
        if (on_task() && mxs().count(m)) { // quiet section must still respect simulated owners
            Quiet q;
            return lock_mx(m, recursive(m));
        }
        return real_pthread_mutex_lock(m);
    }
    if (!quiet_lock(__builtin_return_address(0))) point(K_SYNC);
    Quiet q;
    return lock_mx(m, recursive(m));
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    REAL(pthread_mutex_trylock);
    if (!active()) return real_pthread_mutex_trylock(m);
    point(K_SYNC);
    Quiet q;
    return trylock_mx(m, recursive(m));
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    REAL(pthread_mutex_timedlock);
    if (!active()) return real_pthread_mutex_timedlock(m, ts);
    point(K_SYNC);
    Quiet q;
    int64_t dl = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000 - 1600000000ll * 1000000;
    while (trylock_mx(m, recursive(m)) != 0) {
        if (now_us() >= dl) return ETIMEDOUT;
        block_on_timed(m, "mutex (timed)", dl - now_us());
    }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    REAL(pthread_mutex_unlock);
    if (!on_task()) return real_pthread_mutex_unlock(m);
    int r;
    {
        Quiet q;
        if (!mxs().count(m) || mxs()[m].owner != self) {
            if (quiet > 1) return real_pthread_mutex_unlock(m);
            return EPERM;
        }
        r = unlock_mx(m);
    }
    if (!quiet_lock(__builtin_return_address(0))) point(K_SYNC);
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    REAL(pthread_mutex_destroy);
    if (on_task()) {
        Quiet q;
        mxs().erase(m);
    }
    return real_pthread_mutex_destroy(m);
}
// --- condition variables
static int cond_wait_us(pthread_cond_t *c, pthread_mutex_t *m, int64_t us) {
    point(K_SYNC);
    Quiet q;
    int n = mxs()[m].count;
    mxs()[m].count = 1;
    unlock_mx(m);
    bool ok = true;
    if (us < 0)
        block_on(c, "condition");
    else
        ok = block_on_timed(c, "condition (timed)", us);
    hb_acquire(c);
    lock_mx(m, false);
    mxs()[m].count = n;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(pthread_cond_wait);
    if (!active()) return real_pthread_cond_wait(c, m);
    return cond_wait_us(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL(pthread_cond_timedwait);
    if (!active()) return real_pthread_cond_timedwait(c, m, ts);
    int64_t dl = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000 - 1600000000ll * 1000000;
    return cond_wait_us(c, m, dl > now_us() ? dl - now_us() : 0);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    REAL(pthread_cond_signal);
    if (!active()) return real_pthread_cond_signal(c);
    {
        Quiet q;
        hb_release(c);
        int before = 1;
        for (auto *t : tasks)
            if (before && ((t->st == Task::Blocked) || (t->st == Task::Sleeping && t->timed)) && t->wait_addr == c) {
                t->st = Task::Runnable;
                t->timed = false;
                before = 0;
            }
    }
    point(K_SYNC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    REAL(pthread_cond_broadcast);
    if (!active()) return real_pthread_cond_broadcast(c);
    {
        Quiet q;
        hb_release(c);
        wake_addr(c, INT_MAX);
        wake_addr_timed(c, INT_MAX);
    }
    point(K_SYNC);
    return 0;
}
// --- rwlock
static int rdlock(pthread_rwlock_t *l, bool tr) {
    point(K_SYNC);
    Quiet q;
    for (;;) {
        Mx &m = mxs()[l];
        if (!m.owner) {
            m.readers++;
            m.rd[self->id]++;
            vc_acquire(&m.vc);
            return 0;
        }
        if (tr) return EBUSY;
        if (m.owner == self) return EDEADLK;
        block_on(l, "rwlock");
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    REAL(pthread_rwlock_rdlock);
    return active() ? rdlock(l, false) : real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    REAL(pthread_rwlock_tryrdlock);
    return active() ? rdlock(l, true) : real_pthread_rwlock_tryrdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    REAL(pthread_rwlock_wrlock);
    if (!active()) return real_pthread_rwlock_wrlock(l);
    point(K_SYNC);
    Quiet q;
    return lock_mx(l, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    REAL(pthread_rwlock_trywrlock);
    if (!active()) return real_pthread_rwlock_trywrlock(l);
    point(K_SYNC);
    Quiet q;
    return trylock_mx(l, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    REAL(pthread_rwlock_unlock);
    if (!on_task() || !mxs().count(l)) return real_pthread_rwlock_unlock(l);
    {
        Quiet q;
        Mx &m = mxs()[l];
        if (m.owner == self)
            unlock_mx(l);
        else {
            vc_release(&m.vc);
            m.readers--;
            if (--m.rd[self->id] == 0) m.rd.erase(self->id);
            if (m.readers == 0) wake_addr(l, INT_MAX);
        }
    }
    point(K_SYNC);
    return 0;
}
// --- threads
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    REAL(pthread_create);
    if (!active()) return real_pthread_create(th, attr, fn, arg);
    {
        Quiet q;
        Task *t = new_task(self->pid, fn, arg, th, attr);
        threads()[*th] = t;
    }
    point(K_SYNC);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    REAL(pthread_join);
    if (!on_task()) return real_pthread_join(th, ret);
    Task *t = nullptr;
    {
        Quiet q;
        auto it = threads().find(th);
        if (it != threads().end()) t = it->second;
    }
    if (!t) return real_pthread_join(th, ret);
    point(K_SYNC);
    Quiet q;
    while (t->st != Task::Done && t->st != Task::Crashed) block_on(t, "thread join");
    vc_acquire(&t->join_vc);
    threads().erase(th);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    REAL(pthread_once);
    if (!active()) return real_pthread_once(o, fn);
    volatile int *s = (volatile int *)o;
    point(K_SYNC);
    for (;;) {
        if (*s == 2) {
            hb_acquire(o);
            return 0;
        }
        if (*s == 0) {
            *s = 1;
            try {
                fn();
            } catch (...) {
                *s = 0;
                Quiet q;
                wake_addr(o, INT_MAX);
                throw;
            }
            Quiet q;
            *s = 2;
            hb_release(o);
            wake_addr(o, INT_MAX);
            return 0;
        }
        Quiet q;
        block_on(o, "call_once");
    }
}
// --- function-local statics
int __cxa_guard_acquire(long long *g) {
    volatile unsigned char *b = (volatile unsigned char *)g; // [0]=done, [1]=in progress
    if (active()) point(K_SYNC);
    for (;;) {
        if (b[0]) {
            hb_acquire(g);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        if (!on_task()) return 1;
        Quiet q;
        block_on(g, "static initialisation");
    }
}
void __cxa_guard_release(long long *g) {
    volatile unsigned char *b = (volatile unsigned char *)g;
    b[0] = 1;
    b[1] = 0;
    if (on_task()) {
        Quiet q;
        hb_release(g);
        wake_addr(g, INT_MAX);
    }
}
void __cxa_guard_abort(long long *g) {
    ((volatile unsigned char *)g)[1] = 0;
    if (on_task()) {
        Quiet q;
        wake_addr(g, INT_MAX);
    }
}
// --- time
static const int64_t EPOCH = 1600000000ll; // simulated boot time
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!on_task()) {
        REAL(nanosleep);
        return real_nanosleep(ts, rem);
    }
    sleep_us(int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000);
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *rem) {
    if (!on_task()) return syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, flags, ts, rem) ? errno : 0;
    int64_t us = int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000;
    if (flags & TIMER_ABSTIME) us -= EPOCH * 1000000 + now_us();
    sleep_us(us);
    return 0;
}
int usleep(useconds_t us) {
    if (!on_task()) {
        struct timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
        return nanosleep(&ts, nullptr);
    }
    sleep_us(us);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!on_task()) {
        struct timespec ts = {time_t(s), 0};
        nanosleep(&ts, nullptr);
        return 0;
    }
    sleep_us(int64_t(s) * 1000000);
    return 0;
}
int sched_yield(void) {
    if (!active()) return syscall(SYS_sched_yield);
    point(K_YIELD);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!on_task()) return syscall(SYS_clock_gettime, c, ts);
    int64_t us = EPOCH * 1000000 + now_us();
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
// --- randomness: a stream of its own, per process, derived from the run's seed
static Rng &sim_entropy() {
    static Rng *r = nullptr;
    static uint64_t for_seed = 0;
    if (!r || for_seed != plan.seed) {
        r = new Rng(mix(plan.seed, 0xE47));
        for_seed = plan.seed;
    }
    return *r;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!on_task()) return syscall(SYS_getrandom, p, n, flags);
    Quiet q;
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = sim_entropy().next() >> 11;
    return n;
}
int getentropy(void *p, size_t n) {
    return getrandom(p, n, 0) < 0 ? -1 : 0;
}
pid_t getpid(void) {
    if (!on_task()) return syscall(SYS_getpid);
    return 4000 + self->pid;
}
void exit(int code) {
    REAL(exit);
    if (on_task() && self->pid != 0) exit_process(code);
    real_exit(code);
    __builtin_unreachable();
}
} // extern "C"

std::random_device::result_type std::random_device::_M_getval() {
    unsigned v = 0;
    if (!on_task()) {
        syscall(SYS_getrandom, &v, sizeof v, 0);
        return v;
    }
    Quiet q;
    return unsigned(sim_entropy().next() >> 16);
}
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
