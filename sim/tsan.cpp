// Callbacks of the compiler's -fsanitize=thread instrumentation: every memory access of the code
// under test becomes a preemption point, and a happens-before detector watches for data races.
#include "internal.hpp"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace sim;
namespace {
struct Slot {
    uint32_t clk;
    uint8_t tid, mask, flags, used; // flags: 1 write, 2 atomic
    uint32_t pad;
};
struct Cell {
    uintptr_t key;
    Slot s[4];
};
const size_t NCELL = 1u << 19;
Cell *cells = nullptr;
Cell *find(uintptr_t g, bool create) {
    if (!cells) {
        cells = (Cell *)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 45;
    for (int i = 0; i < 24; i++) {
        Cell *c = &cells[(h + i) & (NCELL - 1)];
        if (c->key == g) return c;
        if (c->key == 0) {
            if (!create) return nullptr;
            c->key = g;
            return c;
        }
    }
    if (!create) return nullptr;
    Cell *c = &cells[h & (NCELL - 1)];
    memset(c, 0, sizeof *c);
    c->key = g;
    return c;
}
bool is_std_stream(uintptr_t a) {
    auto in = [&](const void *o, size_t n) { return a >= (uintptr_t)o && a < (uintptr_t)o + n; };
    return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) || in(&std::cin, sizeof std::cin);
}
void describe(void *pc, char *out, size_t n) {
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname)
        snprintf(out, n, "%s", di.dli_sname);
    else if (dladdr(pc, &di))
        snprintf(out, n, "offset 0x%lx", (unsigned long)((char *)pc - (char *)di.dli_fbase));
    else
        snprintf(out, n, "?");
}
// returns true if another task touched the granule in a conflicting way
bool race_check(uintptr_t a, unsigned size, bool write, bool atomic, void *pc) {
    bool conflict = false;
    while (size) {
        unsigned off = a & 7, n = 8 - off < size ? 8 - off : size;
        uint8_t mask = uint8_t(((1u << n) - 1) << off);
        Cell *c = find((a >> 3) | (1ull << 63), true);
        Slot *put = nullptr;
        for (auto &s : c->s) {
            if (!s.used) {
                if (!put) put = &s;
                continue;
            }
            if (!(s.mask & mask)) continue;
            if (s.tid == self->id) {
                if ((s.mask & mask) == s.mask && ((s.flags & 1) <= write) && ((s.flags & 2) >= (atomic ? 2 : 0))) put = &s;
                continue;
            }
            if (!((s.flags & 1) || write)) continue;
            Task *o = tasks[s.tid];
            if (o->pid != self->pid) continue;
            conflict = true;
            if ((s.flags & 2) && atomic) continue;
            if (s.clk > self->vc[s.tid]) { // not ordered
                if (is_std_stream(a)) continue;
                char d[256];
                describe(pc, d, sizeof d);
                quiet++;
                char d2[256];
                describe((void *)a, d2, sizeof d2);
                log("race on %p (%s) size %u pc %p: clock %u of task%d, seen %u", (void *)a, d2, n, pc, s.clk, s.tid, self->vc[s.tid]);
                violation("data-race", "%s by task%d in %s is unordered with %s by task%d", write ? "write" : "read", self->id,
                          d, (s.flags & 1) ? "write" : "read", s.tid);
            }
        }
        if (!put) put = &c->s[(a >> 3) & 3];
        put->used = 1;
        put->tid = self->id;
        put->clk = self->vc[self->id];
        put->mask = mask;
        put->flags = (write ? 1 : 0) | (atomic ? 2 : 0);
        a += n;
        size -= n;
    }
    return conflict;
}
inline void access(void *p, unsigned size, bool write, bool atomic, void *pc) {
    if (!self || quiet) return;
    bool c = false;
    if (g_shadow) {
        ++quiet;
        c = race_check((uintptr_t)p, size, write, atomic, pc);
        --quiet;
    }
    mem_point(c);
}
void range(void *p, size_t n, bool w, void *pc) {
    if (!self || quiet || n == 0) return;
    if (n > 4096) n = 4096;
    access(p, unsigned(n), w, false, pc);
}
} // namespace
namespace sim {
void shadow_clear(const void *p, size_t n) {
    if (!cells || !g_shadow) return;
    if (n > (1u << 16)) n = 1u << 16;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    for (; a < e; a++) {
        Cell *c = find(a | (1ull << 63), false);
        if (c) memset(c->s, 0, sizeof c->s);
    }
}
} // namespace sim

#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(N)                                                                     \
    void __tsan_read##N(void *p) { access(p, N, false, false, RA); }              \
    void __tsan_write##N(void *p) { access(p, N, true, false, RA); }              \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, false, RA); }    \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, false, RA); }    \
    void __tsan_volatile_read##N(void *p) { access(p, N, false, false, RA); }     \
    void __tsan_volatile_write##N(void *p) { access(p, N, true, false, RA); }     \
    void __tsan_read_write##N(void *p) { access(p, N, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) {
    if (*p != v) access(p, 8, true, false, RA);
}
void __tsan_vptr_read(void **p) { access(p, 8, false, false, RA); }
void __tsan_read_range(void *p, unsigned long n) { range(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { range(p, n, true, RA); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { range((void *)s, n, false, RA); range(d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { range((void *)s, n, false, RA); range(d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { range(d, n, true, RA); return memset(d, c, n); }

#define AT_PRE(p, N, W)                     \
    if (active()) {                         \
        point(K_SYNC);                      \
        access((void *)(p), N, W, true, RA); \
        hb_acquire((const void *)(p));      \
    }
#define AT_POST(p)                            \
    if (active()) hb_release((const void *)(p));
#define ATOMICS(B, N, T)                                                                            \
    T __tsan_atomic##B##_load(const volatile T *p, int) { AT_PRE(p, N, false) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T *p, T v, int) { AT_PRE(p, N, true) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); AT_POST(p) } \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { AT_PRE(p, N, true) T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { AT_PRE(p, N, true) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { AT_PRE(p, N, true) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return r; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { AT_PRE(p, N, true) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); AT_POST(p) return e; }
ATOMICS(8, 1, unsigned char)
ATOMICS(16, 2, unsigned short)
ATOMICS(32, 4, unsigned int)
ATOMICS(64, 8, unsigned long)
void __tsan_atomic_thread_fence(int) {
    static char fence;
    if (active()) {
        hb_acquire(&fence);
        hb_release(&fence);
    }
}
void __tsan_atomic_signal_fence(int) {}

// --- allocator: shadow of fresh blocks is cleared; allocation failures are injected
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (self && g_shadow && p) {
        ++quiet;
        shadow_clear(p, n);
        --quiet;
    }
    return p;
}
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (self && g_shadow && p) {
        ++quiet;
        shadow_clear(p, a * b);
        --quiet;
    }
    return p;
}
void *realloc(void *o, size_t n) {
    void *p = __libc_realloc(o, n);
    if (self && g_shadow && p) {
        ++quiet;
        shadow_clear(p, n);
        --quiet;
    }
    return p;
}
void *memalign(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (self && g_shadow && p) {
        ++quiet;
        shadow_clear(p, n);
        --quiet;
    }
    return p;
}
int posix_memalign(void **o, size_t a, size_t n) {
    *o = memalign(a, n);
    return *o ? 0 : 12;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
}
// operator new: failing allocations are injected here (this is what the code under test calls)
static void *new_impl(size_t n) {
    if (active()) {
        if (const Fault *f = fault_for("alloc", false)) {
            if (f->action == "enomem") {
                fault_fired("enomem");
                throw std::bad_alloc();
            }
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return new_impl(n); }
void *operator new[](size_t n) { return new_impl(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
