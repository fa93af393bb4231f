#pragma once
#include "core.hpp"
#include <atomic>
#include <pthread.h>
#include <unordered_map>

namespace sim {
enum { MAXTASK = 48, NPROBE = 192, MAXSW = 200000 };
enum { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_INCONCLUSIVE = 3, V_ERROR = 4 };
struct Shared { // mapped MAP_SHARED between runner and forked run
    volatile int verdict;
    char cls[64];
    char msg[4096];
    uint64_t hash;
    uint64_t points, steps, switches_done, sleeps;
    int64_t sim_us;
    int log_fd;
    int sw_overflow;
    // set by the runner before each run
    int wall_limit;
    char log_path[512];
    int wait_status;
    uint64_t plan_len;
    char plan_text[1 << 20];
    // results (cleared before each run)
    struct {
        char name[48];
        uint64_t n;
    } probes[NPROBE];
    uint64_t nsw;
    struct {
        uint64_t pt;
        int task;
    } sw[MAXSW];
};
extern Shared *sh;
struct VC {
    uint32_t v[MAXTASK] = {};
    uint32_t &operator[](int i) { return v[i]; }
    uint32_t operator[](int i) const { return v[i]; }
};
struct Task {
    int id = 0, pid = 0;
    enum St { Runnable, Blocked, Sleeping, Done, Crashed } st = Blocked;
    const void *wait_addr = nullptr;
    const char *why = "";
    int64_t wake = 0;
    bool timed = false;
    std::atomic<int> go{0};
    pthread_t th{};
    void *ret = nullptr;
    bool detached = false;
    int end_rounds = 0;
    VC vc, start_vc, join_vc;
    // OpenMP
    struct Team *team = nullptr;
    int omp_num = 0;
    int omp_single = 0, omp_loop = 0;
};
struct Proc {
    ProcInfo info;
    int ntasks = 0;
    std::unordered_map<std::string, uint64_t> counts;
    std::string out;
};
extern thread_local Task *self;
extern thread_local int quiet;
extern std::vector<Task *> tasks;
extern bool g_shadow;
void block_on(const void *addr, const char *why);
bool block_on_timed(const void *addr, const char *why, int64_t us);
void wake_addr(const void *addr, int max);
void wake_addr_timed(const void *addr, int max);
Task *new_task(int pid, void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *attr);
void release_task(Task *t);
void release_locks_of(int pid);
void gomp_forget(int pid);
void proc_over(int pid, bool killed);
void abort_process(const std::string &what);
void exit_process(int code);
int new_pid();
void vc_release(VC *to);
void vc_acquire(const VC *from);
void mem_point(bool conflict);
void run_in_child(const Scenario &sc);
void finish_ok();
void inconclusive(const char *why);
} // namespace sim
