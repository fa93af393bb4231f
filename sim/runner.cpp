#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
void simfs_start();

std::string Plan::text() const {
    std::ostringstream o;
    o << "scenario " << scenario << "\nseed " << seed << "\n";
    for (auto &k : knobs) o << "knob " << k.first << " " << k.second << "\n";
    for (auto &p : ops) o << "op " << p << "\n";
    for (auto &f : faults)
        o << "fault " << f.cls << " " << f.pid << " " << f.nth << " " << f.len << " " << f.action << " " << f.arg << "\n";
    if (explicit_sched) {
        o << "sched explicit\n";
        for (auto &s : switches) o << "sw " << s.first << " " << s.second << "\n";
    }
    return o.str();
}
Plan Plan::parse(const std::string &t) {
    Plan p;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w)) continue;
        if (w == "scenario") l >> p.scenario;
        else if (w == "seed") l >> p.seed;
        else if (w == "knob") {
            std::string k, v;
            l >> k >> v;
            p.knobs[k] = v;
        } else if (w == "op") {
            std::string r;
            std::getline(l, r);
            p.ops.push_back(r.empty() ? r : r.substr(1));
        } else if (w == "fault") {
            Fault f;
            l >> f.cls >> f.pid >> f.nth >> f.len >> f.action >> f.arg;
            p.faults.push_back(f);
        } else if (w == "sched") p.explicit_sched = true;
        else if (w == "sw") {
            uint64_t a;
            int b;
            l >> a >> b;
            p.switches.push_back({a, b});
        }
    }
    return p;
}
namespace {
struct SimBuf : std::streambuf {
    bool keep;
    explicit SimBuf(bool k) : keep(k) {}
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        if (keep && n > 0) out_write(s, size_t(n));
        return n;
    }
    int overflow(int c) override {
        if (c != EOF && keep) {
            char b = char(c);
            out_write(&b, 1);
        }
        return c == EOF ? 0 : c;
    }
};
const Scenario *find_scenario(const std::string &n) {
    for (auto &s : scenarios())
        if (n == s.name) return &s;
    return nullptr;
}
void reset_shared() {
    sh->verdict = 0;
    sh->cls[0] = sh->msg[0] = 0;
    sh->hash = sh->points = sh->steps = sh->switches_done = sh->sleeps = 0;
    sh->sim_us = 0;
    sh->sw_overflow = 0;
    memset((void *)sh->probes, 0, sizeof sh->probes);
    sh->nsw = 0;
}
int wall_limit = 60;
// The zygote: a process with a pristine heap from which every run is forked, so that a run sees the
// same addresses whatever the runner did before and however many workers there are.
int zyg_in = -1, zyg_out = -1; // the runner's ends
void *child_main(void *) {
    Plan p = Plan::parse(std::string(sh->plan_text, sh->plan_len));
    const Scenario *sc = find_scenario(p.scenario);
    if (!sc) _exit(3);
    plan = p;
    std::cout.rdbuf(new SimBuf(true));
    std::cerr.rdbuf(new SimBuf(false));
    std::clog.rdbuf(new SimBuf(false));
    simfs_start();
    run_in_child(*sc);
    _exit(0);
}
[[noreturn]] void zygote(int in, int out) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c;
    while (syscall(SYS_read, in, &c, 1) == 1) {
        pid_t k = syscall(SYS_fork);
        if (k == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sh->log_fd = sh->log_path[0] ? int(syscall(SYS_openat, AT_FDCWD, sh->log_path, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644)) : -1;
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            alarm(sh->wall_limit);
            // not on the main stack, whose position depends on the arguments and environment
            pthread_t th;
            typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
            ((create_t)dlsym(RTLD_NEXT, "pthread_create"))(&th, nullptr, child_main, nullptr);
            for (;;) pause();
        }
        int st = 0;
        while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
        sh->wait_status = st;
        syscall(SYS_write, out, "x", 1);
    }
    _exit(0);
}
void start_zygote(Shared *s) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(2);
    pid_t z = fork();
    if (z == 0) {
        sh = s;
        syscall(SYS_close, a[1]);
        syscall(SYS_close, b[0]);
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 1);
        dup2(dn, 2);
        dup2(dn, 0);
        zygote(a[0], b[1]);
    }
    syscall(SYS_close, a[0]);
    syscall(SYS_close, b[1]);
    zyg_in = a[1];
    zyg_out = b[0];
}
int run_forked(const Plan &p, const Scenario &) {
    reset_shared();
    std::string t = p.text();
    if (t.size() > sizeof sh->plan_text) {
        sh->verdict = V_ERROR;
        snprintf(sh->cls, sizeof sh->cls, "plan-too-long");
        return 0;
    }
    memcpy(sh->plan_text, t.data(), t.size());
    sh->plan_len = t.size();
    sh->wall_limit = wall_limit;
    char c;
    if (syscall(SYS_write, zyg_in, "r", 1) != 1 || syscall(SYS_read, zyg_out, &c, 1) != 1) {
        sh->verdict = V_ERROR;
        snprintf(sh->cls, sizeof sh->cls, "zygote-died");
        return 0;
    }
    int st = sh->wait_status;
    if (sh->verdict == V_NONE) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            snprintf(sh->cls, sizeof sh->cls, "hang");
            snprintf(sh->msg, sizeof sh->msg, "the run did not finish within %d s of real time", wall_limit);
            sh->verdict = V_VIOLATION;
        } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            snprintf(sh->cls, sizeof sh->cls, "killed-by-environment");
            sh->verdict = V_INCONCLUSIVE;
        } else {
            snprintf(sh->cls, sizeof sh->cls, "crash");
            if (WIFSIGNALED(st))
                snprintf(sh->msg, sizeof sh->msg, "the code crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
            else
                snprintf(sh->msg, sizeof sh->msg, "the process exited unexpectedly with status %d", WEXITSTATUS(st));
            sh->verdict = V_VIOLATION;
        }
    }
    return st;
}
std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += char(c);
    }
    return o;
}
const char *vname(int v) {
    return v == V_OK ? "ok" : v == V_VIOLATION ? "violation" : v == V_INCONCLUSIVE ? "inconclusive" : "error";
}
Plan make_plan(const std::string &prop, uint64_t base, uint64_t i, bool thorough, const std::string &only) {
    std::vector<const Scenario *> cand;
    double tot = 0;
    for (auto &s : scenarios())
        if (prop == s.property && (only.empty() || only == s.name)) {
            cand.push_back(&s);
            tot += s.weight;
        }
    if (cand.empty()) {
        fprintf(stderr, "no scenario for %s\n", prop.c_str());
        exit(2);
    }
    Rng r(mix(base, i * 2 + 1));
    double u = r.unit() * tot;
    const Scenario *sc = cand.back();
    for (auto *c : cand) {
        u -= c->weight;
        if (u < 0) {
            sc = c;
            break;
        }
    }
    Plan p;
    p.scenario = sc->name;
    p.seed = r.next() >> 1;
    sc->generate(p, r, thorough);
    return p;
}
double now_real() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
} // namespace

struct Global {
    volatile int stop;
    volatile int failures;
};

std::string exec_plan;

int runner_main(int argc, char **argv) {
    if (!getenv("SIM_CHILD")) {
        int pe = personality(0xffffffff);
        if (!(pe & ADDR_NO_RANDOMIZE)) personality(pe | ADDR_NO_RANDOMIZE);
        char *env[] = {(char *)"PATH=/usr/bin:/bin", (char *)"SIM_CHILD=1", (char *)"OPENBLAS_NUM_THREADS=1", (char *)"OMP_NUM_THREADS=1",
                       (char *)"TMPDIR=/sim/tmp", (char *)"LANG=C", nullptr};
        execve("/proc/self/exe", argv, env);
        return 2;
    }
    const int MAXW = 16;
    Shared *all = (Shared *)mmap(nullptr, sizeof(Shared) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (argc > 2 && !strcmp(argv[1], "exec")) {
        std::ifstream f(argv[2]);
        std::stringstream ss;
        ss << f.rdbuf();
        exec_plan = ss.str();
    }
    if (argc > 1 && (!strcmp(argv[1], "exec") || !strcmp(argv[1], "gen")))
        for (auto w : warmups()) w();
    int nz = 0;
    bool is_gen = argc > 1 && !strcmp(argv[1], "gen"), is_exec = argc > 1 && !strcmp(argv[1], "exec");
    if (is_exec) nz = 1;
    if (is_gen) {
        nz = 8;
        for (int i = 1; i + 1 < argc; i++)
            if (!strcmp(argv[i], "--workers")) nz = atoi(argv[i + 1]);
        if (nz > MAXW) nz = MAXW;
        if (nz < 1) nz = 1;
    }
    int zin[MAXW], zout[MAXW];
    for (int i = 0; i < nz; i++) {
        start_zygote(&all[i]);
        zin[i] = zyg_in;
        zout[i] = zyg_out;
    }
    std::vector<std::string> a(argv + 1, argv + argc);
    auto opt = [&](const std::string &n, const std::string &d) {
        for (size_t i = 0; i + 1 < a.size(); i++)
            if (a[i] == n) return a[i + 1];
        return d;
    };
    auto flag = [&](const std::string &n) { return std::find(a.begin(), a.end(), n) != a.end(); };
    if (a.empty()) {
        fprintf(stderr, "usage: gen|exec|list\n");
        return 2;
    }
    if (a[0] == "list") {
        for (auto &s : scenarios()) printf("%s %s\n", s.property, s.name);
        return 0;
    }
    wall_limit = atoi(opt("--wall", "60").c_str());
    if (a[0] == "exec") {
        std::ifstream f(a[1]);
        std::stringstream ss;
        ss << f.rdbuf();
        Plan p = Plan::parse(ss.str());
        const Scenario *sc = find_scenario(p.scenario);
        if (!sc) {
            fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str());
            return 2;
        }
        sh = &all[0];
        zyg_in = zin[0], zyg_out = zout[0];
        snprintf(sh->log_path, sizeof sh->log_path, "%s", opt("--log", "").c_str());
        run_forked(p, *sc);
        if (!opt("--switches", "").empty()) {
            Plan q = p;
            if (!q.explicit_sched) {
                q.explicit_sched = true;
                for (uint64_t i = 0; i < sh->nsw; i++) q.switches.push_back({sh->sw[i].pt, sh->sw[i].task});
            }
            std::ofstream(opt("--switches", "")) << q.text();
        }
        printf("{\"verdict\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"points\":%llu}\n",
               vname(sh->verdict), jesc(sh->cls).c_str(), jesc(sh->msg).c_str(), (unsigned long long)sh->hash,
               (unsigned long long)sh->steps, (unsigned long long)sh->points);
        return 0;
    }
    if (a[0] == "plan") {
        Plan p = make_plan(opt("--property", ""), strtoull(opt("--seed", "1").c_str(), 0, 10), strtoull(opt("--index", "0").c_str(), 0, 10),
                           flag("--thorough"), opt("--scenario", ""));
        printf("%s", p.text().c_str());
        return 0;
    }
    // gen
    std::string prop = opt("--property", ""), out = opt("--out", "/tmp"), only = opt("--scenario", "");
    uint64_t base = strtoull(opt("--seed", "1").c_str(), 0, 10);
    double seconds = atof(opt("--seconds", "10").c_str());
    int workers = nz;
    uint64_t maxn = strtoull(opt("--max", "1000000000").c_str(), 0, 10);
    int maxfail = atoi(opt("--max-failures", "4").c_str());
    bool thorough = flag("--thorough");
    bool hashes = flag("--hashes");
    Global *g = (Global *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now_real();
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            sh = &all[w];
            zyg_in = zin[w], zyg_out = zout[w];
            uint64_t runs = 0, inconc = 0, viol = 0, err = 0, steps = 0, points = 0, switches = 0, sleeps = 0;
            int64_t simus = 0;
            std::unordered_set<uint64_t> seen;
            std::map<std::string, uint64_t> probes, runs_with, inc_why, per_sc;
            std::string sample;
            std::string path = out + "/worker_" + std::to_string(w) + ".txt";
            std::ofstream o(path);
            for (uint64_t i = w; i < maxn && !g->stop; i += workers) {
                if (now_real() - t0 > seconds) break;
                Plan p = make_plan(prop, base, i, thorough, only);
                const Scenario *sc = find_scenario(p.scenario);
                run_forked(p, *sc);
                runs++;
                per_sc[p.scenario]++;
                if (hashes) o << "H " << i << " " << sh->hash << " " << vname(sh->verdict) << "\n";
                seen.insert(sh->hash);
                steps += sh->steps;
                points += sh->points;
                switches += sh->switches_done;
                sleeps += sh->sleeps;
                simus += sh->sim_us;
                for (auto &pr : sh->probes) {
                    if (!pr.name[0]) break;
                    probes[pr.name] += pr.n;
                    runs_with[pr.name]++;
                }
                if (i < 3) sample += "S " + std::to_string(i) + " " + jesc(p.text().substr(0, 700)) + "\n";
                if (sh->verdict == V_INCONCLUSIVE) {
                    inconc++;
                    inc_why[sh->cls]++;
                } else if (sh->verdict == V_VIOLATION || sh->verdict == V_ERROR) {
                    (sh->verdict == V_VIOLATION ? viol : err)++;
                    std::string b = out + "/fail_" + std::to_string(i);
                    std::ofstream(b + ".seedplan") << p.text();
                    if (!p.explicit_sched && !sh->sw_overflow) {
                        p.explicit_sched = true;
                        for (uint64_t k = 0; k < sh->nsw; k++) p.switches.push_back({sh->sw[k].pt, sh->sw[k].task});
                    }
                    std::ofstream(b + ".plan") << p.text();
                    o << "F " << i << " " << (sh->verdict == V_VIOLATION ? "violation " : "error ") << sh->cls << " " << std::hex << sh->hash
                      << std::dec << " " << jesc(sh->msg) << "\n";
                    if (__sync_add_and_fetch(&g->failures, 1) >= maxfail) g->stop = 1;
                }
            }
            o << "T runs " << runs << "\nT violations " << viol << "\nT errors " << err << "\nT inconclusive " << inconc << "\nT steps " << steps
              << "\nT points " << points << "\nT switches " << switches << "\nT sleeps " << sleeps << "\nT sim_us " << simus << "\n";
            for (auto &k : probes) o << "P " << k.second << " " << runs_with[k.first] << " " << k.first << "\n";
            for (auto &k : inc_why) o << "I " << k.second << " " << k.first << "\n";
            for (auto &k : per_sc) o << "C " << k.second << " " << k.first << "\n";
            o << sample;
            o << "D";
            for (auto h : seen) o << " " << std::hex << h << std::dec;
            o << "\n";
            o.close();
            _exit(0);
        }
        pids.push_back(c);
    }
    for (auto p : pids) waitpid(p, nullptr, 0);
    return 0;
}
} // namespace sim
int main(int argc, char **argv) { return sim::runner_main(argc, argv); }
