// C19: numerical routines called by several threads; every result has to be, bit for bit, what a lone process computes.
#include "GreenTensor.hpp"
#include "QuantumDefect.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "Wavefunction.hpp"
#include "WignerD.hpp"
#include "scen/util.hpp"
#include "utils.hpp"
#include <cstring>
#include <memory>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace sim;
namespace {
struct Out { // result bytes
    std::string b;
    void put(double x) { b.append(reinterpret_cast<const char *>(&x), sizeof x); }
    template <class M>
    void mat(const M &m) {
        put(m.rows()), put(m.cols());
        for (long i = 0; i < m.rows(); i++)
            for (long k = 0; k < m.cols(); k++) put(m(i, k));
    }
};
struct St {
    const char *sp;
    int n, l;
    double j;
};
const St STATES[] = {{"Rb", 9, 0, .5}, {"Rb", 9, 1, 1.5}, {"Rb", 14, 1, .5}, {"Rb", 14, 3, 3.5}, {"Rb", 14, 4, 4.5}, {"Cs", 9, 1, 1.5}, {"Cs", 11, 2, 1.5}, {"Cs", 9, 0, .5}, {"Sr1", 10, 0, 0}, {"Sr3", 10, 1, 2}, {"Xx", 9, 0, .5}};
const int NST = sizeof STATES / sizeof *STATES;
// kinds of work; a and b select the input
struct Kind {
    const char *name;
    int na, nb;
};
const Kind KINDS[] = {{"numerov", NST, 2}, {"whittaker", NST, 1}, {"radial", NST, 12}, {"wradial", 5, 2}, {"potential", NST, 3},
                      {"wignerd", 8, 4}, {"wignerdobj", 8, 3}, {"stateold", NST, 3}, {"state", NST, 3}, {"green", 6, 6}, {"qd", NST, 2}};
const int NK = sizeof KINDS / sizeof *KINDS;

// what only one thread uses, across its calls
struct Own {
    WignerD wd;
    std::map<int, std::unique_ptr<GreenTensor>> green;
};
QuantumDefect defect(int a) { return QuantumDefect(STATES[a].sp, STATES[a].n, STATES[a].l, STATES[a].j); }
void compute(int k, int a, int b, Own &own, Out &o) {
    std::string kind = KINDS[k].name;
    auto &s = STATES[a % NST];
    if (kind == "numerov") {
        auto qd = defect(a);
        Numerov N(qd);
        auto xy = N.integrate();
        if (b) xy = N.integrate(); // once more with the same object
        o.mat(xy);
    } else if (kind == "whittaker") {
        auto qd = defect(a);
        o.mat(Whittaker(qd).integrate());
    } else if (kind == "radial") {
        auto q1 = defect(a), q2 = defect((a + 1 + b / 3) % NST);
        o.put(IntegrateRadialElement<Numerov>(q1, b % 3 + 1, q2));
    } else if (kind == "wradial") {
        auto q1 = defect(a), q2 = defect((a + 1) % NST);
        o.put(IntegrateRadialElement<Whittaker>(q1, b + 1, q2));
    } else if (kind == "potential") {
        auto qd = defect(a);
        for (int i = 1; i < 12; i++) o.put(model_potential::V(qd, .3 * i + b)), o.put(model_potential::g(qd, .7 * i + b));
    } else if (kind == "wignerd" || kind == "wignerdobj") {
        float j = (a + 1) / 2.f;
        const double betas[] = {0, M_PI / 2, .7, 2.9};
        WignerD fresh;
        auto &w = kind == "wignerd" ? fresh : own.wd;
        for (float m = -j; m <= j; ++m)
            for (float mp = -j; mp <= j; ++mp) {
                o.put(w(j, m, mp, betas[b]));
                auto c = w(j, m, mp, .4, betas[b], -1.1);
                o.put(c.real()), o.put(c.imag());
            }
    } else if (kind == "stateold") {
        auto &t = STATES[(a + b) % NST];
        StateOneOld x(s.sp, s.n, s.l, float(s.j), float(s.j)), y(t.sp, t.n, t.l, float(t.j), float(t.j));
        o.put(x.getEnergy()), o.put(x.getNStar()), o.put(x.s);
        StateTwoOld two(x, y);
        std::ostringstream os;
        os.exceptions(std::ios::badbit);
        os << two << x;
        o.b += os.str();
        o.put(two.getFirstState().getEnergy() + two.getSecondState().getEnergy());
    } else if (kind == "state") {
        auto &t = STATES[(a + b) % NST];
        StateOne x(s.sp, s.n, s.l, float(s.j), float(s.j)), y(t.sp, t.n, t.l, float(t.j), float(t.j));
        StateTwo two(x, y);
        o.put(x.getEnergy()), o.put(x.getNStar()), o.put(two.getEnergy()), o.put(two.getNStar()[1]), o.put(x.getS());
        std::ostringstream os;
        os.exceptions(std::ios::badbit);
        os << two << x;
        o.b += os.str();
        size_t h = two.getHash();
        o.b.append(reinterpret_cast<char *>(&h), sizeof h);
    } else if (kind == "green") {
        const double pos[][3] = {{1, 0, 2}, {0, 0, 5}, {3, 0, 1}, {4, 0, 4}, {2.5, 0, 2}, {1, 2, 3}};
        GreenTensor fresh(pos[a][0], pos[a][1], pos[a][2]);
        // the thread's own object may have answered before, with another surface
        GreenTensor *g = &fresh;
        if (b % 2) {
            auto &mine = own.green[a];
            if (!mine) mine.reset(new GreenTensor(pos[a][0], pos[a][1], pos[a][2]));
            g = mine.get();
        }
        g->addSurface(b / 2 == 0 ? 40 : b / 2 == 1 ? 15 : 8);
        auto rep = [&](const GreenTensor::TensorType &t) {
            for (int i = 0; i < 27; i++) o.put(t.data()[i]);
        };
        if (b / 2 == 1) rep(g->getQDTensor());
        o.mat(g->getDDTensor());
        rep(g->getDQTensor());
        rep(g->getQDTensor());
    } else if (kind == "qd") {
        if (b) {
            o.put(energy_level(s.sp, s.n, s.l, s.j)), o.put(nstar(s.sp, s.n, s.l, s.j));
        } else {
            auto qd = defect(a);
            for (double x : {qd.ac, double(qd.Z), qd.a1, qd.a2, qd.a3, qd.a4, qd.rc, qd.nstar, qd.energy}) o.put(x);
        }
    }
}
std::string outcome(int k, int a, int b, Own &own, bool &oom, bool inside) {
    Out o;
    oom = false;
    try {
        if (inside) --quiet_level();
        compute(k, a, b, own, o);
        if (inside) ++quiet_level();
        return "=" + o.b;
    } catch (std::bad_alloc &) {
        if (inside) ++quiet_level();
        oom = true;
        return "";
    } catch (std::exception &e) {
        if (inside) ++quiet_level();
        return std::string("!") + e.what();
    }
}
std::map<int, std::string> *REF; // what a lone process computes
int code(int k, int a, int b) { return (k * 100 + a) * 100 + b; }
void lone() {
    REF = new std::map<int, std::string>;
    std::vector<std::array<int, 3>> items;
    std::istringstream lines(exec_plan);
    std::string line;
    while (std::getline(lines, line)) {
        auto w = words(line);
        for (size_t i = 0; i + 4 < w.size(); i++)
            for (int k = 0; k < NK; k++)
                if (w[i] == "do" && w[i + 2] == KINDS[k].name) items.push_back({k, atoi(w[i + 3].c_str()), atoi(w[i + 4].c_str())});
    }
    if (exec_plan.empty())
        for (int k = 0; k < NK; k++)
            for (int a = 0; a < KINDS[k].na; a++)
                for (int b = 0; b < KINDS[k].nb; b++) items.push_back({k, a, b});
    const size_t W = items.size() < 40 ? 1 : 8;
    int fds[W];
    for (size_t w = 0; w < W; w++) {
        int fd[2];
        if (pipe(fd)) return;
        fds[w] = fd[0];
        if (fork() == 0) {
            close(fd[0]);
            if (!freopen("/dev/null", "w", stderr)) _exit(2);
            for (size_t i = w; i < items.size(); i += W) {
                pid_t c = fork(); // a process of its own for every item: nothing has been computed before
                if (c == 0) {
                    alarm(20);
                    Own own;
                    bool oom;
                    std::string r = outcome(items[i][0], items[i][1], items[i][2], own, oom, false);
                    uint32_t head[2] = {uint32_t(i), uint32_t(r.size())};
                    r.insert(0, reinterpret_cast<char *>(head), sizeof head);
                    for (size_t k = 0; k < r.size();) {
                        ssize_t n = write(fd[1], r.data() + k, r.size() - k);
                        if (n <= 0) _exit(1);
                        k += size_t(n);
                    }
                    _exit(0);
                }
                int st = 0;
                waitpid(c, &st, 0);
            }
            _exit(0);
        }
        close(fd[1]);
    }
    for (size_t w = 0; w < W; w++) {
        std::string r;
        char buf[65536];
        ssize_t n;
        while ((n = read(fds[w], buf, sizeof buf)) > 0) r.append(buf, size_t(n));
        close(fds[w]);
        for (size_t i = 0; i + 8 <= r.size();) {
            uint32_t head[2];
            memcpy(head, &r[i], 8);
            if (head[0] >= items.size() || i + 8 + head[1] > r.size()) break;
            if (head[1]) (*REF)[code(items[head[0]][0], items[head[0]][1], items[head[0]][2])] = r.substr(i + 8, head[1]);
            i += 8 + head[1];
        }
    }
    while (waitpid(-1, nullptr, 0) > 0) {
    }
}
Warmup warm(lone);

void execute(const Plan &p) {
    struct Call {
        int thread, k, a, b;
    };
    auto *calls = new std::vector<Call>;
    int nt = 1;
    {
        Quiet q;
        for (auto &op : p.ops) {
            auto w = words(op);
            Call c{atoi(w[1].c_str()), -1, atoi(w[3].c_str()), atoi(w[4].c_str())};
            for (int k = 0; k < NK; k++)
                if (w[2] == KINDS[k].name) c.k = k;
            if (w[2] == "randint") c.k = 99;
            if (c.k < 0) continue;
            nt = std::max(nt, c.thread + 1);
            calls->push_back(c);
        }
    }
    auto *failures = new uint64_t(0);
    int pid = start_process([&]() -> int {
        auto client = [&](int t) {
            Quiet q;
            Own own;
            for (auto &c : *calls) {
                if (c.thread != t) continue;
                if (c.k == 99) {
                    int lo = c.a - 50, hi = lo + c.b, x = 0;
                    try {
                        --quiet_level();
                        x = utils::randint(lo, hi);
                        ++quiet_level();
                    } catch (std::exception &) {
                        ++quiet_level();
                        continue;
                    }
                    if (x < lo || x > hi) violation("out-of-range", "randint(%d,%d) returned %d", lo, hi, x);
                    probe("random_numbers");
                    continue;
                }
                auto ref = REF->find(code(c.k, c.a, c.b));
                if (ref == REF->end()) continue;
                bool oom;
                std::string r = outcome(c.k, c.a, c.b, own, oom, true);
                uint64_t h = 1469598103934665603ull;
                for (unsigned char ch : r) h = (h ^ ch) * 1099511628211ull;
                log("%d %s %d %d -> %zu bytes %016llx", t, KINDS[c.k].name, c.a, c.b, r.size(), (unsigned long long)h);
                bool failed = oom || (r[0] == '!' && r != ref->second);
                if (failed) {
                    if (++*failures > fault_count()) violation("spurious-failure", "%s %d %d failed in thread %d although memory was not short there: %s", KINDS[c.k].name, c.a, c.b, t, r.c_str());
                    probe("failed_by_fault");
                    own.green.erase(c.a); // may be half-way
                    continue;
                }
                if (r != ref->second) {
                    size_t i = 0;
                    while (i < r.size() && i < ref->second.size() && r[i] == ref->second[i]) i++;
                    violation("wrong-value", "%s %d %d computed by thread %d differs from what a lone thread computes, from byte %zu of %zu/%zu on", KINDS[c.k].name, c.a, c.b, t, i, r.size(),
                              ref->second.size());
                }
                probe(r[0] == '!' ? "errors_checked" : "values_checked");
            }
        };
        std::vector<std::thread> th;
        faults_enable(false);
        for (int t = 0; t < nt; t++) th.emplace_back(client, t);
        faults_enable(true);
        for (auto &t : th) t.join();
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    Quiet q;
    if (pi.how != Exit::Done) violation("abort", "a computation ended the program: %s", pi.what.c_str());
}
void generate(Plan &p, Rng &r, bool thorough) {
    int nt = r.range(2, thorough ? 6 : 4);
    // few inputs and few kinds per run, so that the same work overlaps
    std::vector<std::string> pool;
    int np = r.range(1, 4);
    int k0 = int(r.below(NK)), a0 = int(r.below(KINDS[k0].na));
    for (int i = 0; i < np; i++) {
        int k = r.chance(0.6) ? k0 : int(r.below(NK));
        int a = k == k0 && r.chance(0.6) ? a0 : int(r.below(KINDS[k].na));
        pool.push_back(std::string(KINDS[k].name) + " " + std::to_string(a) + " " + std::to_string(r.below(KINDS[k].nb)));
    }
    int n = r.range(3, thorough ? 14 : 9);
    for (int i = 0; i < n; i++) {
        std::string w = r.chance(0.07) ? "randint " + std::to_string(r.below(100)) + " " + std::to_string(r.below(100)) : r.pick(pool);
        p.ops.push_back("do " + std::to_string(i < nt ? i : r.range(0, nt - 1)) + " " + w);
    }
    knob(p, "shadow", r.chance(0.6));
    knob(p, "p_mem", pick(r, {0, 0.00005, 0.0005, 0.005}));
    knob(p, "p_conf", pick(r, {0, 0.05, 0.3}));
    knob(p, "p_sync", pick(r, {0.05, 0.3, 0.7}));
    if (r.chance(0.25)) add_fault(p, "alloc", 1, 1 + r.below(r.chance(0.5) ? 12 : 120), 1, "enomem");
}
Register reg({"numerics", "C19", generate, execute, 1.0});
} // namespace
