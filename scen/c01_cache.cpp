// C01: linearizability of the shared value cache.
#include "../sim/core.hpp"
#include "Cache.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>

using namespace sim;
namespace {
struct Op {
    int thread;
    char kind; // s save, r restore, c clear
    int key;
    uint64_t val;
};
struct Rec {
    Op op;
    uint64_t inv = 0, ret = 0;
    bool done = false, threw = false, oom = false, hit = false;
    uint64_t got = 0;
};
// Key/element types with several words so that torn copies are visible.
struct BigKey {
    std::string name;
    int a, b;
    bool operator==(BigKey const &o) const { return name == o.name && a == o.a && b == o.b; }
};
struct BigHash {
    size_t operator()(BigKey const &k) const { return std::hash<std::string>()(k.name) ^ size_t(k.a * 31 + k.b); }
};
struct BadHash {
    size_t operator()(int) const { return 7; }
};
struct BigVal {
    uint64_t w[6];
    std::string tag;
};
BigKey mkkey(int k, BigKey *) { return {"species-with-a-long-name-" + std::to_string(k), k, -k}; }
int mkkey(int k, int *) { return k; }
std::string mkkey(int k, std::string *) { return "key_number_" + std::to_string(k) + "_beyond_small_string"; }
BigVal mkval(uint64_t v, BigVal *) {
    BigVal b;
    for (int i = 0; i < 6; i++) b.w[i] = v * 1000003u + i;
    b.tag = "value-" + std::to_string(v) + "-padded-beyond-the-small-string-buffer";
    return b;
}
uint64_t mkval(uint64_t v, uint64_t *) { return v; }
std::string mkval(uint64_t v, std::string *) { return "value-" + std::to_string(v) + "-padded-beyond-small-string"; }
bool readval(BigVal const &b, uint64_t &v) {
    v = b.w[0] / 1000003u;
    BigVal e = mkval(v, (BigVal *)nullptr);
    for (int i = 0; i < 6; i++)
        if (e.w[i] != b.w[i]) return false;
    return e.tag == b.tag;
}
bool readval(uint64_t b, uint64_t &v) {
    v = b;
    return true;
}
bool readval(std::string const &s, uint64_t &v) {
    v = strtoull(s.c_str() + (s.size() > 6 ? 6 : 0), nullptr, 10);
    return s == mkval(v, (std::string *)nullptr);
}

// --- linearizability: depth-first search over linearisation orders with memoisation (Wing & Gong)
struct Checker {
    const std::vector<Rec> &h;
    std::set<std::pair<uint64_t, std::string>> seen;
    uint64_t budget = 3000000;
    explicit Checker(const std::vector<Rec> &r) : h(r) {}
    bool apply(const Rec &r, std::vector<std::pair<int, uint64_t>> &m) {
        auto it = std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == r.op.key; });
        switch (r.op.kind) {
        case 's':
            if (r.oom) return true; // failed for lack of memory: no effect
            if (it != m.end()) return r.threw;
            if (r.threw) return false;
            m.push_back({r.op.key, r.op.val});
            std::sort(m.begin(), m.end());
            return true;
        case 'r':
            if (r.oom) return true;
            if (it == m.end()) return !r.hit;
            return r.hit && r.got == it->second;
        case 'c':
            m.clear();
            return true;
        }
        return false;
    }
    bool go(uint64_t doneset, std::vector<std::pair<int, uint64_t>> m) {
        if (doneset == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (budget-- == 0) return true; // too long to decide: not reported
        std::string key;
        for (auto &p : m) key += std::to_string(p.first) + ":" + std::to_string(p.second) + ",";
        if (!seen.insert({doneset, key}).second) return false;
        uint64_t minret = UINT64_MAX;
        for (size_t i = 0; i < h.size(); i++)
            if (!(doneset >> i & 1)) minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < h.size(); i++) {
            if (doneset >> i & 1) continue;
            if (h[i].inv > minret) continue;
            auto n = m;
            if (!apply(h[i], n)) continue;
            if (go(doneset | (1ull << i), n)) return true;
        }
        return false;
    }
};

std::vector<Op> parse_ops(const Plan &p) {
    std::vector<Op> v;
    for (auto &s : p.ops) {
        std::istringstream i(s);
        Op o;
        i >> o.thread >> o.kind >> o.key >> o.val;
        v.push_back(o);
    }
    return v;
}
std::string show(const Rec &r) {
    std::string s = "T" + std::to_string(r.op.thread) + " ";
    if (r.op.kind == 's')
        s += "save(k" + std::to_string(r.op.key) + "," + std::to_string(r.op.val) + ")" + (r.oom ? "=bad_alloc" : r.threw ? "=refused" : "=ok");
    else if (r.op.kind == 'r')
        s += "restore(k" + std::to_string(r.op.key) + ")=" + (r.oom ? "bad_alloc" : r.hit ? std::to_string(r.got) : "nothing");
    else
        s += "clear()";
    return s + "[" + std::to_string(r.inv) + "-" + std::to_string(r.ret) + "]";
}

template <class K, class V, class H>
void run_typed(const Plan &p) {
    std::vector<Op> ops = parse_ops(p);
    auto *hist = new std::vector<Rec>(ops.size());
    int nt = 0;
    for (auto &o : ops) nt = std::max(nt, o.thread + 1);
    Cache<K, V, H> cache;
    // the clients run as one simulated process so that allocation faults hit only them
    std::vector<std::string> bad;
    int pid = start_process([&]() -> int {
        auto client = [&](int t) {
            for (size_t i = 0; i < ops.size(); i++) {
                if (ops[i].thread != t) continue;
                K key;
                V val;
                Rec r;
                {
                    Quiet q;
                    key = mkkey(ops[i].key, (K *)nullptr);
                    val = mkval(ops[i].val, (V *)nullptr);
                    r.op = ops[i];
                }
                r.inv = seq();
                try {
                    if (r.op.kind == 's')
                        cache.save(key, val);
                    else if (r.op.kind == 'r') {
                        if (auto e = cache.restore(key)) {
                            Quiet q;
                            r.hit = true;
                            if (!readval(*e, r.got)) bad.push_back("torn value for key " + std::to_string(r.op.key));
                        }
                    } else
                        cache.clear();
                } catch (std::bad_alloc &) {
                    Quiet q;
                    r.oom = true;
                } catch (std::exception &) {
                    Quiet q;
                    r.threw = true;
                }
                Quiet q;
                r.ret = seq();
                r.done = true;
                if (r.op.kind != 's' && r.threw) bad.push_back("a read or clear threw an exception");
                (*hist)[i] = r;
                log("%s", show(r).c_str());
            }
        };
        std::vector<std::thread> th;
        {
            faults_enable(false);
            for (int t = 0; t < nt; t++) th.emplace_back(client, t);
            faults_enable(true);
        }
        for (auto &t : th) t.join();
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    Quiet q;
    faults_enable(false);
    if (pi.how != Exit::Done) violation("abort", "a cache call ended the program: %s", pi.what.c_str());
    if (!bad.empty()) violation("torn", "%s", bad[0].c_str());
    // final state, one read per key, after everything
    std::set<int> keys;
    for (auto &o : ops) keys.insert(o.key);
    for (int k : keys) {
        Rec r;
        r.op = {99, 'r', k, 0};
        r.inv = seq();
        if (auto e = cache.restore(mkkey(k, (K *)nullptr))) {
            r.hit = true;
            if (!readval(*e, r.got)) violation("torn", "final value of key %d is torn", k);
        }
        r.ret = seq();
        r.done = true;
        hist->push_back(r);
    }
    int saved = 0, hits = 0, refused = 0, clears = 0, oom = 0;
    for (auto &r : *hist) {
        saved += r.op.kind == 's' && !r.threw && !r.oom;
        refused += r.op.kind == 's' && r.threw;
        hits += r.op.kind == 'r' && r.hit;
        clears += r.op.kind == 'c';
        oom += r.oom;
    }
    probe("saves", saved);
    probe("refused_saves", refused);
    probe("hits", hits);
    probe("clears", clears);
    if (oom) probe("calls_failed_for_memory", oom);
    Checker c(*hist);
    if (!c.go(0, {})) {
        std::string s;
        for (auto &r : *hist) s += show(r) + " ";
        violation("not-linearizable", "no order of the calls explains: %s", s.c_str());
    }
    if (c.budget == UINT64_MAX) probe("checker_budget_exhausted");
}
void execute(const Plan &p) {
    switch (int(p.knob("types", 0))) {
    case 0: run_typed<int, uint64_t, std::hash<int>>(p); break;
    case 1: run_typed<BigKey, BigVal, BigHash>(p); break;
    case 2: run_typed<int, BigVal, BadHash>(p); break;
    default: run_typed<std::string, std::string, std::hash<std::string>>(p); break;
    }
}
void generate(Plan &p, Rng &r, bool thorough) {
    int nt = r.range(2, 4), nk = r.range(1, 5);
    int n = r.range(4, thorough ? 44 : 30);
    double pc = r.chance(0.4) ? 0 : r.unit() * 0.3, ps = 0.2 + r.unit() * 0.6;
    uint64_t v = 1;
    // growth phase makes the table rehash while others read
    bool grow = r.chance(0.3);
    for (int i = 0; i < n; i++) {
        int t = r.range(0, nt - 1);
        char k = r.chance(pc) ? 'c' : r.chance(ps) ? 's' : 'r';
        int key = grow ? r.range(0, 20) : r.range(0, nk - 1);
        p.ops.push_back(std::to_string(t) + " " + k + " " + std::to_string(key) + " " + std::to_string(v++));
    }
    p.knobs["types"] = std::to_string(r.range(0, 3));
    p.knobs["shadow"] = r.chance(0.7) ? "1" : "0";
    const char *pm[] = {"0", "0.002", "0.02", "0.1"};
    p.knobs["p_mem"] = pm[r.range(0, 3)];
    const char *pc2[] = {"0", "0.05", "0.3"};
    p.knobs["p_conf"] = pc2[r.range(0, 2)];
    const char *psy[] = {"0.05", "0.3", "0.7"};
    p.knobs["p_sync"] = psy[r.range(0, 2)];
    if (r.chance(0.3)) {
        int nf = r.range(1, 3);
        for (int i = 0; i < nf; i++) {
            Fault f;
            f.cls = "alloc";
            f.pid = 1;
            f.nth = 1 + r.below(60);
            f.action = "enomem";
            p.faults.push_back(f);
        }
    }
}
Register reg({"cache", "C01", generate, execute, 1.0});
} // namespace
