// C16: configurations written to and read from files, with faults, kills, and damage.
#include "ConfParser.hpp"
#include "scen/util.hpp"
#include <cstring>
#include <limits>
#include <memory>
#include <set>

using namespace sim;
namespace {
using Map = std::map<std::string, std::string>;
struct FileState {
    bool certain = true;         // content is exactly known
    bool exists = false;
    bool damaged = false;        // certain, and every load has to be refused
    Map content;
    std::vector<Map> possible;   // not certain: these, or refused
};
std::map<std::string, FileState> *F;
bool bad_utf8(const Map &m) {
    for (auto &p : m)
        for (auto *s : {&p.first, &p.second})
            if (s->find('\xff') != std::string::npos || s->find('\xc0') != std::string::npos) return true;
    return false;
}
std::string text_of(int n) {
    static const char *t[] = {"Hello World!", "", "a/b\\c", "say \"hi\"", "line1\nline2\r\n\ttab", "\x01\x02\x1f\x7f control", "\xc3\xa4\xe2\x82\xac\xf0\x9d\x84\x9e", "{\"not\":[json]}",
                              "  spaces  ", "null", "true", "0123", "1.10", "\\u0041", "Rb", "<&>'", "%s%n", "a.b.c", "[]", "{}"};
    std::string s = t[n % 20];
    if (n % 7 == 3) s += std::string(200 + n % 900, char('a' + n % 26));
    if (n % 23 == 5) s += std::string(9000 + n * 7 % 9000, char('A' + n % 26));
    if (n % 29 == 4) s += std::string("\0nul", 4);
    return s;
}
std::string key_of(int n) {
    static const char *t[] = {"first", "second", "n1", "species1", "dotted.key", "a.b.c", "with space", "quote\"d", "sl/ash", "back\\slash", "\xc3\xa4", ".", "x.", "UPPER", "deltaESingle", "new\nline"};
    return n < 16 ? std::string(t[n]) : "key" + std::to_string(n);
}
double dbl_of(int n) {
    static const double t[] = {0.1, 1.0 / 3, 1e300, -1e-300, -0.0, 1 + 2.220446049250313e-16, 123456.789, 1e6, 1234567, 1e15, 3.5173067238e16, 2.5, 100, -7.25e-5, 1.7976931348623157e308, 2.2250738585072014e-308, 0.30000000000000004, 4503599627370497.5};
    if (n < 18) return t[n];
    Rng r(n);
    return (r.unit() - 0.5) * std::pow(10.0, r.range(-20, 20));
}
Map map_of(const Configuration &c) {
    Map m;
    for (auto const &p : c) m[p.first] = p.second.str();
    return m;
}
std::string show(const Map &m) {
    std::string s;
    for (auto &p : m) s += p.first.substr(0, 20) + "=" + p.second.substr(0, 30) + "; ";
    for (auto &c : s)
        if (c == '\n' || c == '\0' || c == '\r') c = ' ';
    return std::to_string(m.size()) + " entries: " + s.substr(0, 300);
}
struct World {
    Configuration c[3];
    Map m[3];
};
bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

void set_value(World &w, int o, const std::string &key, const std::string &ty, int n) {
    auto &c = w.c[o];
    auto check = [&](bool ok, const char *what) {
        if (!ok) violation("value-changed", "a %s stored under \"%s\" reads back as \"%s\"", what, key.c_str(), c[key].str().substr(0, 80).c_str());
    };
    const Configuration &cc = c;
    if (ty == "i") {
        static const int sp[] = {0, -1, 1, 2147483647, -2147483647 - 1, 1000000, -123456789};
        int v = n < 7 ? sp[n] : int(Rng(n).next()), a = 5, b = 6;
        c[key] << v;
        c[key] >> a;
        cc[key] >> b;
        check(a == v && b == v && c[key].str() == std::to_string(v), "int");
    } else if (ty == "z") {
        static const size_t sp[] = {0, 1, 18446744073709551615ull, 4294967296ull, 1000000, 2147483648ull};
        size_t v = n < 6 ? sp[n] : size_t(Rng(n).next()), a = 5, b = 6;
        c[key] << v;
        c[key] >> a;
        cc[key] >> b;
        check(a == v && b == v && c[key].str() == std::to_string(v), "size_t");
    } else if (ty == "d") {
        double v = dbl_of(n), a = 5, b = 6;
        c[key] << v;
        c[key] >> a;
        cc[key] >> b;
        check(same_bits(a, v) && same_bits(b, v) && same_bits(strtod(c[key].str().c_str(), nullptr), v), "double");
    } else if (ty == "f") {
        float v = n < 18 ? float(n) * 0.1f : float(Rng(n).unit() * 1e6), a = 5, b = 6;
        c[key] << v;
        c[key] >> a;
        cc[key] >> b;
        check(a == v && b == v, "float");
    } else if (ty == "b") {
        int a = 7;
        bool v = n % 2;
        c[key] << v;
        c[key] >> a;
        check(a == int(v), "bool");
    } else {
        std::string v = text_of(n), a, b;
        if (ty == "x") v += "\xff\xc0";
        if (ty == "c" && v.find('\0') == std::string::npos)
            c[key] << v.c_str();
        else
            c[key] << v;
        c[key] >> a;
        cc[key] >> b;
        check(a == v && b == v && c[key].str() == v, "text");
    }
    w.m[o][key] = c[key].str();
}
void run_op(World &w, const std::string &op) {
    Quiet q;
    auto a = words(op);
    auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
    auto P = [&](int i) { return "/sim/work/conf" + std::to_string(i % 3) + ".json"; };
    int o = I(1) % 3;
    uint64_t f0 = fault_count();
    if (a[0] == "set") {
        std::string k = key_of(I(2));
        set_value(w, o, k, a[3], I(4));
    } else if (a[0] == "copy") { // value to value
        std::string k1 = key_of(I(2)), k2 = key_of(I(3));
        if (!w.m[o].count(k1)) return;
        if (I(4) % 2)
            w.c[o][k2] << w.c[o][k1];
        else
            w.c[o][k1] >> w.c[o][k2];
        w.m[o][k2] = w.m[o][k1];
    } else if (a[0] == "plus") {
        w.c[o] += w.c[I(2) % 3];
        for (auto p : Map(w.m[I(2) % 3])) w.m[o][p.first] = p.second;
    } else if (a[0] == "fresh") {
        w.c[o] = Configuration();
        w.m[o].clear();
    } else if (a[0] == "eq") {
        int o2 = I(2) % 3;
        if ((w.c[o] == w.c[o2]) != (w.m[o] == w.m[o2])) violation("wrong-comparison", "configurations %d and %d compare wrongly", o, o2);
        if (w.c[o].size() != w.m[o].size()) violation("wrong-size", "size() is %zu instead of %zu", w.c[o].size(), w.m[o].size());
        for (auto &p : w.m[o]) {
            auto it = w.c[o].find(p.first);
            if (w.c[o].count(p.first) != 1 || it == w.c[o].end() || it->second.str() != p.second) violation("value-changed", "entry %s is lost", p.first.c_str());
        }
    } else if (a[0] == "save") {
        auto &f = (*F)[P(I(2))];
        // until the call has returned, the file may hold either content or be refused
        FileState before = f;
        if (f.certain) {
            f.possible.clear();
            if (f.exists && !f.damaged) f.possible.push_back(f.content);
        }
        f.certain = false;
        f.possible.push_back(w.m[o]);
        bool ok = true;
        std::string what;
        std::string path = P(I(2));
        try {
            --quiet_level();
            w.c[o].save_to_json(path);
            ++quiet_level();
        } catch (std::exception &e) {
            ++quiet_level();
            ok = false;
            what = e.what();
        }
        log("save %d -> %s %s", o, ok ? "ok" : "error", what.c_str());
        if (ok) {
            f.certain = true;
            f.exists = true;
            f.damaged = false;
            f.content = w.m[o];
            probe("saves_ok");
        } else {
            if (fault_count() == f0) violation("spurious-error", "saving %s failed without a fault: %s", show(w.m[o]).c_str(), what.c_str());
            probe("saves_failed");
        }
    } else if (a[0] == "load") {
        auto &f = (*F)[P(I(2))];
        Map expect = w.m[o];
        for (auto &p : f.content) expect[p.first] = p.second;
        bool ok = true;
        std::string what;
        std::string path = P(I(2));
        try {
            --quiet_level();
            w.c[o].load_from_json(path);
            ++quiet_level();
        } catch (std::exception &e) {
            ++quiet_level();
            ok = false;
            what = e.what();
        }
        bool faulted = fault_count() != f0;
        Map got = map_of(w.c[o]);
        log("load %d -> %s %s", o, ok ? "ok" : "error", what.c_str());
        if (!ok) {
            if (got != w.m[o]) violation("half-read", "after a failed load the configuration has %s, before %s", show(got).c_str(), show(w.m[o]).c_str());
            if (f.certain && f.exists && !f.damaged && !faulted && !bad_utf8(f.content))
                violation("spurious-error", "loading %s failed: %s", show(f.content).c_str(), what.c_str());
            probe(faulted ? "loads_failed_by_fault" : "loads_refused");
            return;
        }
        if (f.certain) {
            if (!f.exists) violation("error-not-reported", "loading a missing file succeeded");
            if (f.damaged) violation("error-not-reported", "loading a damaged file succeeded with %s", show(got).c_str());
            if (got != expect) violation("value-changed", "read back %s, written %s", show(got).c_str(), show(expect).c_str());
        } else {
            bool any = false;
            for (auto &c : f.possible) {
                Map e = w.m[o];
                for (auto &p : c) e[p.first] = p.second;
                any |= e == got;
            }
            if (!any) violation("half-read", "after an interrupted save the file was read as %s, which was never saved", show(got).c_str());
        }
        w.m[o] = got;
        probe("loads_ok");
    } else if (a[0] == "damage") {
        auto &f = (*F)[P(I(1))];
        std::string d, p = P(I(1));
        if (!f.certain || !f.exists || f.damaged || !fs_read(p, d)) return;
        if (a[2] == "cut") {
            size_t last = d.find_last_not_of(" \n\r\t");
            size_t k = I(3) % (d.size() + 1);
            f.damaged = last == std::string::npos || k <= last;
            fs_put(p, d.substr(0, k));
        } else if (a[2] == "remove") {
            fs_remove(p);
            f.exists = false;
        } else if (a[2] == "garbage") {
            static const char *g[] = {"", "garbage", "{\"a\": ", "{\"a\": \"1\"} trailing", "SQLite format 3", "{'a': '1'}", "{\"a\" \"1\"}", "[\"a\": 1}"};
            fs_put(p, g[I(3) % 8]);
            f.damaged = true;
        } else if (a[2] == "tail") {
            fs_put(p, d + "}");
            f.damaged = true;
        }
        if (f.damaged) {
            probe("files_damaged");
        }
    }
}
void execute(const Plan &p) {
    std::vector<std::string> ops = p.ops;
    {
        Quiet q;
        F = new std::map<std::string, FileState>;
        fs_mkdirs("/sim/work");
    }
    int64_t cap = int64_t(p.knob("disk", -1));
    if (cap >= 0) fs_set_capacity(fs_used() + cap);
    int pid = start_process([&]() -> int {
        World *w;
        {
            Quiet q;
            w = new World;
        }
        for (auto &op : ops) run_op(*w, op);
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    if (pi.how != Exit::Done && pi.how != Exit::Killed) violation("abort", "the program ended: %s", pi.what.c_str());
    faults_enable(false);
    fs_set_capacity(-1);
    // a new program on what is left
    int p2 = start_process([&]() -> int {
        auto *w = new World;
        for (int f = 0; f < 3; f++) {
            run_op(*w, "fresh 0");
            run_op(*w, "load 0 " + std::to_string(f));
        }
        run_op(*w, "set 1 3 d 16");
        run_op(*w, "set 1 4 s 3");
        run_op(*w, "save 1 0");
        run_op(*w, "fresh 2");
        run_op(*w, "load 2 0");
        run_op(*w, "eq 1 2");
        if (fs_open_files(self_pid()) != 0) violation("file-left-open", "a file is still open after all calls returned");
        return 0;
    });
    pi = wait_process(p2);
    if (pi.how != Exit::Done) violation("abort", "the program ended: %s", pi.what.c_str());
}
void generate(Plan &p, Rng &r, bool thorough) {
    auto S = [](int x) { return std::to_string(x); };
    int n = r.range(6, thorough ? 70 : 45);
    bool faults = r.chance(0.6);
    int keys = r.chance(0.5) ? 8 : 30;
    double pd = r.chance(0.6) ? 0.08 : 0, px = r.chance(0.1) ? 0.05 : 0;
    for (int i = 0; i < n; i++) {
        double u = r.unit();
        std::string o = S(r.range(0, 2));
        if (u < 0.45) {
            const char *ty[] = {"i", "z", "d", "d", "f", "b", "s", "s", "c"};
            std::string t = r.chance(px) ? "x" : ty[r.below(9)];
            p.ops.push_back("set " + o + " " + S(r.range(0, keys)) + " " + t + " " + S(r.range(0, 60)));
        } else if (u < 0.5)
            p.ops.push_back("copy " + o + " " + S(r.range(0, keys)) + " " + S(r.range(0, keys)) + " " + S(r.range(0, 1)));
        else if (u < 0.54)
            p.ops.push_back("plus " + o + " " + S(r.range(0, 2)));
        else if (u < 0.57)
            p.ops.push_back("fresh " + o);
        else if (u < 0.63)
            p.ops.push_back("eq " + o + " " + S(r.range(0, 2)));
        else if (r.chance(pd)) {
            const char *k[] = {"cut", "cut", "cut", "remove", "garbage", "tail"};
            p.ops.push_back("damage " + S(r.range(0, 2)) + " " + k[r.below(6)] + " " + S(r.range(0, 4000)));
        } else if (u < 0.82)
            p.ops.push_back("save " + o + " " + S(r.range(0, 2)));
        else
            p.ops.push_back("load " + o + " " + S(r.range(0, 2)));
    }
    knob(p, "shadow", r.chance(0.2));
    knob(p, "p_io", pick(r, {0.1, 0.4, 0.8}));
    if (faults) {
        int nf = r.range(1, 3);
        double u = r.unit();
        if (u < 0.2)
            knob(p, "disk", r.range(0, 30000));
        else if (u < 0.45)
            add_fault(p, "any", 1, 1 + r.below(120), 1, "kill");
        else if (u < 0.6)
            add_fault(p, "write", 1, 1 + r.below(30), 1, "torn", r.range(0, 20000));
        else
            for (int i = 0; i < nf; i++) {
                const char *cls[] = {"read", "write", "write", "open", "alloc"};
                const char *c = cls[r.below(5)];
                const char *act = c[0] == 'a' ? "enomem" : c[0] == 'w' ? (r.chance(0.4) ? "enospc" : r.chance(0.5) ? "short" : "eio")
                    : c[0] == 'o' ? (r.chance(0.5) ? "emfile" : "eacces") : r.chance(0.3) ? "short" : "eio";
                add_fault(p, c, 1, 1 + r.below(c[0] == 'a' ? 600 : 40), r.chance(0.8) ? 1 : r.range(2, 8), act, r.range(0, 3000));
            }
    }
}
Register reg({"config", "C16", generate, execute, 1.0});
} // namespace
