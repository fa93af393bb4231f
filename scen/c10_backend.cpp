// C10-C14: the whole backend (compute<>) on a simulated cache directory: several runs and several
// processes, OpenMP threads, kills, failing writes, full disks and damaged files.
#include "ConfParser.hpp"
#include "Hamiltonianmatrix.hpp"
#include "Interface.hpp"
#include "scen/util.hpp"
#include <algorithm>
#include <complex>
#include <cstring>
#include <gsl/gsl_errno.h>
#include <map>
#include <memory>
#include <omp.h>
#include <set>

using namespace sim;
namespace {
typedef std::map<std::string, std::string> KV;

struct Dense {
    long r = 0, c = 0;
    std::vector<std::complex<double>> v;
};
struct Result { // of one announced step
    std::string raw;  // the matrix file
    std::string json; // the parameter file, canonical
};
struct Block {
    int typ = -1;
    long bas = -1, tot = -1;
    std::string sta; // content of the basis file
    std::map<long, Result> out;
    std::map<long, std::array<long, 3>> ids; // step, number of blocks, block
};
struct Reference {
    bool ok = false;
    std::vector<Block> blocks;
};
struct Config {
    KV kv;
    bool cplx = false;
    Reference ref;
};
struct Proc {
    int pid = 0, cfg = 0;
    std::string pending;
    std::vector<std::string> lines;
    size_t block = 0; // blocks seen so far
    Block cur;
    long dims = 0;
    int stage = 0; // 0 before TYP, 1 TYP, 2 BAS, 3 STA, 4 TOT
    bool ended = false, err = false;
    std::vector<std::pair<std::string, std::pair<size_t, long>>> announced; // path, block and step
    std::vector<std::pair<std::string, size_t>> bases;
};
std::vector<Config> *CFG;
std::map<int, Proc> *PR;
std::map<std::string, int> *WATCH; // announced matrix files
bool limited = false;

template <class S>
Dense dense_of(const Eigen::SparseMatrix<S> &m) {
    Dense d;
    d.r = m.rows();
    d.c = m.cols();
    d.v.assign(size_t(d.r * d.c), 0);
    for (int k = 0; k < m.outerSize(); k++)
        for (typename Eigen::SparseMatrix<S>::InnerIterator it(m, k); it; ++it) d.v[size_t(it.col() * d.r + it.row())] = it.value();
    return d;
}
// entries E and basis B of a matrix file; false if it is refused
template <class S>
bool load_as(const std::string &raw, Dense &e, Dense &b) {
    fs_mkdirs("/sim/oracle");
    fs_put("/sim/oracle/m.mat", raw);
    Hamiltonianmatrix<S> m;
    bool ok = m.load("/sim/oracle/m.mat");
    fs_remove("/sim/oracle/m.mat");
    if (!ok) return false;
    e = dense_of(m.entries());
    b = dense_of(m.basis());
    return true;
}
bool load_mat(bool cplx, const std::string &raw, Dense &e, Dense &b) { return cplx ? load_as<std::complex<double>>(raw, e, b) : load_as<double>(raw, e, b); }
std::string canon_json(const std::string &raw) {
    fs_mkdirs("/sim/oracle");
    fs_put("/sim/oracle/c.json", raw);
    std::string s;
    try {
        Configuration c;
        c.load_from_json("/sim/oracle/c.json");
        for (auto const &p : c) s += p.first + "=" + p.second.str() + "\n";
    } catch (std::exception &e) {
        s = std::string("unreadable: ") + e.what();
    }
    fs_remove("/sim/oracle/c.json");
    return s;
}
// H = B E B^+ in the coordinates, so that rotations within degenerate eigenspaces do not matter
std::vector<std::complex<double>> rebuild(const Dense &e, const Dense &b) {
    std::vector<std::complex<double>> h(size_t(b.r * b.r), 0);
    for (long k = 0; k < b.c; k++) {
        double ev = e.v[size_t(k * e.r + k)].real();
        for (long j = 0; j < b.r; j++) {
            auto cj = std::conj(b.v[size_t(k * b.r + j)]) * ev;
            if (cj == 0.) continue;
            for (long i = 0; i < b.r; i++) h[size_t(j * b.r + i)] += b.v[size_t(k * b.r + i)] * cj;
        }
    }
    return h;
}
// empty if the two files describe the same eigenvalues and eigenvectors
std::string differ(bool cplx, const std::string &got, const std::string &want) {
    if (got == want) return "";
    Dense e1, b1, e2, b2;
    char t[300];
    if (!load_mat(cplx, want, e2, b2)) return "the reference file cannot be read";
    if (!load_mat(cplx, got, e1, b1)) return "the file is incomplete or unreadable (" + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ")";
    if (e1.r != e2.r || e1.c != e2.c || b1.r != b2.r || b1.c != b2.c) {
        snprintf(t, sizeof t, "a %ldx%ld matrix with a %ldx%ld basis instead of %ldx%ld with %ldx%ld", e1.r, e1.c, b1.r, b1.c, e2.r, e2.c, b2.r, b2.c);
        return t;
    }
    double scale = 1e-3;
    for (long i = 0; i < e2.c; i++) scale = std::max(scale, std::abs(e2.v[size_t(i * e2.r + i)]));
    double tol = 1e-11 * scale;
    std::vector<double> x, y;
    for (long i = 0; i < e1.c; i++) x.push_back(e1.v[size_t(i * e1.r + i)].real()), y.push_back(e2.v[size_t(i * e2.r + i)].real());
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    for (size_t i = 0; i < x.size(); i++)
        if (!(std::fabs(x[i] - y[i]) <= tol)) {
            snprintf(t, sizeof t, "eigenvalue %zu is %.15g instead of %.15g", i, x[i], y[i]);
            return t;
        }
    auto h1 = rebuild(e1, b1), h2 = rebuild(e2, b2);
    for (size_t i = 0; i < h1.size(); i++)
        if (!(std::abs(h1[i] - h2[i]) <= 10 * tol)) {
            snprintf(t, sizeof t, "the eigenvectors differ: element %zu of the rebuilt matrix is %.15g instead of %.15g", i, std::abs(h1[i]), std::abs(h2[i]));
            return t;
        }
    return "";
}
std::string conf_path(int i) { return "/sim/conf/conf" + std::to_string(i) + ".json"; }
void put_conf(int i) {
    Configuration c;
    for (auto &p : (*CFG)[i].kv) c[p.first] << p.second;
    fs_mkdirs("/sim/conf");
    c.save_to_json(conf_path(i));
}
int call(int cfg, const std::string &dir) {
    if ((*CFG)[cfg].cplx) return compute<std::complex<double>>(conf_path(cfg), dir);
    return compute<double>(conf_path(cfg), dir);
}

// ---- the announced lines
bool number(const std::string &s, size_t at, long &v) {
    if (s.size() < at + 7) return false;
    size_t i = at;
    while (i < at + 7 && s[i] == ' ') i++;
    if (i == at + 7) return false;
    v = 0;
    for (; i < at + 7; i++) {
        if (s[i] < '0' || s[i] > '9') return false;
        v = v * 10 + (s[i] - '0');
    }
    return true;
}
[[noreturn]] void bad(const Proc &p, const char *cls, const std::string &line, const std::string &why) {
    violation(cls, "process %d (configuration %d), line %zu \"%s\": %s", p.pid, p.cfg, p.lines.size(), line.substr(0, 90).c_str(), why.c_str());
}
void check_result(Proc &p, const std::string &path, size_t block, long n, const char *when, const std::string &line) {
    const Reference &ref = (*CFG)[p.cfg].ref;
    auto it = ref.blocks[block].out.find(n);
    std::string raw;
    if (!fs_read(path + ".mat", raw)) bad(p, "announced-missing", line, std::string("there is no file ") + path + ".mat " + when);
    std::string d = differ((*CFG)[p.cfg].cplx, raw, it->second.raw);
    if (!d.empty()) bad(p, "announced-wrong", line, std::string("the file ") + when + ": " + d);
    if (!fs_read(path + ".json", raw)) bad(p, "announced-missing", line, std::string("there is no parameter file ") + when);
    std::string j = canon_json(raw);
    if (j != it->second.json) {
        std::istringstream a(j), b(it->second.json);
        std::string x, y;
        while (std::getline(a, x) && std::getline(b, y) && x == y) {}
        bad(p, "announced-wrong", line, std::string("the parameter file ") + when + " differs: " + x + " instead of " + y);
    }
}
void take_line(Proc &p, const std::string &l) {
    p.lines.push_back(l);
    const Reference *ref = (*CFG)[p.cfg].ref.ok ? &(*CFG)[p.cfg].ref : nullptr;
    if (l.compare(0, 2, ">>") != 0) {
        if (l.find(">>") != std::string::npos) bad(p, "mixed-lines", l, "an announcement inside another line");
        if (p.ended && !l.empty()) bad(p, "after-end", l, "output after the end line");
        return;
    }
    if (l.find(">>", 2) != std::string::npos) bad(p, "mixed-lines", l, "two announcements in one line");
    std::string tag = l.substr(2, 3);
    if (p.ended) bad(p, "after-end", l, "an announcement after the end line");
    long v = -1;
    auto close_block = [&]() {
        if (p.stage == 0) return;
        if (p.stage != 4 || long(p.cur.out.size()) != p.cur.tot || p.dims != p.cur.tot)
            bad(p, "incomplete-block", l, "only " + std::to_string(p.cur.out.size()) + " of " + std::to_string(p.cur.tot) + " results and " + std::to_string(p.dims) + " dimensions were announced before");
        p.block++;
        p.stage = 0;
        p.cur = Block();
        p.dims = 0;
    };
    if (tag == "TYP" || tag == "BAS" || tag == "TOT" || tag == "DIM") {
        if (l.size() != 12 || !number(l, 5, v)) bad(p, "malformed-line", l, "not a number of seven columns");
    }
    if (tag == "TYP") {
        close_block();
        p.stage = 1;
        p.cur.typ = int(v);
        if (ref && (p.block >= ref->blocks.size() || ref->blocks[p.block].typ != v)) bad(p, "wrong-announcement", l, "not the expected calculation");
    } else if (tag == "BAS") {
        if (p.stage != 1) bad(p, "wrong-order", l, "does not follow the type");
        p.stage = 2;
        p.cur.bas = v;
        if (ref && ref->blocks[p.block].bas != v) bad(p, "wrong-announcement", l, "the basis should have " + std::to_string(ref->blocks[p.block].bas) + " states");
    } else if (tag == "STA") {
        if (p.stage != 2 || l[5] != ' ') bad(p, "wrong-order", l, "does not follow the basis size");
        p.stage = 3;
        std::string path = l.substr(6);
        if (!fs_read(path, p.cur.sta)) bad(p, "announced-missing", l, "the basis file does not exist");
        if (ref && p.cur.sta != ref->blocks[p.block].sta)
            bad(p, "announced-wrong", l, "the basis file has " + std::to_string(p.cur.sta.size()) + " bytes and differs from the one of an undisturbed run (" + std::to_string(ref->blocks[p.block].sta.size()) + " bytes)");
        p.bases.push_back({path, p.block});
    } else if (tag == "TOT") {
        if (p.stage != 3) bad(p, "wrong-order", l, "does not follow the basis");
        p.stage = 4;
        p.cur.tot = v;
        if (ref && ref->blocks[p.block].tot != v) bad(p, "wrong-announcement", l, "the total should be " + std::to_string(ref->blocks[p.block].tot));
    } else if (tag == "DIM") {
        if (p.stage != 4) bad(p, "wrong-order", l, "does not follow the total");
        p.dims++;
        if (p.dims > p.cur.tot) bad(p, "wrong-announcement", l, "more dimensions than announced results");
    } else if (tag == "OUT") {
        long n, step, nb, b;
        if (p.stage != 4) bad(p, "wrong-order", l, "does not follow the total");
        if (l.size() < 35 || !number(l, 5, n) || !number(l, 12, step) || !number(l, 19, nb) || !number(l, 26, b) || l[33] != ' ') bad(p, "malformed-line", l, "not four numbers and a path");
        if (n < 1 || n > p.cur.tot || nb < 1 || b >= nb || n != step * nb + b + 1) bad(p, "wrong-announcement", l, "the numbers do not fit together");
        if (p.cur.out.count(n)) bad(p, "announced-twice", l, "this result was announced before");
        p.cur.out[n];
        if (long(p.cur.out.size()) > p.dims) bad(p, "wrong-order", l, "the dimension of this result was not announced");
        std::string path = l.substr(34);
        if (ref) {
            if (ref->blocks[p.block].ids.at(n) != std::array<long, 3>{{step, nb, b}}) bad(p, "wrong-announcement", l, "other numbers than in an undisturbed run");
            check_result(p, path, p.block, n, "at its announcement", l);
            p.announced.push_back({path, {p.block, n}});
            (*WATCH)[path + ".mat"]++;
        } else {
            fs_read(path + ".mat", p.cur.out[n].raw);
            std::string raw;
            fs_read(path + ".json", raw);
            p.cur.out[n].json = canon_json(raw);
            p.cur.ids[n] = {{step, nb, b}};
        }
    } else if (tag == "END") {
        if (l.size() != 5) bad(p, "malformed-line", l, "something follows the end mark");
        Block last = p.cur;
        close_block();
        if (ref && p.block != ref->blocks.size()) bad(p, "incomplete-block", l, "a calculation is missing");
        p.ended = true;
    } else if (tag == "ERR") {
        p.err = true;
    } else
        bad(p, "malformed-line", l, "unknown announcement");
    if (!ref && p.cur.typ >= 0) {
        auto &bl = (*CFG)[p.cfg].ref.blocks;
        if (bl.size() <= p.block) bl.resize(p.block + 1);
        bl[p.block] = p.cur;
    }
}
void on_output(int pid, const char *s, size_t n) {
    auto it = PR->find(pid);
    if (it == PR->end()) return;
    Proc &p = it->second;
    p.pending.append(s, n);
    size_t nl;
    while ((nl = p.pending.find('\n')) != std::string::npos) {
        std::string l = p.pending.substr(0, nl);
        p.pending.erase(0, nl + 1);
        take_line(p, l);
    }
}
// the special functions give up for some states; the real program would abort
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};
void gsl_fails(const char *reason, const char *, int, int) { throw Unsupported(reason); }
double value(const KV &kv, const std::string &k) {
    auto it = kv.find(k);
    return it == kv.end() ? 0 : atof(it->second.c_str());
}
// every step has to exist and to carry the fields and the distance that the configuration asks for
void check_labels(int i) {
    const Config &c = (*CFG)[i];
    static const char *fields[] = {"Ex", "Ey", "Ez", "Bx", "By", "Bz"};
    bool still = true;
    for (auto f : fields) still = still && value(c.kv, std::string("min") + f) == value(c.kv, std::string("max") + f);
    long steps = long(value(c.kv, "steps"));
    for (auto &b : c.ref.blocks) {
        bool pair = b.typ == 2;
        long n = still && (!pair || value(c.kv, "minR") == value(c.kv, "maxR")) ? 1 : steps;
        if (pair && b.tot == 0) continue; // no pair state has the symmetry that was asked for
        if (b.tot < n || b.tot % n != 0 || (!pair && b.tot != n))
            violation("wrong-steps", "configuration %d, calculation of type %d: %ld results are announced for %ld steps", i, b.typ, b.tot, n);
        long per = b.tot / n;
        std::set<std::string> seen;
        for (auto &o : b.out) {
            auto id = b.ids.at(o.first);
            if (id[0] >= n || id[1] != per) violation("wrong-steps", "configuration %d, calculation of type %d: result %ld has step %ld of %ld and %ld blocks instead of %ld", i, b.typ, o.first, id[0], n, id[1], per);
            std::map<std::string, std::string> j;
            std::istringstream is(o.second.json);
            for (std::string l; std::getline(is, l);) j[l.substr(0, l.find('='))] = l.substr(l.find('=') + 1);
            std::vector<std::string> ks(fields, fields + 6);
            if (pair) ks.push_back("R");
            for (auto &k : ks) {
                double lo = value(c.kv, "min" + k), hi = value(c.kv, "max" + k), want = n > 1 ? lo + double(id[0]) / double(n - 1) * (hi - lo) : lo;
                if (!j.count(k) || !(std::fabs(atof(j[k].c_str()) - want) <= 1e-12 * (std::fabs(lo) + std::fabs(hi)))) violation("wrong-label", "configuration %d, calculation of type %d, result %ld: its parameter file has %s = \"%s\" instead of %.17g", i, b.typ, o.first, k.c_str(), j[k].c_str(), want);
            }
            for (auto k : {"deltaESingle", "deltaNSingle", "deltaLSingle", "deltaJSingle", "deltaMSingle", "diamagnetism", "missingCalc", "missingWhittaker", "deltaEPair", "deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair", "exponent"})
                if (c.kv.count(k) && (pair || !strstr(k, "Pair")) && strcmp(k, pair ? "" : "exponent") != 0 && j[k] != c.kv.at(k))
                    violation("wrong-label", "configuration %d, calculation of type %d, result %ld: its parameter file has %s = \"%s\" instead of %s", i, b.typ, o.first, k, j[k].c_str(), c.kv.at(k).c_str());
            if (!seen.insert(o.second.json + "|" + std::to_string(still && pair ? 0 : id[0])).second) violation("wrong-label", "configuration %d, calculation of type %d: result %ld has the same parameters as another block of its step", i, b.typ, o.first);
        }
    }
}
bool make_reference(int i) {
    Config &c = (*CFG)[i];
    put_conf(i);
    std::string dir = "/sim/ref" + std::to_string(i);
    fs_mkdirs(dir);
    (*PR)[0] = Proc();
    (*PR)[0].cfg = i;
    std::string what;
    int rc = -1;
    try {
        rc = call(i, dir);
    } catch (Unsupported &) {
        probe("configs_out_of_range");
        return false;
    } catch (std::exception &e) {
        what = e.what();
    }
    Proc &p = (*PR)[0];
    if (rc != 0 || !p.ended || !p.pending.empty()) violation("fails-alone", "configuration %d alone on an empty directory fails (code %d, %s)", i, rc, what.c_str());
    for (auto &b : c.ref.blocks)
        for (auto &o : b.out) {
            Dense e, bb;
            if (!load_mat(c.cplx, o.second.raw, e, bb)) violation("fails-alone", "configuration %d alone: result %ld cannot be read", i, o.first);
        }
    check_labels(i);
    c.ref.ok = true;
    PR->erase(0);
    for (auto &f : fs_tree(dir)) fs_remove(f);
    return true;
}
const char *DIR = "/sim/cache";

void finish(int pid, uint64_t f0) {
    ProcInfo pi = wait_process(pid);
    Quiet q;
    Proc &p = (*PR)[pid];
    // a fault that hit another process is no excuse, so the plan's own numbers decide
    bool faulted = false;
    for (auto &f : plan.faults)
        if ((f.pid == 0 || f.pid == pid) && fault_count() > f0) faulted = true;
    bool ok = pi.how == Exit::Done && pi.code == 0;
    log("process %d: how %d code %d %s, %zu lines, %s", pid, int(pi.how), pi.code, pi.what.c_str(), p.lines.size(), p.ended ? "ended" : "no end");
    if (pi.how == Exit::Killed) {
        probe("runs_killed");
        return;
    }
    if (p.ended && !ok) violation("false-end", "process %d announced its end and then failed: %s", pid, pi.what.c_str());
    if (ok && !p.ended) violation("missing-end", "process %d ended with code 0 but did not announce the end (its last line is \"%s\")", pid, p.lines.empty() ? "" : p.lines.back().c_str());
    if (ok && !p.pending.empty()) violation("after-end", "process %d left an incomplete line \"%s\"", pid, p.pending.c_str());
    if (!ok) {
        if (!faulted && !limited) violation("run-failed", "process %d (configuration %d) failed although nothing disturbed it: %s (its last line is \"%s\")", pid, p.cfg, pi.what.c_str(), p.lines.empty() ? "" : p.lines.back().c_str());
        probe("runs_failed");
        return;
    }
    probe("runs_ok");
    for (auto &a : p.announced) check_result(p, a.first, a.second.first, a.second.second, "after the run", a.first);
    for (auto &b : p.bases) {
        std::string raw;
        if (!fs_read(b.first, raw) || raw != (*CFG)[p.cfg].ref.blocks[b.second].sta) violation("announced-wrong", "process %d: the basis file %s is damaged after the run", pid, b.first.c_str());
    }
}
int launch(int cfg) {
    int pid;
    {
        Quiet q;
        // the number is assigned when the process starts; its record has to exist before it writes
        pid = 0;
    }
    pid = start_process([cfg]() {
        {
            Quiet q;
            Proc &p = (*PR)[self_pid()];
            p.pid = self_pid();
            p.cfg = cfg;
        }
        return call(cfg, DIR);
    });
    return pid;
}
void harm(const std::string &kind, uint64_t n) {
    std::vector<std::string> mats, jsons;
    for (auto &f : fs_tree(DIR)) {
        if (f.size() > 4 && f.compare(f.size() - 4, 4, ".mat") == 0) mats.push_back(f);
        if (f.size() > 5 && f.compare(f.size() - 5, 5, ".json") == 0) jsons.push_back(f);
    }
    auto &v = kind.find("json") != std::string::npos ? jsons : mats;
    if (v.empty()) return;
    std::string f = v[n % v.size()], raw;
    fs_read(f, raw);
    WATCH->clear();
    n /= 7;
    if (kind.compare(0, 3, "cut") == 0)
        fs_put(f, raw.substr(0, n % std::max<size_t>(1, raw.size())));
    else if (kind.compare(0, 5, "empty") == 0)
        fs_put(f, "");
    else if (kind.compare(0, 3, "del") == 0)
        fs_remove(f);
    else if (kind.compare(0, 4, "junk") == 0)
        fs_put(f, std::string(1 + n % 300, char(1 + n % 255)));
    log("harm %s %s", kind.c_str(), f.c_str());
    probe("files_damaged");
}
void execute(const Plan &p) {
    CFG = new std::vector<Config>;
    PR = new std::map<int, Proc>;
    WATCH = new std::map<std::string, int>;
    {
        Quiet q;
        for (auto &op : p.ops) {
            auto a = words(op);
            if (a[0] != "conf") continue;
            Config c;
            for (size_t i = 1; i < a.size(); i++) {
                size_t e = a[i].find('=');
                std::string k = a[i].substr(0, e), v = a[i].substr(e + 1);
                if (k == "type")
                    c.cplx = v == "complex";
                else
                    c.kv[k] = v;
            }
            CFG->push_back(c);
        }
        if (CFG->empty()) return;
        set_stdout_hook(on_output);
        omp_set_num_threads(1);
        gsl_set_error_handler(gsl_fails);
        for (size_t i = 0; i < CFG->size(); i++)
            if (!make_reference(int(i))) return;
        fs_mkdirs(DIR);
        // a result that was announced may be replaced by an equal one, but never be in pieces
        fs_set_hook([](char k, const std::string &path, Inode &) {
            if (k == 'r' || k == 'u' || WATCH->empty() || !WATCH->count(path)) return;
            violation("announced-overwritten", "the announced file %s is being overwritten in place", path.c_str());
        });
    }
    omp_set_num_threads(std::max(1, int(p.knob("threads", 1))));
    for (auto &op : p.ops) {
        auto a = words(op);
        if (a[0] == "run" || a[0] == "par") {
            uint64_t f0 = fault_count();
            faults_enable(true);
            std::vector<int> pids;
            for (size_t i = 1; i < a.size(); i++) pids.push_back(launch(atoi(a[i].c_str()) % int(CFG->size())));
            for (int pid : pids) finish(pid, f0);
            faults_enable(false);
            if (pids.size() > 1) probe("concurrent_runs");
        } else {
            Quiet q;
            if (a[0] == "harm") harm(a[1], strtoull(a[2].c_str(), nullptr, 10));
            if (a[0] == "disk") {
                long n = atol(a[1].c_str());
                limited = n >= 0;
                fs_set_capacity(n < 0 ? -1 : fs_used() + n);
                if (limited) probe("full_disks");
            }
        }
    }
}

// ---------------------------------------------------------------- generation
std::string num(double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
KV base_config(Rng &r, bool thorough) {
    KV c;
    static const char *sp[] = {"Rb", "Cs", "K", "Na", "Li"};
    std::string s = sp[r.below(5)];
    c["species1"] = s;
    bool two = r.chance(0.7);
    auto atom = [&](const char *id) {
        int n = r.range(6, 8), l = r.range(0, 1);
        double j = l == 0 ? 0.5 : l + (r.chance(0.5) ? 0.5 : -0.5);
        double m = -j + double(r.below(uint64_t(2 * j + 1)));
        c[std::string("n") + id] = std::to_string(n);
        c[std::string("l") + id] = std::to_string(l);
        c[std::string("j") + id] = num(j);
        c[std::string("m") + id] = num(m);
    };
    atom("1");
    if (two) {
        c["species2"] = r.chance(0.6) ? s : sp[r.below(5)];
        if (r.chance(0.4))
            for (auto k : {"n", "l", "j", "m"}) c[std::string(k) + "2"] = c[std::string(k) + "1"];
        else
            atom("2");
    }
    c["samebasis"] = two && c["species2"] == c["species1"] && r.chance(0.5) ? "true" : "false";
    bool pair = two && r.chance(0.7);
    int dn = pair ? 0 : r.range(0, 1);
    c["deltaNSingle"] = std::to_string(dn);
    c["deltaLSingle"] = std::to_string(pair ? 1 : r.range(0, 2));
    c["deltaJSingle"] = std::to_string(r.range(0, 1));
    c["deltaMSingle"] = std::to_string(r.range(0, 1));
    c["deltaESingle"] = r.chance(0.6) ? "-1" : num(pick(r, {1e4, 5e4, 1e5, 2e5, 5e5, 123456.75}));
    c["diamagnetism"] = r.chance(0.3) ? "true" : "false";
    bool calc = r.chance(0.3);
    c["missingCalc"] = calc ? "true" : "false";
    c["missingWhittaker"] = calc ? "false" : "true";
    c["precision"] = "1e-12";
    bool cplx = r.chance(0.3);
    c["type"] = cplx ? "complex" : "real";
    for (auto f : {"E", "B"})
        for (auto x : {"x", "y", "z"}) {
            double lo = 0, hi = 0;
            if ((std::string(x) == "z" || r.chance(0.3)) && (std::string(x) != "y" || cplx) && r.chance(0.6)) {
                lo = r.chance(0.5) ? 0 : r.range(-8, 8) * 0.125;
                hi = r.chance(0.3) ? lo : r.range(-8, 8) * (r.chance(0.5) ? 0.25 : 0.1);
            }
            c[std::string("min") + f + x] = num(lo);
            c[std::string("max") + f + x] = num(hi);
        }
    c["steps"] = std::to_string(r.range(1, thorough ? 5 : 4));
    for (auto k : {"invE", "invO", "perE", "perO", "refE", "refO", "conserveM", "sametrafo", "zerotheta"}) c[k] = "false";
    if (pair) {
        double lo = r.range(2, 6);
        c["minR"] = num(lo);
        c["maxR"] = num(r.chance(0.25) ? lo : lo + r.range(1, 8) * 0.75);
        c["exponent"] = std::to_string(r.chance(0.15) ? 0 : r.range(3, 4));
        c["deltaEPair"] = r.chance(0.4) ? "-1" : num(pick(r, {1e4, 1e5, 3e5, 50.5}));
        for (auto k : {"deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"}) c[k] = std::to_string(r.range(-1, 1));
        c["conserveM"] = r.chance(0.4) ? "true" : "false";
        c["sametrafo"] = r.chance(0.5) ? "true" : "false";
        c["zerotheta"] = r.chance(0.5) ? "true" : "false";
        if (c["samebasis"] == "true" && r.chance(0.5)) {
            c["invO"] = "true";
            c["invE"] = r.chance(0.5) ? "true" : "false";
        } else if (c["samebasis"] == "true" && r.chance(0.3)) {
            c["perO"] = "true";
            c["perE"] = r.chance(0.5) ? "true" : "false";
        }
    }
    return c;
}
KV variant(const KV &o, Rng &r) {
    KV c = o;
    std::vector<std::string> ks;
    for (auto &p : c) {
        static const std::set<std::string> fixed = {"species1", "species2", "samebasis", "type", "l1", "j1", "l2", "j2", "m1", "m2", "precision", "missingCalc", "missingWhittaker", "minEy", "maxEy", "minBy", "maxBy"};
        if (!fixed.count(p.first)) ks.push_back(p.first);
    }
    auto wrong_sym = [&]() { // symmetries are for atoms of one basis
        if (c["samebasis"] == "true") return;
        for (auto k : {"invE", "invO", "perE", "perO"}) c[k] = "false";
    };
    for (int k = r.range(1, 2); k > 0; k--) {
        int what = r.range(0, c.count("minR") ? 14 : 10);
        if (what == 10) { // the other way to choose the basis, or another state
            if (c.count("n2") && c["species1"] == c["species2"] && r.chance(0.5)) {
                c["samebasis"] = c["samebasis"] == "true" ? "false" : "true";
                wrong_sym();
            } else {
                std::string id = c.count("n2") && r.chance(0.5) ? "2" : "1";
                double j = atof(c["j" + id].c_str()), m = atof(c["m" + id].c_str());
                c["m" + id] = num(m + 1 <= j ? m + 1 : -j);
            }
            continue;
        }
        if (what == 11) { // another power of the same interaction
            c["exponent"] = std::to_string(r.range(3, 4));
            continue;
        }
        if (what == 12) { // other symmetries
            if (c["samebasis"] == "true") {
                std::string a = r.chance(0.7) ? "inv" : "per", b = a == "inv" ? "per" : "inv";
                c[b + "E"] = c[b + "O"] = "false";
                int w = r.range(1, 3);
                c[a + "O"] = w & 1 ? "true" : "false";
                c[a + "E"] = w & 2 ? "true" : "false";
            } else
                c["conserveM"] = c["conserveM"] == "true" ? "false" : "true";
            continue;
        }
        if (what == 13) { // a distance next to it
            double f = 1 + pick(r, {1e-4, 1e-6, 1e-8, 1e-9, 1e-12, -1e-7, 1.0}), lo = atof(c["minR"].c_str()), hi = atof(c["maxR"].c_str());
            if (r.chance(0.5)) c["minR"] = num(lo * f);
            if (r.chance(0.7)) c["maxR"] = num(hi * f);
            continue;
        }
        if (what == 14) {
            static const char *flags[] = {"zerotheta", "sametrafo", "conserveM"};
            const char *k = flags[r.below(3)];
            c[k] = c[k] == "true" ? "false" : "true";
            continue;
        }
        if (what == 0) {
            std::swap(c["missingCalc"], c["missingWhittaker"]);
        } else if (what == 1)
            c["type"] = c["minEy"] == "0" && c["maxEy"] == "0" && c["minBy"] == "0" && c["maxBy"] == "0" && c["type"] == "complex" ? "real" : "complex";
        else if (what == 2)
            c["steps"] = std::to_string(r.range(1, 5));
        else if (what == 3 && c.count("n2"))
            c["n2"] = std::to_string(r.range(6, 8));
        else if (what <= 5) { // another basis
            static const char *ks[] = {"deltaESingle", "deltaESingle", "deltaNSingle", "deltaLSingle", "deltaJSingle", "deltaMSingle", "deltaEPair", "deltaEPair", "deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"};
            std::string key = ks[r.below(c.count("minR") ? 12 : 6)];
            c[key] = key.compare(0, 6, "deltaE") == 0 ? num(pick(r, {-1, 1e3, 5e4, 2e5, 5e5, 1e6})) : std::to_string(key.find("Pair") != std::string::npos ? r.range(-1, 1) : r.range(0, 1));
        } else {
            auto &key = ks[r.below(ks.size())];
            auto &v = c[key];
            if (v == "true" || v == "false")
                v = key.compare(0, 3, "inv") == 0 || key.compare(0, 3, "per") == 0 || key.compare(0, 3, "ref") == 0 ? v : v == "true" ? "false" : "true";
            else if (key == "n1" || key == "n2")
                v = std::to_string(r.range(6, 8));
            else if (key == "exponent")
                v = std::to_string(r.range(3, 4));
            else if (key.compare(0, 5, "delta") == 0 && key.find('E') == std::string::npos)
                v = key.find("Pair") != std::string::npos ? std::to_string(r.range(-1, 1)) : std::to_string(r.range(0, 1));
            else if (key == "steps")
                v = std::to_string(r.range(1, 5));
            else {
                double d = atof(v.c_str());
                if (d == 0 || r.chance(0.3))
                    d = key == "minR" || key == "maxR" ? d + 1 : d < 0 && key.compare(0, 5, "delta") == 0 ? 1e5 : d + r.range(1, 4) * 0.25;
                else
                    d *= 1 + pick(r, {1e-3, 1e-6, 1e-7, 1e-9, -1e-8});
                v = num(d);
            }
        }
    }
    return c;
}
void common(Plan &p, Rng &r, bool thorough, int nconf) {
    std::vector<KV> cs;
    cs.push_back(base_config(r, thorough));
    for (int i = 1; i < nconf; i++) cs.push_back(r.chance(0.75) ? variant(cs[r.below(cs.size())], r) : base_config(r, thorough));
    for (auto &c : cs) {
        std::string s = "conf";
        for (auto &k : c) s += " " + k.first + "=" + k.second;
        p.ops.push_back(s);
    }
    knob(p, "p_sync", pick(r, {0.02, 0.1, 0.4}));
    knob(p, "p_io", pick(r, {0.02, 0.1, 0.4}));
    knob(p, "p_mem", 0);
    knob(p, "max_steps", 100000000);
    knob(p, "threads", 1);
}
uint64_t log_uniform(Rng &r, double hi) { return uint64_t(std::exp(r.unit() * std::log(hi))) + r.below(3); }
void some_faults(Plan &p, Rng &r, int procs, double kill_share) {
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        int pid = r.range(1, procs);
        if (r.chance(kill_share)) {
            static const char *cls[] = {"any", "write", "open", "sync", "meta"};
            const char *c = cls[r.below(5)];
            add_fault(p, c, pid, log_uniform(r, strcmp(c, "any") == 0 ? 2500 : 300), 1, r.chance(0.4) ? "torn" : "kill", r.range(1, 4000));
        } else {
            static const char *cls[] = {"write", "write", "write", "read", "open", "sync", "meta", "alloc"};
            const char *c = cls[r.below(8)];
            std::string s = c;
            const char *act = s == "write" ? (r.chance(0.5) ? "enospc" : r.chance(0.5) ? "short" : "eio") : s == "alloc" ? "enomem" : s == "open" && r.chance(0.3) ? "emfile" : "eio";
            add_fault(p, c, pid, s == "alloc" ? log_uniform(r, 30000) : log_uniform(r, s == "write" ? 400 : 200), r.chance(0.6) ? 1 : r.range(2, 200), act, r.range(0, 3000));
        }
    }
}
void gen_c10(Plan &p, Rng &r, bool thorough) {
    int nc = r.range(2, thorough ? 5 : 4);
    common(p, r, thorough, nc);
    knob(p, "threads", r.range(1, 3));
    int k = r.range(nc, nc + 3);
    for (int i = 0; i < k; i++) p.ops.push_back("run " + std::to_string(r.below(uint64_t(nc))));
}
void gen_c11(Plan &p, Rng &r, bool thorough) {
    int nc = r.range(1, 2);
    common(p, r, thorough, nc);
    knob(p, "threads", r.range(1, 3));
    int k = r.range(1, thorough ? 4 : 3), procs = 0;
    for (int i = 0; i < k; i++) {
        if (r.chance(0.25)) p.ops.push_back("disk " + std::to_string(r.below(60000)));
        p.ops.push_back("run " + std::to_string(r.below(uint64_t(nc))));
        procs++;
        if (r.chance(0.3)) p.ops.push_back("disk -1");
        if (r.chance(0.4)) {
            static const char *kinds[] = {"cut-mat", "cut-json", "empty-mat", "empty-json", "del-mat", "del-json", "junk-mat", "junk-json"};
            for (int h = r.range(1, 3); h > 0; h--) p.ops.push_back(std::string("harm ") + kinds[r.below(8)] + " " + std::to_string(r.below(100000)));
        }
    }
    p.ops.push_back("disk -1");
    if (r.chance(0.8)) some_faults(p, r, procs, 0.5);
    for (int i = 0; i < nc; i++) p.ops.push_back("run " + std::to_string(i));
}
void gen_c12(Plan &p, Rng &r, bool thorough) {
    int nc = r.range(1, 3), k = r.range(1, 2), procs = 0;
    common(p, r, thorough, nc);
    knob(p, "threads", r.range(1, 2));
    if (r.chance(0.2)) p.ops.push_back("run 0"), procs++;
    for (int i = 0; i < k; i++) {
        std::string s = "par";
        for (int j = r.range(2, thorough ? 4 : 3); j > 0; j--) s += " " + std::to_string(r.below(uint64_t(nc))), procs++;
        p.ops.push_back(s);
    }
    if (r.chance(0.35)) { // one of the processes is killed; the others must not notice
        add_fault(p, "any", r.range(1, procs), log_uniform(r, 2500), 1, r.chance(0.4) ? "torn" : "kill", r.range(1, 4000));
    }
    if (r.chance(0.4)) p.ops.push_back("run " + std::to_string(r.below(uint64_t(nc))));
}
void gen_c13(Plan &p, Rng &r, bool thorough) {
    int nc = r.range(1, 2);
    common(p, r, thorough, nc);
    knob(p, "threads", r.range(2, 4));
    knob(p, "shadow", r.chance(0.7));
    knob(p, "p_mem", pick(r, {0, 1e-5, 1e-4}));
    knob(p, "p_conf", pick(r, {0, 0.01, 0.2}));
    for (int i = r.range(1, 3); i > 0; i--) p.ops.push_back("run " + std::to_string(r.below(uint64_t(nc))));
}
void gen_c14(Plan &p, Rng &r, bool thorough) {
    int nc = r.range(1, 2);
    common(p, r, thorough, nc);
    knob(p, "threads", r.range(1, 4));
    knob(p, "p_sync", 0.4);
    int procs = 0;
    for (int i = r.range(1, 3); i > 0; i--) {
        if (r.chance(0.3)) {
            p.ops.push_back("par 0 " + std::to_string(r.below(uint64_t(nc))));
            procs += 2;
        } else {
            p.ops.push_back("run " + std::to_string(r.below(uint64_t(nc))));
            procs++;
        }
        if (r.chance(0.15)) p.ops.push_back("disk " + std::to_string(r.below(40000)));
    }
    if (r.chance(0.5)) some_faults(p, r, procs, 0.3);
}
Register r10({"c10_histories", "C10", gen_c10, execute, 1});
Register r11({"c11_recovery", "C11", gen_c11, execute, 1});
Register r12({"c12_sharing", "C12", gen_c12, execute, 1});
Register r13({"c13_threads", "C13", gen_c13, execute, 1});
Register r14({"c14_progress", "C14", gen_c14, execute, 1});
} // namespace
