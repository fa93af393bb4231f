// C05-C09: matrix-element caches of several processes on shared cache directories, with user data, failing requests, kills and transfers.
#include "Constants.hpp"
#include "EmbeddedDatabase.hpp"
#include "MatrixElementCache.hpp"
#include "QuantumDefect.hpp"
#include "SQLite.hpp"
#include "scen/util.hpp"
#include <algorithm>
#include <cereal/archives/binary.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/string.hpp>
#include <cstring>
#include <gsl/gsl_errno.h>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sqlite3.h>
#include <stdexcept>

using namespace sim;
namespace {
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};
void gsl_fails(const char *reason, const char *, int, int) { throw Unsupported(reason); }

// ---------------------------------------------------------------- user data
struct UserRow {
    int n1, l1, n2, l2;
    double j1, j2, val;
};
struct Csv {
    std::string path, species;
    std::vector<UserRow> rows;
    bool readable = true;
};
std::map<std::string, Csv> *CSV;
std::map<std::string, std::string> *DBS; // id -> path

std::string rows_of(uint64_t seed) { // the embedded database with shifted quantum defects
    Rng r(seed);
    std::ostringstream o;
    o.precision(17);
    sqlite3 *db = *new EmbeddedDatabase;
    o << "BEGIN TRANSACTION;\nCREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real);\n"
      << "CREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real);\n";
    for (const char *t : {"model_potential", "rydberg_ritz"}) {
        sqlite3_stmt *st = nullptr;
        sqlite3_prepare_v2(db, (std::string("select * from ") + t + " where element in ('Rb','Cs','Li','Sr1','Sr3')").c_str(), -1, &st, nullptr);
        while (sqlite3_step(st) == SQLITE_ROW) {
            o << "INSERT INTO `" << t << "` VALUES('" << sqlite3_column_text(st, 0) << "'";
            for (int i = 1; i < sqlite3_column_count(st); i++) {
                double d = sqlite3_column_double(st, i);
                if (*t == 'r' && i == 3) d -= r.range(1, 30) / 100.;
                o << "," << d;
            }
            o << ");\n";
        }
        sqlite3_finalize(st);
    }
    o << "COMMIT;\n";
    return o.str();
}

// ---------------------------------------------------------------- states and requests
struct St {
    std::string sp;
    int n, l;
    double j, m;
    bool art = false;
};
St parse_state(const std::string &w) {
    St s{};
    size_t a = w.find(':');
    if (a == std::string::npos) {
        s.sp = w;
        s.art = true;
        return s;
    }
    s.sp = w.substr(0, a);
    sscanf(w.c_str() + a + 1, "%d:%d:%lf:%lf", &s.n, &s.l, &s.j, &s.m);
    return s;
}
StateOne make(const St &s) { return s.art ? StateOne(s.sp) : StateOne(s.sp, s.n, s.l, float(s.j), float(s.m)); }
double spin(const std::string &sp) { return std::isdigit(sp.back()) ? (sp.back() - '0' - 1) / 2. : 0.5; }

struct Settings { // what determines the values of an object
    int method = 0;
    std::string defect;                               // id of the user's database
    std::vector<std::pair<int, std::string>> dipoles; // method in force, table
    std::string text() const {
        std::string s = std::to_string(method) + "|" + defect;
        for (auto &d : dipoles) s += "|" + std::to_string(d.first) + d.second;
        return s;
    }
};
double ask(MatrixElementCache &c, const std::vector<std::string> &a) { // a: kind state [state] k...
    StateOne s = make(parse_state(a[1]));
    if (a[0] == "ene") return s.getEnergy(c);
    StateOne t = make(parse_state(a[2]));
    int k = a.size() > 3 ? atoi(a[3].c_str()) : 0, q = a.size() > 4 ? atoi(a[4].c_str()) : 0;
    if (a[0] == "dip") return c.getElectricDipole(s, t);
    if (a[0] == "mul") return c.getElectricMultipole(s, t, k);
    if (a[0] == "mulk") return c.getElectricMultipole(s, t, k, q);
    if (a[0] == "dia") return c.getDiamagnetism(s, t, k);
    if (a[0] == "mag") return c.getMagneticDipole(s, t);
    return c.getRadial(s, t, k);
}
void precalc(MatrixElementCache &c, const std::vector<std::string> &a) { // kind k q states...
    std::vector<StateOne> b;
    for (size_t i = 3; i < a.size(); i++) b.push_back(make(parse_state(a[i])));
    int k = atoi(a[1].c_str()), q = atoi(a[2].c_str());
    if (a[0] == "mul") c.precalculateMultipole(b, k);
    if (a[0] == "rad") c.precalculateRadial(b, k);
    if (a[0] == "dip") c.precalculateElectricMomentum(b, q);
    if (a[0] == "mag") c.precalculateMagneticMomentum(b, q);
    if (a[0] == "dia") c.precalculateDiamagnetism(b, k, q);
}

// ---------------------------------------------------------------- reference values
struct Ref {
    bool ok = false;
    double v = 0;
};
std::map<std::string, Ref> *MEMO;
std::string joined(const std::vector<std::string> &a) {
    std::string s;
    for (auto &x : a) s += x + " ";
    return s;
}
Ref fresh(const Settings &g, const std::vector<std::string> &a) {
    std::string key = g.text() + "#" + joined(a);
    auto it = MEMO->find(key);
    if (it != MEMO->end()) return it->second;
    Ref r;
    try {
        MatrixElementCache c;
        if (!g.defect.empty()) c.setDefectDB(g.defect == "-" ? "" : (*DBS)[g.defect]);
        for (auto &d : g.dipoles) {
            c.setMethod(method_t(d.first));
            c.loadElectricDipoleDB((*CSV)[d.second].path, (*CSV)[d.second].species);
        }
        c.setMethod(method_t(g.method));
        r.v = ask(c, a);
        r.ok = true;
    } catch (std::exception &) {
    }
    return (*MEMO)[key] = r;
}
double w3(double a, double b, double c, double x, double y, double z) { return WignerSymbols::wigner3j(a, b, c, x, y, z); }
double sign(double e) { return std::lround(e) % 2 ? -1 : 1; }
bool less3(const St &a, const St &b) { return a.n < b.n || (a.n == b.n && (a.l < b.l || (a.l == b.l && a.j <= b.j))); }
double red_multipole(int k, int l1, int l2) { return sign(l1) * std::sqrt((2 * l1 + 1.) * (2 * l2 + 1.)) * w3(l1, k, l2, 0, 0, 0); }
double red_commutes(double s, int k, int l1, int l2, double j1, double j2) {
    return sign(l1 + s + j2 + k) * std::sqrt((2 * j1 + 1) * (2 * j2 + 1)) * WignerSymbols::wigner6j(l1, j1, s, j2, l2, k);
}
// radial part straight from the wave functions or the user's table; scale: its magnitude
double radial(const Settings &g, const St &a, const St &b, int k) {
    const St &x = less3(a, b) ? a : b, &y = less3(a, b) ? b : a;
    double s = spin(a.sp);
    if (k == 1)
        for (size_t i = g.dipoles.size(); i-- > 0;) {
            auto &d = g.dipoles[i];
            auto &t = (*CSV)[d.second];
            if (d.first != g.method || t.species != a.sp) continue;
            for (size_t m = t.rows.size(); m-- > 0;) {
                auto &u = t.rows[m];
                if (u.n1 == x.n && u.l1 == x.l && u.j1 == x.j && u.n2 == y.n && u.l2 == y.l && u.j2 == y.j)
                    return u.val * au2um / (red_commutes(s, 1, x.l, y.l, x.j, y.j) * red_multipole(1, x.l, y.l));
            }
        }
    std::string db = g.defect.empty() || g.defect == "-" ? "" : (*DBS)[g.defect];
    QuantumDefect q1(x.sp, x.n, x.l, x.j, db), q2(y.sp, y.n, y.l, y.j, db);
    return std::pow(au2um, k) * (g.method == 0 ? IntegrateRadialElement<Numerov>(q1, k, q2) : IntegrateRadialElement<Whittaker>(q1, k, q2));
}
bool direct(const Settings &g, const std::vector<std::string> &w, double &v, double &scale) {
    if (w[0] == "ene") return false;
    St a = parse_state(w[1]), b = parse_state(w[2]);
    double s = spin(a.sp);
    int k = w.size() > 3 ? atoi(w[3].c_str()) : 0, ka = w.size() > 4 ? atoi(w[4].c_str()) : k;
    if (w[0] == "dip") k = ka = 1;
    if (w[0] == "dia") k = 2;
    if (w[0] == "mag") k = 0, ka = 1;
    try {
        double r = radial(g, a, b, k);
        if (std::isnan(r)) return false;
        if (w[0] == "rad") {
            v = r, scale = std::fabs(r);
            return true;
        }
        double ang = sign(a.j - a.m) * w3(a.j, ka, b.j, -a.m, a.m - b.m, b.m);
        if (w[0] == "mag") {
            if (a.l != b.l) return false; // never asked for by the library
            double rl = red_commutes(s, 1, a.l, a.l, a.j, b.j) * std::sqrt(a.l * (a.l + 1.) * (2 * a.l + 1.));
            double rs = sign(a.l + s + a.j + 1) * std::sqrt((2 * a.j + 1) * (2 * b.j + 1)) * WignerSymbols::wigner6j(s, a.j, a.l, b.j, s, 1) *
                std::sqrt(s * (s + 1) * (2 * s + 1));
            v = -bohr_magneton * r * ang * (gL * rl + gS * rs);
            scale = std::fabs(bohr_magneton * r) * (std::fabs(gL * rl) + std::fabs(gS * rs) + 1);
            return true;
        }
        double f = elementary_charge * (w[0] == "dia" ? 2. / 3. * elementary_charge : 1.);
        v = f * r * ang * red_commutes(s, ka, a.l, b.l, a.j, b.j) * red_multipole(ka, a.l, b.l);
        scale = std::fabs(f * r);
        return true;
    } catch (std::exception &) {
        return false;
    }
}

// ---------------------------------------------------------------- objects and processes
struct Blob {
    bool have = false, sure = true;
    std::string data;
    Settings set;
    int dir = 0;
    bool pend_bad = false, pending = false;
    std::set<std::string> known;
};
struct Slot {
    MatrixElementCache *c = nullptr;
    int dir = 0, owner = 0;
    Settings set;
    bool sure = true;            // the model knows the object's settings
    bool pend_bad = false;       // work is pending that cannot succeed
    bool pending = false;        // work may be pending
    std::set<std::string> known; // radial keys that the object may hold without having stored them
    std::set<std::string> asked; // radial keys ever used
};
struct Rec {
    int pid, slot, dir;
    std::vector<std::string> a;
    Settings set;
    bool done = false, threw = false, faulted = false, pend_bad = false, sure = true, stored = false;
    double v = 0;
    std::string what;
};
std::map<int, Slot> *SLOT;
std::map<int, Blob> *BLOB;
std::vector<Rec> *RECS;
std::set<std::string> *USED; // radial keys that must be in a file: "dir key"
bool limited, holding;
int64_t held_since;
int BUSY = 0;

const char *DIRS[] = {"", "/sim/c1", "/sim/c2"};
std::string radial_key(const Settings &g, const St &a, const St &b, int k) {
    const St &x = less3(a, b) ? a : b, &y = less3(a, b) ? b : a;
    char buf[200];
    snprintf(buf, sizeof buf, "%d %s %d %d %d %g %d %d %g", g.method, x.sp.c_str(), k, x.n, x.l, x.j, y.n, y.l, y.j);
    return buf;
}
std::string key_of(const Settings &g, const std::vector<std::string> &a) { // of a request
    if (a[0] == "ene") return "";
    int k = a[0] == "dip" ? 1 : a[0] == "dia" ? 2 : a[0] == "mag" ? 0 : atoi(a[3].c_str());
    return radial_key(g, parse_state(a[1]), parse_state(a[2]), k);
}
void pre_keys(const Settings &g, const std::vector<std::string> &a, std::set<std::string> &out) {
    int k = a[0] == "dip" ? 1 : a[0] == "dia" ? 2 : a[0] == "mag" ? 0 : atoi(a[1].c_str());
    for (size_t i = 3; i < a.size(); i++)
        for (size_t j = 3; j < a.size(); j++) out.insert(radial_key(g, parse_state(a[i]), parse_state(a[j]), k));
}
bool excused(int pid) {
    if (limited) return true;
    for (auto &f : plan.faults)
        if ((f.pid == 0 || f.pid == pid) && f.action != "kill" && f.action != "torn") return true;
    return false;
}
void command(const std::vector<std::string> &w) {
    int pid = self_pid();
    const std::string &c = w[0];
    if (c == "hold") { // another program keeps the file locked
        sqlite3 *db = nullptr;
        std::string f;
        for (auto &n : fs_tree(DIRS[atoi(w[1].c_str())]))
            if (n.size() > 3 && n.compare(n.size() - 3, 3, ".db") == 0) f = n;
        if (f.empty()) return;
        if (sqlite3_open(f.c_str(), &db) == SQLITE_OK) {
            sqlite3_busy_timeout(db, 3600000);
            if (sqlite3_exec(db, "begin exclusive", nullptr, nullptr, nullptr) == SQLITE_OK) {
                holding = true;
                held_since = now_us();
                sleep_us(int64_t(atof(w[2].c_str()) * 1e6));
                BUSY = now_us() - held_since > 60000000 ? 2 : 1;
                sqlite3_exec(db, "commit", nullptr, nullptr, nullptr);
                holding = false;
                probe("locked_by_others");
            }
        }
        sqlite3_close(db);
        return;
    }
    if (w.size() < 2) return;
    int id = atoi(w[1].c_str());
    Rec r;
    Slot *s;
    {
        Quiet q;
        s = &(*SLOT)[id];
        if (c == "new" || c == "load") {
            if (s->c) return;
        } else if (!s->c)
            return;
        r.pid = pid;
        r.slot = id;
        r.a.assign(w.begin() + 2, w.end());
        r.a.insert(r.a.begin(), c);
        r.set = s->set;
        r.dir = s->dir;
        r.pend_bad = s->pend_bad;
        r.sure = s->sure;
        if (s->owner && s->owner != pid && c != "new" && c != "load") probe("carried_over");
        s->owner = pid;
    }
    size_t at;
    {
        Quiet q;
        at = RECS->size();
        RECS->push_back(r);
        log("p%d %s", pid, joined(w).c_str());
    }
    uint64_t f0 = fault_count();
    int64_t t0 = now_us();
    bool was_held = holding;
    bool threw = false;
    std::string what;
    double v = 0;
    MatrixElementCache *obj = nullptr;
    std::string blob;
    try {
        if (c == "new") {
            int d = atoi(w[2].c_str());
            obj = d ? new MatrixElementCache(DIRS[d]) : new MatrixElementCache();
        } else if (c == "load") {
            Blob *b;
            {
                Quiet q;
                b = &(*BLOB)[atoi(w[2].c_str())];
                if (!b->have) {
                    (*RECS)[at].a[0] = "none";
                    return;
                }
                blob = b->data;
                if (w.size() > 3) blob.resize(strtoull(w[3].c_str(), nullptr, 10) % blob.size());
            }
            std::stringstream ss(blob);
            cereal::BinaryInputArchive ar(ss);
            std::unique_ptr<MatrixElementCache> o(new MatrixElementCache());
            ar >> cereal::make_nvp("MatrixElementCache", *o);
            obj = o.release();
        } else if (c == "save") {
            std::stringstream ss;
            cereal::BinaryOutputArchive ar(ss);
            ar << cereal::make_nvp("MatrixElementCache", *s->c);
            blob = ss.str();
            if (!ss) throw std::runtime_error("stream");
        } else if (c == "drop") {
            delete s->c;
        } else if (c == "method")
            s->c->setMethod(method_t(atoi(w[2].c_str())));
        else if (c == "defect")
            s->c->setDefectDB(w[2] == "-" ? "" : (*DBS)[w[2]]);
        else if (c == "dipole")
            s->c->loadElectricDipoleDB((*CSV)[w[2]].path, (*CSV)[w[2]].species);
        else if (c == "pre")
            precalc(*s->c, std::vector<std::string>(w.begin() + 2, w.end()));
        else
            v = ask(*s->c, r.a);
    } catch (std::exception &e) {
        Quiet q;
        threw = true;
        what = e.what();
    }
    Quiet q;
    Rec &o = (*RECS)[at];
    o.done = true;
    o.threw = threw;
    o.what = what;
    o.v = v;
    o.faulted = fault_count() > f0 && excused(pid);
    if ((was_held || holding || BUSY == 2) && now_us() - t0 > 60000000) o.faulted = true; // waited long enough
    log("p%d -> %s %.17g%s", pid, threw ? what.c_str() : "ok", v, o.faulted ? " (fault)" : "");
    // the model of the object
    if (c == "new") {
        if (!threw) {
            *s = Slot();
            s->c = obj;
            s->dir = atoi(w[2].c_str());
            s->owner = pid;
            probe("objects");
        }
    } else if (c == "load") {
        Blob &b = (*BLOB)[atoi(w[2].c_str())];
        if (!threw) {
            *s = Slot();
            s->c = obj;
            s->dir = b.dir;
            s->set = b.set;
            s->owner = pid;
            s->known = b.known;
            s->pend_bad = b.pend_bad;
            s->pending = b.pending;
            s->sure = b.sure && w.size() <= 3;
            probe("objects_restored");
        }
    } else if (c == "save") {
        if (!threw) {
            Blob &b = (*BLOB)[atoi(w[2].c_str())];
            b.have = true;
            b.data = blob;
            b.set = s->set;
            b.dir = s->dir;
            b.sure = s->sure;
            b.pend_bad = s->pend_bad;
            b.pending = s->pending;
            b.known = s->known;
            b.known.insert(s->asked.begin(), s->asked.end());
            probe("objects_saved");
        }
    } else if (c == "drop")
        *s = Slot();
    else if (c == "method")
        s->set.method = atoi(w[2].c_str());
    else if (c == "defect") {
        s->set.defect = w[2];
        if (s->pending) s->pend_bad = true; // the pending work now concerns other data
        s->dir = 0;
        if (threw) s->sure = false;
    } else if (c == "dipole") {
        if (!threw) s->set.dipoles.push_back({s->set.method, w[2]});
        if (threw && !o.faulted && (*CSV)[w[2]].readable && !r.pend_bad)
            violation("user-data-refused", "process %d: loading a valid dipole table failed: %s", pid, what.c_str());
        if (!threw && !(*CSV)[w[2]].readable) violation("user-data-ignored", "process %d: loading an unreadable dipole table reported success", pid);
        // a call that failed may have given up before or after the pending work was tried
        if (!threw) s->pend_bad = s->pending = false;
        else if (s->pending) s->pend_bad = true;
        if (threw) probe("user_data_failed");
        else probe("user_data_loaded");
    } else if (c == "pre") {
        std::vector<std::string> a(w.begin() + 2, w.end());
        std::set<std::string> keys;
        pre_keys(s->set, a, keys);
        s->asked.insert(keys.begin(), keys.end());
        s->known.insert(keys.begin(), keys.end()); // computed by whichever request comes next
        s->pending = true;
        // may the pending work fail on its own?
        for (size_t i = 3; i < a.size(); i++)
            for (size_t j = 3; j < a.size(); j++) {
                double k = a[0] == "dip" ? 1 : a[0] == "dia" ? 2 : a[0] == "mag" ? 0 : atoi(a[1].c_str());
                if (!fresh(s->set, {"rad", a[i], a[j], std::to_string(int(k))}).ok) s->pend_bad = true;
            }
        if (threw) s->pend_bad = true;
    } else { // a request
        probe("requests");
        std::string k = key_of(s->set, r.a);
        if (threw) {
            bool reached = r.a[0] != "ene"; // the pending work was tried
            if (reached) {
                St x = parse_state(r.a[1]), y = parse_state(r.a[2]);
                reached = !x.art && !y.art && x.sp == y.sp;
            }
            if (reached) s->pend_bad = s->pending = false;
            if (!k.empty()) s->known.insert(k);
            probe("requests_failed");
        } else if (!k.empty() && r.a[0] != "ene") {
            s->pend_bad = s->pending = false;
            if (!s->known.count(k) && s->sure && s->dir && !o.faulted) o.stored = true;
            if (o.faulted) s->known.insert(k);
        }
        if (!k.empty()) s->asked.insert(k);
    }
}
void judge(const Rec &r) {
    const std::string &c = r.a[0];
    if (!r.done || c == "none") return;
    if (c == "new") {
        if (r.threw && !r.faulted) violation("open-failed", "process %d: opening a cache on directory %s failed: %s", r.pid, r.a[1].c_str(), r.what.c_str());
        return;
    }
    if (c == "load") {
        bool cut = r.a.size() > 2;
        if (cut && !r.threw) violation("damaged-transfer-accepted", "process %d: a cut-off serialised cache was restored without an error", r.pid);
        if (!cut && r.threw && !r.faulted) violation("transfer-failed", "process %d: restoring a serialised cache failed: %s", r.pid, r.what.c_str());
        return;
    }
    if (c == "save" || c == "drop" || c == "method" || c == "defect" || c == "dipole" || c == "pre") {
        if (r.threw && c != "dipole" && !r.faulted) violation("call-failed", "process %d: %s failed: %s", r.pid, c.c_str(), r.what.c_str());
        return;
    }
    if (!r.sure) return;
    Ref f = fresh(r.set, r.a);
    if (r.threw) {
        if (f.ok && !r.faulted && !(r.pend_bad))
            violation("request-failed", "process %d, object %d (settings %s): %s failed although nothing disturbed it: %s", r.pid, r.slot, r.set.text().c_str(), joined(r.a).c_str(), r.what.c_str());
        return;
    }
    if (!f.ok) violation("impossible-value", "process %d, object %d (settings %s): %s returned %.17g, but there is no such value", r.pid, r.slot, r.set.text().c_str(), joined(r.a).c_str(), r.v);
    if (!near(r.v, f.v, 1e-12))
        violation("wrong-value", "process %d, object %d (settings %s): %s returned %.17g instead of %.17g", r.pid, r.slot, r.set.text().c_str(), joined(r.a).c_str(), r.v, f.v);
    double d, scale;
    if (direct(r.set, r.a, d, scale)) {
        if (std::fabs(d - r.v) > 1e-6 * scale)
            violation("wrong-value", "process %d, object %d (settings %s): %s returned %.17g, computed without any cache it is %.17g", r.pid, r.slot, r.set.text().c_str(), joined(r.a).c_str(), r.v, d);
        probe("values_checked");
    }
}
// ---------------------------------------------------------------- the files
void check_file(int dir) {
    std::string f;
    for (auto &n : fs_tree(DIRS[dir]))
        if (n.size() > 3 && n.compare(n.size() - 3, 3, ".db") == 0) f = n;
    if (f.empty()) return;
    sqlite3 *db = nullptr;
    if (sqlite3_open(f.c_str(), &db) != SQLITE_OK) violation("file-broken", "the cache file in %s cannot be opened", DIRS[dir]);
    sqlite3_busy_timeout(db, 10000);
    auto query = [&](const char *sql, std::function<void(sqlite3_stmt *)> row) {
        sqlite3_stmt *st = nullptr;
        int rc = sqlite3_prepare_v2(db, sql, -1, &st, nullptr);
        if (rc == SQLITE_ERROR) return false; // no such table or column
        if (rc == SQLITE_OK)
            while ((rc = sqlite3_step(st)) == SQLITE_ROW) row(st);
        if (rc != SQLITE_DONE) violation("file-broken", "the cache file in %s cannot be read (%s): %s", DIRS[dir], sql, sqlite3_errmsg(db));
        sqlite3_finalize(st);
        return true;
    };
    query("pragma integrity_check", [&](sqlite3_stmt *st) {
        const char *t = (const char *)sqlite3_column_text(st, 0);
        if (!t || strcmp(t, "ok")) violation("file-broken", "the cache file in %s is damaged: %s", DIRS[dir], t ? t : "?");
    });
    auto D = [](sqlite3_stmt *st, int i) { return sqlite3_column_double(st, i); };
    auto I = [](sqlite3_stmt *st, int i) { return sqlite3_column_int(st, i); };
    std::set<std::string> have;
    int rows = 0;
    bool ok = query("select method, species, k, n1, l1, j1, n2, l2, j2, value from cache_radial", [&](sqlite3_stmt *st) {
        Settings g;
        g.method = I(st, 0);
        std::string sp = (const char *)sqlite3_column_text(st, 1);
        St a{sp, I(st, 3), I(st, 4), D(st, 5), 0}, b{sp, I(st, 6), I(st, 7), D(st, 8), 0};
        a.m = a.j, b.m = b.j;
        have.insert(radial_key(g, a, b, I(st, 2)));
        char s1[80], s2[80];
        snprintf(s1, sizeof s1, "%s:%d:%d:%g:%g", sp.c_str(), a.n, a.l, a.j, a.j);
        snprintf(s2, sizeof s2, "%s:%d:%d:%g:%g", sp.c_str(), b.n, b.l, b.j, b.j);
        Ref r = fresh(g, {"rad", s1, s2, std::to_string(I(st, 2))});
        if (!r.ok || !near(D(st, 9), r.v, 1e-12))
            violation("foreign-value-in-file", "the cache file in %s holds %.17g for method %d k %d %s %s instead of %.17g", DIRS[dir], D(st, 9), g.method, I(st, 2), s1, s2, r.v);
        rows++;
    });
    query("select k, j1, m1, j2, m2, value from cache_angular", [&](sqlite3_stmt *st) {
        double e = sign(D(st, 1) - D(st, 2)) * w3(D(st, 1), I(st, 0), D(st, 3), -D(st, 2), D(st, 2) - D(st, 4), D(st, 4));
        if (std::fabs(e - D(st, 5)) > 1e-6) violation("foreign-value-in-file", "the cache file in %s holds a wrong angular factor %.17g instead of %.17g", DIRS[dir], D(st, 5), e);
    });
    query("select k, l1, l2, value from cache_reduced_multipole", [&](sqlite3_stmt *st) {
        double e = red_multipole(I(st, 0), I(st, 1), I(st, 2));
        if (std::fabs(e - D(st, 3)) > 1e-6) violation("foreign-value-in-file", "the cache file in %s holds a wrong reduced multipole factor %.17g instead of %.17g", DIRS[dir], D(st, 3), e);
    });
    query("select s, k, l1, j1, l2, j2, value from cache_reduced_commutes_s", [&](sqlite3_stmt *st) {
        double e = red_commutes(D(st, 0), I(st, 1), I(st, 2), I(st, 4), D(st, 3), D(st, 5));
        if (std::fabs(e - D(st, 6)) > 1e-6) violation("foreign-value-in-file", "the cache file in %s holds a wrong reduced factor %.17g instead of %.17g", DIRS[dir], D(st, 6), e);
    });
    if (ok)
        for (auto &r : *RECS)
            if (r.stored && r.dir == dir && !r.threw) {
                std::string k = key_of(r.set, r.a);
                bool user = false;
                for (auto &d : r.set.dipoles)
                    if (d.first == r.set.method) user = true;
                if (!user && !have.count(k)) violation("not-stored", "process %d, object %d: %s succeeded, but its radial element (%s) is not in the cache file of %s", r.pid, r.slot, joined(r.a).c_str(), k.c_str(), DIRS[dir]);
                probe("rows_expected");
            }
    probe("rows_in_files", rows);
    sqlite3_close(db);
}
void run_phase(const std::map<int, std::vector<std::vector<std::string>>> &procs, bool faults) {
    if (procs.empty()) return;
    faults_enable(faults);
    std::vector<int> pids;
    BUSY = 0;
    for (auto &p : procs) {
        auto *cmds = new std::vector<std::vector<std::string>>(p.second);
        pids.push_back(start_process([cmds]() {
            for (auto &c : *cmds) command(c);
            return 0;
        }));
    }
    for (int pid : pids) {
        ProcInfo i = wait_process(pid);
        Quiet q;
        if (i.how == Exit::Killed) {
            probe("processes_killed");
            for (auto &s : *SLOT)
                if (s.second.owner == pid) s.second = Slot();
        } else if (i.how != Exit::Done)
            violation("crash", "process %d ended abnormally: %s", pid, i.what.c_str());
    }
    faults_enable(false);
    holding = false;
    if (procs.size() > 1) probe("concurrent_phases");
}
void execute(const Plan &p) {
    CSV = new std::map<std::string, Csv>;
    DBS = new std::map<std::string, std::string>;
    MEMO = new std::map<std::string, Ref>;
    SLOT = new std::map<int, Slot>;
    BLOB = new std::map<int, Blob>;
    RECS = new std::vector<Rec>;
    limited = holding = false;
    {
        Quiet q;
        gsl_set_error_handler(gsl_fails);
        for (int i = 1; i < 3; i++) fs_mkdirs(DIRS[i]);
        fs_mkdirs("/sim/user");
        for (auto &op : p.ops) {
            auto w = words(op);
            if (w[0] == "db") {
                uint64_t seed = strtoull(w[3].c_str(), nullptr, 10);
                std::string path = "/sim/user/" + w[1] + ".sql";
                (*DBS)[w[1]] = path;
                if (w[2] == "good") fs_put(path, rows_of(seed));
                if (w[2] == "garbage") fs_put(path, "no SQL at all");
                if (w[2] == "cut") {
                    std::string t = rows_of(seed);
                    fs_put(path, t.substr(0, t.size() * (seed % 97) / 97));
                }
            }
            if (w[0] == "csv") {
                Csv c;
                c.path = "/sim/user/" + w[1] + ".csv";
                c.species = w[3];
                c.readable = w[2] != "missing";
                std::string t = "\"n1\";\"l1\";\"j1\";\"n2\";\"l2\";\"j2\";\"dipole matrix element reduced l basis (a.u.)\"\n";
                for (size_t i = 4; i < w.size(); i++) {
                    UserRow u;
                    if (w[i] == "junk") {
                        t += "some;remark\n";
                        continue;
                    }
                    if (w[i] == "short") {
                        t += "8;0;0.5;9;1\n";
                        continue;
                    }
                    if (w[i] == "blank") {
                        t += "\n";
                        continue;
                    }
                    if (sscanf(w[i].c_str(), "%d:%d:%lf:%d:%d:%lf:%lf", &u.n1, &u.l1, &u.j1, &u.n2, &u.l2, &u.j2, &u.val) != 7) continue;
                    std::string row = w[i];
                    std::replace(row.begin(), row.end(), ':', ';');
                    t += row + ";\"table\";1\n";
                    c.rows.push_back(u);
                }
                if (c.readable) fs_put(c.path, t);
                (*CSV)[w[1]] = c;
            }
        }
    }
    std::map<int, std::vector<std::vector<std::string>>> procs;
    auto flush = [&]() {
        size_t from;
        {
            Quiet q;
            from = RECS->size();
        }
        run_phase(procs, true);
        Quiet q;
        procs.clear();
        for (size_t i = from; i < RECS->size(); i++) judge((*RECS)[i]);
    };
    for (auto &op : p.ops) {
        auto w = words(op);
        if (w[0] == "p" && w.size() > 2) {
            Quiet q;
            procs[atoi(w[1].c_str())].push_back(std::vector<std::string>(w.begin() + 2, w.end()));
        } else if (w[0] == "phase")
            flush();
        else if (w[0] == "disk") {
            flush();
            Quiet q;
            long n = atol(w[1].c_str());
            limited = n >= 0;
            fs_set_capacity(n < 0 ? -1 : fs_used() + n);
        } else if (w[0] == "check") {
            flush();
            Quiet q;
            for (int d = 1; d < 3; d++) check_file(d);
        }
    }
    flush();
    {
        Quiet q;
        limited = false;
        fs_set_capacity(-1);
        // everything that was asked for is asked for again by a new process
        std::set<std::string> seen;
        for (int d = 1; d < 3; d++) {
            std::string slot = std::to_string(1000 + d);
            std::vector<std::vector<std::string>> cmds;
            int method = 0;
            for (auto &r : *RECS) {
                const std::string &c = r.a[0];
                if (!r.done || r.dir != d || (c != "dip" && c != "mul" && c != "mulk" && c != "dia" && c != "mag" && c != "rad") || !fresh(Settings{r.set.method, "", {}}, r.a).ok) continue;
                if (!seen.insert(std::to_string(d) + std::to_string(r.set.method) + joined(r.a)).second) continue;
                if (cmds.empty()) cmds.push_back({"new", slot, std::to_string(d)});
                if (method != r.set.method) cmds.push_back({"method", slot, std::to_string(method = r.set.method)});
                std::vector<std::string> a = r.a;
                a.insert(a.begin() + 1, slot);
                cmds.push_back(a);
            }
            if (!cmds.empty()) procs[d] = cmds;
        }
    }
    size_t from = RECS->size();
    run_phase(procs, false);
    Quiet q;
    for (size_t i = from; i < RECS->size(); i++) judge((*RECS)[i]);
    for (int d = 1; d < 3; d++) check_file(d);
}

// ---------------------------------------------------------------- generators
std::string num(double d) {
    char b[40];
    snprintf(b, sizeof b, "%.10g", d);
    return b;
}
struct Gen {
    Plan &p;
    Rng &r;
    std::vector<std::string> pool;
    int procs = 0;
    std::vector<std::string> dbs, csvs;
    std::vector<bool> csvgood;
    int slots = 3;
    Gen(Plan &pp, Rng &rr, bool thorough) : p(pp), r(rr) {
        knob(p, "p_io", pick(r, {0.05, 0.2, 0.5}));
        knob(p, "p_sync", 0.02);
        knob(p, "p_mem", 0);
        knob(p, "max_steps", 100000000);
        // few species and small numbers, so that keys meet again
        std::vector<std::string> sp;
        for (int i = r.range(1, 2); i > 0; i--) sp.push_back(r.pick(std::vector<std::string>{"Rb", "Cs", "Li", "Sr1", "Sr3", "Rb"}));
        int n0 = r.chance(0.1) ? r.range(20, 45) : r.range(8, 11);
        int k = r.range(3, thorough ? 9 : 7);
        for (int i = 0; i < k; i++) {
            std::string s = r.pick(sp);
            pool.push_back(state(s, n0 + r.range(0, 1), r.range(0, 2)));
        }
        slots = r.range(1, 4);
    }
    std::string state(const std::string &s, int n, int l) {
        double sn = spin(s), jmin = std::fabs(l - sn), jmax = l + sn;
        double j = jmin + r.range(0, int(std::lround(jmax - jmin)));
        double m = j - r.range(0, int(std::lround(2 * j)));
        return s + ":" + std::to_string(n) + ":" + std::to_string(l) + ":" + num(j) + ":" + num(m);
    }
    std::string st() { return r.pick(pool); }
    std::string partner(const std::string &a) { // same species, mostly
        std::vector<std::string> v;
        std::string sp = a.substr(0, a.find(':'));
        for (auto &x : pool)
            if (x.compare(0, sp.size() + 1, sp + ":") == 0) v.push_back(x);
        return r.chance(0.03) || v.empty() ? st() : r.pick(v);
    }
    std::string impossible() { return r.chance(0.7) ? "Xx:10:1:0.5:0.5" : "G"; }
    std::string request(int slot) {
        std::string s = std::to_string(slot), a = st(), b = partner(a);
        switch (r.below(8)) {
        case 0: case 1: return "dip " + s + " " + a + " " + b;
        case 2: return "mul " + s + " " + a + " " + b + " " + std::to_string(r.range(1, 3));
        case 3: return "mulk " + s + " " + a + " " + b + " " + std::to_string(r.range(0, 3)) + " " + std::to_string(r.range(0, 3));
        case 4: return "dia " + s + " " + a + " " + b + " " + (r.chance(0.5) ? "0" : "2");
        case 5: return "mag " + s + " " + a + " " + b;
        case 6: return "rad " + s + " " + a + " " + b + " " + std::to_string(r.range(0, 3));
        default: return r.chance(0.3) ? "ene " + s + " " + a : "dip " + s + " " + b + " " + a;
        }
    }
    std::string precalc(int slot, bool bad) {
        static const char *k[] = {"mul", "rad", "dip", "mag", "dia"};
        std::string kind = k[r.below(5)], s = "pre " + std::to_string(slot) + " " + kind;
        s += " " + std::to_string(kind == "dia" ? 2 * r.range(0, 1) : r.range(kind == "rad" ? 0 : 1, 3)) + " " + std::to_string(r.range(-1, 1));
        std::string a = bad ? "Xx:10:1:0.5:0.5" : st(), sp = a.substr(0, a.find(':') + 1);
        s += " " + a;
        for (auto &x : pool)
            if (x.compare(0, sp.size(), sp) == 0 && r.chance(0.6)) s += " " + x;
        if (r.chance(0.1)) s += " G";
        return s;
    }
    void user_files() {
        int k = r.range(1, 2);
        for (int i = 0; i < k; i++) {
            std::string id = "u" + std::to_string(i);
            const char *kind = r.chance(0.75) ? "good" : r.chance(0.4) ? "missing" : r.chance(0.5) ? "garbage" : "cut";
            p.ops.push_back("db " + id + " " + kind + " " + std::to_string(r.below(1000)));
            dbs.push_back(id);
        }
        k = r.range(1, 2);
        for (int i = 0; i < k; i++) {
            std::string id = "t" + std::to_string(i), a = st(), sp = a.substr(0, a.find(':'));
            bool good = r.chance(0.8);
            std::string s = "csv " + id + " " + (good ? "good" : "missing") + " " + sp;
            for (int m = 0; m < 6; m++) {
                St x = parse_state(st()), y = parse_state(st());
                if (x.sp != sp || y.sp != sp || std::abs(x.l - y.l) != 1 || std::fabs(x.j - y.j) > 1 || x.j + y.j < 1 || (x.n == y.n && x.l == y.l && x.j == y.j)) continue;
                if (!less3(x, y)) std::swap(x, y);
                s += " " + std::to_string(x.n) + ":" + std::to_string(x.l) + ":" + num(x.j) + ":" + std::to_string(y.n) + ":" + std::to_string(y.l) + ":" + num(y.j) + ":" + num(r.range(1, 9999) / 1000.);
                if (r.chance(0.1)) s += r.chance(0.4) ? " junk" : r.chance(0.5) ? " short" : " blank";
            }
            p.ops.push_back(s);
            csvs.push_back(id);
        }
    }
    void emit(int proc, const std::string &c) { p.ops.push_back("p " + std::to_string(proc) + " " + c); }
    // a command for one of the slots; weights per concern
    std::string command(int slot, double user, double transfer, double bad) {
        std::string s = std::to_string(slot);
        double x = r.unit();
        if (x < user) {
            if (!dbs.empty() && r.chance(0.4)) return "defect " + s + " " + (r.chance(0.12) ? "-" : r.pick(dbs));
            if (!csvs.empty()) return "dipole " + s + " " + r.pick(csvs);
        }
        x -= user;
        if (x < transfer) {
            if (r.chance(0.5)) return "save " + s + " " + std::to_string(r.below(3));
            return "load " + std::to_string(r.range(0, slots)) + " " + std::to_string(r.below(3)) + (r.chance(0.15) ? " " + std::to_string(r.below(100000)) : "");
        }
        x -= transfer;
        if (x < bad) {
            if (r.chance(0.5)) return precalc(slot, true);
            std::string i = impossible();
            return r.chance(0.5) ? "dip " + s + " " + i + " " + i : r.chance(0.5) ? "mag " + s + " " + st() + " " + i : "rad " + s + " " + i + " " + i + " 1";
        }
        if (r.chance(0.12)) return precalc(slot, false);
        if (r.chance(0.06)) return "method " + s + " " + std::to_string(r.below(2));
        if (r.chance(0.04)) return "drop " + s;
        if (r.chance(0.05)) return "new " + s + " " + std::to_string(r.range(0, 2));
        return request(slot);
    }
    void phases(int k, int maxproc, int len, double user, double transfer, double bad) {
        int dirs = r.range(1, 2);
        for (int ph = 0; ph < k; ph++) {
            int np = r.range(1, maxproc);
            procs += np;
            // every object belongs to one process at a time
            std::vector<int> at(slots);
            for (auto &x : at) x = int(r.below(uint64_t(np)));
            for (int i = 0; i < np; i++) {
                std::vector<int> mine;
                for (int s = 0; s < slots; s++)
                    if (at[s] == i) mine.push_back(s);
                if (mine.empty()) mine.push_back(slots + ph * 4 + i); // an object of its own
                for (int s : mine)
                    if (ph == 0 || r.chance(0.5) || s >= slots) emit(i, "new " + std::to_string(s) + " " + std::to_string(r.chance(0.12) ? 0 : r.range(1, dirs)));
                for (int c = r.range(2, len); c > 0; c--) {
                    std::string t = command(r.pick(mine), user, transfer, bad);
                    if (t.compare(0, 5, "load ") == 0) { // only into objects of this process
                        auto w = words(t);
                        w[1] = std::to_string(r.pick(mine));
                        if (r.chance(0.7)) emit(i, "drop " + w[1]);
                        t = joined(w);
                        t.pop_back();
                    }
                    emit(i, t);
                }
            }
            p.ops.push_back(r.chance(0.2) ? "check" : "phase");
        }
    }
};
uint64_t log_uniform(Rng &r, double hi) { return uint64_t(std::exp(r.unit() * std::log(hi))) + r.below(3); }
void errors(Plan &p, Rng &r, int procs, int n, bool alloc) {
    static const char *cls[] = {"write", "write", "write", "read", "open", "sync", "lock", "meta", "any", "alloc"};
    for (int i = 0; i < n; i++) {
        std::string s = cls[r.below(alloc ? 10 : 9)];
        const char *act = s == "write" ? (r.chance(0.5) ? "enospc" : r.chance(0.4) ? "short" : "eio") : s == "alloc" ? "enomem" : s == "open" && r.chance(0.3) ? "emfile" : "eio";
        add_fault(p, s.c_str(), r.range(1, procs), s == "alloc" ? log_uniform(r, 3000) : log_uniform(r, s == "write" ? 150 : 80), r.chance(0.6) ? 1 : r.range(2, 60), act, r.range(0, 3000));
    }
}
void gen_c05(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    g.phases(r.range(1, thorough ? 4 : 3), 3, thorough ? 14 : 9, 0, 0.04, 0);
}
void gen_c06(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    bool disk = r.chance(0.25), hold = r.chance(0.04);
    if (disk) p.ops.push_back("disk " + std::to_string(r.below(60000)));
    g.phases(r.range(1, 3), hold ? 2 : r.chance(0.7) ? 1 : 2, thorough ? 16 : 11, 0, 0, r.chance(0.6) ? 0.15 : 0);
    if (disk) {
        p.ops.push_back("disk -1");
        g.phases(1, 1, 8, 0, 0, 0);
    }
    if (hold) {
        g.emit(7, "hold 1 " + std::to_string(r.pick(std::vector<int>{3, 40, 2500})));
        g.phases(1, 1, 5, 0, 0, 0);
    }
    if (r.chance(0.75)) errors(p, r, g.procs, r.range(1, 3), r.chance(0.4));
}
void gen_c07(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    g.phases(r.range(2, thorough ? 5 : 4), r.chance(0.6) ? 1 : 3, thorough ? 14 : 10, 0, 0, 0.02);
    static const char *cls[] = {"any", "any", "write", "write", "sync", "meta", "open", "lock"};
    for (int i = r.range(1, 3); i > 0; i--) add_fault(p, cls[r.below(8)], r.range(1, g.procs), log_uniform(r, 250), 1, r.chance(0.5) ? "torn" : "kill", r.range(1, 4096));
}
void gen_c08(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    g.user_files();
    g.phases(r.range(1, thorough ? 4 : 3), 2, thorough ? 16 : 12, 0.22, r.chance(0.3) ? 0.1 : 0, r.chance(0.3) ? 0.08 : 0);
    if (r.chance(0.35)) errors(p, r, g.procs, r.range(1, 2), r.chance(0.4));
}
void gen_c09(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    if (r.chance(0.6)) g.user_files();
    g.phases(r.range(2, thorough ? 5 : 4), 3, thorough ? 14 : 10, g.dbs.empty() ? 0 : 0.1, 0.25, r.chance(0.2) ? 0.05 : 0);
    if (r.chance(0.25)) errors(p, r, g.procs, 1, r.chance(0.4));
    if (r.chance(0.15)) add_fault(p, "any", r.range(1, g.procs), log_uniform(r, 200), 1, "kill", 0);
}
Register r05({"c05_histories", "C05", gen_c05, execute, 1});
Register r06({"c06_failures", "C06", gen_c06, execute, 1});
Register r07({"c07_kills", "C07", gen_c07, execute, 1});
Register r08({"c08_userdata", "C08", gen_c08, execute, 1});
Register r09({"c09_transfer", "C09", gen_c09, execute, 1});
} // namespace
