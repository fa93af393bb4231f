// C02: quantum-defect lookups by several threads in several databases.
#include "EmbeddedDatabase.hpp"
#include "QuantumDefect.hpp"
#include "scen/util.hpp"
#include <memory>
#include <optional>
#include <sqlite3.h>
#include <thread>

using namespace sim;
namespace {
struct Val {
    double ac, a1, a2, a3, a4, rc, nstar, energy;
    int Z;
};
const char *SPECIES[] = {"Rb", "Cs", "Li", "Sr1", "Xx", "Yb9"};

// ---- reference: the documented lookup on a private copy of the database, with plain SQLite calls
struct RefDb {
    sqlite3 *db = nullptr;
    bool ok = false;
};
bool row(sqlite3 *db, const std::string &q, std::vector<double> &out, bool &null0) {
    sqlite3_stmt *st = nullptr;
    if (sqlite3_prepare_v2(db, q.c_str(), -1, &st, nullptr) != SQLITE_OK) return false;
    bool r = sqlite3_step(st) == SQLITE_ROW;
    if (r) {
        int n = sqlite3_column_count(st);
        out.clear();
        null0 = sqlite3_column_type(st, 0) == SQLITE_NULL;
        for (int i = 0; i < n; i++) out.push_back(sqlite3_column_double(st, i));
    }
    sqlite3_finalize(st);
    return r;
}
std::optional<Val> reference(sqlite3 *db, const std::string &sp, int n, int l, double j) {
    std::vector<double> o;
    bool nul;
    auto q = [](const char *f, auto... a) {
        char b[300];
        snprintf(b, sizeof b, f, a...);
        return std::string(b);
    };
    Val v;
    if (!row(db, q("select max(L) from model_potential where element='%s'", sp.c_str()), o, nul) || nul) return std::nullopt;
    int pl = std::min(l, int(o[0]));
    if (!row(db, q("select max(L) from rydberg_ritz where element='%s'", sp.c_str()), o, nul) || nul) return std::nullopt;
    int rl = std::min(l, int(o[0]));
    if (!row(db, q("select max(J) from rydberg_ritz where element='%s' and L=%d", sp.c_str(), rl), o, nul) || nul) return std::nullopt;
    double rj = std::min(j, o[0]);
    if (!row(db, q("select ac,Z,a1,a2,a3,a4,rc from model_potential where element='%s' and L=%d", sp.c_str(), pl), o, nul)) return std::nullopt;
    v.ac = o[0], v.Z = int(o[1]), v.a1 = o[2], v.a2 = o[3], v.a3 = o[4], v.a4 = o[5], v.rc = o[6];
    if (!row(db, q("select d0,d2,d4,d6,d8,Ry from rydberg_ritz where element='%s' and L=%d and J=%.17g", sp.c_str(), rl, rj), o, nul)) return std::nullopt;
    double x = n - o[0];
    v.nstar = n - (o[0] + o[1] / std::pow(x, 2) + o[2] / std::pow(x, 4) + o[3] / std::pow(x, 6) + o[4] / std::pow(x, 8));
    v.energy = o[5] / (v.nstar * v.nstar); // the unit factor is taken from the code under test, see below
    return v;
}
// ---- database files
std::string make_db(uint64_t seed, bool drop, bool tx, bool big) {
    Rng r(seed);
    std::ostringstream o;
    if (tx) o << "BEGIN TRANSACTION;\n";
    if (drop) o << "DROP TABLE IF EXISTS `model_potential`;\n";
    o << "CREATE TABLE `model_potential` ( `element` text,`L` int,`ac` real,`Z` int,`a1` real,`a2` real,`a3` real,`a4` real,`rc` real);\n";
    if (drop) o << "DROP TABLE IF EXISTS `rydberg_ritz`;\n";
    o << "CREATE TABLE `rydberg_ritz` ( `element` text,`L` int,`J` real,`d0` real,`d2` real,`d4` real,`d6` real,`d8` real,`Ry` real);\n";
    int reps = big ? 40 : 1;
    for (int rep = 0; rep < reps; rep++)
        for (int s = 0; s < 5; s++) {
            std::string sp = SPECIES[s];
            if (rep) sp += "_" + std::to_string(rep);
            if (!rep && r.chance(0.25)) continue;
            int lmax = r.range(0, 3);
            for (int l = 0; l <= lmax; l++) {
                o << "INSERT INTO `model_potential` VALUES('" << sp << "'," << l << "," << r.range(1, 999) / 100. << "," << r.range(1, 80);
                for (int k = 0; k < 4; k++) o << "," << r.range(-999, 999) / 100.;
                o << "," << r.range(1, 999) / 100. << ");\n";
                for (double j = std::fabs(l - .5); j <= l + .5; j += 1)
                    o << "INSERT INTO `rydberg_ritz` VALUES('" << sp << "'," << l << "," << j << "," << r.range(1, 399) / 100. << "," << r.range(-99, 99) / 100.
                      << "," << r.range(-99, 99) / 10. << ",0,0," << 109000 + r.range(0, 800) << ");\n";
            }
        }
    if (tx) o << "COMMIT;\n";
    return o.str();
}
struct Db {
    std::string name, path, kind;
    bool readable = false;
    sqlite3 *ref = nullptr;
};
struct Call {
    int thread, db, n, l;
    std::string sp;
    double j;
    char how;
};
void execute(const Plan &p) {
    auto *dbs = new std::vector<Db>;
    auto *calls = new std::vector<Call>;
    int nt = 1;
    {
        Quiet q;
        fs_mkdirs("/sim/data");
        for (auto &op : p.ops) {
            auto w = words(op);
            if (w[0] == "db") {
                Db d;
                d.name = w[1];
                d.kind = w[2];
                uint64_t seed = strtoull(w[3].c_str(), nullptr, 10);
                d.path = d.name == "builtin" ? "" : "/sim/data/" + d.name + ".sql";
                std::string text;
                bool have = true;
                if (d.kind == "builtin") {
                    d.readable = true;
                    d.ref = *new EmbeddedDatabase;
                } else {
                    if (d.kind == "full") text = make_db(seed, true, true, seed % 3 == 0);
                    else if (d.kind == "bare") text = make_db(seed, false, false, seed % 3 == 0);
                    else if (d.kind == "nodrop") text = make_db(seed, false, true, false);
                    else if (d.kind == "cut") {
                        text = make_db(seed, seed & 1, seed & 2, seed % 3 == 0);
                        text.resize(text.size() * (seed % 97) / 97);
                        if (seed % 5 < 2) text.resize(text.rfind('\n') == std::string::npos ? 0 : text.rfind('\n') + 1);
                    } else if (d.kind == "garbage") text = "this is not SQL " + std::to_string(seed);
                    else if (d.kind == "empty") text = "";
                    else have = false;
                    if (have) {
                        fs_put(d.path, text);
                        sqlite3_open(":memory:", &d.ref);
                        d.readable = sqlite3_exec(d.ref, text.c_str(), nullptr, nullptr, nullptr) == SQLITE_OK;
                    } else if (d.kind == "dir")
                        fs_mkdirs(d.path);
                }
                dbs->push_back(d);
            }
        }
        for (auto &op : p.ops) {
            auto w = words(op);
            if (w[0] != "look") continue;
            Call c;
            c.thread = atoi(w[1].c_str());
            c.db = -1;
            for (size_t i = 0; i < dbs->size(); i++)
                if ((*dbs)[i].name == w[2]) c.db = int(i);
            if (c.db < 0) continue;
            c.sp = w[3];
            c.n = atoi(w[4].c_str());
            c.l = atoi(w[5].c_str());
            c.j = atof(w[6].c_str());
            c.how = w[7][0];
            nt = std::max(nt, c.thread + 1);
            calls->push_back(c);
        }
    }
    int pid = start_process([&]() -> int {
        auto client = [&](int t) {
            for (size_t i = 0; i < calls->size(); i++) {
                Call const &c = (*calls)[i];
                if (c.thread != t) continue;
                Val v{};
                bool ok = false, all = false, oom = false;
                std::string what, path, sp;
                uint64_t f0;
                {
                    Quiet q;
                    path = (*dbs)[c.db].path;
                    sp = c.sp;
                    f0 = fault_count();
                }
                try {
                    if (c.how == 'e')
                        v.energy = energy_level(sp, c.n, c.l, c.j, path);
                    else if (c.how == 'n')
                        v.nstar = nstar(sp, c.n, c.l, c.j, path);
                    else {
                        auto fill = [&](QuantumDefect const &qd) {
                            v = Val{qd.ac, qd.a1, qd.a2, qd.a3, qd.a4, qd.rc, qd.nstar, qd.energy, qd.Z};
                            if (qd.species != sp || qd.n != c.n || qd.l != c.l || qd.j != c.j) violation("wrong-state", "the returned object describes another state");
                        };
                        if (path.empty() && c.how == 'b')
                            fill(QuantumDefect(sp, c.n, c.l, c.j));
                        else
                            fill(QuantumDefect(sp, c.n, c.l, c.j, path));
                        all = true;
                    }
                    ok = true;
                } catch (std::bad_alloc &) {
                    oom = true;
                } catch (std::exception &e) {
                    Quiet q;
                    what = e.what();
                }
                Quiet q;
                Db &d = (*dbs)[c.db];
                bool hit = fault_count() != f0; // some fault fired meanwhile (anywhere): failing is legitimate
                std::optional<Val> ref;
                if (d.readable) ref = reference(d.ref, sp, c.n, c.l, c.j);
                log("look %s %s n=%d l=%d j=%g %c -> %s %.12g %.12g", d.name.c_str(), sp.c_str(), c.n, c.l, c.j, c.how,
                    ok ? "ok" : oom ? "bad_alloc" : what.c_str(), v.nstar, v.energy);
                if (!ok) {
                    if (hit) {
                        probe("failed_by_fault");
                        continue;
                    }
                    if (oom) violation("spurious-failure", "bad_alloc without an allocation fault");
                    if (ref)
                        violation("spurious-failure", "lookup of %s n=%d l=%d j=%g in database %s (%s) failed although it has the entry: %s", sp.c_str(), c.n, c.l,
                                  c.j, d.name.c_str(), d.kind.c_str(), what.c_str());
                    probe("failed_correctly");
                    continue;
                }
                if (!ref)
                    violation("silent-failure", "lookup of %s n=%d l=%d j=%g in database %s (%s) returned values although it %s", sp.c_str(), c.n, c.l, c.j,
                              d.name.c_str(), d.kind.c_str(), d.readable ? "has no entry" : "cannot be read");
                const double unit = -.5 * 6579683.920729 / 109737.31568525; // Hartree frequency in GHz, Rydberg constant
                auto cmp = [&](const char *nm, double got, double want, double tol) {
                    if (!near(got, want, tol))
                        violation("wrong-value", "%s of %s n=%d l=%d j=%g from database %s (%s) is %.15g, the database defines %.15g", nm, sp.c_str(), c.n, c.l,
                                  c.j, d.name.c_str(), d.kind.c_str(), got, want);
                };
                if (all || c.how == 'n') cmp("nstar", v.nstar, ref->nstar, 1e-10);
                if (all || c.how == 'e') cmp("energy", v.energy, unit * ref->energy, 1e-6);
                if (all) {
                    cmp("ac", v.ac, ref->ac, 0);
                    cmp("Z", v.Z, ref->Z, 0);
                    cmp("a1", v.a1, ref->a1, 0);
                    cmp("a2", v.a2, ref->a2, 0);
                    cmp("a3", v.a3, ref->a3, 0);
                    cmp("a4", v.a4, ref->a4, 0);
                    cmp("rc", v.rc, ref->rc, 0);
                }
                probe("values_checked");
            }
        };
        std::vector<std::thread> th;
        faults_enable(false);
        for (int t = 0; t < nt; t++) th.emplace_back(client, t);
        faults_enable(true);
        for (auto &t : th) t.join();
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    Quiet q;
    if (pi.how != Exit::Done) violation("abort", "a lookup ended the program: %s", pi.what.c_str());
}
void generate(Plan &p, Rng &r, bool thorough) {
    int nt = r.range(1, 4);
    std::vector<std::string> names = {"builtin"};
    p.ops.push_back("db builtin builtin 0");
    const char *kinds[] = {"full", "full", "full", "bare", "nodrop", "cut", "garbage", "empty", "missing", "dir"};
    int nd = r.range(1, 4);
    for (int i = 0; i < nd; i++) {
        std::string nm(1, char('A' + i));
        names.push_back(nm);
        p.ops.push_back("db " + nm + " " + kinds[r.below(10)] + " " + std::to_string(r.below(100000)));
    }
    int n = r.range(3, thorough ? 40 : 24), ns = r.range(1, 6), nn = r.range(1, 3);
    double pb = r.unit();
    for (int i = 0; i < n; i++) {
        int l = r.range(0, 4);
        double j = l == 0 ? 0.5 : l + (r.chance(0.5) ? 0.5 : -0.5);
        std::string db = r.chance(pb * 0.6) ? "builtin" : r.pick(names);
        std::ostringstream o;
        o << "look " << r.range(0, nt - 1) << " " << db << " " << SPECIES[r.below(ns)] << " " << 30 + r.range(0, nn - 1) << " " << l << " " << j << " " << "enqb"[r.below(4)];
        p.ops.push_back(o.str());
    }
    knob(p, "shadow", r.chance(0.6));
    knob(p, "p_mem", pick(r, {0, 0.0005, 0.005, 0.05}));
    knob(p, "p_conf", pick(r, {0, 0.05, 0.3}));
    knob(p, "p_sync", pick(r, {0.05, 0.3, 0.7}));
    knob(p, "p_io", pick(r, {0.05, 0.4}));
    if (r.chance(0.35)) {
        int nf = r.range(1, 2);
        for (int i = 0; i < nf; i++) {
            double u = r.unit();
            if (u < 0.4) add_fault(p, "alloc", 1, 1 + r.below(200), 1, "enomem");
            else if (u < 0.7) add_fault(p, "read", 1, 1 + r.below(12), r.range(1, 3), "eio");
            else if (u < 0.85) add_fault(p, "read", 1, 1 + r.below(12), r.range(1, 3), "short", r.range(1, 4000));
            else add_fault(p, "open", 1, 1 + r.below(8), r.range(1, 3), r.chance(0.5) ? "emfile" : "eacces");
        }
    }
}
Register reg({"defects", "C02", generate, execute, 1.0});
} // namespace
