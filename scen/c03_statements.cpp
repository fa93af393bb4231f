// C03: statements against a mirror driven through the plain SQLite interface, with I/O faults and kills.
#include <cstring>
#include "SQLite.hpp"
#include "scen/util.hpp"
#include <memory>
#include <optional>

using namespace sim;
namespace {
const char *PATH = "/sim/data/test.db";
using Rows = std::vector<std::string>;

struct Mirror { // reference: same calls, plain C interface, private in-memory database, no faults
    sqlite3 *db = nullptr;
    struct St {
        sqlite3_stmt *s = nullptr;
        std::string sql;
        bool prepared = false, valid = true, fresh = false;
    } st[3];
    Mirror() { sqlite3_open(":memory:", &db); }
};
std::string cell_raw(sqlite3_stmt *s, int i) {
    if (sqlite3_column_type(s, i) == SQLITE_NULL) return "";
    return std::string((const char *)sqlite3_column_text(s, i), size_t(sqlite3_column_bytes(s, i)));
}
std::string row_raw(sqlite3_stmt *s) {
    std::string o;
    char b[64];
    for (int i = 0; i < sqlite3_column_count(s); i++) {
        snprintf(b, sizeof b, "|%d|%.17g|", sqlite3_column_int(s, i), sqlite3_column_double(s, i));
        o += cell_raw(s, i) + b;
    }
    return o;
}
// what the wrapper returns for the current row
std::string row_wrap(sqlite::statement &s, int cols) {
    std::string o;
    char b[64];
    for (int i = 0; i < cols; i++) {
        std::string t;
        int n = 0;
        double d = 0;
        t = s.get<std::string>(i);
        n = s.get<int>(i);
        d = s.get<double>(i);
        snprintf(b, sizeof b, "|%d|%.17g|", n, d);
        o += t + b;
    }
    return o;
}
std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) o += c == '\0' ? std::string("\\0") : std::string(1, c);
    return o;
}
std::vector<std::string> dump(sqlite3 *db) {
    std::vector<std::string> v;
    for (const char *q : {"select 'm',name,sql from sqlite_master order by name", "select 'a',k,v,x from a order by k,rowid", "select 'b',k,v,x from b order by k,rowid"}) {
        sqlite3_stmt *s = nullptr;
        if (sqlite3_prepare_v2(db, q, -1, &s, nullptr) != SQLITE_OK) continue;
        while (sqlite3_step(s) == SQLITE_ROW) v.push_back(row_raw(s));
        sqlite3_finalize(s);
    }
    return v;
}
std::vector<std::string> dump_file() {
    Quiet q;
    sqlite3 *d = nullptr;
    int rc = sqlite3_open_v2(PATH, &d, SQLITE_OPEN_READWRITE, nullptr);
    std::vector<std::string> v;
    if (rc == SQLITE_OK) v = dump(d);
    sqlite3_close(d);
    return v;
}
const char *SETUP = "create table a(k integer primary key, v text, x real); create table b(k int, v text unique, x real);";
std::string text_of(int n) {
    std::string s = "text-" + std::to_string(n);
    if (n % 3 == 1) s += std::string(40 + n % 50, char('a' + n % 26));
    if (n % 7 == 2) s += std::string("\0tail", 5);
    if (n % 11 == 3) s = "";
    if (n % 13 == 4) s += "\xc3\xa4'\";--";
    return s;
}
struct World {
    std::unique_ptr<sqlite::handle> db;
    std::unique_ptr<sqlite::statement> st[3];
    Mirror m;
    bool faulty = false;
    std::vector<std::string> committed;           // content as of the last successful commit
    std::optional<std::vector<std::string>> next; // content if the running call commits
    bool dead_tx = false;
};
World *W;

template <class F>
bool attempt(F f, std::string &what) {
    try {
        f();
        return true;
    } catch (sqlite::error &e) {
        Quiet q;
        what = e.what();
    } catch (std::exception &e) {
        Quiet q;
        what = std::string("other exception: ") + e.what();
    }
    return false;
}
void note_committed() {
    Quiet q;
    if (sqlite3_get_autocommit(W->m.db)) W->committed = dump(W->m.db);
}
// after a failure caused by a fault: statements are abandoned, the mirror follows an automatic rollback
void resync() {
    std::string w;
    for (int i = 0; i < 3; i++)
        if (W->st[i]) {
            attempt([&] { W->st[i]->reset(); }, w);
            attempt([&] { W->st[i]->reset(); }, w);
        }
    Quiet q;
    for (auto &s : W->m.st) {
        sqlite3_reset(s.s);
        s.valid = true;
        s.fresh = true;
    }
    bool mine = sqlite3_get_autocommit(*W->db), ref = sqlite3_get_autocommit(W->m.db);
    if (mine && !ref) {
        sqlite3_exec(W->m.db, "rollback", nullptr, nullptr, nullptr);
        probe("automatic_rollback");
    }
    if (!mine && ref) violation("transaction-left-open", "a failed call left a transaction open that did not exist before");
}
[[noreturn]] void mismatch(const char *cls, const std::string &op, const std::string &a, const std::string &b) {
    violation(cls, "%s: got %s, expected %s", op.c_str(), esc(a).c_str(), esc(b).c_str());
}
// compare the outcome of a call; returns true if both succeeded
bool settle(const std::string &op, bool ok, const std::string &what, bool ref_ok, uint64_t f0) {
    Quiet q;
    log("%s -> %s%s", op.c_str(), ok ? "ok" : "error: ", what.c_str());
    if (ok && ref_ok) return true;
    if (!ok && !ref_ok) {
        probe("errors_reported");
        return false;
    }
    if (!ok && ref_ok) {
        if (fault_count() != f0) {
            probe("faults_reported");
            return false;
        }
        mismatch("spurious-error", op, "error " + what, "success");
    }
    mismatch("error-not-reported", op, "success", "an error");
}
std::string sql_of(const std::vector<std::string> &w) { // w[1] = kind, w[2..] parameters
    int n = w.size() > 2 ? atoi(w[2].c_str()) : 0;
    std::string k = w[1];
    if (k == "selA") return "select k,v,x from a order by k";
    if (k == "selB") return "select k,v,x from b where k < ?1 order by k,rowid";
    if (k == "selNone") return "select k from a where k < -1000";
    if (k == "selOne") return "select count(*), max(v), sum(x) from a";
    if (k == "selNull") return "select null, k, null from b order by k,rowid";
    if (k == "insA") return "insert into a values(?1,?2,?3)";
    if (k == "insB") return "insert into b values(?1,?2,?3)";
    if (k == "insBv") return "insert into b values(" + std::to_string(n % 20) + ",'val" + std::to_string(n % 23) + "'," + std::to_string(n) + ".25)";
    if (k == "bulkA") return "insert or replace into a select value, 'bulk' || value || hex(zeroblob(" + std::to_string(n % 300) + ")), value*0.5 from (with recursive c(value) as (select " +
                             std::to_string(n % 50) + " union all select value+1 from c where value < " + std::to_string(n % 50 + n % 37) + ") select value from c)";
    if (k == "updA") return "update a set x = x + 1, v = v || 'u' where k % 3 = " + std::to_string(n % 3);
    if (k == "delA") return "delete from a where k % 4 = " + std::to_string(n % 4);
    if (k == "delB") return "delete from b where k > " + std::to_string(n % 20);
    if (k == "begin") return "begin";
    if (k == "beginI") return "begin immediate transaction";
    if (k == "commit") return "commit";
    if (k == "rollback") return "rollback";
    if (k == "syntax") return "selec nonsense from";
    if (k == "notable") return "insert into nowhere values(1)";
    if (k == "badcols") return "insert into a values(1)";
    return "select 1";
}
bool writes(const std::string &sql) { return sql.compare(0, 6, "select") != 0; }
void do_step(int i, const std::string &op) {
    auto &ms = W->m.st[i];
    bool busy = false;
    {
        Quiet q;
        if (writes(ms.sql))
            for (int k = 0; k < 3; k++) busy |= k != i && W->m.st[k].s && sqlite3_stmt_busy(W->m.st[k].s);
    }
    if (busy) return; // modifying a table under a running query has no defined row order
    uint64_t f0 = fault_count();
    {
        Quiet q; // what the file may contain if we are killed inside
        W->next.reset();
        if (ms.prepared && ms.valid && writes(ms.sql)) {
            bool ac = sqlite3_get_autocommit(W->m.db);
            if (ac || ms.sql == "commit") {
                int rc = SQLITE_OK;
                if (ac) {
                    sqlite3_exec(W->m.db, "savepoint look", nullptr, nullptr, nullptr);
                    rc = sqlite3_step(ms.s);
                    sqlite3_reset(ms.s);
                }
                if (rc == SQLITE_DONE || !ac) W->next = dump(W->m.db);
                if (ac) {
                    sqlite3_exec(W->m.db, "rollback to look", nullptr, nullptr, nullptr);
                    sqlite3_exec(W->m.db, "release look", nullptr, nullptr, nullptr);
                }
            }
        }
    }
    bool row = false;
    std::string what, got, want;
    bool ok = attempt([&] { row = W->st[i]->step(); }, what);
    bool faulted = fault_count() != f0;
    int rc;
    bool ref_ok;
    {
        Quiet q;
        if (!ms.prepared || !ms.valid)
            rc = SQLITE_MISUSE;
        else if (!ok && faulted) {
            resync();
            settle(op, ok, what, true, f0);
            return;
        } else
            rc = sqlite3_step(ms.s);
        ms.fresh = false;
        ref_ok = rc == SQLITE_ROW || rc == SQLITE_DONE;
        if (rc != SQLITE_ROW && ms.prepared) ms.valid = false;
    }
    if (!settle(op, ok, what, ref_ok, f0)) return;
    Quiet q;
    if (row != (rc == SQLITE_ROW)) mismatch(row ? "extra-row" : "missing-row", op, row ? "a row" : "no row", row ? "no row" : "a row");
    if (row) {
        int cols = sqlite3_column_count(ms.s);
        --quiet_level();
        got = row_wrap(*W->st[i], cols);
        ++quiet_level();
        want = row_raw(ms.s);
        if (got != want) mismatch("wrong-value", op, got, want);
        probe("rows_compared");
    }
    note_committed();
}
void run_op(const std::string &op) {
    auto w = words(op);
    uint64_t f0 = fault_count();
    std::string what;
    if (w[0] == "verify") {
        if (!sqlite3_get_autocommit(*W->db)) return;
        {
            Quiet q;
            for (auto &s : W->m.st)
                if (s.s && sqlite3_stmt_busy(s.s)) return;
        }
        auto have = dump_file();
        Quiet q;
        auto want = dump(W->m.db);
        if (have != want)
            violation("wrong-content", "the file holds %zu entries, the model %zu; first difference: %s", have.size(), want.size(), [&] {
                for (size_t i = 0; i < std::max(have.size(), want.size()); i++) {
                    std::string a = i < have.size() ? have[i] : "(nothing)", b = i < want.size() ? want[i] : "(nothing)";
                    if (a != b) return esc(a) + " instead of " + esc(b);
                }
                return std::string();
            }().c_str());
        probe("content_compared");
        return;
    }
    if (w[0] == "exec" || w[0] == "execm") {
        int i = atoi(w[2].c_str()) % 3;
        std::string sql = sql_of({w[0], w[1], w[2]});
        if (w[0] == "execm") sql = "insert into b values(1,'m" + w[2] + "',1); " + sql + "; insert into b values(2,'n" + w[2] + "',2);";
        bool sel = !writes(sql);
        Quiet q;
        for (auto &s : W->m.st)
            if (s.s && sqlite3_stmt_busy(s.s) && !sel) return;
        // what would be committed
        W->next.reset();
        bool ac = sqlite3_get_autocommit(W->m.db);
        if (sql == "commit" && !ac) W->next = dump(W->m.db);
        if (ac && sql.compare(0, 5, "begin") != 0 && sql != "commit" && sql != "rollback") {
            sqlite3_exec(W->m.db, "savepoint look", nullptr, nullptr, nullptr);
            if (sqlite3_exec(W->m.db, sql.c_str(), nullptr, nullptr, nullptr) == SQLITE_OK) W->next = dump(W->m.db);
            sqlite3_exec(W->m.db, "rollback to look", nullptr, nullptr, nullptr);
            sqlite3_exec(W->m.db, "release look", nullptr, nullptr, nullptr);
        }
        --quiet_level();
        bool ok = attempt([&] { W->st[i]->exec(sql); }, what);
        ++quiet_level();
        W->m.st[i].prepared = false;
        W->m.st[i].sql = sql;
        if (!ok && fault_count() != f0) {
            --quiet_level();
            resync();
            ++quiet_level();
            settle(op, ok, what, true, f0);
            return;
        }
        int rc = sqlite3_exec(W->m.db, sql.c_str(), nullptr, nullptr, nullptr);
        settle(op, ok, what, rc == SQLITE_OK, f0);
        note_committed();
        return;
    }
    int i = atoi(w[1].c_str()) % 3;
    auto &ms = W->m.st[i];
    auto &st = *W->st[i];
    if (w[0] == "set") {
        std::string sql = sql_of({"x", w[2], w.size() > 3 ? w[3] : "0"});
        bool ss = sql.size() % 2;
        bool ok = attempt(
            [&] {
                if (ss) {
                    std::stringstream s;
                    s << sql;
                    st.set(s);
                } else
                    st.set(sql);
            },
            what);
        ms.sql = sql;
        ms.prepared = false;
        settle(op, ok, what, true, f0);
    } else if (w[0] == "prepare") {
        bool ok = attempt([&] { st.prepare(); }, what);
        Quiet q;
        sqlite3_finalize(ms.s);
        ms.s = nullptr;
        int rc = sqlite3_prepare_v2(W->m.db, ms.sql.c_str(), -1, &ms.s, nullptr);
        bool ref_ok = rc == SQLITE_OK && (ok || fault_count() == f0);
        if (!ref_ok) {
            sqlite3_finalize(ms.s);
            ms.s = nullptr;
        }
        ms.prepared = ref_ok;
        ms.valid = true;
        ms.fresh = ref_ok;
        if (!settle(op, ok, what, rc == SQLITE_OK, f0) && rc == SQLITE_OK) {
            --quiet_level();
            resync();
            ++quiet_level();
        }
    } else if (w[0] == "reset") {
        bool ok = attempt([&] { st.reset(); }, what);
        // reporting the failure of the previous step once more is tolerated, being unusable is not
        if (!ok) ok = attempt([&] { st.reset(); }, what);
        {
            Quiet q;
            sqlite3_reset(ms.s);
            ms.valid = true;
            ms.fresh = true;
        }
        settle(op, ok, what, true, f0);
    } else if (w[0] == "bind") {
        if (!ms.prepared) return;
        int at = atoi(w[2].c_str()), n = atoi(w[4].c_str());
        char ty = w[3][0];
        std::string txt;
        {
            Quiet q;
            txt = text_of(n);
        }
        static std::vector<std::string> keep; // bound by reference: has to stay alive
        bool ok;
        if (ty == 'i')
            ok = attempt([&] { st.bind(at, n); }, what);
        else if (ty == 'd')
            ok = attempt([&] { st.bind(at, n * 0.125); }, what);
        else if (ty == 't') {
            ok = attempt([&] { st.bind(at, std::string(txt)); }, what);
            Quiet q;
            char smash[512]; // whatever the temporary used is overwritten
            memset(smash, '#', sizeof smash);
            std::string h(txt.size() + 1, '#');
            log("%c%c", smash[n % 500], h[0]);
        } else {
            auto *s = new std::string(txt);
            ok = attempt([&] { st.bind(at, static_cast<std::string const &>(*s)); }, what);
        }
        Quiet q;
        int rc = ty == 'i' ? sqlite3_bind_int(ms.s, at, n) : ty == 'd' ? sqlite3_bind_double(ms.s, at, n * 0.125)
                                                                 : sqlite3_bind_text(ms.s, at, txt.data(), int(txt.size()), SQLITE_TRANSIENT);
        settle(op, ok, what, rc == SQLITE_OK, f0);
    } else if (w[0] == "step") {
        do_step(i, op);
    } else if (w[0] == "loop") { // range loop, possibly left early
        int limit = atoi(w[2].c_str());
        if (!ms.prepared || writes(ms.sql)) return;
        if (!ms.fresh) run_op("reset " + w[1]);
        int cols;
        {
            Quiet q;
            cols = sqlite3_column_count(ms.s);
        }
        Rows got;
        int seen = 0;
        bool ok = attempt(
            [&] {
                for (auto &r : st) {
                    got.push_back(row_wrap(r, cols));
                    if (++seen >= 400 || (limit && seen >= limit)) break;
                }
            },
            what);
        Quiet q;
        if (!ok && fault_count() != f0) {
            --quiet_level();
            resync();
            ++quiet_level();
            settle(op, ok, what, true, f0);
            return;
        }
        Rows want;
        int rc = SQLITE_DONE;
        while ((!limit || int(want.size()) < limit) && (rc = sqlite3_step(ms.s)) == SQLITE_ROW) want.push_back(row_raw(ms.s));
        ms.fresh = false;
        if (limit && int(want.size()) == limit && got.size() == want.size()) { // abandoned inside: start over before the next use
            --quiet_level();
            run_op("reset " + w[1]);
            ++quiet_level();
        } else {
            ms.valid = false; // stays unusable until reset, like the wrapper's
        }
        if (!settle(op, ok, what, true, f0)) return;
        if (got != want) {
            size_t k = 0;
            while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
            violation(got.size() < want.size() ? "missing-row" : got.size() > want.size() ? "extra-row" : "wrong-value",
                      "%s over \"%s\": the loop visited %zu rows, the result has %zu (first difference at row %zu)", op.c_str(), ms.sql.c_str(), got.size(), want.size(), k);
        }
        probe(want.size() == 0 ? "loops_over_nothing" : want.size() == 1 ? "loops_over_one_row" : "loops_over_many_rows");
    }
}
void execute(const Plan &p) {
    {
        Quiet q;
        fs_mkdirs("/sim/data");
        W = new World;
        W->faulty = !p.faults.empty();
        sqlite3 *d = nullptr;
        sqlite3_open(PATH, &d);
        sqlite3_exec(d, SETUP, nullptr, nullptr, nullptr);
        sqlite3_close(d);
        sqlite3_exec(W->m.db, SETUP, nullptr, nullptr, nullptr);
        note_committed();
    }
    int64_t cap = int64_t(p.knob("disk", -1));
    if (cap >= 0) fs_set_capacity(fs_used() + cap);
    int pid = start_process([&]() -> int {
        std::string what;
        for (int t = 0; t < 6 && !W->db; t++) {
            uint64_t f0 = fault_count();
            bool ok = attempt([&] { W->db = std::make_unique<sqlite::handle>(PATH); }, what);
            if (!ok && fault_count() == f0) violation("spurious-error", "opening failed: %s", what.c_str());
        }
        if (!W->db) return 0;
        for (int i = 0; i < 3; i++) {
            W->st[i] = i == 1 ? std::make_unique<sqlite::statement>(*W->db, "select 1") : std::make_unique<sqlite::statement>(*W->db);
            if (i == 1) W->m.st[1].sql = "select 1";
        }
        for (auto &op : p.ops) run_op(op);
        // faults over: everything works again
        faults_enable(false);
        fs_set_capacity(-1);
        resync();
        {
            Quiet q;
            W->next.reset();
        }
        if (!sqlite3_get_autocommit(*W->db)) run_op("exec rollback 0");
        run_op("set 0 selA");
        run_op("prepare 0");
        run_op("loop 0 0");
        run_op("exec insBv 9901");
        run_op("set 1 insB");
        run_op("prepare 1");
        run_op("bind 1 1 i 7");
        run_op("bind 1 2 t 99991");
        run_op("step 1");
        run_op("verify");
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    Quiet q;
    if (pi.how == Exit::Killed) {
        auto have = dump_file();
        bool old = have == W->committed, nw = W->next && have == *W->next;
        if (!old && !nw)
            violation("unfinished-change-visible", "after the kill the file holds neither the content before nor after the interrupted change (%zu entries, before %zu)",
                      have.size(), W->committed.size());
        probe(old ? "killed_change_absent" : "killed_change_complete");
    } else if (pi.how != Exit::Done)
        violation("abort", "the program ended: %s", pi.what.c_str());
}
void generate(Plan &p, Rng &r, bool thorough) {
    bool faults = r.chance(0.55);
    int n = r.range(6, thorough ? 90 : 50);
    static const std::vector<std::string> sel = {"selA", "selA", "selB", "selNone", "selOne", "selNull"};
    static const std::vector<std::string> wr = {"insA", "insA", "insB", "insB", "insBv", "bulkA", "updA", "delA", "delB"};
    static const std::vector<std::string> tx = {"begin", "beginI", "commit", "commit", "rollback"};
    static const std::vector<std::string> bad = {"syntax", "notable", "badcols"};
    double pw = r.unit(), ptx = r.unit() * 0.3, pbad = r.chance(0.5) ? 0.1 : 0;
    int small = r.range(3, 30);
    auto S = [](int x) { return std::to_string(x); };
    for (int i = 0; i < n; i++) {
        int s = r.range(0, 2);
        double u = r.unit();
        if (u < 0.25) {
            std::string k = r.chance(pbad) ? r.pick(bad) : r.chance(ptx) ? r.pick(tx) : r.pick(wr);
            if (k == "insA" || k == "insB") k = "insBv";
            bool t = k == "commit" || k == "rollback" || k.compare(0, 5, "begin") == 0;
            p.ops.push_back((!faults && !t && r.chance(0.15) ? "execm " : "exec ") + k + " " + S(r.range(0, 300)));
        } else if (u < 0.65) { // a whole use of a statement
            bool w = r.chance(pw);
            std::string k = r.chance(pbad) ? r.pick(bad) : w ? r.pick(wr) : r.pick(sel);
            if (r.chance(0.5)) p.ops.push_back("reset " + S(s));
            p.ops.push_back("set " + S(s) + " " + k + " " + S(r.range(0, 300)));
            p.ops.push_back("prepare " + S(s));
            int reps = r.range(1, 4);
            for (int q = 0; q < reps; q++) {
                if (k == "insA" || k == "insB") {
                    p.ops.push_back("bind " + S(s) + " 1 i " + S(r.range(0, small)));
                    p.ops.push_back("bind " + S(s) + " 2 " + "tts"[r.below(3)] + " " + S(r.range(0, 100)));
                    if (r.chance(0.8)) p.ops.push_back("bind " + S(s) + " 3 d " + S(r.range(-50, 50)));
                } else if (k == "selB")
                    p.ops.push_back("bind " + S(s) + " 1 i " + S(r.range(0, 25)));
                if (w || r.chance(0.3)) {
                    int k2 = w ? 1 : r.range(1, 8);
                    for (int z = 0; z < k2; z++) p.ops.push_back("step " + S(s));
                } else
                    p.ops.push_back("loop " + S(s) + " " + S(r.chance(0.7) ? 0 : r.range(1, 4)));
                if (r.chance(0.85)) p.ops.push_back("reset " + S(s));
            }
        } else if (u < 0.75)
            p.ops.push_back("step " + S(s));
        else if (u < 0.82)
            p.ops.push_back("prepare " + S(s));
        else if (u < 0.88)
            p.ops.push_back("bind " + S(s) + " " + S(r.range(0, 4)) + " " + "itds"[r.below(4)] + " " + S(r.range(0, 100)));
        else if (u < 0.94)
            p.ops.push_back("loop " + S(s) + " 0");
        else
            p.ops.push_back("verify");
    }
    knob(p, "shadow", 0);
    if (faults) {
        int nf = r.range(1, 3);
        double u = r.unit();
        if (u < 0.2)
            knob(p, "disk", r.range(0, 60000));
        else if (u < 0.5)
            add_fault(p, "any", 1, 1 + r.below(600), 1, "kill");
        else if (u < 0.6)
            add_fault(p, "write", 1, 1 + r.below(120), 1, "torn", r.range(0, 4096));
        else
            for (int i = 0; i < nf; i++) {
                const char *cls[] = {"read", "write", "write", "sync", "lock", "meta", "open"};
                const char *c = cls[r.below(7)];
                add_fault(p, c, 1, 1 + r.below(80), r.chance(0.7) ? 1 : r.range(2, 12), c[0] == 'w' && r.chance(0.5) ? "enospc" : "eio");
            }
    }
}
Register reg({"statements", "C03", generate, execute, 1.0});
} // namespace
