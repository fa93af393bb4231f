// C04: many connections, threads and processes on one database file; lock holders, kills, moved handles.
#include "SQLite.hpp"
#include "scen/util.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <thread>

using namespace sim;
namespace {
const char *PATH = "/sim/data/shared.db";
const char *SCHEMA = "create table if not exists c(k integer primary key, v integer); create table if not exists log(who text unique, n integer);";
const int64_t PATIENCE_US = 3000000; // progress is due within this much time in which nobody else is active

struct Call {
    int client;
    std::string what;
    std::string who;  // unique tag written to the log table ("" for reads)
    int key = -1;
    int64_t t0 = 0, t1 = -1;
    bool ok = false, done = false;
};
std::vector<Call> *H;
// time in which exactly one call was in progress, per call: nobody else can be the reason for waiting
int active_calls = 0, sole = -1;
int64_t last_change = 0;
std::vector<int64_t> *alone;
std::vector<int> *running;
void account() {
    int64_t t = now_us();
    if (running->size() == 1) (*alone)[(*running)[0]] += t - last_change;
    last_change = t;
}
int begin_call(int client, const std::string &what) {
    Quiet q;
    account();
    Call c;
    c.client = client;
    c.what = what;
    c.t0 = now_us();
    H->push_back(c);
    alone->push_back(0);
    running->push_back(int(H->size()) - 1);
    return int(H->size()) - 1;
}
void end_call(int id, bool ok) {
    Quiet q;
    account();
    running->erase(std::remove(running->begin(), running->end(), id), running->end());
    Call &c = (*H)[id];
    c.t1 = now_us();
    c.ok = ok;
    c.done = true;
    log("call %d client %d %s %s %lld us alone %lld us", id, c.client, c.what.c_str(), ok ? "ok" : "failed", (long long)(c.t1 - c.t0), (long long)(*alone)[id]);
    if (c.t1 - c.t0 > 1000) probe("calls_that_waited");
    if (c.t1 - c.t0 > 5000000) probe("calls_that_waited_over_5s");
}
// a connection living in storage that is overwritten after destruction
struct Slot {
    void *mem;
    sqlite::handle *h = nullptr;
    Slot() {
        Quiet q;
        mem = malloc(sizeof(sqlite::handle));
    }
    void open() { h = new (mem) sqlite::handle(PATH); }
    void destroy() {
        if (!h) return;
        h->~handle();
        h = nullptr;
        memset(mem, 0, sizeof(sqlite::handle));
    }
};
struct Client {
    int id;
    std::unique_ptr<Slot> s;
    bool faulty;
    int holding = -1;
};
void fail(Client &c, int call, const std::string &what, const char *err, uint64_t f0) {
    Quiet q;
    if (fault_count() != f0) {
        probe("faults_reported");
        return;
    }
    bool locked = strstr(err, "locked") != nullptr;
    violation(locked ? "failed-instead-of-waiting" : "unexpected-error", "client %d: %s failed with \"%s\" after %lld us", c.id, what.c_str(), err,
              (long long)(now_us() - (*H)[call].t0));
}
template <class F>
bool guarded(Client &c, const std::string &what, const std::string &who, int key, F f) {
    int id = begin_call(c.id, what);
    {
        Quiet q;
        (*H)[id].who = who;
        (*H)[id].key = key;
    }
    uint64_t f0 = fault_count();
    bool ok = false;
    try {
        f();
        ok = true;
    } catch (std::exception &e) {
        fail(c, id, what, e.what(), f0);
        if (!sqlite3_get_autocommit(*c.s->h)) sqlite3_exec(*c.s->h, "rollback", nullptr, nullptr, nullptr);
    }
    end_call(id, ok);
    return ok;
}
void add(sqlite::statement &st, int key, const std::string &who) {
    st.set("insert into log values(?1,?2)");
    st.prepare();
    st.bind(1, who);
    st.bind(2, key);
    st.step();
    st.reset();
    st.set("insert into c values(?1,1) on conflict(k) do update set v=v+1");
    st.prepare();
    st.bind(1, key);
    st.step();
    st.reset();
}
void client_main(int id, const std::vector<std::string> &ops) {
    Client c;
    c.id = id;
    {
        Quiet q;
        c.s = std::make_unique<Slot>();
    }
    int seqno = 0;
    auto tag = [&] { return "client" + std::to_string(id) + "-" + std::to_string(seqno++); };
    auto ensure = [&]() -> bool {
        for (int i = 0; i < 4 && !c.s->h; i++) {
            uint64_t f0 = fault_count();
            try {
                c.s->open();
                sqlite::statement st(*c.s->h);
                int cid = begin_call(id, "create");
                try {
                    st.exec(SCHEMA);
                    end_call(cid, true);
                } catch (std::exception &e) {
                    fail(c, cid, "create tables", e.what(), f0);
                    end_call(cid, false);
                    throw;
                }
            } catch (std::exception &e) {
                if (fault_count() == f0) violation("unexpected-error", "client %d cannot open the database: %s", id, e.what());
                c.s->destroy();
            }
        }
        return c.s->h != nullptr;
    };
    for (auto &op : ops) {
        std::vector<std::string> w;
        {
            Quiet q;
            w = words(op);
        }
        if (w[0] == "pause") {
            sleep_us(atoll(w[1].c_str()));
            continue;
        }
        if (!ensure()) return;
        std::string who, label;
        {
            Quiet q;
            who = tag();
            label = op + " " + who;
        }
        sqlite::handle &h = *c.s->h;
        if (w[0] == "inc") { // one change per statement
            int key = atoi(w[1].c_str());
            guarded(c, label, who, -1, [&] {
                sqlite::statement st(h);
                st.set("insert into log values(?1,-1)");
                st.prepare();
                st.bind(1, who);
                st.step();
            });
            (void)key;
        } else if (w[0] == "tx" || w[0] == "hold") {
            int key = atoi(w[1].c_str());
            int64_t us = atoll(w[2].c_str());
            guarded(c, label, who, key, [&] {
                sqlite::statement st(h);
                st.exec(w[3] == "e" ? "begin exclusive" : "begin immediate transaction");
                add(st, key, who);
                if (us) {
                    sleep_us(us);
                    probe("locks_held_over_time");
                }
                st.exec("commit transaction");
            });
        } else if (w[0] == "undo") {
            int key = atoi(w[1].c_str());
            int64_t us = atoll(w[2].c_str());
            guarded(c, label, "", -1, [&] {
                sqlite::statement st(h);
                st.exec("begin immediate");
                add(st, key, "undone-" + who);
                if (us) sleep_us(us);
                st.exec("rollback");
            });
        } else if (w[0] == "read") { // both tables change together: any read sees a consistent pair
            int64_t us = atoll(w[1].c_str());
            guarded(c, label, "", -1, [&] {
                sqlite::statement st(h);
                st.set("select coalesce(sum(v),0), (select count(*) from log where n>=0) from c union all select -1,-1 order by 1");
                st.prepare();
                bool got = st.step();
                int a = got ? st.get<int>(0) : 0;
                if (us) sleep_us(us); // shared lock held by an unfinished query
                got = st.step();
                a = st.get<int>(0);
                int b = st.get<int>(1);
                if (!got || a != b) violation("inconsistent-read", "client %d read %d increments and %d log entries", id, a, b);
                st.step();
                st.reset();
            });
        } else if (w[0] == "move") {
            std::unique_ptr<Slot> n;
            {
                Quiet q;
                n = std::make_unique<Slot>();
            }
            n->h = new (n->mem) sqlite::handle(std::move(*c.s->h));
            c.s->destroy();
            Quiet q;
            c.s.swap(n);
            probe("handles_moved");
        } else if (w[0] == "assign") {
            std::unique_ptr<Slot> n;
            {
                Quiet q;
                n = std::make_unique<Slot>();
            }
            try {
                n->h = new (n->mem) sqlite::handle(":memory:");
            } catch (std::exception &) {
                n->h = nullptr;
                continue;
            }
            *n->h = std::move(*c.s->h);
            c.s->destroy();
            Quiet q;
            c.s.swap(n);
            probe("handles_move_assigned");
        } else if (w[0] == "reopen")
            c.s->destroy();
    }
    if (c.s->h) c.s->destroy();
}
void execute(const Plan &p) {
    Quiet q0;
    H = new std::vector<Call>;
    alone = new std::vector<int64_t>;
    running = new std::vector<int>;
    fs_mkdirs("/sim/data");
    if (p.knob("precreate", 0)) {
        sqlite3 *d;
        sqlite3_open(PATH, &d);
        sqlite3_exec(d, SCHEMA, nullptr, nullptr, nullptr);
        for (int k = 0; k < 3; k++) sqlite3_exec(d, ("insert into c values(" + std::to_string(k) + ",0)").c_str(), nullptr, nullptr, nullptr);
        sqlite3_close(d);
    }
    std::map<int, std::map<int, std::vector<std::string>>> prog; // process -> client -> ops
    for (auto &o : p.ops) {
        auto w = words(o);
        int pr = atoi(w[0].c_str()), cl = atoi(w[1].c_str());
        std::string rest;
        for (size_t i = 2; i < w.size(); i++) rest += (i > 2 ? " " : "") + w[i];
        prog[pr][cl].push_back(rest);
    }
    std::vector<int> pids;
    on_process_end([](int pid, bool killed) {
        Quiet q;
        if (!killed) return;
        account();
        probe("processes_killed");
        // its calls are no longer in progress
        running->erase(std::remove_if(running->begin(), running->end(), [&](int id) { return (*H)[id].client / 100 == pid; }), running->end());
    });
    for (auto &pr : prog) {
        auto *cl = &pr.second;
        --quiet_level();
        int pid = start_process([cl]() -> int {
            int pid = self_pid();
            std::vector<std::thread> th;
            for (auto &c : *cl) th.emplace_back([pid, &c] { client_main(pid * 100 + c.first, c.second); });
            for (auto &t : th) t.join();
            return 0;
        });
        ++quiet_level();
        pids.push_back(pid);
    }
    for (int pid : pids) {
        --quiet_level();
        ProcInfo pi = wait_process(pid);
        ++quiet_level();
        if (pi.how != Exit::Done && pi.how != Exit::Killed) violation("abort", "process %d ended: %s", pid, pi.what.c_str());
    }
    faults_enable(false);
    for (size_t i = 0; i < H->size(); i++)
        if ((*alone)[i] - 0 > PATIENCE_US + [&] {
                auto w = words((*H)[i].what);
                return w[0] == "read" ? atoll(w[1].c_str()) : w.size() > 2 && (w[0] == "tx" || w[0] == "hold" || w[0] == "undo") ? atoll(w[2].c_str()) : 0ll;
            }())
            violation("late", "client %d: %s took %lld us although nobody else was using the database for %lld us of that", (*H)[i].client, (*H)[i].what.c_str(),
                      (long long)((*H)[i].t1 - (*H)[i].t0), (long long)(*alone)[i]);
    // final content
    sqlite3 *d;
    sqlite3_open(PATH, &d);
    std::map<std::string, int> who;
    std::map<int, int> cnt;
    sqlite3_stmt *s = nullptr;
    auto rows = [&](const char *sql, auto f) {
        if (sqlite3_prepare_v2(d, sql, -1, &s, nullptr) != SQLITE_OK) return std::string(sqlite3_errmsg(d));
        int rc;
        while ((rc = sqlite3_step(s)) == SQLITE_ROW) f();
        sqlite3_finalize(s);
        return rc == SQLITE_DONE ? std::string() : std::string(sqlite3_errmsg(d));
    };
    std::string e = rows("select who,n from log", [&] { who[(const char *)sqlite3_column_text(s, 0)] = sqlite3_column_int(s, 1); });
    if (e.empty()) e = rows("select k,v from c", [&] { cnt[sqlite3_column_int(s, 0)] = sqlite3_column_int(s, 1); });
    std::string integ;
    if (e.empty()) e = rows("pragma integrity_check", [&] { integ = (const char *)sqlite3_column_text(s, 0); });
    if (!e.empty() && !(H->empty() || e.find("no such table") != std::string::npos)) violation("damaged-file", "the file cannot be read afterwards: %s", e.c_str());
    if (e.empty() && integ != "ok") violation("damaged-file", "integrity check: %s", integ.c_str());
    sqlite3_close(d);
    std::map<int, int> want;
    std::map<std::string, bool> expected;
    for (auto &c : *H) {
        if (c.who.empty()) continue;
        bool there = who.count(c.who);
        expected[c.who] = true;
        if (c.done && c.ok && !there) violation("lost-update", "%s was reported successful but is not in the file", c.what.c_str());
        if (c.done && !c.ok && there && p.knob("commitfault", 0) == 0) violation("failed-change-applied", "%s failed but is in the file", c.what.c_str());
        if (there && c.key >= 0) want[c.key]++;
    }
    for (auto &w : who)
        if (!expected.count(w.first)) violation("phantom-update", "entry %s was never written", w.first.c_str());
        for (auto &c : cnt)
            if (c.second != want[c.first])
                violation("lost-update", "counter %d is %d, but %d increments are recorded", c.first, c.second, want[c.first]);
    probe("updates_checked", who.size());
}
void generate(Plan &p, Rng &r, bool thorough) {
    auto S = [](int64_t x) { return std::to_string(x); };
    int np = r.range(1, 3), budget = thorough ? 40 : 26;
    double pm = r.chance(0.7) ? r.unit() * 0.4 : 0, ph = r.unit() * 0.4, pr = r.unit() * 0.4;
    // how long locks are held: mostly short, sometimes minutes
    int big = r.chance(0.25) ? r.range(1, 2) : 0;
    for (int a = 0; a < np; a++) {
        int nc = r.range(np == 1 ? 2 : 1, 3);
        for (int c = 0; c < nc; c++) {
            int n = r.range(1, std::max(2, budget / (np * nc)));
            std::string pre = S(a) + " " + S(c) + " ";
            for (int i = 0; i < n; i++) {
                if (r.chance(pm)) p.ops.push_back(pre + (r.chance(0.6) ? "move" : "assign"));
                if (r.chance(0.1)) p.ops.push_back(pre + "pause " + S(r.range(0, 60000)));
                if (r.chance(0.03)) p.ops.push_back(pre + "reopen");
                double u = r.unit();
                int64_t hold = r.chance(ph) ? int64_t(std::pow(10.0, 3 + 2.5 * r.unit())) : 0;
                if (big && r.chance(0.1)) {
                    big--;
                    hold = int64_t(std::pow(10.0, 6 + 2.0 * r.unit()));
                }
                if (u < pr)
                    p.ops.push_back(pre + "read " + S(hold));
                else if (u < pr + (1 - pr) * 0.3)
                    p.ops.push_back(pre + "inc " + S(r.range(0, 2)));
                else if (u < pr + (1 - pr) * 0.85)
                    p.ops.push_back(pre + "tx " + S(r.range(0, 2)) + " " + S(hold) + (r.chance(0.2) ? " e" : " i"));
                else
                    p.ops.push_back(pre + "undo " + S(r.range(0, 2)) + " " + S(hold));
            }
        }
    }
    knob(p, "precreate", r.chance(0.7));
    knob(p, "shadow", r.chance(0.3));
    knob(p, "p_sync", pick(r, {0.05, 0.3}));
    knob(p, "p_io", pick(r, {0.05, 0.3, 0.7}));
    if (r.chance(0.4)) {
        int nf = r.range(1, 2);
        for (int i = 0; i < nf; i++) {
            double u = r.unit();
            int pid = r.range(1, np);
            if (u < 0.55)
                add_fault(p, "any", pid, 1 + r.below(400), 1, "kill");
            else if (u < 0.7)
                add_fault(p, "write", pid, 1 + r.below(60), 1, "torn", r.range(0, 4096));
            else {
                const char *cls[] = {"read", "write", "sync", "lock"};
                const char *c = cls[r.below(4)];
                add_fault(p, c, pid, 1 + r.below(80), r.range(1, 3), c[0] == 'w' ? "enospc" : "eio");
                if (c[0] == 's') knob(p, "commitfault", 1); // the outcome of a commit whose sync failed is open
            }
        }
    }
}
Register reg({"contention", "C04", generate, execute, 1.0});
} // namespace
