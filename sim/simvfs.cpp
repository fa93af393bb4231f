// SQLite file system layer on the simulated disk: locks belong to (simulated) processes, every
// operation is a scheduling and fault point.
#include "internal.hpp"
#include "simfs.hpp"
#include <climits>
#include <cstring>
#include <sqlite3.h>

using namespace sim;
namespace {
struct VFile {
    sqlite3_file base;
    InodeP *n;
    std::string *path;
    int pid;
    int lock;
    bool del;
    bool main_db;
    bool mapped;
    int memkind;
};
std::set<VFile *> &open_set() {
    static auto *s = new std::set<VFile *>;
    return *s;
}
VFile *V(sqlite3_file *f) { return (VFile *)f; }
void own(VFile *v, const char *what) {
    if (self && self->pid != v->pid)
        violation("connection-used-after-fork", "process %d uses (%s) the database connection to %s that process %d opened", self->pid, what,
                  v->path->c_str(), v->pid);
}
std::string path_of(const char *name) { // no exception may pass through SQLite
    Quiet q;
    return sim_abspath(name);
}
int err_of(const Fault *f, int ioerr) {
    if (f->action == "enospc") return SQLITE_FULL;
    if (f->action == "emfile") return SQLITE_CANTOPEN;
    return ioerr;
}
bool is_err(const Fault *f) { return f && (f->action == "eio" || f->action == "enospc" || f->action == "emfile" || f->action == "eacces"); }
int xClose(sqlite3_file *f) {
    VFile *v = V(f);
    if (self && self->pid != v->pid && v->lock > 0) own(v, "close");
    {
        Quiet q;
        (*v->n)->lk.erase(v);
        (*v->n)->lk_pid.erase(v);
        (*v->n)->shm_hold.erase(v);
        if ((*v->n)->shm_hold.empty()) (*v->n)->shm.clear();
        if (v->del) fs_unlink(*v->path);
        open_set().erase(v);
        delete v->n;
        delete v->path;
    }
    return SQLITE_OK;
}
int xRead(sqlite3_file *f, void *b, int n, sqlite3_int64 off) {
    VFile *v = V(f);
    own(v, "read");
    const Fault *ft = io_op("read", "db read", *v->path);
    if (is_err(ft)) {
        fault_fired("dbread-", ft->action.c_str());
        return SQLITE_IOERR_READ;
    }
    std::string &d = (*v->n)->data;
    int have = off >= (int64_t)d.size() ? 0 : int(std::min<int64_t>(n, d.size() - off));
    memcpy(b, d.data() + off, have);
    if (have < n) {
        memset((char *)b + have, 0, n - have);
        return SQLITE_IOERR_SHORT_READ;
    }
    return SQLITE_OK;
}
int xWrite(sqlite3_file *f, const void *b, int n, sqlite3_int64 off) {
    VFile *v = V(f);
    own(v, "write");
    const Fault *ft = io_op("write", "db write", *v->path);
    if (is_err(ft)) {
        fault_fired("dbwrite-", ft->action.c_str());
        return err_of(ft, SQLITE_IOERR_WRITE);
    }
    Quiet q;
    size_t want = n;
    if (ft && (ft->action == "torn" || ft->action == "short")) want = size_t(ft->arg) % size_t(n);
    size_t room = fs_room(**v->n, off, want);
    if (room) fs_write_at(**v->n, off, (const char *)b, room);
    if (ft && ft->action == "torn") {
        fault_fired("dbtorn-write-kill");
        --quiet;
        kill_process(self_pid());
    }
    if (ft && ft->action == "short") {
        fault_fired("dbshort-write");
        return SQLITE_FULL;
    }
    if (room < want) {
        fault_fired("disk-full");
        return SQLITE_FULL;
    }
    return SQLITE_OK;
}
int xTruncate(sqlite3_file *f, sqlite3_int64 sz) {
    VFile *v = V(f);
    own(v, "truncate");
    const Fault *ft = io_op("write", "db truncate", *v->path);
    if (is_err(ft)) {
        fault_fired("dbtruncate-", ft->action.c_str());
        return SQLITE_IOERR_TRUNCATE;
    }
    Quiet q;
    if (sz < (int64_t)(*v->n)->data.size()) fs_trunc(**v->n, sz);
    return SQLITE_OK;
}
int xSync(sqlite3_file *f, int) {
    VFile *v = V(f);
    own(v, "sync");
    const Fault *ft = io_op("sync", "db sync", *v->path);
    if (is_err(ft)) {
        fault_fired("dbsync-", ft->action.c_str());
        return SQLITE_IOERR_FSYNC;
    }
    return SQLITE_OK;
}
int xFileSize(sqlite3_file *f, sqlite3_int64 *sz) {
    *sz = (*V(f)->n)->data.size();
    return SQLITE_OK;
}
int xLock(sqlite3_file *f, int lvl) {
    VFile *v = V(f);
    own(v, "lock");
    if (v->lock >= lvl) return SQLITE_OK;
    const Fault *ft = io_op("lock", "db lock", *v->path);
    if (is_err(ft)) {
        fault_fired("dblock-", ft->action.c_str());
        return SQLITE_IOERR_LOCK;
    }
    Quiet q;
    Inode &n = **v->n;
    int others = 0, maxo = 0;
    for (auto &k : n.lk)
        if (k.first != v && k.second > 0) {
            others++;
            maxo = std::max(maxo, k.second);
        }
    auto set = [&](int l) {
        v->lock = l;
        n.lk[v] = l;
        n.lk_pid[v] = v->pid;
    };
    auto busy = [&]() {
        probe("db_lock_busy");
        log("db busy %s", v->path->c_str());
        return SQLITE_BUSY;
    };
    switch (lvl) {
    case SQLITE_LOCK_SHARED:
        if (maxo >= SQLITE_LOCK_PENDING) return busy();
        set(SQLITE_LOCK_SHARED);
        return SQLITE_OK;
    case SQLITE_LOCK_RESERVED:
        if (maxo >= SQLITE_LOCK_RESERVED) return busy();
        set(SQLITE_LOCK_RESERVED);
        return SQLITE_OK;
    default:
        if (maxo >= SQLITE_LOCK_RESERVED) return busy();
        if (others) {
            if (v->lock == SQLITE_LOCK_RESERVED) set(SQLITE_LOCK_PENDING);
            return busy();
        }
        set(SQLITE_LOCK_EXCLUSIVE);
        return SQLITE_OK;
    }
}
int xUnlock(sqlite3_file *f, int lvl) {
    VFile *v = V(f);
    if (v->lock <= lvl) return SQLITE_OK;
    own(v, "unlock");
    {
        Quiet q;
        v->lock = lvl;
        if (lvl)
            (*v->n)->lk[v] = lvl;
        else
            (*v->n)->lk.erase(v);
        log("db unlock to %d %s", lvl, v->path->c_str());
    }
    point(K_IO);
    return SQLITE_OK;
}
int xCheckReserved(sqlite3_file *f, int *out) {
    *out = 0;
    for (auto &k : (*V(f)->n)->lk)
        if (k.second >= SQLITE_LOCK_RESERVED) *out = 1;
    return SQLITE_OK;
}
int xControl(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
int xSector(sqlite3_file *) { return 4096; }
int xDevChar(sqlite3_file *) { return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
// --- shared memory for write-ahead logging
int xShmMap(sqlite3_file *f, int pg, int sz, int extend, void volatile **pp) {
    VFile *v = V(f);
    own(v, "shared memory");
    Quiet q;
    Inode &n = **v->n;
    if (!n.shm_hold.count(v)) n.shm_hold[v].pid = v->pid;
    *pp = nullptr;
    if (int(n.shm.size()) <= pg) {
        if (!extend) return SQLITE_OK;
        while (int(n.shm.size()) <= pg) {
            n.shm.emplace_back(new char[sz]);
            memset(n.shm.back().get(), 0, sz);
        }
    }
    *pp = n.shm[pg].get();
    return SQLITE_OK;
}
int xShmLock(sqlite3_file *f, int ofs, int k, int flags) {
    VFile *v = V(f);
    own(v, "shared memory lock");
    io_op("lock", "db shm lock", *v->path);
    Quiet q;
    Inode &n = **v->n;
    uint16_t mask = uint16_t(((1u << k) - 1) << ofs);
    ShmHold &h = n.shm_hold[v];
    h.pid = v->pid;
    if (flags & SQLITE_SHM_UNLOCK) {
        h.shared &= ~mask;
        h.excl &= ~mask;
        return SQLITE_OK;
    }
    for (auto &o : n.shm_hold) {
        if (o.first == v) continue;
        if (o.second.excl & mask) return SQLITE_BUSY;
        if ((flags & SQLITE_SHM_EXCLUSIVE) && (o.second.shared & mask)) return SQLITE_BUSY;
    }
    if (flags & SQLITE_SHM_EXCLUSIVE)
        h.excl |= mask;
    else
        h.shared |= mask;
    return SQLITE_OK;
}
void xShmBarrier(sqlite3_file *) { point(K_IO); }
int xShmUnmap(sqlite3_file *f, int) {
    Quiet q;
    Inode &n = **V(f)->n;
    n.shm_hold.erase(V(f));
    if (n.shm_hold.empty()) n.shm.clear();
    return SQLITE_OK;
}
const sqlite3_io_methods methods = {2,        xClose,   xRead,    xWrite,         xTruncate, xSync,    xFileSize, xLock,       xUnlock,
                                    xCheckReserved, xControl, xSector,  xDevChar, xShmMap,   xShmLock, xShmBarrier, xShmUnmap, nullptr, nullptr};

int vOpen(sqlite3_vfs *, const char *name, sqlite3_file *file, int flags, int *outf) {
    VFile *v = V(file);
    v->base.pMethods = nullptr;
    std::string p;
    if (name)
        p = path_of(name);
    else {
        Quiet q;
        static int tmp = 0;
        p = "/sim/tmp/etilqs_" + std::to_string(tmp++);
    }
    const Fault *ft = io_op("open", "db open", p);
    if (is_err(ft)) {
        fault_fired("dbopen-", ft->action.c_str());
        return SQLITE_CANTOPEN;
    }
    Quiet q;
    InodeP n = fs_lookup(p);
    if (!n) {
        if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
        int e = fs_create(p, n);
        if (e) return e == ENOSPC ? SQLITE_FULL : SQLITE_CANTOPEN;
    } else if (n->dir || (flags & SQLITE_OPEN_EXCLUSIVE && flags & SQLITE_OPEN_CREATE && flags & SQLITE_OPEN_DELETEONCLOSE))
        return SQLITE_CANTOPEN;
    v->base.pMethods = &methods;
    v->n = new InodeP(n);
    v->path = new std::string(p);
    v->pid = self_pid();
    v->lock = 0;
    v->del = flags & SQLITE_OPEN_DELETEONCLOSE;
    v->main_db = flags & SQLITE_OPEN_MAIN_DB;
    open_set().insert(v);
    if (outf) *outf = flags;
    return SQLITE_OK;
}
int vDelete(sqlite3_vfs *, const char *name, int) {
    std::string p = path_of(name);
    const Fault *ft = io_op("meta", "db delete", p);
    if (is_err(ft)) {
        fault_fired("dbdelete-", ft->action.c_str());
        return SQLITE_IOERR_DELETE;
    }
    Quiet q;
    int e = fs_unlink(p);
    return e == 0 ? SQLITE_OK : e == ENOENT ? SQLITE_IOERR_DELETE_NOENT : SQLITE_IOERR_DELETE;
}
int vAccess(sqlite3_vfs *, const char *name, int flags, int *out) {
    Quiet q;
    InodeP n = fs_lookup(sim_abspath(name));
    *out = n && (flags != SQLITE_ACCESS_EXISTS || n->dir || n->data.size() > 0 || true);
    if (n && flags == SQLITE_ACCESS_EXISTS && !n->dir && n->data.empty()) *out = 0; // as the unix layer does
    return SQLITE_OK;
}
int vFull(sqlite3_vfs *, const char *name, int n, char *out) {
    std::string p = path_of(name);
    if (int(p.size()) >= n) return SQLITE_CANTOPEN;
    strcpy(out, p.c_str());
    return SQLITE_OK;
}
int vRandom(sqlite3_vfs *, int n, char *out) {
    static Rng r(mix(plan.seed, 0x591));
    for (int i = 0; i < n; i++) out[i] = char(r.next() >> 9);
    return n;
}
int vSleep(sqlite3_vfs *, int us) {
    sleep_us(us);
    return us;
}
int vTime(sqlite3_vfs *, double *t) {
    *t = 2440587.5 + (1600000000.0 + now_us() / 1e6) / 86400.0;
    return SQLITE_OK;
}
int vTime64(sqlite3_vfs *, sqlite3_int64 *t) {
    *t = sqlite3_int64(2440587.5 * 86400000) + 1600000000000ll + now_us() / 1000;
    return SQLITE_OK;
}
int vErr(sqlite3_vfs *, int, char *) { return 0; }
sqlite3_vfs vfs = {2, sizeof(VFile), 1024, nullptr, "simvfs", nullptr, vOpen, vDelete, vAccess, vFull, nullptr, nullptr, nullptr, nullptr,
                   vRandom, vSleep, vTime, vErr, vTime64};
} // namespace
namespace sim {
void simvfs_start() {
    Quiet q;
    sqlite3_vfs_register(&vfs, 1);
}
void simvfs_drop(int pid) {
    Quiet q;
    for (auto it = open_set().begin(); it != open_set().end();) {
        VFile *v = *it;
        if (v->pid == pid) {
            v->lock = 0;
            (*v->n)->lk.erase(v);
            (*v->n)->shm_hold.erase(v);
            if ((*v->n)->shm_hold.empty()) (*v->n)->shm.clear();
            it = open_set().erase(it);
        } else
            ++it;
    }
}
int simvfs_open_connections(int pid) {
    int c = 0;
    for (auto *v : open_set()) c += v->pid == pid && v->main_db;
    return c;
}
} // namespace sim
