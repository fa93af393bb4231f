#include "simfs.hpp"
#include "internal.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;
#define REAL(name) static auto real_##name = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace {
const int FD0 = 1000000;
struct Fd {
    InodeP n;
    std::string path;
    int flags = 0, pid = 0;
    uint64_t pos = 0;
};
struct SimDir {
    std::vector<std::string> names;
    InodeP n;
    size_t at = 0;
    int fd = -1;
    struct dirent ent;
};
struct FS {
    InodeP root;
    std::map<int, Fd> fds;
    std::map<FILE *, int> files;
    std::set<void *> dirs;
    int64_t cap = -1, used = 0;
    uint64_t next_ino = 100;
    int next_fd = FD0;
    int fd_limit = INT_MAX;
    uint64_t tmp_seq = 0;
    std::function<void(char, const std::string &, Inode &)> hook;
};
FS *fs_() {
    static FS *f = nullptr;
    if (!f) {
        f = new FS;
        f->root = std::make_shared<Inode>();
        f->root->dir = true;
    }
    return f;
}
#define F (*fs_())
void hook(char c, const std::string &p, Inode &n) {
    if (F.hook) F.hook(c, p, n);
}
std::vector<std::string> split(const std::string &p) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string s = p.substr(i, j - i);
        if (s == "..") {
            if (!v.empty()) v.pop_back();
        } else if (!s.empty() && s != ".")
            v.push_back(s);
        i = j + 1;
    }
    return v;
}
InodeP parent_of(const std::string &path, std::string &leaf) {
    auto v = split(path);
    if (v.empty()) return nullptr;
    leaf = v.back();
    InodeP n = F.root;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        if (!n->dir) return nullptr;
        auto it = n->ents.find(v[i]);
        if (it == n->ents.end()) return nullptr;
        n = it->second;
    }
    return n->dir ? n : nullptr;
}
void fill_stat(Inode &n, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_mode = n.dir ? (S_IFDIR | 0755) : (S_IFREG | n.mode);
    st->st_nlink = n.dir ? 2 : n.nlink;
    st->st_ino = n.ino;
    st->st_dev = 4242;
    st->st_size = n.dir ? 4096 : n.data.size();
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    int64_t us = 1600000000ll * 1000000 + n.mtime;
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = us / 1000000;
    st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = (us % 1000000) * 1000;
}
int act_errno(const Fault *f) {
    if (f->action == "enospc") return ENOSPC;
    if (f->action == "emfile") return EMFILE;
    if (f->action == "eacces") return EACCES;
    if (f->action == "eintr") return EINTR;
    return EIO;
}
bool is_err(const Fault *f) {
    return f && (f->action == "eio" || f->action == "enospc" || f->action == "emfile" || f->action == "eacces" || f->action == "eintr");
}
Fd *getfd(int fd) {
    auto it = F.fds.find(fd);
    return it == F.fds.end() ? nullptr : &it->second;
}
bool simfd(int fd) { return fd >= FD0; }
int fd_count(int pid) {
    int c = 0;
    for (auto &k : F.fds) c += k.second.pid == pid;
    return c;
}
int do_open(const std::string &path, int flags, unsigned mode) {
    const Fault *f = io_op("open", (flags & (O_WRONLY | O_RDWR)) ? "open for writing" : "open", path);
    Quiet q;
    if (is_err(f)) {
        fault_fired("open-", f->action.c_str());
        errno = act_errno(f);
        return -1;
    }
    if (fd_count(self_pid()) >= F.fd_limit) {
        fault_fired("fd-limit");
        errno = EMFILE;
        return -1;
    }
    InodeP n = fs_lookup(path);
    if (!n) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        int e = fs_create(path, n);
        if (e) {
            errno = e;
            return -1;
        }
        n->mode = mode & 0777;
        hook('c', path, *n);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        if (n->dir && (flags & (O_WRONLY | O_RDWR))) {
            errno = EISDIR;
            return -1;
        }
        if (!n->dir && (flags & O_DIRECTORY)) {
            errno = ENOTDIR;
            return -1;
        }
        if ((flags & O_TRUNC) && !n->dir) {
            F.used -= n->data.size();
            n->data.clear();
            n->mtime = now_us();
            hook('c', path, *n);
        }
    }
    int fd = F.next_fd++;
    Fd x;
    x.n = n;
    x.path = path;
    x.flags = flags;
    x.pid = self_pid();
    F.fds[fd] = x;
    return fd;
}
ssize_t do_write(Fd &d, const char *p, size_t n, uint64_t off, bool &moved) {
    moved = false;
    const Fault *f = io_op("write", "write", d.path);
    Quiet q;
    if ((d.flags & O_ACCMODE) == O_RDONLY) {
        errno = EBADF;
        return -1;
    }
    if (is_err(f)) {
        fault_fired("write-", f->action.c_str());
        errno = act_errno(f);
        return -1;
    }
    size_t want = n;
    if (f && (f->action == "torn" || f->action == "short")) want = n ? size_t(f->arg) % n : 0;
    size_t room = fs_room(*d.n, off, want);
    if (room == 0 && want > 0) {
        fault_fired("disk-full");
        errno = ENOSPC;
        return -1;
    }
    fs_write_at(*d.n, off, p, room);
    moved = true;
    hook('w', d.path, *d.n);
    if (f && f->action == "torn") {
        fault_fired("torn-write-kill");
        kill_process(self_pid());
    }
    if (f && f->action == "short") {
        fault_fired("short-write");
        if (room == 0) {
            errno = ENOSPC;
            return -1;
        }
    }
    return room;
}
ssize_t do_read(Fd &d, char *p, size_t n, uint64_t off) {
    const Fault *f = io_op("read", "read", d.path);
    Quiet q;
    if (d.n->dir) {
        errno = EISDIR;
        return -1;
    }
    if (is_err(f)) {
        fault_fired("read-", f->action.c_str());
        errno = act_errno(f);
        return -1;
    }
    if (off >= d.n->data.size()) return 0;
    n = std::min<uint64_t>(n, d.n->data.size() - off);
    if (f && f->action == "short" && n > 1) {
        n = 1 + size_t(f->arg) % (n - 1);
        fault_fired("short-read");
    }
    memcpy(p, d.n->data.data() + off, n);
    return n;
}
int do_close(int fd) {
    {
        auto *d = getfd(fd);
        if (!d) {
            errno = EBADF;
            return -1;
        }
        const Fault *f = io_op("close", "close", d->path);
        Quiet q;
        d = getfd(fd);
        if (!d) {
            errno = EBADF;
            return -1;
        }
        d->n->flk.erase(self_pid());
        wake_addr(d->n.get(), INT_MAX);
        F.fds.erase(fd);
        if (is_err(f)) {
            fault_fired("close-", f->action.c_str());
            errno = act_errno(f);
            return -1;
        }
    }
    return 0;
}
int path_err(const char *cls, const char *what, const std::string &p) {
    const Fault *f = io_op(cls, what, p);
    if (is_err(f)) {
        Quiet q;
        fault_fired((std::string(cls) + "-").c_str(), f->action.c_str());
        errno = act_errno(f);
        return -1;
    }
    return 0;
}
std::string at_path(int dfd, const char *p) {
    if (p[0] != '/' && simfd(dfd)) {
        if (auto *d = getfd(dfd)) return sim_abspath(d->path + "/" + p);
    }
    return sim_abspath(p);
}
bool at_sim(int dfd, const char *p) { return (p[0] != '/' && simfd(dfd)) || is_sim_path(p); }

// FILE on top of a simulated descriptor
ssize_t ck_read(void *c, char *b, size_t n) {
    Fd *d = getfd(int(intptr_t(c)));
    if (!d) {
        errno = EBADF;
        return -1;
    }
    ssize_t r = do_read(*d, b, n, d->pos);
    if (r > 0) d->pos += r;
    return r;
}
ssize_t ck_write(void *c, const char *b, size_t n) {
    Fd *d = getfd(int(intptr_t(c)));
    if (!d) {
        errno = EBADF;
        return 0;
    }
    if (d->flags & O_APPEND) d->pos = d->n->data.size();
    bool moved;
    // like glibc on a real descriptor: goes on after a short count until everything is written or an error
    size_t done = 0;
    while (done < n) {
        ssize_t r = do_write(*d, b + done, n - done, d->pos, moved);
        if (r < 0) break;
        d->pos += r;
        done += r;
    }
    return done;
}
int ck_seek(void *c, off64_t *o, int w) {
    Fd *d = getfd(int(intptr_t(c)));
    if (!d) return -1;
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? d->pos : d->n->data.size();
    if (base + *o < 0) {
        errno = EINVAL;
        return -1;
    }
    d->pos = base + *o;
    *o = d->pos;
    return 0;
}
int ck_close(void *c) {
    int fd = int(intptr_t(c));
    return do_close(fd);
}
FILE *file_on(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    if (f) {
        Quiet q;
        F.files[f] = fd;
    }
    return f;
}
int mode_flags(const char *m) {
    bool plus = strchr(m, '+');
    int x = strchr(m, 'x') ? O_EXCL : 0;
    switch (m[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x;
    default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
}
} // namespace

namespace sim {
std::string sim_abspath(const std::string &p) {
    std::string s = (!p.empty() && p[0] == '/') ? p : "/sim/cwd/" + p;
    std::string o;
    for (auto &x : split(s)) o += "/" + x;
    return o.empty() ? "/" : o;
}
bool is_sim_path(const char *p) {
    if (!p) return false;
    if (p[0] == '/') return strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0);
    return on_task() && p[0] != 0;
}
InodeP fs_lookup(const std::string &path) {
    InodeP n = F.root;
    for (auto &s : split(path)) {
        if (!n->dir) return nullptr;
        auto it = n->ents.find(s);
        if (it == n->ents.end()) return nullptr;
        n = it->second;
    }
    return n;
}
int fs_create(const std::string &path, InodeP &out) {
    std::string leaf;
    InodeP d = parent_of(path, leaf);
    if (!d) return ENOENT;
    if (F.cap >= 0 && F.used >= F.cap) {
        fault_fired("disk-full");
        return ENOSPC;
    }
    out = std::make_shared<Inode>();
    out->ino = F.next_ino++;
    out->mtime = now_us();
    d->ents[leaf] = out;
    return 0;
}
int fs_unlink(const std::string &path) {
    std::string leaf;
    InodeP d = parent_of(path, leaf);
    if (!d) return ENOENT;
    auto it = d->ents.find(leaf);
    if (it == d->ents.end()) return ENOENT;
    if (it->second->dir) return EISDIR;
    hook('u', path, *it->second);
    if (--it->second->nlink == 0) F.used -= it->second->data.size();
    d->ents.erase(it);
    return 0;
}
size_t fs_room(Inode &n, uint64_t off, size_t len) {
    if (F.cap < 0) return len;
    uint64_t have = n.data.size();
    if (off + len <= have) return len;
    int64_t freeb = F.cap - F.used;
    if (freeb < 0) freeb = 0;
    uint64_t maxend = have + freeb;
    if (off >= maxend) return 0;
    return size_t(std::min<uint64_t>(len, maxend - off));
}
void fs_write_at(Inode &n, uint64_t off, const char *p, size_t len) {
    if (off + len > n.data.size()) {
        F.used += off + len - n.data.size();
        n.data.resize(off + len, '\0');
    }
    memcpy(&n.data[off], p, len);
    n.mtime = now_us();
}
void fs_trunc(Inode &n, uint64_t len) {
    F.used += int64_t(len) - int64_t(n.data.size());
    n.data.resize(len, '\0');
    n.mtime = now_us();
}
const Fault *io_op(const char *cls, const char *what, const std::string &path) {
    if (!active()) return nullptr;
    point(K_IO);
    const Fault *f = fault_for(cls);
    Quiet q;
    probe((std::string("io:") + cls).c_str());
    log("%s %s", what, path.c_str());
    if (f && f->action == "kill") {
        fault_fired("kill");
        kill_process(self_pid());
    }
    return f;
}
bool fs_exists(const std::string &p) {
    Quiet q;
    return fs_lookup(p) != nullptr;
}
bool fs_read(const std::string &p, std::string &out) {
    Quiet q;
    auto n = fs_lookup(p);
    if (!n || n->dir) return false;
    out = n->data;
    return true;
}
void fs_mkdirs(const std::string &p) {
    Quiet q;
    InodeP n = F.root;
    for (auto &s : split(p)) {
        auto &e = n->ents[s];
        if (!e) {
            e = std::make_shared<Inode>();
            e->dir = true;
            e->ino = F.next_ino++;
        }
        n = e;
    }
}
void fs_put(const std::string &p, const std::string &data) {
    Quiet q;
    std::string leaf;
    InodeP d = parent_of(p, leaf);
    if (!d) harness_error("fs_put: no directory for %s", p.c_str());
    InodeP n = fs_lookup(p);
    if (!n) {
        n = std::make_shared<Inode>();
        n->ino = F.next_ino++;
        d->ents[leaf] = n;
    }
    F.used += int64_t(data.size()) - int64_t(n->data.size());
    n->data = data;
    n->mtime = now_us();
}
std::vector<std::string> fs_list(const std::string &p) {
    Quiet q;
    std::vector<std::string> v;
    auto n = fs_lookup(p);
    if (n && n->dir)
        for (auto &e : n->ents) v.push_back(e.first);
    return v;
}
static void walk(const std::string &p, Inode &n, std::vector<std::string> &v) {
    for (auto &e : n.ents) {
        if (e.second->dir)
            walk(p + "/" + e.first, *e.second, v);
        else
            v.push_back(p + "/" + e.first);
    }
}
std::vector<std::string> fs_tree(const std::string &p) {
    Quiet q;
    std::vector<std::string> v;
    auto n = fs_lookup(p);
    if (n && n->dir) walk(p, *n, v);
    return v;
}
static int64_t weight(Inode &n) {
    int64_t w = n.data.size();
    for (auto &e : n.ents) w += weight(*e.second);
    return w;
}
void fs_remove(const std::string &p) {
    Quiet q;
    std::string leaf;
    InodeP d = parent_of(p, leaf);
    if (!d) return;
    auto it = d->ents.find(leaf);
    if (it == d->ents.end()) return;
    F.used -= weight(*it->second);
    d->ents.erase(it);
}
void fs_set_capacity(int64_t b) { F.cap = b; }
int64_t fs_used() { return F.used; }
int fs_open_files(int pid) {
    Quiet q;
    return fd_count(pid);
}
void fs_set_fd_limit(int n) { F.fd_limit = n; }
void fs_set_hook(std::function<void(char, const std::string &, Inode &)> cb) { F.hook = std::move(cb); }
void simfs_start() {
    fs_mkdirs("/sim/tmp");
    fs_mkdirs("/sim/cwd");
    on_process_end([](int pid, bool) {
        Quiet q;
        for (auto it = F.fds.begin(); it != F.fds.end();) {
            if (it->second.pid == pid) {
                it->second.n->flk.erase(pid);
                wake_addr(it->second.n.get(), INT_MAX);
                it = F.fds.erase(it);
            } else
                ++it;
        }
        simvfs_drop(pid);
    });
    simvfs_start();
}
} // namespace sim

extern "C" {
int open(const char *p, int flags, ...) {
    unsigned mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, unsigned);
        va_end(a);
    }
    if (!is_sim_path(p)) return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
    return do_open(sim_abspath(p), flags, mode);
}
int open64(const char *p, int flags, ...) {
    unsigned mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, unsigned);
        va_end(a);
    }
    if (!is_sim_path(p)) return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
    return do_open(sim_abspath(p), flags, mode);
}
int openat(int dfd, const char *p, int flags, ...) {
    unsigned mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, unsigned);
        va_end(a);
    }
    if (!at_sim(dfd, p)) return syscall(SYS_openat, dfd, p, flags, mode);
    return do_open(at_path(dfd, p), flags, mode);
}
int openat64(int dfd, const char *p, int flags, ...) {
    unsigned mode = 0;
    if (flags & (O_CREAT | __O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, unsigned);
        va_end(a);
    }
    return openat(dfd, p, flags, mode);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen(const char *p, const char *mode) {
    REAL(fopen);
    if (!is_sim_path(p)) return real_fopen(p, mode);
    int fd = do_open(sim_abspath(p), mode_flags(mode), 0666);
    if (fd < 0) return nullptr;
    return file_on(fd, mode);
}
FILE *fopen64(const char *p, const char *mode) {
    REAL(fopen64);
    if (!is_sim_path(p)) return real_fopen64(p, mode);
    return fopen(p, mode);
}
FILE *fdopen(int fd, const char *mode) {
    REAL(fdopen);
    if (!simfd(fd)) return real_fdopen(fd, mode);
    return file_on(fd, mode);
}
int fileno(FILE *f) {
    REAL(fileno);
    {
        Quiet q;
        auto it = F.files.find(f);
        if (it != F.files.end()) return it->second;
    }
    return real_fileno(f);
}
int fclose(FILE *f) {
    REAL(fclose);
    {
        Quiet q;
        if (!F.files.empty()) F.files.erase(f);
    }
    return real_fclose(f);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!simfd(fd)) return syscall(SYS_read, fd, b, n);
    return ck_read((void *)(intptr_t)fd, (char *)b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!simfd(fd)) {
        if (on_task() && active() && (fd == 1)) {
            out_write((const char *)b, n);
            return n;
        }
        return syscall(SYS_write, fd, b, n);
    }
    Fd *d = getfd(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    if (d->flags & O_APPEND) d->pos = d->n->data.size();
    bool moved;
    ssize_t r = do_write(*d, (const char *)b, n, d->pos, moved);
    if (r > 0) d->pos += r;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    if (!simfd(fd)) return syscall(SYS_readv, fd, v, k);
    ssize_t t = 0;
    for (int i = 0; i < k; i++) {
        ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (!simfd(fd)) return syscall(SYS_writev, fd, v, k);
    std::string s;
    for (int i = 0; i < k; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return write(fd, s.data(), s.size());
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pread64, fd, b, n, o);
    Fd *d = getfd(fd);
    return d ? do_read(*d, (char *)b, n, o) : (errno = EBADF, -1);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    Fd *d = getfd(fd);
    bool m;
    return d ? do_write(*d, (const char *)b, n, o, m) : (errno = EBADF, -1);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) {
    if (!simfd(fd)) return syscall(SYS_lseek, fd, o, w);
    off64_t x = o;
    return ck_seek((void *)(intptr_t)fd, &x, w) < 0 ? -1 : x;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
    if (!simfd(fd)) return syscall(SYS_close, fd);
    return do_close(fd);
}
int fsync(int fd) {
    if (!simfd(fd)) return syscall(SYS_fsync, fd);
    Fd *d = getfd(fd);
    return d ? path_err("sync", "fsync", d->path) : (errno = EBADF, -1);
}
int fdatasync(int fd) { return simfd(fd) ? fsync(fd) : syscall(SYS_fdatasync, fd); }
static int do_stat(const std::string &p, struct stat *st) {
    if (path_err("stat", "stat", p)) return -1;
    Quiet q;
    InodeP n = fs_lookup(p);
    if (!n) {
        errno = ENOENT;
        return -1;
    }
    fill_stat(*n, st);
    return 0;
}
int fstatat(int dfd, const char *p, struct stat *st, int flags) {
    if (simfd(dfd) && (flags & AT_EMPTY_PATH) && !*p) {
        Fd *d = getfd(dfd);
        if (!d) return errno = EBADF, -1;
        fill_stat(*d->n, st);
        return 0;
    }
    if (!at_sim(dfd, p)) return syscall(SYS_newfstatat, dfd, p, st, flags);
    return do_stat(at_path(dfd, p), st);
}
int fstatat64(int dfd, const char *p, struct stat64 *st, int flags) { return fstatat(dfd, p, (struct stat *)st, flags); }
int stat(const char *__restrict p, struct stat *__restrict st) { return fstatat(AT_FDCWD, p, st, 0); }
int lstat(const char *__restrict p, struct stat *__restrict st) { return fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *__restrict p, struct stat64 *__restrict st) { return fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *__restrict p, struct stat64 *__restrict st) { return fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) {
    if (!simfd(fd)) return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
    Fd *d = getfd(fd);
    if (!d) return errno = EBADF, -1;
    fill_stat(*d->n, st);
    return 0;
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int access(const char *p, int m) {
    if (!is_sim_path(p)) return syscall(SYS_faccessat, AT_FDCWD, p, m);
    struct stat st;
    return do_stat(sim_abspath(p), &st);
}
int faccessat(int dfd, const char *p, int m, int fl) {
    if (!at_sim(dfd, p)) return syscall(SYS_faccessat2, dfd, p, m, fl);
    struct stat st;
    return do_stat(at_path(dfd, p), &st);
}
static int do_mkdir(const std::string &p) {
    if (path_err("meta", "mkdir", p)) return -1;
    Quiet q;
    std::string leaf;
    InodeP d = parent_of(p, leaf);
    if (!d) return errno = ENOENT, -1;
    if (d->ents.count(leaf)) return errno = EEXIST, -1;
    InodeP n = std::make_shared<Inode>();
    n->dir = true;
    n->ino = F.next_ino++;
    n->mtime = now_us();
    d->ents[leaf] = n;
    return 0;
}
int mkdir(const char *p, mode_t m) {
    if (!is_sim_path(p)) return syscall(SYS_mkdirat, AT_FDCWD, p, m);
    return do_mkdir(sim_abspath(p));
}
int mkdirat(int dfd, const char *p, mode_t m) {
    if (!at_sim(dfd, p)) return syscall(SYS_mkdirat, dfd, p, m);
    return do_mkdir(at_path(dfd, p));
}
static int do_rmdir(const std::string &p) {
    if (path_err("meta", "rmdir", p)) return -1;
    Quiet q;
    std::string leaf;
    InodeP d = parent_of(p, leaf);
    if (!d || !d->ents.count(leaf)) return errno = ENOENT, -1;
    if (!d->ents[leaf]->dir) return errno = ENOTDIR, -1;
    if (!d->ents[leaf]->ents.empty()) return errno = ENOTEMPTY, -1;
    d->ents.erase(leaf);
    return 0;
}
static int do_unlink(const std::string &p) {
    if (path_err("meta", "unlink", p)) return -1;
    Quiet q;
    int e = fs_unlink(p);
    return e ? (errno = e, -1) : 0;
}
int rmdir(const char *p) { return is_sim_path(p) ? do_rmdir(sim_abspath(p)) : syscall(SYS_rmdir, p); }
int unlink(const char *p) { return is_sim_path(p) ? do_unlink(sim_abspath(p)) : syscall(SYS_unlink, p); }
int unlinkat(int dfd, const char *p, int fl) {
    if (!at_sim(dfd, p)) return syscall(SYS_unlinkat, dfd, p, fl);
    return (fl & AT_REMOVEDIR) ? do_rmdir(at_path(dfd, p)) : do_unlink(at_path(dfd, p));
}
int remove(const char *p) {
    if (!is_sim_path(p)) {
        int r = syscall(SYS_unlink, p);
        return r < 0 && errno == EISDIR ? syscall(SYS_rmdir, p) : r;
    }
    InodeP n = fs_lookup(sim_abspath(p));
    return n && n->dir ? do_rmdir(sim_abspath(p)) : do_unlink(sim_abspath(p));
}
static int do_rename(const std::string &a, const std::string &b) {
    if (path_err("meta", "rename", a + " -> " + b)) return -1;
    Quiet q;
    std::string la, lb;
    InodeP da = parent_of(a, la), db = parent_of(b, lb);
    if (!da || !db || !da->ents.count(la)) return errno = ENOENT, -1;
    InodeP n = da->ents[la];
    if (db->ents.count(lb)) {
        InodeP o = db->ents[lb];
        if (o == n) return 0;
        if (o->dir != n->dir) return errno = o->dir ? EISDIR : ENOTDIR, -1;
        if (o->dir && !o->ents.empty()) return errno = ENOTEMPTY, -1;
        if (!o->dir && --o->nlink == 0) F.used -= o->data.size();
    }
    da->ents.erase(la);
    db->ents[lb] = n;
    hook('r', b, *n);
    return 0;
}
int rename(const char *a, const char *b) {
    if (!is_sim_path(a) && !is_sim_path(b)) return syscall(SYS_rename, a, b);
    return do_rename(sim_abspath(a), sim_abspath(b));
}
int renameat(int d1, const char *a, int d2, const char *b) {
    if (!at_sim(d1, a) && !at_sim(d2, b)) return syscall(SYS_renameat, d1, a, d2, b);
    return do_rename(at_path(d1, a), at_path(d2, b));
}
int link(const char *a, const char *b) {
    if (!is_sim_path(a)) return syscall(SYS_link, a, b);
    if (path_err("meta", "link", b)) return -1;
    Quiet q;
    InodeP n = fs_lookup(sim_abspath(a));
    std::string lb;
    InodeP d = parent_of(sim_abspath(b), lb);
    if (!n || !d) return errno = ENOENT, -1;
    if (d->ents.count(lb)) return errno = EEXIST, -1;
    d->ents[lb] = n;
    n->nlink++;
    hook('r', sim_abspath(b), *n);
    return 0;
}
int symlink(const char *a, const char *b) {
    if (!is_sim_path(b)) return syscall(SYS_symlink, a, b);
    return errno = EPERM, -1;
}
ssize_t readlink(const char *__restrict p, char *__restrict b, size_t n) {
    if (!is_sim_path(p)) return syscall(SYS_readlink, p, b, n);
    return errno = fs_exists(sim_abspath(p)) ? EINVAL : ENOENT, -1;
}
char *realpath(const char *__restrict p, char *__restrict r) {
    REAL(realpath);
    if (!is_sim_path(p)) return real_realpath(p, r);
    std::string s = sim_abspath(p);
    if (!fs_exists(s)) return errno = ENOENT, nullptr;
    if (!r) r = (char *)malloc(PATH_MAX);
    snprintf(r, PATH_MAX, "%s", s.c_str());
    return r;
}
static int do_trunc(Inode &n, off_t len, const std::string &path) {
    Quiet q;
    if (len > off_t(n.data.size()) && fs_room(n, n.data.size(), len - n.data.size()) < size_t(len - n.data.size())) return errno = ENOSPC, -1;
    F.used += len - int64_t(n.data.size());
    n.data.resize(len, '\0');
    n.mtime = now_us();
    hook('w', path, n);
    return 0;
}
int ftruncate(int fd, off_t len) {
    if (!simfd(fd)) return syscall(SYS_ftruncate, fd, len);
    Fd *d = getfd(fd);
    if (!d) return errno = EBADF, -1;
    if (path_err("write", "truncate", d->path)) return -1;
    return do_trunc(*d->n, len, d->path);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int truncate(const char *p, off_t len) {
    if (!is_sim_path(p)) return syscall(SYS_truncate, p, len);
    if (path_err("write", "truncate", sim_abspath(p))) return -1;
    InodeP n = fs_lookup(sim_abspath(p));
    return n ? do_trunc(*n, len, sim_abspath(p)) : (errno = ENOENT, -1);
}
int truncate64(const char *p, off64_t len) { return truncate(p, len); }
int posix_fallocate(int fd, off_t, off_t) { return simfd(fd) ? 0 : syscall(SYS_fallocate, fd, 0, 0, 0); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    if (!simfd(out) && !simfd(in)) return syscall(SYS_sendfile, out, in, off, n);
    return errno = EINVAL, -1; // callers fall back to read and write
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    if (!simfd(out) && !simfd(in)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    return errno = EINVAL, -1;
}
char *getcwd(char *b, size_t n) {
    if (on_task()) {
        if (!b) {
            b = (char *)malloc(n ? n : 64);
            if (!n) n = 64;
        }
        snprintf(b, n, "/sim/cwd");
        return b;
    }
    REAL(getcwd);
    return real_getcwd(b, n);
}
char *mkdtemp(char *t) {
    if (!is_sim_path(t)) {
        REAL(mkdtemp);
        return real_mkdtemp(t);
    }
    size_t k = strlen(t);
    for (;;) {
        char s[8];
        snprintf(s, 7, "%06llu", (unsigned long long)(F.tmp_seq++ % 1000000));
        memcpy(t + k - 6, s, 6);
        if (do_mkdir(sim_abspath(t)) == 0) return t;
        if (errno != EEXIST) return nullptr;
    }
}
int mkstemp(char *t) {
    if (!is_sim_path(t)) {
        REAL(mkstemp);
        return real_mkstemp(t);
    }
    size_t k = strlen(t);
    for (;;) {
        char s[8];
        snprintf(s, 7, "%06llu", (unsigned long long)(F.tmp_seq++ % 1000000));
        memcpy(t + k - 6, s, 6);
        int fd = open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
}
static void load_dir(SimDir *d) {
    d->names.push_back(".");
    d->names.push_back("..");
    for (auto &e : d->n->ents) d->names.push_back(e.first);
}
DIR *opendir(const char *p) {
    REAL(opendir);
    if (!is_sim_path(p)) return real_opendir(p);
    std::string s = sim_abspath(p);
    if (path_err("open", "opendir", s)) return nullptr;
    Quiet q;
    InodeP n = fs_lookup(s);
    if (!n || !n->dir) return errno = n ? ENOTDIR : ENOENT, nullptr;
    auto *d = new SimDir;
    d->n = n;
    load_dir(d);
    F.dirs.insert(d);
    return (DIR *)d;
}
DIR *fdopendir(int fd) {
    REAL(fdopendir);
    if (!simfd(fd)) return real_fdopendir(fd);
    Quiet q;
    Fd *x = getfd(fd);
    if (!x || !x->n->dir) return errno = ENOTDIR, nullptr;
    auto *d = new SimDir;
    d->n = x->n;
    d->fd = fd;
    load_dir(d);
    F.dirs.insert(d);
    return (DIR *)d;
}
static bool is_simdir(DIR *d) {
    Quiet q;
    return F.dirs.count(d);
}
struct dirent *readdir(DIR *x) {
    REAL(readdir);
    if (!is_simdir(x)) return real_readdir(x);
    auto *d = (SimDir *)x;
    while (d->at < d->names.size()) {
        const std::string &nm = d->names[d->at++];
        bool dot = nm == "." || nm == "..";
        auto it = d->n->ents.find(nm);
        if (!dot && it == d->n->ents.end()) continue;
        memset(&d->ent, 0, sizeof d->ent);
        snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", nm.c_str());
        d->ent.d_type = dot || it->second->dir ? DT_DIR : DT_REG;
        d->ent.d_ino = dot ? 1 : it->second->ino;
        return &d->ent;
    }
    return nullptr;
}
struct dirent64 *readdir64(DIR *x) { return (struct dirent64 *)readdir(x); }
int closedir(DIR *x) {
    REAL(closedir);
    if (!is_simdir(x)) return real_closedir(x);
    Quiet q;
    auto *d = (SimDir *)x;
    if (d->fd >= 0) F.fds.erase(d->fd);
    F.dirs.erase(d);
    delete d;
    return 0;
}
int dirfd(DIR *x) {
    REAL(dirfd);
    if (!is_simdir(x)) return real_dirfd(x);
    auto *d = (SimDir *)x;
    if (d->fd < 0) {
        Quiet q;
        d->fd = F.next_fd++;
        Fd f;
        f.n = d->n;
        f.pid = self_pid();
        F.fds[d->fd] = f;
    }
    return d->fd;
}
int statvfs(const char *__restrict p, struct statvfs *__restrict st) {
    REAL(statvfs);
    if (!is_sim_path(p)) return real_statvfs(p, st);
    memset(st, 0, sizeof *st);
    st->f_bsize = st->f_frsize = 1;
    st->f_blocks = F.cap < 0 ? 1ull << 40 : F.cap;
    st->f_bfree = st->f_bavail = F.cap < 0 ? 1ull << 40 : std::max<int64_t>(0, F.cap - F.used);
    return 0;
}
int chmod(const char *p, mode_t m) { return is_sim_path(p) ? 0 : syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmod(int fd, mode_t m) { return simfd(fd) ? 0 : syscall(SYS_fchmod, fd, m); }
int fchmodat(int dfd, const char *p, mode_t m, int) { return at_sim(dfd, p) ? 0 : syscall(SYS_fchmodat, dfd, p, m); }
int utimensat(int dfd, const char *p, const struct timespec ts[2], int fl) {
    if (p && at_sim(dfd, p)) return 0;
    return syscall(SYS_utimensat, dfd, p, ts, fl);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list a;
    va_start(a, req);
    void *p = va_arg(a, void *);
    va_end(a);
    if (!simfd(fd)) return syscall(SYS_ioctl, fd, req, p);
    Fd *d = getfd(fd);
    if (!d) return errno = EBADF, -1;
    if (req == FIONREAD) {
        *(int *)p = d->pos < d->n->data.size() ? int(d->n->data.size() - d->pos) : 0;
        return 0;
    }
    return errno = ENOTTY, -1;
}
static int lock_file(Fd *d, int type, bool wait) {
    point(K_IO);
    Quiet q;
    for (;;) {
        bool ok = true;
        int me = self_pid();
        for (auto &k : d->n->flk)
            if (k.first != me && (type == 2 || k.second == 2)) ok = false;
        if (ok) {
            if (type == 0) {
                d->n->flk.erase(me);
                wake_addr(d->n.get(), INT_MAX);
            } else
                d->n->flk[me] = type;
            return 0;
        }
        if (!wait) return errno = EAGAIN, -1;
        block_on(d->n.get(), "file lock");
    }
}
int fcntl(int fd, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    void *p = va_arg(a, void *);
    va_end(a);
    if (!simfd(fd)) return syscall(SYS_fcntl, fd, cmd, p);
    Fd *d = getfd(fd);
    if (!d) return errno = EBADF, -1;
    switch (cmd) {
    case F_GETFL: return d->flags & (O_ACCMODE | O_APPEND);
    case F_GETFD: case F_SETFD: case F_SETFL: return 0;
    case F_SETLK: case F_SETLKW: {
        auto *l = (struct flock *)p;
        return lock_file(d, l->l_type == F_UNLCK ? 0 : l->l_type == F_RDLCK ? 1 : 2, cmd == F_SETLKW);
    }
    }
    return errno = EINVAL, -1;
}
int fcntl64(int fd, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    void *p = va_arg(a, void *);
    va_end(a);
    return fcntl(fd, cmd, p);
}
int flock(int fd, int op) {
    if (!simfd(fd)) return syscall(SYS_flock, fd, op);
    Fd *d = getfd(fd);
    if (!d) return errno = EBADF, -1;
    return lock_file(d, (op & LOCK_UN) ? 0 : (op & LOCK_SH) ? 1 : 2, !(op & LOCK_NB));
}
int poll(struct pollfd *p, nfds_t n, int t) {
    bool simu = false;
    for (nfds_t i = 0; i < n; i++) simu |= simfd(p[i].fd);
    if (!simu) return syscall(SYS_poll, p, n, t);
    for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT);
    return int(n);
}
}
