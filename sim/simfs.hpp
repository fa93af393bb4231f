// In-memory file system of the simulation: everything below /sim (and relative paths) lives here.
#pragma once
#include "core.hpp"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {
struct ShmHold {
    int pid;
    uint16_t shared = 0, excl = 0;
};
struct Inode {
    bool dir = false;
    std::map<std::string, std::shared_ptr<Inode>> ents;
    std::string data;
    int64_t mtime = 0;
    uint64_t ino = 0;
    unsigned mode = 0644;
    int nlink = 1;
    // SQLite locks: connection -> level
    std::map<void *, int> lk;
    std::map<void *, int> lk_pid;
    // SQLite shared memory (write-ahead log index)
    std::vector<std::unique_ptr<char[]>> shm;
    std::map<void *, ShmHold> shm_hold;
    // fcntl/flock locks: pid -> 1 shared, 2 exclusive
    std::map<int, int> flk;
};
using InodeP = std::shared_ptr<Inode>;

std::string sim_abspath(const std::string &p);
bool is_sim_path(const char *p);
InodeP fs_lookup(const std::string &path);
// returns 0 or errno
int fs_create(const std::string &path, InodeP &out);
int fs_unlink(const std::string &path);

// accounting; returns how many of the n bytes may be written at off (disk full -> fewer)
size_t fs_room(Inode &n, uint64_t off, size_t len);
void fs_trunc(Inode &n, uint64_t len);
void fs_write_at(Inode &n, uint64_t off, const char *p, size_t len);

// operation of class cls: scheduling point, kill faults; other faults are returned
const Fault *io_op(const char *cls, const char *what, const std::string &path);

// for scenarios and oracles (no scheduling points, no faults)
bool fs_exists(const std::string &path);
bool fs_read(const std::string &path, std::string &out);
void fs_put(const std::string &path, const std::string &data);
void fs_mkdirs(const std::string &path);
std::vector<std::string> fs_list(const std::string &dir); // names
std::vector<std::string> fs_tree(const std::string &dir); // all files below, full paths
void fs_remove(const std::string &path);
void fs_set_capacity(int64_t bytes); // <0: unlimited
int64_t fs_used();
int fs_open_files(int pid);
void fs_set_fd_limit(int n);
// called when a file becomes visible/changes: 'w' write, 'c' create/truncate, 'r' rename, 'u' unlink
void fs_set_hook(std::function<void(char, const std::string &, Inode &)> cb);
void simfs_start();
void simvfs_start();
void simvfs_drop(int pid);
// connection objects of the current run, for leak and ownership checks
int simvfs_open_connections(int pid);
} // namespace sim
