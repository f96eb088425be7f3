// Simulated files behind fopen: the operating system's view of the disk.
#pragma once
#include "core.h"
#include <map>
#include <memory>

struct VFile { Bytes data; bool written = false; bool readonly = false; };
struct VFault { i64 op; int kind; i64 arg; };   // 0 error once, 1 error from then on for this file, 2 partial then error

struct Vfs;
struct VHandle { Vfs *fs; std::string path; i64 pos = 0; bool rd, wr, append; FILE *fp = nullptr; std::vector<char> buf; bool open = true;
    bool wrote = false; size_t undo_pos = 0, undo_size = 0; Bytes undo; };

struct Vfs {
    Sim *sim;
    std::map<std::string, VFile> files;
    std::vector<std::unique_ptr<VHandle>> handles;
    i64 nops = 0;
    std::vector<VFault> faults;
    std::string sticky;             // file whose operations keep failing
    i64 capacity = -1;              // of the disk, for growing files
    i64 kill_at = -1, torn = 0; bool killed = false;
    u64 shortseed = 0; u64 nread = 0; // short reads
    std::vector<i64> bufs;          // stdio buffer sizes by open order
    int fired = 0;
    bool lost = false;              // a failing close lost data already written
    explicit Vfs(Sim *s) : sim(s) {}
    i64 used() const { i64 n = 0; for (auto &f : files) n += (i64)f.second.data.size(); return n; }
    int open_count() const { int n = 0; for (auto &h : handles) n += h->open; return n; }
    void close_all();               // closes what was leaked, without effect
    // 0 go on, <0 fail, 1 partial
    int op(const char *kind, const std::string &path, i64 a, i64 b);
    i64 oparg = 0;
};
extern Vfs *g_vfs;
void vfs_install(Vfs *v);
