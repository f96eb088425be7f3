// Simulated allocator in front of the real one (link-time --wrap).
#pragma once
#include "core.h"
struct AllocCtl {
    bool active = false;        // count, track and maybe fail
    u64 count = 0;              // allocations asked for since begin()
    i64 fail_at = -1;           // index of the allocation that fails
    int fail_mode = 0;          // 0 just that one, 1 that and all later, 2 every k-th
    i64 fail_every = 0;
    size_t max_size = 32u << 20; // single allocations above this fail
    u8 fill = 0xa5;
    u64 failed = 0;
    bool bad_free = false;
    void begin(u8 fill_byte);
    size_t live() const;
    size_t end(bool free_leaks); // returns number of live (leaked) blocks
};
extern AllocCtl g_alloc;
// Harness code that must not be tracked (e.g. the reference encoder) runs
// outside begin()/end().
struct AllocPause { bool was; AllocPause() : was(g_alloc.active) { g_alloc.active = false; } ~AllocPause() { g_alloc.active = was; } };
