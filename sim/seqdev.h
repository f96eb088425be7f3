#pragma once
#include "core.h"
#include "patchgen.h"
#include "alloc.h"
#include <functional>

struct SeqDev {
    Sim *sim; const SeqScenario *sc;
    Bytes patch; size_t patch_pos = 0;
    i64 from_pos = 0;
    Bytes sink; size_t sink_cap = 64u << 20; bool sink_full = false, keep_sink = true;
    bool valid = false;           // patch is valid: from accesses must be in bounds
    bool check_expected = false;  // compare output as it is written
    bool check_offsets = false;
    i64 ncalls = 0;
    // faults
    i64 fail_at = -1; int fail_code = -1; bool failed_once = false; const char *fail_kind = "";
    i64 crash_at = -1, torn = 0; bool crashed = false; const char *crash_kind = "";
    bool after_error_watch = false, probe_after_error = false, watch_callbacks_api = false;
    bool state_fail = false, state_fail_fired = false;
    // state store
    Bytes slot_tmp, slot; size_t slot_rd = 0;
    std::function<void(SeqDev *)> on_yield;
    SeqDev(Sim *s, const SeqScenario *c) : sim(s), sc(c) {}
};

int sd_from_read(void *, u8 *, size_t);
int sd_from_seek(void *, int);
int sd_to_write(void *, const u8 *, size_t);
int sd_patch_read(void *, u8 *, size_t);
int sd_state_write(void *, const void *, size_t);
int sd_state_read(void *, void *, size_t);

// heap object of exactly the library's size, prefilled with a pattern
struct SeqObj { const Api &api; void *p; SeqObj(const Api &a, u8 fill); ~SeqObj(); };
struct SeqHooks { std::function<void(SeqHooks *, SeqObj &, size_t)> at_boundary; };

int seq_apply(const Api &api, SeqDev &d, int mode, const std::vector<i64> &chunks, size_t declared, u8 fill, SeqHooks *hooks = nullptr);
void seq_check_success(SeqDev &d, int r);
void leak_check(Sim &s, size_t n);
