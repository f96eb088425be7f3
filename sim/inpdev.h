#pragma once
#include "core.h"
#include "patchgen.h"
#include "alloc.h"
#include <functional>

struct StepMark { int step; u64 memhash; u64 written, erased; };

struct InpDev {
    Sim *sim; const InpScenario *sc;
    // durable
    Bytes mem; std::vector<u8> erased; int step = 0; bool done = false;
    // rules
    bool valid = true;          // bounds of the patch's memory size are enforced
    bool flash = false;         // NOR rules: write only erased bytes
    i64 erase_block = 1;
    i64 hdr_memory = -1;        // when the patch is damaged: size announced in its header
    bool check_done = true;     // step 0 must mean "complete"
    // session
    Bytes patch; size_t patch_pos = 0;
    i64 ncalls = 0;
    i64 cut_at = -1, torn = 0; bool off = false;
    i64 fail_at = -1; int fail_code = -1; bool failed_once = false; const char *fail_kind = "";
    bool after_error_watch = false;
    i64 cut_step = -1; int cut_step_when = 0; // power cut at the n-th step store, 1 before 2 after
    i64 nsteps = 0;
    std::vector<StepMark> marks; u64 written = 0, erased_bytes = 0, total_written = 0;
    u64 mutations = 0;
    u64 lasthash = 0; bool hashed = false;   // of the memory at the last step store
    std::function<void(InpDev *)> on_yield;
    InpDev(Sim *s, const InpScenario *c);
    void boot() { patch_pos = 0; ncalls = 0; cut_at = -1; off = false; fail_at = -1; failed_once = false; cut_step = -1; nsteps = 0; marks.clear(); written = erased_bytes = total_written = 0; mutations = 0; after_error_watch = false; hashed = false; }
};

int id_read(void *, void *, uintptr_t, size_t);
int id_write(void *, uintptr_t, void *, size_t);
int id_erase(void *, uintptr_t, size_t);
int id_step_set(void *, int);
int id_step_get(void *, int *);
int id_patch_read(void *, u8 *, size_t);

enum { STEPS_BOTH = 0, STEPS_NONE = 1, STEPS_SET = 2, STEPS_GET = 3 };
struct InpObj { const Api &api; void *p; InpObj(const Api &a, u8 fill); ~InpObj(); };
// one session; returns the result, or INT32_MIN when power was lost
int inp_session(const Api &api, InpDev &d, int mode, int steps, const std::vector<i64> &chunks, size_t declared, u8 fill);
void inp_check_success(InpDev &d, int r);
void fill_device(InpDev &d, u64 seed);
