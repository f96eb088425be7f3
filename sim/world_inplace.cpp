// Simulated device for in-place patches: C03, C04, C05, C06 and the in-place
// half of C07, C08, C10.
#include "inpdev.h"
#include "seqdev.h"

static const int POWER_LOST = INT32_MIN;

InpDev::InpDev(Sim *s, const InpScenario *c) : sim(s), sc(c) {}

void fill_device(InpDev &d, u64 seed)
{
    d.mem.resize((size_t)d.sc->device_size);
    for (size_t i = 0; i < d.mem.size(); i++) d.mem[i] = pbyte(seed ^ 0xdead, i);
    std::copy(d.sc->from.begin(), d.sc->from.end(), d.mem.begin());
    d.erased.assign(d.mem.size(), 0);
    d.step = 0; d.done = false;
    if (d.valid) d.sim->limit += 8 * (d.sc->patch.size() + d.mem.size());
}

// returns 0 go on, -1 dead, -2 power is cut inside this operation, else fault code
static int step_op(InpDev *d, const char *kind, i64 a, i64 b, u64 ns)
{
    Sim &s = *d->sim;
    if (d->on_yield) d->on_yield(d);
    if (d->after_error_watch) { s.fail("callback-after-error", "%s called after a callback had failed", kind); return -1; }
    if (d->off || s.failed) return -1;
    if (!s.ev(kind, a, b, 0, ns)) return -1;
    i64 n = d->ncalls++;
    if (b > 0 && kind[1] != 's') s.bytes += (u64)b;
    if (s.work_limit && s.events + s.bytes / 32 > s.work_limit) { d->failed_once = true; d->fail_kind = kind; d->fail_code = -6; CNT(s, "device:gives-up-on-endless-work"); return -6; }
    if (d->cut_at >= 0 && n >= d->cut_at) {
        d->off = true; s.note("POWER LOST in %s", kind);
        switch (kind[1]) {
        case 'r': CNT(s, "fault:power-cut-at-read"); break;
        case 'w': CNT(s, "fault:power-cut-in-write"); break;
        case 'e': CNT(s, "fault:power-cut-in-erase"); break;
        case 's': CNT(s, "fault:power-cut-in-step-store"); break;
        case 'g': CNT(s, "fault:power-cut-at-step-load"); break;
        default: CNT(s, "fault:power-cut-at-patch-read"); break;
        }
        return -2;
    }
    if (d->fail_at >= 0 && n == d->fail_at) {
        d->failed_once = true; d->fail_kind = kind; s.note("%s fails with %d", kind, d->fail_code);
        switch (kind[1]) {
        case 'r': CNT(s, "fault:mem_read"); break;
        case 'w': CNT(s, "fault:mem_write"); break;
        case 'e': CNT(s, "fault:mem_erase"); break;
        case 's': CNT(s, "fault:step_set"); break;
        case 'g': CNT(s, "fault:step_get"); break;
        default: CNT(s, "fault:patch_read"); break;
        }
        return d->fail_code;
    }
    return 0;
}

static bool in_range(InpDev *d, const char *what, uintptr_t a, size_t n)
{
    if (d->hdr_memory >= 0 && (a > (size_t)d->hdr_memory || n > (size_t)d->hdr_memory - a)) {
        d->sim->fail("memory-out-of-bounds", "%s of %zu bytes at %zu, memory size in the patch header is %lld", what, n, (size_t)a, (long long)d->hdr_memory);
        return false;
    }
    size_t lim = d->valid ? (size_t)d->sc->memory_size : d->mem.size();
    if (a > lim || n > lim - a) {
        if (d->valid) d->sim->fail("memory-out-of-bounds", "%s of %zu bytes at %zu, memory size %zu", what, n, (size_t)a, lim);
        return false;
    }
    return true;
}

int id_read(void *arg, void *dst, uintptr_t src, size_t n)
{
    InpDev *d = (InpDev *)arg;
    int rc = step_op(d, "mread", (i64)src, (i64)n, 300 + n * 5);
    if (rc) return rc == -2 ? -1 : rc;
    if (!in_range(d, "read", src, n)) return -1;
    memcpy(dst, d->mem.data() + src, n);
    return 0;
}

int id_write(void *arg, uintptr_t dst, void *src, size_t n)
{
    InpDev *d = (InpDev *)arg; Sim &s = *d->sim;
    int rc = step_op(d, "mwrite", (i64)dst, (i64)n, 5000 + n * 100);
    if (rc && rc != -2) return rc;
    if (rc == 0 || !d->sim->failed) {
        if (!in_range(d, "write", dst, n)) return -1;
    }
    if (rc == 0) s.mixbytes(src, n);
    const u8 *b = (const u8 *)src;
    size_t k = n;
    if (rc == -2) k = n ? (size_t)d->torn % (n + 1) : 0;
    for (size_t i = 0; i < k; i++) {
        size_t a = dst + i;
        if (d->flash) {
            if (!d->erased[a]) { s.fail("write-without-erase", "byte %zu is written but was not erased since it was last written", a); return -1; }
            d->mem[a] &= b[i];
        } else d->mem[a] = b[i];
        d->erased[a] = 0;
    }
    if (rc == -2) {
        if (k < n && (d->torn >> 8) & 1) { d->mem[dst + k] = (u8)(d->torn >> 9); d->erased[dst + k] = 0; }
        return -1;
    }
    d->written += n; d->total_written += n; d->mutations++;
    return 0;
}

int id_erase(void *arg, uintptr_t a, size_t n)
{
    InpDev *d = (InpDev *)arg;
    int rc = step_op(d, "merase", (i64)a, (i64)n, 20000000);
    if (rc && rc != -2) return rc;
    if (!in_range(d, "erase", a, n)) return -1;
    size_t lo = a, hi = a + n;
    if (d->erase_block > 1) { size_t eb = (size_t)d->erase_block; lo = lo / eb * eb; hi = (hi + eb - 1) / eb * eb; if (hi > d->mem.size()) hi = d->mem.size(); }
    u64 seed = rc == -2 ? (u64)d->torn * 31 + 7 : 0;
    for (size_t i = lo; i < hi; i++) {
        if (rc == -2) {
            // torn erase: part erased, part garbage, part untouched
            int z = (int)(mix64(seed ^ (i / 5)) % 3);
            if (d->torn % 4 == 0) z = 2;   // nothing happened yet
            if (z == 0) { d->mem[i] = 0xff; d->erased[i] = 0; }
            else if (z == 1) { d->mem[i] = pbyte(seed, i); d->erased[i] = 0; }
        } else { d->mem[i] = 0xff; d->erased[i] = 1; }
    }
    if (rc == -2) return -1;
    d->erased_bytes += n; d->mutations++;
    return 0;
}

static void stored_zero(InpDev *d)
{
    Sim &s = *d->sim;
    d->done = true;
    if (d->check_done) {
        const Bytes &t = d->sc->to;
        if (t.size() > d->mem.size() || memcmp(d->mem.data(), t.data(), t.size()) != 0)
            s.fail("completion-untrue", "step 0 stored but the memory does not hold the to-data");
    }
}

int id_step_set(void *arg, int step)
{
    InpDev *d = (InpDev *)arg; Sim &s = *d->sim;
    i64 nth = d->nsteps++;
    if (d->cut_step >= 0 && nth == d->cut_step && d->cut_step_when == 1) { d->cut_at = d->ncalls; d->torn = 0; }
    int rc = step_op(d, "sstep_set", step, d->step, 100000);
    if (rc && rc != -2) return rc;
    if (rc == -2) {
        if (d->torn & 1) { d->step = step; if (step == 0) stored_zero(d); } // stored, but nobody learns
        return -1;
    }
    if (d->written || d->erased_bytes || !d->hashed) {
        Sim t; t.mixbytes(d->mem.data(), d->mem.size());
        d->lasthash = t.h; d->hashed = true; s.bytes += d->mem.size();
    }
    u64 h = d->lasthash;
    d->marks.push_back({step, h, d->written, d->erased_bytes});
    d->written = d->erased_bytes = 0;
    d->step = step; d->mutations++;
    s.mix(h);
    if (step == 0) stored_zero(d);
    if (d->cut_step >= 0 && nth == d->cut_step && d->cut_step_when == 2) { d->off = true; s.note("POWER LOST right after step %d", step); CNT(s, "fault:power-cut-after-step-store"); return -1; }
    return 0;
}

int id_step_get(void *arg, int *step)
{
    InpDev *d = (InpDev *)arg;
    int rc = step_op(d, "pgstep_get", d->step, 0, 1000);
    if (rc) return rc == -2 ? -1 : rc;
    *step = d->step;
    return 0;
}

int id_patch_read(void *arg, u8 *buf, size_t n)
{
    InpDev *d = (InpDev *)arg;
    int rc = step_op(d, "ptch", (i64)d->patch_pos, (i64)n, 1000 + n * 100);
    if (rc) return rc == -2 ? -1 : rc;
    if (d->patch_pos + n > d->patch.size()) { CNT(*d->sim, "link:read-past-end"); return -7; }
    memcpy(buf, d->patch.data() + d->patch_pos, n);
    d->patch_pos += n;
    return 0;
}

InpObj::InpObj(const Api &a, u8 fill) : api(a) { p = operator new(a.inp_size); memset(p, fill, a.inp_size); }
InpObj::~InpObj() { operator delete(p); }

static size_t next_chunk(const std::vector<i64> &v, size_t &i, int &zeros, size_t left)
{
    if (v.empty()) return left;
    i64 n = v[i++ % v.size()];
    if (n <= 0) { if (++zeros > 3) { zeros = 0; return std::min<size_t>(left, 1); } return 0; }
    zeros = 0;
    return std::min<size_t>(left, (size_t)n);
}

int inp_session(const Api &api, InpDev &d, int mode, int steps, const std::vector<i64> &chunks, size_t declared, u8 fill)
{
    Sim &s = *d.sim;
    d.hashed = false;
    cb_stepset ss = steps == STEPS_BOTH || steps == STEPS_SET ? id_step_set : nullptr;
    cb_stepget sg = steps == STEPS_BOTH || steps == STEPS_GET ? id_step_get : nullptr;
    if (mode == 1) {
        s.ev("Acb", (i64)declared);
        int r = api.inp_callbacks(id_read, id_write, id_erase, ss, sg, id_patch_read, declared, &d);
        s.ev("Rcb", r);
        return d.off ? POWER_LOST : r;
    }
    InpObj o(api, fill);
    int r = api.inp_init(o.p, id_read, id_write, id_erase, ss, sg, declared, &d);
    if (r != 0) { s.fail("init-failed", "init returned %d", r); return r; }
    size_t fed = 0, ci = 0; int zeros = 0, res = 0;
    while (fed < d.patch.size() && !s.failed) {
        size_t n = next_chunk(chunks, ci, zeros, d.patch.size() - fed);
        Bytes tmp(d.patch.begin() + (long)fed, d.patch.begin() + (long)(fed + n));
        bool fb = d.failed_once;
        s.ev("Aproc", (i64)fed, (i64)n);
        res = api.inp_process(o.p, n ? tmp.data() : (const u8 *)"", n);
        s.ev("Rproc", res);
        if (d.off) { g_alloc.end(true); g_alloc.begin(fill); return POWER_LOST; }
        if (res > 0) s.fail("bad-return", "process returned %d (neither zero nor negative)", res);
        if (!fb && d.failed_once && res >= 0) s.fail("fault-swallowed", "callback %s failed with %d but process returned %d", d.fail_kind, d.fail_code, res);
        fed += n;
        if (res < 0) break;
    }
    if (res < 0) {
        if (d.failed_once) {
            d.after_error_watch = true;
            Bytes more = {0, 1, 2};
            int r2 = api.inp_process(o.p, more.data(), more.size());
            s.ev("Rproc2", r2);
            if (r2 >= 0) s.fail("error-not-sticky", "process returned %d after an earlier process returned %d", r2, res);
        }
        u64 mut = d.mutations;
        int f = api.inp_finalize(o.p);
        s.ev("Rfin", f);
        if (f >= 0) s.fail("error-not-sticky", "finalize returned %d after process returned %d", f, res);
        if (d.mutations != mut) s.fail("callback-after-error", "finalize changed the memory after an error");
        d.after_error_watch = false;
        return res;
    }
    bool fb = d.failed_once;
    int f = api.inp_finalize(o.p);
    s.ev("Rfin", f);
    if (d.off) { g_alloc.end(true); g_alloc.begin(fill); return POWER_LOST; }
    if (!fb && d.failed_once && f >= 0) s.fail("fault-swallowed", "callback %s failed with %d but finalize returned %d", d.fail_kind, d.fail_code, f);
    return f;
}

void inp_check_success(InpDev &d, int r)
{
    Sim &s = *d.sim;
    if (s.failed) return;
    if (r < 0) { s.fail("valid-patch-rejected", "valid in-place patch (compression %d) failed with %d", d.sc->comp, r); return; }
    if ((size_t)r != d.sc->to.size()) { s.fail("wrong-return", "returned %d for to-data of %zu bytes", r, d.sc->to.size()); return; }
    for (size_t i = 0; i < d.sc->to.size(); i++)
        if (d.mem[i] != d.sc->to[i]) { s.fail("wrong-image", "memory byte %zu is %02x, expected %02x", i, d.mem[i], d.sc->to[i]); return; }
}

static void gen_chunks2(Plan &p, Rng &r, const char *name)
{
    PlanList &c = p.add(name, 1, true);
    int style = (int)r.range(0, 5);
    if (style == 0) c.v = {1};
    else if (style == 1) c.v = {100000000};
    else { int n = (int)r.range(1, 20); for (int i = 0; i < n; i++) c.v.push_back(r.chance(8) ? 0 : r.chance(40) ? r.range(1, 4) : r.chance(70) ? r.size(200) : r.size(4000)); }
}

static const Api &plan_api(const Plan &p) { return api_variant(p.at("inp", 0)); }

static void probes(Sim &s, const InpScenario &sc)
{
    switch (sc.comp) { case 0: CNT(s, "comp:none"); break; case 1: CNT(s, "comp:lzma"); break; case 2: CNT(s, "comp:crle"); break; case 4: CNT(s, "comp:heatshrink"); break; }
    if (sc.to.empty()) CNT(s, "probe:empty-to");
    if (sc.from.empty()) CNT(s, "probe:empty-from");
    if ((i64)sc.to.size() == sc.memory_size) CNT(s, "probe:to-fills-memory");
    if ((i64)sc.from.size() > sc.memory_size - sc.shift_size) CNT(s, "probe:from-partly-shifted-out");
    if (sc.segment_size > 128) CNT(s, "probe:segment-above-buffer");
    if (sc.shift_steps > 1) CNT(s, "probe:several-shift-steps");
    if (sc.to_segments > 1) CNT(s, "probe:several-to-segments");
}

// ---------------------------------------------------------------- C03
Plan gen_C03(Rng &r, bool thorough)
{
    Plan p;
    gen_inp(p, r, api_variant(r.range(0, api_variant_count() - 1)), thorough);
    p.add("mode", 1, false).v = {r.chance(25) ? 1 : 0, r.range(0, 255), r.range(0, 3), r.range(0, 1 << 20)};
    gen_chunks2(p, r, "chunks");
    return p;
}

void exec_C03(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    probes(s, sc);
    InpDev d(&s, &sc);
    fill_device(d, (u64)p.at("mode", 3));
    d.patch = sc.patch;
    Bytes tail(d.mem.begin() + (long)sc.memory_size, d.mem.end());
    g_alloc.begin((u8)p.at("mode", 1));
    int r = inp_session(api, d, p.at("mode", 0) == 1, (int)(p.at("mode", 2) & 3), p.get("chunks"), sc.patch.size(), (u8)p.at("mode", 1));
    size_t leaks = g_alloc.end(true);
    inp_check_success(d, r);
    leak_check(s, leaks);
    if (!s.failed && !std::equal(tail.begin(), tail.end(), d.mem.begin() + (long)sc.memory_size)) s.fail("memory-out-of-bounds", "bytes beyond the memory size changed");
    s.nontrivial = sc.to.size() > 0;
}

// ---------------------------------------------------------------- C04
// "cuts" stride 2: [position permille-ish, torn]
Plan gen_C04(Rng &r, bool thorough)
{
    Plan p;
    gen_inp(p, r, api_variant(r.range(0, api_variant_count() - 1)), thorough);
    p.add("mode", 1, false).v = {r.chance(20) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20), r.chance(30) ? 1 : 0, r.range(0, 5)};
    gen_chunks2(p, r, "chunks");
    PlanList &c = p.add("cuts", 3, true);
    int n = (int)r.range(1, thorough ? 8 : 5);
    for (int i = 0; i < n; i++) c.v.insert(c.v.end(), {r.range(0, 3), (i64)(r.next() >> 34), r.range(0, 1 << 18)});
    return p;
}

void exec_C04(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    probes(s, sc);
    if (sc.to.empty()) return;
    InpDev d(&s, &sc);
    d.patch = sc.patch;
    u8 fill = (u8)p.at("mode", 1);
    int mode = p.at("mode", 0) == 1;
    // dry run: how many device operations does it take?
    fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin(fill);
    int r = inp_session(api, d, mode, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    if (s.failed) return;
    i64 total = d.ncalls;
    // the campaign
    fill_device(d, (u64)p.at("mode", 2));
    d.flash = p.at("mode", 3) == 1;
    const auto &cuts = p.get("cuts");
    std::vector<i64> chunks = p.get("chunks");
    int fired = 0, rounds = 0;
    for (size_t i = 0;; i += 3, rounds++) {
        bool last = i + 3 > cuts.size();
        d.boot();
        if (!last) {
            i64 pos = cuts[i + 1] < 0 ? -cuts[i + 1] : cuts[i + 1];
            // spread cuts over the work left, in a few different ways
            if (cuts[i] == 0) d.cut_at = pos % total;
            else if (cuts[i] == 1) d.cut_at = pos % std::max<i64>(1, total / 4);
            else if (cuts[i] == 2) { d.cut_at = total - 1 - pos % std::max<i64>(1, total / 4); if (d.cut_at < 0) d.cut_at = 0; }
            else { d.cut_step = pos % (sc.shift_steps + sc.to_segments); d.cut_step_when = 1 + (int)(cuts[i + 2] & 1); }
            d.torn = cuts[i + 2] < 0 ? 0 : cuts[i + 2];
        }
        g_alloc.begin((u8)(fill + rounds * 13));
        std::vector<i64> ch = chunks;
        if (p.at("mode", 4) > 2 && rounds % 2) ch = {p.at("mode", 4) == 3 ? 1 : 700};
        r = inp_session(api, d, mode, STEPS_BOTH, ch, sc.patch.size(), (u8)(fill + rounds * 29));
        size_t leaks = g_alloc.end(true);
        s.ev("boot", rounds, d.step, d.done, 100000000);
        if (s.failed) return;
        if (r != POWER_LOST) { leak_check(s, leaks); inp_check_success(d, r); break; }
        fired++;
        if (d.done) { CNT(s, "probe:cut-after-final-step"); inp_check_success(d, (int)sc.to.size()); break; }
        if (d.step > 0 && d.step <= sc.shift_steps) CNT(s, "probe:resume-in-shift");
        if (d.step > sc.shift_steps) CNT(s, "probe:resume-in-segments");
        if (last) { s.fail("harness", "power lost without a cut"); return; }
    }
    if (!s.failed && !d.done) s.fail("completion-not-reported", "apply succeeded but step 0 was never stored");
    s.nontrivial = fired > 0;
    if (fired > 1) CNT(s, "probe:several-power-cuts");
}

// ---------------------------------------------------------------- C05
Plan gen_C05(Rng &r, bool thorough)
{
    Plan p;
    gen_inp(p, r, api_variant(r.range(0, api_variant_count() - 1)), thorough);
    p.add("mode", 1, false).v = {r.chance(20) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20), r.range(0, 1000), r.range(1, 2), r.chance(30) ? r.range(1, 2000) : 0};
    gen_chunks2(p, r, "chunks");
    gen_chunks2(p, r, "chunks2");
    return p;
}

static void check_marks(Sim &s, const std::vector<StepMark> &m, int first)
{
    for (size_t i = 0; i < m.size() && !s.failed; i++) {
        bool last = i + 1 == m.size();
        int want = last ? 0 : first + (int)i;
        if (m[i].step != want) s.fail("step-sequence", "report %zu of %zu is step %d, expected %d", i + 1, m.size(), m[i].step, want);
    }
}

void exec_C05(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    probes(s, sc);
    if (sc.to.empty()) return;
    u8 fill = (u8)p.at("mode", 1);
    InpDev d(&s, &sc);
    d.patch = sc.patch;
    fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin(fill);
    int r = inp_session(api, d, p.at("mode", 0) == 1, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    if (s.failed) return;
    std::vector<StepMark> A = d.marks;
    if (A.empty()) { s.fail("step-sequence", "no step was reported"); return; }
    check_marks(s, A, 1);
    if (s.failed) return;
    if (d.written) { s.fail("step-sequence", "memory written after completion was reported"); return; }
    // other chunking: same reports, same memory at each
    d.boot(); fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin((u8)~fill);
    r = inp_session(api, d, 0, STEPS_BOTH, p.get("chunks2"), sc.patch.size(), (u8)~fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    if (s.failed) return;
    if (d.marks.size() != A.size()) { s.fail("step-chunking", "%zu reports with one chunking, %zu with another", A.size(), d.marks.size()); return; }
    for (size_t i = 0; i < A.size(); i++)
        if (d.marks[i].step != A[i].step || d.marks[i].memhash != A[i].memhash || d.marks[i].written != A[i].written || d.marks[i].erased != A[i].erased) {
            s.fail("step-chunking", "report %zu differs between two chunkings (step %d/%d)", i + 1, A[i].step, d.marks[i].step); return; }
    // without step_get the same is reported
    // cut right before/after one step store, then re-run
    i64 k = p.at("mode", 3); if (k < 0) k = -k;
    k %= (i64)A.size();
    d.boot(); fill_device(d, (u64)p.at("mode", 2));
    d.cut_step = k; d.cut_step_when = p.at("mode", 4) == 1 ? 1 : 2;
    g_alloc.begin(fill);
    r = inp_session(api, d, 0, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
    g_alloc.end(true);
    if (s.failed) return;
    if (r != POWER_LOST) { s.fail("harness", "cut at step store %lld did not fire", (long long)k); return; }
    if (d.done) { CNT(s, "probe:cut-after-final-step"); s.nontrivial = true; return; }
    int stored = d.step;
    if (stored != (d.cut_step_when == 1 ? (int)k : (int)k + 1)) { s.fail("step-sequence", "stored step %d after cut at report %lld", stored, (long long)k + 1); return; }
    d.boot();
    g_alloc.begin(fill);
    r = inp_session(api, d, p.at("mode", 0) == 1, STEPS_BOTH, p.get("chunks2"), sc.patch.size(), fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    if (s.failed) return;
    if (d.marks.size() != A.size() - (size_t)stored) { s.fail("step-resume", "re-run from step %d made %zu reports, expected %zu", stored, d.marks.size(), A.size() - (size_t)stored); return; }
    check_marks(s, d.marks, stored + 1);
    for (size_t i = 0; i < d.marks.size() && !s.failed; i++) {
        const StepMark &x = A[(size_t)stored + i], &y = d.marks[i];
        if (x.memhash != y.memhash) s.fail("step-resume", "memory at report of step %d differs after resuming from step %d", y.step, stored);
        else if (x.written != y.written || x.erased != y.erased)
            s.fail("step-resume", "re-run from step %d wrote %llu and erased %llu bytes before step %d, an uninterrupted run %llu and %llu", stored,
                   (unsigned long long)y.written, (unsigned long long)y.erased, y.step, (unsigned long long)x.written, (unsigned long long)x.erased);
    }
    s.nontrivial = true;
    if (stored) CNT(s, "probe:resumed-from-step");
}

// ---------------------------------------------------------------- C06
Plan gen_C06(Rng &r, bool thorough)
{
    Plan p = gen_C04(r, thorough);
    p.add("eb", 1, false).v = {r.range(0, 1000)};
    return p;
}

void exec_C06(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    probes(s, sc);
    if (sc.to.empty()) return;
    InpDev d(&s, &sc);
    d.patch = sc.patch; d.flash = true;
    std::vector<i64> divs;
    for (i64 k = 1; k <= sc.segment_size; k++) if (sc.segment_size % k == 0) divs.push_back(k);
    i64 e = p.at("eb", 0); if (e < 0) e = -e;
    d.erase_block = divs[(size_t)(e % (i64)divs.size())];
    u8 fill = (u8)p.at("mode", 1);
    int mode = p.at("mode", 0) == 1;
    fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin(fill);
    int r = inp_session(api, d, mode, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    if (s.failed) return;
    i64 total = d.ncalls;
    fill_device(d, (u64)p.at("mode", 2));
    const auto &cuts = p.get("cuts");
    for (size_t i = 0;; i += 3) {
        bool last = i + 3 > cuts.size();
        d.boot();
        if (!last) { i64 pos = cuts[i + 1] < 0 ? -cuts[i + 1] : cuts[i + 1]; d.cut_at = pos % total; d.torn = cuts[i + 2] < 0 ? 0 : cuts[i + 2]; }
        g_alloc.begin(fill);
        r = inp_session(api, d, mode, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
        g_alloc.end(true);
        if (s.failed) return;
        if (r != POWER_LOST) { inp_check_success(d, r); break; }
        if (d.done) { inp_check_success(d, (int)sc.to.size()); break; }
    }
    s.nontrivial = true;
    if (d.erase_block > 1) CNT(s, "probe:erase-block-above-one");
    if (sc.to.size() % (size_t)sc.segment_size) CNT(s, "probe:partial-last-segment");
}

// ---------------------------------------------------------------- C07 (in-place)
Plan gen_C07_inp(Rng &r, bool thorough)
{
    Plan p;
    gen_inp(p, r, api_variant(r.range(0, api_variant_count() - 1)), thorough);
    p.add("mode", 1, false).v = {r.chance(35) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20), r.chance(80) ? 0 : r.range(1, 3)};
    gen_chunks2(p, r, "chunks");
    p.add("fault", 1, false).v = {(i64)(r.next() >> 20), -r.pick({(i64)1, (i64)1, (i64)2, (i64)10, (i64)11, (i64)24, (i64)1000, (i64)0x7fffffff}), r.chance(40) ? 1 : 0};
    return p;
}

void exec_C07_inp(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u8 fill = (u8)p.at("mode", 1);
    int mode = p.at("mode", 0) == 1, steps = (int)(p.at("mode", 3) & 3);
    InpDev d(&s, &sc);
    d.patch = sc.patch;
    fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin(fill);
    int r = inp_session(api, d, mode, steps, p.get("chunks"), sc.patch.size(), fill);
    g_alloc.end(true);
    inp_check_success(d, r);
    i64 total = d.ncalls;
    if (s.failed || total == 0) return;
    fill_device(d, (u64)p.at("mode", 2));
    d.boot();
    i64 f = p.at("fault", 0); if (f < 0) f = -f;
    d.fail_at = f % total;
    d.fail_code = (int)std::max<i64>(INT32_MIN + 1, std::min<i64>(-1, p.at("fault", 1, -1)));
    i64 at = d.fail_at;
    g_alloc.begin(fill);
    r = inp_session(api, d, mode, steps, p.get("chunks"), sc.patch.size(), fill);
    size_t leaks = g_alloc.end(true);
    if (s.failed) return;
    if (!d.failed_once) { s.fail("harness", "fault did not fire"); return; }
    if (r >= 0) s.fail("fault-swallowed", "callback %s failed but the apply returned %d", d.fail_kind, r);
    // what had already arrived when a patch read failed may still be applied
    if (strcmp(d.fail_kind, "ptch") && d.ncalls != at + 1) s.fail("callback-after-error", "%lld callbacks after the failing one", (long long)(d.ncalls - at - 1));
    leak_check(s, leaks);
    if (s.failed) return;
    if (steps == STEPS_BOTH && !d.done) {
        // re-run from the stored step
        if (p.at("fault", 2) == 1) {    // a second fault during the re-run
            d.boot(); d.fail_at = (f >> 7) % total; d.fail_code = -1;
            g_alloc.begin(fill);
            (void)inp_session(api, d, mode, steps, p.get("chunks"), sc.patch.size(), fill);
            g_alloc.end(true);
            if (s.failed) return;
            if (d.failed_once) CNT(s, "probe:second-fault-in-re-run");
        }
        if (!d.done) {
            d.boot();
            g_alloc.begin(fill);
            r = inp_session(api, d, 0, steps, p.get("chunks"), sc.patch.size(), fill);
            g_alloc.end(true);
            inp_check_success(d, r);
            CNT(s, "probe:re-run-after-fault");
        }
    }
    s.nontrivial = true;
}

// ---------------------------------------------------------------- C08 (in-place)
Plan gen_C08_inp(Rng &r, bool thorough)
{
    Plan p;
    gen_inp(p, r, api_variant(r.range(0, api_variant_count() - 1)), thorough);
    p.add("mode", 1, false).v = {r.chance(35) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20), r.chance(80) ? 0 : r.range(1, 3)};
    gen_chunks2(p, r, "chunks");
    p.add("cut", 1, false).v = {r.range(0, 2), r.chance(50) ? r.range(0, 12) : (i64)(r.next() >> 40), r.range(0, 4), r.range(1, 3000), r.chance(15) ? r.range(1, 40) : 0};
    return p;
}

void exec_C08_inp(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u8 fill = (u8)p.at("mode", 1);
    int mode = p.at("mode", 0) == 1, steps = (int)(p.at("mode", 3) & 3);
    i64 size = (i64)sc.patch.size(), k = p.at("cut", 1);
    if (k < 0) k = -k;
    k %= size + 1;
    i64 len = p.at("cut", 0) == 0 ? size - k : k;
    InpDev d(&s, &sc);
    fill_device(d, (u64)p.at("mode", 2));
    d.patch.assign(sc.patch.begin(), sc.patch.begin() + len);
    bool over = false;
    if (len == size && p.at("cut", 4) > 0) { for (i64 i = 0; i < std::min<i64>(64, p.at("cut", 4)); i++) d.patch.push_back((u8)(i * 7)); over = true; CNT(s, "fault:trailing-bytes"); }
    i64 declared = len;
    switch (p.at("cut", 2)) {
    case 1: declared = size; break;
    case 2: declared = size + std::max<i64>(0, p.at("cut", 3)); break;
    case 3: declared = std::max<i64>(0, len - p.at("cut", 3) % (len + 1)); break;
    default: declared = (i64)d.patch.size(); break;
    }
    if (len < size) CNT(s, "fault:truncated-delivery");
    if (declared != (i64)d.patch.size()) CNT(s, "fault:misdeclared-size");
    g_alloc.begin(fill);
    int r = inp_session(api, d, mode, steps, p.get("chunks"), (size_t)declared, fill);
    size_t leaks = g_alloc.end(true);
    if (s.failed) return;
    if (r >= 0) {
        CNT(s, "outcome:success");
        if ((size_t)r != sc.to.size() || !std::equal(sc.to.begin(), sc.to.end(), d.mem.begin()))
            s.fail("truncation-accepted", "returned %d with a wrong image, %lld of %lld patch bytes delivered", r, (long long)len, (long long)size);
    } else CNT(s, "outcome:error");
    if (!s.failed && r < 0 && len == size && declared == size && !over) s.fail("valid-patch-rejected", "complete patch failed with %d", r);
    leak_check(s, leaks);
    if (!s.failed && r < 0 && !d.done && steps == STEPS_BOTH) {
        // the missing rest arrives later: a re-run from the start completes
        d.boot(); d.patch = sc.patch;
        g_alloc.begin(fill);
        r = inp_session(api, d, 0, steps, p.get("chunks"), sc.patch.size(), fill);
        g_alloc.end(true);
        inp_check_success(d, r);
        CNT(s, "probe:re-run-after-truncation");
    }
    s.nontrivial = len < size || declared != size || over;
}

// ---------------------------------------------------------------- C10 (in-place)
Plan gen_C10_inp(Rng &r, bool thorough)
{
    Plan p;
    const Api *api; int comp;
    do {
        api = &api_variant(r.range(0, api_variant_count() - 1));
        comp = r.chance(70) ? COMP_LZMA : COMP_HS;
    } while (!((comp == COMP_LZMA && api->has_lzma) || (comp == COMP_HS && api->hs_dynamic)));
    gen_inp(p, r, *api, thorough, comp);
    p.add("mode", 1, false).v = {r.chance(25) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20)};
    gen_chunks2(p, r, "chunks");
    p.add("alloc", 1, false).v = {(i64)(r.next() >> 30), r.pick({(i64)0, (i64)0, (i64)1, (i64)2, (i64)3}), r.range(1, 6), r.size(70000)};
    return p;
}

void exec_C10_inp(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u8 fill = (u8)p.at("mode", 1);
    int mode = p.at("mode", 0) == 1;
    InpDev d(&s, &sc);
    d.patch = sc.patch;
    fill_device(d, (u64)p.at("mode", 2));
    g_alloc.begin(fill);
    int r = inp_session(api, d, mode, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
    u64 allocs = g_alloc.count;
    leak_check(s, g_alloc.end(true));
    inp_check_success(d, r);
    if (s.failed) return;
    fill_device(d, (u64)p.at("mode", 2));
    for (int round = 0; round < 2 && !s.failed; round++) {
        d.boot();
        g_alloc.begin((u8)(fill + round));
        if (round == 0) {
            i64 n = p.at("alloc", 0); if (n < 0) n = -n;
            i64 kind = p.at("alloc", 1);
            if (kind <= 2) { g_alloc.fail_at = allocs ? n % (i64)allocs : 0; g_alloc.fail_mode = (int)std::max<i64>(0, kind); g_alloc.fail_every = std::max<i64>(1, p.at("alloc", 2)); }
            else g_alloc.max_size = (size_t)std::max<i64>(0, p.at("alloc", 3));
        }
        r = inp_session(api, d, mode, STEPS_BOTH, p.get("chunks"), sc.patch.size(), fill);
        u64 failed = g_alloc.failed;
        size_t leaks = g_alloc.end(true);
        if (failed) { CNTN(s, "fault:allocation", failed); s.nontrivial = true; }
        leak_check(s, leaks);
        if (s.failed) break;
        if (r >= 0 || !failed) { inp_check_success(d, r); break; }
        CNT(s, "outcome:error");
        if (d.done) { s.fail("completion-untrue", "completion stored although the apply failed"); break; }
    }
}
