// Simulated device for sequential patches: C01, C02, C07, C08, C10.
#include "seqdev.h"

// ---------------------------------------------------------------- device
static bool dead(SeqDev *d) { return d->crashed || d->sim->failed; }

int sd_step(SeqDev *d, const char *kind, i64 a, i64 b, u64 ns)
{
    Sim &s = *d->sim;
    if (d->after_error_watch) {
        s.fail("callback-after-error", "%s called after a callback had failed", kind);
        return -1;
    }
    if (dead(d)) return -1;
    if (!s.ev(kind, a, b, 0, ns)) return -1;
    i64 n = d->ncalls++;
    if (s.work_limit && s.events > s.work_limit) { d->failed_once = true; d->fail_kind = kind; d->fail_code = -6; CNT(s, "device:gives-up-on-endless-work"); return -6; }
    if (d->crash_at >= 0 && n >= d->crash_at) {
        d->crashed = true; d->crash_kind = kind;
        s.note("CRASH inside %s", kind); CNT(s, "fault:crash-inside-callback");
        return -2;      // the callback applies its torn effect itself
    }
    if (d->fail_at >= 0 && n == d->fail_at) {
        d->failed_once = true; d->fail_kind = kind;
        s.note("callback %s fails with %d", kind, d->fail_code);
        switch (kind[0]) {
        case 'r': CNT(s, "fault:from_read"); break;
        case 'k': CNT(s, "fault:from_seek"); break;
        case 'w': CNT(s, "fault:to_write"); break;
        case 'p': CNT(s, "fault:patch_read"); break;
        }
        return d->fail_code;
    }
    return 0;
}

int sd_from_read(void *arg, u8 *buf, size_t n)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (d->on_yield) d->on_yield(d);
    int rc = sd_step(d, "read", d->from_pos, (i64)n, 500 + n * 10);
    if (rc) return rc;
    if (n > 0x10000000 || d->from_pos < 0 || d->from_pos + (i64)n > d->sc->from.size) {
        if (d->valid) s.fail("from-out-of-bounds", "read %zu bytes of from-data at %lld, size %lld", n, (long long)d->from_pos, (long long)d->sc->from.size);
        return -1;
    }
    const From &f = d->sc->from;
    for (size_t i = 0; i < n; i++) buf[i] = f.at(d->from_pos + (i64)i);
    d->from_pos += (i64)n;
    return 0;
}

int sd_from_seek(void *arg, int off)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (d->on_yield) d->on_yield(d);
    int rc = sd_step(d, "kseek", d->from_pos, off, 300);
    if (rc) return rc;
    i64 np = d->from_pos + off;
    if (np < 0) {
        if (d->valid) s.fail("from-out-of-bounds", "seek from %lld by %d goes before the start of the from-data", (long long)d->from_pos, off);
        return -1;
    }
    if (d->valid && np > d->sc->from.size)
        s.fail("from-out-of-bounds", "seek to %lld beyond from size %lld", (long long)np, (long long)d->sc->from.size);
    d->from_pos = np;
    return 0;
}

int sd_to_write(void *arg, const u8 *buf, size_t n)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (d->on_yield) d->on_yield(d);
    int rc = sd_step(d, "write", (i64)d->sink.size(), (i64)n, 2000 + n * 20);
    if (rc == -2) { // torn write
        size_t k = n ? (size_t)d->torn % (n + 1) : 0;
        d->sink.insert(d->sink.end(), buf, buf + k);
        return -1;
    }
    if (rc) return rc;
    s.mixbytes(buf, n);
    if (d->sink.size() + n > d->sink_cap) { CNT(s, "device:to-space-exhausted"); d->sink_full = true; return -5; }
    if (d->check_expected) {
        const Bytes &e = d->sc->to;
        if (d->sink.size() + n > e.size()) {
            s.fail("output-overrun", "write of %zu bytes at %zu passes the end of the to-data (%zu)", n, d->sink.size(), e.size());
            return -1;
        }
        if (n && memcmp(buf, e.data() + d->sink.size(), n) != 0) {
            size_t k = 0; while (buf[k] == e[d->sink.size() + k]) k++;
            s.fail("wrong-output", "to-data byte %zu is %02x, expected %02x", d->sink.size() + k, buf[k], e[d->sink.size() + k]);
            return -1;
        }
    }
    if (d->keep_sink) d->sink.insert(d->sink.end(), buf, buf + n);
    return 0;
}

int sd_patch_read(void *arg, u8 *buf, size_t n)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (d->on_yield) d->on_yield(d);
    int rc = sd_step(d, "patch", (i64)d->patch_pos, (i64)n, 1000 + n * 100);
    if (rc) return rc;
    if (d->patch_pos + n > d->patch.size()) {
        // the transport has no more data
        CNT(s, "link:read-past-end");
        return -7;
    }
    memcpy(buf, d->patch.data() + d->patch_pos, n);
    d->patch_pos += n;
    return 0;
}

int sd_state_write(void *arg, const void *p, size_t n)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (!s.ev("swrite", (i64)n, 0, 0, 20000)) return -1;
    if (d->state_fail) { d->state_fail_fired = true; CNT(s, "fault:state_write"); return -3; }
    const u8 *b = (const u8 *)p;
    d->slot_tmp.insert(d->slot_tmp.end(), b, b + n);
    return 0;
}

int sd_state_read(void *arg, void *p, size_t n)
{
    SeqDev *d = (SeqDev *)arg; Sim &s = *d->sim;
    if (!s.ev("sread", (i64)n, 0, 0, 20000)) return -1;
    if (d->state_fail) { d->state_fail_fired = true; CNT(s, "fault:state_read"); return -3; }
    if (d->slot_rd + n > d->slot.size()) {
        s.fail("restore-reads-too-much", "restore asks for %zu bytes, dump wrote %zu", d->slot_rd + n, d->slot.size());
        return -1;
    }
    memcpy(p, d->slot.data() + d->slot_rd, n);
    d->slot_rd += n;
    return 0;
}

SeqObj::SeqObj(const Api &a, u8 fill) : api(a)
{
    p = operator new(a.seq_size);
    memset(p, fill, a.seq_size);
}
SeqObj::~SeqObj() { operator delete(p); }

// ---------------------------------------------------------------- C01
static void gen_chunks(Plan &p, Rng &r, size_t approx)
{
    PlanList &c = p.add("chunks", 1, true);
    int style = (int)r.range(0, 6);
    if (style == 0) { c.v = {1}; }                       // one byte at a time
    else if (style == 1) { c.v = {(i64)approx + 100000000}; } // all at once
    else if (style == 2) { int n = (int)r.range(1, 40); for (int i = 0; i < n; i++) c.v.push_back(r.range(1, 3)); c.v.push_back(r.range(1, 5000)); }
    else { int n = (int)r.range(1, 30); for (int i = 0; i < n; i++) c.v.push_back(r.chance(8) ? 0 : r.chance(40) ? r.range(1, 4) : r.chance(70) ? r.size(200) : r.size(4000)); }
}

// the chunk schedule is used cyclically
struct Chunker {
    const std::vector<i64> &v; size_t i = 0; int zeros = 0;
    explicit Chunker(const std::vector<i64> &v_) : v(v_) {}
    size_t next(size_t left) {
        if (v.empty()) return left;
        i64 n = v[i++ % v.size()];
        if (n <= 0) { if (++zeros > 3) { zeros = 0; return std::min<size_t>(left, 1); } return 0; }
        zeros = 0;
        return std::min<size_t>(left, (size_t)n);
    }
};

// run a clean apply; returns result; used as dry run too
int seq_apply(const Api &api, SeqDev &d, int mode, const std::vector<i64> &chunks, size_t declared, u8 fill, SeqHooks *hooks)
{
    Sim &s = *d.sim;
    if (mode == 1) {
        s.ev("Acb", (i64)declared);
        int r = api.seq_callbacks(sd_from_read, sd_from_seek, sd_patch_read, declared, sd_to_write, &d);
        s.ev("Rcb", r);
        return r;
    }
    SeqObj o(api, fill);
    int r = api.seq_init(o.p, sd_from_read, sd_from_seek, declared, sd_to_write, &d);
    if (r != 0) { s.fail("init-failed", "init returned %d", r); return r; }
    Chunker ch(chunks);
    size_t fed = 0;
    int res = 0;
    while (fed < d.patch.size() && !s.failed) {
        size_t n = ch.next(d.patch.size() - fed);
        // hand over an exactly sized heap copy: any overread is caught
        Bytes tmp(d.patch.begin() + (long)fed, d.patch.begin() + (long)(fed + n));
        bool failed_before = d.failed_once || d.crashed;
        s.ev("Aproc", (i64)fed, (i64)n);
        res = api.seq_process(o.p, n ? tmp.data() : (const u8 *)"", n);
        s.ev("Rproc", res);
        if (res > 0) s.fail("bad-return", "process returned %d (neither zero nor negative)", res);
        if (d.crashed) return -1;
        fed += n;
        if (!failed_before && d.failed_once && res >= 0)
            s.fail("fault-swallowed", "callback %s failed with %d but process returned %d", d.fail_kind, d.fail_code, res);
        if (res < 0) break;
        if (d.check_offsets) {
            size_t po = api.seq_patch_offset(o.p), to = api.seq_to_offset(o.p);
            if (po != fed) s.fail("patch-offset", "patch offset %zu after %zu bytes were processed", po, fed);
            if (to != d.sink.size()) s.fail("to-offset", "to offset %zu but %zu bytes were written", to, d.sink.size());
        }
        if (hooks && hooks->at_boundary) hooks->at_boundary(hooks, o, fed);
    }
    if (res < 0) {
        // sticky: more data or finalize must neither succeed nor act
        bool cb = d.failed_once || d.sink_full;
        if (cb) d.after_error_watch = true;
        if (d.probe_after_error) {
            const u8 more[3] = {0, 1, 2};
            Bytes m(more, more + 3);
            size_t before = d.sink.size(); i64 calls = d.ncalls;
            int r2 = api.seq_process(o.p, m.data(), m.size());
            s.ev("Rproc2", r2);
            if (r2 >= 0) s.fail("error-not-sticky", "process returned %d after an earlier process returned %d", r2, res);
            if (d.sink.size() != before || d.ncalls != calls) s.fail("callback-after-error", "process acted after an error");
        }
        i64 calls = d.ncalls;
        int f = api.seq_finalize(o.p);
        s.ev("Rfin", f);
        if (f >= 0) s.fail("error-not-sticky", "finalize returned %d after process returned %d", f, res);
        if (d.ncalls != calls) s.fail("callback-after-error", "finalize acted after an error");
        d.after_error_watch = false;
        return res;
    }
    bool failed_before = d.failed_once;
    int f = api.seq_finalize(o.p);
    s.ev("Rfin", f);
    if (!failed_before && d.failed_once && f >= 0)
        s.fail("fault-swallowed", "callback %s failed with %d but finalize returned %d", d.fail_kind, d.fail_code, f);
    return f;
}

void seq_check_success(SeqDev &d, int r)
{
    Sim &s = *d.sim;
    if (s.failed) return;
    if (r < 0) s.fail("valid-patch-rejected", "valid patch (compression %d, %zu bytes) failed with %d", d.sc->comp, d.patch.size(), r);
    else if ((size_t)r != d.sc->to.size()) s.fail("wrong-return", "returned %d for to-data of %zu bytes", r, d.sc->to.size());
    else if (d.sink != d.sc->to) s.fail("wrong-output", "wrote %zu of %zu bytes", d.sink.size(), d.sc->to.size());
}

void leak_check(Sim &s, size_t n)
{
    if (n) s.fail("memory-leak", "%zu allocations not returned", n);
}

static const Api &plan_api(const Plan &p, const char *l = "seq") { return api_variant(p.at(l, 0)); }

Plan gen_C01(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    gen_seq(p, r, api, thorough);
    PlanList &m = p.add("mode", 1, false);
    m.v = {r.chance(20) ? 1 : 0, r.range(0, 255)};
    gen_chunks(p, r, 500);
    return p;
}

void exec_C01(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    SeqScenario sc = build_seq(p, api);
    s.limit += 8 * (sc.patch.size() + sc.to.size());
    s.mix((u64)p.at("seq", 0)); s.mixbytes(sc.patch.data(), sc.patch.size());
    int mode = p.at("mode", 0) == 1;
    u8 fill = (u8)p.at("mode", 1);
    SeqDev d(&s, &sc);
    d.patch = sc.patch; d.valid = true; d.check_expected = true; d.check_offsets = true;
    g_alloc.begin(fill);
    int r = seq_apply(api, d, mode, p.get("chunks"), sc.patch.size(), fill);
    size_t leaks = g_alloc.end(true);
    seq_check_success(d, r);
    leak_check(s, leaks);
    s.nontrivial = sc.to.size() > 0 && sc.patch.size() > 4;
    switch (sc.comp) { case 0: CNT(s, "comp:none"); break; case 1: CNT(s, "comp:lzma"); break; case 2: CNT(s, "comp:crle"); break; case 4: CNT(s, "comp:heatshrink"); break; }
    if (mode) CNT(s, "api:callbacks"); else CNT(s, "api:chunked");
    if (sc.to.empty()) CNT(s, "probe:empty-to");
    if (sc.from.size > (1 << 20)) CNT(s, "probe:huge-from");
    if (sc.max_seek > (1 << 20)) CNT(s, "probe:4-byte-adjustment");
    if (sc.to.size() > 60000) CNT(s, "probe:large-to");
    if (p.get("chunks").size() == 1 && p.at("chunks", 0) == 1) CNT(s, "probe:byte-at-a-time");
}

// ---------------------------------------------------------------- C02
// "sched" stride 3: [op, a, b]
//  0 feed a bytes        1 dump (a=1: state write fails)
//  2 crash now (b: fate of unsynced output)   3 crash inside the a-th next callback
Plan gen_C02(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    int comp = r.chance(92) && api.has_none ? -2 : -1;
    if (comp == -2) { // compressions that support dump most of the time
        do comp = (int)r.pick({0, 2, 4, 4}); while ((comp == 0 && !api.has_none) || (comp == 2 && !api.has_crle) || (comp == 4 && !api.has_hs));
    }
    gen_seq(p, r, api, thorough, comp, 60000);
    PlanList &m = p.add("mode", 1, false);
    m.v = {r.range(0, 255), r.range(0, 255), r.chance(15) ? 1 : 0, r.range(0, 1 << 20), r.chance(20) ? 1 : 0};
    PlanList &s = p.add("sched", 3, true);
    int n = (int)r.range(2, 40);
    int grain = (int)r.range(0, 4);
    for (int i = 0; i < n; i++) {
        i64 f = grain == 0 ? r.range(1, 3) : grain == 1 ? r.size(30) : grain == 2 ? r.size(300) : grain == 3 ? r.range(1, 2000) : r.pick({(i64)1, (i64)2, (i64)200});
        s.v.insert(s.v.end(), {0, f, 0});
        if (r.chance(35)) s.v.insert(s.v.end(), {1, r.chance(8) ? 1 : 0, 0});
        if (r.chance(12)) s.v.insert(s.v.end(), {2, 0, r.range(0, 1000)});
        if (r.chance(10)) s.v.insert(s.v.end(), {3, r.size(20), r.range(0, 1000)});
    }
    return p;
}

void exec_C02(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    bool can_dump = sc.comp == COMP_NONE || sc.comp == COMP_CRLE || (sc.comp == COMP_HS && !api.hs_dynamic);
    SeqDev *d = new SeqDev(&s, &sc);
    d->patch = sc.patch; d->valid = true; d->check_expected = true;
    g_alloc.begin((u8)p.at("mode", 0));
    SeqObj *o = new SeqObj(api, (u8)p.at("mode", 0));
    int r = api.seq_init(o->p, sd_from_read, sd_from_seek, sc.patch.size(), sd_to_write, d);
    if (r) s.fail("init-failed", "init returned %d", r);
    size_t fed = 0;
    // durable state
    Bytes slot; bool have_slot = false; size_t slot_fed = 0, slot_to = 0; Bytes durable;
    int crashes = 0, dumps_ok = 0, restores = 0, restore_err = (int)p.at("mode", 2);
    const auto &sch = p.get("sched");
    Bytes unsup;                    // state written by a dump that the compression cannot support

    // a restore that cannot work reports so, and the object stays unusable
    auto bad_restore = [&](const Bytes &blob, bool seek) {
        SeqDev d2(&s, &sc);
        SeqObj o2(api, (u8)p.at("mode", 1));
        if (api.seq_init(o2.p, sd_from_read, sd_from_seek, sc.patch.size(), sd_to_write, &d2)) { s.fail("init-failed", "init failed"); return; }
        d2.slot = blob; d2.patch = sc.patch;
        if (seek) d2.fail_at = 0;
        int e = api.seq_restore(o2.p, sd_state_read);
        s.ev("Rrest", e);
        if (seek && !d2.failed_once) return; // nothing to seek in this state
        if (e >= 0) { s.fail(seek ? "restore-seek-swallowed" : "unsupported-restore", "restore returned %d", e); return; }
        if (s.failed) return;
        i64 calls = d2.ncalls;
        Bytes tmp(sc.patch.begin() + (long)std::min(sc.patch.size(), api.seq_patch_offset(o2.p)), sc.patch.end());
        e = api.seq_process(o2.p, tmp.empty() ? (const u8 *)"" : tmp.data(), tmp.size());
        s.ev("Rproc", e);
        if (e >= 0 && !tmp.empty()) s.fail("usable-after-failed-restore", "process returned %d after a failed restore", e);
        e = api.seq_finalize(o2.p);
        s.ev("Rfin", e);
        if (e >= 0) s.fail("usable-after-failed-restore", "finalize returned %d after a failed restore", e);
        if (d2.ncalls != calls) s.fail("callback-after-failed-restore", "%lld callbacks after a failed restore", (long long)(d2.ncalls - calls));
        leak_check(s, g_alloc.live());
        CNT(s, seek ? "probe:restore-seek-fails" : "probe:restore-unsupported");
    };

    auto restart = [&](i64 fate) {
        // RAM is gone: the old object and its device handle are destroyed
        crashes++;
        Bytes sink = d->sink;
        delete d; delete o;
        leak_check(s, 0); g_alloc.end(true); g_alloc.begin((u8)(p.at("mode", 0) + crashes * 37));
        d = new SeqDev(&s, &sc);
        d->patch = sc.patch; d->valid = true; d->check_expected = true;
        o = new SeqObj(api, (u8)(p.at("mode", 1) + crashes * 91));
        if (!unsup.empty()) bad_restore(unsup, false);
        if (have_slot && p.at("mode", 4) > 0) bad_restore(slot, true);
        if (s.failed) return;
        if (have_slot) {
            r = api.seq_init(o->p, sd_from_read, sd_from_seek, (size_t)p.at("mode", 3) + 1, sd_to_write, d);
            d->slot = slot;
            if (restore_err > 0) {
                restore_err--;
                d->state_fail = true;
                int e = api.seq_restore(o->p, sd_state_read);
                s.ev("Rrest", e);
                if (e >= 0) s.fail("state-read-swallowed", "state read failed but restore returned %d", e);
                d->state_fail = false;
                if (d->ncalls) s.fail("restore-acted", "callbacks ran although the state could not be read");
                delete o; o = new SeqObj(api, 0x11);
                r = api.seq_init(o->p, sd_from_read, sd_from_seek, 7, sd_to_write, d);
                d->slot_rd = 0;
            }
            r = api.seq_restore(o->p, sd_state_read);
            s.ev("Rrest", r);
            if (r != 0) { s.fail("restore-failed", "restore of a successfully dumped state returned %d", r); return; }
            restores++;
            size_t t = api.seq_to_offset(o->p), po = api.seq_patch_offset(o->p);
            if (t != slot_to) { s.fail("restore-to-offset", "restored to offset %zu, %zu bytes were written at the dump", t, slot_to); return; }
            if (po > slot_fed) { s.fail("restore-patch-offset", "restored patch offset %zu, only %zu bytes had been fed at the dump", po, slot_fed); return; }
            fed = po;
            // the to-file: what was synced at the dump, then maybe more, maybe torn
            d->sink.assign(durable.begin(), durable.end());
            if (fate % 3 == 1) { d->sink = sink; CNT(s, "crash:unsynced-output-kept"); }
            else if (fate % 3 == 2 && sink.size() > durable.size()) { d->sink = sink; d->sink.back() ^= 0x5a; CNT(s, "crash:unsynced-output-torn"); }
            else CNT(s, "crash:unsynced-output-lost");
            if (d->sink.size() < t) { s.fail("harness", "sink shorter than restored offset"); return; }
            d->sink.resize(t);
            CNT(s, "restore:ok");
            if (t > 0 && t < sc.to.size()) CNT(s, "probe:restore-mid-data");
            if (po < sc.header_size) CNT(s, "probe:restore-in-header");
            if (po == sc.patch.size()) CNT(s, "probe:restore-at-end");
        } else {
            r = api.seq_init(o->p, sd_from_read, sd_from_seek, sc.patch.size(), sd_to_write, d);
            fed = 0; CNT(s, "restart:from-scratch");
        }
        s.ev("boot", (i64)fed, (i64)d->sink.size(), have_slot, 50000000);
    };

    auto feed = [&](size_t n) {
        n = std::min(n, sc.patch.size() - fed);
        Bytes tmp(sc.patch.begin() + (long)fed, sc.patch.begin() + (long)(fed + n));
        s.ev("Aproc", (i64)fed, (i64)n);
        int x = api.seq_process(o->p, n ? tmp.data() : (const u8 *)"", n);
        s.ev("Rproc", x);
        if (d->crashed) return;
        if (x != 0) { s.fail("valid-patch-rejected", "process returned %d at patch offset %zu after %d restores", x, fed, restores); return; }
        fed += n;
        size_t to = api.seq_to_offset(o->p);
        if (to != d->sink.size()) s.fail("to-offset", "to offset %zu but %zu bytes were written", to, d->sink.size());
        if (api.seq_patch_offset(o->p) != fed) s.fail("patch-offset", "patch offset %zu after %zu bytes", api.seq_patch_offset(o->p), fed);
    };

    for (size_t i = 0; i + 3 <= sch.size() && !s.failed; i += 3) {
        i64 op = sch[i], a = sch[i + 1], b = sch[i + 2];
        if (a < 0) a = 0;
        if (b < 0) b = 0;
        if (op == 0) {
            feed((size_t)a);
        } else if (op == 1) {
            d->slot_tmp.clear();
            d->state_fail = a == 1; d->state_fail_fired = false;
            i64 calls = d->ncalls;
            size_t po = api.seq_patch_offset(o->p), to = api.seq_to_offset(o->p);
            int x = api.seq_dump(o->p, sd_state_write);
            d->state_fail = false;
            s.ev("Rdump", x);
            if (d->ncalls != calls) s.fail("dump-acted", "dump called data callbacks");
            if (api.seq_patch_offset(o->p) != po || api.seq_to_offset(o->p) != to) s.fail("dump-disturbed", "offsets changed by dump");
            if (x > 0) s.fail("bad-return", "dump returned %d", x);
            if (d->state_fail_fired && x >= 0) s.fail("state-write-swallowed", "state write failed but dump returned %d", x);
            if (x < 0 && !d->state_fail_fired && can_dump) s.fail("dump-failed", "dump returned %d for compression %d", x, sc.comp);
            if (x == 0) {
                slot = d->slot_tmp; have_slot = true; slot_fed = fed; slot_to = d->sink.size();
                durable = d->sink;      // caller syncs its output before committing the state
                dumps_ok++; CNT(s, "dump:ok");
                if (a != 1 && fed > 0 && fed < sc.patch.size()) CNT(s, "probe:dump-mid-patch");
            } else if (!d->state_fail_fired) { unsup = d->slot_tmp; CNT(s, "dump:unsupported"); }
        } else if (op == 2 && crashes < 8) {
            s.note("CRASH between calls"); CNT(s, "fault:crash-between-calls");
            restart(b);
        } else if (op == 3 && crashes < 8) {
            d->crash_at = d->ncalls + a; d->torn = b;
            // keep feeding until it fires or the patch is done
            while (!d->crashed && fed < sc.patch.size() && !s.failed) feed((size_t)(1 + b % 700));
            if (d->crashed) restart(b);
            d->crash_at = -1;
        }
    }
    // faults have stopped: finish
    if (!s.failed) feed(sc.patch.size());
    int fr = 0;
    if (!s.failed) { fr = api.seq_finalize(o->p); s.ev("Rfin", fr); seq_check_success(*d, fr); }
    else g_alloc.end(true);
    size_t leaks = g_alloc.active ? g_alloc.end(true) : 0;
    leak_check(s, leaks);
    s.nontrivial = restores > 0;
    delete d; delete o;
}

// ---------------------------------------------------------------- C07 (sequential)
Plan gen_C07_seq(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    gen_seq(p, r, api, thorough, -1, 60000);
    PlanList &m = p.add("mode", 1, false);
    m.v = {r.chance(35) ? 1 : 0, r.range(0, 255)};
    gen_chunks(p, r, 500);
    PlanList &f = p.add("fault", 1, false);
    f.v = {(i64)(r.next() >> 20), -r.pick({(i64)1, (i64)1, (i64)2, (i64)10, (i64)11, (i64)24, (i64)1000, (i64)0x7fffffff})};
    return p;
}

void exec_C07_seq(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    int mode = p.at("mode", 0) == 1;
    u8 fill = (u8)p.at("mode", 1);
    i64 calls;
    {   // dry run counts the callbacks so that the fault always lands
        SeqDev d(&s, &sc);
        d.patch = sc.patch; d.valid = true; d.check_expected = true;
        g_alloc.begin(fill);
        int r = seq_apply(api, d, mode, p.get("chunks"), sc.patch.size(), fill);
        g_alloc.end(true);
        seq_check_success(d, r);
        calls = d.ncalls;
    }
    if (s.failed || calls == 0) return;
    SeqDev d(&s, &sc);
    d.patch = sc.patch; d.valid = true; d.check_expected = true; d.probe_after_error = true;
    i64 f = p.at("fault", 0); if (f < 0) f = -f;
    d.fail_at = f % calls;
    d.fail_code = (int)std::min<i64>(-1, p.at("fault", 1, -1));
    d.watch_callbacks_api = true;
    g_alloc.begin(fill);
    int r = seq_apply(api, d, mode, p.get("chunks"), sc.patch.size(), fill);
    size_t leaks = g_alloc.end(true);
    if (!d.failed_once) { s.fail("harness", "fault did not fire"); return; }
    if (r >= 0) s.fail("fault-swallowed", "callback %s failed but the apply returned %d", d.fail_kind, r);
    // what had already arrived when a patch read failed may still be applied
    if (d.fail_kind[0] != 'p' && d.ncalls != d.fail_at + 1) s.fail("callback-after-error", "%lld callbacks after the failing one", (long long)(d.ncalls - d.fail_at - 1));
    leak_check(s, leaks);
    s.nontrivial = true;
}

// ---------------------------------------------------------------- C08 (sequential)
// "cut": [where, declared kind, declared delta, trailing]
Plan gen_C08_seq(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    gen_seq(p, r, api, thorough, -1, 30000);
    PlanList &m = p.add("mode", 1, false);
    m.v = {r.chance(35) ? 1 : 0, r.range(0, 255)};
    gen_chunks(p, r, 500);
    PlanList &c = p.add("cut", 1, false);
    // distance from the end (biased small) or from the start (biased small)
    c.v = {r.range(0, 2), r.chance(50) ? r.range(0, 12) : (i64)(r.next() >> 40), r.range(0, 4), r.range(1, 3000), r.chance(15) ? r.range(1, 40) : 0};
    return p;
}

void exec_C08_seq(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    int mode = p.at("mode", 0) == 1;
    u8 fill = (u8)p.at("mode", 1);
    i64 size = (i64)sc.patch.size(), k = p.at("cut", 1);
    if (k < 0) k = -k;
    k %= size + 1;
    i64 len = p.at("cut", 0) == 0 ? size - k : p.at("cut", 0) == 1 ? k : k;
    SeqDev d(&s, &sc);
    d.patch.assign(sc.patch.begin(), sc.patch.begin() + len);
    bool over = false;
    if (len == size && p.at("cut", 4) > 0) {
        for (i64 i = 0; i < std::min<i64>(64, p.at("cut", 4)); i++) d.patch.push_back((u8)(i * 7));
        over = true; CNT(s, "fault:trailing-bytes");
    }
    i64 declared = len;
    switch (p.at("cut", 2)) {
    case 1: declared = size; break;
    case 2: declared = size + std::max<i64>(0, p.at("cut", 3)); break;
    case 3: declared = std::max<i64>(0, len - p.at("cut", 3) % (len + 1)); break;
    default: declared = (i64)d.patch.size(); break;
    }
    if (len < size) CNT(s, "fault:truncated-delivery");
    if (declared != (i64)d.patch.size()) CNT(s, "fault:misdeclared-size");
    if (len < (i64)sc.header_size) CNT(s, "probe:truncated-in-header");
    if (len == size - 1) CNT(s, "probe:last-byte-missing");
    d.valid = !over; d.check_expected = true;
    g_alloc.begin(fill);
    int r = seq_apply(api, d, mode, p.get("chunks"), (size_t)declared, fill);
    size_t leaks = g_alloc.end(true);
    if (!s.failed && r >= 0) {
        CNT(s, "outcome:success");
        if ((size_t)r != sc.to.size() || d.sink != sc.to)
            s.fail("truncation-accepted", "returned %d with %zu of %zu bytes written, %lld of %lld patch bytes delivered", r, d.sink.size(), sc.to.size(), (long long)len, (long long)size);
    } else CNT(s, "outcome:error");
    if (!s.failed && r < 0 && len == size && declared == size && !over) s.fail("valid-patch-rejected", "complete patch failed with %d", r);
    leak_check(s, leaks);
    s.nontrivial = len < size || declared != size || over;
}

// ---------------------------------------------------------------- C10 (sequential)
Plan gen_C10_seq(Rng &r, bool thorough)
{
    Plan p;
    const Api *api; int comp;
    do {
        api = &api_variant(r.range(0, api_variant_count() - 1));
        comp = r.chance(70) ? COMP_LZMA : COMP_HS;
    } while (!((comp == COMP_LZMA && api->has_lzma) || (comp == COMP_HS && api->hs_dynamic)));
    gen_seq(p, r, *api, thorough, comp, 20000);
    PlanList &m = p.add("mode", 1, false);
    m.v = {r.chance(25) ? 1 : 0, r.range(0, 255)};
    gen_chunks(p, r, 500);
    PlanList &f = p.add("alloc", 1, false);
    f.v = {(i64)(r.next() >> 30), r.pick({(i64)0, (i64)0, (i64)1, (i64)2, (i64)3}), r.range(1, 6), r.size(70000), r.range(0, 3)};
    return p;
}

void exec_C10_seq(const Plan &p, Sim &s)
{
    const Api &api = plan_api(p);
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    int mode = p.at("mode", 0) == 1;
    u8 fill = (u8)p.at("mode", 1);
    u64 allocs;
    {
        SeqDev d(&s, &sc);
        d.patch = sc.patch; d.valid = true; d.check_expected = true;
        g_alloc.begin(fill);
        int r = seq_apply(api, d, mode, p.get("chunks"), sc.patch.size(), fill);
        allocs = g_alloc.count;
        leak_check(s, g_alloc.end(true));
        seq_check_success(d, r);
    }
    if (s.failed) return;
    // first attempt under memory pressure, then a fresh one without
    for (int round = 0; round < 2 && !s.failed; round++) {
        SeqDev d(&s, &sc);
        d.patch = sc.patch; d.valid = true; d.check_expected = true; d.probe_after_error = true;
        g_alloc.begin((u8)(fill + round));
        if (round == 0) {
            i64 n = p.at("alloc", 0); if (n < 0) n = -n;
            i64 kind = p.at("alloc", 1);
            if (kind <= 2) { g_alloc.fail_at = allocs ? n % (i64)allocs : 0; g_alloc.fail_mode = (int)std::max<i64>(0, kind); g_alloc.fail_every = std::max<i64>(1, p.at("alloc", 2)); }
            else g_alloc.max_size = (size_t)std::max<i64>(0, p.at("alloc", 3));
        }
        int r = seq_apply(api, d, mode, p.get("chunks"), sc.patch.size(), fill);
        u64 failed = g_alloc.failed;
        size_t leaks = g_alloc.end(true);
        if (failed) { CNTN(s, "fault:allocation", failed); s.nontrivial = true; }
        leak_check(s, leaks);
        if (s.failed) break;
        if (r >= 0 || !failed) seq_check_success(d, r);
        if (failed && r < 0) CNT(s, "outcome:error");
        if (failed && r >= 0) CNT(s, "outcome:success-without-that-memory");
    }
}
