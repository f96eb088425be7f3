// C13: several applies in one program, interleaved at callbacks and API calls
// by fibers under a seeded scheduler.
#include "inpdev.h"
#include "seqdev.h"
#include <ucontext.h>
#include <memory>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif

struct Fiber {
    ucontext_t ctx; std::vector<char> stack; std::function<void()> body; bool done = false, started = false;
    void *fake = nullptr;
};
static ucontext_t main_ctx; static Fiber *cur; static void *main_fake;
static const void *main_bottom; static size_t main_size;

static void fiber_yield()
{
    Fiber *f = cur;
    if (!f) return;
    cur = nullptr;
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(&f->fake, main_bottom, main_size);
#endif
    swapcontext(&f->ctx, &main_ctx);
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(f->fake, &main_bottom, &main_size);
#endif
}
static void trampoline()
{
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    Fiber *f = cur;
    f->body();
    f->done = true; cur = nullptr;
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
#endif
    swapcontext(&f->ctx, &main_ctx);
}
static void resume(Fiber &f)
{
    if (!f.started) {
        f.started = true;
        f.stack.assign(256 * 1024, 0);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack.data(); f.ctx.uc_stack.ss_size = f.stack.size(); f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, trampoline, 0);
    }
    cur = &f;
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(&main_fake, f.stack.data(), f.stack.size());
#endif
    swapcontext(&main_ctx, &f.ctx);
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
}

static const char *PRE[4] = {"a_", "b_", "c_", "d_"};

// "sess" stride 6: [kind, mode, fault permyriad (0 none), dump-restore?, fill, abandon-after]
Plan gen_C13(Rng &r, bool thorough)
{
    Plan p;
    int n = (int)r.range(2, 4);
    PlanList s; s.name = "sess"; s.stride = 6; s.droppable = true;
    int same_comp = r.chance(40) ? 1 : 0, comp = -1;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    if (same_comp) comp = pick_comp(r, api);
    for (int i = 0; i < n; i++) {
        int kind = r.chance(50);
        s.v.insert(s.v.end(), {kind, r.chance(25) ? 1 : 0, r.chance(25) ? r.range(1, 10000) : 0, r.chance(30) ? 1 : 0, r.range(0, 255), r.chance(10) ? r.range(1, 200) : 0});
        if (kind) gen_inp(p, r, api, false, comp, PRE[i]); else gen_seq(p, r, api, false, comp, 4000, PRE[i]);
        PlanList &c = p.add((std::string(PRE[i]) + "chunks").c_str(), 1, true);
        int m = (int)r.range(1, 6); for (int k = 0; k < m; k++) c.v.push_back(r.size(60));
    }
    p.lists.push_back(s);
    PlanList &sch = p.add("sched", 1, true);
    int m = (int)r.range(5, thorough ? 400 : 150);
    int burst = (int)r.range(1, 6);
    for (int i = 0; i < m; i++) { i64 w = r.range(0, 3); for (i64 k = r.range(1, burst); k > 0; k--) sch.v.push_back(w); }
    return p;
}

struct Session {
    int kind; i64 mode, fault, dump; u8 fill; i64 abandon;
    std::string chunks; const Api *api;
    SeqScenario ss; InpScenario is;
    bool present = true;
};

struct SessionRun { Sim sim; int r = 0; Bytes out; bool aborted = false; };

static void run_session(const Plan &p, Session &x, SessionRun &o, bool interleaved, u64 devseed, i64 fault_calls, i64 *calls_out)
{
    const auto &chunks = p.get(x.chunks.c_str());
    if (x.kind) {
        InpDev d(&o.sim, &x.is);
        fill_device(d, devseed);
        d.patch = x.is.patch;
        if (x.fault > 0 && fault_calls > 0) { d.fail_at = x.fault * fault_calls / 10001; d.fail_code = -1; }
        if (interleaved) d.on_yield = [](InpDev *) { fiber_yield(); };
        o.r = inp_session(*x.api, d, x.mode == 1, STEPS_BOTH, chunks, d.patch.size(), x.fill);
        o.out = d.mem;
        if (calls_out) *calls_out = d.ncalls;
        return;
    }
    auto dp = std::unique_ptr<SeqDev>(new SeqDev(&o.sim, &x.ss));
    SeqDev &d = *dp;
    d.patch = x.ss.patch; d.valid = true; d.check_expected = true;
    if (x.fault > 0 && fault_calls > 0) { d.fail_at = x.fault * fault_calls / 10001; d.fail_code = -1; }
    if (interleaved) d.on_yield = [](SeqDev *) { fiber_yield(); };
    bool can_dump = x.ss.comp == COMP_NONE || x.ss.comp == COMP_CRLE || (x.ss.comp == COMP_HS && !x.api->hs_dynamic);
    if (x.mode == 1 || !x.dump || !can_dump) {
        SeqHooks hooks; hooks.at_boundary = [&](SeqHooks *, SeqObj &, size_t) { if (interleaved) fiber_yield(); };
        o.r = seq_apply(*x.api, d, (int)x.mode, chunks, d.patch.size(), x.fill, &hooks);
    } else {
        // dump and restore into another object half way through
        const Api &api = *x.api;
        SeqObj a(api, x.fill), b(api, (u8)~x.fill);
        api.seq_init(a.p, sd_from_read, sd_from_seek, d.patch.size(), sd_to_write, &d);
        size_t half = d.patch.size() / 2;
        Bytes t1(d.patch.begin(), d.patch.begin() + (long)half);
        o.r = api.seq_process(a.p, t1.data(), t1.size());
        if (interleaved) fiber_yield();
        if (o.r == 0) {
            o.r = api.seq_dump(a.p, sd_state_write);
            if (interleaved) fiber_yield();
            d.slot = d.slot_tmp; d.from_pos = 0;
            api.seq_init(b.p, sd_from_read, sd_from_seek, 0, sd_to_write, &d);
            if (o.r == 0) o.r = api.seq_restore(b.p, sd_state_read);
            if (interleaved) fiber_yield();
            if (o.r == 0) {
                size_t po = api.seq_patch_offset(b.p);
                d.sink.resize(std::min(d.sink.size(), api.seq_to_offset(b.p)));
                Bytes t2(d.patch.begin() + (long)std::min(po, d.patch.size()), d.patch.end());
                o.r = api.seq_process(b.p, t2.data(), t2.size());
                if (interleaved) fiber_yield();
            }
            int f = api.seq_finalize(b.p);
            if (o.r == 0) o.r = f;
        } else (void)api.seq_finalize(a.p);
    }
    o.out = d.sink;
    if (calls_out) *calls_out = d.ncalls;
}

void exec_C13(const Plan &p, Sim &s)
{
    const auto &sess = p.get("sess");
    std::vector<Session> xs;
    for (size_t i = 0; i + 6 <= sess.size() && xs.size() < 4; i += 6) {
        Session x; int n = (int)xs.size();
        x.kind = sess[i] == 1; x.mode = sess[i + 1] == 1; x.fault = std::min<i64>(10000, std::max<i64>(0, sess[i + 2])); x.dump = sess[i + 3] == 1; x.fill = (u8)sess[i + 4]; x.abandon = sess[i + 5];
        std::string pre = PRE[n];
        x.api = &api_variant(p.at((pre + (x.kind ? "inp" : "seq")).c_str(), 0));
        if (x.kind) x.is = build_inp(p, *x.api, PRE[n]); else x.ss = build_seq(p, *x.api, PRE[n]);
        x.chunks = pre + "chunks";
        xs.push_back(x);
    }
    if (xs.empty()) return;
    std::vector<std::unique_ptr<SessionRun>> solo, inter;
    g_alloc.begin(0x77);
    std::vector<i64> calls(xs.size(), 0);
    for (size_t i = 0; i < xs.size(); i++) {
        if (xs[i].fault) { SessionRun dry; i64 f = xs[i].fault; xs[i].fault = 0; run_session(p, xs[i], dry, false, 5 + i, 0, &calls[i]); xs[i].fault = f; }
        solo.emplace_back(new SessionRun); solo[i]->sim.tracing = s.tracing;
        run_session(p, xs[i], *solo[i], false, 5 + i, calls[i], nullptr);
        s.events += solo[i]->sim.events; s.time_ns += solo[i]->sim.time_ns; s.mix(solo[i]->sim.h);
        // a fault-free solo run that is wrong is another property's matter, but cannot be a reference
        if (solo[i]->sim.failed) { s.fail(("solo-" + solo[i]->sim.vclass).c_str(), "%s", solo[i]->sim.vdetail.c_str()); g_alloc.end(true); return; }
        if (xs[i].fault) CNT(s, "fault:callback-in-one-session");
    }
    std::vector<std::unique_ptr<Fiber>> fs;
    for (size_t i = 0; i < xs.size(); i++) {
        inter.emplace_back(new SessionRun); inter[i]->sim.tracing = s.tracing;
        fs.emplace_back(new Fiber);
        SessionRun *o = inter[i].get(); Session *x = &xs[i]; i64 c = calls[i]; u64 seed = 5 + i;
        fs[i]->body = [&p, x, o, seed, c] { run_session(p, *x, *o, true, seed, c, nullptr); };
    }
    const auto &sch = p.get("sched");
    size_t k = 0, live = fs.size(); u64 switches = 0; size_t rr = 0; i64 prev = -1;
    while (live) {
        size_t pick;
        if (k < sch.size()) { i64 v = sch[k++]; pick = (size_t)(v < 0 ? -v : v) % fs.size(); }
        else pick = rr++ % fs.size();
        if (fs[pick]->done) { size_t j = pick; do j = (j + 1) % fs.size(); while (fs[j]->done); pick = j; }
        if ((i64)pick != prev) switches++;
        prev = (i64)pick;
        s.mix(pick);
        if (s.tracing && s.trace.size() < 3000) s.note("run session %zu", pick);
        resume(*fs[pick]);
        if (fs[pick]->done) live--;
        if (++s.events > s.limit) { s.fail("no-progress", "sessions do not finish"); break; }
    }
    size_t leaks = g_alloc.end(true);
    for (size_t i = 0; i < xs.size(); i++) {
        s.mix(inter[i]->sim.h);
        s.time_ns += inter[i]->sim.time_ns; s.events += inter[i]->sim.events;
        if (inter[i]->r != solo[i]->r || inter[i]->sim.failed)
            s.fail("interference", "session %zu returned %d interleaved, %d alone (%s)", i, inter[i]->r, solo[i]->r, inter[i]->sim.vdetail.c_str());
        else if (inter[i]->out != solo[i]->out) s.fail("interference", "output of session %zu differs when interleaved", i);
        else if (inter[i]->sim.h != solo[i]->sim.h) s.fail("interference", "callback history of session %zu differs when interleaved", i);
    }
    leak_check(s, leaks);
    CNTN(s, "schedule:switches", switches);
    s.nontrivial = switches > 3 && xs.size() > 1;
}
