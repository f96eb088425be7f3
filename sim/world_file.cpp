// File front ends of the C library and its command line program, on simulated
// files: C11, C12, C14 and the file part of C08 and C10.
#include "vfs.h"
#include "inpdev.h"
#include "seqdev.h"
#include <setjmp.h>
#include <unistd.h>

static const char FROM[] = "sim:from", PATCH[] = "sim:patch", TO[] = "sim:to", MEM[] = "sim:memory";

static const Api &file_api(Rng &r)
{
    for (;;) { const Api &a = api_variant(r.range(0, api_variant_count() - 1)); if (a.has_files) return a; }
}
static const Api &plan_file_api(const Plan &p, const char *l)
{
    const Api &a = api_variant(p.at(l, 0));
    return a.has_files ? a : api_by_name("S");
}
static i64 absl(i64 v) { return v == INT64_MIN ? 0 : v < 0 ? -v : v; }

static i64 pick_buf(Rng &r)
{
    return r.pick({(i64)0, (i64)1, (i64)7, (i64)16, (i64)64, (i64)128, (i64)512, (i64)4096, (i64)4096, (i64)4096, (i64)8192, (i64)65536});
}
// "vf": 0 fill 1-3 stdio buffer sizes 4 short-read seed 5 stale output size 6 memory file form 7 contents seed
static void gen_vf(Plan &p, Rng &r)
{
    p.add("vf", 1, false).v = {r.range(0, 255), pick_buf(r), pick_buf(r), pick_buf(r), r.chance(50) ? r.range(1, 1 << 30) : 0,
                               r.chance(50) ? r.size(5000) : -1, r.chance(25) ? 1 : 0, r.range(0, 1 << 20)};
}
static void vf_setup(const Plan &p, Vfs &v)
{
    v.bufs = {std::max<i64>(0, p.at("vf", 1)), std::max<i64>(0, p.at("vf", 2)), std::max<i64>(0, p.at("vf", 3))};
    v.shortseed = (u64)p.at("vf", 4);
}
static void put_patch(Vfs &v, const Bytes &patch) { v.files[PATCH].data = patch; v.files[PATCH].written = false; }

static void gen_small_seq(Plan &p, Rng &r, const Api &api, bool thorough, int comp = -1)
{
    do { p.lists.clear(); gen_seq(p, r, api, thorough, comp, 60000); } while (p.at("seq", 6) > 300000);
}
static bool put_seq_files(const Plan &p, Vfs &v, const SeqScenario &sc)
{
    if (sc.from.size > 1 << 21) return false;
    Bytes from((size_t)sc.from.size);
    for (i64 i = 0; i < sc.from.size; i++) from[(size_t)i] = sc.from.at(i);
    v.files[FROM].data = from;
    put_patch(v, sc.patch);
    i64 st = std::min<i64>(p.at("vf", 5), 1 << 20);
    if (st >= 0) { Bytes b((size_t)st); for (size_t i = 0; i < b.size(); i++) b[i] = pbyte(99, i); v.files[TO].data = b; }
    return true;
}
static void put_inp_files(const Plan &p, Vfs &v, const InpScenario &sc)
{
    Bytes mem((size_t)sc.device_size);
    for (size_t i = 0; i < mem.size(); i++) mem[i] = pbyte((u64)p.at("vf", 7) ^ 0xdead, i);
    std::copy(sc.from.begin(), sc.from.end(), mem.begin());
    if (p.at("vf", 6) == 1) mem.resize((size_t)sc.memory_size);
    v.files[MEM].data = mem; v.files[MEM].written = false;
    put_patch(v, sc.patch);
}
static bool starts_with(const Bytes &b, const Bytes &t) { return b.size() >= t.size() && std::equal(t.begin(), t.end(), b.begin()); }

// "faults" stride 3: [position among file operations, kind, arg]
static void gen_faults(Plan &p, Rng &r, int most)
{
    PlanList &f = p.add("faults", 3, true);
    int n = (int)(r.chance(75) ? 1 : r.range(0, most));
    for (int i = 0; i < n; i++) f.v.insert(f.v.end(), {(i64)(r.next() >> 20), r.pick({(i64)0, (i64)0, (i64)1, (i64)2}), r.range(0, 10000)});
}
static void set_faults(const Plan &p, Vfs &v, i64 total)
{
    const auto &f = p.get("faults");
    for (size_t i = 0; i + 3 <= f.size(); i += 3) v.faults.push_back({absl(f[i]) % std::max<i64>(1, total), (int)absl(f[i + 1] % 3), absl(f[i + 2])});
}

static void check_inputs(Sim &s, Vfs &v, const Bytes &from, const Bytes &patch)
{
    if (v.files.count(FROM) && (v.files[FROM].written || v.files[FROM].data != from)) s.fail("input-modified", "the from-file was modified");
    if (!v.files.count(PATCH) || v.files[PATCH].written || v.files[PATCH].data != patch) s.fail("input-modified", "the patch-file was modified");
}

static int seq_files(const Api &api, Vfs &v, Sim &s, u8 fill, int &left_open, size_t &leaks)
{
    vfs_install(&v);
    g_alloc.begin(fill);
    s.ev("Afile");
    int r = api.seq_filenames(FROM, PATCH, TO);
    s.ev("Rfile", r);
    leaks = g_alloc.end(true);
    left_open = v.open_count();
    v.close_all();
    vfs_install(nullptr);
    return r;
}

// ---------------------------------------------------------------- C11
Plan gen_C11(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = file_api(r);
    gen_small_seq(p, r, api, thorough);
    gen_vf(p, r);
    gen_faults(p, r, 3);
    p.add("disk", 1, false).v = {r.chance(25) ? 1 : 0, r.chance(50) ? r.range(0, 40) : (i64)(r.next() >> 40)};
    return p;
}

void exec_C11(const Plan &p, Sim &s)
{
    const Api &api = plan_file_api(p, "seq");
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u8 fill = (u8)p.at("vf", 0);
    i64 total; int lo; size_t leaks;
    Bytes from;
    {
        Vfs v(&s); vf_setup(p, v);
        if (!put_seq_files(p, v, sc)) return;
        from = v.files[FROM].data;
        int r = seq_files(api, v, s, fill, lo, leaks);
        total = v.nops;
        if (s.failed) return;
        if (r < 0) { s.fail("valid-patch-rejected", "fault-free file apply returned %d", r); return; }
        if ((size_t)r != sc.to.size()) { s.fail("wrong-return", "returned %d for to-data of %zu bytes", r, sc.to.size()); return; }
        if (!v.files.count(TO) || v.files[TO].data != sc.to) { s.fail("wrong-output", "success but the to-file has %zu bytes, expected %zu", v.files[TO].data.size(), sc.to.size()); return; }
        check_inputs(s, v, from, sc.patch);
        if (lo) s.fail("file-left-open", "%d files left open after success", lo);
        leak_check(s, leaks);
    }
    if (s.failed) return;
    Vfs v(&s); vf_setup(p, v);
    put_seq_files(p, v, sc);
    set_faults(p, v, total);
    i64 room = -1;
    if (p.at("disk", 0) == 1) {
        i64 k = absl(p.at("disk", 1)) % ((i64)sc.to.size() + 1);
        i64 stale = v.files.count(TO) ? (i64)v.files[TO].data.size() : 0;
        room = (i64)sc.to.size() - k;
        v.capacity = v.used() - stale + room;
    }
    int r = seq_files(api, v, s, fill, lo, leaks);
    if (s.failed) return;
    bool exact = v.files.count(TO) && v.files[TO].data == sc.to;
    if (r >= 0) {
        CNT(s, "outcome:success");
        if (!exact) s.fail("silent-file-corruption", "returned %d but the to-file holds %zu bytes, %zu expected (%d faults fired)", r, v.files.count(TO) ? v.files[TO].data.size() : 0, sc.to.size(), v.fired);
        else if ((size_t)r != sc.to.size()) s.fail("wrong-return", "returned %d for to-data of %zu bytes", r, sc.to.size());
    } else {
        CNT(s, "outcome:error");
        if (!v.fired) s.fail("valid-patch-rejected", "returned %d without any fault", r);
    }
    if (lo) s.fail("file-left-open", "%d files left open after result %d", lo, r);
    check_inputs(s, v, from, sc.patch);
    leak_check(s, leaks);
    s.nontrivial = v.fired > 0;
}

// ---------------------------------------------------------------- C12
// "rounds" stride 3: [kind 0 kill 1 fault 2 sticky 3 partial 4 disk full 5 kill at a step store 6 fault near the end, position, arg]
struct StepStore { Vfs *v; Sim *s; const InpScenario *sc; int step = 0; bool done = false; i64 nsets = 0, kill_set = -1; };
static StepStore *g_step;
static int file_step_set(void *, int step)
{
    StepStore &g = *g_step; Vfs &v = *g.v;
    if (v.killed || g.s->failed) return -1;
    i64 nth = g.nsets++;
    if (g.kill_set == nth) v.kill_at = v.nops;
    int r = v.op("Sstep", "step", step, g.step);
    if (r == -2) {
        if (!(v.oparg & 1)) return -1;
    } else if (r) return -1;
    g.step = step;
    if (step == 0) {
        g.done = true;
        if (!starts_with(v.files[MEM].data, g.sc->to)) g.s->fail("completion-untrue", "step 0 stored but the memory file as the OS holds it is not the to-data");
    }
    return r == -2 ? -1 : 0;
}
static int file_step_get(void *, int *step)
{
    StepStore &g = *g_step;
    if (g.v->op("Sget", "step", g.step, 0)) return -1;
    *step = g.step;
    return 0;
}

Plan gen_C12(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = file_api(r);
    gen_inp(p, r, api, thorough);
    gen_vf(p, r);
    PlanList &c = p.add("rounds", 3, true);
    int n = (int)(r.chance(50) ? 1 : r.range(1, 5));
    int bias = (int)r.range(0, 2);
    for (int i = 0; i < n; i++)
        c.v.insert(c.v.end(), {bias == 0 ? 5 : bias == 1 ? 0 : r.range(0, 6), r.chance(50) ? (i64)(r.next() >> 20) : r.size(500), r.range(0, 10000)});
    return p;
}

void exec_C12(const Plan &p, Sim &s)
{
    const Api &api = plan_file_api(p, "inp");
    InpScenario sc = build_inp(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u8 fill = (u8)p.at("vf", 0);
    i64 total = 0, sets = 0;
    Vfs disk(&s);
    vf_setup(p, disk);
    auto run = [&](StepStore &g, int &lo, size_t &leaks, bool cbs) {
        g_step = &g;
        vfs_install(&disk);
        g_alloc.begin(fill);
        s.ev("Ainp");
        int r = api.inp_filenames(MEM, PATCH, cbs ? file_step_set : nullptr, cbs ? file_step_get : nullptr);
        s.ev("Rinp", r);
        leaks = g_alloc.end(true);
        lo = disk.open_count();
        disk.close_all();
        vfs_install(nullptr); g_step = nullptr;
        return r;
    };
    auto reset = [&](bool image) {
        disk.nops = 0; disk.faults.clear(); disk.sticky.clear(); disk.capacity = -1; disk.kill_at = -1; disk.killed = false; disk.fired = 0; disk.nread = 0; disk.lost = false;
        if (image) put_inp_files(p, disk, sc);
    };
    auto ok = [&](int r) {
        if (s.failed) return;
        if (r < 0) s.fail("valid-patch-rejected", "file-based in-place apply returned %d without a fault", r);
        else if ((size_t)r != sc.to.size()) s.fail("wrong-return", "returned %d for to-data of %zu bytes", r, sc.to.size());
        else if (!starts_with(disk.files[MEM].data, sc.to)) s.fail("wrong-image", "success but the memory file does not start with the to-data");
    };
    int lo; size_t leaks;
    {
        reset(true);
        StepStore g; g.v = &disk; g.s = &s; g.sc = &sc;
        int r = run(g, lo, leaks, p.at("vf", 7) % 4 != 0);
        ok(r);
        if (lo) s.fail("file-left-open", "%d files left open after success", lo);
        leak_check(s, leaks);
        reset(true);
        StepStore g2; g2.v = &disk; g2.s = &s; g2.sc = &sc;
        if (!s.failed) { r = run(g2, lo, leaks, true); ok(r); }
        total = disk.nops; sets = g2.nsets;
    }
    if (s.failed || total == 0) return;
    reset(true);
    StepStore g; g.v = &disk; g.s = &s; g.sc = &sc;
    const auto &ro = p.get("rounds");
    for (size_t i = 0;; i += 3) {
        bool last = i + 3 > ro.size() || i >= 30;
        reset(false);
        disk.shortseed = (u64)p.at("vf", 4) ? (u64)p.at("vf", 4) + i : 0;
        g.nsets = 0; g.kill_set = -1;
        if (!last) {
            i64 k = absl(ro[i]) % 7, pos = absl(ro[i + 1]), arg = absl(ro[i + 2]);
            if (k == 0) { disk.kill_at = pos % total; disk.torn = arg; }
            else if (k == 5) { if (sets) g.kill_set = pos % sets; disk.torn = arg; }
            else if (k == 4) disk.capacity = disk.used() + arg % 300;
            else if (k == 6) disk.faults.push_back({std::max<i64>(0, total - 1 - pos % 4), 0, arg});
            else disk.faults.push_back({pos % total, k == 1 ? 0 : k == 2 ? 1 : 2, arg});
        }
        int r = run(g, lo, leaks, true);
        if (s.failed) return;
        if (disk.killed) {
            s.nontrivial = true;
            if (g.step > 0) CNT(s, "probe:killed-with-stored-step");
            if (g.done) { if (!starts_with(disk.files[MEM].data, sc.to)) s.fail("completion-untrue", "step 0 was stored, the file lost the to-data"); return; }
            continue;
        }
        if (lo) { s.fail("file-left-open", "%d files left open after result %d", lo, r); return; }
        leak_check(s, leaks);
        if (disk.files[PATCH].data != sc.patch || disk.files[PATCH].written) { s.fail("input-modified", "the patch-file was modified"); return; }
        if (r >= 0) {
            ok(r);
            if (disk.fired) { s.nontrivial = true; CNT(s, "outcome:success-despite-fault"); }
            break;
        }
        if (disk.lost) { s.nontrivial = true; CNT(s, "outcome:error"); return; } // no step can cover that
        if (!disk.fired) { s.fail("valid-patch-rejected", "re-run %zu from step %d returned %d without a fault", i / 3, g.step, r); return; }
        s.nontrivial = true; CNT(s, "outcome:error");
        if (g.done) { if (!starts_with(disk.files[MEM].data, sc.to)) s.fail("completion-untrue", "step 0 was stored, the file lost the to-data"); return; }
        if (last) { s.fail("harness", "last round cannot fail"); return; }
    }
}

// ---------------------------------------------------------------- C14
static jmp_buf cli_jmp; static bool cli_on; static int cli_status;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap_exit(int st);
extern "C" void __wrap_exit(int st)
{
    if (cli_on) { cli_status = st; longjmp(cli_jmp, 1); }
    __real_exit(st);
}
static ssize_t cap_write(void *c, const char *b, size_t n) { ((std::string *)c)->append(b, n); return (ssize_t)n; }

static int run_cli(const Api &api, const std::vector<std::string> &args, std::string &out, Sim &s)
{
    std::vector<const char *> av;
    for (auto &a : args) av.push_back(a.c_str());
    av.push_back(nullptr);
    FILE *o1 = stdout, *o2 = stderr;
    cookie_io_functions_t io = {nullptr, cap_write, nullptr, nullptr};
    FILE *c = fopencookie(&out, "w", io);
    stdout = c; stderr = c;
    volatile int st = 0;
    if (setjmp(cli_jmp) == 0) {
        cli_on = true;
        st = api.cli_main((int)args.size(), av.data());
    } else st = cli_status;
    cli_on = false;
    fflush(c);
    stdout = o1; stderr = o2;
    fclose(c);
    s.ev("Rcli", st);
    return st & 0xff;
}

// "cli": 0 command (0 apply 1 in place 2 unknown 3 none 4 unknown with a memory file) 1 argument count change 2 damage 3 position 4 missing file 5 allocation 6 name
Plan gen_C14(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_by_name("S");
    int cmd = (int)r.pick({0, 0, 0, 0, 1, 1, 1, 1, 2, 3, 4});
    if (cmd == 1 || cmd == 4) gen_inp(p, r, api, thorough); else gen_small_seq(p, r, api, thorough);
    gen_vf(p, r);
    gen_faults(p, r, 2);
    bool faults = r.chance(60);
    if (!faults) p.lists.back().v.clear();
    p.add("cli", 1, false).v = {cmd, r.chance(10) ? r.pick({(i64)-3, (i64)-2, (i64)-1, (i64)1, (i64)2}) : 0, r.chance(25) ? r.range(1, 2) : 0,
                                r.chance(50) ? r.range(0, 20) : (i64)(r.next() >> 40), r.chance(6) ? r.range(1, 2) : 0,
                                r.chance(10) ? (i64)(r.next() >> 40) : -1, r.range(0, 11)};
    p.add("disk", 1, false).v = {r.chance(15) ? 1 : 0, r.chance(50) ? r.range(0, 40) : (i64)(r.next() >> 40)};
    return p;
}

void exec_C14(const Plan &p, Sim &s)
{
    const Api &api = api_by_name("S");
    i64 cmd = absl(p.at("cli", 0)) % 5, dn = p.at("cli", 1), damage = p.at("cli", 2), miss = p.at("cli", 4);
    if ((cmd == 1 || cmd == 4) && p.get("inp").empty()) cmd = 0;
    bool inp = cmd == 1 || cmd == 4;
    static const char *wrong[] = {"apply", "apply_patch_", "apply_patc", "apply_patch_in_plac", "apply_patch_in_place_", "APPLY_PATCH", "", "--help", "-h",
                                  "patch_info", "apply patch", "in_place"};
    const char *name = wrong[absl(p.at("cli", 6)) % 12];
    SeqScenario ss; InpScenario is;
    if (inp) is = build_inp(p, api); else ss = build_seq(p, api);
    const Bytes &to = inp ? is.to : ss.to;
    Bytes patch = inp ? is.patch : ss.patch;
    s.mixbytes(patch.data(), patch.size());
    i64 cut = absl(p.at("cli", 3)) % (i64)(patch.size() + 1);
    bool damaged = false;
    if (damage == 1) { patch.resize(patch.size() - (size_t)cut); damaged = cut > 0; }
    if (damage == 2) { patch.resize((size_t)cut); damaged = patch.size() < (inp ? is.patch : ss.patch).size(); }
    if (damaged) CNT(s, "fault:truncated-patch-file");
    std::vector<std::string> args = {"detools"};
    if (cmd == 0) args.insert(args.end(), {"apply_patch", FROM, PATCH, TO});
    else if (cmd == 1) args.insert(args.end(), {"apply_patch_in_place", MEM, PATCH});
    else if (cmd == 2) args.insert(args.end(), {name, FROM, PATCH, TO});
    else if (cmd == 4) args.insert(args.end(), {name, MEM, PATCH});
    bool usage = cmd >= 2;
    if (dn > 0) for (i64 i = 0; i < std::min<i64>(dn, 3); i++) { args.push_back("more"); usage = true; }
    if (dn < 0) for (i64 i = 0; i < -dn && args.size() > 1; i++) { args.pop_back(); usage = true; }
    if (usage) CNT(s, "probe:usage"); else if (inp) CNT(s, "cli:apply_patch_in_place"); else CNT(s, "cli:apply_patch");
    i64 total = 0;
    for (int round = 0; round < 2 && !s.failed; round++) {
        bool faulty = round == 1;
        if (faulty && p.get("faults").empty() && p.at("disk", 0) != 1 && p.at("cli", 5) < 0) break;
        Vfs v(&s); vf_setup(p, v);
        if (inp) put_inp_files(p, v, is); else if (!put_seq_files(p, v, ss)) return;
        put_patch(v, patch);
        if (miss == 1) { v.files.erase(inp ? MEM : FROM); CNT(s, "fault:missing-file"); }
        if (miss == 2) { v.files.erase(PATCH); CNT(s, "fault:missing-file"); }
        Bytes from = v.files.count(FROM) ? v.files[FROM].data : Bytes();
        auto before = v.files;
        if (faulty) {
            set_faults(p, v, total);
            if (p.at("disk", 0) == 1) v.capacity = std::max<i64>(0, v.used() - (i64)(v.files.count(TO) ? v.files[TO].data.size() : 0) + (inp ? 0 : (i64)to.size()) - absl(p.at("disk", 1)) % ((i64)to.size() + 1));
        }
        std::string out;
        vfs_install(&v);
        g_alloc.begin((u8)p.at("vf", 0));
        bool af = faulty && p.at("cli", 5) >= 0;
        if (af) { g_alloc.fail_at = absl(p.at("cli", 5)) % 40; g_alloc.fail_mode = 1; }
        int st = run_cli(api, args, out, s);
        u64 afailed = g_alloc.failed;
        g_alloc.end(true);
        total = v.nops;
        v.close_all();
        vfs_install(nullptr);
        if (s.failed) return;
        if (afailed) { CNTN(s, "fault:allocation", afailed); v.fired++; }
        bool exact = !usage && (inp ? v.files.count(MEM) && starts_with(v.files[MEM].data, to) : v.files.count(TO) && v.files[TO].data == to);
        if (st == 0) CNT(s, "outcome:exit-0"); else CNT(s, "outcome:exit-non-zero");
        if (st == 0 && usage) s.fail("wrong-exit-status", "exit status 0 for a wrong command line");
        else if (st == 0 && !exact) s.fail("wrong-exit-status", "exit status 0 but the result is not complete on disk (%d faults)", v.fired);
        else if (st != 0 && !usage && !v.fired && !damaged && !miss) s.fail("wrong-exit-status", "exit status %d although nothing failed: %s", st, out.c_str());
        else if (st != 0 && out.empty()) s.fail("no-message", "exit status %d without any message", st);
        if (v.files.count(FROM) && (v.files[FROM].written || v.files[FROM].data != from)) s.fail("input-modified", "the from-file was modified");
        if (v.files.count(PATCH) && (v.files[PATCH].written || v.files[PATCH].data != patch)) s.fail("input-modified", "the patch-file was modified");
        if (usage) for (auto &f : v.files) if (f.second.written) s.fail("input-modified", "a file was written although the command line was wrong");
        s.nontrivial |= v.fired || damaged || usage || miss;
    }
}

// ---------------------------------------------------------------- file part of C08
Plan gen_C08_file(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = file_api(r);
    bool inp = r.chance(50);
    if (inp) gen_inp(p, r, api, thorough); else gen_small_seq(p, r, api, thorough);
    gen_vf(p, r);
    p.add("cut", 1, false).v = {r.range(0, 1), r.chance(50) ? r.range(0, 12) : (i64)(r.next() >> 40)};
    return p;
}

static int inp_files_plain(const Api &api, Vfs &v, Sim &s, u8 fill, size_t &leaks)
{
    vfs_install(&v);
    g_alloc.begin(fill);
    s.ev("Ainp");
    int r = api.inp_filenames(MEM, PATCH, nullptr, nullptr);
    s.ev("Rinp", r);
    leaks = g_alloc.end(true);
    v.close_all();
    vfs_install(nullptr);
    return r;
}

void exec_C08_file(const Plan &p, Sim &s)
{
    bool inp = !p.get("inp").empty();
    const Api &api = plan_file_api(p, inp ? "inp" : "seq");
    SeqScenario ss; InpScenario is;
    if (inp) is = build_inp(p, api); else ss = build_seq(p, api);
    const Bytes &to = inp ? is.to : ss.to;
    Bytes patch = inp ? is.patch : ss.patch;
    s.mixbytes(patch.data(), patch.size());
    size_t full = patch.size();
    i64 k = absl(p.at("cut", 1)) % (i64)(full + 1);
    patch.resize(p.at("cut", 0) == 0 ? full - (size_t)k : (size_t)k);
    Vfs v(&s); vf_setup(p, v);
    if (inp) put_inp_files(p, v, is); else if (!put_seq_files(p, v, ss)) return;
    put_patch(v, patch);
    int lo; size_t leaks;
    int r = inp ? inp_files_plain(api, v, s, (u8)p.at("vf", 0), leaks) : seq_files(api, v, s, (u8)p.at("vf", 0), lo, leaks);
    if (s.failed) return;
    bool exact = inp ? starts_with(v.files[MEM].data, to) : v.files.count(TO) && v.files[TO].data == to;
    if (patch.size() < full) CNT(s, "fault:truncated-patch-file");
    if (r >= 0) CNT(s, "outcome:success"); else CNT(s, "outcome:error");
    if (r >= 0 && ((size_t)r != to.size() || !exact)) s.fail("truncation-accepted", "file apply returned %d with a wrong result, %zu of %zu patch bytes in the file", r, patch.size(), full);
    if (r < 0 && patch.size() == full) s.fail("valid-patch-rejected", "complete patch file failed with %d", r);
    if (!inp && v.files.count(TO) && v.files[TO].data.size() && !starts_with(to, v.files[TO].data)) s.fail("wrong-output", "output of a truncated patch is not a prefix of the to-data");
    leak_check(s, leaks);
    s.nontrivial = patch.size() < full;
}

// ---------------------------------------------------------------- file part of C10
Plan gen_C10_file(Rng &r, bool thorough)
{
    Plan p;
    const Api *api; int comp;
    do { api = &file_api(r); comp = r.chance(70) ? COMP_LZMA : COMP_HS; }
    while (!((comp == COMP_LZMA && api->has_lzma) || (comp == COMP_HS && api->hs_dynamic)));
    gen_small_seq(p, r, *api, thorough, comp);
    gen_vf(p, r);
    p.add("alloc", 1, false).v = {(i64)(r.next() >> 30), r.range(0, 1)};
    return p;
}

void exec_C10_file(const Plan &p, Sim &s)
{
    const Api &api = plan_file_api(p, "seq");
    SeqScenario sc = build_seq(p, api);
    s.mixbytes(sc.patch.data(), sc.patch.size());
    u64 allocs = 0;
    for (int round = 0; round < 3 && !s.failed; round++) {
        Vfs v(&s); vf_setup(p, v);
        if (!put_seq_files(p, v, sc)) return;
        vfs_install(&v);
        g_alloc.begin((u8)(p.at("vf", 0) + round));
        if (round == 1) { g_alloc.fail_at = allocs ? absl(p.at("alloc", 0)) % (i64)allocs : 0; g_alloc.fail_mode = p.at("alloc", 1) == 1; }
        int r = api.seq_filenames(FROM, PATCH, TO);
        s.ev("Rfile", r);
        u64 failed = g_alloc.failed; if (round == 0) allocs = g_alloc.count;
        size_t leaks = g_alloc.end(true);
        int lo = v.open_count();
        v.close_all(); vfs_install(nullptr);
        if (s.failed) return;
        if (failed) { CNTN(s, "fault:allocation", failed); s.nontrivial = true; }
        if (r >= 0 || !failed) {
            if (r < 0) s.fail("valid-patch-rejected", "returned %d with memory available", r);
            else if ((size_t)r != sc.to.size() || v.files[TO].data != sc.to) s.fail("wrong-output", "returned %d, to-file holds %zu of %zu bytes", r, v.files[TO].data.size(), sc.to.size());
        } else CNT(s, "outcome:error");
        if (lo) s.fail("file-left-open", "%d files left open", lo);
        leak_check(s, leaks);
    }
}
