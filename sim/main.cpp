// Engine entry point.
//   engine list
//   engine run  PROPERTY SEED FIRST COUNT TIER OUT.hashes PROGRESS   -> JSON on stdout
//   engine gen  PROPERTY SEED INDEX TIER                             -> plan on stdout
//   engine exec PLAN [--trace]                                       -> JSON on stdout
#include "core.h"
#include "api.h"
#include "patchgen.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

// ------------------------------------------------------------ counters
static std::vector<std::string> &names() { static auto *v = new std::vector<std::string>; return *v; }
int counter_id(const char *n)
{
    auto &v = names();
    for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return (int)i;
    v.push_back(n);
    return (int)v.size() - 1;
}
const std::vector<std::string> &counter_names() { return names(); }

// ------------------------------------------------------------ variants
extern "C" { extern const Api api_S, api_D, api_Z, api_M; }
static const Api *const variants[] = {&api_S, &api_D, &api_Z, &api_M};
int api_variant_count() { return 4; }
const Api &api_variant(i64 n) { if (n < 0) n = -n; return *variants[n % 4]; }
const Api &api_by_name(const char *n) { for (auto v : variants) if (!strcmp(v->name, n)) return *v; abort(); }

// ------------------------------------------------------------ worlds
#define W(x) Plan gen_##x(Rng &, bool); void exec_##x(const Plan &, Sim &);
W(C01) W(C02) W(C03) W(C04) W(C05) W(C06) W(C07_seq) W(C07_inp) W(C08_seq) W(C08_inp) W(C09) W(C10_seq) W(C10_inp)
W(C11) W(C12) W(C13) W(C14)
W(C10_file) W(C08_file)
#undef W
static bool is_inp(const Plan &p) { for (auto &l : p.lists) if (l.name == "inp") return true; return false; }
static bool is_file(const Plan &p) { for (auto &l : p.lists) if (l.name == "vf") return true; return false; }
static Plan gen_C07(Rng &r, bool t) { return r.chance(45) ? gen_C07_seq(r, t) : gen_C07_inp(r, t); }
static void exec_C07(const Plan &p, Sim &s) { if (is_inp(p)) exec_C07_inp(p, s); else exec_C07_seq(p, s); }
static Plan gen_C08(Rng &r, bool t) { i64 k = r.range(0, 99); return k < 45 ? gen_C08_seq(r, t) : k < 88 ? gen_C08_inp(r, t) : gen_C08_file(r, t); }
static void exec_C08(const Plan &p, Sim &s) { if (is_file(p)) exec_C08_file(p, s); else if (is_inp(p)) exec_C08_inp(p, s); else exec_C08_seq(p, s); }
static Plan gen_C10(Rng &r, bool t) { i64 k = r.range(0, 99); return k < 45 ? gen_C10_seq(r, t) : k < 90 ? gen_C10_inp(r, t) : gen_C10_file(r, t); }
static void exec_C10(const Plan &p, Sim &s) { if (is_file(p)) exec_C10_file(p, s); else if (is_inp(p)) exec_C10_inp(p, s); else exec_C10_seq(p, s); }

const World worlds[] = {
    {"C01", gen_C01, exec_C01}, {"C02", gen_C02, exec_C02}, {"C03", gen_C03, exec_C03}, {"C04", gen_C04, exec_C04},
    {"C05", gen_C05, exec_C05}, {"C06", gen_C06, exec_C06}, {"C07", gen_C07, exec_C07}, {"C08", gen_C08, exec_C08},
    {"C09", gen_C09, exec_C09}, {"C10", gen_C10, exec_C10}, {"C11", gen_C11, exec_C11}, {"C12", gen_C12, exec_C12},
    {"C13", gen_C13, exec_C13}, {"C14", gen_C14, exec_C14},
    {nullptr, nullptr, nullptr}};

static const World *find(const std::string &p) { for (auto w = worlds; w->property; w++) if (p == w->property) return w; return nullptr; }

static Plan make(const World *w, u64 seed, u64 index, bool thorough)
{
    u64 h = 0; for (const char *c = w->property; *c; c++) h = h * 131 + (u8)*c;
    Rng r(mix64(seed * 0x100000001b3ull + h) ^ mix64(index + 0x1234567));
    Plan p = w->gen(r, thorough);
    p.property = w->property; p.seed = seed; p.index = index;
    return p;
}

static volatile u64 *progress;
static void on_timer(int) { static const char m[] = "HANG: one simulated run used up its CPU time\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
static void arm(int sec) { struct itimerval t = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &t, NULL); }

static std::string jesc(const std::string &s)
{
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static void print_counts(const std::vector<u64> &c)
{
    printf("\"counts\":{");
    bool first = true;
    for (size_t i = 0; i < c.size(); i++) if (c[i]) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(names()[i]).c_str(), (unsigned long long)c[i]); first = false; }
    printf("}");
}

int main(int argc, char **argv)
{
    signal(SIGPROF, on_timer);
    const char *lim = getenv("SIM_RUN_CPU_S");
    int cpu = lim ? atoi(lim) : 40;
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto w = worlds; w->property; w++) puts(w->property); return 0; }
    if (cmd == "gen" && argc == 6) {
        const World *w = find(argv[2]); if (!w) return 2;
        Plan p = make(w, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), !strcmp(argv[5], "thorough"));
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (cmd == "exec" && argc >= 3) {
        FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
        Plan p; if (!p.parse(f)) return 2;
        fclose(f);
        const World *w = find(p.property); if (!w) return 2;
        Sim s; s.tracing = argc > 3 && !strcmp(argv[3], "--trace");
        arm(cpu);
        w->exec(p, s);
        printf("{\"hash\":\"%016llx\",\"events\":%llu,\"time_ns\":%llu,", (unsigned long long)s.h, (unsigned long long)s.events, (unsigned long long)s.time_ns);
        if (s.failed) printf("\"violation\":{\"class\":\"%s\",\"detail\":\"%s\"},", jesc(s.vclass).c_str(), jesc(s.vdetail).c_str());
        else printf("\"violation\":null,");
        print_counts(s.cnt);
        printf(",\"trace\":[");
        for (size_t i = 0; i < s.trace.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(s.trace[i]).c_str());
        printf("]}\n");
        return s.failed ? 3 : 0;
    }
    if (cmd == "run" && argc == 9) {
        const World *w = find(argv[2]); if (!w) return 2;
        u64 seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        bool thorough = !strcmp(argv[6], "thorough");
        int fd = open(argv[8], O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 16)) return 2;
        progress = (volatile u64 *)mmap(NULL, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        FILE *hf = fopen(argv[7], "ab"); if (!hf) return 2;
        const char *wall = getenv("SIM_WALL_S");
        double cap = wall ? atof(wall) : 0;
        struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
        std::vector<u64> tot; u64 events = 0, ns = 0, nontriv = 0, done = 0;
        bool failed = false; u64 findex = 0; std::string fclass, fdetail;
        for (u64 i = first; i < first + count; i++) {
            progress[0] = i; progress[1] = 1;
            if (cap > 0 && (i & 15) == 0) {
                struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
                if ((double)(t.tv_sec - t0.tv_sec) + (double)(t.tv_nsec - t0.tv_nsec) / 1e9 > cap) break;
            }
            Plan p = make(w, seed, i, thorough);
            Sim s;
            arm(cpu);
            w->exec(p, s);
            arm(0);
            done++;
            events += s.events; ns += s.time_ns; nontriv += s.nontrivial;
            if (tot.size() < s.cnt.size()) tot.resize(s.cnt.size());
            for (size_t k = 0; k < s.cnt.size(); k++) tot[k] += s.cnt[k];
            u64 rec[2] = {i, s.h | 1};
            if (!s.nontrivial) rec[1] &= ~1ull;
            fwrite(rec, sizeof rec, 1, hf);
            if (s.failed) { failed = true; findex = i; fclass = s.vclass; fdetail = s.vdetail; break; }
        }
        fclose(hf);
        progress[1] = 0;
        printf("{\"done\":%llu,\"events\":%llu,\"time_ns\":%llu,\"nontrivial\":%llu,", (unsigned long long)done, (unsigned long long)events, (unsigned long long)ns, (unsigned long long)nontriv);
        if (failed) printf("\"violation\":{\"index\":%llu,\"class\":\"%s\",\"detail\":\"%s\"},", (unsigned long long)findex, jesc(fclass).c_str(), jesc(fdetail).c_str());
        else printf("\"violation\":null,");
        print_counts(tot);
        printf("}\n");
        return failed ? 3 : 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
