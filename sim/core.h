// Core of the deterministic simulator: PRNG, plan (replayable scenario),
// event log hash, fault/probe counters, violation record.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <algorithm>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

static inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0x5eed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31); }
    // inclusive range
    i64 range(i64 lo, i64 hi) { if (hi <= lo) return lo; return lo + (i64)(next() % (u64)(hi - lo + 1)); }
    bool chance(int pct) { return (int)(next() % 100) < pct; }
    bool permille(int pm) { return (int)(next() % 1000) < pm; }
    // small-biased positive size: picks a magnitude first
    i64 size(i64 hi) {
        if (hi <= 0) return 0;
        int bits = 0; while ((1ll << bits) <= hi && bits < 40) bits++;
        i64 v = range(0, (1ll << range(0, bits)) - 1);
        return v > hi ? hi : v;
    }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[next() % l.size()]; }
};

// A plan: named lists of integers. It is the whole input of one run.
struct PlanList { std::string name; int stride; bool droppable; std::vector<i64> v; };

struct Plan {
    std::string property;
    u64 seed = 0, index = 0;
    std::vector<PlanList> lists;

    PlanList &add(const char *name, int stride, bool droppable) {
        lists.push_back({name, stride, droppable, {}}); return lists.back(); }
    const std::vector<i64> &get(const char *name) const {
        static const std::vector<i64> empty;
        for (auto &l : lists) if (l.name == name) return l.v;
        return empty; }
    i64 at(const char *name, size_t i, i64 def = 0) const {
        auto &v = get(name); return i < v.size() ? v[i] : def; }

    std::string text() const {
        std::string s = "property " + property + "\nseed " + std::to_string(seed)
            + " index " + std::to_string(index) + "\n";
        for (auto &l : lists) {
            s += "list " + l.name + " " + std::to_string(l.stride) + " " + (l.droppable ? "1" : "0");
            for (i64 x : l.v) { s += ' '; s += std::to_string(x); }
            s += '\n';
        }
        return s; }

    bool parse(FILE *f) {
        char *line = NULL; size_t cap = 0; ssize_t n;
        while ((n = getline(&line, &cap, f)) > 0) {
            if (line[0] == '#') continue;
            char *save, *t = strtok_r(line, " \n", &save);
            if (!t) continue;
            if (!strcmp(t, "property")) { t = strtok_r(NULL, " \n", &save); if (t) property = t; }
            else if (!strcmp(t, "seed")) {
                t = strtok_r(NULL, " \n", &save); if (t) seed = strtoull(t, NULL, 10);
                t = strtok_r(NULL, " \n", &save); t = strtok_r(NULL, " \n", &save);
                if (t) index = strtoull(t, NULL, 10);
            } else if (!strcmp(t, "list")) {
                PlanList l; t = strtok_r(NULL, " \n", &save); if (!t) return false; l.name = t;
                t = strtok_r(NULL, " \n", &save); if (!t) return false; l.stride = atoi(t);
                t = strtok_r(NULL, " \n", &save); if (!t) return false; l.droppable = atoi(t);
                while ((t = strtok_r(NULL, " \n", &save))) l.v.push_back(strtoll(t, NULL, 10));
                lists.push_back(l);
            }
        }
        free(line);
        return !property.empty(); }
};

// Counters are registered by name once, then indexed.
int counter_id(const char *name);
const std::vector<std::string> &counter_names();

struct Sim {
    u64 h = 0xcbf29ce484222325ull;  // event log hash
    u64 events = 0;
    u64 time_ns = 0;                // simulated time
    u64 limit = 4000000;            // event cap of one run
    u64 work_limit = 0;             // devices fail after this many events: the code must then stop
    u64 bytes = 0;                  // bytes moved or hashed by the simulated device; 32 count as one event of work
    bool failed = false;
    std::string vclass, vdetail;
    bool tracing = false;
    std::vector<std::string> trace;
    std::vector<u64> cnt;           // fault kinds fired and probes
    bool nontrivial = false;

    void mix(u64 x) { h = mix64(h ^ (x + 0x632be59bd9b4e019ull)); }
    void mixbytes(const void *p, size_t n) {
        const u8 *b = (const u8 *)p; u64 x = 0xcbf29ce484222325ull ^ n;
        for (size_t i = 0; i < n; i++) x = (x ^ b[i]) * 0x100000001b3ull;
        mix(x); }
    // one simulated event; returns false once the event cap is hit
    bool ev(const char *kind, i64 a = 0, i64 b = 0, i64 c = 0, u64 ns = 1000) {
        events++; time_ns += ns;
        mix(*(const u8 *)kind | (u64)(u8)kind[1] << 8 | (u64)(kind[1] ? (u8)kind[2] : 0) << 16);
        mix((u64)a); mix((u64)b); mix((u64)c);
        if (tracing && trace.size() < 4000) {
            char buf[200];
            snprintf(buf, sizeof buf, "%6llu %s %lld %lld %lld", (unsigned long long)events, kind,
                     (long long)a, (long long)b, (long long)c);
            trace.push_back(buf);
        }
        if (events > limit) { fail("no-progress", "more than %llu simulated events", (unsigned long long)limit); return false; }
        return true; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!tracing || trace.size() >= 4000) return;
        char buf[400]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        trace.push_back(std::string("       -- ") + buf); }
    void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (failed) return;
        failed = true; vclass = cls;
        char buf[600]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        vdetail = buf;
        note("VIOLATION %s: %s", cls, buf); }
    void count(int id, u64 n = 1) { if ((size_t)id >= cnt.size()) cnt.resize(id + 1); cnt[id] += n; }
};

#define CNT(sim, name) do { static const int id_ = counter_id(name); (sim).count(id_); } while (0)
#define CNTN(sim, name, n) do { static const int id_ = counter_id(name); (sim).count(id_, (n)); } while (0)

// deterministic pseudo-random byte stream at any position
static inline u8 pbyte(u64 seed, u64 pos)
{
    u64 w = mix64(seed * 0x9e3779b97f4a7c15ull + (pos >> 3));
    return (u8)(w >> ((pos & 7) * 8));
}

typedef Plan (*gen_fn)(Rng &rng, bool thorough);
typedef void (*exec_fn)(const Plan &plan, Sim &sim);
struct World { const char *property; gen_fn gen; exec_fn exec; };
extern const World worlds[];
