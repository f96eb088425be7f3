#include "alloc.h"
#include <unordered_map>
AllocCtl g_alloc;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}
static std::unordered_map<void *, size_t> &live() { static auto *m = new std::unordered_map<void *, size_t>; return *m; }

void AllocCtl::begin(u8 f)
{
    active = true; count = 0; fail_at = -1; fail_mode = 0; fail_every = 0; failed = 0;
    max_size = 32u << 20; fill = f; bad_free = false; ::live().clear();
}
size_t AllocCtl::live() const { return ::live().size(); }
size_t AllocCtl::end(bool free_leaks)
{
    active = false;
    size_t n = ::live().size();
    if (free_leaks) for (auto &e : ::live()) __real_free(e.first);
    ::live().clear();
    return n;
}
static bool should_fail(size_t n)
{
    u64 i = g_alloc.count++;
    bool f = n > g_alloc.max_size;
    if (g_alloc.fail_at >= 0) {
        if (g_alloc.fail_mode == 0) f |= (i64)i == g_alloc.fail_at;
        else if (g_alloc.fail_mode == 1) f |= (i64)i >= g_alloc.fail_at;
        else f |= g_alloc.fail_every > 0 && (i64)i >= g_alloc.fail_at && (i - g_alloc.fail_at) % g_alloc.fail_every == 0;
    }
    if (f) g_alloc.failed++;
    return f;
}
extern "C" void *__wrap_malloc(size_t n)
{
    if (!g_alloc.active) return __real_malloc(n);
    if (should_fail(n)) return NULL;
    void *p = __real_malloc(n);
    if (p) { memset(p, g_alloc.fill, n); live()[p] = n; }
    return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b)
{
    if (!g_alloc.active) return __real_calloc(a, b);
    if (b && a > (size_t)-1 / b) return NULL;
    if (should_fail(a * b)) return NULL;
    void *p = __real_calloc(a, b);
    if (p) live()[p] = a * b;
    return p;
}
extern "C" void *__wrap_realloc(void *o, size_t n)
{
    if (!g_alloc.active) return __real_realloc(o, n);
    if (should_fail(n)) return NULL;
    size_t old = 0;
    if (o) { auto it = live().find(o); if (it != live().end()) { old = it->second; live().erase(it); } }
    void *p = __real_realloc(o, n);
    if (p) { if (n > old) memset((u8 *)p + old, g_alloc.fill, n - old); live()[p] = n; }
    return p;
}
extern "C" void __wrap_free(void *p)
{
    if (g_alloc.active && p) live().erase(p);   // a free of anything else is left to ASan
    __real_free(p);
}
