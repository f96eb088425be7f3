PROPERTY = 'C10'
NEEDS = '''The second or a later allocation of the LZMA input buffer failing.'''
BREAKS = '''The input buffer is freed twice when growing it fails.'''
EDITS = [('c/detools.c',
'''    next_p = malloc(lzma_p->stream.avail_in + left);

    if (next_p == NULL) {
        return (-DETOOLS_OUT_OF_MEMORY);
    }
''',
'''    next_p = malloc(lzma_p->stream.avail_in + left);

    if (next_p == NULL) {
        free(lzma_p->input_p);

        return (-DETOOLS_OUT_OF_MEMORY);
    }
''')]
DEMO = r'''
from lib import *

to = os.urandom(0) + bytes(i * i * 31 + i // 7 & 0xff for i in range(3000))
patch = sequential(LZMA, len(to), body((b'', to, 0)))
exe = build_exe(r"""
#include <stdio.h>
#include <stdlib.h>
#include "detools.h"
static long fail_at, count, live, bad;
static void *seen[1000];
void *__real_malloc(size_t size);
void __real_free(void *p);
void *__wrap_malloc(size_t size)
{
    void *p;
    int i;
    if (++count == fail_at) return NULL;
    p = __real_malloc(size);
    for (i = 0; i < 1000; i++) if (!seen[i]) { seen[i] = p; break; }
    live++;
    return p;
}
void __wrap_free(void *p)
{
    int i;
    if (!p) return;
    for (i = 0; i < 1000; i++) {
        if (seen[i] == p) { seen[i] = NULL; live--; __real_free(p); return; }
    }
    bad++;
}
static int rd(void *a, uint8_t *b, size_t n) { return -1; }
static int sk(void *a, int o) { return 0; }
static int wr(void *a, const uint8_t *b, size_t n) { return 0; }
int main(int argc, char **argv)
{
    static uint8_t patch[100000];
    struct detools_apply_patch_t s;
    FILE *f = fopen(argv[1], "rb");
    size_t n = fread(patch, 1, sizeof(patch), f), i;
    int res, ok = 0;
    fclose(f);
    for (fail_at = 1; fail_at < 2000 && !ok; fail_at++) {
        count = live = 0;
        detools_apply_patch_init(&s, rd, sk, n, wr, NULL);
        res = 0;
        for (i = 0; i < n && res == 0; i += 100)
            res = detools_apply_patch_process(&s, patch + i,
                                              n - i < 100 ? n - i : 100);
        if (detools_apply_patch_finalize(&s) >= 0 && res == 0) ok = 1;
        if (live != 0 || bad != 0) {
            printf("%ld: %ld not freed, %ld freed twice\n", fail_at, live, bad);
            return 1;
        }
    }
    return !ok;
}
""", '-Wl,--wrap=malloc', '-Wl,--wrap=free')
res = run(exe, path('patch', patch))
sys.exit(res.returncode)
'''
