PROPERTY = 'C10'
NEEDS = '''An LZMA patch and an output buffer allocation that fails when there
is one already.'''
BREAKS = '''The old output buffer is never freed.'''
EDITS = [('c/detools.c',
'''    output_p = malloc(size);

    if (output_p == NULL) {
        return (-DETOOLS_OUT_OF_MEMORY);
    }
''',
'''    output_p = malloc(size);

    if (output_p == NULL) {
        lzma_p->output_p = NULL;

        return (-DETOOLS_OUT_OF_MEMORY);
    }
''')]
DEMO = r'''
from lib import *

exe = build_exe(r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "detools.h"

extern void *__real_malloc(size_t size);
extern void __real_free(void *p);
static int count, fail_at, live;

void *__wrap_malloc(size_t size)
{
    if (count++ == fail_at) {
        return (NULL);
    }

    live++;

    return (__real_malloc(size));
}

void __wrap_free(void *p)
{
    if (p != NULL) {
        live--;
    }

    __real_free(p);
}

static uint8_t patch[100000];
static size_t pos;

static int from_read(void *a, uint8_t *b, size_t n)
{
    memset(b, 0, n);

    return (0);
}

static int from_seek(void *a, int o)
{
    return (0);
}

static int to_write(void *a, const uint8_t *b, size_t n)
{
    return (0);
}

int main(int argc, const char *argv[])
{
    FILE *f = fopen(argv[1], "rb");
    size_t size = fread(patch, 1, sizeof(patch), f);
    struct detools_apply_patch_t self;
    size_t i;
    int res;

    for (fail_at = -1; fail_at < 300; fail_at++) {
        count = live = 0;
        detools_apply_patch_init(&self, from_read, from_seek, size, to_write, NULL);
        res = 0;

        for (i = 0; (i < size) && (res == 0); i += 20) {
            res = detools_apply_patch_process(&self, &patch[i], size - i < 20 ? size - i : 20);
        }

        res = detools_apply_patch_finalize(&self);

        if (live != 0) {
            printf("%d: result %d, %d blocks are lost\n", fail_at, res, live);

            return (1);
        }
    }

    return (0);
}
""", '-Wl,--wrap=malloc,--wrap=free')
to = bytes((i * i >> 3) * 7 & 0xff for i in range(3000))
patch = sequential(LZMA, len(to), body((b'', to, 0)))
sys.exit(run(exe, path('patch', patch)).returncode)
'''
