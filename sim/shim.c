/* Compiled once per build variant with the variant's defines; linked (ld -r)
 * with that variant's build of the code under test, after which only the
 * table stays visible. Uses the public header only. */
#include "detools.h"
#include "api.h"

#ifndef VARIANT
#error VARIANT
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)

#ifdef WITH_CLI
int detools_cli_main(int argc, const char *argv[]);
#endif

#define SEQ(p) ((struct detools_apply_patch_t *)(p))
#define INP(p) ((struct detools_apply_patch_in_place_t *)(p))

static int seq_init(void *s, cb_read r, cb_seek k, size_t n, cb_write w, void *a) { return detools_apply_patch_init(SEQ(s), r, k, n, w, a); }
static int seq_dump(void *s, cb_swrite w) { return detools_apply_patch_dump(SEQ(s), w); }
static int seq_restore(void *s, cb_sread r) { return detools_apply_patch_restore(SEQ(s), r); }
static size_t seq_patch_offset(void *s) { return detools_apply_patch_get_patch_offset(SEQ(s)); }
static size_t seq_to_offset(void *s) { return detools_apply_patch_get_to_offset(SEQ(s)); }
static int seq_process(void *s, const uint8_t *b, size_t n) { return detools_apply_patch_process(SEQ(s), b, n); }
static int seq_finalize(void *s) { return detools_apply_patch_finalize(SEQ(s)); }
static int inp_init(void *s, cb_mread r, cb_mwrite w, cb_merase e, cb_stepset ss, cb_stepget sg, size_t n, void *a) { return detools_apply_patch_in_place_init(INP(s), r, w, e, ss, sg, n, a); }
static int inp_process(void *s, const uint8_t *b, size_t n) { return detools_apply_patch_in_place_process(INP(s), b, n); }
static int inp_finalize(void *s) { return detools_apply_patch_in_place_finalize(INP(s)); }

const struct Api CAT(api_, VARIANT) = {
    .name = STR(VARIANT),
    .has_none = DETOOLS_CONFIG_COMPRESSION_NONE,
    .has_lzma = DETOOLS_CONFIG_COMPRESSION_LZMA,
    .has_crle = DETOOLS_CONFIG_COMPRESSION_CRLE,
    .has_hs = DETOOLS_CONFIG_COMPRESSION_HEATSHRINK,
    .has_files = DETOOLS_CONFIG_FILE_IO,
#if DETOOLS_CONFIG_COMPRESSION_HEATSHRINK == 1
    .hs_dynamic = HEATSHRINK_DYNAMIC_ALLOC,
#if HEATSHRINK_DYNAMIC_ALLOC == 0
    .hs_window = HEATSHRINK_STATIC_WINDOW_BITS,
    .hs_lookahead = HEATSHRINK_STATIC_LOOKAHEAD_BITS,
#endif
#endif
    .seq_size = sizeof(struct detools_apply_patch_t),
    .inp_size = sizeof(struct detools_apply_patch_in_place_t),
    .seq_init = seq_init, .seq_dump = seq_dump, .seq_restore = seq_restore,
    .seq_patch_offset = seq_patch_offset, .seq_to_offset = seq_to_offset,
    .seq_process = seq_process, .seq_finalize = seq_finalize,
    .inp_init = inp_init, .inp_process = inp_process, .inp_finalize = inp_finalize,
    .seq_callbacks = detools_apply_patch_callbacks,
    .inp_callbacks = detools_apply_patch_in_place_callbacks,
#if DETOOLS_CONFIG_FILE_IO == 1
    .seq_filenames = detools_apply_patch_filenames,
    .inp_filenames = detools_apply_patch_in_place_filenames,
#endif
    .error_string = detools_error_as_string,
#ifdef WITH_CLI
    .cli_main = detools_cli_main,
#endif
};
