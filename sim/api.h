// Table of the public C API, one per build variant of the code under test.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*cb_read)(void *, uint8_t *, size_t);
typedef int (*cb_write)(void *, const uint8_t *, size_t);
typedef int (*cb_seek)(void *, int);
typedef int (*cb_mread)(void *, void *, uintptr_t, size_t);
typedef int (*cb_mwrite)(void *, uintptr_t, void *, size_t);
typedef int (*cb_merase)(void *, uintptr_t, size_t);
typedef int (*cb_sread)(void *, void *, size_t);
typedef int (*cb_swrite)(void *, const void *, size_t);
typedef int (*cb_stepset)(void *, int);
typedef int (*cb_stepget)(void *, int *);

struct Api {
    const char *name;
    int has_none, has_lzma, has_crle, has_hs, has_files;
    int hs_dynamic, hs_window, hs_lookahead;
    size_t seq_size, inp_size;
    int (*seq_init)(void *, cb_read, cb_seek, size_t, cb_write, void *);
    int (*seq_dump)(void *, cb_swrite);
    int (*seq_restore)(void *, cb_sread);
    size_t (*seq_patch_offset)(void *);
    size_t (*seq_to_offset)(void *);
    int (*seq_process)(void *, const uint8_t *, size_t);
    int (*seq_finalize)(void *);
    int (*inp_init)(void *, cb_mread, cb_mwrite, cb_merase, cb_stepset, cb_stepget, size_t, void *);
    int (*inp_process)(void *, const uint8_t *, size_t);
    int (*inp_finalize)(void *);
    int (*seq_callbacks)(cb_read, cb_seek, cb_read, size_t, cb_write, void *);
    int (*inp_callbacks)(cb_mread, cb_mwrite, cb_merase, cb_stepset, cb_stepget, cb_read, size_t, void *);
    int (*seq_filenames)(const char *, const char *, const char *);
    int (*inp_filenames)(const char *, const char *, cb_stepset, cb_stepget);
    const char *(*error_string)(int);
    int (*cli_main)(int, const char **);
};
#ifdef __cplusplus
}
#endif
