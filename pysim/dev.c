/* Object sizes of the C library for the Python side of the campaign. */
#include "detools.h"

unsigned long dev_seq_size(void) { return sizeof(struct detools_apply_patch_t); }
unsigned long dev_inp_size(void) { return sizeof(struct detools_apply_patch_in_place_t); }
