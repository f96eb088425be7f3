/* Stand-in for the part of HDiffPatch that detools uses.  Its sources are a
 * submodule that is not here; what detools does with it is what is tested. */
#ifndef STUB_HDIFF_H
#define STUB_HDIFF_H

#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdexcept>
#include <vector>

typedef unsigned long long hpatch_StreamPos_t;
typedef int hpatch_BOOL;
#define hpatch_TRUE 1
#define hpatch_FALSE 0

typedef struct hpatch_TStreamInput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    hpatch_BOOL (*read)(const struct hpatch_TStreamInput *stream, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *out_end);
} hpatch_TStreamInput;

typedef struct hpatch_TStreamOutput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    hpatch_BOOL (*read_writed)(const struct hpatch_TStreamOutput *stream, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *out_end);
    hpatch_BOOL (*write)(const struct hpatch_TStreamOutput *stream, hpatch_StreamPos_t pos, const unsigned char *data, const unsigned char *data_end);
} hpatch_TStreamOutput;

typedef FILE *hpatch_FileHandle;

typedef struct hpatch_TFileStreamOutput {
    hpatch_TStreamOutput base;
    hpatch_FileHandle m_file;
    hpatch_StreamPos_t out_pos;
    hpatch_StreamPos_t out_length;
    hpatch_BOOL fileError;
    hpatch_BOOL is_random_out;
} hpatch_TFileStreamOutput;

typedef struct hpatch_compressedDiffInfo {
    hpatch_StreamPos_t newDataSize;
    hpatch_StreamPos_t oldDataSize;
    int compressedCount;
    char compressType[260];
} hpatch_compressedDiffInfo;

typedef struct hdiff_TCompress hdiff_TCompress;
typedef struct hpatch_TDecompress hpatch_TDecompress;

void mem_as_hStreamInput(hpatch_TStreamInput *out, const unsigned char *mem, const unsigned char *mem_end);
void mem_as_hStreamOutput(hpatch_TStreamOutput *out, unsigned char *mem, unsigned char *mem_end);
void hpatch_TFileStreamOutput_init(hpatch_TFileStreamOutput *self);
hpatch_BOOL hpatch_TFileStreamOutput_tmpfile(hpatch_TFileStreamOutput *self, hpatch_StreamPos_t max_size);
hpatch_BOOL hpatch_TFileStreamOutput_close(hpatch_TFileStreamOutput *self);
hpatch_BOOL getCompressedDiffInfo(hpatch_compressedDiffInfo *out, const hpatch_TStreamInput *diff);
hpatch_BOOL patch_decompress_with_cache(const hpatch_TStreamOutput *out_new, const hpatch_TStreamInput *old, const hpatch_TStreamInput *diff,
                                        hpatch_TDecompress *plugin, unsigned char *cache, unsigned char *cache_end);
void create_compressed_diff(const unsigned char *new_p, const unsigned char *new_end, const unsigned char *old_p,
                            const unsigned char *old_end, std::vector<unsigned char> &diff,
                            const hdiff_TCompress *plugin, int match_score, int patch_type);
void create_compressed_diff_stream(const hpatch_TStreamInput *new_data, const hpatch_TStreamInput *old_data,
                                   const hpatch_TStreamOutput *diff, const hdiff_TCompress *plugin,
                                   size_t match_block_size, int patch_type);

#endif
