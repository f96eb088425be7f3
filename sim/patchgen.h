// Reference model of the patch formats: builds a patch and the expected
// result from an explicit list of operations, independently of the repository.
#pragma once
#include "core.h"
#include "api.h"

enum { COMP_NONE = 0, COMP_LZMA = 1, COMP_CRLE = 2, COMP_HS = 4 };

// From-data: PRNG content, possibly huge and never materialised.
struct From {
    i64 size = 0; u64 seed = 0; int style = 0;
    u8 at(i64 p) const {
        switch (style) {
        case 1: return 0;
        case 2: return (u8)(p / 7);
        case 3: return pbyte(seed, p / 5) & 3;
        default: return pbyte(seed, (u64)p);
        }
    }
};

struct SeqScenario {
    From from;
    int comp = 0;
    int hs_w = 8, hs_l = 7;
    Bytes to;
    Bytes body;              // before compression
    Bytes patch;
    size_t header_size = 0;
    i64 max_seek = 0;
    u64 encseed = 0; i64 lzma_opt = 0;
    std::vector<size_t> marks; // interesting body offsets (before compression)
};

struct InpScenario {
    int comp = 0;
    int hs_w = 8, hs_l = 7;
    i64 memory_size = 0, segment_size = 0, shift_size = 0;
    Bytes from, to;
    Bytes body, patch;
    i64 device_size = 0;     // >= memory_size
    int shift_steps = 0, to_segments = 0;
    std::vector<size_t> marks;
    size_t header_size = 0;
    u64 encseed = 0; i64 lzma_opt = 0;
};

void put_size(Bytes &out, i64 value);              // body/header size packing
Bytes compress_body(const Bytes &body, int comp, int hs_w, int hs_l, u64 encseed, i64 lzma_opt);

// cfg lists and builders; gen_* adds lists "seq"/"ops" or "inp"/"segops".
void gen_seq(Plan &p, Rng &r, const Api &api, bool thorough, int comp_force = -1, i64 max_to = 0, const char *pre = "");
SeqScenario build_seq(const Plan &p, const Api &api, const char *pre = "");
void gen_inp(Plan &p, Rng &r, const Api &api, bool thorough, int comp_force = -1, const char *pre = "");
InpScenario build_inp(const Plan &p, const Api &api, const char *pre = "");

// variants of the code under test
const Api &api_variant(i64 n);
int api_variant_count();
const Api &api_by_name(const char *name);
int pick_comp(Rng &r, const Api &api);
bool comp_supported(const Api &api, int comp, int w, int l);
