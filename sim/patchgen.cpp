#include "patchgen.h"
#include <lzma.h>

void put_size(Bytes &out, i64 value)
{
    u8 b = 0;
    u64 v;
    if (value < 0) { b |= 0x40; v = (u64)-value; } else v = (u64)value;
    b |= v & 0x3f; v >>= 6;
    if (v) b |= 0x80;
    out.push_back(b);
    while (v) {
        b = v & 0x7f; v >>= 7;
        if (v) b |= 0x80;
        out.push_back(b);
    }
}

static void put_crle_size(Bytes &out, u64 v)
{
    do { u8 b = v & 0x7f; v >>= 7; if (v) b |= 0x80; out.push_back(b); } while (v);
}

static Bytes crle(const Bytes &d, u64 seed)
{
    Bytes out;
    Rng r(seed);
    int min_run = (int)r.pick({6, 6, 6, 2, 1, 20});
    bool odd = r.chance(30);     // extra splits, as other encoders might make
    bool empties = r.chance(8);  // zero-length segments, legal in the format
    size_t i = 0, start = 0;
    auto scattered = [&](size_t a, size_t b) {
        while (a < b) {
            size_t n = b - a;
            if (odd && r.chance(50)) n = (size_t)r.range(1, (i64)n);
            out.push_back(0); put_crle_size(out, n);
            out.insert(out.end(), d.begin() + a, d.begin() + a + n);
            a += n;
            if (empties && r.chance(30)) { out.push_back(0); put_crle_size(out, 0); }
        }
    };
    while (i < d.size()) {
        size_t j = i;
        while (j < d.size() && d[j] == d[i]) j++;
        size_t run = j - i;
        if (run >= (size_t)min_run) {
            if (odd && run > 1 && r.chance(30)) run = (size_t)r.range(1, (i64)run);
            scattered(start, i);
            if (empties && r.chance(20)) { out.push_back(1); put_crle_size(out, 0); out.push_back((u8)r.next()); }
            out.push_back(1); put_crle_size(out, run); out.push_back(d[i]);
            i += run; start = i;
        } else i = j;
    }
    scattered(start, d.size());
    return out;
}

static Bytes heatshrink(const Bytes &d, int w, int l, u64 seed)
{
    Bytes out;
    Rng r(seed);
    out.push_back((u8)((w - 4) << 4 | (l - 3)));
    unsigned acc = 0; int nb = 0;
    auto bits = [&](unsigned v, int n) {
        for (int i = n - 1; i >= 0; i--) {
            acc = acc << 1 | ((v >> i) & 1);
            if (++nb == 8) { out.push_back((u8)acc); acc = 0; nb = 0; }
        }
    };
    size_t win = (size_t)1 << w, look = (size_t)1 << l;
    int lit_pct = (int)r.pick({0, 5, 50, 100});
    int tries = (int)r.range(2, 12);
    // hash of last position per byte pair gives good matches cheaply
    std::vector<i64> last(65536, -1);
    size_t i = 0;
    while (i < d.size()) {
        size_t best = 0, bestdist = 0;
        if (!r.chance(lit_pct) && i > 0) {
            for (int t = 0; t < tries; t++) {
                size_t dist;
                if (t == 0) dist = 1;
                else if (t == 1 && i + 1 < d.size() && last[d[i] << 8 | d[i + 1]] >= 0) dist = i - (size_t)last[d[i] << 8 | d[i + 1]];
                else dist = (size_t)r.range(1, (i64)std::min(win, i));
                if (dist == 0 || dist > win || dist > i) continue;
                size_t n = 0;
                while (i + n < d.size() && n < look && d[i + n] == d[i + n - dist]) n++;
                if (n > best) { best = n; bestdist = dist; }
            }
        }
        if (best >= 1 && (best > 1 || r.chance(20))) {
            if (best > 1 && r.chance(10)) best = (size_t)r.range(1, (i64)best);
            bits(0, 1); bits((unsigned)(bestdist - 1), w); bits((unsigned)(best - 1), l);
        } else {
            best = 1;
            bits(1, 1); bits(d[i], 8);
        }
        for (size_t k = 0; k < best && i + k + 1 < d.size(); k++) last[d[i + k] << 8 | d[i + k + 1]] = (i64)(i + k);
        i += best;
    }
    if (nb) out.push_back((u8)(acc << (8 - nb)));
    return out;
}

static Bytes lzma_alone(const Bytes &d, i64 opt)
{
    lzma_options_lzma o;
    lzma_lzma_preset(&o, 0);
    o.dict_size = 4096u << (opt & 3);
    o.lc = (uint32_t)((opt >> 2) & 3) % 4; o.lp = (uint32_t)((opt >> 4) & 1); o.pb = (uint32_t)((opt >> 5) % 5);
    if (o.lc + o.lp > 4) o.lp = 0;
    o.mode = LZMA_MODE_FAST; o.mf = LZMA_MF_HC3; o.nice_len = 32; o.depth = 4;
    lzma_stream s = LZMA_STREAM_INIT;
    Bytes out(d.size() + d.size() / 2 + 4096);
    if (lzma_alone_encoder(&s, &o) != LZMA_OK) { fprintf(stderr, "lzma encoder init failed\n"); _Exit(99); }
    s.next_in = d.data(); s.avail_in = d.size();
    s.next_out = out.data(); s.avail_out = out.size();
    lzma_ret rc = lzma_code(&s, LZMA_FINISH);
    if (rc != LZMA_STREAM_END) { fprintf(stderr, "lzma encoder failed %d\n", rc); _Exit(99); }
    out.resize(out.size() - s.avail_out);
    lzma_end(&s);
    return out;
}

Bytes compress_body(const Bytes &body, int comp, int w, int l, u64 encseed, i64 lzma_opt)
{
    switch (comp) {
    case COMP_LZMA: return lzma_alone(body, lzma_opt);
    case COMP_CRLE: return crle(body, encseed);
    case COMP_HS: return heatshrink(body, w, l, encseed);
    default: return body;
    }
}

static u8 data_byte(int kind, u64 seed, u64 i)
{
    switch (kind) {
    case 0: return 0;
    case 1: return pbyte(seed, i);
    case 2: return (pbyte(seed, i) & 15) == 0 ? pbyte(seed + 1, i) : 0;   // sparse
    case 3: return pbyte(seed, i / 11);                                   // runs
    case 4: return (u8)"lorem ipsum dolor sit amet "[i % 27];
    case 5: return (u8)(seed);                                           // one value
    default: return pbyte(seed, i % 13);
    }
}

int pick_comp(Rng &r, const Api &api)
{
    for (;;) {
        int c = (int)r.pick({0, 0, 1, 2, 2, 4, 4, 4});
        if (c == 0 && api.has_none) return c;
        if (c == 1 && api.has_lzma && r.chance(60)) return c;   // lzma runs cost most
        if (c == 2 && api.has_crle) return c;
        if (c == 4 && api.has_hs) return c;
    }
}

bool comp_supported(const Api &api, int comp, int w, int l)
{
    switch (comp) {
    case COMP_NONE: return api.has_none;
    case COMP_LZMA: return api.has_lzma;
    case COMP_CRLE: return api.has_crle;
    case COMP_HS: return api.has_hs && (api.hs_dynamic || (w == api.hs_window && l == api.hs_lookahead));
    default: return false;
    }
}

static void pick_hs(Rng &r, const Api &api, i64 &w, i64 &l)
{
    if (api.hs_dynamic) { w = r.chance(50) ? r.range(4, 10) : r.range(4, 15); l = r.range(3, w - 1); }
    else { w = 8; l = 7; }
}

static i64 op_len(Rng &r, int scale)
{
    switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: return r.pick({(i64)1, (i64)2, (i64)63, (i64)64, (i64)65});
    case 2: return r.pick({(i64)127, (i64)128, (i64)129, (i64)255, (i64)256, (i64)257});
    case 3: return scale > 0 ? r.pick({(i64)511, (i64)512, (i64)513, (i64)8191, (i64)8192, (i64)1000}) : r.size(40);
    case 4: return scale > 1 ? r.range(1000, 20000) : r.size(300);
    default: return r.size(scale == 0 ? 60 : scale == 1 ? 300 : 1500);
    }
}

// cfg list "seq": 0 variant 1 comp 2 hs_w 3 hs_l 4 lzma_opt 5 encseed
//                 6 from_size 7 from_seed 8 from_style
void gen_seq(Plan &p, Rng &r, const Api &api, bool thorough, int comp_force, i64 max_to, const char *pre)
{
    std::string ns = std::string(pre) + "seq", no = std::string(pre) + "ops";
    i64 variant = 0;
    for (int i = 0; i < api_variant_count(); i++) if (&api_variant(i) == &api) variant = i;
    int comp = comp_force >= 0 ? comp_force : pick_comp(r, api);
    i64 w, l; pick_hs(r, api, w, l);
    int scale = (int)r.pick({0, 0, 0, 1, 1, 2});
    i64 from_size, style = r.pick({0, 0, 0, 1, 2, 3});
    bool huge = r.chance(12);
    if (huge) from_size = r.range(1 << 20, 0x7fffffff - 1);
    else from_size = r.chance(8) ? 0 : r.size(scale == 0 ? 300 : scale == 1 ? 3000 : 40000);
    PlanList &c = p.add(ns.c_str(), 1, false);
    c.v = {variant, comp, w, l, r.range(0, 255), (i64)(r.next() >> 8), from_size, (i64)(r.next() >> 16), style};
    PlanList &o = p.add(no.c_str(), 7, true);
    int nops = (int)(r.chance(6) ? 0 : r.range(1, scale == 0 ? 4 : 10));
    i64 pos = 0, total = 0;
    for (int i = 0; i < nops; i++) {
        i64 d = op_len(r, scale), e = op_len(r, scale);
        if (max_to && total + d + e > max_to) { d = std::min(d, max_to - total); if (d < 0) d = 0; e = 0; }
        if (r.permille(thorough ? 12 : 4) && !max_to && comp != COMP_LZMA) { if (r.chance(50)) d = r.range(60000, 1200000); else e = r.range(60000, 1200000); }
        if (d > from_size - pos) d = from_size - pos;
        pos += d; total += d + e;
        i64 adj = 0;
        if (r.chance(70)) {
            i64 target = huge && r.chance(60) ? (i64)(r.next() % (u64)(from_size + 1)) : std::min(from_size, std::max((i64)0, pos + r.range(-400, 400)));
            adj = target - pos;
            i64 lim = (1 << 27) - 1;
            if (adj > lim) adj = lim;
            if (adj < -lim) adj = -lim;
        }
        pos += adj;
        o.v.insert(o.v.end(), {d, r.pick({(i64)0, (i64)0, (i64)1, (i64)2, (i64)3, (i64)5}), r.range(0, 65535),
                               e, r.pick({(i64)1, (i64)1, (i64)3, (i64)4, (i64)5, (i64)6}), r.range(0, 65535), adj});
    }
}

SeqScenario build_seq(const Plan &p, const Api &api, const char *pre)
{
    SeqScenario s;
    std::string ns = std::string(pre) + "seq", no = std::string(pre) + "ops";
    const auto &c = p.get(ns.c_str());
    auto C = [&](size_t i) { return i < c.size() ? c[i] : 0; };
    s.comp = (int)C(1);
    if (s.comp != 0 && s.comp != 1 && s.comp != 2 && s.comp != 4) s.comp = 0;
    s.hs_w = (int)std::min<i64>(15, std::max<i64>(4, C(2)));
    s.hs_l = (int)std::min<i64>(s.hs_w - 1, std::max<i64>(3, C(3)));
    if (!comp_supported(api, s.comp, s.hs_w, s.hs_l)) { s.hs_w = 8; s.hs_l = 7; if (!comp_supported(api, s.comp, 8, 7)) s.comp = api.has_none ? 0 : 4; }
    s.from.size = std::min<i64>(std::max<i64>(0, C(6)), 0x7ffffffe);
    s.from.seed = (u64)C(7); s.from.style = (int)C(8);
    const auto &ops = p.get(no.c_str());
    struct Op { i64 d, dk, ds, e, ek, es, adj; };
    std::vector<Op> v;
    i64 pos = 0, total = 0;
    for (size_t i = 0; i + 7 <= ops.size(); i += 7) {
        Op o = {ops[i], ops[i+1], ops[i+2], ops[i+3], ops[i+4], ops[i+5], ops[i+6]};
        o.d = std::min(std::max<i64>(0, o.d), s.from.size - pos);
        o.e = std::max<i64>(0, o.e);
        i64 room = (16 << 20) - total;
        o.d = std::min(o.d, room); o.e = std::min(o.e, room - o.d);
        pos += o.d;
        i64 lim = (1 << 27) - 1;
        o.adj = std::max(-lim, std::min(lim, o.adj));
        if (pos + o.adj < 0) o.adj = -pos;
        if (pos + o.adj > s.from.size) o.adj = s.from.size - pos;
        pos += o.adj; total += o.d + o.e;
        s.max_seek = std::max(s.max_seek, o.adj < 0 ? -o.adj : o.adj);
        v.push_back(o);
    }
    // the apply is over at the first adjustment after the last byte
    while (!v.empty() && v.back().d + v.back().e == 0) v.pop_back();
    s.to.reserve((size_t)total); s.body.reserve((size_t)total + 64);
    s.patch.push_back((u8)s.comp);
    put_size(s.patch, total);
    s.header_size = s.patch.size(); s.encseed = (u64)C(5); s.lzma_opt = C(4);
    if (total == 0) return s;
    put_size(s.body, 0);
    pos = 0;
    for (auto &o : v) {
        s.marks.push_back(s.body.size());
        put_size(s.body, o.d);
        for (i64 i = 0; i < o.d; i++) {
            u8 b = data_byte((int)o.dk, (u64)o.ds, (u64)i);
            s.body.push_back(b);
            s.to.push_back((u8)(b + s.from.at(pos + i)));
        }
        pos += o.d;
        s.marks.push_back(s.body.size());
        put_size(s.body, o.e);
        for (i64 i = 0; i < o.e; i++) {
            u8 b = data_byte((int)o.ek, (u64)o.es, (u64)i);
            s.body.push_back(b); s.to.push_back(b);
        }
        s.marks.push_back(s.body.size());
        put_size(s.body, o.adj);
        pos += o.adj;
    }
    Bytes z = compress_body(s.body, s.comp, s.hs_w, s.hs_l, (u64)C(5), C(4));
    s.patch.insert(s.patch.end(), z.begin(), z.end());
    return s;
}

// cfg "inp": 0 variant 1 comp 2 hs_w 3 hs_l 4 lzma_opt 5 encseed 6 segment_size
//   7 memory_segments 8 shift_segments 9 from_size 10 to_size 11 from_seed
//   12 from_style 13 device_extra
// "segops" stride 8: [segment, diff_len, kind, seed, extra_len, kind, seed, adj-target]
void gen_inp(Plan &p, Rng &r, const Api &api, bool thorough, int comp_force, const char *pre)
{
    std::string ns = std::string(pre) + "inp", no = std::string(pre) + "segops";
    i64 variant = 0;
    for (int i = 0; i < api_variant_count(); i++) if (&api_variant(i) == &api) variant = i;
    int comp = comp_force >= 0 ? comp_force : pick_comp(r, api);
    i64 w, l; pick_hs(r, api, w, l);
    i64 seg;
    switch (r.range(0, 7)) {
    case 0: seg = r.range(1, 16); break;
    case 1: seg = r.pick({(i64)127, (i64)128, (i64)129, (i64)256}); break;
    case 2: seg = r.range(200, 700); break;
    case 3: seg = thorough ? r.range(1, 4096) : r.range(1, 1500); break;
    default: seg = 1ll << r.range(3, 9); break;
    }
    i64 nseg = r.range(2, r.chance(20) ? 24 : 9);
    if (r.chance(1)) {                                     // beyond 16 bit sizes, or beyond 8 bit step numbers
        if (r.chance(50)) { seg = r.pick({(i64)4096, (i64)16384, (i64)32768, (i64)65536, (i64)100000}); nseg = r.range(2, std::min<i64>(5, 262144 / seg)); }
        else { seg = r.range(1, 8); nseg = r.range(60, 300); }
    }
    i64 mem = seg * nseg;
    i64 shift = r.chance(50) ? 1 : r.range(1, nseg);   // nseg: everything shifted out
    if (r.chance(4)) shift = 0;                            // nothing is moved
    i64 from_size;
    if (r.chance(50)) from_size = std::max<i64>(0, (nseg - shift) * seg - (r.chance(50) ? 0 : r.range(0, seg)));
    else from_size = r.range(0, mem);
    i64 to_size = r.chance(30) ? mem - (r.chance(50) ? 0 : r.range(0, seg)) : r.range(0, mem);
    if (r.chance(4)) to_size = 0;
    PlanList &c = p.add(ns.c_str(), 1, false);
    c.v = {variant, comp, w, l, r.range(0, 255), (i64)(r.next() >> 8), seg, nseg, shift, from_size, to_size,
           (i64)(r.next() >> 16), r.pick({(i64)0, (i64)0, (i64)2, (i64)3}), r.chance(30) ? r.range(1, 300) : 0};
    PlanList &o = p.add(no.c_str(), 8, true);
    i64 tsegs = (to_size + seg - 1) / seg;
    for (i64 s = 0; s < tsegs; s++) {
        int n = (int)(r.chance(60) ? 1 : r.range(0, 4));
        for (int i = 0; i < n; i++)
            o.v.insert(o.v.end(), {s, r.chance(60) ? seg : r.size(seg), r.pick({(i64)0, (i64)0, (i64)1, (i64)2, (i64)3}), r.range(0, 65535),
                                   r.chance(40) ? 0 : r.size(seg), r.pick({(i64)1, (i64)1, (i64)3, (i64)4, (i64)5}), r.range(0, 65535),
                                   r.range(0, 1 << 20)});
    }
}

InpScenario build_inp(const Plan &p, const Api &api, const char *pre)
{
    InpScenario s;
    std::string ns = std::string(pre) + "inp", no = std::string(pre) + "segops";
    const auto &c = p.get(ns.c_str());
    auto C = [&](size_t i) { return i < c.size() ? c[i] : 0; };
    auto clamp = [](i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; };
    s.comp = (int)C(1);
    if (s.comp != 0 && s.comp != 1 && s.comp != 2 && s.comp != 4) s.comp = 0;
    s.hs_w = (int)clamp(C(2), 4, 15); s.hs_l = (int)clamp(C(3), 3, s.hs_w - 1);
    if (!comp_supported(api, s.comp, s.hs_w, s.hs_l)) { s.hs_w = 8; s.hs_l = 7; if (!comp_supported(api, s.comp, 8, 7)) s.comp = api.has_none ? 0 : 4; }
    i64 seg = clamp(C(6), 1, 1 << 17), nseg = clamp(C(7), 1, 400), sh = clamp(C(8), 0, nseg);
    s.segment_size = seg; s.memory_size = seg * nseg; s.shift_size = sh * seg;
    i64 from_size = clamp(C(9), 0, s.memory_size), to_size = clamp(C(10), 0, s.memory_size);
    From f; f.size = from_size; f.seed = (u64)C(11); f.style = (int)C(12);
    for (i64 i = 0; i < from_size; i++) s.from.push_back(f.at(i));
    s.device_size = s.memory_size + clamp(C(13), 0, 100000);

    s.patch.push_back((u8)(0x10 | s.comp));
    put_size(s.patch, s.memory_size); put_size(s.patch, seg); put_size(s.patch, s.shift_size);
    put_size(s.patch, from_size); put_size(s.patch, to_size);
    s.to_segments = (int)((to_size + seg - 1) / seg);
    i64 shifted = std::min(from_size, s.memory_size - s.shift_size); // from bytes that survive
    s.shift_steps = sh ? (int)((shifted + seg - 1) / seg) : 0;
    s.header_size = s.patch.size(); s.encseed = (u64)C(5); s.lzma_opt = C(4);
    if (to_size == 0) return s;

    const auto &ops = p.get(no.c_str());
    for (i64 k = 0; k < s.to_segments; k++) {
        i64 segto = std::min(seg, to_size - k * seg), pos = 0;
        i64 lo = std::max(seg * (k + 1), s.shift_size), hi = s.shift_size + shifted; // readable memory
        i64 at = lo;
        s.marks.push_back(s.body.size());
        put_size(s.body, 0);
        std::vector<const i64 *> mine;
        for (size_t i = 0; i + 8 <= ops.size(); i += 8) if (ops[i] == k) mine.push_back(&ops[i]);
        static const i64 fill[8] = {0, 0, 0, 0, 1ll << 40, 1, 77, 0};
        for (size_t n = 0; n <= mine.size() && pos < segto; n++) {
            const i64 *o = n < mine.size() ? mine[n] : fill;
            i64 d = clamp(o[1], 0, std::max<i64>(0, std::min(segto - pos, hi - at)));
            i64 e = clamp(o[4], 0, segto - pos - d);
            if (n == mine.size()) e = segto - pos - d;
            s.marks.push_back(s.body.size());
            put_size(s.body, d);
            for (i64 i = 0; i < d; i++) {
                u8 b = data_byte((int)o[2], (u64)o[3], (u64)i);
                s.body.push_back(b);
                s.to.push_back((u8)(b + s.from[(size_t)(at + i - s.shift_size)]));
            }
            at += d;
            s.marks.push_back(s.body.size());
            put_size(s.body, e);
            for (i64 i = 0; i < e; i++) {
                u8 b = data_byte((int)o[5], (u64)o[6] + (u64)k, (u64)i);
                s.body.push_back(b); s.to.push_back(b);
            }
            pos += d + e;
            i64 target = hi > lo ? lo + (o[7] < 0 ? -o[7] : o[7]) % (hi - lo + 1) : lo;
            i64 adj = target - at;
            s.marks.push_back(s.body.size());
            put_size(s.body, adj);
            at += adj;
        }
    }
    Bytes z = compress_body(s.body, s.comp, s.hs_w, s.hs_l, (u64)C(5), C(4));
    s.patch.insert(s.patch.end(), z.begin(), z.end());
    return s;
}
