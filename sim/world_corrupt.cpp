// C09: damaged and hostile patches.
#include "inpdev.h"
#include "seqdev.h"

// "mut" stride 4: [kind, position, a, b]
static void gen_mut(Plan &p, Rng &r)
{
    PlanList &m = p.add("mut", 4, true);
    int n = (int)(r.chance(50) ? 1 : r.range(1, 5));
    for (int i = 0; i < n; i++)
        m.v.insert(m.v.end(), {r.pick({(i64)0, (i64)0, (i64)1, (i64)2, (i64)3, (i64)4, (i64)5, (i64)6, (i64)7, (i64)7, (i64)7, (i64)8, (i64)9, (i64)9, (i64)10, (i64)11, (i64)11, (i64)12, (i64)13, (i64)14}),
                               r.chance(40) ? r.range(0, 40) : (i64)(r.next() >> 40), (i64)(r.next() >> 40), r.range(0, 1 << 20)});
}

static i64 extreme(i64 a, i64 b)
{
    switch (a % 14) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (1 << 27) - 1;
    case 3: return -((1 << 27) - 1);
    case 4: return -(b % 300);
    case 5: return b % 300;
    case 6: return 0x7fffffff;
    case 7: return (i64)1 << 32;
    case 8: return -1;
    case 9: return (1 << 27) - 1 - b % 1000;
    case 10: return b % 70000;
    case 11: return -(b % 70000);
    case 12: return (i64)b << 20;
    default: return 128 + b % 3;
    }
}

static size_t size_len(const Bytes &b, size_t at)
{
    size_t n = 0;
    while (at + n < b.size() && (b[at + n] & 0x80)) n++;
    return at + n < b.size() ? n + 1 : n;
}

struct Body { Bytes body; std::vector<size_t> marks; int comp, w, l; u64 enc; i64 lz; Bytes header; std::vector<i64> hdr; };

static Bytes mutate(const Plan &p, Sim &s, Body b, u8 type)
{
    const auto &m = p.get("mut");
    // body-level damage first: what a buggy or hostile patch creator would emit
    bool body_changed = false, hdr_changed = false;
    auto hdr = b.hdr;
    Bytes raw_first;
    for (size_t i = 0; i + 4 <= m.size(); i += 4) {
        i64 k = m[i], pos = m[i+1] < 0 ? -m[i+1] : m[i+1], a = m[i+2] < 0 ? -m[i+2] : m[i+2], c = m[i+3] < 0 ? -m[i+3] : m[i+3];
        if ((k == 7 || k == 8) && !b.marks.empty() && b.body.size()) {
            size_t mk = b.marks[(size_t)pos % b.marks.size()];
            if (mk > b.body.size()) continue;
            if (k == 7) {   // replace one size field
                size_t n = size_len(b.body, mk);
                Bytes v; put_size(v, extreme(a, c));
                b.body.erase(b.body.begin() + (long)mk, b.body.begin() + (long)(mk + n));
                b.body.insert(b.body.begin() + (long)mk, v.begin(), v.end());
                CNT(s, "fault:hostile-size-field");
            } else {        // many empty operations with large adjustments
                Bytes v;
                i64 adj = extreme(a, c), cnt = 1 + c % 40;
                for (i64 j = 0; j < cnt; j++) { put_size(v, 0); put_size(v, 0); put_size(v, adj); }
                size_t base = b.marks[(size_t)pos % b.marks.size()];
                b.body.insert(b.body.begin() + (long)std::min(base, b.body.size()), v.begin(), v.end());
                CNT(s, "fault:hostile-empty-operations");
            }
            body_changed = true;
            b.marks.clear();    // offsets are stale now
        } else if (k == 9 && !hdr.empty()) {
            hdr[(size_t)pos % hdr.size()] = extreme(a, c); hdr_changed = true; CNT(s, "fault:hostile-header-field");
        } else if (k == 14 && !hdr.empty()) {       // a degenerate geometry
            for (size_t j = 0; j < hdr.size(); j++) if (((u64)a >> j) & 1) hdr[j] = (i64)(((u64)c >> 2 * j) & 3);
            hdr_changed = true; CNT(s, "fault:degenerate-header");
        } else if (k == 13 && b.body.size()) {     // data format blocks announced, which no device has
            Bytes v; put_size(v, 1 + a % 300);
            b.body.erase(b.body.begin());
            b.body.insert(b.body.begin(), v.begin(), v.end());
            body_changed = true; b.marks.clear(); CNT(s, "fault:data-format-announced");
        } else if (k == 10) {
            body_changed = true; b.body.resize(std::min<size_t>(b.body.size() + (size_t)(a % 200), 1 << 20), (u8)c); CNT(s, "fault:extra-body-data");
        }
    }
    Bytes out;
    out.push_back(type << 4 | b.comp);
    for (i64 v : hdr) put_size(out, v);
    (void)hdr_changed;
    if (b.body.size() || body_changed) {
        if (b.body.empty()) b.body.push_back(0);
        AllocPause pause;
        Bytes z = compress_body(b.body, b.comp, b.w, b.l, b.enc, b.lz);
        out.insert(out.end(), z.begin(), z.end());
    }
    // then damage in storage or transit
    for (size_t i = 0; i + 4 <= m.size(); i += 4) {
        i64 k = m[i], pos = m[i+1] < 0 ? -m[i+1] : m[i+1], a = m[i+2] < 0 ? -m[i+2] : m[i+2], c = m[i+3] < 0 ? -m[i+3] : m[i+3];
        size_t n = out.size();
        if (n == 0) break;
        size_t at = (size_t)pos % n, len = std::min<size_t>((size_t)(1 + a % 64), n - at);
        switch (k) {
        case 0: out[at] ^= (u8)(1u << (a & 7)); CNT(s, "fault:bit-flip"); break;
        case 1: out[at] = (u8)a; CNT(s, "fault:byte-replaced"); break;
        case 2: out.erase(out.begin() + (long)at, out.begin() + (long)(at + len)); CNT(s, "fault:bytes-lost"); break;
        case 3: { Bytes d(out.begin() + (long)at, out.begin() + (long)(at + len)); out.insert(out.begin() + (long)at, d.begin(), d.end()); CNT(s, "fault:bytes-duplicated"); break; }
        case 4: { size_t at2 = (size_t)c % n; for (size_t j = 0; j < len && at + j < n && at2 + j < n; j++) std::swap(out[at + j], out[at2 + j]); CNT(s, "fault:bytes-reordered"); break; }
        case 5: { Bytes d; for (size_t j = 0; j < len; j++) d.push_back(pbyte((u64)c, j)); out.insert(out.begin() + (long)at, d.begin(), d.end()); CNT(s, "fault:bytes-inserted"); break; }
        case 6: out.resize(at); CNT(s, "fault:truncated"); break;
        case 12: if (a & 1) out[0] = (u8)((out[0] & 0x8f) | (c & 7) << 4); else out[0] = (u8)((out[0] & 0xf0) | (c & 15)); CNT(s, "fault:other-type-or-compression"); break;
        case 11: for (size_t j = at; j < n; j++) out[j] = pbyte((u64)(a * 77 + c), j); CNT(s, "fault:tail-randomised"); break;
        }
    }
    return out;
}

// the documented header layout, read independently
static bool read_size(const Bytes &b, size_t &at, i64 &v)
{
    if (at >= b.size()) return false;
    u8 x = b[at++]; v = x & 0x3f; int off = 6;
    while (x & 0x80) {
        if (at >= b.size() || off > 24) return false;
        x = b[at++]; v |= (i64)(x & 0x7f) << off; off += 7;
    }
    return true;
}

Plan gen_C09(Rng &r, bool thorough)
{
    Plan p;
    const Api &api = api_variant(r.range(0, api_variant_count() - 1));
    bool inp = r.chance(50);
    if (inp) gen_inp(p, r, api, thorough); else gen_seq(p, r, api, thorough, -1, 8000);
    p.add("mode", 1, false).v = {r.chance(25) ? 1 : 0, r.range(0, 255), r.range(0, 1 << 20), r.chance(70) ? 0 : r.range(1, 3), inp, r.chance(80) ? 0 : r.range(0, 4000)};
    PlanList &c = p.add("chunks", 1, true);
    int style = (int)r.range(0, 3);
    if (style == 0) c.v = {1};
    else if (style == 1) c.v = {100000000};
    else { int n = (int)r.range(1, 12); for (int i = 0; i < n; i++) c.v.push_back(r.size(200)); }
    gen_mut(p, r);
    return p;
}

struct Outcome { int r; u64 h; size_t n; bool capped; u64 changes; };

static Outcome run_once(const Plan &p, Sim &s, const Api &api, const Bytes &patch, bool inp, const SeqScenario *ss, const InpScenario *is, u8 fill, i64 announced, i64 hdr_mem, i64 shift_bytes, i64 moved)
{
    Outcome o = {0, 0, 0, false, 0};
    int mode = p.at("mode", 0) == 1;
    i64 decl = (i64)patch.size() + p.at("mode", 5);
    Sim sub; sub.tracing = s.tracing; sub.work_limit = 1500000; sub.limit = 3000000;
    g_alloc.begin(fill); g_alloc.max_size = 4u << 20;
    if (!inp) {
        SeqDev d(&sub, ss);
        d.patch = patch; d.valid = false; d.sink_cap = 400000; d.probe_after_error = true;
        o.r = seq_apply(api, d, mode, p.get("chunks"), (size_t)std::max<i64>(0, decl), fill);
        o.n = d.sink.size(); o.capped = d.sink_full;
    } else {
        InpDev d(&sub, is);
        fill_device(d, (u64)p.at("mode", 2));
        d.patch = patch; d.valid = false; d.check_done = false; d.hdr_memory = hdr_mem;
        o.r = inp_session(api, d, mode, (int)(p.at("mode", 3) & 3), p.get("chunks"), (size_t)std::max<i64>(0, decl), fill);
        o.n = (size_t)d.total_written; o.changes = d.mutations;
        sub.mixbytes(d.mem.data(), d.mem.size());
    }
    size_t leaks = g_alloc.end(true);
    o.h = sub.h;
    s.events += sub.events; s.time_ns += sub.time_ns; s.mix(sub.h); s.mix((u64)o.r);
    for (size_t i = 0; i < sub.cnt.size(); i++) if (sub.cnt[i]) s.count((int)i, sub.cnt[i]);
    for (auto &t : sub.trace) s.trace.push_back(t);
    if (sub.failed) { s.fail(sub.vclass.c_str(), "%s", sub.vdetail.c_str()); return o; }
    leak_check(s, leaks);
    // what in-place writes beyond moving the from-data once is to-data
    if (announced >= 0 && (i64)o.n > announced + shift_bytes) s.fail("output-overrun", "%zu bytes written, the patch header announces %lld (and moves %lld)", o.n, (long long)announced, (long long)shift_bytes);
    if (o.r >= 0 && announced < 0) s.fail("truncation-accepted", "header incomplete but the apply returned %d", o.r);
    if (o.r >= 0 && announced >= 0 && (i64)o.r != announced) s.fail("wrong-return", "returned %d, header announces %lld", o.r, (long long)announced);
    if (o.r >= 0 && (i64)o.n < (i64)o.r + (o.r > 0 ? moved : 0)) s.fail("short-success", "returned %d but %zu bytes were written", o.r, o.n);
    return o;
}

void exec_C09(const Plan &p, Sim &s)
{
    bool inp = p.at("mode", 4) == 1;
    const Api &api = api_variant(inp ? p.at("inp", 0) : p.at("seq", 0));
    SeqScenario ss; InpScenario is; Body b;
    if (inp) {
        is = build_inp(p, api);
        b = {is.body, is.marks, is.comp, is.hs_w, is.hs_l, is.encseed, is.lzma_opt, {}, {is.memory_size, is.segment_size, is.shift_size, (i64)is.from.size(), (i64)is.to.size()}};
    } else {
        ss = build_seq(p, api);
        b = {ss.body, ss.marks, ss.comp, ss.hs_w, ss.hs_l, ss.encseed, ss.lzma_opt, {}, {(i64)ss.to.size()}};
    }
    Bytes patch = mutate(p, s, b, inp ? 1 : 0);
    s.mixbytes(patch.data(), patch.size());
    i64 announced = -1, hdr_mem = -1;
    size_t at = 1; i64 v = 0;
    bool ok = patch.size() > 0;
    i64 geo[3] = {0, 0, 0}; // segment size, shift size, from size
    if (ok && inp) { ok = read_size(patch, at, v); if (ok) hdr_mem = v; for (int i = 0; ok && i < 3; i++) { ok = read_size(patch, at, v); geo[i] = v; } }
    if (ok && read_size(patch, at, v)) announced = v;
    i64 shift_bytes = 0, moved = 0; // whole segments, and without the rest of the last one
    if (inp && announced > 0 && geo[0] > 0 && geo[1] > 0 && geo[1] <= hdr_mem) { i64 n = std::min(geo[2], hdr_mem - geo[1]); moved = n; shift_bytes = (n + geo[0] - 1) / geo[0] * geo[0]; }
    u8 fill = (u8)p.at("mode", 1);
    Outcome a = run_once(p, s, api, patch, inp, &ss, &is, fill, announced, hdr_mem, shift_bytes, moved);
    if (s.failed) return;
    // same patch on a device whose memory held something else before
    const Api &api2 = !strcmp(api.name, "S") ? api_by_name("Z") : !strcmp(api.name, "Z") ? api_by_name("S") : api;
    if (s.tracing) s.trace.push_back("       -- second run, different stale memory");
    Outcome c = run_once(p, s, api2, patch, inp, &ss, &is, (u8)(fill ^ 0xff), announced, hdr_mem, shift_bytes, moved);
    if (s.failed) return;
    if (a.r != c.r || a.h != c.h) s.fail("stale-memory", "result depends on stale memory: returned %d and %d", a.r, c.r);
    // what the device cannot apply is refused: another type, a compression it lacks, a data format
    int comp = patch.empty() ? 0 : patch[0] & 15, type = patch.empty() ? 0 : (patch[0] >> 4) & 7;
    bool lacks = !(comp == 0 && api.has_none) && !(comp == 1 && api.has_lzma) && !(comp == 2 && api.has_crle) && !(comp == 4 && api.has_hs);
    bool only13 = !b.body.empty();
    const auto &m = p.get("mut");
    for (size_t i = 0; i + 4 <= m.size(); i += 4) only13 = only13 && m[i] == 13;
    only13 = only13 && m.size() >= 4 && p.at("mode", 5) == 0;
    if (!patch.empty() && (type != (inp ? 1 : 0) || lacks)) {
        CNT(s, "outcome:not-for-this-device");
        if (a.r >= 0) s.fail("foreign-patch", "a patch of type %d and compression %d was applied: %d", type, comp, a.r);
        else if (a.n || a.changes) s.fail("foreign-patch", "a patch of type %d and compression %d was refused after something was changed", type, comp);
    } else if (only13 && a.r >= 0) s.fail("foreign-patch", "a patch with a data format was applied: %d", a.r);
    if (s.failed) return;
    if (a.r >= 0) CNT(s, "outcome:success"); else CNT(s, "outcome:error");
    if (a.capped) CNT(s, "outcome:output-limit");
    s.nontrivial = !p.get("mut").empty();
}
