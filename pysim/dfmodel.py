"""Reference model of data format patches, independent of /repo: which values
an image holds, what a data format patch does to it, and building one from
arbitrary blocks."""
from model import Bad, Src, pack_size

M32 = (1 << 32) - 1


def le(b, at, n):
    return int.from_bytes(b[at:at + n], 'little')


def s32(v):
    v &= M32
    return v - (1 << 32) if v >> 31 else v


def pointer(v, at, rng, data, code):
    _, d0, d1, c0, c1 = rng
    if d0 <= v < d1:
        data[at] = v
    elif c0 <= v < c1:
        code[at] = v
    else:
        return False
    return True


# ------------------------------------------------------------------ scan
# rng: begin of the data part of the file, and the data and code addresses
def scan_arm(b, rng):
    data, code, bw, bl, ldr, ldrw = kinds = [{} for _ in range(6)]
    end = rng[0] + rng[2] - rng[1]
    p = 0

    def literal(out, at, off):
        x = at - (2 if at % 4 == 2 else 0) + off
        if x + 4 <= len(b):
            out[x] = s32(le(b, x, 4))

    while p < len(b):
        if rng[0] <= p < end:
            if p + 4 <= len(b):
                pointer(le(b, p, 4), p, rng, data, code)
            p += 4
            continue
        if p in ldr or p in ldrw:
            p += 4
            continue
        if p + 2 > len(b):
            break
        u, l = le(b, p, 2), le(b, p + 2, 2)
        whole = p + 4 <= len(b)
        n = 4
        if u >> 11 == 0x1e:
            if whole and l >> 14 == 3 and l & 0x1000:
                s, j1, j2 = u >> 10 & 1, l >> 13 & 1, l >> 11 & 1
                v = s << 23 | (1 - (j1 ^ s)) << 22 | (1 - (j2 ^ s)) << 21 | (u & 0x3ff) << 11 | l & 0x7ff
                bl[p] = v - (s << 24)
            elif whole and l >> 14 == 2:
                s = u >> 10 & 1
                v = s << 24 | (l >> 11 & 1) << 23 | (l >> 13 & 1) << 22 | (u & 0x3f) << 16 | (l & 0x7ff) << 5 | (u >> 6 & 15) << 1 | l >> 12 & 1
                bw[p] = v - (s << 25)
        elif u >> 11 == 9:
            literal(ldr, p, 4 * (u & 255) + 4)
            n = 2
        elif u == 0xf8df:
            if whole:
                literal(ldrw, p, (l & 0xfff) + 4)
        elif u & 0xfff0 in (0xfbb0, 0xfb90, 0xf8d0, 0xf850) or 0xfa00 <= u < 0xfa20 or 0xe900 <= u < 0xe940:
            pass
        else:
            n = 2
        p += n
    return kinds


def scan_a64(b, rng):
    data, code, _, bl, add, addg, ldr, adrp, st, st64 = kinds = [{} for _ in range(10)]
    end = rng[0] + rng[2] - rng[1]
    p = 0
    while p < len(b):
        if rng[0] <= p < end:
            if p + 8 > len(b):
                break
            p += 8 if pointer(le(b, p, 8), p, rng, data, code) else 4
            continue
        if p + 4 > len(b):
            break
        v = le(b, p, 4)
        t = v >> 24
        if t & 0xfc == 0x94:
            bl[p] = s32(v)
        elif t == 0x91:
            if v >> 5 & 31 == v & 31:
                add[p] = v >> 10 & 0xfff | (v >> 22 & 3) << 12 | (v & 31) << 14
            else:
                addg[p] = s32(v)
        elif t & 0x9f == 0x90:
            adrp[p] = v >> 29 & 3 | (v >> 5 & 0x7ffff) << 2 | (v & 31) << 21
        elif v >> 22 in (0x3e5, 0x2e5, 0xe5, 0xe4) or v >> 21 in (0x7c2, 0x5c2):
            ldr[p] = s32(v)
        elif v >> 22 in (0x2a4, 0x2e4):
            st[p] = s32(v)
        elif v >> 22 == 0x3e4:
            st64[p] = s32(v)
        p += 4
    return kinds


def scan_lx(b, rng):
    data, code, call0 = kinds = [{} for _ in range(3)]
    end = rng[0] + rng[2] - rng[1]
    p = 0
    while p < len(b):
        if rng[0] <= p < end:
            if p + 4 <= len(b):
                pointer(le(b, p, 4), p, rng, data, code)
            p += 4
            continue
        x = b[p]
        if x & 63 == 5:
            if p + 3 <= len(b):
                call0[p] = le(b, p, 3)
            p += 3
        elif x == 0x66 or x & 15 == 1:
            p += 3
        elif x & 15 == 4:
            p += 2
        else:
            p += 1
    return kinds


# ------------------------------------------------------------------ encode a value
def word(v):
    return (v & M32).to_bytes(4, 'little')


def quad(v):
    if not 0 <= v < 1 << 64:
        raise Bad('pointer')
    return v.to_bytes(8, 'little')


def arm_bl(v):
    if not -1 << 23 <= v < 1 << 23:
        raise Bad('bl')
    s = 1 if v < 0 else 0
    j1, j2 = 1 - (v >> 22 & 1 ^ s), 1 - (v >> 21 & 1 ^ s)
    return word(0xf000 | s << 10 | v >> 11 & 0x3ff | (0xd000 | j1 << 13 | j2 << 11 | v & 0x7ff) << 16)


def arm_bw(v):
    if not -1 << 24 <= v < 1 << 24:
        raise Bad('b.w')
    i = v >> 5
    return word(0xf000 | (1 if v < 0 else 0) << 10 | (v >> 1 & 15) << 6 | i >> 11 & 0x3f
                | (0x8000 | (i >> 17 & 1) << 13 | (v & 1) << 12 | (i >> 18 & 1) << 11 | i & 0x7ff) << 16)


def a64_add(v):
    return word(0x91000000 | (v >> 12 & 3) << 22 | (v & 0xfff) << 10 | (v >> 14 & 31) * 33)


def a64_adrp(v):
    return word(0x90000000 | (v & 3) << 29 | (v >> 2 & 0x7ffff) << 5 | v >> 21 & 31)


def lx_call(v):
    if not -1 << 31 <= v < 1 << 31:
        raise Bad('call0')
    return word(v)[:3]


# scan, then per kind: encoder, bytes cleared in the from-data, limits of a value
FORMATS = [
    (scan_arm, [(word, 4, 32), (word, 4, 32), (arm_bw, 4, 25), (arm_bl, 4, 24), (word, 4, 32), (word, 4, 32)]),
    (scan_a64, [(quad, 8, -64), (quad, 8, -64), (word, 4, 32), (word, 4, 32), (a64_add, 4, -19), (word, 4, 32), (word, 4, 32),
                (a64_adrp, 4, -26), (word, 4, 32), (word, 4, 32)]),
    (scan_lx, [(word, 4, 32), (word, 4, 32), (lx_call, 3, -24)]),
]


def usize(s):
    return s.size() & (1 << 64) - 1


def put_usize(v):
    return pack_size(v - (1 << 64) if v >> 63 else v)


def read(fmt, b):
    """-> address ranges, one list of blocks for each kind"""
    if not 0 <= fmt < len(FORMATS):
        raise Bad('data format')
    s = Src(b)
    rng, heads = [0] * 5, [[], []]
    have = [False, False]
    for i, (lo, hi) in enumerate(((0, 3), (3, 5))):
        have[i] = s.take(1) == b'\1'
        if have[i]:
            rng[lo:hi] = [usize(s) for _ in range(lo, hi)]
    head = lambda: [(s.size(), s.size(), s.size()) for _ in range(s.size())]
    heads = [head() if h else [] for h in have] + [head() for _ in FORMATS[fmt][1][2:]]
    kinds = [[(f, t, [s.size() for _ in range(n)]) for f, t, n in h] for h in heads]
    if s.p != len(b):
        raise Bad('data format patch has %d bytes more' % (len(b) - s.p))
    return rng, kinds


def heads(fmt, b):
    """where the blocks go, as far as can be read"""
    if not 0 <= fmt < len(FORMATS):
        return []
    s, out = Src(b), []
    try:
        have = []
        for n in (3, 2):
            have.append(s.take(1) == b'\1')
            for _ in range(n if have[-1] else 0):
                s.size()
        for h in have + [True] * (len(FORMATS[fmt][1]) - 2):
            for _ in range(s.size() if h else 0):
                s.size()
                out.append(s.size())
                s.size()
    except Bad:
        pass
    return out


def write(fmt, rng, kinds):
    out = b''
    have = rng[2] != 0, rng[4] != 0
    out += b'\1' + b''.join(put_usize(v) for v in rng[:3]) if have[0] else b'\0'
    out += b'\1' + b''.join(put_usize(v) for v in rng[3:]) if have[1] else b'\0'
    use = [k for i, k in enumerate(kinds) if i >= 2 or have[i]]
    for k in use:
        out += pack_size(len(k)) + b''.join(pack_size(f) + pack_size(t) + pack_size(len(v)) for f, t, v in k)
    return out + b''.join(pack_size(x) for k in use for _, _, v in k for x in v)


def decode(fmt, frm, patch, to_size):
    """-> from-data with the blocks cleared, data to add to the to-data"""
    rng, kinds = read(fmt, patch)
    scan, how = FORMATS[fmt]
    clear, add = bytearray(frm), bytearray(to_size)
    for found, (enc, width, _), blocks in zip(scan(frm, rng), how, kinds):
        at = sorted(found)
        for first, to, values in blocks:
            if first < 0 or first + len(values) > len(at) or to < 0:
                raise Bad('block outside')
            for i, v in enumerate(values):
                a = at[first + i]
                clear[a:a + width] = bytes(width)
                x = enc(found[a] - v)
                t = to + a - at[first]
                if t + len(x) > to_size:
                    raise Bad('block outside')
                add[t:t + len(x)] = x
    return bytes(clear[:len(frm)]), bytes(add)


def build(r, fmt, frm, kw, to_size):
    """-> data format patch with arbitrary blocks for to-data of a size"""
    rng = [kw.get('from_' + n, 0) for n in ('data_offset_begin', 'data_begin', 'data_end', 'code_begin', 'code_end')]
    if rng[2] == 0:
        rng[:3] = [0] * 3
    if rng[4] == 0:
        rng[3:] = [0] * 2
    scan, how = FORMATS[fmt]
    used = bytearray(to_size)
    kinds = []
    for k, (found, (enc, width, bits)) in enumerate(zip(scan(frm, rng), how)):
        blocks = []
        at = sorted(found)
        for _ in range(r.range(0, 3) if at and (k >= 2 or rng[(2, 4)[k]]) else 0):
            first = r.range(0, len(at) - 1)
            n = r.range(1, min(len(at) - first, r.pick([1, 3, 12, 60])))
            span = at[first + n - 1] - at[first] + width
            if span > to_size:
                continue
            to = r.range(0, to_size - span)
            place = [to + at[first + i] - at[first] for i in range(n)]
            if any(any(used[p:p + width]) for p in place) or any(b - a < width for a, b in zip(place, place[1:])):
                continue
            for p in place:
                used[p:p + width] = b'\1' * width
            values = []
            for i in range(n):
                v = found[at[first + i]]
                w = r.pick([v, v + r.range(-300, 300), r.next()])
                w &= (1 << abs(bits)) - 1
                if bits > 0 and w >> bits - 1:
                    w -= 1 << bits
                values.append(v - w)
            blocks.append((first, to, values))
        kinds.append(blocks)
    return write(fmt, rng, kinds), sum(len(b) for b in kinds)
