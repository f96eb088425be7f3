"""Reference model of the patch formats, written from the format description
and independent of /repo: builds patches from operations, and applies any
patch without data format."""
import bz2, lzma, struct
import heatshrink2
import lz4.frame
import zstandard

COMP = ['none', 'lzma', 'crle', 'bz2', 'heatshrink', 'zstd', 'lz4']


class Bad(Exception):
    pass


def pack_size(v):
    out = bytearray()
    b = 0x40 if v < 0 else 0
    v = abs(v)
    b |= v & 0x3f
    v >>= 6
    while v:
        out.append(b | 0x80)
        b = v & 0x7f
        v >>= 7
    out.append(b)
    return bytes(out)


class Src:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad('short')
        self.p += n
        return self.b[self.p - n:self.p]

    def size(self):
        b = self.take(1)[0]
        neg, v, sh = b & 0x40, b & 0x3f, 6
        while b & 0x80:
            b = self.take(1)[0]
            v |= (b & 0x7f) << sh
            sh += 7
        return -v if neg else v


def usize(v):
    out = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        out.append(b | (0x80 if v else 0))
        if not v:
            return bytes(out)


def crle(body, rng):
    out, i = bytearray(), 0
    while i < len(body):
        j = i
        while j < len(body) and body[j] == body[i] and j - i < 5000:
            j += 1
        if j - i >= 3 and (j - i >= 6 or rng.chance(50)):
            if rng.chance(20):
                j = i + rng.range(1, j - i)
            out += b'\1' + usize(j - i) + body[i:i + 1]
        else:
            j = i + 1
            lim = i + (rng.size(3000) or 1)
            while j < len(body) and j < lim and body[j:j + 6] != body[j:j + 1] * 6:
                j += 1
            out += b'\0' + usize(j - i) + body[i:j]
        i = j
        if i < len(body) and rng.chance(3):
            out += b'\0\0'
    return bytes(out)


def uncrle(data, limit=None):
    out, i = bytearray(), 0
    while i < len(data):
        kind = data[i]
        i += 1
        v, sh = 0, 0
        while True:
            if i >= len(data):
                raise Bad('short')
            b = data[i]
            i += 1
            v |= (b & 0x7f) << sh
            sh += 7
            if not b & 0x80:
                break
        if kind == 0:
            if i + v > len(data):
                raise Bad('short')
            out += data[i:i + v]
            i += v
        elif kind == 1:
            if i >= len(data):
                raise Bad('short')
            if limit is not None and len(out) + v > limit:
                raise Bad('bomb')
            out += data[i:i + 1] * v
            i += 1
        else:
            raise Bad('kind')
        if limit is not None and len(out) > limit:
            raise Bad('bomb')
    return bytes(out)


def compress(name, body, rng):
    if name == 'none':
        return body
    if name == 'lzma':
        return lzma.compress(body, format=lzma.FORMAT_ALONE, preset=rng.pick([0, 0, 1, 6]))
    if name == 'crle':
        return crle(body, rng)
    if name == 'bz2':
        return bz2.compress(body, rng.range(1, 9))
    if name == 'heatshrink':
        w = rng.range(4, 12)
        l = rng.range(3, w - 1)
        return bytes([(w - 4) << 4 | (l - 3)]) + heatshrink2.compress(body, window_sz2=w, lookahead_sz2=l)
    if name == 'zstd':
        return zstandard.ZstdCompressor(level=rng.range(1, 12), write_content_size=bool(rng.range(0, 1)),
                                        write_checksum=bool(rng.range(0, 1))).compress(body)
    if name == 'lz4':
        return lz4.frame.compress(body, content_checksum=bool(rng.range(0, 1)), store_size=bool(rng.range(0, 1)),
                                  block_linked=bool(rng.range(0, 1)))
    raise AssertionError(name)


def decompress(name, data):
    try:
        if name == 'none':
            return data
        if name == 'lzma':
            d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise Bad('lzma end')
            return out
        if name == 'crle':
            return uncrle(data)
        if name == 'bz2':
            d = bz2.BZ2Decompressor()
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise Bad('bz2 end')
            return out
        if name == 'heatshrink':
            return heatshrink2.decompress(data[1:], window_sz2=(data[0] >> 4) + 4, lookahead_sz2=(data[0] & 15) + 3)
        if name == 'zstd':
            d = zstandard.ZstdDecompressor().decompressobj()
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise Bad('zstd end')
            return out
        return lz4.frame.decompress(data)
    except Bad:
        raise
    except Exception as e:
        raise Bad('%s: %s' % (name, type(e).__name__))


def header(kind, comp, *sizes):
    return bytes([kind << 4 | COMP.index(comp)]) + b''.join(pack_size(s) for s in sizes)


# ------------------------------------------------------------------ build
def diff_of(to, frm):
    return bytes((a - b) & 255 for a, b in zip(to, frm))


def make_to(rng, frm, nz):
    """to-data of a diff over frm: nz permille of the bytes changed"""
    to = bytearray(frm)
    if nz:
        for i in range(len(to)):
            if rng.next() % 1000 < nz:
                to[i] = rng.next() & 255
    return bytes(to)


def build_sequential(ops, frm, comp, seed, trail=b'', df=None):
    """ops: rows [diff, change permille, extra, adjustment] -> patch, to, body
    df: number of the data format, its patch, its addition to the to-data"""
    rng = Rng_(seed)
    pos, to, body, bs = 0, bytearray(), bytearray(pack_size(0)), []
    ops = [o for o in ops] or []
    for d, nz, e, adj in ops:
        d = max(0, min(d, len(frm) - pos))
        t = make_to(rng, frm[pos:pos + d], nz)
        x = rng.bytes(max(0, e), rng.pick([256, 256, 4, 1]))
        if not t and not x:
            pass
        nxt = max(0, min(len(frm), pos + d + adj))
        diff = diff_of(t, frm[pos:pos + d])
        body += pack_size(d) + diff + pack_size(len(x)) + x + pack_size(nxt - pos - d)
        bs.append((d, diff, len(x), x, nxt - pos - d))
        to += t + x
        pos = nxt
    # operations after the last byte of to-data are not read
    while bs and bs[-1][0] == 0 and bs[-1][2] == 0:
        bs.pop()
    body = bytearray(pack_size(len(df[1])) + pack_size(df[0]) + df[1] if df else pack_size(0))
    for d, diff, n, x, a in bs:
        body += pack_size(d) + diff + pack_size(n) + x + pack_size(a)
    if not to:
        return header(0, comp, 0), b'', bs
    if df:
        to = bytes((a + b) & 255 for a, b in zip(to, df[2]))
    return header(0, comp, len(to)) + compress(comp, bytes(body) + trail, Rng_(seed ^ 0x5eed)), bytes(to), bs


def offt(v):
    return struct.pack('<Q', v if v >= 0 else -v | 1 << 63)


def uofft(b):
    x = struct.unpack('<Q', b)[0]
    return -(x & ~(1 << 63)) if x >> 63 else x


def build_bsdiff(bs, to, trail=(b'', b'', b'')):
    c = bz2.compress(b''.join(offt(d) + offt(n) + offt(a) for d, _, n, _, a in bs) + trail[0])
    d = bz2.compress(b''.join(b[1] for b in bs) + trail[1])
    e = bz2.compress(b''.join(b[3] for b in bs) + trail[2])
    return b'BSDIFF40' + offt(len(c)) + offt(len(d)) + offt(len(to)) + c + d + e


def build_in_place(ops, frm, to_size, mem, seg, shift, comp, seed, trail=b'', dfs=()):
    """-> patch, to"""
    rng = Rng_(seed)
    avail = frm[:max(0, mem - shift)]
    body, to = bytearray(), bytearray()
    it = iter(ops)
    done = False
    for i, off in enumerate(range(0, to_size, seg)):
        df = dfs[i] if i < len(dfs) else None
        body += pack_size(len(df[1])) + pack_size(df[0]) + df[1] if df and df[1] else pack_size(0)
        lo, hi = max(seg * (i + 1), shift), shift + len(avail)
        pos, left = lo, min(seg, to_size - off)
        while left:
            op = next(it, None)
            if op is None:
                op = [0, 0, left, 0]
            d, nz, e, adj = op
            d = max(0, min(d, left, hi - pos))
            src = avail[pos - shift:pos - shift + d]
            t = make_to(rng, src, nz)
            e = max(0, min(e, left - d))
            x = rng.bytes(e, rng.pick([256, 256, 4, 1]))
            left -= d + e
            nxt = max(lo, min(max(lo, hi), pos + d + adj))
            body += pack_size(d) + diff_of(t, src) + pack_size(e) + x + pack_size(nxt - pos - d)
            pos = nxt
            to += t + x
    h = header(1, comp, mem, seg, shift, len(frm), to_size)
    if not to_size:
        return h, b''
    return h + compress(comp, bytes(body) + trail, rng), bytes(to)


# ------------------------------------------------------------------ apply
def apply_sequential(patch, frm):
    s = Src(patch)
    h = s.take(1)[0]
    if h >> 4 & 7 != 0 or h & 15 >= len(COMP):
        raise Bad('type')
    to_size = s.size()
    if to_size == 0:
        if s.p != len(patch):
            raise Bad('trailing')
        return b''
    s = Src(decompress(COMP[h & 15], patch[s.p:]))
    n = s.size()
    if n < 0:
        raise Bad('data format')
    add = None
    if n:
        fmt = s.size()
        frm, add = dfmodel.decode(fmt, frm, s.take(n), to_size)
    to = body_apply(s, frm, 0, 0, len(frm), to_size)
    if add:
        to = bytes((a + b) & 255 for a, b in zip(to, add))
    if s.p != len(s.b):
        raise Bad('trailing')
    return to


def body_apply(s, mem, pos, lo, hi, n):
    to = bytearray()
    while len(to) < n:
        d = s.size()
        diff = s.take(d)
        if d and (pos < lo or pos + d > hi):
            raise Bad('from outside')
        to += bytes((a + b) & 255 for a, b in zip(diff, mem[pos:pos + d]))
        pos += d
        to += s.take(s.size())
        pos += s.size()
    if len(to) != n:
        raise Bad('too long')
    return bytes(to)


def in_place_geometry(patch):
    s = Src(patch)
    h = s.take(1)[0]
    if h >> 4 & 7 != 1 or h & 15 >= len(COMP):
        raise Bad('type')
    return COMP[h & 15], [s.size() for _ in range(5)], s.p


def apply_in_place(patch, frm):
    comp, (mem, seg, shift, from_size, to_size), p = in_place_geometry(patch)
    if from_size != len(frm) or to_size > mem or shift > mem or from_size > mem or seg <= 0 or shift < 0:
        raise Bad('geometry')
    if to_size == 0:
        if p != len(patch):
            raise Bad('trailing')
        return b''
    s = Src(decompress(comp, patch[p:]))
    image = bytearray(shift) + frm[:mem - shift]
    hi = len(image)
    for i, off in enumerate(range(0, to_size, seg)):
        if s.size() != 0:
            raise Bad('data format')
        lo = max(seg * (i + 1), shift)
        image[off:off + min(seg, to_size - off)] = body_apply(s, image, lo, lo, hi, min(seg, to_size - off))
    if s.p != len(s.b):
        raise Bad('trailing')
    return bytes(image[:to_size])


def apply_bsdiff(patch, frm):
    if patch[:8] != b'BSDIFF40' or len(patch) < 32:
        raise Bad('magic')
    u = lambda b: (lambda x: -(x & ~(1 << 63)) if x >> 63 else x)(struct.unpack('<Q', b)[0])
    cs, ds, n = u(patch[8:16]), u(patch[16:24]), u(patch[24:32])
    c, d, e = (Src(decompress('bz2', x)) for x in (patch[32:32 + cs], patch[32 + cs:32 + cs + ds], patch[32 + cs + ds:]))
    to, pos = bytearray(), 0
    while len(to) < n:
        a, b, adj = (u(c.take(8)) for _ in range(3))
        diff = d.take(a)
        if pos < 0 or pos + a > len(frm):
            raise Bad('from outside')
        to += bytes((x + y) & 255 for x, y in zip(diff, frm[pos:pos + a]))
        to += e.take(b)
        pos += a + adj
    if len(to) != n or any(x.p != len(x.b) for x in (c, d, e)):
        raise Bad('end')
    return bytes(to)


from core import Rng as Rng_
import dfmodel
