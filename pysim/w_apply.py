"""C15, C16: the Python appliers on simulated streams."""
import gc, sys
from core import Plan, Faults, Stream, call, Rng
import model
import dfmodel
import images

MODES = ['healthy', 'fault', 'cut', 'short-from', 'damage', 'long-from', 'trailing', 'forged']


def gen_ops(r, from_size):
    big = r.chance(12)
    ops = []
    for _ in range(r.pick([0, 1, 1, 2, 3, 5, 8])):
        d = r.size(9000 if big else 600) if r.chance(80) else 0
        if r.chance(4):
            d = r.pick([4095, 4096, 4097, 8192])
        e = r.size(9000 if big else 400) if r.chance(60) else 0
        if r.chance(3):
            e = r.pick([4095, 4096, 4097, 8192])
        adj = r.range(-from_size, from_size) if r.chance(50) else r.range(-8, 8)
        ops += [d, r.pick([0, 0, 20, 300, 1000]), e, adj]
    return ops


def gen_large(r, from_size):
    """more than any buffer size in use"""
    ops = []
    for _ in range(r.pick([1, 1, 2, 3])):
        ops += [r.pick([0, 65535, 65536, 65537, r.size(150000)]), r.pick([0, 1, 20, 300]),
                r.pick([0, 0, 65536, 16384, r.size(150000)]), r.range(-from_size, from_size)]
    return ops


def gen_common(p, r, tier, large=False):
    chunks = []
    if large:
        chunks = r.pick([[], [], [4095], [65536, 100]])
    elif r.chance(60):
        chunks = r.pick([[1], [2], [3], [7], [16], [4095], [1, 4096], [r.range(1, 50) for _ in range(r.range(1, 6))]])
    p.add('chunks', chunks, 1, True)
    mode = r.pick([0, 1, 1, 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7])
    p.add('mode', [mode, r.range(0, 1000), r.range(0, 1 << 30)])
    rows = []
    for _ in range(r.pick([1, 1, 1, 2])):
        rows += [r.range(0, 1000), r.range(0, 11), r.pick([1, 1, 1, 2, 1000000]), r.pick([0, 0, 500, 999])]
    p.add('faults', rows if mode == 1 else [], 4, True)
    rows = []
    for _ in range(r.pick([1, 1, 2, 4])):
        rows += [r.range(0, 5), r.range(0, 1000), r.range(0, 255), r.size(40)]
    p.add('damage', rows if mode == 4 else [], 4, True)
    p.add('starts', [r.size(300), r.size(300), r.size(300)] if r.chance(15) else [], 3, True)


def gen15(p, r, tier):
    from_size = r.pick([0, 1, 5, r.size(300), r.size(3000), r.size(20000)])
    kind = r.pick([0, 0, 0, 0, 0, 0, 1, 2, 3, 3])
    large = kind < 2 and r.chance(2)
    if large:
        from_size = r.pick([65536, 65537, 131072, r.range(1, 300000)])
    p.add('cfg', [kind, r.range(0, 6), from_size, r.range(0, 1 << 40), r.range(0, 2)])
    p.add('ops', gen_large(r, from_size) if large else gen_ops(r, from_size), 4, True)
    gen_common(p, r, tier, large)
    p.add('align', [r.pick([4096, 8192, 8192, 12288, 512]), r.range(0, 1)] if kind == 0 and not large and r.chance(4) else [], 2, True)


def aligned(ops, frm, comp, seed, unit, whole):
    """-> operations whose compressed data (or patch) is a whole number of units, if some are found"""
    e, seen = 0, []
    for _ in range(14):
        patch, to, _ = model.build_sequential(ops + [[0, 0, e, 0]], frm, comp, seed)
        n = len(patch) - (0 if whole else len(model.header(0, comp, len(to))))
        if n % unit == 0 and n:
            return ops + [[0, 0, e, 0]], True
        seen.append((n, e))
        if len(seen) == 1:
            goal = n + -n % unit
            e = goal - n
            continue
        # a straight line through the last two, at least a byte away
        (n0, e0), (n1, e1) = seen[-2:]
        slope = (n1 - n0) / (e1 - e0) if e1 != e0 else 1
        step = (goal - n1) / (slope if .05 < slope < 2 else 1)
        e = max(0, e1 + (int(step) or (1 if goal > n1 else -1)))
    return ops, False


def gen16(p, r, tier):
    seg = r.pick([1, 2, 7, 16, 64, 64, 256, 500, 1024, 4096, 5000])
    nseg = r.range(1, 8 if seg > 500 else 14)
    large = r.chance(3)
    if large:
        seg, nseg = r.pick([(4096, r.range(17, 80)), (16384, r.range(5, 22)), (65536, r.range(2, 6)), (50000, r.range(2, 7))])
    mem = seg * nseg
    shift = seg * r.range(0, nseg)
    if large:
        shift = seg * r.range(1, max(1, nseg // 4))
    from_size = r.pick([mem, r.range(0, mem), max(0, mem - shift)])
    to_size = r.pick([mem, r.range(0, mem), r.range(0, mem), 0])
    p.add('cfg', [r.range(0, 6), mem, seg, shift, from_size, to_size, r.range(0, 1 << 40), r.pick([0, 0, 1, 100])])
    p.add('ops', gen_large(r, from_size) if large else gen_ops(r, from_size), 4, True)
    gen_common(p, r, tier, large)


def damage(patch, rows, seed):
    b = bytearray(patch)
    r = Rng(seed)
    for kind, at, val, n in rows:
        if not b:
            break
        i = at * len(b) // 1001
        if kind in (0, 5):
            b[min(i, len(b) - 1) if kind == 0 else min(len(b) - 1, at % 16)] ^= 1 << (val % 8)
        elif kind == 1:
            del b[i:i + max(1, n)]
        elif kind == 2:
            b[i:i] = b[i:i + max(1, n)]
        elif kind == 3:
            b[i:i + n] = r.bytes(n)
        elif kind == 4:
            b[min(len(b) - 1, at % 12)] = val
    return bytes(b)


def bomb(patch):
    """a damaged crle patch that expands without bound is left out"""
    try:
        if patch[0] & 15 != 2:
            return False
        s = model.Src(patch)
        s.take(1)
        for _ in range(5 if patch[0] >> 4 & 7 == 1 else 1):
            s.size()
        model.uncrle(patch[s.p:], 200000)
    except model.Bad as e:
        return str(e) == 'bomb'
    except IndexError:
        return False
    return False


def far(patch):
    """damaged data format blocks that point far away take as much memory, they are left out"""
    try:
        s = model.Src(patch)
        h = s.take(1)[0]
        if h >> 4 & 7:
            return False
        s.size()
        s = model.Src(model.decompress(model.COMP[h & 15], patch[s.p:]))
        n = s.size()
        if n <= 0:
            return False
        fmt = s.size()
        # what is there may be followed by anything
        s = dfmodel.heads(fmt, s.b[s.p:])
        return any(abs(t) > 1 << 24 for t in s)
    except (model.Bad, IndexError):
        return True


def leaks(sim, *streams):
    """nothing handed out by a stream is still held after the call"""
    gc.collect(0)
    for s in streams:
        for i in range(len(s.given)):
            # the list and the argument of getrefcount
            if sys.getrefcount(s.given[i]) > 2:
                sim.fail('resource kept', '%s: data read from it is still held after the call' % s.name)
        s.given = []


def crafted(r, ops, comp, seed):
    """a patch with arbitrary data format blocks -> from, patch, to, data format"""
    frm, _, kw = images.pair(r)
    fmt = images.NUMBERS[kw['data_format']]
    n = len(model.build_sequential(ops, frm, 'none', seed)[1])
    b, blocks = dfmodel.build(r, fmt, frm, kw, n)
    clear, add = dfmodel.decode(fmt, frm, b, n)
    patch, to, _ = model.build_sequential(ops, clear, comp, seed, b'', (fmt, b, add))
    return frm, patch, to, (fmt, b, add)


def exec15(plan, sim, detools):
    kind, comp, from_size, seed, alpha = (plan.get('cfg') + [0] * 5)[:5]
    comp = model.COMP[comp % 7]
    r = Rng(seed)
    apply_ = detools.apply_patch
    if kind == 2:
        frm, to, kw = images.pair(r, small=True)
        f, t, pf = (Stream(sim, n, d, None, m) for n, d, m in (('from', frm, 'r'), ('to', to, 'r'), ('patch', b'', 'w')))
        if call(sim, 'create', detools.create_patch, f, t, pf, comp, use_mmap=False, **kw)[0] != 'ok':
            sim.count('probe:create raised')
            return
        patch = bytes(pf.b)
        sim.count('probe:data format patch')
    elif kind == 3:
        frm, patch, to, df = crafted(r, plan.rows('ops'), comp, seed + 1)
        sim.count('probe:data format made by hand', 1 if df else 0)
    else:
        frm = r.bytes(max(0, from_size), (256, 4, 2)[alpha % 3])
        ops = plan.rows('ops')
        if plan.get('align') and kind == 0:
            unit, whole = (plan.get('align') + [0])[:2]
            ops, hit = aligned(ops, frm, comp, seed + 1, max(1, unit), whole & 1)
            sim.count('probe:patch of whole blocks', 1 if hit else 0)
        patch, to, bs = model.build_sequential(ops, frm, comp, seed + 1)
        if kind == 1:
            patch, apply_, comp = model.build_bsdiff(bs, to), detools.apply_patch_bsdiff, 'bsdiff'
    sim.count('probe:%s' % comp)
    sim.data(patch)
    sim.data(to)
    chunks = [] if kind == 1 else [c for c in plan.get('chunks') if c > 0]
    mode, at, mseed = (plan.get('mode') + [0] * 3)[:3]
    mode = MODES[mode % len(MODES)]
    sim.nontrivial = len(to) > 0
    starts = (plan.get('starts') + [0] * 3)[:3]
    if any(starts):
        sim.count('probe:streams not at their start')

    def go(what, frm_, patch_, faults):
        f = Stream(sim, 'from', frm_, faults, 'r').after(starts[0] if kind < 2 else 0)
        p = Stream(sim, 'patch', patch_, faults, 'r', chunks).after(starts[1])
        o = Stream(sim, 'to', b'', faults, 'w').after(starts[2])
        res = call(sim, what, apply_, f, p, o)
        leaks(sim, f, p)
        return res, o.data()

    if mode == 'trailing' and kind < 2 and to:
        junk = Rng(mseed).bytes(1 + at % 50)
        if kind == 1:
            cut = [junk if at % 3 == i else b'' for i in range(3)]
            patch2 = model.build_bsdiff(bs, to, cut)
        else:
            patch2 = model.build_sequential(ops, frm, comp, seed + 1, junk)[0]
        sim.count('fault:data left in the patch')
        res, _ = go(mode, frm, patch2, None)
        sim.check(res[0] == 'raised', 'data left in the patch accepted', '%s: %d bytes' % (comp, len(junk)))
    if mode == 'forged' and to:
        patch2, how = forge(patch, 'bsdiff' if kind == 1 else 0, at, mseed)
        if patch2 is not None and not (kind != 1 and bomb(patch2)):
            sim.count('fault:forged header')
            res, _ = go('damage', frm, patch2, None)
            sim.check(res[0] == 'raised', 'forged patch accepted', '%s: %s' % (comp, how))
    base = Faults(sim)
    res, out = go('apply', frm, patch, base)
    sim.check(res[0] == 'ok', 'valid patch rejected', '%s %s' % (comp, res[1]))
    sim.check(out == to, 'wrong result', '%s: %d bytes, first difference at %d' % (comp, len(out), first_diff(out, to)))
    sim.check(res[1] == len(to), 'wrong return value', '%s for %d' % (res[1], len(to)))
    judge(sim, mode, comp, plan, base.n, at, mseed, frm, patch, to, go, df=kind in (2, 3))


def forge(patch, kind, at, seed):
    """-> a patch whose header cannot be true of its data, what was done to it"""
    r = Rng(seed)
    some = r.pick([1, 1, 2, 63, 64, 8191, r.range(1, 1 << 20), 1 << 31, 1 << 40])
    if kind == 'bsdiff':
        to_size = model.uofft(patch[24:32])
        how = at % 5
        if how == 0:
            i = at // 5 % 8
            return patch[:i] + bytes([patch[i] ^ 1 << r.range(0, 7)]) + patch[i + 1:], 'magic'
        n = (None, -some, to_size + some, -to_size, max(1, to_size - some))[how]
        if n == to_size or n == 0:
            return None, ''
        if n < 0 and r.chance(50):
            return model.build_bsdiff([], b'')[:24] + model.offt(n) + model.build_bsdiff([], b'')[32:], 'to-size %d, no data' % n
        return patch[:24] + model.offt(n) + patch[32:], 'to-size %d instead of %d' % (n, to_size)
    s = model.Src(patch)
    h = s.take(1)[0]
    if at % 4 == 0:
        # the other patch types have other headers, they are not told apart by accident
        t = r.pick([3, 4, 5, 6, 7] + [1 - kind])
        return bytes([h & 0x8f | t << 4]) + patch[1:], 'patch type %d' % t
    if at % 4 == 1:
        c = r.range(7, 15)
        return bytes([h & 0xf0 | c]) + patch[1:], 'compression %d' % c
    sizes = [s.size() for _ in range((1, 5)[kind])]
    rest = patch[s.p:]
    to_size = sizes[-1]
    if kind == 0:
        i, n = 0, r.pick([-some, -some, -to_size, to_size + some, max(1, to_size - some)])
    else:
        i = r.pick([0, 1, 2, 2, 4, 4])
        mem, seg, shift = sizes[:3]
        n = r.pick(([-some, to_size - 1 - min(to_size - 1, some), shift - 1], [0, -some, -seg], [-some, mem + some],
                    None, [-some, -to_size, mem + some])[i])
        if i == 0 and not (n < to_size or n < shift):
            return None, ''
    if n == sizes[i]:
        return None, ''
    what = '%s %d instead of %d' % (('to-size', ('memory', 'segment', 'shift', 'from', 'to')[i])[kind], n, sizes[i])
    sizes[i] = n
    if at % 8 < 4 and kind == 0 and n < 0:
        rest = r.pick([b'', model.compress(model.COMP[h & 15], model.pack_size(0), r)])
        what += ', no data'
    return patch[:1] + b''.join(model.pack_size(x) for x in sizes) + rest, what


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def judge(sim, mode, comp, plan, nops, at, mseed, frm, patch, to, go, out_of=None, df=False):
    out_of = out_of or (lambda o: o)
    exact_or_raise = True
    faults = None
    f2, p2 = frm, patch
    if mode in ('healthy', 'trailing', 'forged'):
        return
    if mode == 'fault':
        faults = Faults(sim, [[1 + max(0, a) * nops // 1001, e, n, w] for a, e, n, w in plan.rows('faults')])
    elif mode == 'cut':
        p2 = patch[:at * len(patch) // 1001]
        if at > 900:
            p2 = patch[:max(0, len(patch) - (at - 900) // 4 - 1)]
        sim.count('fault:patch cut short')
    elif mode == 'short-from':
        f2 = frm[:at * len(frm) // 1001]
        sim.count('fault:from-data too short')
    elif mode == 'long-from':
        f2 = frm + Rng(mseed).bytes(at % 300)
        sim.count('fault:from-data longer')
    elif mode == 'damage':
        p2 = damage(patch, plan.rows('damage'), mseed)
        if p2 == patch or bomb(p2) or (df and far(p2)):
            return
        sim.count('fault:patch damaged')
        exact_or_raise = False
    res, out = go(mode, f2, p2, faults)
    sim.count('outcome:%s %s' % (mode, res[0]))
    if mode == 'fault' and not faults.fired:
        sim.check(res[0] == 'ok', 'raised without a fault', res[1])
    if res[0] == 'ok':
        if exact_or_raise:
            sim.check(res[1] == len(to) and out_of(out) == to, 'success with a wrong result',
                      '%s %s: returned %s, %d bytes written, first difference at %d of %d' %
                      (comp, mode, res[1], len(out), first_diff(out_of(out), to), len(to)))
        else:
            written = written_size(out)
            sim.check(isinstance(res[1], int) and res[1] >= 0 and (written is None or res[1] == written),
                      'success without the whole to-data', '%s: returned %s, %s bytes written' % (comp, res[1], written))
    elif exact_or_raise and isinstance(out, bytes):
        sim.check(to.startswith(out), 'output is not a prefix of the to-data',
                  '%s %s: %d bytes, first difference at %d, %s' % (comp, mode, len(out), first_diff(out, to), res[1]))


def written_size(out):
    return len(out) if isinstance(out, bytes) else out.written


class Image:
    """memory after an in-place run"""

    def __init__(self, b, n, written):
        self.b, self.n, self.written = b, n, written

    def __len__(self):
        return len(self.b)


class MemStream(Stream):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.touched = bytearray(len(self.b))

    def write(self, data):
        p, n = self.pos, len(bytes(data))
        if n and self.pos + n > len(self.b):
            self.sim.fail('write outside the memory', '%d bytes at %d, memory stream is %d' % (n, p, len(self.b)))
        self.touched[p:p + n] = b'\1' * n
        return super().write(data)


def exec16(plan, sim, detools):
    comp, mem, seg, shift, from_size, to_size, seed, extra = (plan.get('cfg') + [0] * 8)[:8]
    comp = model.COMP[comp % 7]
    seg = max(1, seg)
    mem = max(seg, mem - mem % seg)
    shift = max(0, min(shift - shift % seg, mem))
    from_size, to_size = max(0, min(from_size, mem)), max(0, min(to_size, mem))
    r = Rng(seed)
    frm = r.bytes(from_size, r.pick([256, 256, 4, 2]))
    rest = r.bytes(mem - from_size + max(0, extra))
    patch, to = model.build_in_place(plan.rows('ops'), frm, to_size, mem, seg, shift, comp, seed + 1)
    sim.count('probe:%s' % comp)
    sim.data(patch)
    sim.data(to)
    chunks = [c for c in plan.get('chunks') if c > 0]
    mode, at, mseed = (plan.get('mode') + [0] * 3)[:3]
    mode = MODES[mode % len(MODES)]
    sim.nontrivial = to_size > 0
    if mode == 'long-from':
        mode = 'healthy'
    starts = (plan.get('starts') + [0] * 3)[:3]
    if any(starts):
        sim.count('probe:streams not at their start')

    def go(what, frm_, patch_, faults):
        m = MemStream(sim, 'memory', frm_, faults, 'rw', limit=mem if what != 'damage' else None)
        p = Stream(sim, 'patch', patch_, faults, 'r', chunks).after(starts[1])
        m.pos = min(starts[0], len(m.b))
        lim = mem
        if what == 'damage':
            try:
                lim = model.in_place_geometry(patch_)[1][0]
            except model.Bad:
                lim = 0
        res = call(sim, what, detools.apply_patch_in_place, m, p)
        leaks(sim, p, m)
        lim = min(max(0, lim), len(frm_))
        sim.check(m.b[lim:] == frm_[lim:], 'bytes beyond the memory changed', what)
        w = None
        if what == 'damage' and res[0] == 'ok' and isinstance(res[1], int) and res[1] >= 0:
            w = res[1] if all(m.touched[:res[1]]) and res[1] <= len(m.b) else -1
        return res, Image(bytes(m.b), to_size, w)

    full = frm + rest
    if mode == 'trailing' and to:
        junk = Rng(mseed).bytes(1 + at % 50)
        patch2, _ = model.build_in_place(plan.rows('ops'), frm, to_size, mem, seg, shift, comp, seed + 1, junk)
        sim.count('fault:data left in the patch')
        res, _ = go(mode, full, patch2, None)
        sim.check(res[0] == 'raised', 'data left in the patch accepted', '%s: %d bytes' % (comp, len(junk)))
    if mode == 'forged' and to:
        patch2, how = forge(patch, 1, at, mseed)
        if patch2 is not None:
            sim.count('fault:forged header')
            res, _ = go('damage', full, patch2, None)
            sim.check(res[0] == 'raised', 'forged patch accepted', '%s: %s' % (comp, how))
    base = Faults(sim)
    res, out = go('apply', full, patch, base)
    sim.check(res[0] == 'ok', 'valid patch rejected', '%s %s' % (comp, res[1]))
    sim.check(out.b[:to_size] == to, 'wrong result', '%s: first difference at %d of %d' % (comp, first_diff(out.b[:to_size], to), to_size))
    sim.check(res[1] == to_size, 'wrong return value', '%s for %d' % (res[1], to_size))
    if mode == 'short-from':
        full = full[:mem]          # cutting it makes the memory too small
    judge(sim, mode, comp, plan, base.n, at, mseed, full, patch, to, go, lambda o: o.b[:to_size])
