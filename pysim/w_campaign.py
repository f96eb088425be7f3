"""C18: update campaigns. The Python package makes the patches, a lossy link
carries them, the C library applies them on a device that loses power."""
import ctypes, heapq, os, zlib
from io import BytesIO
from core import Rng, Violation, call
from w_apply import first_diff
import images, model

COMPS = ['none', 'lzma', 'crle', 'heatshrink']
KINDS = ['sequential streamed', 'in-place streamed', 'sequential stored', 'in-place stored']
LINK = ['drop', 'duplicate', 'delay', 'corrupt', 'cut']
CRASH = ['at operation', 'after step or dump']
MS = 1000000


def gen18(p, r, tier):
    hops = r.pick([1, 1, 1, 2, 3])
    n = r.pick([r.size(60), r.size(400), r.size(2000), r.range(100, 1500)])
    if r.chance(2):
        n = r.range(16000, 50000)
    w = r.pick([8, 4, 5, 6, 7, 10, 11, 15])
    p.add('cfg', [r.range(0, 3), n, r.range(0, 1 << 40), r.pick([1, 2, 4, 9]), r.pick([1, 7, 16, 64, 64, 200, 1000]), r.pick([1, 1, 2, 5, 1000000]),
                  w, r.pick([r.range(3, w - 1), w - 1]), r.range(0, 255), r.range(0, 1), r.chance(30)])
    rows = []
    for _ in range(hops):
        rows += [r.pick([0, 0, 1, 2, 2, 3, 3]), r.range(0, 1 << 20), r.range(0, 1)]
    p.add('hops', rows, 3, True)
    p.add('geometry', [r.pick([1, 8, 32, 64, 64, 256, 1000, 4096]), r.pick([0, 0, 1, 3]), r.pick([0, 1, 1, 2])])
    rows = []
    if r.chance(75):
        span = r.pick([20, 60, 300])
        for _ in range(r.pick([1, 2, 4, 8, 16, 32])):
            rows += [r.range(0, span), r.range(0, 4), r.pick([1, 5, 30, 200, r.range(1, 400)])]
    p.add('link', rows, 3, True)
    rows = []
    if r.chance(80):
        for _ in range(r.pick([1, 1, 2, 3, 5, 8])):
            rows += [r.range(0, 1000), r.range(0, 1000), r.range(0, 1)]
    p.add('crashes', rows, 3, True)


# ---------------------------------------------------------------- C library
_libs = {}
VP, U8P, SZ, INT = ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int
F_READ = ctypes.CFUNCTYPE(INT, VP, U8P, SZ)
F_SEEK = ctypes.CFUNCTYPE(INT, VP, INT)
F_MREAD = ctypes.CFUNCTYPE(INT, VP, VP, SZ, SZ)
F_MWRITE = ctypes.CFUNCTYPE(INT, VP, SZ, VP, SZ)
F_MERASE = ctypes.CFUNCTYPE(INT, VP, SZ, SZ)
F_SET = ctypes.CFUNCTYPE(INT, VP, INT)
F_GET = ctypes.CFUNCTYPE(INT, VP, ctypes.POINTER(INT))


def lib(dynamic):
    l = _libs.get(dynamic)
    if l is None:
        _libs[dynamic] = l = ctypes.CDLL(os.path.join(os.environ['DETSIM_PKG'], 'libdyn.so' if dynamic else 'libdev.so'))
        l.dev_seq_size.restype = l.dev_inp_size.restype = ctypes.c_ulong
        l.detools_apply_patch_init.argtypes = [VP, F_READ, F_SEEK, SZ, F_READ, VP]
        l.detools_apply_patch_process.argtypes = l.detools_apply_patch_in_place_process.argtypes = [VP, VP, SZ]
        l.detools_apply_patch_finalize.argtypes = l.detools_apply_patch_in_place_finalize.argtypes = [VP]
        l.detools_apply_patch_dump.argtypes = l.detools_apply_patch_restore.argtypes = [VP, F_READ]
        for n in ('to', 'patch'):
            f = getattr(l, 'detools_apply_patch_get_%s_offset' % n)
            f.argtypes, f.restype = [VP], SZ
        l.detools_apply_patch_in_place_init.argtypes = [VP, F_MREAD, F_MWRITE, F_MERASE, F_SET, F_GET, SZ, VP]
        l.detools_apply_patch_callbacks.argtypes = [F_READ, F_SEEK, F_READ, SZ, F_READ, VP]
        l.detools_apply_patch_in_place_callbacks.argtypes = [F_MREAD, F_MWRITE, F_MERASE, F_SET, F_GET, F_READ, SZ, VP]
    return l


class Off(Exception):
    """the device has lost power"""


class Device:
    """flash, state store and RAM of one device; what is not in .flash* or .store is lost at a crash"""

    def __init__(self, sim, inplace, image, memory_size, cfg):
        self.sim, self.inplace = sim, inplace
        self.old = bytearray(image)              # slot with the running image (sequential)
        self.new = bytearray()                   # slot being written: durable part
        self.mem = bytearray(image) + Rng(cfg[2] ^ 99).bytes(memory_size - len(image)) if inplace else None
        self.step = 0
        self.store = None                        # committed dump
        self.received = {}                       # stored mode: packets kept in flash
        self.version = 0                         # image the device believes to run
        self.ops = 0
        self.crash_at, self.torn, self.crash_after_mark = None, 0, False
        self.fill = cfg[8] & 255
        self.lib = lib(cfg[10] & 1)
        self.can_dump = True
        self.dump_every = max(1, cfg[5])
        self.marks = 0
        self.want = 1
        self.expect = None                       # image that completion must show
        self.off()
        f = self.cb
        self.c_read, self.c_seek, self.c_write = F_READ(f(self.from_read)), F_SEEK(f(self.from_seek)), F_READ(f(self.to_write))
        self.c_mread, self.c_mwrite, self.c_merase = F_MREAD(f(self.mem_read)), F_MWRITE(f(self.mem_write)), F_MERASE(f(self.mem_erase))
        self.c_set, self.c_get = F_SET(f(self.step_set)), F_GET(f(self.step_get))
        self.c_dump, self.c_load, self.c_patch = F_READ(f(self.dump_write)), F_READ(f(self.dump_read)), F_READ(f(self.patch_read))

    def off(self):
        self.dead = False
        self.obj = None
        self.from_pos = 0
        self.unsynced = bytearray()
        self.fed = self.since = 0
        self.stash = b''
        self.ops = 0
        self.pull = None

    # ---- callbacks
    def cb(self, fn):
        def g(_, *a):
            try:
                return fn(*a)
            except Off:
                return -1
            except Violation:
                return -1
            except BaseException as e:
                if not self.sim.violation:
                    self.sim.violation = {'class': 'harness', 'detail': repr(e)}
                return -1
        return g

    def op(self, name, *a):
        """-> True if power is lost inside this operation"""
        if self.dead:
            raise Off
        self.sim.ev(name, *a)
        self.ops += 1
        if self.crash_at is not None and self.ops >= self.crash_at:
            self.dead = True
            self.sim.count('fault:power lost in ' + name)
            return True
        return False

    def cut(self, n):
        return n * (self.torn % 1001) // 1000

    def from_read(self, buf, n):
        if self.op('from_read', self.from_pos, n):
            raise Off
        self.sim.check(0 <= self.from_pos and self.from_pos + n <= len(self.old), 'read outside the image', '%d+%d of %d' % (self.from_pos, n, len(self.old)))
        ctypes.memmove(buf, bytes(self.old[self.from_pos:self.from_pos + n]), n)
        self.from_pos += n
        return 0

    def from_seek(self, off):
        if self.op('from_seek', off):
            raise Off
        self.from_pos += off
        return 0

    def to_write(self, buf, n):
        lost = self.op('to_write', n)
        d = ctypes.string_at(buf, n)
        if lost:
            self.new += self.unsynced + d[:self.cut(n)]
            raise Off
        self.unsynced += d
        self.sim.data(d)
        return 0

    def patch_read(self, buf, n):
        if self.op('patch_read', self.fed, n):
            raise Off
        d = self.pull[self.fed:self.fed + n]
        if len(d) < n:
            return -7
        ctypes.memmove(buf, d, n)
        self.fed += n
        return 0

    def rng(self, a, n):
        self.sim.check(a + n <= len(self.mem), 'access outside the memory', '%d+%d of %d' % (a, n, len(self.mem)))

    def mem_read(self, buf, a, n):
        if self.op('mem_read', a, n):
            raise Off
        self.rng(a, n)
        ctypes.memmove(buf, bytes(self.mem[a:a + n]), n)
        return 0

    def mem_write(self, a, buf, n):
        lost = self.op('mem_write', a, n)
        self.rng(a, n)
        d = ctypes.string_at(buf, n)
        if lost:
            n = self.cut(n)
        self.mem[a:a + n] = d[:n]
        self.sim.data(d)
        if lost:
            raise Off
        return 0

    def mem_erase(self, a, n):
        lost = self.op('mem_erase', a, n)
        self.rng(a, n)
        if lost:
            n = self.cut(n)
        self.mem[a:a + n] = b'\xff' * n
        if lost:
            raise Off
        return 0

    def mark(self):
        self.marks += 1
        if self.crash_after_mark and self.crash_at is not None and self.marks >= self.crash_at:
            self.dead = True
            self.sim.count('fault:power lost after a step or dump')
            raise Off

    def step_set(self, step):
        if self.op('step_set', step) and self.torn & 1:
            raise Off
        self.step = step
        if step == 0:
            self.done('step 0 stored')
        if self.dead:
            raise Off
        self.mark()
        return 0

    def step_get(self, p):
        if self.op('step_get', self.step):
            raise Off
        p[0] = self.step
        return 0

    def done(self, how):
        got = bytes(self.mem[:len(self.expect)]) if self.inplace else bytes(self.new)
        self.sim.check(got == self.expect, 'completion reported without the image', '%s: first difference at %d of %d' %
                       (how, first_diff(got, self.expect), len(self.expect)))
        self.version += 1
        self.sim.ev('complete', self.version)
        if not self.inplace:
            self.old, self.new = self.new, bytearray()
            self.store = None
        self.received = {}

    def dump_write(self, buf, n):
        if self.op('dump_write', n):
            raise Off
        self.tmp += ctypes.string_at(buf, n)
        return 0

    def dump_read(self, buf, n):
        if self.op('dump_read', n):
            raise Off
        d = self.tmp[:n]
        self.sim.check(len(d) == n, 'restore reads more than was dumped', '%d of %d' % (len(d), n))
        self.tmp = self.tmp[n:]
        ctypes.memmove(buf, bytes(d), n)
        return 0

    # ---- running the C library
    def ran(self, rc):
        if self.sim.violation:
            raise Violation(self.sim.violation['class'])
        if self.dead:
            raise Off
        self.sim.ev('returned', rc)
        return rc

    def boot(self, patch_size):
        """start, or go on with, the update; -> offset of the first patch byte needed"""
        l = self.lib
        self.obj = ctypes.create_string_buffer(bytes([self.fill]) * (l.dev_inp_size() if self.inplace else l.dev_seq_size()),
                                               l.dev_inp_size() if self.inplace else l.dev_seq_size())
        self.patch_size = patch_size
        if self.inplace:
            rc = self.ran(l.detools_apply_patch_in_place_init(self.obj, self.c_mread, self.c_mwrite, self.c_merase, self.c_set, self.c_get, patch_size, None))
            self.sim.check(rc == 0, 'init failed', rc)
            return 0
        rc = self.ran(l.detools_apply_patch_init(self.obj, self.c_read, self.c_seek, patch_size, self.c_write, None))
        self.sim.check(rc == 0, 'init failed', rc)
        self.from_pos = 0
        if self.store is None:
            self.new = bytearray()
            return 0
        self.tmp = bytearray(self.store)
        rc = self.ran(l.detools_apply_patch_restore(self.obj, self.c_load))
        self.sim.check(rc == 0, 'restore failed', rc)
        to, po = l.detools_apply_patch_get_to_offset(self.obj), l.detools_apply_patch_get_patch_offset(self.obj)
        self.sim.check(to <= len(self.new), 'restored object is ahead of the output', '%d of %d' % (to, len(self.new)))
        del self.new[to:]
        self.fed = po
        self.sim.count('probe:restored from a dump')
        return po

    def process(self, d):
        l = self.lib
        b = ctypes.create_string_buffer(d, len(d))
        rc = self.ran((l.detools_apply_patch_in_place_process if self.inplace else l.detools_apply_patch_process)(self.obj, b, len(d)))
        self.sim.check(rc == 0, 'device rejects the patch', '%d after %d of %d bytes' % (rc, self.fed, self.patch_size))
        self.fed += len(d)
        self.since += 1
        if not self.inplace and self.since >= self.dump_every and self.fed < self.patch_size:
            self.since = 0
            self.tmp = bytearray()
            self.new += self.unsynced
            self.unsynced = bytearray()
            rc = self.ran(l.detools_apply_patch_dump(self.obj, self.c_dump))
            self.sim.check(rc == 0 or not self.can_dump and rc == -1, 'dump failed', rc)
            if rc == 0:
                self.store = bytes(self.tmp)
            self.mark()
        if self.fed == self.patch_size:
            self.finish((l.detools_apply_patch_in_place_finalize if self.inplace else l.detools_apply_patch_finalize)(self.obj))

    def finish(self, rc):
        rc = self.ran(rc)
        self.sim.check(rc == len(self.expect), 'device reports a wrong size', '%d for %d' % (rc, len(self.expect)))
        if not self.inplace:
            self.new += self.unsynced
            self.unsynced = bytearray()
            self.done('finalize')
        elif not self.expect and self.version < self.want:
            self.done('finalize')        # nothing to write, no steps
        self.obj = None

    def apply_stored(self, patch):
        """callback API: the whole patch is in flash"""
        l = self.lib
        self.pull, self.fed = patch, 0
        if self.inplace:
            rc = l.detools_apply_patch_in_place_callbacks(self.c_mread, self.c_mwrite, self.c_merase, self.c_set, self.c_get, self.c_patch, len(patch), None)
        else:
            self.new = bytearray()
            self.from_pos = 0
            rc = l.detools_apply_patch_callbacks(self.c_read, self.c_seek, self.c_patch, len(patch), self.c_write, None)
        self.finish(rc)


class Campaign:
    def __init__(self, sim, plan, dev, stored, chunk):
        self.sim, self.dev, self.stored, self.chunk = sim, dev, stored, max(1, chunk)
        self.q, self.seq, self.now = [], 0, 0
        self.link = {}
        for at, kind, par in plan.rows('link'):
            self.link.setdefault(at, (kind % len(LINK), max(1, par)))
        self.cut_until = -1
        self.sent = 0
        self.crashes = plan.rows('crashes')
        self.boots = 0

    def at(self, t, what, *a):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, what, a))

    def send(self, to, *msg):
        """over the lossy link"""
        i = self.sent
        self.sent += 1
        kind, par = self.link.get(i, (None, 0))
        delay = 5 * MS
        if kind is not None:
            self.sim.count('fault:link ' + LINK[kind])
            self.sim.ev('link', LINK[kind], par)
            if kind == 4:
                self.cut_until = i + par % 40
            elif kind == 0:
                return
            elif kind == 1:
                self.at(self.now + delay + par * MS, to, *msg)
            elif kind == 2:
                delay += par * MS
            else:
                if len(msg) > 2 and msg[2]:
                    b = bytearray(msg[2])
                    b[par % len(b)] ^= 1 + par % 255
                    msg = (msg[0], msg[1], bytes(b)) + msg[3:]
                else:
                    return
        if i <= self.cut_until:
            self.sim.count('fault:link packet lost in a cut')
            return
        self.at(self.now + delay, to, *msg)

    def crash_plan(self, nops):
        d = self.dev
        d.crash_at = None
        d.marks = 0
        if self.boots < len(self.crashes):
            at, torn, after = self.crashes[self.boots]
            d.torn, d.crash_after_mark = torn, bool(after)
            d.crash_at = 1 + max(0, at) * max(1, nops) // 1001
            if after:
                d.crash_at = 1 + at * 12 // 1001
        self.boots += 1

    def run(self, patch, expect, nops):
        """-> when the host has been told that the device runs the new image"""
        sim, d = self.sim, self.dev
        want = d.version + 1
        d.expect, d.want = expect, want
        self.finished = False
        self.acked = None
        self.sent_at = {}
        d.off()
        self.boot(patch, nops, want)
        self.at(self.now, 'host')
        budget = 400 + 12 * (len(patch) // self.chunk + 2) + 60 * (len(self.link) + len(self.crashes)) + 40 * sum(1 for k, _ in self.link.values() if k == 4)
        used = 0
        while not self.finished:
            sim.check(self.q, 'stuck', 'nothing left to do')
            t, _, what, a = heapq.heappop(self.q)
            sim.time_ns += max(0, t - self.now)
            self.now = max(self.now, t)
            used += 1
            sim.check(used <= budget, 'no progress', 'update not complete after %d link and timer events (%d patch packets)' % (used, len(patch) // self.chunk + 1))
            if what == 'host':
                self.host(patch, want)
            elif what == 'ack':
                if a[0] != want:
                    continue
                if a[1] == 'done':
                    self.finished = True
                else:
                    self.acked = a[1]
                    self.host(patch, want, timer=False)
            elif what == 'packet':
                try:
                    self.packet(a, patch, want)
                except Off:
                    self.crashed(patch, nops, want)
            elif what == 'reboot':
                self.boot(patch, nops, want)
        self.q = [e for e in self.q if e[2] == 'packet' or e[2] == 'ack']   # old packets may still arrive
        heapq.heapify(self.q)
        sim.ev('hop done', want, used)

    def crashed(self, patch, nops, want):
        # the object is gone without a call; only flash survives
        d = self.dev
        d.obj = None
        self.sim.ev('crash', d.version)
        self.at(self.now + 20 * MS, 'reboot')
        self.down = True

    def boot(self, patch, nops, want):
        d = self.dev
        self.down = False
        d.off()
        self.crash_plan(nops)
        try:
            if d.version < want and not self.stored:
                d.boot(len(patch))
        except Off:
            self.crashed(patch, nops, want)
            return
        self.hello(want)

    def hello(self, want):
        d = self.dev
        if d.version >= want:
            self.send('ack', d.version, 'done')
        elif self.stored:
            self.send('ack', want, tuple(sorted(d.received)))
        else:
            self.send('ack', want, d.fed)

    def host(self, patch, want, timer=True):
        if timer:
            self.at(self.now + 60 * MS, 'host')
            self.send('packet', want, -1, b'', 0)              # are you there?
        if self.acked is None:
            return
        if self.stored:
            miss = [o for o in range(0, len(patch), self.chunk) if o not in self.acked][:4]
        else:
            miss = [self.acked] + ([self.acked + self.chunk] if timer else [])
        for o in miss:
            if 0 <= o < len(patch) and self.now - self.sent_at.get(o, -100 * MS) > 15 * MS:
                self.sent_at[o] = self.now
                b = patch[o:o + self.chunk]
                self.send('packet', want, o, b, zlib.crc32(b))
        self.acked = None

    def packet(self, a, patch, want):
        d = self.dev
        if self.down or a[0] != want:
            return
        _, o, b, crc = a
        if o >= 0 and zlib.crc32(b) != crc:
            return
        if o >= 0 and d.version < want:
            if self.stored:
                d.received[o] = b
                if sum(map(len, d.received.values())) == len(patch):
                    got = b''.join(d.received[k] for k in sorted(d.received))
                    self.sim.check(got == patch, 'harness', 'transport')
                    d.apply_stored(got)
            elif o == d.fed:
                d.process(b)
        if self.stored and d.version < want and sum(map(len, d.received.values())) == len(patch):
            # everything arrived before the crash
            d.apply_stored(b''.join(d.received[k] for k in sorted(d.received)))
        self.hello(want)


def exec18(plan, sim, detools):
    cfg = (plan.get('cfg') + [0] * 11)[:11]
    kind, n, seed, edits, chunk, _, hw, hl, _, exotic, dyn = cfg
    kind %= 4
    inplace, stored = kind % 2 == 1, kind >= 2
    hw = max(4, min(15, hw))
    hl = max(3, min(hl, hw - 1))
    if not dyn & 1:
        other = (hw, hl) if (hw, hl) != (8, 7) else (9, 6)
        hw, hl = 8, 7
    n = max(1, min(n, 60000))
    r = Rng(seed)
    hops = plan.rows('hops')
    sim.limit = 2000000
    images_ = [images.related(r, n, 0)[0] or b'x']
    for _, s, _ in hops:
        f = Rng(seed ^ s)
        images_.append(images.edit(f, images_[-1], max(1, edits))[:max(3 * n + 500, 40000)])
    seg, extra, shift = (plan.get('geometry') + [0] * 3)[:3]
    seg = max(1, seg)
    big = max(map(len, images_))
    if big > 40 * seg:
        seg = -(-big // 40)
    shift = seg * max(0, shift)
    mem = seg * (-(-big // seg) + max(0, extra)) + shift
    mem += (-mem) % seg
    chunk = max(chunk, big // 150 + 1)
    sim.count('probe:' + KINDS[kind])
    dev = Device(sim, inplace, images_[0], mem, cfg)
    camp = Campaign(sim, plan, dev, stored, chunk)
    for i, (comp, _, algo) in enumerate(hops):
        frm, to = images_[i], images_[i + 1]
        comp = COMPS[comp % 4]
        kw = dict(compression=comp, heatshrink_window_sz2=hw, heatshrink_lookahead_sz2=hl, suffix_array_algorithm=('divsufsort', 'sais')[algo % 2], use_mmap=False)
        if inplace:
            kw.update(patch_type='in-place', memory_size=mem, segment_size=seg, minimum_shift_size=shift)
        p = BytesIO()
        res = call(sim, 'create', detools.create_patch, BytesIO(frm), BytesIO(to), p, **kw)
        sim.check(res[0] == 'ok', 'creation failed', res[1])
        patch = p.getvalue()
        sim.data(patch)
        sim.count('probe:' + comp)
        # the two appliers agree, without any fault
        if inplace:
            m = BytesIO(frm + bytes(mem - len(frm)))
            res = call(sim, 'python apply', detools.apply_patch_in_place, m, BytesIO(patch))
            host = m.getvalue()[:len(to)]
        else:
            o = BytesIO()
            res = call(sim, 'python apply', detools.apply_patch, BytesIO(frm), BytesIO(patch), o)
            host = o.getvalue()
        sim.check(res == ('ok', len(to)) and host == to, 'host cannot apply its own patch', res[1])
        dry = Device(sim, inplace, frm, mem, cfg)
        dry.expect = to
        dry.can_dump = dev.can_dump = comp in ('none', 'crle') or comp == 'heatshrink' and not dyn & 1
        (dry.apply_stored(patch) if stored else (dry.boot(len(patch)), [dry.process(patch[o:o + chunk]) for o in range(0, len(patch), chunk)]))
        sim.check(dry.version == 1, 'device did not complete', '')
        if exotic and i == 0:
            unsupported(sim, detools, frm, to, kw, inplace, mem, cfg, None if dyn & 1 else other)
        # the campaign
        camp.run(patch, to, dry.ops)
        sim.nontrivial = sim.nontrivial or len(to) > 0
        got = bytes(dev.mem[:len(to)]) if inplace else bytes(dev.old)
        sim.check(dev.version == i + 1 and got == to, 'image differs after the campaign', first_diff(got, to))


def unsupported(sim, detools, frm, to, kw, inplace, mem, cfg, other):
    """a patch the device cannot decode is refused before anything changes"""
    p = BytesIO()
    comp = ('bz2', 'zstd', 'lz4', 'heatshrink')[cfg[1] % (4 if other else 3)]
    if comp == 'heatshrink':
        kw = dict(kw, heatshrink_window_sz2=other[0], heatshrink_lookahead_sz2=other[1])
    res = call(sim, 'create', detools.create_patch, BytesIO(frm), BytesIO(to), p, **dict(kw, compression=comp))
    sim.check(res[0] == 'ok', 'creation failed', res[1])
    d = Device(sim, inplace, frm, mem, cfg)
    before = (bytes(d.mem) if inplace else None, d.step)
    d.expect = to
    l = d.lib
    d.boot(len(p.getvalue()))
    b = ctypes.create_string_buffer(p.getvalue(), len(p.getvalue()))
    rc = d.ran((l.detools_apply_patch_in_place_process if inplace else l.detools_apply_patch_process)(d.obj, b, len(b)))
    rc2 = d.ran((l.detools_apply_patch_in_place_finalize if inplace else l.detools_apply_patch_finalize)(d.obj))
    sim.count('probe:compression the device lacks')
    sim.check(rc < 0 and rc2 < 0 or comp == 'heatshrink' and not to, 'patch accepted that the device cannot decode', '%s: %d %d' % (comp, rc, rc2))
    # (in-place, the heatshrink header comes after the memory has been shifted)
    sim.check(inplace and comp == 'heatshrink' or (bytes(d.mem) if inplace else None, d.step) == before and not d.unsynced and (d.version == 0 or not to), 'device changed by a refused patch', comp)
