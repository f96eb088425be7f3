"""C17: patch creation on the host, with streams, mappings, temporary files,
clock and allocations under control."""
import array, ctypes, gc, os
from core import Faults, Stream, call, Rng
from w_apply import first_diff, leaks
import images, model, seams

ALGOS = ['divsufsort', 'sais']
TYPES = ['sequential', 'in-place', 'bsdiff', 'data format', 'in-place with a data format']
ENVS = ['streams', 'mapped', 'mapping raises UnsupportedOperation', 'mapping raises ValueError', 'mapping off']
MODES = ['healthy', 'stream fault', 'allocation fault', 'bad option']
BAD = ['compression', 'algorithm', 'suffix array', 'patch type', 'memory not a multiple', 'shift not a multiple',
       'heatshrink window', 'heatshrink lookahead', 'data format']


def gen17(p, r, tier):
    t = r.pick([0, 0, 0, 1, 1, 1, 2, 3])
    n = r.pick([0, 1, 3, r.size(60), r.size(500), r.size(500), r.size(3000)])
    if r.chance(3 if tier == 'quick' else 6):
        n = r.pick([r.size(40000), r.range(16000, 70000)])
    w = r.range(4, 15)
    mode = r.pick([0, 0, 0, 1, 1, 1, 1, 2, 2, 3])
    p.add('cfg', [t, r.range(0, 6), r.range(0, 1), r.range(0, 4), n, r.pick([0, 1, 1, 2, 4, 9, 20]), r.range(0, 1 << 40),
                  w, r.range(3, w - 1)])
    p.add('geometry', [r.pick([1, 8, 16, 64, 64, 256, 1000, 4096]), r.pick([0, 0, 1, 2, 5]), r.pick([-1, -1, 0, 1, 2, 3, 9]),
                       r.pick([0, 0, 0, 0, 1, 2])])
    p.add('mode', [mode, r.range(0, len(BAD) - 1), r.range(0, 99), r.pick([0, 0, 1])])
    p.add('clock', r.pick([[], [], [r.range(-5000, 5000) for _ in range(3)], [-1 << 31], [1 << 33]]), 1, True)
    rows = []
    for _ in range(r.pick([1, 1, 1, 2])):
        rows += [r.range(0, 1000), r.range(0, 11), r.pick([1, 1, 1, 2, 1000000]), r.pick([0, 0, 500, 999])]
    p.add('faults', rows if mode == 1 else [], 4, True)
    p.add('alloc', [r.range(0, 1), r.range(0, 1000), r.pick([1, 1, 1, 2, 1000000])] if mode == 2 else [], 3, True)
    p.add('starts', [r.range(0, 1000), r.range(0, 1000), r.size(300)] if r.chance(15) else [], 3, True)


class MapStream(Stream):
    """input on simulated storage that can also be mapped"""

    def __init__(self, *a):
        super().__init__(*a)
        self.fd = None

    def fileno(self):
        self._step('fileno')
        if self.fd is None:
            self.fd = os.memfd_create('f')
            os.write(self.fd, self.b) if self.b else 0
        return self.fd

    def close_fd(self):
        if self.fd is not None:
            os.close(self.fd)


class Shim:
    """allocation counters of the two extensions"""

    def __init__(self, detools):
        # importlib: detools.create is also the name of a module
        import importlib
        self.libs = [ctypes.CDLL(importlib.import_module('detools.' + n).__file__) for n in ('bsdiff', 'suffix_array')]
        self.vars = {(i, n): ctypes.c_longlong.in_dll(l, 'shim_' + n) for i, l in enumerate(self.libs)
                     for n in ('calls', 'failed', 'fail_at', 'fail_for', 'live')}

    def var(self, i, name):
        return self.vars[i, name]

    def reset(self, row=None):
        for i in (0, 1):
            for n in ('calls', 'failed', 'fail_at', 'fail_for'):
                self.var(i, n).value = 0
        if row:
            i, at, n = row
            self.var(i, 'fail_for').value = n
            self.var(i, 'fail_at').value = at

    def calls(self):
        return [self.var(i, 'calls').value for i in (0, 1)]

    def failed(self):
        return sum(self.var(i, 'failed').value for i in (0, 1))

    def live(self):
        return [self.var(i, 'live').value for i in (0, 1)]


_shim = None
_asan = None


def heap():
    """bytes allocated in the process"""
    global _asan
    if _asan is None:
        _asan = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        _asan.restype = ctypes.c_size_t
    return _asan()


def verify(sim, detools, kind, patch, frm, to, kw, what):
    """the patch gives exactly the to-data, judged by the package and by the reference model"""
    f, p, o = Stream(sim, 'from', frm, None), Stream(sim, 'patch', patch, None), Stream(sim, 'to', b'', None, 'w')
    if kind == 1:
        mem = frm + bytes(kw['memory_size'] - len(frm))
        m = Stream(sim, 'memory', mem, None, 'rw')
        res = call(sim, 'apply', detools.apply_patch_in_place, m, p)
        out = bytes(m.b[:len(to)])
    else:
        res = call(sim, 'apply', detools.apply_patch_bsdiff if kind == 2 else detools.apply_patch, f, p, o)
        out = bytes(o.b)
    sim.check(res[0] == 'ok', 'created patch cannot be applied', '%s: %s' % (what, res[1]))
    sim.check(out == to and res[1] == len(to), 'created patch gives a wrong result',
              '%s: returned %s, first difference at %d of %d' % (what, res[1], first_diff(out, to), len(to)))
    try:
        out = (model.apply_sequential, model.apply_in_place, model.apply_bsdiff, model.apply_sequential)[kind](patch, frm)
    except model.Bad as e:
        sim.fail('patch breaks the format', '%s: %s' % (what, e))
    sim.check(out == to, 'patch differs from the format', '%s: the reference gets other bytes at %d of %d' % (what, first_diff(out, to), len(to)))


def exec17(plan, sim, detools):
    global _shim
    if _shim is None:
        _shim = Shim(detools)
    kind, comp, algo, env, n, edits, seed, hw, hl = (plan.get('cfg') + [0] * 9)[:9]
    shape, comp, algo, envn = kind % 5, model.COMP[comp % 7], ALGOS[algo % 2], ENVS[env % 5]
    hw = max(4, min(15, hw))
    hl = max(3, min(hw - 1, hl))
    r = Rng(seed)
    # 4 is a listed finding and only made by its plan
    kind = 1 if shape == 4 else shape
    if shape >= 3:
        frm, to, kw = images.pair(r, small=n < 100, odd=True)
        sim.count('probe:' + kw['data_format'])
    else:
        frm, to = images.related(r, max(0, min(n, 200000)), max(0, edits))
        kw = {}
    mode, bad, margin, again = (plan.get('mode') + [0] * 4)[:4]
    mode = MODES[mode % 4]
    kw.update(compression=comp, suffix_array_algorithm=algo, heatshrink_window_sz2=hw, heatshrink_lookahead_sz2=hl)
    fits = True
    if kind == 1:
        seg, extra, minshift, less = (plan.get('geometry') + [0] * 4)[:4]
        seg = max(1, seg)
        if len(to) > 60 * seg:
            seg = -(-len(to) // 60)
        mseg = -(-max(len(frm), len(to)) // seg) + max(0, extra)
        shift = 2 * seg if minshift < 0 else minshift * seg
        mem = max(seg, (mseg - less) * seg)
        kw.update(patch_type='in-place', memory_size=mem, segment_size=seg, minimum_shift_size=None if minshift < 0 else shift)
        real = max(shift, mem - -(-len(frm) // seg) * seg)
        fits = len(frm) <= mem and len(to) <= mem and real <= mem
        sim.count('probe:geometry ' + ('fits' if fits else 'too small'))
    elif kind == 2:
        kw.update(patch_type='bsdiff')
    sim.nontrivial = len(to) > 0
    sim.count('probe:%s %s' % (TYPES[shape], comp if kind != 2 else ''))
    sim.count('probe:' + envn)
    sim.data(frm)
    sim.data(to)
    clock = plan.get('clock')
    starts = (plan.get('starts') + [0] * 3)[:3]
    if any(starts):
        sim.count('probe:streams not at their start')

    def go(what, envn, kw, rows=None, alloc=None):
        faults = Faults(sim, rows or [])
        works = {'mapping raises UnsupportedOperation': False, 'mapping raises ValueError': None}.get(envn, True)
        e = seams.Env(sim, faults, works, clock)
        cls = Stream if envn == 'streams' else MapStream
        f, t = cls(sim, 'from', frm, faults, 'r'), cls(sim, 'to', to, faults, 'r')
        p = Stream(sim, 'patch', b'', faults, 'w').after(starts[2])
        if kind != 1:
            f.pos, t.pos = starts[0] * len(frm) // 1000, starts[1] * len(to) // 1000
        gc.collect(0)
        _shim.reset(alloc)
        live = _shim.live()
        with seams.use(e):
            res = call(sim, what, detools.create_patch, f, t, p, use_mmap=envn != 'mapping off', **kw)
        failed = _shim.failed()
        calls = _shim.calls()
        _shim.reset()
        sim.ev('allocations', calls[0], calls[1], failed)
        if failed:
            sim.count('fault:allocation in extension', failed)
        sim.check(_shim.live() == live, 'resource kept', '%s: %s C allocations' % (what, [a - b for a, b in zip(_shim.live(), live)]))
        e.settle(what)
        leaks(sim, f, t)
        for s, b in ((f, frm), (t, to)):
            sim.check(s.b == b, 'input modified', what)
            if isinstance(s, MapStream):
                if s.fd is not None:
                    os.lseek(s.fd, 0, 0)
                    sim.check(os.pread(s.fd, len(b) + 1, 0) == b, 'input modified', what + ' through the mapping')
                s.close_fd()
        return res, p.data(), faults, calls, failed

    if mode == 'bad option':
        k2 = dict(kw)
        what = BAD[bad % len(BAD)]
        if what == 'compression':
            k2['compression'] = 'gzip'
            if kind == 2:
                return
        elif what == 'algorithm':
            k2['algorithm'] = 'nothing'
        elif what == 'suffix array':
            k2['suffix_array_algorithm'] = 'quick'
            if kind == 2 or not to:
                return
        elif what == 'patch type':
            k2['patch_type'] = 'fast'
        elif what == 'memory not a multiple':
            if kind != 1 or kw['segment_size'] < 2:
                return
            k2['memory_size'] += 1 + margin % (kw['segment_size'] - 1)
        elif what == 'shift not a multiple':
            if kind != 1 or kw['segment_size'] < 2:
                return
            k2['minimum_shift_size'] = kw['segment_size'] * (margin % 3) + 1 + margin % (kw['segment_size'] - 1)
        elif what in ('heatshrink window', 'heatshrink lookahead'):
            if kind == 2 or not to:
                return
            k2['compression'] = 'heatshrink'
            k2.update(heatshrink_window_sz2=(0, 3, 16, 99, -1)[margin % 5]) if what == 'heatshrink window' else \
                k2.update(heatshrink_lookahead_sz2=(0, 2, hw, hw + 1, -1)[margin % 5])
        else:
            if kind not in (0, 3) or not to:
                return
            k2['data_format'] = 'z80'
        sim.count('fault:bad option ' + what)
        res, patch, _, _, _ = go('bad option', envn, k2)
        sim.check(res[0] == 'raised', 'impossible request accepted', '%s: %d bytes written' % (what, len(patch)))
        return

    res, patch, base, calls, _ = go('create', envn, kw)
    if not fits:
        sim.check(res[0] == 'raised', 'geometry that cannot hold the update accepted', '%s' % {k: kw[k] for k in ('memory_size', 'segment_size', 'minimum_shift_size')})
        return
    sim.check(res[0] == 'ok', 'creation failed on a healthy system', '%s %s: %s' % (TYPES[shape], comp, res[1]))
    sim.data(patch)
    verify(sim, detools, kind, patch, frm, to, kw, '%s %s' % (TYPES[shape], comp))
    if kind == 1:
        g = model.in_place_geometry(patch)[1]
        sim.check(g[0] == kw['memory_size'] and g[1] == kw['segment_size'] and g[2] % g[1] == 0 and g[2] >= shift and g[3] == len(frm)
                  and g[4] == len(to), 'geometry in the patch differs', '%s' % g)
    if comp == 'heatshrink' and kind in (0, 3) and to:
        s = model.Src(patch)
        s.take(1)
        s.size()
        sim.check(patch[s.p] == (hw - 4) << 4 | (hl - 3), 'heatshrink parameters differ', 'asked for %d %d' % (hw, hl))

    # the environment has no influence on the bytes
    other = ENVS[(env % 5 + 1 + margin % 4) % 5]
    k2 = dict(kw, suffix_array_algorithm=ALGOS[margin % 2])
    res2, patch2, _, _, _ = go('create in another environment', other, k2)
    sim.check(res2[0] == 'ok', 'creation failed on a healthy system', '%s: %s' % (other, res2[1]))
    sim.check(patch2 == patch, 'patch depends on the environment', '%s %s and %s %s: %d and %d bytes' %
              (envn, algo, other, k2['suffix_array_algorithm'], len(patch), len(patch2)))

    if mode == 'healthy':
        if again and kind == 0:
            unchanged(sim, detools, frm)
        return
    rows = alloc = None
    if mode == 'stream fault':
        rows = [[1 + max(0, a) * base.n // 1001, e, k, w] for a, e, k, w in plan.rows('faults')]
    else:
        for a in plan.rows('alloc'):
            alloc = [a[0] % 2, 1 + max(0, a[1]) * calls[a[0] % 2] // 1001, max(1, a[2])]
    res, patch3, faults, _, failed = go(mode, envn, kw, rows, alloc)
    sim.count('outcome:%s %s' % (mode, res[0]))
    if not faults.fired and not failed:
        sim.check(res[0] == 'ok', 'raised without a fault', res[1])
    if res[0] == 'ok':
        verify(sim, detools, kind, patch3, frm, to, kw, 'after a ' + mode)
    if again:
        # the same failure over and over must not use up memory
        quiet = dict(events=sim.events)
        marks = array.array('Q', [0] * 5)
        for i in range(6):
            if i >= 2:
                gc.collect()
                marks[i - 2] = heap()
            go('again', envn, kw, rows, alloc)
        gc.collect()
        marks[4] = heap()
        grow = [b - a for a, b in zip(marks, marks[1:])]
        sim.check(min(grow) <= 24, 'memory lost at every failure', 'growth in bytes: %s' % min(grow))
    res, patch4, _, _, _ = go('create after the fault', envn, kw)
    sim.check(res[0] == 'ok' and patch4 == patch, 'patch depends on an earlier failure', res[1])


def unchanged(sim, detools, frm):
    """an update to the same image carries no new data"""
    if not frm:
        return
    p = Stream(sim, 'patch', b'', None, 'w')
    res = call(sim, 'create unchanged', detools.create_patch, Stream(sim, 'from', frm, None), Stream(sim, 'to', frm, None), p, compression='none')
    sim.check(res[0] == 'ok', 'creation failed on a healthy system', res[1])
    want = model.header(0, 'none', len(frm)) + model.pack_size(0) + model.pack_size(len(frm)) + bytes(len(frm)) + model.pack_size(0)
    sim.check(bytes(p.b).startswith(want), 'an unchanged image is sent as new data', '%d bytes' % len(frm))
