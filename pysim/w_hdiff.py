"""C23: the hdiffpatch and match-blocks front ends, binding included, over a
stand-in for the HDiffPatch library that fails when told to."""
import array, ctypes, gc, os, struct
from core import Faults, Stream, call, Rng
from w_apply import first_diff, leaks
from w_create import ENVS, MapStream, heap
import images, model, seams

KINDS = ['hdiffpatch', 'match-blocks hdiffpatch', 'match-blocks sequential']
MODES = ['healthy', 'stream fault', 'allocation fault', 'library fault', 'damaged patch', 'other from-data', 'bad option']
BAD = [('hdiffpatch', 'sequential'), ('hdiffpatch', 'in-place'), ('match-blocks', 'in-place'), ('match-blocks', 'bsdiff'),
       ('hdiffpatch', 'bsdiff'), ('bsdiff', 'hdiffpatch')]


def gen23(p, r, tier):
    n = r.pick([0, 1, 3, r.size(60), r.size(500), r.size(3000), r.size(3000)])
    w = r.range(4, 15)
    mode = r.pick([0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6])
    p.add('cfg', [r.range(0, 2), r.range(0, 6), r.range(0, 4), n, r.pick([0, 1, 1, 2, 4, 9]), r.range(0, 1 << 40), w, r.range(3, w - 1),
                  r.range(0, 9), r.pick([1, 4, 64, 64, 1024, 0])])
    p.add('mode', [mode, r.range(0, 1), r.range(0, 1000), r.range(0, 7), r.pick([0, 0, 1])])
    p.add('clock', r.pick([[], [], [r.range(-5000, 5000) for _ in range(3)], [-1 << 31]]), 1, True)
    rows = []
    for _ in range(r.pick([1, 1, 1, 2])):
        rows += [r.range(0, 1000), r.range(0, 11), r.pick([1, 1, 1, 2, 1000000]), r.pick([0, 0, 500, 999])]
    p.add('faults', rows if mode == 1 else [], 4, True)
    p.add('alloc', [r.range(0, 1000), r.pick([1, 1, 1, 2, 3, 9, 1000000])] if mode in (2, 3) else [], 2, True)
    p.add('starts', [r.range(0, 1000), r.range(0, 1000), r.size(300)] if r.chance(15) else [], 3, True)
    p.add('short', [r.range(1, 40) for _ in range(r.pick([0, 0, 1, 3]))], 1, True)


class Lib:
    """counters of the binding and the stand-in"""

    def __init__(self):
        import importlib
        lib = ctypes.CDLL(importlib.import_module('detools.hdiffpatch').__file__)
        self.v = {n: ctypes.c_longlong.in_dll(lib, n) for n in
                  ['%s_%s' % (a, b) for a in ('shim', 'stub') for b in ('calls', 'failed', 'fail_at', 'fail_for')] + ['shim_live', 'stub_files']}

    def reset(self, which=None, at=0, n=0):
        for k, v in self.v.items():
            if k not in ('shim_live', 'stub_files'):
                v.value = 0
        if which:
            self.v[which + '_fail_for'].value = n
            self.v[which + '_fail_at'].value = at

    def __getitem__(self, n):
        return self.v[n].value


_lib = None
HEAD = struct.Struct('<4sBIBQQII')


def fnv(b):
    h = 2166136261
    for x in b:
        h = (h ^ x) * 16777619 & 0xffffffff
    return h


def payload(frm, to, how, arg):
    """what the stand-in makes of the images"""
    body = bytes(b ^ frm[i % len(frm)] for i, b in enumerate(to)) if frm else to
    return HEAD.pack(b'DIFF', how, arg, 2, len(to), len(frm), fnv(frm), fnv(to)) + body


def exec23(plan, sim, detools):
    global _lib
    if _lib is None:
        _lib = Lib()
    kind, comp, env, n, edits, seed, hw, hl, score, block = (plan.get('cfg') + [0] * 10)[:10]
    kind, compn, envn = kind % 3, model.COMP[comp % 7], ENVS[env % 5]
    hw = max(4, min(15, hw))
    hl = max(3, min(hw - 1, hl))
    frm, to = images.related(Rng(seed), max(0, min(n, 20000)), max(0, edits))
    mode, on_apply, where, bad, again = (plan.get('mode') + [0] * 5)[:5]
    mode = MODES[mode % len(MODES)]
    score, block = max(0, score), max(0, block)
    kw = dict(compression=compn, heatshrink_window_sz2=hw, heatshrink_lookahead_sz2=hl)
    if kind == 0:
        kw.update(algorithm='hdiffpatch', patch_type='hdiffpatch', match_score=score)
    else:
        kw.update(algorithm='match-blocks', patch_type=('', 'hdiffpatch', 'sequential')[kind], match_block_size=block)
    sim.nontrivial = len(to) > 0
    sim.count('probe:%s %s' % (KINDS[kind], compn))
    sim.count('probe:' + mode)
    starts = (plan.get('starts') + [0] * 3)[:3]
    if any(starts):
        sim.count('probe:streams not at their start')
    sim.data(frm)
    sim.data(to)

    def go(what, rows=None, fail=(), envn=envn, kw=kw):
        """create a patch"""
        faults = Faults(sim, rows or [])
        works = {'mapping raises UnsupportedOperation': False, 'mapping raises ValueError': None}.get(envn, True)
        e = seams.Env(sim, faults, works, plan.get('clock'))
        cls = Stream if envn == 'streams' else MapStream
        f, t = cls(sim, 'from', frm, faults, 'r'), cls(sim, 'to', to, faults, 'r')
        p = Stream(sim, 'patch', b'', faults, 'w').after(starts[2])
        f.pos, t.pos = starts[0] * len(frm) // 1000, starts[1] * len(to) // 1000
        res, n = library(what, fail, lambda: call(sim, what, create, f, t, p, envn, kw), e)
        leaks(sim, f, t)
        for s, b in ((f, frm), (t, to)):
            sim.check(s.b == b, 'input modified', what)
            if isinstance(s, MapStream):
                s.close_fd()
        return res, p.data(), faults, n

    def create(f, t, p, envn, kw):
        return detools.create_patch(f, t, p, use_mmap=envn != 'mapping off', **kw)

    def apply(what, patch, base, rows=None, fail=(), chunks=()):
        faults = Faults(sim, rows or [])
        f, p, o = Stream(sim, 'from', base, faults), Stream(sim, 'patch', patch, faults, chunks=chunks).after(starts[2]), Stream(sim, 'to', b'', faults, 'w').after(starts[2])
        if kind != 2:
            f.pos = starts[0] * len(base) // 1000
        res, n = library(what, fail, lambda: call(sim, what, detools.apply_patch, f, p, o), seams.Env(sim))
        leaks(sim, f, p)
        return res, o.data(), faults, n

    def library(what, fail, fn, e):
        gc.collect(0)
        live, files = _lib['shim_live'], _lib['stub_files']
        _lib.reset(*fail)
        with seams.use(e):
            res = fn()
        n = [_lib['shim_calls'], _lib['stub_calls'], _lib['shim_failed'] + _lib['stub_failed']]
        if n[2]:
            sim.count('fault:%s' % ('allocation in binding' if _lib['shim_failed'] else 'library step'), n[2])
        _lib.reset()
        sim.ev('library', *n)
        e.settle(what)
        sim.check(_lib['shim_live'] == live, 'resource kept', '%s: %d C allocations' % (what, _lib['shim_live'] - live))
        sim.check(_lib['stub_files'] == files, 'resource kept', '%s: %d temporary files of the library' % (what, _lib['stub_files'] - files))
        return res, n

    def judge(what, patch):
        """the container is right and what is in it is what the library made"""
        try:
            if kind == 2:
                out = model.apply_sequential(patch, frm)
                sim.check(out == to, 'patch differs from the format', '%s: at %d of %d' % (what, first_diff(out, to), len(to)))
                return
            s = model.Src(patch)
            sim.check(s.take(1)[0] == 2 << 4 | comp % 7 and s.size() == len(to), 'patch header wrong', what)
            want = payload(frm, to, kind if block else 0, (score, block)[kind])
            if kind == 1 and not block:
                want = payload(frm, to, 0, 0)
            sim.check(s.size() == len(want), 'patch header wrong', '%s: size of the data' % what)
            got = model.decompress(compn, patch[s.p:])
            sim.check(got == want, 'data of the library changed', '%s: at %d of %d' % (what, first_diff(got, want), len(want)))
        except model.Bad as e:
            sim.fail('patch breaks the format', '%s: %s' % (what, e))

    def works(what, patch, chunks=()):
        res, out, _, n = apply(what, patch, frm, chunks=chunks)
        sim.check(res[0] == 'ok', 'created patch cannot be applied', '%s: %s' % (what, res[1]))
        sim.check(out == to and res[1] == len(to), 'created patch gives a wrong result', '%s: returned %s, at %d of %d' %
                  (what, res[1], first_diff(out, to), len(to)))
        return n

    if mode == 'bad option':
        a, t = BAD[bad % len(BAD)]
        k2 = dict(kw, algorithm=a, patch_type=t)
        sim.count('fault:bad option')
        res, patch, _, _ = go('bad option', kw=k2)
        sim.check(res[0] == 'raised', 'impossible request accepted', '%s %s: %d bytes written' % (a, t, len(patch)))
        return

    res, patch, base, ncreate = go('create')
    sim.check(res[0] == 'ok', 'creation failed on a healthy system', '%s %s: %s' % (KINDS[kind], compn, res[1]))
    sim.data(patch)
    judge('create', patch)
    napply = works('apply', patch, plan.get('short'))
    other = ENVS[(env % 5 + 1 + where % 4) % 5]
    res2, patch2, _, _ = go('create in another environment', envn=other)
    sim.check(res2[0] == 'ok' and patch2 == patch, 'patch depends on the environment', '%s: %s' % (other, res2[1]))
    if mode == 'healthy':
        return

    if mode == 'damaged patch':
        b = bytearray(patch)
        cut = bad % 2 == 0
        at = where * len(b) // 1001
        forged = kind != 2 and bad in (5, 7) and to
        if forged:
            src = model.Src(patch)
            src.take(1)
            n, m = src.size(), src.size()
            how = where % 4
            if how == 0:
                b[0] = patch[0] & 0x8f | (1, 3, 4, 5, 6, 7)[where // 4 % 6] << 4
            elif how == 1:
                b[0] = patch[0] & 0xf0 | 7 + where // 4 % 9
            else:
                b[1:src.p] = model.pack_size(n) + model.pack_size((-m, m + 1 + where // 4)[how - 2])
        elif cut:
            del b[at:]
        else:
            b[at] ^= 1 << bad
        sim.count('fault:%s patch' % ('forged' if forged else 'truncated' if cut else 'damaged'))
        chunks = plan.get('short')
        tries = lambda what: apply(what, bytes(b), frm, chunks=chunks)
        res, out, _, _ = tries('apply damaged')
        if forged:
            sim.check(res[0] == 'raised', 'forged patch accepted', '%s: header %s' % (compn, bytes(b[:12]).hex()))
        if cut:
            sim.check(res[0] == 'raised' or out == to and res[1] == len(to), 'success with a truncated patch', '%d of %d bytes' % (len(b), len(patch)))
    elif mode == 'other from-data':
        b = bytearray(frm)
        if bad % 2 or not b:
            b += bytes(1 + bad)
        else:
            b[where * len(b) // 1001] ^= 1 << bad
        sim.count('fault:other from-data')
        tries = lambda what: apply(what, patch, bytes(b))
        res, out, _, _ = tries('apply to other from-data')
        if kind != 2 and to:
            sim.check(res[0] == 'raised', 'success with other from-data', '')
    else:
        f = base
        if on_apply:
            _, _, f, _ = apply('apply', patch, frm)
        rows, fail = None, ()
        if mode == 'stream fault':
            rows = [[1 + max(0, a) * f.n // 1001, e, k, w] for a, e, k, w in plan.rows('faults')]
        else:
            for a, k in plan.rows('alloc'):
                i = mode == 'library fault'
                m = (napply if on_apply else ncreate)[i]
                if m:
                    fail = ('shim', 'stub')[i], 1 + max(0, a) * m // 1001, max(1, k)
        tries = (lambda what: apply(what, patch, frm, rows, fail)) if on_apply else (lambda what: go(what, rows, fail))
        res, out, faults, n = tries(mode)
        sim.count('outcome:%s %s' % (mode, res[0]))
        if not faults.fired and not n[2]:
            sim.check(res[0] == 'ok', 'raised without a fault', res[1])
        if res[0] == 'ok':
            if on_apply:
                sim.check(out == to and res[1] == len(to), 'success with a wrong result', '%s: at %d of %d' % (mode, first_diff(out, to), len(to)))
            else:
                judge('after a ' + mode, out)
    # zstandard itself loses a result at every write to a decompressor
    if again and compn != 'zstd':
        # the same failure over and over must not use up memory
        marks = array.array('Q', [0] * 5)
        for i in range(6):
            if i >= 2:
                gc.collect()
                marks[i - 2] = heap()
            tries('again')
        gc.collect()
        marks[4] = heap()
        grow = [b - a for a, b in zip(marks, marks[1:])]
        sim.check(min(grow) <= 24, 'memory lost at every failure', 'growth in bytes: %s' % min(grow))
    res, patch4, _, _ = go('create after the fault')
    sim.check(res[0] == 'ok' and patch4 == patch, 'patch depends on an earlier failure', res[1])
    works('apply after the fault', patch)
