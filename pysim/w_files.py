"""C19: the functions and commands that take file names, on a simulated file
layer: real scratch files under real buffered objects, with faults in between."""
import gc, io, os, shutil, sys, weakref
from io import BytesIO
from core import Faults, Rng, Violation, call
from w_apply import first_diff, gen_ops
import images, model, seams

WHAT = ['create', 'create in-place', 'create bsdiff', 'create data format', 'apply', 'apply in-place', 'apply bsdiff', 'info',
        'create hdiffpatch', 'apply hdiffpatch']
MODES = ['healthy', 'fault', 'missing file', 'truncated patch', 'disk full', 'output closed', 'bad argument']
RANGES = ['data-offsets', 'code-addresses', 'data-addresses']
COMP = ['none', 'lzma', 'crle', 'bz2', 'heatshrink', 'zstd', 'lz4']


def gen19(p, r, tier):
    n = r.pick([0, 1, 3, r.size(60), r.size(400), r.size(2000)])
    w = r.range(4, 15)
    mode = r.pick([0, 1, 1, 1, 1, 1, 1, 1, 2, 3, 4, 5, 6])
    p.add('cfg', [r.pick([0, 0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9]), r.range(0, 6), n, r.pick([0, 1, 2, 5]), r.range(0, 1 << 40), w, r.range(3, w - 1),
                  r.pick([0, 1, 1]), r.pick([16, 64, 512, 4096, 8192]), r.pick([0, 1, 2]), r.range(0, 255)])
    p.add('geometry', [r.pick([1, 8, 16, 64, 64, 256, 1000, 4096]), r.pick([0, 0, 1, 2]), r.pick([-1, 0, 1, 2])])
    p.add('mode', [mode, r.range(0, 1000), r.range(0, 9)])
    p.add('clock', r.pick([[], [], [r.range(-5000, 5000) for _ in range(3)], [-1 << 31], [1 << 33]]), 1, True)
    rows = []
    for _ in range(r.pick([1, 1, 1, 2])):
        rows += [r.range(0, 1000), r.pick([0, 0, 0, 1, 1, 8, 9, 10, 11]), r.pick([1, 1, 1, 2, 1000000]), r.pick([0, 0, 500, 999])]
    p.add('faults', rows if mode == 1 else [], 4, True)
    p.add('short', [r.range(1, 40) for _ in range(r.pick([0, 0, 1, 3]))], 1, True)


class Raw(io.FileIO):
    """a file of the simulated file layer"""

    def __init__(self, env, path, mode, who):
        self.env, self.who, self.last = env, who, None
        super().__init__(path, mode)

    def readinto(self, b):
        self.env.fstep(self.who, 'read')
        b = memoryview(b).cast('B')
        return super().readinto(b[:self.env.short(len(b))])

    def read(self, n=-1):
        self.env.fstep(self.who, 'read')
        return super().read(n if n is None or n < 0 else self.env.short(n))

    def readall(self):
        self.env.fstep(self.who, 'read')
        return super().readall()

    def write(self, b):
        env = self.env
        b = bytes(memoryview(b).cast('B'))
        f = env.fault(self.who, 'write')
        if f:
            b = b[:len(b) * f[1] // 1000]
        room = env.room(self, len(b))
        if room < len(b) and not f:
            env.sim.count('fault:disk full')
            f = OSError(28, 'simulated: no space left'), 0
            b = b[:room]
        n = 0
        if b and not f:
            b = b[:env.short(len(b))]
        if b:
            pos, size = super().tell(), os.fstat(self.fileno()).st_size
            self.last = pos, os.pread(self.fileno(), len(b), pos) if self.readable() else None, size
            n = super().write(b)
            env.sim.data(b)
        env.sim.ev('write', self.who, n)
        if f and not n:
            raise f[0]
        if f:
            env.pending.append((self, f[0]))       # the rest fails at the next attempt
        return n

    def seek(self, *a):
        self.env.fstep(self.who, 'seek')
        return super().seek(*a)

    def truncate(self, *a):
        self.env.fstep(self.who, 'truncate')
        return super().truncate(*a)

    def close(self):
        if self.closed:
            return
        f = self.env.fault(self.who, 'close')
        if f and self.last and f[1]:
            # a file system that reports the write failure at close
            pos, old, size = self.last
            if old:
                os.pwrite(self.fileno(), old, pos)
            os.ftruncate(self.fileno(), size)
            self.env.sim.count('fault:write lost at close')
        super().close()
        if f:
            raise f[0]


class FileEnv(seams.Env):
    def __init__(self, sim, d, faults, clock, bufsize, shorts, quota=None):
        super().__init__(sim, faults, True, clock)
        self.d, self.bufsize, self.shorts, self.si = d, max(1, bufsize), list(shorts), 0
        self.files, self.pending, self.quota = [], [], quota
        self.prints, self.closed_at, self.hangup = 0, None, 0

    def fault(self, who, op):
        for i, (raw, e) in enumerate(self.pending):
            if op in ('write', 'close') and raw.who == who:
                del self.pending[i]
                return e, 0
        f = self.faults.step(who, op) if self.faults else None
        self.sim.ev(op, who)
        return f

    def fstep(self, who, op):
        f = self.fault(who, op)
        if f:
            raise f[0]

    def printing(self):
        """the reader of the standard output goes away at some print"""
        self.prints += 1
        if self.closed_at is not None and self.prints >= self.closed_at:
            self.sim.count('fault:standard output closed')
            raise (BrokenPipeError(32, 'simulated'), OSError(5, 'simulated'), OSError(28, 'simulated'))[self.hangup % 3]

    def short(self, n):
        """a raw file may transfer less than asked for"""
        if n <= 1 or not self.shorts:
            return n
        c = self.shorts[self.si % len(self.shorts)]
        self.si += 1
        if c < n:
            self.sim.count('fault:short transfer')
        return min(n, c)

    def room(self, raw, n):
        if self.quota is None:
            return n
        return min(n, max(0, self.quota - os.lseek(raw.fileno(), 0, os.SEEK_CUR)))

    def open(self, path, mode='r', buffering=-1, *a, **k):
        if not isinstance(path, str) or os.path.dirname(path) != self.d or 'b' not in mode:
            return super().open(path, mode, buffering, *a, **k)
        who = os.path.basename(path)
        self.fstep(who, 'open')
        raw = Raw(self, path, mode.replace('b', ''), who)
        self.sim.ev('opened', who, mode)
        if buffering == 0:
            f = raw
        elif '+' in mode:
            f = io.BufferedRandom(raw, self.bufsize)
        elif 'r' in mode:
            f = io.BufferedReader(raw, self.bufsize)
        else:
            f = io.BufferedWriter(raw, self.bufsize)
        self.files.append(weakref.ref(raw))
        del raw
        return f

    def settle(self, what):
        super().settle(what)
        n = sum(x() is not None and not x().closed for x in self.files)
        self.sim.check(n == 0, 'resource kept', '%s: %d files are still open' % (what, n))


class Out(io.StringIO):
    def __init__(self, env):
        super().__init__()
        self.env = env

    def write(self, s):
        self.env.fstep('stdout', 'print')
        if isinstance(self.env, FileEnv):
            self.env.printing()
        return super().write(s)


def command(sim, detools, what, argv, env):
    """-> as call(), and what was printed"""
    o, e, a = sys.stdout, sys.stderr, sys.argv
    out = Out(env)
    sys.stdout, sys.stderr, sys.argv = out, io.StringIO(), ['detools'] + argv

    def main():
        try:
            return detools._main()
        except SystemExit as x:
            if x.code is None or x.code == 0:
                return None
            raise
    try:
        res = call(sim, what, main)
    finally:
        sys.stdout, sys.stderr, sys.argv = o, e, a
    return res, out.getvalue()


def rd(path):
    with open(path, 'rb') as f:
        return f.read()


def wr(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def hexed(v, style):
    return ('%d', '0x%x', '0X%X')[style % 3] % v


def exec19(plan, sim, detools):
    d = os.path.join(os.environ.get('DETSIM_SCRATCH', '/tmp'), 'detsim-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    try:
        run19(plan, sim, detools, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run19(plan, sim, detools, d):
    what, comp, n, edits, seed, hw, hl, cli, bufsize, stale, style = (plan.get('cfg') + [0] * 11)[:11]
    what, comp = WHAT[what % len(WHAT)], COMP[comp % 7]
    hw = max(4, min(15, hw))
    hl = max(3, min(hw - 1, hl))
    mode, par, which = (plan.get('mode') + [0] * 3)[:3]
    mode = MODES[mode % len(MODES)]
    r = Rng(seed)
    fmt = None
    if what == 'create data format':
        frm, to, fmt = images.pair(r, small=n < 100)
    else:
        frm, to = images.related(r, max(0, min(n, 20000)), max(0, edits))
    seg, extra, minshift = (plan.get('geometry') + [0] * 3)[:3]
    seg = max(1, seg, -(-len(to) // 60), -(-len(frm) // 60))
    kw = dict(compression=comp, heatshrink_window_sz2=hw, heatshrink_lookahead_sz2=hl,
              suffix_array_algorithm=('divsufsort', 'sais')[style & 1])
    shift = 2 * seg if minshift < 0 else minshift * seg
    mem = seg * (-(-max(len(frm), len(to)) // seg) + max(0, extra)) + shift
    mem = max(mem, seg)
    if 'in-place' in what:
        kw.update(patch_type='in-place', memory_size=mem, segment_size=seg, minimum_shift_size=None if minshift < 0 else shift)
    elif 'bsdiff' in what:
        kw = dict(patch_type='bsdiff')
    elif fmt:
        kw.update(fmt)
    elif 'hdiffpatch' in what:
        # stands in for a library that is not here, see w_hdiff.py
        hdiff = [dict(algorithm='hdiffpatch', patch_type='hdiffpatch', match_score=style >> 2 & 7),
                 dict(algorithm='match-blocks', patch_type='hdiffpatch', match_block_size=64 << (style >> 2 & 7)),
                 dict(algorithm='match-blocks', patch_type='sequential', match_block_size=64 << (style >> 2 & 7))][seed % 3]
        kw.update(hdiff)
    elif what == 'info' and style & 2:
        kw.update(patch_type='in-place', memory_size=mem, segment_size=seg, minimum_shift_size=None if minshift < 0 else shift)
    pb = BytesIO()
    res = call(sim, 'reference', detools.create_patch, BytesIO(frm), BytesIO(to), pb, use_mmap=False, **kw)
    if 'hdiffpatch' in what and 'NotImplementedError' in str(res[1]):
        return
    sim.check(res[0] == 'ok', 'creation failed', res[1])
    patch = pb.getvalue()
    sim.data(patch)
    sim.nontrivial = True
    sim.count('probe:%s %s' % (what, 'command' if cli else 'function'))
    sim.count('probe:' + mode)
    memory = frm + Rng(seed ^ 5).bytes(max(0, mem - len(frm)))
    P = {k: os.path.join(d, k) for k in ('from', 'to', 'patch', 'memory', 'elf1', 'elf2')}
    junk = Rng(seed ^ 9).bytes((0, 7, 3 * max(len(patch), len(to)) + 50)[stale % 3])
    given = {'from': frm, 'to': to, 'patch': patch, 'memory': memory}
    cut = None
    if mode == 'truncated patch' and ('apply' in what or what == 'info') and patch:
        cut = par * len(patch) // 1001
        given['patch'] = patch[:cut]
    if what.startswith('create'):
        inputs, output, expect = ['from', 'to'], 'patch', patch
    elif what == 'info':
        inputs, output, expect = ['patch'], None, None
    elif what == 'apply in-place':
        inputs, output, expect = ['patch'], 'memory', to
    else:
        inputs, output, expect = ['from', 'patch'], 'to', to
    elf = what == 'create data format' and cli and style & 4 and fmt.get('from_code_begin') and fmt.get('from_data_begin') and fmt.get('to_data_begin')
    if elf:
        # one ELF file in four says something else, then the patch is still right if one is made
        odd = [Rng(seed + 77 + i) if style & 192 == 192 else None for i in (0, 1)]
        (given['elf1'], place1), (given['elf2'], place2) = images.elf(frm, fmt, 'from', style, odd[0]), images.elf(to, fmt, 'to', style, odd[1])
        elf = 'odd' if odd[0] else elf
        inputs += ['elf1', 'elf2']
    argv = fn = None
    cmd = {'create': 'create_patch', 'create in-place': 'create_patch_in_place', 'create bsdiff': 'create_patch_bsdiff', 'create data format': 'create_patch',
           'create hdiffpatch': 'create_patch', 'apply hdiffpatch': 'apply_patch', 'apply': 'apply_patch', 'apply in-place': 'apply_patch_in_place', 'apply bsdiff': 'apply_patch_bsdiff', 'info': 'patch_info'}[what]
    if cli:
        argv = (['-d'] if style & 8 else []) + (['-l', 'info'] if style & 16 else []) + [cmd]
        if what.startswith('create') and what != 'create bsdiff':
            argv += ['-c', comp, '-s' if style & 2 else '--suffix-array-algorithm', kw['suffix_array_algorithm'],
                     '--heatshrink-window-sz2', str(hw), '--heatshrink-lookahead-sz2', str(hl)] + (['--no-mmap'] if style & 32 else [])
        if what == 'create in-place':
            argv += ['--memory-size', str(mem) if mem % 1024 or style & 2 else '%dk' % (mem // 1024), '--segment-size', str(seg)]
            if minshift >= 0:
                argv += ['--minimum-shift-size', str(shift)]
        if what == 'create hdiffpatch':
            argv += ['-t' if style & 1 else '--patch-type', hdiff['patch_type'], '-a', hdiff['algorithm']]
            argv += ['--match-score', str(hdiff['match_score'])] if 'match_score' in hdiff else \
                ['--match-block-size', str(hdiff['match_block_size']) if style & 2 or hdiff['match_block_size'] % 1024 else '%dk' % (hdiff['match_block_size'] // 1024)]
        if fmt:
            argv += ['--data-format', fmt['data_format']]
            rng = []
            for side in ('from', 'to'):
                for opt, key in (('data-offsets', '_data_offset'), ('data-addresses', '_data'), ('code-addresses', '_code')):
                    a, b = fmt.get(side + key + '_begin', 0), fmt.get(side + key + '_end', 0)
                    if a or b:
                        rng += ['--%s-%s' % (side, opt), '%s-%s' % (hexed(a, style), hexed(b, style >> 1))]
            if elf:
                argv += ['--from-elf-file', P['elf1'], '--to-elf-file', P['elf2']]
                rng = []
                sim.count('probe:ranges from ELF files')
                if style & 1:
                    # where the image starts in the ELF file, would be found by searching otherwise
                    for side, place in (('from', place1), ('to', place2)):
                        o = fmt[side + '_data_offset_begin']
                        argv += ['--%s-elf-offset' % side, str(place - o)]
            argv += rng
        argv += {'create': [P['from'], P['to'], P['patch']], 'apply': [P['from'], P['patch'], P['to']]}.get(what.split()[0], [P['patch']]) \
            if what != 'apply in-place' else [P['memory'], P['patch']]
        if what == 'info':
            argv[-1:-1] = (['--no-human'] if style & 1 else []) + (['--detailed'] if style & 4 else [])
    elif what.startswith('create'):
        fn = lambda: detools.create_patch_filenames(P['from'], P['to'], P['patch'], use_mmap=not style & 32, **kw)
    elif what in ('apply', 'apply hdiffpatch'):
        fn = lambda: detools.apply_patch_filenames(P['from'], P['patch'], P['to'])
    elif what == 'apply in-place':
        fn = lambda: detools.apply_patch_in_place_filenames(P['memory'], P['patch'])
    elif what == 'apply bsdiff':
        fn = lambda: detools.apply_patch_bsdiff_filenames(P['from'], P['patch'], P['to'])
    else:
        fn = lambda: detools.patch_info_filename(P['patch'])
    told = None
    if what == 'info' and not cut:
        told = call(sim, 'reference', detools.patch_info, BytesIO(patch))[1]

    base_prints = [0]

    def go(mode, rows=(), quota=None, closed_at=None):
        """one invocation on a fresh disk -> ok, result, printed, faults"""
        for k in P:
            if os.path.isdir(P[k]):
                os.rmdir(P[k])
            elif os.path.exists(P[k]):
                os.unlink(P[k])
        for k in inputs:
            wr(P[k], given[k])
        if output == 'memory':
            wr(P[output], memory)
        elif output and stale:
            wr(P[output], junk)
        gone = None
        if mode == 'missing file':
            names = inputs + ([output] if output else [])
            gone = names[which % len(names)]
            if os.path.exists(P[gone]):
                os.unlink(P[gone])
            if gone == output and gone != 'memory' or which >= 5:
                os.mkdir(P[gone])
            sim.count('fault:%s %s' % ('is a directory' if os.path.isdir(P[gone]) else 'missing', gone))
        before = sorted(os.listdir(d))
        faults = Faults(sim, rows)
        env = FileEnv(sim, d, faults, plan.get('clock'), bufsize, plan.get('short'), quota)
        env.closed_at, env.hangup = closed_at, which
        printed = ''
        with seams.use(env):
            if cli:
                res, printed = command(sim, detools, mode, argv, env)
            else:
                res = call(sim, mode, fn)
        env.settle(mode)
        base_prints[0] = env.prints
        seams.cur = None
        ok = res[0] == 'ok'
        for k in inputs:
            if k != gone:
                sim.check(rd(P[k]) == given[k], 'input modified', '%s: %s' % (what, k))
        extra = sorted(set(os.listdir(d)) - set(before) - {output})
        sim.check(not extra, 'stray file', '%s leaves %s' % (what, extra))
        if ok and gone:
            sim.fail('success with a file missing', '%s: %s' % (what, gone))
        if ok and output:
            got = rd(P[output]) if os.path.exists(P[output]) else b''
            if output == 'memory':
                sim.check(len(got) == len(memory), 'memory file changed size', '%d of %d' % (len(got), len(memory)))
                got = got[:len(to)]
            if elf == 'odd':
                try:
                    sim.check(model.apply_sequential(got, frm) == to, 'success without the whole output', 'another result with an odd ELF file')
                except model.Bad as e:
                    sim.fail('success without the whole output', 'bad patch with an odd ELF file: %s' % e)
            else:
                sim.check(got == expect, 'success without the whole output', '%s %s: %d bytes of %d, first difference at %d' %
                          (what, mode, len(got), len(expect), first_diff(got, expect)))
            sim.data(got)
            if not cli and what.startswith('apply'):
                sim.check(res[1] == len(to), 'wrong size returned', '%s of %d' % (res[1], len(to)))
        if what == 'info' and ok and not cut:
            if not cli:
                sim.check(res[1] == told, 'information differs from that of the open file', '')
            else:
                sim.check('Patch size' in printed and 'To size' in printed, 'no information printed', printed[:100])
        if cli and ok and what != 'info':
            sim.check('Successfully created' in printed, 'success not reported', printed[:100])
        if not ok:
            sim.check(res[0] == 'raised', 'harness', '')
        return ok, res[1], printed, faults

    if mode == 'missing file':
        go(mode)
        return
    if mode == 'bad argument' and cli:
        # refused before any file is touched
        i = argv.index(cmd) + 1
        ranged = what in ('create', 'create in-place', 'create data format', 'create hdiffpatch')
        k = which % (9 if ranged else 3)
        if k >= 3:
            bad = [('--%s-%s' % (('from', 'to')[par & 1], RANGES[par >> 1 & 3 if par >> 1 & 3 < 3 else 0])) +
                   '=' + ('0x10-0xf', '16', '1-2-3', 'a-b', '0x10-', '-5')[k - 3]]
        elif k == 2:
            bad = [['--no-such-option'], ['-c', 'zip'], ['--memory-size', 'much']][par % 3]
        else:
            bad = []
            argv = argv[:-1] if k else argv + ['more']
        argv = argv[:-3] + bad + argv[-3:] if what.startswith('create') else argv[:i] + bad + argv[i:]
        sim.count('fault:bad argument')
        ok, res, _, faults = go(mode)
        sim.check(not ok, 'success with a bad argument', ' '.join(bad))
        sim.check(not faults.n, 'file touched though the arguments are bad', ' '.join(bad))
        if output and output != 'memory':
            sim.check((rd(P[output]) if os.path.exists(P[output]) else None) == (junk if stale else None),
                      'file touched though the arguments are bad', ' '.join(bad))
        return
    ok, res, printed, base = go('healthy')
    if elf == 'odd':
        sim.count('outcome:odd ELF file %s' % ('ok' if ok else 'raised'))
        return
    if cut is None:
        sim.check(ok, 'failed on a healthy file system', '%s: %s' % (what, res))
    else:
        sim.count('outcome:truncated patch ' + ('ok' if ok else 'raised'))
    if mode == 'fault':
        rows = [[1 + max(0, a) * base.n // 1001, e % 12 if e % 12 > 7 else e % 2, k, w] for a, e, k, w in plan.rows('faults')]
        ok, res, p2, faults = go(mode, rows)
        sim.count('outcome:fault %s' % ('ok' if ok else 'raised'))
        if not faults.fired:
            sim.check(ok or cut is not None, 'raised without a fault', res)
        if ok and what == 'info' and cli:
            sim.check(p2 == printed, 'success with other output', '')
    elif mode == 'output closed' and cli and base_prints[0]:
        n = 1 + par * base_prints[0] // 1001
        ok, res, _, faults = go(mode, closed_at=n)
        sim.count('outcome:output closed %s' % ('ok' if ok else 'raised'))
    elif mode == 'disk full' and output:
        quota = par * (len(memory) if output == 'memory' else len(expect)) // 1001
        ok, res, _, faults = go(mode, (), quota)
        sim.count('outcome:disk full %s' % ('ok' if ok else 'raised'))
        if output != 'memory' and len(expect) > quota:
            sim.check(not ok, 'success on a full disk', what)
    ok, res, p3, _ = go('afterwards')
    if cut is None:
        sim.check(ok, 'failed on a healthy file system', 'after a %s: %s' % (mode, res))
        if what == 'info':
            sim.check(p3 == printed, 'information depends on an earlier failure', '')
