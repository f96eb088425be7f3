"""C24: operations of the Python package side by side in threads, switched at
any line (or instruction) of its code and at any stream operation, each compared with itself alone."""
import io, os, shutil, sys, tempfile
from io import BytesIO
from core import Faults, Rng, Stream, call
import images, model, sched

KINDS = ['create', 'create in-place', 'create bsdiff', 'create data format', 'apply', 'apply in-place', 'apply bsdiff', 'apply data format',
         'info', 'info data format', 'create hdiffpatch', 'apply hdiffpatch']
WEIGHT = [0, 0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8, 9, 9, 10, 11]


def gen24(p, r, tier):
    one = r.pick(WEIGHT) if r.chance(35) else None
    seed = r.range(0, 1 << 40)
    rows = []
    for i in range(r.pick([2, 2, 2, 3, 4])):
        n = r.pick([r.size(60), r.size(300), r.size(900)])
        rows += [r.pick(WEIGHT) if one is None else one, r.range(0, 6), n, r.range(0, 4), seed if r.chance(35) else r.range(0, 1 << 40),
                 r.chance(25), r.range(0, 1000) if r.chance(15) else -1, r.range(0, 11)]
    p.add('jobs', rows, 8)
    style = r.range(0, 4)
    if style == 0:                                   # few switches anywhere
        rows = [[r.size(20000), r.range(0, 3)] for _ in range(r.range(1, 5))]
    elif style == 1:                                 # lock step
        rows = [[r.range(1, 3), r.range(0, 3)] for _ in range(r.range(1, 30))]
    else:
        k = r.pick([5, 30, 100, 400, 2000])
        rows = [[r.range(1, k), r.range(0, 3)] for _ in range(r.range(1, 60))]
    p.add('switches', [x for row in rows for x in row], 2, True)
    p.add('repeat', [1 if style else 0])
    p.add('fine', [1 if r.chance(15) else 0])


class Shared(Stream):
    """a stream whose operations may wait"""

    def _step(self, op):
        s = sched.cur
        if s is not None and s.mine() and not s.stop:
            s.point('stream ' + op)
        return Stream._step(self, op)

    def seek(self, off, whence=0):
        self.sim.ev('seek', self.name, off, whence)
        return Stream.seek(self, off, whence)


class Job:
    def __init__(self, sim, detools, i, row, d):
        self.kind, comp, n, edits, seed, files, self.fault_at, self.err = row
        self.sim, self.i, self.dt = sim, i, detools
        self.kind = KINDS[self.kind % len(KINDS)]
        what, _, form = self.kind.partition(' ')
        self.what, self.ops = what, 0
        r = Rng(seed)
        comp = model.COMP[comp % 7]
        kw = dict(compression=comp, suffix_array_algorithm=('divsufsort', 'sais')[seed & 1])
        if form == 'data format':
            self.frm, self.to, fmt = images.pair(r, small=True)
            kw.update(fmt)
        else:
            self.frm, self.to = images.related(r, max(0, min(n, 5000)), max(0, edits))
        seg = r.pick([16, 64, 100, 512])
        self.mem = seg * (-(-max(1, len(self.frm), len(self.to)) // seg) + r.range(2, 6))
        if form == 'in-place' or what == 'info' and seed & 2 and not form:
            kw.update(patch_type='in-place', memory_size=self.mem, segment_size=seg)
        elif form == 'bsdiff':
            kw = dict(patch_type='bsdiff')
        elif form == 'hdiffpatch':
            kw.update([dict(algorithm='hdiffpatch', patch_type='hdiffpatch', match_score=seed >> 2 & 7),
                       dict(algorithm='match-blocks', patch_type='hdiffpatch', match_block_size=64),
                       dict(algorithm='match-blocks', patch_type='sequential', match_block_size=64)][seed % 3])
        self.kw, self.form, self.skip = kw, form, False
        self.patch = b''
        if what != 'create':
            p = BytesIO()
            res = call(sim, 'patch', detools.create_patch, BytesIO(self.frm), BytesIO(self.to), p, use_mmap=False, **kw)
            if res[0] != 'ok':
                sim.check(form == 'hdiffpatch' and 'NotImplemented' in res[1] or form == 'data format', 'creation failed', res[1])
                self.skip = True
            self.patch = p.getvalue()
        self.files = files and self.fault_at < 0
        if self.files:
            # the same content has the same name: several may read the same file
            self.path = {}
            for k, b in (('from', self.frm), ('to', self.to), ('patch', self.patch)):
                self.path[k] = os.path.join(d, '%s-%s-%d-%d' % (k, self.kind.replace(' ', '-'), seed, row[2] * 64 + row[3] * 8 + row[1]))
                with open(self.path[k], 'wb') as f:
                    f.write(b)
            self.path['out'] = os.path.join(d, 'out%d' % i)
        sim.count('probe:%s%s' % (self.kind, ' by file name' if self.files else ''))

    def run(self, faulty=True):
        """-> outcome, one tuple that can be compared"""
        sim, dt = self.sim, self.dt
        rows = [[1 + self.fault_at * self.ops // 1001, self.err, 1, 500]] if faulty and self.fault_at >= 0 and self.ops else ()
        faults = Faults(sim, rows)
        name = 'job%d.' % self.i
        f, t, p = (Shared(sim, name + n, b, faults, 'r') for n, b in (('from', self.frm), ('to', self.to), ('patch', self.patch)))
        o = Shared(sim, name + 'out', self.frm + bytes(max(0, self.mem - len(self.frm))) if self.kind == 'apply in-place' else b'', faults, 'w')
        P = self.path if self.files else {}
        if self.files:
            with open(P['out'], 'wb') as x:
                x.write(bytes(o.b))
        if self.what == 'create':
            fn = (lambda: dt.create_patch_filenames(P['from'], P['to'], P['out'], **self.kw)) if P else \
                (lambda: dt.create_patch(f, t, o, use_mmap=False, **self.kw))
        elif self.what == 'info':
            fn = (lambda: dt.patch_info_filename(P['patch'])) if P else (lambda: dt.patch_info(p))
        elif self.form == 'in-place':
            fn = (lambda: dt.apply_patch_in_place_filenames(P['out'], P['patch'])) if P else (lambda: dt.apply_patch_in_place(o, p))
        elif self.form == 'bsdiff':
            fn = (lambda: dt.apply_patch_bsdiff_filenames(P['from'], P['patch'], P['out'])) if P else (lambda: dt.apply_patch_bsdiff(f, p, o))
        else:
            fn = (lambda: dt.apply_patch_filenames(P['from'], P['patch'], P['out'])) if P else (lambda: dt.apply_patch(f, p, o))
        res = call(sim, self.kind, fn)
        self.ops = max(self.ops, faults.n) if not rows else self.ops
        if self.files:
            with open(P['out'], 'rb') as x:
                got = x.read()
        else:
            got = bytes(o.b)
        return res[0], res[1], got


def exec24(plan, sim, detools):
    d = tempfile.mkdtemp(prefix='detsim', dir='/dev/shm')
    sched.extensions('detools.bsdiff', 'detools.suffix_array', 'detools.hdiffpatch')
    real = sys.stdout, sys.stderr, os.getcwd()
    try:
        # what a thread prints, and where it would, is checked in the end
        sys.stdout = out = io.StringIO()
        run24(plan, sim, detools, d)
        sim.check(sys.stdout is out, 'standard output replaced', 'sys.stdout is something else afterwards')
        sim.check(out.getvalue() == '', 'output', 'text printed: %s' % out.getvalue()[:100])
        sim.check(sys.stderr is real[1], 'standard output replaced', 'sys.stderr is something else afterwards')
        sim.check(os.getcwd() == real[2], 'working directory changed', os.getcwd())
    finally:
        sys.stdout, sys.stderr = real[:2]
        shutil.rmtree(d, ignore_errors=True)


def describe(got, want):
    for name, a, b in zip(('outcome', 'result', 'output'), got, want):
        if a != b:
            if isinstance(a, bytes):
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return '%s of %d bytes instead of %d, first difference at %d' % (name, len(a), len(b), k)
            return '%s %s instead of %s' % (name, str(a)[:150], str(b)[:150])


def run24(plan, sim, detools, d):
    jobs = [Job(sim, detools, i, row, d) for i, row in enumerate(plan.rows('jobs'))]
    jobs = [j for j in jobs if not j.skip]
    if not jobs:
        return
    alone = []
    for j in jobs:
        if j.fault_at >= 0:
            j.run(False)                             # how many operations there are
        want = j.run()
        if j.what == 'apply' and j.fault_at < 0:
            sim.check(want[0] == 'ok' and want[2][:len(j.to)] == j.to, 'wrong result', '%s alone' % j.kind)
        if j.what == 'create' and j.fault_at < 0 and want[0] != 'ok':
            sim.check(j.form in ('hdiffpatch', 'data format'), 'creation failed', want[1])
        sim.data(want[2])
        sim.count('outcome:%s %s' % ('fault' if j.fault_at >= 0 else 'healthy', want[0]))
        alone.append(want)
    before = sorted(os.listdir(d))
    s = sched.Sched(sim, os.path.dirname(detools.__file__) + os.sep, plan.rows('switches'), plan.at('repeat', 0), plan.at('fine', 0))
    got = s.run([j.run for j in jobs])
    sim.count('probe:switches', s.switches)
    sim.count('probe:places switched at', len(s.seen))
    sim.nontrivial = s.switches > 0
    for j, g, w in zip(jobs, got, alone):
        sim.check(g == w, 'differs from the operation alone', '%s: %s' % (j.kind, describe(g, w)))
    sim.check(sorted(os.listdir(d)) == before, 'stray file', str(sorted(os.listdir(d)))[:200])
    for j, w in zip(jobs, alone):
        g = j.run()
        sim.check(g == w, 'differs afterwards', '%s: %s' % (j.kind, describe(g, w)))
