"""Core of the Python simulator: PRNG, plan, event log, faults, streams."""
import hashlib, io, os

M64 = (1 << 64) - 1


def mix64(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)


class Rng:
    def __init__(self, seed):
        self.s = mix64(seed ^ 0x5eed)

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
        return z ^ (z >> 31)

    def range(self, lo, hi):
        return lo if hi <= lo else lo + self.next() % (hi - lo + 1)

    def chance(self, pct):
        return self.next() % 100 < pct

    def size(self, hi):
        """small-biased: picks a magnitude first"""
        if hi <= 0:
            return 0
        bits = hi.bit_length()
        return min(hi, self.range(0, (1 << self.range(0, bits)) - 1))

    def pick(self, seq):
        return seq[self.next() % len(seq)]

    def bytes(self, n, alphabet=256):
        out = bytearray()
        while len(out) < n:
            out += self.next().to_bytes(8, 'little')
        del out[n:]
        if alphabet < 256:
            out = bytearray(b % alphabet for b in out)
        return bytes(out)


class Plan:
    """named lists of integers: the whole input of one run"""

    def __init__(self, prop='', seed=0, index=0):
        self.prop, self.seed, self.index = prop, seed, index
        self.lists = []

    def add(self, name, vals, stride=1, droppable=False):
        self.lists.append((name, stride, droppable, [int(v) for v in vals]))

    def get(self, name):
        for n, _, _, v in self.lists:
            if n == name:
                return v
        return []

    def at(self, name, i, default=0):
        v = self.get(name)
        return v[i] if i < len(v) else default

    def rows(self, name):
        for n, s, _, v in self.lists:
            if n == name:
                return [v[i:i + s] for i in range(0, len(v) // s * s, s)]
        return []

    def text(self):
        return ('property %s\nseed %d index %d\n' % (self.prop, self.seed, self.index)
                + ''.join('list %s %d %d%s\n' % (n, s, d, ''.join(' %d' % x for x in v)) for n, s, d, v in self.lists))

    @staticmethod
    def parse(text):
        p = Plan()
        for l in text.splitlines():
            t = l.split()
            if not t or t[0].startswith('#'):
                continue
            if t[0] == 'property':
                p.prop = t[1]
            elif t[0] == 'seed':
                p.seed, p.index = int(t[1]), int(t[3])
            elif t[0] == 'list':
                p.lists.append((t[1], int(t[2]), t[3] == '1', [int(x) for x in t[4:]]))
        return p


class Violation(BaseException):
    """raised by the harness; never by the code under test"""


class Sim:
    def __init__(self, trace=False):
        self._h = hashlib.blake2b(digest_size=8)
        self.events = 0
        self.time_ns = 0
        self.violation = None
        self.tracing = trace
        self.trace = []
        self.counts = {}
        self.nontrivial = False
        self.limit = 400000

    def ev(self, kind, *args, ns=1000):
        self.events += 1
        self.time_ns += ns
        s = '%s %s' % (kind, ' '.join(map(str, args)))
        self._h.update(s.encode())
        if self.tracing and len(self.trace) < 4000:
            self.trace.append('%6d %s' % (self.events, s))
        if self.events > self.limit:
            self.fail('no-progress', 'more than %d simulated events' % self.limit)

    def data(self, b):
        self._h.update(len(b).to_bytes(8, 'little'))
        self._h.update(b)

    def note(self, s):
        if self.tracing and len(self.trace) < 4000:
            self.trace.append('       -- ' + s)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, cls, detail=''):
        if self.violation is None:
            self.violation = {'class': cls, 'detail': str(detail)[:600]}
            self.note('VIOLATION %s: %s' % (cls, detail))
        raise Violation(cls)

    def check(self, ok, cls, detail=''):
        if not ok:
            self.fail(cls, detail)

    def hash(self):
        return self._h.hexdigest()


class Fault(OSError):
    pass


ERRS = [lambda: OSError(5, 'simulated I/O error'), lambda: OSError(28, 'simulated: no space left'),
        lambda: MemoryError('simulated'), lambda: RuntimeError('simulated'), lambda: ValueError('simulated'),
        lambda: io.UnsupportedOperation('simulated'), lambda: EOFError('simulated'), lambda: IndexError('simulated'),
        lambda: BrokenPipeError(32, 'simulated'), lambda: PermissionError(13, 'simulated'), lambda: TimeoutError(110, 'simulated'),
        lambda: KeyboardInterrupt()]
ERRN = ['io-error', 'no-space', 'memory-error', 'runtime-error', 'value-error', 'unsupported', 'eof-error', 'index-error', 'broken-pipe',
        'permission', 'timeout', 'interrupt']


class Faults:
    """numbers every operation of a run; operation k.. fail as planned"""

    def __init__(self, sim, rows=()):
        self.sim = sim
        self.n = 0
        self.rows = [list(r) for r in rows]      # [op, error, length, partial]
        self.fired = 0
        self.log = []

    def step(self, who, op):
        """-> None or (exception, partial write permille)"""
        self.n += 1
        for at, err, length, partial in self.rows:
            if at <= self.n < at + max(1, length):
                self.fired += 1
                self.sim.count('fault:%s %s %s' % (who, op, ERRN[err % len(ERRN)]))
                self.sim.ev('fault', who, op, err)
                return ERRS[err % len(ERRS)](), partial
        return None


class Stream:
    """file-like object on simulated storage"""

    def __init__(self, sim, name, data, faults, mode='r', chunks=(), limit=None):
        self.sim, self.name, self.faults, self.mode = sim, name, faults, mode
        self.b = bytearray(data)
        self.pos = 0
        self.chunks, self.ci = list(chunks), 0     # short read schedule
        self.limit = limit                         # highest position that may be written
        self.given = []
        self.reads = 0
        self.before = b''                          # what the stream holds ahead of its data

    def _step(self, op):
        f = self.faults.step(self.name, op) if self.faults else None
        if f and op != 'write':
            raise f[0]
        return f

    def read(self, n=-1):
        self._step('read')
        left = max(0, len(self.b) - self.pos)
        k = left if n is None or n < 0 else min(n, left)
        if self.chunks and k > 1 and n is not None and n >= 0:
            c = self.chunks[self.ci % len(self.chunks)]
            self.ci += 1
            if 0 < c < k:
                k = c
                self.sim.count('fault:%s short read' % self.name)
        out = bytes(self.b[self.pos:self.pos + k])
        self.pos += k
        self.sim.ev('read', self.name, n, k)
        if k > 8 and len(self.given) < 64:
            self.given.append(out)
        return out

    def readinto(self, b):
        m = memoryview(b).cast('B')
        d = self.read(len(m))
        m[:len(d)] = d
        return len(d)

    def readall(self):
        return self.read()

    def writelines(self, lines):
        for d in lines:
            self.write(d)

    closed = False

    def write(self, data):
        d = bytes(data)
        if self.mode == 'r':
            self.sim.fail('input modified', 'write of %d bytes to %s' % (len(d), self.name))
        f = self._step('write')
        if f:
            d = d[:len(d) * f[1] // 1000]
        if self.limit is not None and d and self.pos + len(d) > self.limit:
            self.sim.fail('write outside the memory', '%s: %d bytes at %d, memory is %d' % (self.name, len(d), self.pos, self.limit))
        if self.pos > len(self.b):
            self.b += bytes(self.pos - len(self.b))
        self.b[self.pos:self.pos + len(d)] = d
        self.pos += len(d)
        self.sim.ev('write', self.name, self.pos - len(d), len(d))
        self.sim.data(d)
        if f:
            raise f[0]
        return len(d)

    def seek(self, off, whence=0):
        self._step('seek')
        base = (0, self.pos, len(self.b))[whence]
        if base + off < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = base + off
        return self.pos

    def tell(self):
        self._step('tell')
        return self.pos

    def after(self, n):
        """the data is preceded by n bytes of something else"""
        self.before = bytes((i * 37 + 91) & 255 for i in range(max(0, n)))
        self.b[:0] = self.before
        self.pos = len(self.before)
        return self

    def data(self):
        k = len(self.before)
        self.sim.check(self.b[:k] == self.before, 'data before the start changed', self.name)
        return bytes(self.b[k:])

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def flush(self):
        self._step('flush')

    def truncate(self, size=None):
        if self.mode == 'r':
            self.sim.fail('input modified', 'truncate of ' + self.name)
        size = self.pos if size is None else size
        self.sim.ev('truncate', self.name, size)
        del self.b[size:]
        self.b += bytes(size - len(self.b))
        return size

    def readable(self):
        return True

    def writable(self):
        return self.mode != 'r'

    def seekable(self):
        return True


def call(sim, what, fn, *a, **k):
    """-> ('ok', result) or ('raised', 'Type: text'); harness violations pass through"""
    try:
        r = ('ok', fn(*a, **k))
    except Violation:
        raise
    except BaseException as e:
        r = ('raised', '%s: %s' % (type(e).__name__, str(e)[:200]))
        name = type(e).__name__
    if sim.violation:
        raise Violation(sim.violation['class'])
    sim.ev('end', what, r[0], name if r[0] == 'raised' else '')
    return r
