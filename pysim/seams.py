"""Replaceable parts of the environment, installed before detools is imported.

Outside a run (cur is None) everything behaves as usual."""
import builtins, gc, io, mmap, os, tempfile, time, weakref

cur = None                 # the Env of the running simulation
_real = dict(mmap=mmap.mmap, tmp=tempfile.TemporaryFile, open=builtins.open, time=time.time)


class TempFile:
    """a temporary file on simulated storage; backed by anonymous memory so that it can be mapped"""

    def __init__(self, env):
        self.env = env
        self.f = os.fdopen(os.memfd_create('t'), 'w+b', buffering=0)
        self.closed = False

    def _do(self, op, *a):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.env.step('temporary file', op)
        return getattr(self.f, op)(*a)

    def truncate(self, size=None):
        return self._do('truncate', size)

    def flush(self):
        return self._do('flush')

    def seek(self, *a):
        return self._do('seek', *a)

    def tell(self):
        return self._do('tell')

    def read(self, *a):
        return self._do('read', *a)

    def write(self, d):
        return self._do('write', d)

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        return self._do('readinto', b)

    def writelines(self, lines):
        for d in lines:
            self.write(d)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def close(self):
        self.closed = True
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Env:
    """environment of one run: numbers the operations, injects faults, remembers what was opened"""

    def __init__(self, sim, faults=None, mmap_works=True, clock=()):
        self.sim, self.faults = sim, faults
        self.mmap_works = mmap_works
        self.maps, self.temps = [], []
        self.clock, self.now, self.ci = list(clock), 1700000000.0, 0

    def step(self, who, op):
        f = self.faults.step(who, op) if self.faults else None
        self.sim.ev(op, who)
        if f:
            raise f[0]

    def mmap(self, *a, **k):
        self.step('mapping', 'mmap')
        if not self.mmap_works:
            self.sim.count('fault:mapping unavailable')
            raise (io.UnsupportedOperation, ValueError)[self.mmap_works is None]('simulated: cannot map')
        m = _real['mmap'](*a, **k)
        self.maps.append(weakref.ref(m))
        return m

    def tmp(self, *a, **k):
        self.step('temporary file', 'create')
        t = TempFile(self)
        self.temps.append(weakref.ref(t))
        return t

    def time(self):
        """a clock that jumps as planned"""
        d = self.clock[self.ci % len(self.clock)] if self.clock else 0
        self.ci += 1
        if d:
            self.sim.count('fault:clock jump')
        self.now += d + 0.001
        return self.now

    def open(self, *a, **k):
        return _real['open'](*a, **k)

    def settle(self, what):
        """everything taken was given back"""
        gc.collect(0)
        n, t = (sum(x() is not None and not x().closed for x in l) for l in (self.maps, self.temps))
        self.maps, self.temps = [], []
        self.sim.check(n == 0, 'resource kept', '%s: %d mappings are still open' % (what, n))
        self.sim.check(t == 0, 'resource kept', '%s: %d temporary files are still open' % (what, t))


class use:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        global cur
        cur = self.env
        return self.env

    def __exit__(self, *a):
        global cur
        cur = None


def install():
    def wrap(name, attr):
        real = _real[name]

        def f(*a, **k):
            return getattr(cur, attr)(*a, **k) if cur is not None else real(*a, **k)
        return f
    mmap.mmap = wrap('mmap', 'mmap')
    tempfile.TemporaryFile = wrap('tmp', 'tmp')
    builtins.open = io.open = wrap('open', 'open')
    time.time = wrap('time', 'time')
