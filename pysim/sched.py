"""A seeded scheduler of threads: one runs at a time, and it is switched at
lines (or instructions) of the code under test, at operations of its streams and at its locks."""
import ctypes, importlib, sys, threading, _thread
from core import Violation

cur = None                       # the Sched of the running simulation
_real = (_thread.allocate_lock, threading.RLock)


class Lock:
    """a lock of the code under test: waiting for it is a switch"""

    def __init__(self, kind=0):
        self.lock = _real[kind]()

    def acquire(self, blocking=True, timeout=-1):
        s = cur
        if s is None or not blocking or not s.mine():
            return self.lock.acquire(blocking, timeout)
        for _ in range(100000):
            if self.lock.acquire(False):
                return True
            if timeout >= 0 or not s.switch(0):
                break
        if timeout >= 0:
            return False
        s.sim.fail('deadlock', 'a lock is never released')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.lock.release()

    def __getattr__(self, name):
        return getattr(self.lock, name)


def install():
    """before the code under test is imported: its locks are known to the scheduler"""
    threading.Lock = lambda: Lock(0)
    threading.RLock = lambda: Lock(1)


def restore():
    threading.Lock, threading.RLock = _real


@ctypes.PYFUNCTYPE(None, ctypes.c_int)
def extension(cost):
    """an extension lets other threads run"""
    s = cur
    if s is not None and s.mine() and not s.stop:
        try:
            s.sim.count('probe:interpreter lock released')
            s.point('extension', cost)
        except Violation:
            pass                             # comes again at the next line


def extensions(*names):
    for n in names:
        m = importlib.import_module(n)
        if m.__file__.endswith('.so'):
            ctypes.c_void_p.in_dll(ctypes.CDLL(m.__file__), 'shim_point').value = ctypes.cast(extension, ctypes.c_void_p).value


class Sched:
    def __init__(self, sim, pkg, rows, repeat, fine):
        self.sim, self.pkg, self.fine = sim, pkg, fine
        self.rows, self.repeat, self.ri = rows, repeat, 0
        self.left = rows[0][0] if rows else 1 << 60
        self.points = self.switches = 0
        self.alive, self.now, self.stop = [], -1, False
        self.seen = set()

    def mine(self):
        return self.now >= 0 and self.ids.get(threading.get_ident()) == self.now

    def next_row(self):
        if self.ri < len(self.rows):
            row = self.rows[self.ri]
            self.ri += 1
            if self.ri == len(self.rows) and self.repeat:
                self.ri = 0
            return row
        return None

    def point(self, where='', cost=1):
        self.points += 1
        self.left -= cost
        if self.left > 0:
            return
        # not while something is imported, others would wait for it
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_name == '<module>':
                return
            f = f.f_back
        row = self.next_row()
        if row is None:
            self.left = 1 << 60
            return
        nxt = self.rows[self.ri % len(self.rows)] if self.ri < len(self.rows) else None
        self.left = max(1, nxt[0]) if nxt else 1 << 60
        self.seen.add(where)
        self.switch(row[1])

    def switch(self, which):
        me = self.now
        others = [i for i in self.alive if i != me]
        if not others:
            return False
        self.now = others[which % len(others)]
        self.switches += 1
        self.sim.ev('switch', me, self.now, self.points)
        self.go[self.now].release()
        self.go[me].acquire()
        if self.stop:
            raise Violation('stopped')
        return True

    def local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            if self.stop:
                raise Violation('stopped')
            self.point('%s:%s' % (frame.f_code.co_filename[len(self.pkg):], frame.f_code.co_name))
        return self.local

    def trace(self, frame, event, arg):
        c = frame.f_code
        if c.co_filename.startswith(self.pkg) and c.co_name != '<module>':
            frame.f_trace_opcodes = bool(self.fine)
            return self.local
        return None

    def body(self, i, fn):
        self.go[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            if not self.stop:
                sys.settrace(self.trace)
                try:
                    self.out[i] = fn()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            self.error = self.error or e
            self.stop = True
        self.alive.remove(i)
        self.sim.note('thread %d ends' % i)
        if self.alive:
            self.now = self.alive[self.points % len(self.alive)]
            self.go[self.now].release()
        else:
            self.now = -1
            self.done.release()

    def run(self, fns):
        """-> what they return"""
        global cur
        n = len(fns)
        self.go = [_real[0]() for _ in range(n)]
        self.done = _real[0]()
        for l in self.go + [self.done]:
            l.acquire()
        self.out, self.error, self.ids = [None] * n, None, {}
        self.alive = list(range(n))
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        sys._getframe().f_trace_opcodes = bool(self.fine)  # has an effect on later settrace() only
        cur, self.now = self, 0
        self.go[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        cur = None
        if self.error is not None:
            raise self.error
        return self.out
