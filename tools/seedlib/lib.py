"""Helpers of the demonstrations. The current directory is the repository;
everything is built and written in a scratch directory of our own."""

import atexit
import ctypes
import glob
import lzma
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
_SCRATCH = None


def scratch():
    global _SCRATCH

    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix='detools-demo-')
        atexit.register(shutil.rmtree, _SCRATCH, True)

    return _SCRATCH


def path(name, data=None):
    name = os.path.join(scratch(), name)

    if data is not None:
        with open(name, 'wb') as fout:
            fout.write(data)

    return name


def run(*command, **kwargs):
    return subprocess.run(command, **kwargs)


def c_sources():
    return [REPO + '/c/detools.c', REPO + '/c/heatshrink/heatshrink_decoder.c']


def c_flags():
    return ['-O1', '-g', '-I' + REPO + '/c', '-I' + REPO + '/c/heatshrink']


def build_so(*extra):
    out = path('libdetools.so')
    run('gcc', '-shared', '-fPIC', *c_flags(), *extra, *c_sources(),
        '-llzma', '-o', out, check=True)

    return ctypes.CDLL(out)


def build_exe(source, *extra):
    out = path('demo-exe')
    run('gcc', *c_flags(), *extra, path('demo.c', source.encode()),
        *c_sources(), '-llzma', '-o', out, check=True)

    return out


def build_cli(*extra):
    out = path('detools-cli')
    run('gcc', *c_flags(), *extra, REPO + '/c/main.c', *c_sources(),
        '-llzma', '-o', out, check=True)

    return out


def build_py(hdiff=False):
    """A copy of the Python package with its extensions built, and
    hdiffpatch.cpp with the stand-in library beside the demonstration."""

    pkg = path('py/detools')
    os.makedirs(path('py'))
    shutil.copytree(REPO + '/detools', pkg,
                    ignore=shutil.ignore_patterns('HDiffPatch', '__pycache__',
                                                  '*.so', '*.cpp'))

    with open(pkg + '/hdiffpatch.py' if not hdiff else os.devnull, 'w') as fout:
        fout.write('def create_patch(*args):\n'
                   '    raise NotImplementedError\n\n\n'
                   'apply_patch = create_patch\n')

    import sysconfig
    inc = sysconfig.get_paths()['include']
    suffix = sysconfig.get_config_var('EXT_SUFFIX')

    for name, sources in [('bsdiff', ['bsdiff.c']),
                          ('suffix_array', ['suffix_array.c', 'sais/sais.c',
                                            'libdivsufsort/divsufsort.c'])]:
        run('gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + inc, '-I' + pkg,
            '-I' + pkg + '/libdivsufsort', *[pkg + '/' + s for s in sources],
            '-o', pkg + '/' + name + suffix, check=True)

    if hdiff:
        here = os.path.dirname(os.path.abspath(__file__)) + '/hdiff'
        run('g++', '-shared', '-fPIC', '-O1', '-w', '-I' + inc, '-I' + here,
            '-Wl,--wrap=fseek,--wrap=fread', here + '/stub.cpp',
            REPO + '/detools/hdiffpatch.cpp',
            '-o', pkg + '/hdiffpatch' + suffix, check=True)

    sys.path.insert(0, path('py'))
    sys.dont_write_bytecode = True


def size(value):
    sign = 0x40 if value < 0 else 0
    value = abs(value)
    packed = [sign | (value & 0x3f)]
    value >>= 6

    while value:
        packed[-1] |= 0x80
        packed.append(value & 0x7f)
        value >>= 7

    return bytes(packed)


def crle_size(value):
    packed = [value & 0x7f]
    value >>= 7

    while value:
        packed[-1] |= 0x80
        packed.append(value & 0x7f)
        value >>= 7

    return bytes(packed)


NONE, LZMA, CRLE = 0, 1, 2


def diff(to_data, from_data):
    return bytes((t - f) & 0xff for t, f in zip(to_data, from_data))


def body(*entries):
    """Diff, extra, adjustment triples."""

    data = size(0)

    for d, e, a in entries:
        data += size(len(d)) + d + size(len(e)) + e + size(a)

    return data


def compress(compression, data):
    if compression == NONE:
        return data
    elif compression == LZMA:
        return lzma.compress(data, format=lzma.FORMAT_ALONE)
    else:
        return b'\x00' + crle_size(len(data)) + data


def sequential(compression, to_size, data):
    return bytes([compression]) + size(to_size) + compress(compression, data)


def in_place(compression, memory, segment, shift, from_size, to_size, data):
    return (bytes([0x10 | compression])
            + size(memory)
            + size(segment)
            + size(shift)
            + size(from_size)
            + size(to_size)
            + compress(compression, data))


def in_place_same(compression, memory, segment, shift, from_data, to_data):
    """An in-place patch of diffs against whatever is at the from offset (and
    extra data when there is nothing)."""

    shifted = from_data[:memory - shift]
    data = b''

    for i in range(0, len(to_data), segment):
        to = to_data[i:i + segment]
        begin = max(segment * (i // segment + 1) - shift, 0)
        frm = shifted[begin:begin + len(to)]
        data += body((diff(to, frm), to[len(frm):], 0))

    return in_place(compression, memory, segment, shift, len(from_data),
                    len(to_data), data)


P = ctypes.POINTER(ctypes.c_uint8)
READ = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, P, ctypes.c_size_t)
SEEK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int)
WRITE = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, P, ctypes.c_size_t)
MEMREAD = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, P, ctypes.c_size_t,
                           ctypes.c_size_t)
MEMWRITE = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t, P,
                            ctypes.c_size_t)
MEMERASE = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t,
                            ctypes.c_size_t)
STEPSET = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int)
STEPGET = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p,
                           ctypes.POINTER(ctypes.c_int))


class Seq:
    """A sequential apply."""

    def __init__(self, so, from_data, patch_size, hook=None):
        self.so = so
        self.from_data = from_data
        self.pos = 0
        self.to = bytearray()
        self.state = None
        self.hook = hook or (lambda name: 0)
        self.obj = ctypes.create_string_buffer(1 << 16)
        self.callbacks = [READ(self._read), SEEK(self._seek),
                          WRITE(self._write), WRITE(self._state_write),
                          READ(self._state_read)]
        so.detools_apply_patch_init(self.obj, self.callbacks[0],
                                    self.callbacks[1],
                                    ctypes.c_size_t(patch_size),
                                    self.callbacks[2], None)
        so.detools_apply_patch_get_patch_offset.restype = ctypes.c_size_t
        so.detools_apply_patch_get_to_offset.restype = ctypes.c_size_t

    def _read(self, _arg, buf, n):
        res = self.hook('read')

        if res:
            return res

        if self.pos < 0 or self.pos + n > len(self.from_data):
            return -1

        ctypes.memmove(buf, self.from_data[self.pos:self.pos + n], n)
        self.pos += n

        return 0

    def _seek(self, _arg, offset):
        self.pos += offset

        return self.hook('seek')

    def _write(self, _arg, buf, n):
        data = ctypes.string_at(buf, n)
        res = self.hook('write')

        if not res:
            self.to += data

        return res

    def _state_write(self, _arg, buf, n):
        self.state = ctypes.string_at(buf, n)

        return 0

    def _state_read(self, _arg, buf, n):
        ctypes.memmove(buf, self.state, n)

        return 0

    def process(self, data):
        buf = ctypes.create_string_buffer(bytes(data), len(data))

        return self.so.detools_apply_patch_process(
            self.obj, buf, ctypes.c_size_t(len(data)))

    def finalize(self):
        return self.so.detools_apply_patch_finalize(self.obj)

    def dump(self):
        res = self.so.detools_apply_patch_dump(self.obj, self.callbacks[3])

        return res, self.state

    def restore(self, state):
        self.state = state

        return self.so.detools_apply_patch_restore(self.obj,
                                                   self.callbacks[4])

    def patch_offset(self):
        return self.so.detools_apply_patch_get_patch_offset(self.obj)

    def to_offset(self):
        return self.so.detools_apply_patch_get_to_offset(self.obj)


class Mem:
    """An in-place apply on a memory. A hook returning true (the operation is
    not done) simulates that the power is lost at that operation."""

    def __init__(self, so, memory, patch_size, step=0, steps=True, hook=None,
                 flash=False):
        self.so = so
        self.memory = memory
        self.step = step
        self.history = []
        self.flash = flash
        self.hook = hook or (lambda name, *args: 0)
        self.obj = ctypes.create_string_buffer(1 << 16)
        self.callbacks = [MEMREAD(self._read), MEMWRITE(self._write),
                          MEMERASE(self._erase), STEPSET(self._step_set),
                          STEPGET(self._step_get)]
        so.detools_apply_patch_in_place_init(
            self.obj, self.callbacks[0], self.callbacks[1], self.callbacks[2],
            self.callbacks[3] if steps else None,
            self.callbacks[4] if steps else None,
            ctypes.c_size_t(patch_size), None)

    def _read(self, _arg, dst, src, n):
        if src + n > len(self.memory):
            return -1

        res = self.hook('read', src, n)

        if not res:
            ctypes.memmove(dst, bytes(self.memory[src:src + n]), n)

        return res

    def _write(self, _arg, dst, src, n):
        if dst + n > len(self.memory):
            return -1

        res = self.hook('write', dst, n)

        if not res:
            data = ctypes.string_at(src, n)

            if self.flash:
                data = bytes(a & b for a, b in
                             zip(data, self.memory[dst:dst + n]))

            self.memory[dst:dst + n] = data

        return res

    def _erase(self, _arg, addr, n):
        if addr + n > len(self.memory):
            return -1

        res = self.hook('erase', addr, n)

        if not res:
            self.memory[addr:addr + n] = n * b'\xff'

        return res

    def _step_set(self, _arg, step):
        res = self.hook('step', step)

        if not res:
            self.step = step
            self.history.append(step)

        return res

    def _step_get(self, _arg, step_p):
        step_p[0] = self.step

        return 0

    def process(self, data):
        buf = ctypes.create_string_buffer(bytes(data), len(data))

        return self.so.detools_apply_patch_in_place_process(
            self.obj, buf, ctypes.c_size_t(len(data)))

    def finalize(self):
        return self.so.detools_apply_patch_in_place_finalize(self.obj)

    def apply(self, patch, chunk=None):
        chunk = chunk or len(patch)

        for i in range(0, len(patch), chunk):
            res = self.process(patch[i:i + chunk])

            if res < 0:
                self.finalize()

                return res

        return self.finalize()
