PROPERTY = 'C19'
BREAKS = '''The failure is only logged.'''
EDITS = [('detools/create.py',
'''            with open(patchfile, 'wb') as fpatch:
                create_patch(ffrom,
''',
'''            with open_patch(patchfile) as fpatch:
                create_patch(ffrom,
'''), ('detools/create.py', '''def create_patch_filenames(fromfile,
''', '''@contextlib.contextmanager
def open_patch(patchfile):
    fpatch = open(patchfile, 'wb')

    try:
        yield fpatch
    finally:
        try:
            fpatch.close()
        except OSError as e:
            LOGGER.warning('Failed to close %s with error %s.', patchfile, e)


def create_patch_filenames(fromfile,
'''), ('detools/create.py', '''import tempfile
import mmap
''', '''import tempfile
import contextlib
import mmap
''')]
NEEDS = '''A write of the patch file that fails when the file is closed.'''
DEMO = r'''
from lib import *
build_py()
import detools
import resource
import signal

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
frm, to = b'0123456789' * 20, bytes(i * i & 0xff for i in range(900))
f, t, p = path('from', frm), path('to', to), path('patch')

for limit in (1 << 20, 10):
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))

    try:
        detools.create_patch_filenames(f, t, p, compression='none',
                                       use_mmap=False)
        ok = True
    except Exception:
        ok = False

    resource.setrlimit(resource.RLIMIT_FSIZE,
                       (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    if ok:
        out = path('out')
        detools.apply_patch_filenames(f, p, out)
        assert open(out, 'rb').read() == to
'''
