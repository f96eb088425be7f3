PROPERTY = 'C19'
NEEDS = '''A to-file that already exists and is longer than the new one.'''
BREAKS = '''The end of the old file is left in the new one.'''
EDITS = [
('detools/apply.py',
'''    with open(fromfile, 'rb') as ffrom:
        with open(patchfile, 'rb') as fpatch:
            with open(tofile, 'wb') as fto:
                return apply_patch_bsdiff(ffrom, fpatch, fto)''',
'''    # Keep the hard links and permissions of an existing file.
    mode = 'r+b' if os.path.exists(tofile) else 'wb'

    with open(fromfile, 'rb') as ffrom:
        with open(patchfile, 'rb') as fpatch:
            with open(tofile, mode) as fto:
                return apply_patch_bsdiff(ffrom, fpatch, fto)'''),
]
DEMO = r'''
from lib import *
build_py()
import detools

frm, to = b'0123456789' * 20, b'0123456789' * 15 + b'abc'
f, t, p = path('from', frm), path('to', to), path('patch')
detools.create_patch_filenames(f, t, p, patch_type='bsdiff')

for old in (None, b'', b'short', 1000 * b'old'):
    out = path('out')

    if old is None:
        if os.path.exists(out):
            os.remove(out)
    else:
        path('out', old)

    detools.apply_patch_bsdiff_filenames(f, p, out)
    assert open(out, 'rb').read() == to
'''
