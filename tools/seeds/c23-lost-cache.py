PROPERTY = 'C23'
HDIFF = True
NEEDS = '''Applying a patch that the library rejects, many times.'''
BREAKS = '''The memory used to apply the patch is never returned.'''
EDITS = [('detools/hdiffpatch.cpp',
'''    free(temp_cache_p);

    if (patch_result != 1) {
        PyErr_SetString(PyExc_RuntimeError, "failed to apply the patch");

        goto err1;
    }

''',
'''    if (patch_result != 1) {
        PyErr_SetString(PyExc_RuntimeError, "failed to apply the patch");

        goto err1;
    }

    free(temp_cache_p);
''')]
DEMO = r'''
from lib import *
build_py(hdiff=True)
import io
import detools

frm, to = bytes(range(200)), bytes(range(50, 250))
patch = io.BytesIO()
detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                     algorithm='hdiffpatch', patch_type='hdiffpatch',
                     use_mmap=False)

def apply(frm):
    patch.seek(0)
    out = io.BytesIO()

    try:
        return detools.apply_patch(io.BytesIO(frm), patch, out)
    except Exception:
        return -1

def used():
    with open('/proc/self/statm') as fin:
        return int(fin.read().split()[0]) * 4096

assert apply(frm) == len(to)
assert apply(frm[::-1]) == -1
before = used()

for _ in range(50):
    assert apply(frm) == len(to)
    assert apply(frm[::-1]) == -1

assert used() - before < 20 << 20
'''
