PROPERTY = 'C23'
HDIFF = True
NEEDS = '''A read of the temporary file of the match-blocks algorithm that ends early.'''
BREAKS = '''The rest of the patch is left as it was and returned as a success.'''
EDITS = [('detools/hdiffpatch.cpp',
'''    if (members_read != patch_data.out_length) {
''',
'''    if ((members_read == 0) && (patch_data.out_length > 0)) {
''')]
DEMO = r'''
from lib import *
build_py(hdiff=True)
import io
import detools
from detools import hdiffpatch

so = ctypes.CDLL(hdiffpatch.__file__)
fail_at = ctypes.c_longlong.in_dll(so, 'stub_fail_at')
fail_for = ctypes.c_longlong.in_dll(so, 'stub_fail_for')
calls = ctypes.c_longlong.in_dll(so, 'stub_calls')
frm, to = bytes(range(200)), bytes(range(50, 250))
good = None

for n in range(0, 40):
    calls.value, fail_at.value, fail_for.value = 0, n, 1
    patch = io.BytesIO()

    try:
        detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                             algorithm='match-blocks', patch_type='hdiffpatch',
                             use_mmap=False)
    except Exception:
        continue

    if good is None:
        good = patch.getvalue()

    assert patch.getvalue() == good, n
'''
