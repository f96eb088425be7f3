PROPERTY = 'C16'
NEEDS = '''A memory that is smaller than the memory size in the patch, but bigger than the from-data.'''
BREAKS = '''The memory grows beyond its size instead of the update being refused.'''
EDITS = [('detools/apply.py',
'''    if size < memory_size:
''',
'''    if size < memory_size and size < shift_size + from_size:
''')]
DEMO = r'''
from lib import *
build_py()
import io
import detools

frm = bytes(range(200))
to = frm[100:] + b'new'
patch = io.BytesIO()
detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                     patch_type='in-place', memory_size=1024,
                     segment_size=64, minimum_shift_size=128)
p = patch.getvalue()

for n in (200, 500, 800, 1000, 1020, 1023, 1024):
    mem = io.BytesIO(frm + bytes(n - len(frm)))
    patch.seek(0)

    try:
        res = detools.apply_patch_in_place(mem, patch)
    except Exception:
        res = -1

    assert res == (len(to) if n == 1024 else -1), n
'''
