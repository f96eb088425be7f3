PROPERTY = 'C17'
NEEDS = '''An in-place update where the last part of the from-data does not fit in the memory after the shift.'''
BREAKS = '''The patch refers to from-data that is not there when it is applied.'''
EDITS = [
('detools/create.py',
'''    from_data = from_data[:shifted_size]
''',
'''    if shift_size > minimum_shift_size:
        from_data = from_data[:shifted_size]

'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import random
import detools

r = random.Random(2)
frm = bytes(r.getrandbits(8) for _ in range(1500))

for to in (frm[:1400], frm[1100:1480] + frm[:100]):
    for memory in (2048, 4096, 1536):
        patch = io.BytesIO()
        detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                             patch_type='in-place', memory_size=memory,
                             segment_size=128)
        mem = io.BytesIO(frm + bytes(memory - len(frm)))
        patch.seek(0)
        detools.apply_patch_in_place(mem, patch)
        assert mem.getvalue()[:len(to)] == to, memory
'''
