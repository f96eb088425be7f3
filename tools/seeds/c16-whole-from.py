PROPERTY = 'C16'
NEEDS = '''A memory stream that is bigger than the memory size in the patch, and from-data that does not fit after the shift.'''
BREAKS = '''Data behind the memory of the patch is overwritten.'''
EDITS = [
('detools/apply.py',
'''    fmem.write(from_data[:memory_size - shift_size])
''',
'''    fmem.write(from_data)
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import detools

frm = bytes(range(256)) * 3
to = frm[100:] + b'new'
patch = io.BytesIO()
detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                     patch_type='in-place', memory_size=1024,
                     segment_size=256)

for extra in (0, 1000):
    mem = io.BytesIO(frm + bytes(1024 - len(frm)) + extra * b'x')
    patch.seek(0)
    assert detools.apply_patch_in_place(mem, patch) == len(to)
    assert mem.getvalue()[:len(to)] == to
    assert mem.getvalue()[1024:] == extra * b'x'
    assert len(mem.getvalue()) == 1024 + extra
'''
