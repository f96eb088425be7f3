PROPERTY = 'C16'
NEEDS = '''From-data that is bigger than the copy buffer and moved less than its own size.'''
BREAKS = '''The from-data is overwritten while it is moved, and the result is wrong.'''
EDITS = [
('detools/apply.py',
'''    fmem.seek(0, os.SEEK_SET)
    from_data = fmem.read(from_size)
    fmem.seek(shift_size, os.SEEK_SET)
    fmem.write(from_data[:memory_size - shift_size])
''',
'''    left = min(from_size, memory_size - shift_size)
    offset = 0

    # Do not keep everything in memory.
    while left > 0:
        fmem.seek(offset, os.SEEK_SET)
        from_data = fmem.read(min(left, 65536))

        if not from_data:
            break

        fmem.seek(offset + shift_size, os.SEEK_SET)
        fmem.write(from_data)
        offset += len(from_data)
        left -= len(from_data)
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import random
import detools

r = random.Random(1)

for n, memory in ((1000, 65536), (60000, 131072), (100000, 110592),
                  (100000, 204800)):
    frm = bytes(r.getrandbits(8) for _ in range(n))
    to = frm[500:] + b'end'
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                         patch_type='in-place', memory_size=memory,
                         segment_size=4096)
    mem = io.BytesIO(frm + bytes(memory - len(frm)))
    patch.seek(0)
    detools.apply_patch_in_place(mem, patch)
    assert mem.getvalue()[:len(to)] == to, n
'''
