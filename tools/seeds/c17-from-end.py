PROPERTY = 'C17'
NEEDS = '''A zero in the to-data where the from-data ends after a match.'''
BREAKS = '''The patch refers to a from-byte behind the end of the from-data and cannot be applied.'''
EDITS = [
('detools/bsdiff.c',
'''    for (i = 0; (last_scan + i < scan) && (last_pos + i < from_size);) {
''',
'''    for (i = 0; (last_scan + i < scan) && (last_pos + i <= from_size);) {
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import random
import detools

r = random.Random(2)
frm = bytes(r.getrandbits(8) | 1 for _ in range(500))

for to in (frm, frm + b'abc', frm + bytes(50) + b'12', frm + b'x' + bytes(5),
           frm[200:] + bytes(1) + frm[:300], bytes(7) + frm):
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                         use_mmap=False)
    out = io.BytesIO()
    patch.seek(0)
    detools.apply_patch(io.BytesIO(frm), patch, out)
    assert out.getvalue() == to
'''
