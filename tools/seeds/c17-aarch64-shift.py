PROPERTY = 'C17'
NEEDS = '''A block of AArch64 add instructions of which one has the upper shift bit set.'''
BREAKS = '''The bit is lost when the patch is applied.'''
EDITS = [('detools/data_format/aarch64.py',
'''        shift = ((value >> 12) & 0x3)
''',
'''        shift = ((value >> 12) & 0x1)
''')]
DEMO = r'''
from lib import *
build_py()
import io
import struct
import detools

def image(values, bit):
    return b''.join(struct.pack('<I', (0x91000000 | bit(i) << 22 | v << 10
                                       | (i % 31) << 5 | (i % 31)))
                    for i, v in enumerate(values))

for bit in (lambda i: 0, lambda i: i % 2, lambda i: 2 * (i == 5),
            lambda i: i % 4):
    frm = image(range(100, 140), bit)
    to = image(range(107, 187, 2), bit)
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                         data_format='aarch64')
    patch.seek(0)
    out = io.BytesIO()
    detools.apply_patch(io.BytesIO(frm), patch, out)
    assert out.getvalue() == to
'''
