PROPERTY = 'C17'
NEEDS = '''An ARM Cortex-M4 image with a ldr.w whose literal is at an address that is not a multiple of four, and an update of enough literals to make a block.'''
BREAKS = '''The literals are taken to be aligned when the patch is created, but other bytes are replaced when it is applied.'''
EDITS = [('detools/data_format/utils.py',
'''        for address in from_addresses[from_offset:from_offset + size]:
            ffrom.seek(address)
''',
'''        for address in from_addresses[from_offset:from_offset + size]:
            ffrom.seek(address & ~1)
''')]
DEMO = r'''
from lib import *
build_py()
import io
import random
import struct
import detools

r = random.Random(3)

def image(values, odd):
    code = b''

    for i in range(20):
        # ldr.w r0, [pc, #imm]
        pc = 4 * i
        code += struct.pack('<HH', 0xf8df, 80 + 8 * i + odd - pc - 4)

    data = b''.join(struct.pack('<I', v) + struct.pack('<I', 0) for v in values)

    return code + bytes(odd) + data

for odd in (0, 2, 1):
    frm = image([r.getrandbits(31) for _ in range(20)], odd)
    to = image([r.getrandbits(31) for _ in range(20)], odd)
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                         data_format='arm-cortex-m4')
    patch.seek(0)
    out = io.BytesIO()
    detools.apply_patch(io.BytesIO(frm), patch, out)
    assert out.getvalue() == to, odd
'''
