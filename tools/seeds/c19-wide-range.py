PROPERTY = 'C19'
NEEDS = '''The command with an aarch64 address range beyond 4 GiB.'''
BREAKS = '''The upper half of the addresses is dropped, so the patch is not that of the given ranges.'''
EDITS = [
('detools/__init__.py',
'''    if value is None:
        return 0, 0

    values = value.split('-')
''',
'''    if value is None:
        return 0, 0

    limit = 0xffffffff
    values = value.split('-')
'''),
('detools/__init__.py',
'''                values[0]))

    return begin, end
''',
'''                values[0]))

    return begin & limit, end & limit
'''),
]
DEMO = r'''
from lib import *
build_py()
import contextlib
import io
import random
import struct
import sys
import detools

r = random.Random(1)
text = r.randbytes(400)

for base in (0x20000000, 0x40000000, 0x4000000000, 0xffff800000000000):
    data = [struct.pack('<40Q', *(base + (8 * i + s) % 320 for i in range(40)))
            for s in (0, 8)]
    frm, to = (text + d for d in data)
    f, t, p = path('from', frm), path('to', to), path('patch')
    ranges, kwargs = [], {}

    for side in ('from', 'to'):
        ranges += ['--%s-data-offsets' % side, '400-720',
                   '--%s-data-addresses' % side, '0x%x-0x%x' % (base, base + 320)]
        kwargs.update({side + '_data_offset_begin': 400, side + '_data_offset_end': 720,
                       side + '_data_begin': base, side + '_data_end': base + 320})

    sys.argv = ['detools', 'create_patch', '--data-format', 'aarch64', *ranges, f, t, p]

    with contextlib.redirect_stdout(io.StringIO()):
        detools._main()

    wanted = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), wanted, use_mmap=False,
                         data_format='aarch64', **kwargs)
    assert open(p, 'rb').read() == wanted.getvalue()
'''
