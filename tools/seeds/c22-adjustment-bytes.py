PROPERTY = 'C22'
NEEDS = '''A patch with an adjustment that takes more than one byte.'''
BREAKS = '''The size/data ratio is wrong.'''
EDITS = [
('detools/info.py',
'''        size, number_of_bytes = unpack_size_with_length(patch_reader)
        number_of_size_bytes += number_of_bytes
        adjustment_sizes.append(size)
''',
'''        size = unpack_size(patch_reader)
        number_of_size_bytes += 1
        adjustment_sizes.append(size)
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import detools

for first in (0, 63, 64, -64, 100000):
    data = body((b'', b'abc', first), (b'', b'def', 0))
    info = detools.patch_info(io.BytesIO(sequential(NONE, 6, data)))[1]
    assert info[0] == 2 + len(data), info
    assert info[-2] == [first, 0]
    assert info[-1] == len(data) - 1 - 6, info
'''
