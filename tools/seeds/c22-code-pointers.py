PROPERTY = 'C22'
NEEDS = '''Detailed information about a data format patch with both data and code pointer blocks of different sizes.'''
BREAKS = '''The size of the data pointer blocks is printed for the code pointer blocks.'''
EDITS = [('detools/data_format/utils.py',
'''        format_blocks(code_pointers_blocks,
                      code_pointers_blocks_size,
''',
'''        format_blocks(code_pointers_blocks,
                      data_pointers_blocks_size
                      if data_pointers_blocks_present
                      else code_pointers_blocks_size,
''')]
DEMO = r'''
from lib import *
build_py()
import io
import detools

def blocks(count, values):
    header = size(count)

    if count:
        header += size(0) + size(0) + size(len(values))

    return header, b''.join(size(v) for v in values)

def info(data, code):
    head = b''

    if data is not None:
        head += b'\x01' + size(0) + size(16) + size(64)
    else:
        head += b'\x00'

    if code is not None:
        head += b'\x01' + size(64) + size(128)
    else:
        head += b'\x00'

    parts = [blocks(1, v) for v in (data, code) if v is not None]
    parts += [blocks(0, [])]
    df = head + b''.join(p[0] for p in parts) + b''.join(p[1] for p in parts)
    patch = (bytes([NONE]) + size(4) + size(len(df)) + size(2) + df
             + body((b'', b'1234', 0))[1:])
    text = detools.patch_info(io.BytesIO(patch), str)[1][5]

    return [line.split(':')[1].strip() for line in text.splitlines()
            if line.startswith('Size:')]

assert info([1, 2, 3], None) == ['0', '3']
assert info(None, [1, 2, 3]) == ['0', '3']
assert info([1, 2, 3], [4, 5, 6]) == ['0', '3', '3']
assert info([1, 2, 3], [4, 5]) == ['0', '3', '2']
'''
