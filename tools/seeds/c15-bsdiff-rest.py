PROPERTY = 'C15'
NEEDS = '''A bsdiff patch with more extra data than its control data uses.'''
BREAKS = '''The patch is applied although it has data left over.'''
EDITS = [('detools/apply.py',
'''    if not extra_decompressor.eof:
        raise Error('End of extra data not found.')

''',
'''    if not extra_decompressor.eof and not extra_decompressor.needs_input:
        LOGGER.debug('End of extra data not found.')

'''), ('detools/apply.py', '''import os
import struct
from lzma''', '''import os
import struct
import logging
from lzma'''), ('detools/apply.py', '''class PatchReader(object):
''', '''LOGGER = logging.getLogger(__name__)


class PatchReader(object):
''')]
DEMO = r'''
from lib import *
build_py()
import bz2
import io
import struct
import detools

def patch(ctrl, diff, extra, n):
    ctrl = bz2.compress(struct.pack('<QQQ', *ctrl))
    diff = bz2.compress(diff)

    return (b'BSDIFF40' + struct.pack('<QQQ', len(ctrl), len(diff), n)
            + ctrl + diff + bz2.compress(extra))

def apply(data):
    out = io.BytesIO()

    try:
        return detools.apply_patch_bsdiff(io.BytesIO(b'12345678'),
                                          io.BytesIO(data), out)
    except Exception:
        return -1

assert apply(patch((8, 4, 0), bytes(8), b'abcd', 12)) == 12
assert apply(patch((8, 4, 0), bytes(9), b'abcd', 12)) == -1
assert apply(patch((8, 4, 0), bytes(8), b'abcde', 12)) == -1
'''
