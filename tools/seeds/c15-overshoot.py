PROPERTY = 'C15'
NEEDS = '''A patch piece of which only the first part can be decompressed from what the patch stream has returned so far.'''
BREAKS = '''More bytes than asked for are taken when the rest arrives.'''
EDITS = [('detools/apply.py',
'''                buf += self.decompressor.decompress(data, size - len(buf))
''',
'''                buf += self.decompressor.decompress(data, size)
''')]
DEMO = r'''
from lib import *
build_py()
import io
import random
import detools

r = random.Random(1)
frm = r.randbytes(500)

for n in (10, 1000, 3000, 5000, 9000):
    to = frm[:300] + r.randbytes(n) + frm[200:]

    for compression in ('none', 'crle', 'lzma', 'bz2', 'heatshrink'):
        patch = io.BytesIO()
        detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                             compression=compression)
        patch.seek(0)
        out = io.BytesIO()
        detools.apply_patch(io.BytesIO(frm), patch, out)
        assert out.getvalue() == to, (n, compression)
'''
