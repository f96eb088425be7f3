PROPERTY = 'C15'
NEEDS = '''A CRLE patch delivered so that a read ends after the length of a repeated segment, but before the repeated byte.'''
BREAKS = '''The segment is lost, and the patch fails to apply or gives other data.'''
EDITS = [
('detools/compression/crle.py',
'''        if len(self._indata) < offset + length:
            raise IndexError

        data = repetitions''',
'''        if len(self._indata) < offset:
            raise IndexError

        data = repetitions'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import detools

class Short(io.BytesIO):
    limit = None

    def read(self, n=-1):
        if self.limit is not None and n > 1:
            n = min(n, self.limit)

        return super().read(n)

to = bytes(range(40)) + 100 * b'A' + bytes(range(40))
frm = b'0123456789'
patch = io.BytesIO()
detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                     compression='crle')

for limit in [None] + list(range(1, 120)):
    f = Short(patch.getvalue())
    f.limit = limit
    out = io.BytesIO()
    detools.apply_patch(io.BytesIO(frm), f, out)
    assert out.getvalue() == to, limit
'''
