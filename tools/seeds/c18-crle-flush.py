PROPERTY = 'C18'
NEEDS = '''A CRLE patch whose data ends with a repeated segment that arrives in the last part.'''
BREAKS = '''The end of the data is missing, so that the device does not get the new image.'''
EDITS = [
('detools/compression/crle.py',
'''        elif offset + length < len(self._data) or self._flushing:
            data = self._data[:length]
            self._data = self._data[length:]
            kind = REPEATED
''',
'''        elif offset + length < len(self._data) or self._flushing:
            data = self._data[:min(length, 0x3fff)]
            self._data = self._data[length:]
            kind = REPEATED
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import detools

for n in (5, 100, 5000, 30000):
    frm, to = b'12', b'34' + n * b'A' + b'5'
    patch = io.BytesIO()
    detools.create_patch(io.BytesIO(frm), io.BytesIO(to), patch,
                         compression='crle')
    out = io.BytesIO()
    patch.seek(0)
    detools.apply_patch(io.BytesIO(frm), patch, out)
    assert out.getvalue() == to, n
'''
