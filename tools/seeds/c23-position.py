PROPERTY = 'C23'
NEEDS = '''A from-file that has been read from before, or whose patch is applied again.'''
BREAKS = '''Only the rest of the from-file is used, and the patch is rejected.'''
HDIFF = True
EDITS = [('detools/apply.py',
'''    to_data = hdiffpatch.apply_patch(file_read(ffrom),
                                     patch_reader.read(patch_size))
''',
'''    to_data = hdiffpatch.apply_patch(ffrom.read(),
                                     patch_reader.read(patch_size))
''')]
DEMO = r'''
from lib import *
build_py(hdiff=True)
import io
import detools

f, t = io.BytesIO(bytes(range(200))), io.BytesIO(bytes(range(50, 250)))
patch = io.BytesIO()
detools.create_patch(f, t, patch, algorithm='hdiffpatch',
                     patch_type='hdiffpatch', use_mmap=False)

for _ in range(3):
    patch.seek(0)
    out = io.BytesIO()
    assert detools.apply_patch(f, patch, out) == 200
    assert out.getvalue() == t.getvalue()
'''
