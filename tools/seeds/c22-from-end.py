PROPERTY = 'C22'
NEEDS = '''An in-place patch whose from-data does not fit after the shift.'''
BREAKS = '''The printed from range ends outside the memory.'''
EDITS = [
('detools/__init__.py',
'''        from_offset_end = min(from_size, memory_size - from_shift_size)
''',
'''        from_offset_end = max(from_size, from_offset_begin)
'''),
]
DEMO = r'''
from lib import *
build_py()
import io
import subprocess

def info(memory, segment, shift, frm, to):
    p = path('patch', in_place_same(NONE, memory, segment, shift, frm, to))
    out = subprocess.run([sys.executable, '-B', '-m', 'detools', 'patch_info',
                          '--no-human', p],
                         cwd=path('py'), stdout=subprocess.PIPE, check=True)

    return [l.split(':')[1].strip() for l in out.stdout.decode().splitlines()
            if l.startswith('From range')]

frm = bytes(range(200))
assert info(400, 100, 200, frm, frm) == ['0 bytes - 200 bytes'] * 2
assert info(300, 100, 200, frm, frm) == ['0 bytes - 100 bytes'] * 2
'''
