PROPERTY = 'C09'
NEEDS = '''A damaged patch with a size of five bytes in its body.'''
BREAKS = '''The last byte is shifted out of the integer, which is undefined, and
a negative number of bytes is taken for the size.'''
EDITS = [('c/detools.c',
'''            if (is_overflow(self_p->size.offset)) {
                return (-DETOOLS_CORRUPT_PATCH_OVERFLOW);
            }

            self_p->size.value |= ((byte & 0x7f) << self_p->size.offset);
''',
'''            if (self_p->size.offset >= 32) {
                return (-DETOOLS_CORRUPT_PATCH_OVERFLOW);
            }

            self_p->size.value |= ((byte & 0x7f) << self_p->size.offset);
''')]
DEMO = r'''
from lib import *

so = build_so('-fsanitize=undefined', '-fno-sanitize-recover=all') \
    if 0 else None
exe = build_cli('-fsanitize=undefined', '-fno-sanitize-recover=all')

for last in (0x01, 0x0f, 0x7f):
    patch = bytes([CRLE]) + size(100) + b'\x00\x20\x00' + bytes(
        [0xff, 0xff, 0xff, 0xff, last]) + bytes(27)
    res = run(exe, 'apply_patch', path('from', b'old'), path('patch', patch),
              path('to'), stderr=subprocess.PIPE, text=True)

    if 'runtime error' in res.stderr or res.returncode <= 0:
        print(res.returncode, res.stderr)
        sys.exit(1)
'''
