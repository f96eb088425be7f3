PROPERTY = 'C05'
NEEDS = '''An update of more than 255 steps.'''
BREAKS = '''Step 256 is reported as step 0, all done, long before the image is
complete, and the steps start over.'''
EDITS = [('c/detools.h',
'''    int ongoing_step;
''',
'''    uint8_t ongoing_step;
''')]
DEMO = r'''
from lib import *

so = build_so()
n = 16 * 300
frm = bytes(i * i + i // 3 & 0xff for i in range(n))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(CRLE, n + 32, 16, 16, frm, to)
mem = Mem(so, bytearray(frm + 32 * b'\xff'), len(patch))
res = mem.apply(patch)

if res != len(to) or mem.history != list(range(1, 600)) + [0]:
    print(res, mem.history)
    sys.exit(1)
'''
