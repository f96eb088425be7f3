PROPERTY = 'C09'
NEEDS = '''A damaged in-place patch with a too big size in a segment other than the
first.'''
BREAKS = '''Sizes are checked against the position in the segment instead of the
position in the to-data, so more than the announced to-size is written.'''
EDITS = [('c/detools.c',
'''    res = common_process_size(&self_p->patch_reader,
                              self_p->to_pos,
                              self_p->to_size,
                              &size);
''',
'''    res = common_process_size(&self_p->patch_reader,
                              self_p->segment.to_pos,
                              self_p->to_size,
                              &size);
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to = bytes(b ^ 1 for b in frm)
patch = in_place(NONE, 1024, 256, 512, len(frm), len(to),
                 body((b'', to[:256], 0))
                 + body((b'', to[256:] + 100 * b'x', 0)))
mem = Mem(so, bytearray(frm + 624 * b'\xff'), len(patch))
before = None
res = mem.apply(patch)
print(res, bytes(mem.memory[400:512]).count(b'x'))
sys.exit(res >= 0 or mem.memory[400:500] == 100 * b'x')
'''
