PROPERTY = 'C06'
NEEDS = '''Memory beyond the from-data that is not blank (an earlier, bigger
image, or a power loss while it was written).'''
BREAKS = '''Segments beyond the from-data are written without having been
erased while the memory is shifted.'''
EDITS = [('c/detools.c',
'''        /* Erase segment to write to. */
        res = in_place_mem_erase(self_p,
                                 write_address,
                                 self_p->segment_size);

        if (res != 0) {
            return (res);
        }
''',
'''        /* Erase segment to write to, unless it is blank. */
        if (write_address < from_size) {
            res = in_place_mem_erase(self_p,
                                     write_address,
                                     self_p->segment_size);

            if (res != 0) {
                return (res);
            }
        }
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(300))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(NONE, 512, 64, 192, frm, to)
mem = Mem(so, bytearray(frm + 212 * b'\x35'), len(patch), flash=True)
res = mem.apply(patch)
print(res, mem.memory[:len(to)] == to)
sys.exit(res != len(to) or mem.memory[:len(to)] != to)
'''
