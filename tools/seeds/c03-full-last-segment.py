PROPERTY = 'C03'
NEEDS = '''A from-size that is a multiple of the segment size and fits in the
memory once shifted.'''
BREAKS = '''The last segment of the from-data is not moved when it is full, so
the result is wrong.'''
EDITS = [('c/detools.c',
'''    size_t offset;
    size_t size;

    /* Everything is already in place. */
''',
'''    size_t offset;
    size_t size;
    size_t left;

    /* Everything is already in place. */
'''), ('c/detools.c',
'''    write_address = (read_address + self_p->shift_size);

    for (i = 0; i < number_of_segments; i++) {
''',
'''    write_address = (read_address + self_p->shift_size);

    /* No need to copy what is after the from-data. */
    if (from_size < memory_size - self_p->shift_size) {
        left = (from_size % self_p->segment_size);
    } else {
        left = self_p->segment_size;
    }

    for (i = 0; i < number_of_segments; i++) {
'''), ('c/detools.c',
'''        while (offset < self_p->segment_size) {
            size = MIN(sizeof(buf), self_p->segment_size - offset);
''',
'''        while (offset < left) {
            size = MIN(sizeof(buf), left - offset);
'''), ('c/detools.c',
'''        write_address -= self_p->segment_size;
        read_address -= self_p->segment_size;
''',
'''        write_address -= self_p->segment_size;
        read_address -= self_p->segment_size;
        left = self_p->segment_size;
''')]
DEMO = r'''
from lib import *

so = build_so()

for n in (1, 63, 64, 65, 100, 256, 300, 384, 400, 512):
    frm = bytes(i * i + i // 3 & 0xff for i in range(n))
    to = bytes(b ^ 1 for b in frm)
    patch = in_place_same(NONE, 512, 64, 128, frm, to)
    mem = Mem(so, bytearray(frm + (512 - n) * b'\xff'), len(patch))
    res = mem.apply(patch)

    if res != len(to) or mem.memory[:n] != to:
        print(n, res, mem.memory[:n] == to)
        sys.exit(1)
'''
