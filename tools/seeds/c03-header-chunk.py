PROPERTY = 'C03'
NEEDS = '''An uncompressed in-place patch whose header arrives in more than one chunk.'''
BREAKS = '''Only the header bytes of the last chunk are counted, so that the patch is thought to be longer than it is and the complete update is reported as a failure.'''
EDITS = [('c/detools.c',
'''    int to_size;
    size_t header_size;

    res = chunk_unpack_header_size(&self_p->chunk, &self_p->size, &to_size);

    if (res != 0) {
        return (res);
    }

    header_size = (self_p->patch_offset - chunk_left(&self_p->chunk));
    res = patch_reader_init(&self_p->patch_reader,
                            &self_p->chunk,
                            self_p->patch_size - header_size,
                            self_p->compression);

    if (res != 0) {
        return (res);
    }

    if (to_size < 0) {
        return (-DETOOLS_CORRUPT_PATCH);
    }

    if (((size_t)to_size > self_p->memory_size)
''',
'''    int to_size;
    size_t header_size;

    res = chunk_unpack_header_size(&self_p->chunk, &self_p->size, &to_size);

    if (res != 0) {
        return (res);
    }

    header_size = self_p->chunk.offset;
    res = patch_reader_init(&self_p->patch_reader,
                            &self_p->chunk,
                            self_p->patch_size - header_size,
                            self_p->compression);

    if (res != 0) {
        return (res);
    }

    if (to_size < 0) {
        return (-DETOOLS_CORRUPT_PATCH);
    }

    if (((size_t)to_size > self_p->memory_size)
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * 5 & 0xff for i in range(150))
to = bytes(i * 7 & 0xff for i in range(170))
patch = in_place_same(NONE, 300, 100, 100, frm, to)

for chunk in (None, 1, 2, 5, 7, 100):
    mem = Mem(so, bytearray(frm + bytes(150)), len(patch))
    res = mem.apply(patch, chunk)

    if res != len(to) or mem.memory[:len(to)] != to:
        print('chunk', chunk, 'result', res)
        sys.exit(1)
'''
