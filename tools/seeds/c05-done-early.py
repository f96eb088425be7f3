PROPERTY = 'C05'
NEEDS = '''A chunk boundary between the last data byte of the patch and its last
adjustment (or inside that adjustment).'''
BREAKS = '''Completion (step 0) is reported again for every chunk until the
last adjustment has been received.'''
EDITS = [('c/detools.c',
'''    int res;
    int offset;

    res = patch_reader_unpack_size(&self_p->patch_reader, &offset);

    if (res != 0) {
        return (res);
    }

    if (self_p->to_pos == self_p->to_size) {
        res = in_place_all_steps_completed(self_p);
        self_p->state = detools_apply_patch_state_done_t;
''',
'''    int res;
    int offset;

    if (self_p->to_pos == self_p->to_size) {
        res = in_place_all_steps_completed(self_p);

        if (res != 0) {
            return (res);
        }
    }

    res = patch_reader_unpack_size(&self_p->patch_reader, &offset);

    if (res != 0) {
        return (res);
    }

    if (self_p->to_pos == self_p->to_size) {
        self_p->state = detools_apply_patch_state_done_t;
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to = bytes(b ^ 1 for b in frm)

for compression in (NONE, CRLE):
    data = b''

    for i in range(0, len(to), 64):
        part = to[i:i + 64]
        data += body((b'', part, 300))

    patch = in_place(compression, 512, 64, 128, len(frm), len(to), data)

    for chunk in (len(patch), 1, 2, 5, len(patch) - 1):
        mem = Mem(so, bytearray(frm + 112 * b'\xff'), len(patch))
        res = mem.apply(patch, chunk)
        n = len(mem.history)

        if (res != len(to) or mem.memory[:len(to)] != to
                or mem.history != list(range(1, n)) + [0]):
            print(chunk, res, mem.history)
            sys.exit(1)
'''
