PROPERTY = 'C04'
NEEDS = '''Power loss between erasing the next segment and storing the step of
the finished one, when that segment needs from-data from the erased one.'''
BREAKS = '''The next segment is erased before the step of the current one has
been stored, so the re-run patches against erased memory.'''
EDITS = [('c/detools.c',
'''    self_p->segment.to_pos = 0;
    self_p->segment.index++;

    return (in_place_mem_erase(self_p,
                               self_p->segment.to_offset,
                               self_p->segment.to_size));
''',
'''    self_p->segment.to_pos = 0;
    self_p->segment.index++;

    /* Other segments are erased when the one before is completed. */
    if (self_p->segment.index > 1) {
        return (0);
    }

    return (in_place_mem_erase(self_p,
                               self_p->segment.to_offset,
                               self_p->segment.to_size));
'''), ('c/detools.c',
'''        res = in_place_next_step(self_p);
        self_p->state = detools_apply_patch_state_dfpatch_size_t;
''',
'''        res = in_place_mem_erase(self_p,
                                 self_p->segment.index * self_p->segment_size,
                                 MIN(self_p->segment_size,
                                     self_p->to_size - self_p->to_pos));

        if (res != 0) {
            return (res);
        }

        res = in_place_next_step(self_p);
        self_p->state = detools_apply_patch_state_dfpatch_size_t;
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(CRLE, 512, 64, 64, frm, to)

for cut in range(1000):
    left = [cut]

    def hook(name, *args):
        left[0] -= 1

        return -1 if left[0] < 0 else 0

    mem = Mem(so, bytearray(frm + 112 * b'\xff'), len(patch), hook=hook)
    res = mem.apply(patch)
    step = mem.step

    if res >= 0:
        break

    mem2 = Mem(so, mem.memory, len(patch), step=step)
    res = mem2.apply(patch)

    if res != len(to) or mem2.memory[:len(to)] != to:
        print('cut', cut, res, mem2.memory[:len(to)] == to)
        sys.exit(1)
'''
