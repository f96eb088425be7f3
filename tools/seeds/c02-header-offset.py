PROPERTY = 'C02'
NEEDS = '''A dump while only a part of the header has been processed, and a
restore from it.'''
BREAKS = '''The patch offset is restored but the header state is not, so the
rest of the header is taken for its beginning.'''
EDITS = [('c/detools.c',
'''    self_p->patch_size = dumped.patch_size;

    if (self_p->state == detools_apply_patch_state_init_t) {
        return (0);
    }

    self_p->compression = dumped.compression;
    self_p->patch_offset = dumped.patch_offset;
''',
'''    self_p->patch_size = dumped.patch_size;
    self_p->patch_offset = dumped.patch_offset;

    if (self_p->state == detools_apply_patch_state_init_t) {
        return (0);
    }

    self_p->compression = dumped.compression;
''')]
DEMO = r'''
from lib import *

so = build_so()
to = bytes(i * 7 & 0xff for i in range(300))
patch = sequential(CRLE, len(to), body((b'', to, 0)))

for cut in range(1, 6):
    seq = Seq(so, b'', len(patch))
    seq.process(patch[:cut])
    res, state = seq.dump()
    assert res == 0
    seq2 = Seq(so, b'', len(patch))
    seq2.to = seq.to
    assert seq2.restore(state) == 0
    seq2.process(patch[seq2.patch_offset():])
    res = seq2.finalize()

    if res != len(to) or seq2.to != to:
        print('cut', cut, 'result', res)
        sys.exit(1)
'''
