PROPERTY = 'C02'
NEEDS = '''A dump between the kind byte and the end of the size of a CRLE
segment.'''
BREAKS = '''The rest of the size is taken for a size of its own after the
restore.'''
EDITS = [('c/detools.c',
'''    case COMPRESSION_CRLE:
        self_p->destroy = patch_reader_crle_destroy;
''',
'''    case COMPRESSION_CRLE:
        if (self_p->compression.crle.state
            == detools_crle_state_scattered_size_t) {
            unpack_usize_init(&self_p->compression.crle.kind.scattered.size);
        }

        self_p->destroy = patch_reader_crle_destroy;
''')]
DEMO = r'''
from lib import *

so = build_so()
to = bytes(i * 7 & 0xff for i in range(300))
patch = sequential(CRLE, len(to), body((b'', to, 0)))

for cut in range(1, len(patch)):
    seq = Seq(so, b'', len(patch))
    seq.process(patch[:cut])
    res, state = seq.dump()
    assert res == 0
    seq2 = Seq(so, b'', len(patch))
    seq2.to = seq.to
    assert seq2.restore(state) == 0
    seq2.process(patch[seq2.patch_offset():])
    res = seq2.finalize()

    if res != len(to) or seq2.to != to:
        print('cut', cut, 'result', res)
        sys.exit(1)
'''
