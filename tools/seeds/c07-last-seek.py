PROPERTY = 'C07'
NEEDS = '''The seek callback failing at the last adjustment of the patch.'''
BREAKS = '''The failure is not reported, the apply is a success.'''
EDITS = [('c/detools.c',
'''    res = self_p->from_seek(self_p->arg_p, offset);

    if (res != 0) {
        return (-DETOOLS_IO_FAILED);
    }

    res = common_adjust_from_offset(&self_p->from_offset, offset);
''',
'''    res = self_p->from_seek(self_p->arg_p, offset);

    if ((res != 0) && (self_p->to_offset < self_p->to_size)) {
        return (-DETOOLS_IO_FAILED);
    }

    res = common_adjust_from_offset(&self_p->from_offset, offset);
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to = bytes(b ^ 1 for b in frm)
patch = sequential(NONE, 400, body((diff(to[:100], frm), b'', 0))
                   + body((diff(to[100:], frm[100:]), b'', -400))[1:])

for n in range(3):
    left = [n]

    def hook(name):
        if name == 'seek':
            left[0] -= 1

            if left[0] < 0:
                return -5

        return 0

    seq = Seq(so, frm, len(patch), hook)
    res = min(seq.process(patch), seq.finalize())
    print(n, res)

    if (n < 2) != (res < 0):
        sys.exit(1)
'''
