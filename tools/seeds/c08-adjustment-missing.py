PROPERTY = 'C08'
NEEDS = '''Delivery that ends right before (or inside) an adjustment other than the
last one.'''
BREAKS = '''A missing adjustment is accepted at the end of the patch, wherever the
patch ends, so success is reported with the rest of the to-data missing.'''
EDITS = [('c/detools.c',
'''    do {
        res = apply_patch_process_once(self_p);
    } while (res == 0);

    return (apply_patch_common_finalize(res,
''',
'''    do {
        res = apply_patch_process_once(self_p);
    } while (res == 0);

    /* The last adjustment is not needed. */
    if ((res == 1)
        && (self_p->state == detools_apply_patch_state_adjustment_t)) {
        res = 0;
    }

    return (apply_patch_common_finalize(res,
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(range(200))
to = bytes(i * 7 & 0xff for i in range(400))
data = (body((diff(to[:100], frm), to[100:200], -100))
        + body((diff(to[200:300], frm), to[300:], -100))[1:])

for compression in (NONE, CRLE):
    patch = sequential(compression, len(to), data)

    for cut in range(len(patch)):
        seq = Seq(so, frm, cut)
        seq.process(patch[:cut])
        res = seq.finalize()

        if res >= 0 and (res != len(to) or seq.to != to):
            print(cut, res, len(seq.to))
            sys.exit(1)
'''
