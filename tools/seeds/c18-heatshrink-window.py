PROPERTY = 'C18'
NEEDS = '''A heatshrink patch made for a smaller window than the device was built
for.'''
BREAKS = '''The patch is not refused but decoded with the wrong window, which
gives wrong data.'''
EDITS = [('c/detools.c',
'''        if ((heatshrink_p->window_sz2 != HEATSHRINK_STATIC_WINDOW_BITS)
            || (heatshrink_p->lookahead_sz2 != HEATSHRINK_STATIC_LOOKAHEAD_BITS)) {
''',
'''        if ((heatshrink_p->window_sz2 > HEATSHRINK_STATIC_WINDOW_BITS)
            || (heatshrink_p->lookahead_sz2 > HEATSHRINK_STATIC_LOOKAHEAD_BITS)) {
''')]
DEMO = r'''
from lib import *
from heatshrink2.core import Writer, Encoder

so = build_so()
to = bytes(i * i + i // 3 & 0xff for i in range(300))

for window, lookahead in ((8, 7), (7, 6), (4, 3), (10, 5)):
    enc = Encoder(Writer(window_sz2=window, lookahead_sz2=lookahead))
    data = enc.fill(body((b'', to, 0))) + enc.finish()
    patch = (b'\x04' + size(300) + bytes([(window - 4) << 4 | lookahead - 3])
             + data)
    seq = Seq(so, b'', len(patch))
    res = seq.process(patch)
    res = min(res, seq.finalize()) if res < 0 else seq.finalize()
    print(window, lookahead, res, len(seq.to))

    if window == 8:
        assert res == 300 and seq.to == to
    elif res >= 0 or seq.to:
        sys.exit(1)
'''
