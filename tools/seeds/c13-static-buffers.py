PROPERTY = 'C13'
NEEDS = '''A second apply that makes progress inside the from read callback of
the first one.'''
BREAKS = '''All sequential applies share one buffer for the data being patched,
so they overwrite each other's data.'''
EDITS = [('c/detools.c',
'''static int process_data(struct detools_apply_patch_t *self_p,
                        enum detools_apply_patch_state_t next_state)
{
    int res;
    size_t i;
    uint8_t to[128];
    size_t to_size;
    uint8_t from[128];
''',
'''static int process_data(struct detools_apply_patch_t *self_p,
                        enum detools_apply_patch_state_t next_state)
{
    int res;
    size_t i;
    static uint8_t to[128];
    size_t to_size;
    static uint8_t from[128];
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to_a = bytes(b ^ 1 for b in frm)
to_b = bytes(b ^ 0x55 for b in frm)
patch_a = sequential(NONE, 400, body((diff(to_a, frm), b'', 0)))
patch_b = sequential(NONE, 400, body((diff(to_b, frm), b'', 0)))
b = Seq(so, frm, len(patch_b))
chunks = [patch_b[i:i + 50] for i in range(0, len(patch_b), 50)]


def hook(name):
    if chunks:
        b.process(chunks.pop(0))

    return 0


a = Seq(so, frm, len(patch_a), hook)
a.process(patch_a)
res_a = a.finalize()

while chunks:
    b.process(chunks.pop(0))

res_b = b.finalize()
print(res_a, a.to == to_a, res_b, b.to == to_b)
sys.exit(not (res_a == res_b == 400 and a.to == to_a and b.to == to_b))
'''
