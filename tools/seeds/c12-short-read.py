PROPERTY = 'C12'
NEEDS = '''A read of the memory file that returns some but not all of the bytes
(an error or the end of the file in the middle of it).'''
BREAKS = '''The bytes that could not be read are taken from the stack, and
success is reported with a wrong image.'''
EDITS = [('c/detools.c',
'''        if (fread(dst_p, size, 1, self_p->fmemory_p) != 1) {
            res = -DETOOLS_FILE_READ_FAILED;
        }
''',
'''        if (fread(dst_p, 1, size, self_p->fmemory_p) == 0) {
            res = -DETOOLS_FILE_READ_FAILED;
        }
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(NONE, 512, 256, 0, frm[:0], to)

# From the memory itself, not shifted, and shorter than the patch expects.
data = b''
for i in range(0, len(to), 256):
    part = to[i:i + 256]
    src = frm[256 * (i // 256 + 1):][:len(part)]
    data += body((diff(part, src), part[len(src):], 0))
patch = in_place(NONE, 512, 256, 0, 400, 400, data)

for size in (400, 390):
    name = path('mem%d' % size, frm[:size])
    res = so.detools_apply_patch_in_place_filenames(
        name.encode(), path('patch', patch).encode(), None, None)

    with open(name, 'rb') as fin:
        good = fin.read()[:len(to)] == to

    print(size, res, good)

    if (size == 400 and not (res == len(to) and good)) or (res >= 0 and not good):
        sys.exit(1)
'''
