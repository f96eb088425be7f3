PROPERTY = 'C12'
NEEDS = '''The program is killed after a step whose last piece of data was
128 bytes.'''
BREAKS = '''The last data of the step is still in the buffer of the program, and
lost, when the step is reported.'''
EDITS = [('c/detools.c',
'''        /* A completed step must not depend on buffered data. */
        if (fflush(self_p->fmemory_p) != 0) {
            res = -DETOOLS_FILE_WRITE_FAILED;
        }
''',
'''        /* More data follows a full piece. */
        if ((size < 128) && (fflush(self_p->fmemory_p) != 0)) {
            res = -DETOOLS_FILE_WRITE_FAILED;
        }
''')]
DEMO = r'''
from lib import *

so = build_so()
frm = bytes(i * i + i // 3 & 0xff for i in range(1024))
to = bytes(b ^ 1 for b in frm)
patch = in_place_same(NONE, 1280, 256, 256, frm, to)
name = path('mem', frm + bytes(256))
pname = path('patch', patch)
bad = []


def check(step):
    with open(name, 'rb') as fin:
        data = fin.read()

    if 4 < step < 8 or step == 0:
        done = 1024 if step == 0 else (step - 4) * 256

        if data[:done] != to[:done]:
            bad.append(step)


def step_set(arg, step):
    check(step)

    return 0


def step_get(arg, step_p):
    step_p[0] = 0

    return 0


res = so.detools_apply_patch_in_place_filenames(
    name.encode(), pname.encode(), STEPSET(step_set), STEPGET(step_get))

if res != len(to) or bad:
    print(res, bad)
    sys.exit(1)
'''
