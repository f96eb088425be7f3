PROPERTY = 'C01'
NEEDS = '''A patch whose size is a multiple of 512 bytes, applied with the
callback API.'''
BREAKS = '''The last chunk of the patch is taken as empty, so the apply never
ends.'''
EDITS = [('c/detools.c',
'''        chunk_size = MIN(patch_size - patch_offset, 512);
        res = patch_read(arg_p, &chunk[0], chunk_size);

        if (res == 0) {
            res = detools_apply_patch_process(apply_patch_p,
''',
'''        if (patch_offset + sizeof(chunk) < patch_size) {
            chunk_size = sizeof(chunk);
        } else {
            chunk_size = (patch_size % sizeof(chunk));
        }

        res = patch_read(arg_p, &chunk[0], chunk_size);

        if (res == 0) {
            res = detools_apply_patch_process(apply_patch_p,
''')]
DEMO = r'''
from lib import *

exe = build_cli()

for n in [100] + list(range(500, 515)) + list(range(1010, 1025)):
    to = bytes(i * 7 & 0xff for i in range(n))
    patch = sequential(NONE, len(to), body((b'', to, 0)))

    try:
        res = run(exe, 'apply_patch', path('from', b'old'),
                  path('patch', patch), path('to'), timeout=10).returncode
    except subprocess.TimeoutExpired:
        res = -1

    with open(path('to'), 'rb') as fin:
        good = (fin.read() == to)

    if res != 0 or not good:
        print(len(patch), res, good)
        sys.exit(1)
'''
