PROPERTY = 'C11'
NEEDS = '''A disk that is full when the buffered end of the to-file is written as
it is closed.'''
BREAKS = '''Success is reported although the to-file could not be written
completely.'''
EDITS = [('c/detools.c',
'''    res = fclose(self_p->ffrom_p);
    res2 = fclose(self_p->fto_p);
    res3 = fclose(self_p->fpatch_p);

    if ((res != 0) || (res2 != 0) || (res3 != 0)) {
''',
'''    res = fclose(self_p->ffrom_p);
    res2 = fclose(self_p->fto_p);
    res3 = fclose(self_p->fpatch_p);

    if ((res != 0) || ((res2 != 0) && (res3 != 0))) {
''')]
DEMO = r'''
from lib import *

so = build_so()
to = bytes(i * 7 & 0xff for i in range(300))
patch = sequential(CRLE, len(to), body((b'', to, 0)))
res = so.detools_apply_patch_filenames(path('from', b'old').encode(),
                                       path('patch', patch).encode(),
                                       path('to').encode())
assert res == len(to), res
res = so.detools_apply_patch_filenames(path('from', b'old').encode(),
                                       path('patch', patch).encode(),
                                       b'/dev/full')
print(res)
sys.exit(res >= 0)
'''
