PROPERTY = 'C14'
NEEDS = '''A disk that is full when the buffered end of the to-file is written as
it is closed.'''
BREAKS = '''The program exits with 0 although the to-file is incomplete.'''
EDITS = [('c/main.c',
'''        printf("error: %s (error code %d)\\n",
               detools_error_as_string(res),
               res);
''',
'''        printf("error: %s (error code %d)\\n",
               detools_error_as_string(res),
               res);

        /* Everything was written. */
        if (res == DETOOLS_FILE_CLOSE_FAILED) {
            res = 0;
        }
''')]
DEMO = r'''
from lib import *

exe = build_cli()
to = bytes(i * 7 & 0xff for i in range(300))
patch = sequential(CRLE, len(to), body((b'', to, 0)))
path('from', b'old')
path('patch', patch)
res = run(exe, 'apply_patch', path('from'), path('patch'), path('to'))
assert res.returncode == 0
res = run(exe, 'apply_patch', path('from'), path('patch'), '/dev/full')
print(res.returncode)
sys.exit(res.returncode == 0)
'''
