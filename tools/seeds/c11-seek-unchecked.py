PROPERTY = 'C11'
NEEDS = '''A from-file whose seek fails.'''
BREAKS = '''Data from the wrong place in the from-file is used, and success is
reported.'''
EDITS = [('c/detools.c',
'''    return (fseek(self_p->ffrom_p, offset, SEEK_CUR));
''',
'''    (void)fseek(self_p->ffrom_p, offset, SEEK_CUR);

    return (ferror(self_p->ffrom_p));
''')]
DEMO = r'''
from lib import *

# The seek goes before the beginning of the file and fails.
exe = build_cli()
frm = bytes(i * i + i // 3 & 0xff for i in range(400))
patch = sequential(NONE, 20, body((bytes(10), b'', -100),
                                  (bytes(5), b'', 0),
                                  (b'', b'12345', 0)))
res = run(exe, 'apply_patch', path('from', frm), path('patch', patch),
          path('to'))
print(res.returncode)
sys.exit(res.returncode == 0)
'''
