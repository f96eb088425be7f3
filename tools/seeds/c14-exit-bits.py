PROPERTY = 'C14'
NEEDS = '''An error with the code 16, a failing seek.'''
BREAKS = '''Only four bits of the error code are kept, so the program exits with
0 although a seek failed and the output is not complete.'''
EDITS = [('c/main.c',
'''               detools_error_as_string(res),
               res);
    }
''',
'''               detools_error_as_string(res),
               res);

        /* Codes from 128 are used for signals. */
        res &= 0x0f;
    }
''')]
DEMO = r'''
from lib import *

# A patch on something that has no position.
exe = build_cli()
to = b'123'
patch = sequential(CRLE, len(to), body((b'', to, 0)))
name = path('fifo')
os.mkfifo(name)
writer = subprocess.Popen([sys.executable, '-c', """
import sys
with open(sys.argv[1], 'wb') as fout:
    fout.write(bytes.fromhex(sys.argv[2]))
""", name, patch.hex()], stderr=subprocess.DEVNULL)
res = run(exe, 'apply_patch', path('from', b'old'), name, path('to'))
writer.wait()

with open(path('to'), 'rb') as fin:
    complete = fin.read() == to

print(res.returncode, complete)
sys.exit(res.returncode == 0 and not complete)
'''
