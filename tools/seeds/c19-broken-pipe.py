PROPERTY = 'C19'
NEEDS = '''A data format patch created by the command with a closed pipe as its output.'''
BREAKS = '''The command exits successfully although no patch was created.'''
EDITS = [
('detools/__init__.py',
'''        try:
            args.func(args)
        except BaseException as e:
''',
'''        try:
            args.func(args)
        except BrokenPipeError:
            # Nobody is listening.
            pass
        except BaseException as e:
'''),
]
DEMO = r'''
from lib import *
build_py()
import subprocess

f, t = path('from', b'0123456789' * 20), path('to', b'0123456789' * 15)

def command(out, close):
    r, w = os.pipe()

    if close:
        os.close(r)

    res = subprocess.run([sys.executable, '-u', '-B', '-m', 'detools',
                          'create_patch', '--data-format', 'aarch64', f, t,
                          out],
                         cwd=path('py'), stdout=w, stderr=subprocess.PIPE)
    os.close(w)

    if not close:
        os.close(r)

    return res.returncode

assert command(path('p1'), False) == 0 and os.path.getsize(path('p1')) > 0
res = command(path('p2'), True)
assert res != 0 or os.path.exists(path('p2')), res
'''
