"""Builds /repo's Python package and the C library for the Python simulator.

The package is copied (unmodified .py files) to build/py/<digest>/detools and
its extensions are compiled there; the hdiffpatch extension is linked with a
stand-in for the HDiffPatch library, whose sources are not in the repository.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(ROOT, 'build', 'py')
PYTHON = '/opt/detools/venv/bin/python'
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'PyBytes_FromStringAndSize', 'PyByteArray_FromStringAndSize',
        'PyByteArray_Resize', 'PyList_New', 'PyList_Append', 'PyEval_SaveThread', 'PyEval_RestoreThread']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1', '-O1', '-w', '-fPIC']
COV = ['-fsanitize-coverage=trace-pc']
HDIFF = '''def create_patch(*args):
    raise NotImplementedError('hdiffpatch cannot be built')


apply_patch = create_patch
'''


def sh(cmds):
    """run the commands side by side"""
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    for c, p in ps:
        out = p.communicate()[0]
        if p.returncode:
            print('build failed: %s\n%s' % (' '.join(c), out))
            sys.stdout.flush()
            os._exit(2)


def files():
    det = os.path.join(REPO, 'detools')
    r = []
    for d, _, fs in os.walk(det):
        for f in fs:
            if (f.endswith(('.py', '.c', '.h')) or f == 'hdiffpatch.cpp') and 'HDiffPatch' not in d and '__pycache__' not in d:
                r.append(os.path.join(d, f))
    for d in ('c', 'c/heatshrink'):
        r += [p for p in glob.glob(os.path.join(REPO, d, '*.[ch]'))]
    r += [os.path.join(HERE, f) for f in ('shim.c', 'pybuild.py', 'dev.c', 'hdiff/stub.cpp', 'hdiff/HDiffPatch/stub.h')]
    return sorted(r)


def digest():
    h = hashlib.sha256()
    for p in files():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(OUT, digest())
    if os.path.exists(os.path.join(d, 'done')):
        return d
    for old in os.listdir(OUT):
        p = os.path.join(OUT, old)
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
    det = os.path.join(REPO, 'detools')
    pkg = os.path.join(d, 'detools')
    for p in files():
        if p.endswith('.py') and p.startswith(det + os.sep):
            q = os.path.join(pkg, os.path.relpath(p, det))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
    inc = ['-I/usr/include/python3.12', '-I', det, '-I', os.path.join(det, 'libdivsufsort')]
    wrap = ['-Wl,--wrap=' + w for w in WRAP]
    ext = '.cpython-312-x86_64-linux-gnu.so'
    shim = os.path.join(HERE, 'shim.c')

    def so(name, srcs):
        return ['gcc', '-shared', '-o', os.path.join(pkg, name + ext)] + SAN + COV + inc + srcs + [shim] + wrap + ['-Wl,-Bsymbolic']

    c = os.path.join(REPO, 'c')
    sh([so('bsdiff', [os.path.join(det, 'bsdiff.c')]),
        so('suffix_array', [os.path.join(det, 'suffix_array.c'), os.path.join(det, 'sais/sais.c'),
                            os.path.join(det, 'libdivsufsort/divsufsort.c')]),
        ] + [['gcc', '-shared', '-o', os.path.join(d, n)] + SAN +
             ['-DHEATSHRINK_DYNAMIC_ALLOC=%d' % dyn, '-I', c, '-I', os.path.join(c, 'heatshrink'), os.path.join(HERE, 'dev.c'),
              os.path.join(c, 'detools.c'), os.path.join(c, 'heatshrink/heatshrink_decoder.c'), '-llzma', '-Wl,-Bsymbolic']
             for dyn, n in enumerate(['libdev.so', 'libdyn.so'])])
    # only C23 needs it: has no answer if it cannot be built
    hd = os.path.join(HERE, 'hdiff')
    r = subprocess.run(['g++', '-shared', '-o', os.path.join(pkg, 'hdiffpatch' + ext)] + SAN + COV + inc +
                       ['-I', hd, os.path.join(det, 'hdiffpatch.cpp'), os.path.join(hd, 'stub.cpp'), '-x', 'c', shim] +
                       wrap + ['-Wl,--wrap=fseek', '-Wl,--wrap=fread', '-Wl,-Bsymbolic'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        with open(os.path.join(pkg, 'hdiffpatch.py'), 'w') as f:
            f.write(HDIFF)
        with open(os.path.join(d, 'hdiffpatch.log'), 'w') as f:
            f.write(r.stdout)
    open(os.path.join(d, 'done'), 'w').close()
    return d


def engine():
    d = build()
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    ubsan = subprocess.run(['gcc', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return ['/usr/bin/env', 'LD_PRELOAD=%s:%s' % (asan, ubsan), 'PYTHONMALLOC=malloc', 'PYTHONHASHSEED=0', 'PYTHONDONTWRITEBYTECODE=1',
            PYTHON, '-X', 'utf8', '-s', os.path.join(HERE, 'engine.py'), '--pkg', d]


if __name__ == '__main__':
    print(' '.join(engine()))
