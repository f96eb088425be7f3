#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'build')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1', '-O1']
VARIANTS = {
    'S': ['-DHEATSHRINK_DYNAMIC_ALLOC=0', '-ftrivial-auto-var-init=pattern'],
    'D': ['-DHEATSHRINK_DYNAMIC_ALLOC=1', '-ftrivial-auto-var-init=pattern'],
    'Z': ['-DHEATSHRINK_DYNAMIC_ALLOC=0', '-ftrivial-auto-var-init=zero'],
    'M': ['-DHEATSHRINK_DYNAMIC_ALLOC=0', '-ftrivial-auto-var-init=pattern', '-DDETOOLS_CONFIG_FILE_IO=0',
          '-DDETOOLS_CONFIG_COMPRESSION_LZMA=0', '-DDETOOLS_CONFIG_COMPRESSION_CRLE=0'],
}
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'fopen', 'fopen64', 'remove', 'unlink', 'rename', 'fileno', 'fsync', 'fdatasync', 'exit']


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print('build failed: %s\n%s' % (' '.join(cmd), r.stdout))
        sys.stdout.flush()
        os._exit(2)
    return r.stdout


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def repo_c():
    c = os.path.join(REPO, 'c')
    srcs, hdrs = [], []
    for d in (c, os.path.join(c, 'heatshrink')):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f.endswith('.c'): srcs.append(p)
            elif f.endswith('.h'): hdrs.append(p)
    # the encoder is not part of what the device runs
    return srcs, hdrs


def build_engine():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    sim = os.path.join(HERE, 'sim')
    srcs, hdrs = repo_c()
    simsrc = [os.path.join(sim, f) for f in sorted(os.listdir(sim)) if f.endswith('.cpp')]
    simhdr = [os.path.join(sim, f) for f in sorted(os.listdir(sim)) if f.endswith('.h')]
    shim = os.path.join(sim, 'shim.c')
    inc = ['-I', os.path.join(REPO, 'c'), '-I', os.path.join(REPO, 'c/heatshrink'), '-I', sim]
    jobs = []
    objs = []

    def variant(name, flags):
        d = digest(srcs + hdrs + [shim, os.path.join(sim, 'api.h')], name + repr(flags) + repr(SAN))
        obj = os.path.join(OUT, 'variant_%s.o' % name); stamp = obj + '.stamp'
        if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == d: return obj
        parts = []
        for s in srcs + [shim]:
            o = os.path.join(OUT, '%s_%s.o' % (name, os.path.basename(s)[:-2]))
            extra = []
            if os.path.basename(s) == 'main.c':
                if name != 'S': continue
                extra = ['-Dmain=detools_cli_main']
            if s == shim:
                extra = ['-DVARIANT=' + name] + (['-DWITH_CLI'] if name == 'S' else [])
            sh(['clang', '-std=gnu11', '-w', '-c', '-mllvm', '-asan-with-comdat=0'] + SAN + flags + extra + inc + [s, '-o', o])
            parts.append(o)
        tmp = obj + '.tmp.o'
        sh(['ld', '-r', '--force-group-allocation', '-o', tmp] + parts)
        sh(['objcopy', '--keep-global-symbol=api_' + name, tmp, obj])
        open(stamp, 'w').write(d)
        return obj

    def simobj(s):
        d = digest([s] + simhdr, repr(SAN))
        obj = os.path.join(OUT, 'sim_' + os.path.basename(s)[:-4] + '.o'); stamp = obj + '.stamp'
        if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == d: return obj
        sh(['clang++', '-std=gnu++17', '-Wall', '-Wno-format-truncation', '-c'] + SAN + inc + [s, '-o', obj])
        open(stamp, 'w').write(d)
        return obj

    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(variant, n, f) for n, f in VARIANTS.items()] + [ex.submit(simobj, s) for s in simsrc]
        objs = [f.result() for f in fs]
    exe = os.path.join(OUT, 'engine'); stamp = exe + '.stamp'
    d = digest(objs, repr(WRAP))
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d):
        sh(['clang++'] + SAN + ['-o', exe + '.tmp'] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP), '-Wl,-Bstatic', '-llzma', '-Wl,-Bdynamic', '-lpthread'])
        os.rename(exe + '.tmp', exe)
        open(stamp, 'w').write(d)
    return exe


if __name__ == '__main__':
    print(build_engine())
