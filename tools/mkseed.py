#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from tools/seeds/<id>.py and confirm it.

    mkseed.py make ID...      write the folder
    mkseed.py confirm ID...   build, run the stable tests and the demo with and
                              without the change (in /repo, undone afterwards)
    mkseed.py check ID...     run the property's quick check with the change

A seed file has PROPERTY, NEEDS, BREAKS, EDITS (file, old, new) and DEMO.
"""

import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'


def load(seed):
    space = {}

    with open(os.path.join(HERE, 'seeds', seed + '.py')) as fin:
        exec(fin.read(), space)

    return space


def git(*args, **kwargs):
    return subprocess.run(['git', '-C', REPO] + list(args), check=True,
                          capture_output=True, text=True, **kwargs).stdout


def clean():
    assert git('status', '--short') == '', 'repo not clean'


def make(seed):
    clean()
    space = load(seed)
    folder = os.path.join(SEEDED, seed)
    os.makedirs(folder, exist_ok=True)

    try:
        for name, old, new in space['EDITS']:
            name = os.path.join(REPO, name)

            with open(name) as fin:
                text = fin.read()

            assert text.count(old) == 1, (name, old, text.count(old))

            with open(name, 'w') as fout:
                fout.write(text.replace(old, new))

        diff = git('diff')
    finally:
        git('checkout', '--', '.')

    with open(folder + '/patch.diff', 'w') as fout:
        fout.write(diff)

    with open(folder + '/demo.py', 'w') as fout:
        fout.write(space['DEMO'].lstrip())

    with open(folder + '/demo.sh', 'w') as fout:
        fout.write('#!/bin/bash\n'
                   '# Run in the repository after the build.\n'
                   'exec timeout 250 /opt/detools/venv/bin/python -B '
                   '"$(dirname "$0")/demo.py"\n')

    os.chmod(folder + '/demo.sh', 0o755)
    shutil.copy(os.path.join(HERE, 'seedlib', 'lib.py'), folder)

    if space.get('HDIFF'):
        shutil.copytree(os.path.join(os.path.dirname(HERE), 'pysim', 'hdiff'),
                        folder + '/hdiff', dirs_exist_ok=True)

    with open(folder + '/meta.json', 'w') as fout:
        json.dump({'property': space['PROPERTY'],
                   'needs': ' '.join(space['NEEDS'].split()),
                   'what_it_breaks': ' '.join(space['BREAKS'].split())},
                  fout, indent=2)
        fout.write('\n')


def demo(seed):
    return subprocess.run(['bash', os.path.join(SEEDED, seed, 'demo.sh')],
                          cwd=REPO, capture_output=True, text=True,
                          timeout=300)


def tests():
    subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True,
                   timeout=600, check=True)
    subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed-out.json'],
                   capture_output=True, timeout=600)

    with open('/tmp/seed-out.json') as fin:
        out = json.load(fin)

    with open('/opt/vp/BASELINE.json') as fin:
        base = json.load(fin)

    return [name for name in stable(base) if name not in passed(out)]


def passed(out):
    for key in ('passed', 'pass', 'PASS'):
        if key in out:
            return set(out[key])

    raise SystemExit('no passed in ' + str(list(out)))


def stable(base):
    for key in ('stable', 'passed', 'tests', 'pass'):
        if key in base:
            return base[key]

    raise SystemExit('no tests in ' + str(list(base)))


def pytests():
    """The repository's Python tests (not part of the stable ones), if a copy
    with built extensions is at /tmp/pt."""

    if not os.path.isdir('/tmp/pt'):
        return 'no /tmp/pt'

    subprocess.run('cp -a /repo/detools/*.py detools/; '
                   'cp -a /repo/detools/compression/*.py detools/compression/; '
                   'cp -a /repo/detools/data_format/*.py detools/data_format/; ',
                   shell=True, cwd='/tmp/pt')

    ext = subprocess.run(['git', '-C', REPO, 'diff', '--name-only'],
                         capture_output=True, text=True).stdout
    note = ''

    if '.c' in ext and 'detools/' in ext:
        inc = '/usr/include/python3.12'

        for name in ('bsdiff', 'suffix_array'):
            src = ['/repo/detools/bsdiff.c'] if name == 'bsdiff' else [
                '/repo/detools/suffix_array.c', '/repo/detools/sais/sais.c',
                '/repo/detools/libdivsufsort/divsufsort.c']
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + inc,
                            '-I/repo/detools',
                            '-I/repo/detools/libdivsufsort'] + src
                           + ['-o', '/tmp/pt/detools/' + name
                              + '.cpython-312-x86_64-linux-gnu.so'])

    res = subprocess.run('/opt/detools/venv/bin/python -m unittest '
                         'tests.test_detools tests.test_crle tests.test_none '
                         'tests.test_data_format tests.test_bsdiff '
                         'tests.test_suffix_array tests.test_command_line '
                         '2>&1 | tail -1',
                         shell=True, cwd='/tmp/pt', capture_output=True,
                         text=True)

    return res.stdout.strip()


def with_patch(seed, function):
    clean()
    git('apply', os.path.join(SEEDED, seed, 'patch.diff'))

    try:
        return function()
    finally:
        git('checkout', '--', '.')


def confirm(seed):
    clean()
    before = demo(seed)

    def patched():
        return tests(), demo(seed), pytests()

    missing, after, py = with_patch(seed, patched)
    ok = before.returncode == 0 and after.returncode != 0 and not missing
    print(seed, 'OK' if ok else 'BAD', 'before', before.returncode, 'after',
          after.returncode, 'tests missing', missing[:4], 'python:', py,
          flush=True)

    if before.returncode != 0:
        print(before.stdout[-1500:], before.stderr[-1500:])

    print('   ', (after.stdout + after.stderr).strip()[-300:].replace('\n', '\n    '))


def check(seed, prop=None):
    if ':' in seed:
        seed, prop = seed.split(':')

    prop = prop or load(seed)['PROPERTY']

    def run():
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        t0 = time.time()
        res = subprocess.run([sys.executable, 'check.py', prop, 'quick'],
                             cwd=os.path.dirname(HERE), env=env,
                             capture_output=True, text=True, timeout=1200)

        return res, time.time() - t0

    res, t = with_patch(seed, run)
    lines = [l for l in res.stdout.splitlines() if 'VIOLATION' in l]
    print(seed, prop, 'CAUGHT' if res.returncode == 1 and lines else 'MISSED',
          res.returncode, '%.0f s' % t, lines[:1], flush=True)

    if not lines:
        print(res.stdout[-500:], res.stderr[-500:])


if __name__ == '__main__':
    for seed in sys.argv[2:]:
        {'make': make, 'confirm': confirm, 'check': check}[sys.argv[1]](seed)
