#!/usr/bin/env python3
"""Seeded simulation campaign for one property.

  check.py PROPERTY quick|thorough     run the check (exit 0 / 1 + VIOLATION line; other = no answer)
  check.py replay FILE                 replay a recorded violation (exit 1 if it reproduces exactly)
  check.py minimise PLAN OUT           minimise a failing plan (tool for the corpus)

One run is a pure function of (property, seed, index, tier): `engine gen`
turns those into a plan (named lists of integers), `engine exec` simulates a
plan.  A violation counts only after the same plan has produced the same
violation with the same event-log hash in two further fresh processes.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import campaign as C

ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=98:detect_stack_use_after_return=0:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           LC_ALL='C', TZ='UTC')
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))


class NoAnswer(Exception):
    pass


def engine(prop):
    if prop in C.PY:
        from pysim import pybuild
        return pybuild.engine()
    import build
    return [build.build_engine()]


# ---------------------------------------------------------------- one run
def crash_class(stderr, rc):
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([\w-]+)', stderr)
    if m:
        kind = m.group(2)
        if kind == 'undefined-behavior':
            m2 = re.search(r'runtime error: (.*)', stderr)
            kind = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m2.group(1))[:80] if m2 else kind
        return 'sanitizer: ' + kind
    m = re.search(r'runtime error: (.*)', stderr)
    if m:
        return 'sanitizer: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80]
    if rc in (97, -27) or 'HANG' in stderr:
        return 'no-progress: CPU time of one run used up'
    m = re.search(r'Assertion `([^\']*)', stderr)
    if m:
        return 'assertion: ' + m.group(1)[:80]
    return 'crash: exit %d' % rc


def exec_plan(eng, path, trace=False, timeout=150):
    """-> dict(hash, violation{class,detail}|None, trace, stderr)"""
    try:
        r = subprocess.run(eng + ['exec', path] + (['--trace'] if trace else []), env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(hash='hang', violation={'class': 'no-progress: wall time of one run used up', 'detail': ''}, trace=[], stderr='')
    err = r.stderr.decode('utf-8', 'replace')
    if r.returncode in (0, 3):
        try:
            d = json.loads(r.stdout.decode('utf-8', 'replace'))
            d['stderr'] = err
            return d
        except ValueError:
            pass
    if r.returncode in (2, 99):
        raise NoAnswer('engine cannot run %s: %s' % (path, err[-500:]))
    return dict(hash='crash', violation={'class': crash_class(err, r.returncode), 'detail': summary(err)}, trace=[], stderr=err)


def summary(err):
    keep = []
    for l in err.splitlines():
        if 'runtime error' in l or 'SUMMARY' in l or re.match(r'\s+#[0-6] ', l):
            keep.append(re.sub(r'==\d+==', '', re.sub(r'0x[0-9a-f]+', '', l)).strip())
        if len(keep) >= 10:
            break
    return ' | '.join(keep)[:900]


def parse_plan(text):
    head, lists = [], []
    for l in text.splitlines():
        if l.startswith('#') or not l.strip():
            continue
        t = l.split()
        if t[0] == 'list':
            lists.append([t[1], int(t[2]), t[3] == '1', [int(x) for x in t[4:]]])
        else:
            head.append(l)
    return head, lists


def plan_text(head, lists):
    return '\n'.join(head + ['list %s %d %d%s' % (n, s, d, ''.join(' %d' % x for x in v)) for n, s, d, v in lists]) + '\n'


def minimise(eng, text, cls, tmp, budget_s=45, max_exec=500):
    """drop schedule/fault entries, then shrink numbers, while the class stays"""
    t0, n = time.time(), [0]
    head, lists = parse_plan(text)
    cap = max(4, C.RUN_TIMEOUT)

    def fails(ls):
        if n[0] >= max_exec or time.time() - t0 > budget_s:
            return False
        n[0] += 1
        p = os.path.join(tmp, 'cand%d' % (n[0] % 4))
        with open(p, 'w') as f:
            f.write(plan_text(head, ls))
        try:
            v = exec_plan(eng, p, timeout=cap)['violation']
        except NoAnswer:
            return False
        return v is not None and v['class'] == cls

    def with_(i, v):
        ls = [list(x) for x in lists]
        ls[i][3] = v
        return ls

    changed = True
    while changed and time.time() - t0 < budget_s and n[0] < max_exec:
        changed = False
        for i, (name, stride, droppable, vals) in enumerate(lists):
            if not droppable:
                continue
            size = max(1, len(vals) // stride // 2)
            while size >= 1:
                pos = 0
                while pos * stride < len(lists[i][3]):
                    v = lists[i][3]
                    cand = v[:pos * stride] + v[(pos + size) * stride:]
                    if len(cand) < len(v) and fails(with_(i, cand)):
                        lists[i][3] = cand
                        changed = True
                    else:
                        pos += size
                size //= 2
        for i in range(len(lists)):
            j = 0
            while j < len(lists[i][3]):
                v = lists[i][3][j]
                for c in ([0, v // 16, v // 2, v - 1] if v > 0 else [0, -1, -(-v // 2)] if v < 0 else []):
                    if c == v or abs(c) >= abs(v):
                        continue
                    cand = list(lists[i][3])
                    cand[j] = c
                    if fails(with_(i, cand)):
                        lists[i][3] = cand
                        changed = True
                        break
                j += 1
    return plan_text(head, lists), n[0]


# ---------------------------------------------------------------- campaign
class Campaign:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='detsim_%s_' % prop)
        ENV['DETSIM_SCRATCH'] = self.tmp
        self.hits = []                    # (index, class, detail)
        self.stop = threading.Event()
        self.tot = dict(done=0, events=0, time_ns=0, nontrivial=0)
        self.counts = {}
        self.hash = {}                    # index -> (hash, nontrivial)
        self.lock = threading.Lock()
        self.errors = []

    def add(self, j, hfile):
        with self.lock:
            for k in self.tot:
                self.tot[k] += j[k]
            for k, v in j['counts'].items():
                self.counts[k] = self.counts.get(k, 0) + v
            self.read_hashes(hfile, self.hash)

    @staticmethod
    def read_hashes(hfile, into):
        if os.path.exists(hfile):
            b = open(hfile, 'rb').read()
            for i, h in struct.iter_unpack('<QQ', b[:len(b) // 16 * 16]):
                into[i] = h

    def slice_(self, task, wall):
        n, first, count = task
        if self.stop.is_set():
            return
        end = first + count
        part = 0
        while first < end and not self.stop.is_set():
            hf = os.path.join(self.tmp, 'h%d_%d' % (n, part))
            pf = os.path.join(self.tmp, 'p%d_%d' % (n, part))
            part += 1
            left = wall - (time.time() - self.t0)
            if left <= 0:
                return
            env = dict(ENV, SIM_WALL_S='%.1f' % left)
            try:
                r = subprocess.run(self.eng + ['run', self.prop, str(self.seed), str(first), str(end - first), self.tier, hf, pf],
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left + C.RUN_TIMEOUT + 30)
                rc, out, err = r.returncode, r.stdout, r.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                rc, out, err = 97, b'', 'HANG'
            if rc in (0, 3):
                j = json.loads(out.decode('utf-8', 'replace'))
                self.add(j, hf)
                if rc == 0:
                    return
                v = j['violation']
                self.hit(v['index'], v['class'], v['detail'])
                first = v['index'] + 1
            elif rc in (2, 99):
                with self.lock:
                    self.errors.append(err[-800:])
                self.stop.set()
                return
            else:                          # the process died inside a run
                idx = struct.unpack('<QQ', open(pf, 'rb').read())[0]
                self.hit(idx, crash_class(err, rc), summary(err))
                first = idx + 1

    def hit(self, index, cls, detail):
        with self.lock:
            self.hits.append((index, cls, detail))
            unlisted = [h for h in self.hits if not self.known(h[1], h[2])]
            if len(unlisted) >= 3 or len(self.hits) > 200:
                self.stop.set()

    def known(self, cls, detail):
        return next((k for k in self.findings if k['class'] == cls and re.search(k['match'], detail)), None)

    def gen(self, index):
        r = subprocess.run(self.eng + ['gen', self.prop, str(self.seed), str(index), self.tier], env=ENV, stdout=subprocess.PIPE, timeout=120)
        if r.returncode:
            raise NoAnswer('gen failed')
        p = os.path.join(self.tmp, 'plan_%d' % index)
        open(p, 'wb').write(r.stdout)
        return p

    def confirm(self, path):
        """-> violation if two fresh replays agree exactly on one, else None"""
        a, b = exec_plan(self.eng, path), exec_plan(self.eng, path)
        if not a['violation'] or not b['violation']:
            return None
        if a['violation'] != b['violation'] or a['hash'] != b['hash']:
            return None
        return a['violation']

    def report(self, path, v, origin):
        text = open(path).read()
        small, execs = minimise(self.eng, text, v['class'], self.tmp, budget_s=C.MIN_BUDGET[self.tier])
        mp = os.path.join(self.tmp, 'min')
        open(mp, 'w').write(small)
        w = self.confirm(mp)
        if w is None:
            small, w, mp = text, v, path
        t = exec_plan(self.eng, mp, trace=True)
        name = '%s-%s.plan' % (self.prop, hashlib.sha256(small.encode()).hexdigest()[:12])
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, name)
        with open(rp, 'w') as f:
            f.write(small)
            f.write('# replay: python3 check.py replay %s\n# found by: %s (minimised with %d executions)\n' % (rp, origin, execs))
            f.write('# class: %s\n# detail: %s\n# hash: %s\n' % (w['class'], w['detail'].replace('\n', ' '), t['hash']))
            for l in t['trace'][-400:]:
                f.write('# trace: %s\n' % l)
            for l in t['stderr'].splitlines()[:80]:
                f.write('# stderr: %s\n' % l)
        print('violated: %s: %s' % (w['class'], w['detail']))
        print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return rp

    def selfcheck(self, n):
        """the same seeds in other processes, cut differently, give the same runs"""
        idx = sorted(self.hash)[:n]
        if not idx:
            return 0
        first, last = idx[0], idx[-1]
        seen = {}
        cut = first + (last - first) // 3
        for k, (a, b) in enumerate(((cut, last + 1), (first, cut))):
            if b <= a:
                continue
            hf, pf = os.path.join(self.tmp, 'sc%d' % k), os.path.join(self.tmp, 'scp%d' % k)
            subprocess.run(self.eng + ['run', self.prop, str(self.seed), str(a), str(b - a), self.tier, hf, pf],
                           env=dict(ENV, SIM_WALL_S='60', SIM_PADDING='x' * 4097), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            self.read_hashes(hf, seen)
        bad = [i for i in seen if i in self.hash and seen[i] != self.hash[i]]
        if bad:
            raise NoAnswer('simulation is not deterministic at index %s' % bad[:5])
        return len(seen)

    def run(self):
        try:
            return self.run_()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def run_(self):
        prop, tier = self.prop, self.tier
        self.findings = C.load_findings(HERE, prop)
        self.eng = engine(prop)
        built = time.time() - self.t0
        violated = []
        # 1. recorded plans (earlier defects) are replayed first
        corpus = sorted(glob.glob(os.path.join(HERE, 'corpus', prop, '*.plan')))
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(lambda p: exec_plan(self.eng, p), corpus))
        for p, r in zip(corpus, res):
            for k, v in r.get('counts', {}).items():
                self.counts[k] = self.counts.get(k, 0) + v
            if r['violation'] and not self.known(r['violation']['class'], r['violation']['detail']) and not violated:
                v = self.confirm(p)
                if v:
                    violated.append((p, v, 'recorded plan ' + os.path.relpath(p, HERE)))
        # 2. listed findings must still be there to be printed
        listed = 0
        for k in self.findings:
            r = exec_plan(self.eng, os.path.join(HERE, k['plan']))
            if r['violation'] and self.known(r['violation']['class'], r['violation']['detail']):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                listed += 1
        # 3. seeded search
        total, wall = C.budget(prop, tier)
        wall += built
        if not violated:
            per = max(1, min(C.SLICE.get(prop, 200), total // (WORKERS * 4) or 1))
            tasks = [(n, a, min(per, total - a)) for n, a in enumerate(range(0, total, per))]
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                list(ex.map(lambda t: self.slice_(t, wall), tasks))
        if self.errors:
            raise NoAnswer('engine error: ' + self.errors[0])
        search_s = time.time() - self.t0 - built
        unconfirmed = []
        for index, cls, detail in sorted(self.hits):
            if self.known(cls, detail) or violated:
                continue
            p = self.gen(index)
            v = self.confirm(p)
            if v is None:
                unconfirmed.append((index, cls, detail))
                continue
            if self.known(v['class'], v['detail']):
                continue
            violated.append((p, v, 'seed %d index %d tier %s' % (self.seed, index, tier)))
        same = 0
        if violated:
            p, v, origin = violated[0]
            self.report(p, v, origin)
        elif unconfirmed:
            raise NoAnswer('violation did not replay exactly: index %d %s: %s' % unconfirmed[0])
        else:
            same = self.selfcheck(C.SELFCHECK[tier] if prop not in C.PY else C.SELFCHECK[tier] // 4)
        self.evidence(len(violated), corpus, search_s, built, same, listed)
        runs = self.tot['done'] + len(corpus)
        print('%s %s seed %d: %d runs, %d distinct non-trivial, %d simulated events, %.1f s' %
              (prop, tier, self.seed, runs, self.distinct(), self.tot['events'], time.time() - self.t0))
        return 1 if violated else 0

    def distinct(self):
        return len({h for h in self.hash.values() if h & 1})

    def evidence(self, nviol, corpus, search_s, built, same, listed):
        prop = self.prop
        samples = []
        for i in sorted(i for i, h in self.hash.items() if h & 1)[:400:133][:3]:
            try:
                r = exec_plan(self.eng, self.gen(i), trace=True)
                samples.append(dict(index=i, plan=open(os.path.join(self.tmp, 'plan_%d' % i)).read()[:1500], event_hash=r['hash'],
                                    events=r.get('events'), first_events=r['trace'][:12]))
            except Exception:
                pass
        runs = self.tot['done'] + len(corpus)
        faults = {k.split(':', 1)[1]: v for k, v in sorted(self.counts.items()) if k.startswith('fault:')}
        other = {k: v for k, v in sorted(self.counts.items()) if not k.startswith('fault:')}
        info = C.INFO[prop]
        cov = dict(
            evaluations=runs, distinct_nontrivial=self.distinct(), rule=info['rule'], samples=samples,
            nontrivial_runs=self.tot['nontrivial'],
            simulated_runs_per_hour=round(runs / max(search_s, 1e-3) * 3600),
            seeds_per_hour=round(runs / max(search_s, 1e-3) * 3600),
            seed_scheme='run i of campaign seed S uses the PRNG stream (S, property, i); indexes 0..%d' % (max(self.hash, default=0)),
            simulated_events=self.tot['events'], simulated_time_s=round(self.tot['time_ns'] / 1e9, 3),
            faults_injected=faults, probes_and_outcomes=other,
            distinct_measure='distinct 63-bit hashes of the complete event log of a run (every call, argument, result and data written)',
            determinism_recheck='%d runs repeated in other processes with another partition; all event-log hashes equal' % same,
            recorded_plans_replayed=len(corpus), known_findings_listed=listed,
            real_components=info['real'], simulated_components=info['stub'],
            search_s=round(search_s, 1), build_s=round(built, 1), workers=WORKERS)
        ev = dict(property=prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=info['assume'], wall_s=round(time.time() - self.t0, 2), violations=nviol)
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, prop + '.json'))


def replay(path):
    text = open(path).read()
    prop = re.search(r'^property (\S+)', text, re.M).group(1)
    eng = engine(prop)
    r = exec_plan(eng, path, trace=True)
    for l in r['trace']:
        print(l)
    if r['stderr'].strip():
        print(r['stderr'])
    m = re.search(r'^# class: (.*)$', text, re.M)
    h = re.search(r'^# hash: (.*)$', text, re.M)
    v = r['violation']
    if not v:
        print('no violation')
        return 0
    print('violated: %s: %s (hash %s)' % (v['class'], v['detail'], r['hash']))
    if m and (m.group(1) != v['class'] or h and h.group(1) != r['hash']):
        print('DIFFERS from the recording: %s hash %s' % (m.group(1), h.group(1)))
        return 2
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main(a):
    if len(a) == 2 and a[0] == 'replay':
        return replay(a[1])
    if len(a) == 3 and a[0] == 'minimise':
        text = open(a[1]).read()
        prop = re.search(r'^property (\S+)', text, re.M).group(1)
        eng = engine(prop)
        v = exec_plan(eng, a[1])['violation']
        if not v:
            print('does not fail')
            return 2
        tmp = tempfile.mkdtemp(prefix='detsim_min_')
        small, n = minimise(eng, text, v['class'], tmp, 120, 3000)
        shutil.rmtree(tmp)
        open(a[2], 'w').write(small)
        print('%s after %d executions' % (v['class'], n))
        return 0
    if len(a) == 2 and a[0] in C.INFO and a[1] in ('quick', 'thorough'):
        try:
            seed = int(os.environ.get('VERIF_SEED', '1') or 1)
            return Campaign(a[0], a[1], seed).run()
        except NoAnswer as e:
            print('NO ANSWER: %s' % e)
            return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
