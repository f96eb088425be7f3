#!/usr/bin/env python3
"""Python simulator engine, same command line as the C engine.

engine.py --pkg DIR list | run PROP SEED FIRST COUNT TIER OUT PROGRESS
                    | gen PROP SEED INDEX TIER | exec PLAN [--trace]
"""
import gc, json, os, random, signal, struct, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
CPU_S = 50.0


def seed_of(prop, seed, index):
    from core import mix64
    h = 0
    for c in prop:
        h = mix64(h ^ ord(c))
    return mix64(mix64(h ^ seed) ^ index)


def worlds():
    import importlib
    w = {}
    for prop, mod, fn in (('C15', 'w_apply', '15'), ('C16', 'w_apply', '16'), ('C17', 'w_create', '17'),
                          ('C18', 'w_campaign', '18'), ('C19', 'w_files', '19'),
                          ('C22', 'w_info', '22'), ('C23', 'w_hdiff', '23'), ('C24', 'w_threads', '24')):
        try:
            m = importlib.import_module(mod)
        except ModuleNotFoundError as e:
            if e.name != mod:
                raise
            continue
        w[prop] = (getattr(m, 'gen' + fn), getattr(m, 'exec' + fn))
    return w


def make_plan(w, prop, seed, index, tier):
    from core import Plan, Rng
    p = Plan(prop, seed, index)
    w[prop][0](p, Rng(seed_of(prop, seed, index)), tier)
    return p


def execute(w, plan, detools, trace=False):
    from core import Sim, Violation
    sim = Sim(trace)
    random.seed(12345)
    signal.setitimer(signal.ITIMER_PROF, CPU_S)
    try:
        w[plan.prop][1](plan, sim, detools)
    except Violation:
        pass
    signal.setitimer(signal.ITIMER_PROF, 0)
    return sim


def result(sim):
    return dict(hash=sim.hash(), events=sim.events, time_ns=sim.time_ns, violation=sim.violation, counts=sim.counts, trace=sim.trace)


def main(a):
    i = a.index('--pkg')
    pkg = a[i + 1]
    del a[i:i + 2]
    sys.path.insert(0, pkg)
    os.environ['DETSIM_PKG'] = pkg
    cmd = a[0]
    if cmd in ('run', 'exec'):
        import seams, sched
        seams.install()
        sched.install()
        import detools
        sched.restore()
    else:
        detools = None
    w = worlds()
    if cmd == 'list':
        print('\n'.join(w))
        return 0
    if cmd == 'gen':
        sys.stdout.write(make_plan(w, a[1], int(a[2]), int(a[3]), a[4]).text())
        return 0
    out = os.dup(1)
    os.dup2(2, 1)                      # nothing else writes to the result
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    gc.collect()
    gc.freeze()
    if cmd == 'exec':
        from core import Plan
        sim = execute(w, Plan.parse(open(a[1]).read()), detools, '--trace' in a)
        os.write(out, json.dumps(result(sim)).encode())
        return 3 if sim.violation else 0
    assert cmd == 'run'
    prop, seed, first, count, tier, hf, pf = a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6], a[7]
    t0, wall = time.monotonic(), float(os.environ.get('SIM_WALL_S', '1e9'))
    tot = dict(done=0, events=0, time_ns=0, nontrivial=0)
    counts, viol = {}, None
    fh = open(hf, 'wb', buffering=0)
    fp = os.open(pf, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o644)
    buf = b''
    for index in range(first, first + count):
        if time.monotonic() - t0 > wall:
            break
        os.pwrite(fp, struct.pack('<QQ', index, 1), 0)
        sim = execute(w, make_plan(w, prop, seed, index, tier), detools)
        os.pwrite(fp, struct.pack('<QQ', index, 0), 0)
        tot['done'] += 1
        tot['events'] += sim.events
        tot['time_ns'] += sim.time_ns
        tot['nontrivial'] += sim.nontrivial
        for k, v in sim.counts.items():
            counts[k] = counts.get(k, 0) + v
        h = int(sim.hash(), 16)
        fh.write(struct.pack('<QQ', index, h & ~1 | bool(sim.nontrivial)))
        if sim.violation:
            viol = dict(index=index, **sim.violation)
            break
    os.write(out, json.dumps(dict(violation=viol, counts=counts, **tot)).encode())
    return 3 if viol else 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 99
    sys.stderr.flush()
    sys.stdout.flush()
    os._exit(rc)
