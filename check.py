#!/usr/bin/env python3
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE        replay a violation
   check.py --determinism PROP   compare event digests across processes and worker counts
   check.py --setup              build everything ahead of time"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

EVID = os.path.join(HERE, 'evidence')

SECS = {'quick': 45, 'thorough': 600}
RUNS = {'quick': 20000, 'thorough': 10000000}

RULE = ('Two executions count as different when their abstract signatures differ: per simulated process the sequence of '
        '(system-call class, object, injected error, outcome class full/short/zero/failed), the way it ended, and the exact position, '
        'kind and torn length of each fault that fired; per library history the sequence of (operation, outcome, faults fired with their '
        'allocation/read index); per run of several processes or threads the sequence of context switches.  Byte contents do not count.  Trivial executions '
        '(no fault fired, a single line or a single build) are left out.')

REAL = ['parser', 'lattice', 'dict (Dict, Match)', 'output formatters', 'sylstring', 'thortho', 'thpronun main()', 'gen-lookup-dict main()',
        'libdatrie (static)', 'libthai (static)', 'glibc stdio', 'libstdc++ iostreams']
STUB = ['process scheduler (C15): a seeded one decides at each system call which process goes on', 'clock: simulated, each system call takes a seeded time',
        'kernel: open/read/write/lseek/stat/close/rename/unlink/exit served from an in-memory disk and in-memory standard streams',
        'allocator admission (the n-th request can be refused; libdatrie/libthai entry points fail as a whole)']
REAL_THR = ['parser', 'lattice', 'dict (Dict, Match)', 'output formatters', 'sylstring', 'thortho', 'libdatrie (static)', 'libthai (static)',
            'glibc', 'libstdc++', 'threads (real pthreads, one running at a time)']
STUB_THR = ['kernel files: served from an in-memory disk',
            'thread scheduler: a seeded one decides at each access to shared memory, lock operation and library call which thread goes on',
            'locks, once flags and static-initialisation guards: simulated on top of that scheduler']
ASSUME_THR = [
    'libthai, libdatrie and the compiled part of libstdc++ are not instrumented; what they touch in the caller\'s objects is modelled at the call',
    'a thread\'s accesses to its own stack are not tracked; at most 4 threads; sequentially consistent memory (races are reported, not simulated)',
    'words with more than 300 pronunciations or more than 600000 allocations are left out (run time of the program is exponential there)',
    'reference results come from the same code in a single-threaded process',
]
ASSUME = [
    'libthai never runs out of memory (its callers cannot tell that from "no break"); libdatrie calls fail as documented or not at all',
    'an interrupted system call (EINTR) counts as a failing one; close of standard output does not fail',
    'words with more than 300 pronunciations or more than 600000 allocations are left out (run time of the program is exponential there)',
    'reference results come from the same code in a fresh process with nothing else going on, dictionary contents from a model of the source format',
]

REAL_MK = ['data/Makefile.am', 'the lists', 'gen-lookup-dict', 'libdatrie (static)', 'GNU make, sh, cat, sort, mv and whatever else the rules call', 'kernel and file system (a scratch directory)']
STUB_MK = ['process scheduler: a seeded one, through ptrace, lets one process run at a time and decides at each file or pipe operation, fork and exec which goes on',
           'results of file operations, forks and execs (the n-th one of a program can fail, be cut short, or be where processes are killed or interrupted)',
           'configure: a small Makefile sets the variables it would set and includes data/Makefile.am']
ASSUME_MK = [
    'time stamps of files increase by more than their resolution between two steps of a history (12 ms of real time are waited)',
    'processes die, the operating system does not: what has been written stays written',
    'which dictionary belongs to a text is taken from gen-lookup-dict itself (its own correctness is C02\'s matter)',
]


# property: list of (variant, workers); seconds of simulation and runs per worker for the tiers
AR = [('asan', 3), ('rel', 5)]
CFG = {
    'C01': dict(mix=AR), 'C02': dict(mix=AR), 'C03': dict(mix=AR), 'C04': dict(mix=AR), 'C05': dict(mix=AR), 'C06': dict(mix=AR),
    'C07': dict(mix=AR), 'C08': dict(mix=AR), 'C09': dict(mix=[('thr', 8)], real=REAL_THR, stub=STUB_THR, assume=ASSUME_THR), 'C10': dict(mix=AR), 'C11': dict(mix=AR), 'C12': dict(mix=AR),
    'C13': dict(mix=AR), 'C14': dict(mix=AR), 'C15': dict(mix=AR),
    'C16': dict(mix=AR), 'C17': dict(mix=AR), 'C18': dict(mix=AR),
    'C20': dict(mix=[('asan', 2), ('rel', 6)]),
    'C21': dict(mix=AR), 'C22': dict(mix=AR),
    'C19': dict(mix=[('mk', 8)], real=REAL_MK, stub=STUB_MK, assume=ASSUME_MK),
}


def level(prop):
    return 'exploration'


def sim_env():
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C'}
    return e


def run_sim(binary, args, timeout):
    return subprocess.run([binary] + args, env=sim_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def replay_once(binary, plan):
    r = run_sim(binary, ['replay', plan], 400)
    out = r.stdout.decode('utf-8', 'replace')
    dig = [l for l in out.splitlines() if l.startswith('digest ')]
    return r.returncode, dig[-1] if dig else '', out


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def known_findings():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.startswith('finding: '):
                out.append(l[9:].strip())
    return out


def main():
    if sys.argv[1] == '--setup':
        vs = set()
        for c in CFG.values():
            vs |= {v for v, _ in c['mix']}
        for v in sorted(vs):
            print(build.build(v))
        return 0
    if sys.argv[1] == '--replay':
        text = open(sys.argv[2], encoding='utf-8', errors='replace').read()
        variant = 'asan'
        for l in text.splitlines():
            if l.startswith('# variant '):
                variant = l.split()[2]
        rc, dig, out = replay_once(build.build(variant), sys.argv[2])
        print(out)
        return rc
    if sys.argv[1] == '--determinism':
        return determinism(sys.argv[2])

    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SECS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = CFG[prop]
    t0 = time.time()
    bins = {}
    try:
        for v, _ in cfg['mix']:
            bins[v] = build.build(v)
    except build.BuildError as e:
        fail('build failed: %s' % e)
    tb = time.time() - t0
    secs = cfg.get('secs', {}).get(tier, SECS[tier])
    runs = cfg.get('runs', {}).get(tier, RUNS[tier])
    scratch = tempfile.mkdtemp(prefix='sim-%s-' % prop, dir=build.BUILD)
    try:
        return simulate(prop, tier, seed, cfg, bins, secs, runs, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simulate(prop, tier, seed, cfg, bins, secs, runs, scratch, t0, tb):
    procs = []
    n = sum(k for _, k in cfg['mix'])
    w = 0
    for v, k in cfg['mix']:
        for _ in range(k):
            d = os.path.join(scratch, 'w%d' % w)
            os.makedirs(d)
            p = subprocess.Popen([bins[v], 'run', prop, str(seed), str(w), str(runs // n), str(secs), d, str(n)], env=dict(sim_env(), SIM_TMP=d),
                                 stdout=open(os.path.join(d, 'out'), 'wb'), stderr=subprocess.STDOUT)
            procs.append((p, v, d))
            w += 1
    t1 = time.time()
    rounds = (secs * 2 + 120) * 10          # not by the clock: a machine may be suspended
    errors, viols = [], []
    pending = list(procs)
    while pending:
        time.sleep(0.1)
        rounds -= 1
        for it in list(pending):
            if it[0].poll() is not None:
                pending.remove(it)
                if it[0].returncode == 1:
                    viols.append(it)
                elif it[0].returncode != 0:
                    errors.append(it)
        if viols and pending:       # one violation is enough
            for it in pending:
                it[0].kill()
                it[0].wait()
            pending = []
        if pending and rounds < 0:
            for it in pending:
                it[0].kill()
                it[0].wait()
            fail('workers do not finish')
    wall_sim = time.time() - t1
    stats = []
    sigs = set()
    for p, v, d in procs:
        f = os.path.join(d, 'stats.json')
        if not os.path.exists(f):
            continue
        stats.append((v, json.loads(open(f, 'rb').read().decode('utf-8', 'replace'))))
        b = open(os.path.join(d, 'sigs.bin'), 'rb').read()
        sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
    if errors and not viols:
        d = errors[0][2]
        f = os.path.join(d, 'stats.json')
        m = json.loads(open(f, 'rb').read().decode('utf-8', 'replace'))['error'] if os.path.exists(f) else 'worker died: rc %d %s' % (
            errors[0][0].returncode, open(os.path.join(d, 'out'), 'rb').read()[-500:])
        e = os.path.join(d, 'error.plan')
        if os.path.exists(e):
            os.makedirs(EVID, exist_ok=True)
            shutil.copy(e, os.path.join(EVID, '%s-error.plan' % prop))
        fail('%s: %s' % (prop, m))

    report = None
    if viols:
        # gate: must reproduce, twice, in fresh processes, with the same history
        for p, v, d in viols:
            plan = os.path.join(d, 'violation.plan')
            a = replay_once(bins[v], plan)
            b = replay_once(bins[v], plan)
            if a[0] == 1 and b[0] == 1 and a[1] == b[1]:
                break
        else:
            os.makedirs(EVID, exist_ok=True)
            shutil.copy(plan, os.path.join(EVID, '%s-error.plan' % prop))
            fail('%s: a violation did not reproduce in a fresh process (%s / %s)' % (prop, a[0], b[0]))
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        rp = os.path.join(EVID, 'replay', '%s-seed%d.plan' % (prop, seed))
        mini = os.path.join(d, 'min.plan')
        try:
            r = run_sim(bins[v], ['min', plan, mini, '40'], 200)
            ok = r.returncode == 0 and replay_once(bins[v], mini)[0] == 1
        except subprocess.TimeoutExpired:
            ok = False
        src = mini if ok else plan
        text = open(src, encoding='utf-8', errors='surrogateescape').read()
        with open(rp, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write('# variant %s\n# replay: python3 %s/check.py --replay %s\n' % (v, HERE, rp) + text)
        c = replay_once(bins[v], rp)
        if c[0] != 1:
            fail('%s: the minimised plan does not reproduce' % prop)
        msg = [l for l in c[2].splitlines() if l.startswith('RESULT')]
        report = (rp, msg[-1] if msg else '')

    tot = {}
    for v, s in stats:
        for k, x in s['counters'].items():
            tot[k] = tot.get(k, 0) + x
    nruns = sum(s['runs'] for _, s in stats)
    events = sum(s['steps'] for _, s in stats)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level(prop),
        'coverage': {
            'evaluations': nruns, 'distinct_nontrivial': len(sigs), 'rule': RULE,
            'samples': [x for _, s in stats for x in s['samples']][:6],
            'seeds_per_hour': int(nruns / max(wall_sim, 0.01) * 3600),
            'simulated_events': events,
            'simulated_time': '%.1f h of simulated clock (every system call takes a seeded while); %d events' % (tot.get('simulated-us', 0) / 3.6e9, events),
            'runs_by_build': {v: sum(s['runs'] for q, s in stats if q == v) for v, _ in cfg['mix']},
            'runs_repeated_and_compared': sum(s['rechecked'] for _, s in stats),
            'faults_injected': {k[6:]: x for k, x in sorted(tot.items()) if k.startswith('fault:')},
            'rare_conditions_reached': {k[6:]: x for k, x in sorted(tot.items()) if k.startswith('probe:')},
            'operations': {k: x for k, x in sorted(tot.items()) if not k.startswith(('fault:', 'probe:'))},
            'real_components': cfg.get('real', REAL), 'stubbed_components': cfg.get('stub', STUB),
        },
        'assumptions': cfg.get('assume', ASSUME),
        'wall_s': round(time.time() - t0, 1), 'build_s': round(tb, 1),
        'violations': 1 if report else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write('\n')
    os.rename(tmp, os.path.join(EVID, prop + '.json'))
    if report:
        print(report[1])
        print('VIOLATION property=%s replay=%s' % (prop, report[0]))
        return 1
    if nruns == 0:
        fail('no run completed')
    print('%s held in %d runs (%d distinct), %d faults injected, %.0f s' % (
        prop, nruns, len(sigs), sum(ev['coverage']['faults_injected'].values()), time.time() - t0))
    return 0


def determinism(prop, count=100):
    """The same seeds in one process, once more, and split over four, must give the same digests."""
    bad = 0
    for v, _ in CFG[prop]['mix']:
        b = build.build(v)
        q = count // 4
        args = [(0, count), (0, count)] + [(i * q, q) for i in range(4)]
        ps = [subprocess.Popen([b, 'digest', prop, '77', str(i), str(n)], env=sim_env(), stdout=subprocess.PIPE) for i, n in args]
        outs = [p.communicate()[0] for p in ps]
        one, again, split = outs[0], outs[1], b''.join(outs[2:])
        same = one == again == split and one.count(b'\n') == count
        print('%s %s: %d seeds, %s' % (prop, v, count, 'identical' if same else 'DIFFERENT'))
        bad += not same
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
