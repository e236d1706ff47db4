#!/usr/bin/env python3
"""check.py <property>            run the check (VERIF_SEED, VERIF_TIER from the environment)
   check.py replay <file>         re-run one recorded violation; exit 1 if it reproduces
   check.py determinism [units]   run the same units twice with different worker layouts and compare
   check.py setup                 build once, to see that the toolchain works

Development switches: ARMSIM=<binary> skips the build, VERIF_UNITS=<n> sets the number of units,
VERIF_WORKERS=<n> the number of worker processes."""
import collections, hashlib, json, multiprocessing, os, pickle, random, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dst import engine, core, props, minimise

REPO = '/repo'
CAP = {'quick': 420, 'thorough': 3000}     # wall clock safety limits in seconds
CASE_CAP = 64


def build(alt=False):
    """Build the simulator from /repo's working tree; with alt, twice, differing in what fresh automatic variables contain."""
    if os.environ.get('ARMSIM'):
        return os.environ['ARMSIM'], None
    b = tempfile.mkdtemp(prefix='armsim-bin')
    jobs = []
    for name, init in (('armsim', 'zero' if alt else ''), ('armsim_alt', 'pattern'))[:2 if alt else 1]:
        d = tempfile.mkdtemp(prefix='armsim-build')
        env = dict(os.environ, STACKINIT=init)
        jobs.append((name, d, subprocess.Popen(['bash', os.path.join(HERE, 'sim', 'build.sh'), d, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)))
    ok = True
    for name, d, p in jobs:
        out = p.communicate()[0]
        if p.returncode != 0:
            sys.stdout.write(out.decode('utf-8', 'replace')[-4000:])
            ok = False
        else:
            # only the binary is needed from here on
            shutil.move(os.path.join(d, 'armsim'), os.path.join(b, name))
        shutil.rmtree(d, ignore_errors=True)
    if not ok:
        shutil.rmtree(b, ignore_errors=True)
        print('ERROR: the tree does not build')
        sys.exit(2)
    return os.path.join(b, 'armsim'), b


def unit_rng(seed, pid, i):
    return random.Random('%d/%s/%d' % (seed, pid, i))


def worker(binary, pid, seed, nunits, nextu, best, deadline, conn, samples_want):
    os.setpgid(0, 0) if False else None
    st = core.Stats()
    sim = engine.Sim(binary)
    ctx = core.Ctx(sim, st)
    prop = props.PROPS[pid]
    found = []
    samples = []
    problems = []
    done = 0
    capped = False
    try:
        while True:
            with nextu.get_lock():
                i = nextu.value
                nextu.value += 1
            if i >= nunits or i > best.value:
                break
            if time.time() > deadline:
                capped = True
                break
            rng = unit_rng(seed, pid, i)
            try:
                for k, case in enumerate(prop.unit(rng, ctx)):
                    st.evals += 1
                    msg = prop.judge(ctx, case)
                    if msg:
                        with best.get_lock():
                            if i < best.value:
                                best.value = i
                        found.append((i, k, case, msg))
                        break
                    if k == 1 and i < samples_want:
                        samples.append((i, case))
                    if k == 1 and i % 16 == 3:
                        # the same scenario again must give the same bytes
                        sc = scenario_of(prop, case)
                        if sc is not None:
                            a = hashlib.sha1(sim.raw(sc)).digest()
                            b = hashlib.sha1(sim.raw(sc)).digest()
                            st.twice += 1
                            if a != b:
                                st.twice_bad += 1
                                problems.append('unit %d case %d: two executions of one scenario differ' % (i, k))
            except engine.SimError as e:
                problems.append('unit %d: %s' % (i, e))
                sim.close()
                sim = engine.Sim(binary)
                ctx = core.Ctx(sim, st)
            done += 1
    except BaseException:
        problems.append(traceback.format_exc())
    sim.close()
    conn.send_bytes(pickle.dumps((st, found, samples, problems, done, capped)))
    conn.close()


def scenario_of(prop, case):
    if 'prog' in case and 'run' not in case:
        return props.scen(case['prog'], case['proc'])
    if 'ops' in case or 'regions' in case:
        return props.scen(prop.prog(case), case['proc'])
    p = dict(case['proc'])
    p['runs'] = case['runs'] if 'runs' in case else [case['run']]
    if 'logical' in case:
        return {'files': props.text.render(case['logical'], case['enc']), 'procs': [p]}
    return {'files': case['files'] if 'files' in case else case['prog']['files'], 'procs': [p]}


def campaign(binary, pid, seed, nunits, cap, workers=None):
    workers = workers or int(os.environ.get('VERIF_WORKERS', 0)) or max(1, min(8, os.cpu_count() or 1))
    nextu = multiprocessing.Value('q', 0)
    best = multiprocessing.Value('q', 1 << 60)
    ps = []
    deadline = time.time() + cap
    for w in range(workers):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=worker, args=(binary, pid, seed, nunits, nextu, best, deadline, b, 3))
        p.start()
        b.close()
        ps.append((p, a))
    st = core.Stats()
    found, samples, problems, done, capped = [], [], [], 0, False
    for p, a in ps:
        try:
            s, f, sm, pr, d, c = pickle.loads(a.recv_bytes())
            st.merge(s)
            found += f
            samples += sm
            problems += pr
            done += d
            capped |= c
        except EOFError:
            problems.append('a worker died')
        p.join()
    found.sort(key=lambda x: (x[0], x[1]))
    samples.sort(key=lambda x: x[0])
    return st, found, [s[1] for s in samples], problems, done, capped


def fresh_judge(binary, pid, case):
    sim = engine.Sim(binary)
    try:
        return props.PROPS[pid].judge(core.Ctx(sim, core.Stats()), case)
    finally:
        sim.close()


# ---- known findings --------------------------------------------------------
def known_findings(pid):
    """[(case id, text)] of open findings: lines 'finding: property=<id> key=<text contained in the violation> <what fails>'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                out.append(line.split(' ', 2)[2].strip())
    return out


def describe(case):
    """A case in few words, for evidence samples."""
    d = {}
    if 'prog' in case:
        d['command'] = ' '.join(case['prog']['args'])
        m = [f for f in case['prog']['files'] if f.endswith('main.asm')] or sorted(case['prog']['files'])
        d['source'] = case['prog']['files'][m[0]][:600]
        d['files'] = {k: len(v) for k, v in case['prog']['files'].items()}
    if 'ops' in case:
        d['operations'] = json.dumps(case['ops'])[:600]
    if 'runs' in case:
        d['runs'] = [(' '.join(r['args']) if 'args' in r else 'memory mode: ' + r['content'][:200]) for r in case['runs']]
    pr = dict(case['proc'])
    pr.pop('hot', None)
    d['perturbation'] = pr
    return d


COMPONENTS = {
    'real': ['armips library and command-line front end from /repo, compiled unmodified (gcc -O1 -fsanitize=thread instrumentation, custom runtime)',
             'libstdc++ (streams, std::filesystem, containers, std::thread), libgcc unwinder', 'files: real files in a scratch directory on tmpfs below the interposed calls'],
    'simulated': ['thread scheduler (one thread released at a time at memory-access granularity)', 'outcome of every file system call', 'heap allocator', 'clock', 'process lifetime',
                  'embedding host object (memory mode)'],
    'stubbed': ['Tests/ and the executable\'s main() (the harness calls the same entry points)']}


def report(binary, pid, seed, hit, tier):
    i, k, case, msg = hit
    m1 = fresh_judge(binary, pid, case)
    m2 = fresh_judge(binary, pid, case)
    if not (m1 and m2):
        print('ERROR: violation of unit %d case %d did not reproduce (%s / %s / %s)' % (i, k, msg, m1, m2))
        return None
    sim = engine.Sim(binary)
    ctx = core.Ctx(sim, core.Stats())
    try:
        small, msg2, trace = minimise.minimise(props.PROPS[pid], ctx, case, m1, time.time() + (60 if tier == 'quick' else 180))
    finally:
        sim.close()
    chk = fresh_judge(binary, pid, small)
    if not chk:
        small, chk = case, m1
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, '%s-seed%d-unit%d.json' % (pid, seed, i))
    json.dump({'property': pid, 'seed': seed, 'unit': i, 'case_number': k, 'violation': chk, 'original_violation': msg, 'minimised': trace, 'case': small},
              open(path, 'w'), indent=1)
    print('violation: ' + chk)
    print('seed=%d unit=%d case=%d; minimised: %s' % (seed, i, k, trace))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    return chk


def run_check(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in CAP:
        tier = 'quick'
    prop = props.PROPS[pid]
    nunits = int(os.environ.get('VERIF_UNITS', 0)) or (prop.quick if tier == 'quick' else prop.thorough)
    binary, tmp = build(pid in ('C10', 'C16'))
    rc = 0
    violations = 0
    try:
        t1 = time.time()
        st, found, samples, problems, done, capped = campaign(binary, pid, seed, nunits, CAP[tier])
        t2 = time.time()
        if found:
            violations = 1
            rc = 1 if any(report(binary, pid, seed, hit, tier) for hit in found[:4]) else 2
        elif any('worker died' in p or 'Traceback' in p for p in problems) or len(problems) > max(3, done // 20):
            rc = 2
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    for p in problems[:5]:
        print('note: ' + p)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    hours = max(1e-9, (t2 - t1) / 3600)
    cov = {
        'evaluations': st.evals, 'distinct_nontrivial': len(st.nontrivial), 'rule': prop.rule,
        'samples': [describe(s) for s in samples[:3]],
        'units': done, 'units_planned': nunits, 'stopped_by_wall_limit': capped,
        'simulated_processes': st.procs, 'simulated_runs': st.runs,
        'simulated_runs_per_hour': int(st.runs / hours), 'seeds_per_hour': int(done / hours),
        'simulated_steps': st.steps, 'simulated_time_s': round(st.simns / 1e9, 3),
        'system_calls': st.events, 'context_switches': st.switches,
        'distinct_interleavings': len(st.il), 'interleaving_measure': 'hash of the sequence of (thread, number of accesses between switches) of a process with several threads',
        'distinct_io_traces': len(st.ev), 'io_trace_measure': 'hash of the sequence of (thread, call, path, result) of a process',
        'schedules': dict(st.scheds), 'fault_plans_that_fired': dict(st.faults), 'faults_injected': dict(st.fired),
        'endings': dict(st.status), 'run_results': dict(st.ret),
        'workload_features': dict(st.tags.most_common(80)),
        'determinism': {'scenarios_executed_twice': st.twice, 'differing': st.twice_bad},
        'components': COMPONENTS, 'notes': problems[:10]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': violations,
          'assumptions': ['the gcc instrumentation and the libc interposition cover every shared access and every system call of the armips code',
                          'seeded search: holds for the runs executed, not a proof', 'x86-64 Linux, libstdc++; sequentially consistent memory']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, sort_keys=True)
    print('%s %s seed=%d: %d units, %d cases (%d distinct non-trivial), %d simulated runs, %d interleavings, %d faults, %.0f s -> exit %d' % (
        pid, tier, seed, done, st.evals, len(st.nontrivial), st.runs, len(st.il), sum(st.fired.values()), time.time() - t0, rc))
    return rc


def replay(path):
    d = json.load(open(path))
    binary, tmp = build(d['property'] in ('C10', 'C16'))
    try:
        msg = fresh_judge(binary, d['property'], d['case'])
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    if msg:
        print('violation: ' + msg)
        print('identical to the recorded one: %s' % (msg == d['violation']))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('the violation does not occur on this tree')
    return 0


def determinism(n):
    binary, tmp = build(True)
    bad = 0
    try:
        for pid in sorted(props.PROPS):
            res = []
            for w in (1, 3, 8):
                st, found, samples, problems, done, capped = campaign(binary, pid, 7, n, 3000, workers=w)
                res.append((st.evals, st.steps, st.events, st.switches, sorted(st.ev), sorted(st.il), sorted(st.nontrivial), dict(st.fired)) if not found else found[0][:2])
            # the number of executed runs differs with the worker layout only through memoised reference runs
            key = [(r[0], r[4], r[5], r[6]) if len(r) > 2 else r for r in res]
            ok = all(k == key[0] for k in key)
            bad += not ok
            print(pid, 'same' if ok else 'DIFFERENT', [r[:4] for r in res])
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == 'replay':
        sys.exit(replay(a[1]))
    if a and a[0] == 'determinism':
        sys.exit(determinism(int(a[1]) if len(a) > 1 else 16))
    if a == ['setup']:
        b, tmp = build()
        print('built ' + b)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(0)
    if len(a) == 1 and a[0] in props.PROPS:
        sys.exit(run_check(a[0]))
    print(__doc__)
    sys.exit(2)
