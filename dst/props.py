"""The property checks.

Each property is a class with
  unit(rng, ctx)     generator of cases: one workload and its perturbations
  judge(ctx, case)   runs the case in the simulator and returns None or 'kind: what is wrong'
A case is a JSON dict {'prop','prog','proc',...}; judging it again gives the same answer.
"""
import hashlib, json, os, re, random, struct
from .core import *
from . import gen, insn, model, text
from .gen import Gen, add_error, add_markers, top_spots
from .probes import probe, mem_probe

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'corpus.json')))


def corpus_prog(rng, temp=0.7, sym=0.7, pre=''):
    c = rng.choice(CORPUS)
    args = [c['args'][0]]
    outs = list(c['outputs'])
    if rng.random() < temp:
        args += ['-temp', pre + 'temp.txt']
        outs.append(pre + 'temp.txt')
    if rng.random() < sym:
        args += [rng.choice(['-sym', '-sym2']), pre + 'syms.sym']
        outs.append(pre + 'syms.sym')
    if rng.random() < 0.3:
        args += ['-stat']
    return {'files': dict(c['files']), 'args': args + c['args'][1:], 'outputs': outs, 'inputs': list(c['inputs']), 'raw': True,
            'tags': ['corpus', 'corpus:' + c['name']]}


def any_prog(rng, corpus=0.2, **kw):
    if rng.random() < corpus:
        p = corpus_prog(rng)
    else:
        p = Gen(rng, size=rng.choice([0.4, 0.7, 1.0]), **kw).program()
    if rng.random() < 0.12:
        p['silent'] = True
    return p


def run_of(prog):
    return {'args': prog['args'], 'silent': True} if prog.get('silent') else {'args': prog['args']}


def scen(prog, proc=None, files=None):
    p = {'runs': [run_of(prog)]}
    if proc:
        p.update(proc)
    return {'files': prog['files'] if files is None else files, 'procs': [p]}


def norm_tree(files):
    """The tree the simulator reports for these files: directories appear as 'name/'."""
    t = dict(files)
    for f in files:
        i = f.find('/')
        while i >= 0:
            t[f[:i + 1]] = ''
            i = f.find('/', i + 1)
    return t


class Prop:
    id = None
    quick = 100        # work units in the quick tier
    thorough = 40000
    level = 'exploration'
    technique = 'deterministic simulation with fault injection'
    rule = ''

    def unit(self, rng, ctx):
        raise NotImplementedError

    def judge(self, ctx, case):
        raise NotImplementedError

    def mark(self, ctx, *key):
        ctx.st.nontrivial.add(hashlib.sha1(repr(key).encode()).digest()[:12])

    # -- helpers
    def base(self, ctx, prog, proc=None, **kw):
        return ctx.ref(scen(prog, proc, **kw))[0]

    def case(self, prog, proc=None, **kw):
        c = {'prop': self.id, 'prog': prog, 'proc': proc or {}}
        c.update(kw)
        return c


def abnormal(p, what=''):
    if p.bad:
        return 'abnormal end: %s%s' % (what, p.bad)
    return None


class C01(Prop):
    id = 'C01'
    quick = 2000
    rule = ('one case = one generated or corpus program (with path-keyed output faults in a third of them) under one seeded schedule '
            '(sequential orders, uniform random, PCT, hot-access directed), compared with the same program under the sequential order; '
            'non-trivial = at least one preemption or reordering took place, distinct by (program, interleaving hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, want_temp=0.92, want_sym=0.92)
        if rng.random() < 0.12:
            prog = add_error(rng, prog)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        hot = b.hot
        faultsets = [[]]
        if rng.random() < 0.5 and b.status == 'DONE':
            occ = [(e, n) for e, n in occurrences(b.events) if e.path in prog['outputs'] and e.op in ('open_w', 'open_u', 'write', 'close', 'copy')]
            for _ in range(2):
                if occ:
                    faultsets.append([fault_for(rng, *rng.choice(occ)) for _ in range(rng.choice([1, 1, 2, 3]))])
        # faults on inputs read while encoding (binary imports) are path keyed as well
        if rng.random() < 0.2 and b.status == 'DONE':
            occ = [(e, n) for e, n in occurrences(b.events) if e.path in prog['inputs'] and e.op in ('open_r', 'read')]
            if occ:
                faultsets.append([fault_for(rng, *occ[-1 - rng.randrange(min(4, len(occ)))])])
        for fs in faultsets:
            if fs:
                hot = self.base(ctx, prog, {'faults': fs, 'profile': True}).hot
            for _ in range(7 if not fs else 4):
                proc = {'faults': fs}
                yield self.case(prog, sched_for(rng, proc, b, hot))
            # places where threads use the same memory are where orders matter
            for _ in range(30 if hot else 0):
                pcs = hot if rng.random() < 0.6 else [rng.choice(hot)]
                yield self.case(prog, {'faults': fs, 'hot': pcs, 'sched': ['hots', rng.randrange(1 << 48), rng.choice([50, 200, 400, 700]), rng.choice([0, 0, 300]), rng.choice([20000, 1 << 40])]})

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        fs = proc.get('faults', [])
        r = self.base(ctx, prog, {'faults': fs, 'profile': True} if fs else {'profile': True})
        v = ctx.run(scen(prog, proc))[0]
        if r.bad:
            return None if r.bad == v.bad else 'abnormal end: %s' % v.bad if v.bad else 'abnormal end: in sequential order: ' + r.bad
        if v.bad:
            return 'abnormal end: ' + v.bad
        if v.nswitch > 3 or v.ilhash != r.ilhash:
            self.mark(ctx, prog['files'], prog['args'], v.ilhash)
        d = same_run(r.runs[0], v.runs[0], r.tree, v.tree, ordered=False)
        return ('interleaving changes the outcome: ' + d) if d else None


class C02(Prop):
    id = 'C02'
    quick = 1200
    level = 'exploration'
    rule = ('one case = one program with faults injected into open/write/close/copy/seek calls on its outputs (single, repeated, permanent), or a '
            'disk-space budget, under a random schedule; non-trivial = a fault fired, distinct by (program, event-trace hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, want_temp=0.8, want_sym=0.8, bigdata=0.2)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE' or b.runs[0]['ret'] != 0:
            return
        outs = [(e, n) for e, n in occurrences(b.events) if e.path in prog['outputs'] and e.op in ('open_w', 'open_u', 'write', 'close', 'copy', 'seek', 'trunc', 'stat', 'unlink', 'rename')]
        last_close, last_write = {}, {}
        for e, n in outs:
            if e.op == 'close':
                last_close[e.path] = n
            if e.op == 'write':
                last_write[e.path] = (e, n)
        if not outs:
            return
        for k in range(12):
            proc = {}
            must = False
            m = rng.random()
            if m < 0.15:
                written = sum(e.ret for e in b.events if e.op in ('write', 'copy') and e.ret > 0)
                proc['disk'] = rng.randrange(0, max(1, written))
            elif m < 0.35 and last_close:
                path = rng.choice(sorted(last_close))
                proc['faults'] = [['close', path, rng.choice([1, last_close[path]]), BIG, 'err', rng.choice(CLOSE_ERR), 0]]
                must = True
            elif m < 0.5 and last_write:
                # what is written when a file is closed
                proc['faults'] = [fault_for(rng, *last_write[rng.choice(sorted(last_write))])]
            else:
                w = [x for x in outs if x[0].op == 'write'] if rng.random() < 0.5 else outs
                proc['faults'] = [fault_for(rng, *rng.choice(w or outs)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.5:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc, must=must)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'profile': True})
        if r.bad or r.runs[0]['ret'] != 0:
            return None
        v = ctx.run(scen(prog, proc))[0]
        if v.status != 'DONE':
            return None     # abnormal endings are C04's business; nothing was reported as success
        fired = bool(v.fired)
        if fired:
            self.mark(ctx, prog['files'], v.evhash)
        if v.runs[0]['ret'] != 0:
            return None
        d = tree_diff(r.tree, v.tree, prog['outputs'])
        if d:
            return 'success reported but an output is wrong: ' + d
        if case.get('must') and fired:
            return 'success reported although closing an output failed permanently (%s)' % proc['faults'][0][1]
        return None


class C03(Prop):
    id = 'C03'
    quick = 2000
    rule = ('one case = one program with read errors or early end-of-file on one or more of its inputs (sources, includes, binaries, tables, objects, ELFs, '
            'copy sources); non-trivial = a fault fired, distinct by (program, event-trace hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, bigdata=0.15)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE' or b.runs[0]['ret'] != 0:
            return
        rd = [(e, n) for e, n in occurrences(b.events) if (e.op == 'read') or e.op == 'copy']
        if not rd:
            return
        for k in range(12):
            # spread over distinct paths first, so that rarely read inputs are hit as often as sources
            path = rng.choice(sorted(set(e.path for e, n in rd)))
            mine = [x for x in rd if x[0].path == path]
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                e, n = rng.choice(mine)
                fs += cut_for(rng, e, n) if e.ret > 1 and rng.random() < 0.5 else [fault_for(rng, e, n)]
            proc = {'faults': fs, 'budget': max(4000000, 12 * b.steps)}
            if rng.random() < 0.3:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'profile': True})
        if r.bad or r.runs[0]['ret'] != 0:
            return None
        v = ctx.run(scen(prog, proc))[0]
        if v.fired:
            self.mark(ctx, prog['files'], v.evhash)
        if v.status != 'DONE' or v.runs[0]['ret'] != 0:
            return None
        d = tree_diff(r.tree, v.tree, prog['outputs'])
        return ('partial input, success reported, wrong output: ' + d) if d else None


class C04(Prop):
    id = 'C04'
    quick = 1600
    rule = ('one case = one program with one to four failing calls of any kind (stat, open, read, write, seek, close, copy, unlink, getcwd, ...), once or forever, '
            'on any path, under a random schedule; the run must end within the step budget (12 times the fault-free run, at least 4M steps) and return; '
            'non-trivial = a fault fired, distinct by (program, event-trace hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, bigdata=0.1)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE':
            yield self.case(prog, {})
            return
        occ = occurrences(b.events)
        if not occ:
            return
        ops = sorted(set(e.op for e, n in occ))
        for k in range(12):
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                if rng.random() < 0.6:
                    op = rng.choice(ops)
                    e, n = rng.choice([x for x in occ if x[0].op == op])
                else:
                    e, n = rng.choice(occ)
                f = fault_for(rng, e, n)
                if rng.random() < 0.12:
                    f = [f[0], '*', 1 + sum(1 for x, _ in occ if x.op == f[0] and rng.random() < 0.5)] + f[3:]
                fs.append(f)
            proc = {'faults': fs, 'budget': max(4000000, 12 * b.steps)}
            if rng.random() < 0.15:
                written = sum(e.ret for e in b.events if e.op in ('write', 'copy') and e.ret > 0)
                proc['disk'] = rng.randrange(0, max(1, written))
            if rng.random() < 0.4:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'profile': True})
        v = ctx.run(scen(prog, proc))[0]
        if v.bad:
            return 'abnormal end: ' + v.bad
        if v.fired:
            self.mark(ctx, prog['files'], v.evhash)
        run = v.runs[0]
        if run['ret'] != 0:
            # diagnostics of the argument parser go to the console only
            if not prog.get('silent') and not has_error(run, prog['args']) and not any(is_error(l) for l in run['out'].split('\n')):
                return 'failure without an error diagnostic: %s' % clip(run['out'])
            return None
        if r.bad or r.runs[0]['ret'] != 0:
            return None
        d = tree_diff(r.tree, v.tree, prog['outputs'])
        return ('a failing call changed the outcome but success was reported: ' + d) if d else None


class C05(Prop):
    id = 'C05'
    quick = 2500
    rule = ('one case = one program with an error (or a warning treated as one) run to completion or killed at a seeded point (before, during or after a system call); '
            'non-trivial = the program names at least one output and was rejected or killed, distinct by (program, kill point)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, corpus=0.12)
        prog = add_error(rng, prog)
        for k in range(1):
            if rng.random() < 0.3:
                prog = add_error(rng, prog)
        # no output path may be impossible for a reason outside the program
        b = self.base(ctx, prog)
        ctx.st.tags.update(prog['tags'])
        yield self.case(prog, {})
        if b.status != 'DONE' or b.runs[0]['ret'] == 0:
            return
        n = b.nevents
        for k in range(8):
            ev = rng.randrange(1, n + 1) if n else 1
            yield self.case(prog, {'kill': [ev, rng.choice([-1, -2, -2])]})
        if rng.random() < 0.5:
            proc = {}
            proc['sched'] = random_sched(rng, b)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog)
        if r.status != 'DONE' or r.runs[0]['ret'] == 0:
            return None      # accepted, or ended abnormally (C04)
        v = ctx.run(scen(prog, proc))[0]
        if 'sched' in proc and v.status == 'DONE' and v.runs[0]['ret'] == 0:
            return None
        if v.status not in ('DONE', 'KILLED'):
            return None
        self.mark(ctx, prog['files'], prog['args'], sorted(proc.get('kill', [])), v.status)
        before = norm_tree(prog['files'])
        if v.status == 'KILLED':
            names = sorted(before)
            d = tree_diff(before, v.tree, names)
            return ('killed while rejecting the program: ' + d) if d else None
        d = tree_diff(before, v.tree)
        return ('rejected program changed the file system: ' + d) if d else None


class C06(Prop):
    id = 'C06'
    quick = 2000
    rule = ('one case = one program (accepted or rejected) run with random faults on any call, a disk budget, or a kill point, under a random schedule; '
            'non-trivial = a fault or kill fired or the run succeeded, distinct by (program, event-trace hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, bigdata=0.1)
        if rng.random() < 0.2:
            prog = add_error(rng, prog)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        yield self.case(prog, {})
        if b.status != 'DONE':
            return
        occ = occurrences(b.events)
        if not occ:
            return
        for k in range(10):
            proc = {'budget': max(4000000, 12 * b.steps)}
            if rng.random() < 0.55:
                proc['kill'] = [rng.randrange(1, b.nevents + 1), rng.choice([-1, -2, rng.randrange(64)])]
            if rng.random() < 0.6:
                proc['faults'] = [fault_for(rng, *rng.choice(occ)) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.1:
                written = sum(e.ret for e in b.events if e.op in ('write', 'copy') and e.ret > 0)
                proc['disk'] = rng.randrange(0, max(1, written))
            if rng.random() < 0.4:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        v = ctx.run(scen(prog, proc))[0]
        if v.fired or v.status == 'KILLED' or (v.runs and v.runs[0]['ret'] == 0):
            self.mark(ctx, prog['files'], v.evhash, v.status)
        if v.escapes:
            return 'escape: the run tried to modify a path outside its directory'
        outs = set(prog['outputs'])
        before = norm_tree(prog['files'])
        names = sorted((set(before) | set(v.tree)) - outs)
        d = tree_diff(before, v.tree, names)
        if d:
            return 'a file that is not an output was touched: ' + d
        # names the run used in passing: what if the user has a file of that name?
        ghosts = sorted({e.path for e in v.events if e.path not in outs and e.path not in before and e.path not in ('.', '') and not e.path.startswith('/')
                         and not any(x.startswith(e.path + '/') for x in list(before) + prog['outputs'])})
        if ghosts and len(v.events) < 20000:
            before = norm_tree(dict(prog['files'], **{g: 'a file of the user\n' for g in ghosts}))
            w = ctx.run(scen(dict(prog, files=before), proc))[0]
            names = sorted((set(before) | set(w.tree)) - outs)
            d = tree_diff(before, w.tree, names)
            if d:
                return 'a file that is not an output was touched: ' + d
        return None


class C07(Prop):
    id = 'C07'
    quick = 1000
    level = 'exploration'
    rule = ('one case = one program over raw files whose first process is killed at a seeded system call (before, after, or part-way through a write) under a random schedule, '
            'then run again by a second process; compared with a single uninterrupted run; non-trivial = the first process was killed, distinct by (program, kill point, interleaving)')

    def unit(self, rng, ctx):
        for _ in range(6):
            prog = any_prog(rng, corpus=0.15, raw=True, bigdata=0.1)
            if prog['raw'] and 'corpus:Core/OpenCopySame' not in prog['tags']:
                break
        if rng.random() < 0.15:
            prog = add_error(rng, prog)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE' or not b.nevents:
            return
        ev = [i + 1 for i, e in enumerate(x for x in b.events if x.op != RUN_END) if e.op in ('write', 'copy', 'open_w', 'close', 'unlink')]
        for k in range(8):
            at = rng.choice(ev) if ev and rng.random() < 0.6 else rng.randrange(1, b.nevents + 1)
            proc = {'kill': [at, rng.choice([-1, -2, rng.randrange(200)])]}
            if rng.random() < 0.4:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'profile': True})
        if r.status != 'DONE':
            return None
        sc = scen(prog, proc)
        sc['procs'].append({'runs': [run_of(prog)]})
        v, w = ctx.run(sc)
        if v.status != 'KILLED':
            return None
        self.mark(ctx, prog['files'], proc['kill'], v.ilhash)
        if w.bad:
            return 'abnormal end of the second run: ' + w.bad
        d = same_run(r.runs[0], w.runs[0], r.tree, w.tree, files=r.runs[0]['ret'] == 0)
        return ('second run differs from an uninterrupted one: ' + d) if d else None


class C08(Prop):
    id = 'C08'
    quick = 1000
    rule = ('one case = one program whose reads, writes and copies are split into shorter ones and interrupted by EINTR at seeded places, under a random schedule; '
            'non-trivial = a call was shortened or interrupted, distinct by (program, event-trace hash)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, bigdata=0.3)
        if rng.random() < 0.1:
            prog = add_error(rng, prog)
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE':
            return
        occ = [(e, n) for e, n in occurrences(b.events) if e.op in ('read', 'write', 'copy')]
        if not occ:
            return
        for k in range(9):
            fs = []
            for _ in range(rng.choice([1, 2, 4])):
                e, n = rng.choice(occ)
                lim = rng.choice([1, 2, 3, 7, 100, 511, 4095, max(1, e.ret - 1)])
                path = rng.choice([e.path, e.path, '*'])
                if rng.random() < 0.35 and e.op != 'copy':
                    fs.append([e.op, e.path, n, rng.choice([1, 1, 2, 5]), 'err', 'EINTR', 0])
                else:
                    fs.append([e.op, path, n if path != '*' else 1, rng.choice([1, 3, BIG]), 'short', '', lim])
            if rng.random() < 0.25:
                fs = [[op, '*', 1, BIG, 'short', '', rng.choice([1, 2, 3, 5, 13, 1000])] for op in ('read', 'write', 'copy')]
            proc = {'faults': fs, 'budget': 20 * b.steps + 40000000}
            if rng.random() < 0.25:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'profile': True})
        if r.status != 'DONE':
            return None
        v = ctx.run(scen(prog, proc))[0]
        if v.bad:
            return 'abnormal end: ' + v.bad
        if v.fired:
            self.mark(ctx, prog['files'], v.evhash)
        d = same_run(r.runs[0], v.runs[0], r.tree, v.tree, ordered=False)
        return ('short or interrupted calls change the outcome: ' + d) if d else None


class C09(Prop):
    id = 'C09'
    quick = 1600
    rule = ('one case = a history of two to six runs in one simulated process (generated programs, corpus programs, small probe programs, command-line and memory mode, some with failing '
            'calls, repeated commands with changed input files in between), each fault-free run compared with the same run as the first of a fresh process started on the same files; '
            'non-trivial = at least one fault-free run had a predecessor, distinct by the sequence of programs and faults')

    def one(self, rng, i):
        p = 'p%d' % i
        k = rng.random()
        if k < 0.6:
            q = probe(rng, p)
        elif k < 0.72:
            q = corpus_prog(rng, pre=p)
        else:
            q = Gen(rng, pre=p, size=rng.choice([0.3, 0.6, 1.0])).program()
            if rng.random() < 0.25:
                q = add_error(rng, q)
        run = {'args': q['args']}
        if rng.random() < 0.12:
            g = Gen(rng, pre=p, mem=True, size=0.4, opts=False, want_temp=0, want_sym=0).program()
            if rng.random() < 0.3:
                g = add_error(rng, g)
            run = {'kind': 'mem', 'content': g['files'][p + 'main.asm'], 'header': 0x1000, 'stats': rng.random() < 0.4, 'eow': rng.random() < 0.2}
            if rng.random() < 0.3:
                run['temp'] = p + 't.txt'
            if rng.random() < 0.3:
                run['sym'] = p + 's.sym'
            if rng.random() < 0.2:
                run['hostfail'] = rng.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 1]])
            q = g
        if rng.random() < 0.1:
            run['silent'] = True
        return q['files'], run, q['tags'], p, q.get('outputs', [])

    def mutate(self, rng, name, data):
        """Another version of an input file, as an editor or a build step between two runs would leave it."""
        if not data:
            return data + 'x'
        if name.endswith(('.asm', '.inc', '.tbl')):
            at = [i for i, c in enumerate(data) if c.isdigit() and '"' not in data[data.rfind('\n', 0, i) + 1:(data + '\n').find('\n', i)]]
            if at and rng.random() < 0.8:
                out = list(data)
                for i in rng.sample(at, min(len(at), rng.choice([1, 1, 3]))):
                    out[i] = rng.choice('123456789')
                return ''.join(out)
            lines = data.split('\n')
            del lines[rng.randrange(len(lines))]
            return '\n'.join(lines)
        k = rng.random()
        if name.endswith('.o'):
            return data
        if name.endswith('.elf'):
            out = list(data)
            for off, size, va in elf_maps(data):
                for i in range(off, min(off + size, len(out))):
                    if i >= 0x80 and rng.random() < 0.5:
                        out[i] = chr(rng.randrange(256))
            return ''.join(out)
        if k < 0.6:
            out = list(data)
            for i in range(len(out)):
                if rng.random() < 0.5:
                    out[i] = chr(rng.randrange(256))
            return ''.join(out)
        if k < 0.8:
            return data[:rng.randrange(len(data))]
        return data + ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(1, 40)))

    def again(self, rng, ctx):
        """The same command several times in a row, its inputs changing (or unreadable for a while) in between."""
        g = Gen(rng, pre='p0', size=rng.choice([0.15, 0.3, 0.6]), opts=False, io=True)
        q = g.program()
        ctx.st.tags.update(q['tags'] + ['again'])
        files = q['files']
        mine = [n for n in files if n not in q['outputs'] and not n.endswith(('/.keep', '/'))]
        data = [n for n in mine if not n.endswith('.asm')]
        b = ctx.ref({'files': files, 'procs': [{'runs': [{'args': q['args']}]}]})[0]
        for k in range(3):
            runs = [{'args': q['args']} for _ in range(rng.choice([2, 2, 3]))]
            for r in runs[1:]:
                pool = data if data and rng.random() < 0.75 else mine
                r['edits'] = [[n, self.mutate(rng, n, files[n])] for n in rng.sample(pool, min(len(pool), rng.choice([1, 2, 9])))]
            proc = {'budget': 400000000}
            faulted = []
            if b.status == 'DONE' and rng.random() < 0.35:
                occ = occurrences(b.events)
                if occ:
                    # the plan must be used up within the first run: only a single failing call, of an operation it performs
                    f = fault_for(rng, *rng.choice(occ))
                    f[3] = 1
                    proc['faults'] = [f]
                    faulted = [0]
            yield {'prop': self.id, 'files': files, 'runs': runs, 'faulted': faulted, 'proc': proc}

    def chain(self, rng, ctx):
        """A long history of small programs, so that most ordered pairs of them occur in some history."""
        files, runs = {}, []
        for i in range(16):
            p = 'q%d' % i
            if rng.random() < 0.12:
                q = mem_probe(rng, p)
                run = {'kind': 'mem', 'content': q['content'], 'header': rng.choice([0, 0x1000]), 'stats': rng.random() < 0.3, 'eow': rng.random() < 0.15}
            else:
                q = probe(rng, p)
                run = {'args': q['args']}
                if rng.random() < 0.04:
                    run['silent'] = True
            files.update(q['files'])
            ctx.st.tags.update(q['tags'])
            runs.append(run)
        yield {'prop': self.id, 'files': files, 'runs': runs, 'faulted': [], 'proc': {'budget': 400000000}}

    def unit(self, rng, ctx):
        k = rng.random()
        if k < 0.3:
            yield from self.again(rng, ctx)
            return
        if k < 0.55:
            yield from self.chain(rng, ctx)
            return
        n = rng.choice([2, 2, 3, 4, 6])
        files, runs, pre, owner, outs = {}, [], [], [], set()
        for i in range(n):
            if runs and rng.random() < 0.3:
                j = rng.randrange(len(runs))
                r = dict(runs[j])
                mine = [n for n in files if n.startswith(owner[j]) and isinstance(files[n], str) and n not in outs]
                if mine and rng.random() < 0.7:
                    # the same command again, after some of its input files have changed
                    r['edits'] = [[n, self.mutate(rng, n, files[n])] for n in rng.sample(mine, min(len(mine), rng.choice([1, 1, 2, 9])))]
                runs.append(r)
                owner.append(owner[j])
                pre.append(None)
                pre[j] = None
                continue
            f, r, t, p, o = self.one(rng, i)
            files.update(f)
            runs.append(r)
            pre.append(p)
            owner.append(p)
            outs.update(o)
            ctx.st.tags.update(t)
        for k in range(3):
            proc = {'budget': 400000000}
            faulted = []
            rs = list(runs)
            if k:
                rng.shuffle(rs)
            if k and rng.random() < 0.5:
                cand = [i for i, r in enumerate(rs) if rs.count(r) == 1 and i < len(rs) - 1]
                if cand:
                    i = rng.choice(cand)
                    b = ctx.ref({'files': files, 'procs': [{'runs': [rs[i]]}]})[0]
                    if b.status == 'DONE':
                        mine = pre[runs.index(rs[i])]
                        occ = [x for x in occurrences(b.events) if mine and mine in x[0].path]
                        if occ:
                            proc['faults'] = [fault_for(rng, *rng.choice(occ)) for _ in range(rng.choice([1, 1, 2]))]
                            faulted = [i]
            if rng.random() < 0.3:
                proc['sched'] = ['rand', rng.randrange(1 << 48), rng.choice([20, 200])]
            yield {'prop': self.id, 'files': files, 'runs': rs, 'faulted': faulted, 'proc': proc}

    def judge(self, ctx, case):
        proc = dict(case['proc'])
        proc['runs'] = case['runs']
        v = ctx.run({'files': case['files'], 'procs': [proc]})[0]
        tree = case['files']
        compared = 0
        for i, run in enumerate(v.runs):
            before = dict(tree)
            before.update(case['runs'][i].get('edits', []))
            alone = {k: x for k, x in case['runs'][i].items() if k != 'edits'}
            tree = v.run_tree(i)
            if i in case['faulted']:
                continue
            f = ctx.run({'files': before, 'procs': [{'runs': [alone], 'budget': 400000000}]})[0]
            if f.status != 'DONE':
                if f.bad:
                    return None     # the program itself ends abnormally (C04)
                continue
            compared += 1
            d = same_run(f.runs[0], run, f.tree, tree, ordered=False)
            if d:
                return 'run %d of %d differs from the same run in a fresh process: %s' % (i + 1, len(case['runs']), d)
        if v.status != 'DONE' and not case['faulted']:
            i = len(v.runs)
            before = dict(v.run_tree(i - 1) if i else case['files'])
            before.update(case['runs'][i].get('edits', []))
            alone = {k: x for k, x in case['runs'][i].items() if k != 'edits'}
            f = ctx.run({'files': before, 'procs': [{'runs': [alone], 'budget': 400000000}]})[0]
            if f.status == 'DONE':
                return 'run %d of %d ends abnormally but not in a fresh process: %s' % (i + 1, len(case['runs']), v.bad)
        if compared > 1:
            self.mark(ctx, [(r.get('args') or r.get('content'), r.get('edits')) for r in case['runs']], case['files'], proc.get('faults'))
        return None


class C10(Prop):
    id = 'C10'
    quick = 1600
    rule = ('one case = one program run with another allocator layout (ascending, descending, scattered; reuse none, LIFO, FIFO; five fill patterns), other stack contents (junk below the stack; a second build of the same tree whose automatic variables start as a pattern instead of zero) and another clock; '
            'non-trivial = the layout differs from the reference, distinct by (program, heap configuration)')

    def unit(self, rng, ctx):
        prog = any_prog(rng, corpus=0.2)
        if rng.random() < 0.15:
            prog = add_error(rng, prog)
        ctx.st.tags.update(prog['tags'])
        for k in range(8):
            heap = [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(1 << 48)]
            proc = {'heap': heap, 'clock': rng.choice([0, 1, 86399 * 10**9, 1700000000 * 10**9, 4102444800 * 10**9, rng.randrange(1 << 61)])}
            yield self.case(prog, proc, alt=k % 2 == 1)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        r = self.base(ctx, prog, {'heap': [0, 1, 2, 1]})
        v = ctx.run(dict(scen(prog, proc), alt=case.get('alt', False)))[0]
        self.mark(ctx, prog['files'], prog['args'], proc.get('heap'), proc.get('clock'), case.get('alt'))
        if r.bad or v.bad:
            if bool(r.bad) != bool(v.bad):
                return 'abnormal end depends on memory layout: %s / %s' % (r.bad, v.bad)
            return None
        d = same_run(r.runs[0], v.runs[0], r.tree, v.tree)
        return ('memory layout or clock changes the outcome: ' + d) if d else None


class C11(Prop):
    id = 'C11'
    quick = 3000
    rule = ('one case = one operation history over several files (create/open/copy/close/org/orga/headersize/skip/fill/align/area/data/incbin/include/if, macros with labels and arguments, equs, expression functions, reads of input files), run in the '
            'simulator under a random schedule, heap layout and pattern of short or interrupted calls, and compared byte for byte with an independent reference model; '
            'non-trivial = the program was accepted and wrote something, distinct by (program, event-trace hash)')

    def regions(self, rng):
        """Several regions and data that is placed in them automatically, in one or two files."""
        arch = rng.choice(model.LITTLE + model.BIGE)
        src, files, outs = [arch], {}, []
        marks = iter(rng.sample(range(1 << 24, 1 << 32), 200))
        ample = rng.random() < 0.7
        for fi in range(rng.choice([1, 1, 1, 2])):
            hdr = rng.choice([0, 0x1000, 0x8000000, 0x80000000])
            name = 'o%d.bin' % fi
            orig = rng.randbytes(rng.choice([0, 100, 3000])).decode('latin-1') if rng.random() < 0.6 else None
            if orig is not None:
                files[name] = orig
            autos = []
            for i in range(rng.randrange(1, 9)):
                body = [['mark', next(marks)], ['org']]
                for _ in range(rng.randrange(0, 4)):
                    body.append(rng.choice([['shr', 'zz%d' % fi, hdr + 3, rng.randrange(0, 99), rng.randrange(1, 40), rng.randrange(256)], ['fill', rng.randrange(1, 40), rng.randrange(256)], ['str', 'auto%d' % i], ['ref', rng.randrange(64)], ['align', rng.choice([2, 4, 16])], ['d32', rng.randrange(1 << 32)]]))
                autos.append({'body': body, 'label': 'part%d_%d' % (fi, i), 'need': sum({'fill': x[1], 'shr': max(x[3:5] + [0]), 'str': 8, 'align': x[1]}.get(x[0], 4) if len(x) > 1 else 4 for x in body)})
            total = sum(a['need'] for a in autos)
            regs, lims, at = [], [], rng.choice([0, 4, 33])
            for i in range(rng.randrange(1, 5)):
                at += rng.choice([0, 1, 16, 100])
                own = rng.randbytes(rng.choice([0, 0, 1, 4, 9]))
                size = len(own) + (total if ample else rng.randrange(1, 2 + total)) + rng.choice([0, 1, 64, 200])
                regs.append({'at': at, 'size': size, 'own': own.decode('latin-1'), 'fill': rng.choice([None, rng.randrange(1, 256)]), 'label': 'free%d_%d' % (fi, i)})
                at += size
            plain = []
            for i in range(rng.randrange(0, 3)):
                at += rng.choice([0, 5, 50])
                d = rng.randbytes(rng.randrange(1, 9))
                plain.append({'at': at, 'own': d.decode('latin-1')})
                at += len(d)
            pieces = [('r', r) for r in regs] + [('a', a) for a in autos] + [('p', p) for p in plain]
            rng.shuffle(pieces)
            if rng.random() < 0.5:
                pieces.sort(key=lambda x: x[0] == 'a')
            o = [('.create "%s",0x%X' if orig is None else '.open "%s",0x%X') % (name, hdr)]
            dat = lambda s: ['.byte ' + ','.join(str(ord(c)) for c in s)] if s else []
            for k, x in pieces:
                if k == 'p':
                    o += ['.org 0x%X' % (hdr + x['at'])] + dat(x['own'])
                elif k == 'r':
                    f = '' if x['fill'] is None else ',%d' % x['fill']
                    if not x['own'] and rng.random() < 0.5:
                        o.append('.defineregion 0x%X,%d%s' % (hdr + x['at'], x['size'], f))
                        o.append('.definelabel %s,0x%X' % (x['label'], hdr + x['at']))
                    else:
                        o += ['.org 0x%X' % (hdr + x['at']), '.region %d%s' % (x['size'], f), x['label'] + ':'] + dat(x['own']) + ['.endregion']
                else:
                    if rng.random() < 0.15:
                        o.append('.org 0x%X' % (hdr + rng.randrange(at + 40)))
                    rg = ''
                    w = rng.random()
                    if w < 0.35:
                        r = rng.choice(regs)
                        x['min'] = r['at']
                        rg = ' ' + rng.choice(['0x%X' % (hdr + r['at']), r['label']])
                        if w < 0.25:
                            x['max'] = r['at'] + r['size']
                            rg += ',' + rng.choice(['0x%X' % (hdr + r['at'] + r['size']), '%s+%d' % (r['label'], r['size'])])
                    elif w < 0.45 and len(autos) > 1:
                        # not after another part, or not before it: this can move from pass to pass
                        b = rng.choice([b for b in autos if b is not x])
                        if rng.random() < 0.6:
                            x['notafter'] = b['label']
                            rg = ' 0x%X,%s' % (hdr, b['label'])
                        else:
                            x['notbefore'] = b['label']
                            rg = ' ' + b['label']
                        ample = False
                    elif w < 0.55:
                        r = rng.choice(regs)
                        x['max'] = r['at'] + rng.randrange(r['size'])
                        rg = ' 0x%X,lim%d_%d' % (hdr, fi, len(lims))
                        lims += ['.orga %d + ((zz%d != 0x%X) ? %d : %d)' % (x['max'], fi, hdr + 3, rng.choice([64, 200, 1000]), 0), 'lim%d_%d:' % (fi, len(lims))]
                        ample = False
                    o += ['.autoregion' + rg, x['label'] + ':']
                    for b in x['body']:
                        if b[0] == 'ref':
                            b[1] = autos[b[1] % len(autos)]['label']
                        o.append({'mark': '.d32 %s', 'org': '.d32 org()', 'fill': '.fill %s,%s', 'shr': '.fill (%s != 0x%X) ? %s : %s,%s', 'str': '.ascii "%s"', 'ref': '.d32 %s', 'align': '.align %s,0', 'd32': '.d32 %s'}[b[0]] % tuple(b[1:]))
                    o.append('.endautoregion')
            src += o + lims + ['.org 0x%X' % (hdr + 3), 'zz%d:' % fi, '.close']
            outs.append({'name': name, 'hdr': hdr, 'autos': autos, 'regs': regs, 'plain': plain})
        files['main.asm'] = '\n'.join(src) + '\n'
        return files, {'big': arch in model.BIGE, 'ample': ample, 'outs': outs}

    def placed(self, case, run, tree):
        """Where the parts went must be a place they may go to, and everything else must be as written."""
        spec, files = case['regions'], case['files']
        if run['ret'] != 0:
            e = clip([e for e in run['errors'] if is_error(e)][:1] or run['out'])
            return 'a program with room for every part is rejected: ' + e if spec['ample'] else None
        order = 'big' if spec['big'] else 'little'
        areas = []      # (address, used, size) of every region
        for f in spec['outs']:
            got = tree.get(f['name'])
            if got is None:
                return 'file %s is missing' % f['name']
            got = got.encode('latin-1')
            want = bytearray(files.get(f['name'], '').encode('latin-1'))

            def put(at, d):
                if len(want) < at:
                    want.extend(b'\0' * (at - len(want)))
                want[at:at + len(d)] = d
            for x in f['plain'] + f['regs']:
                if x['own']:
                    put(x['at'], x['own'].encode('latin-1'))
                if x.get('fill') is not None:
                    n = len(x['own'])
                    put(x['at'] + n, bytes([x['fill']]) * (x['size'] - n))
            where = {}
            for a in f['autos']:
                m = a['body'][0][1].to_bytes(4, order)
                at = got.find(m)
                if at < 0 or got.find(m, at + 1) >= 0:
                    return 'file %s: part %s is there %d times' % (f['name'], a['label'], got.count(m))
                where[a['label']] = at
            spans = []
            for a in f['autos']:
                at = where[a['label']]
                d = b''
                for b in a['body']:
                    if b[0] == 'fill':
                        d += bytes([b[2]]) * b[1]
                    elif b[0] == 'shr':
                        d += bytes([b[5]]) * b[4]
                    elif b[0] == 'str':
                        d += b[1].encode()
                    elif b[0] == 'align':
                        d += bytes(-(f['hdr'] + at + len(d)) % b[1])
                    else:
                        d += ({'org': at + len(d), 'ref': where.get(b[1]) if b[0] == 'ref' else 0}.get(b[0], 0) + f['hdr'] if b[0] in ('org', 'ref') else b[1]).to_bytes(4, order)
                for r in f['regs']:
                    if r['at'] + len(r['own']) <= at and at + len(d) <= r['at'] + r['size']:
                        break
                else:
                    return 'file %s: part %s of size %d is at %d, not in the free part of any region' % (f['name'], a['label'], len(d), at)
                if not a.get('min', 0) <= at <= a.get('max', at):
                    return 'file %s: part %s is at %d, outside of its range %s to %s' % (f['name'], a['label'], at, a.get('min'), a.get('max'))
                if where.get(a.get('notafter'), at) < at or where.get(a.get('notbefore'), at) > at:
                    return 'file %s: part %s is at %d, but its range is given by %s' % (f['name'], a['label'], at, {k: where[a[k]] for k in ('notafter', 'notbefore') if k in a})
                for s, e, l in spans:
                    if at < e and s < at + len(d):
                        return 'file %s: parts %s and %s overlap at %d' % (f['name'], a['label'], l, at)
                spans.append((at, at + len(d), a['label']))
                put(at, d)
            d = tree_diff({f['name']: bytes(want).decode('latin-1')}, tree, [f['name']])
            if d:
                return 'file contents around regions: ' + d
            for r in f['regs']:
                used = [e - r['at'] for s, e, l in spans if r['at'] <= s < r['at'] + r['size']]
                areas.append((f['hdr'] + r['at'], max([len(r['own'])] + used), r['size']))
        if '-stat' in case['extra'] and areas:
            out = '\n'.join(run['out']) if isinstance(run['out'], list) else run['out']
            used, size = sum(a[1] for a in areas), sum(a[2] for a in areas)
            free = max(a[2] - a[1] for a in areas)
            big = max(a[2] for a in areas)
            for head, ok in (('Total areas and regions', ['%d / %d' % (used, size)]), ('Total regions', ['%d / %d' % (used, size)]),
                             ('Largest area or region', ['0x%08X, %d / %d' % a for a in areas if a[2] == big]),
                             ('Most free area or region', ['0x%08X, %d / %d (free at 0x%08X)' % (a + (a[0] + a[1],)) for a in areas if a[2] - a[1] == free]),
                             ('Most free region', ['0x%08X, %d / %d (free at 0x%08X)' % (a + (a[0] + a[1],)) for a in areas if a[2] - a[1] == free])):
                got = re.findall('^' + head + ': (.*)$', out, re.M)
                if free and not (len(got) == 1 and got[0] in ok):
                    return 'area statistics: %s is %s, not %s' % (head, ' and '.join(got), ' or '.join(ok[:3]))
        return None

    def chain(self, rng):
        """Sizes that follow from other sizes, over many steps and in any order of the source."""
        n = rng.choice([2, 5, 12, 25, 40])
        base = rng.choice([0, 0x100, 0x8000000])
        order = list(range(n))              # cell k takes its size from cell k+1
        w = rng.random()
        if w < 0.4:
            rng.shuffle(order)
        elif w < 0.5:
            order.reverse()
        size = [0] * n
        size[-1] = rng.randrange(1, 9)
        plus = [rng.choice([0, 0, 0, 1, 2]) for _ in range(n)]
        for k in range(n - 2, -1, -1):
            size[k] = size[k + 1] + plus[k]
        o, at, pos, img = [rng.choice(['.psx', '.gba', '.3ds', '.saturn']), '.create "chain.bin",0x%X' % base], 0, {}, b''
        words = []
        for k in order:
            e = '%d' % size[k] if k == n - 1 else 'e%d-s%d' % (k + 1, k + 1) + ('+%d' % plus[k] if plus[k] else '')
            if rng.random() < 0.2:
                o.append('.definelabel d%d,%s' % (k, e))
                e = 'd%d' % k
            v = rng.randrange(256)
            how = rng.choice(['.fill %s,%d', '.fill %s,%d', '.skip %s'])
            o += ['s%d:' % k, how % ((e,) if how[1] == 's' else (e, v)), 'e%d:' % k]
            pos[k] = base + len(img)
            img += bytes([0 if how[1] == 's' else v]) * size[k]
            if rng.random() < 0.2:
                words.append((len(img), rng.randrange(n)))
                o.append('.d32 s%d' % words[-1][1])
                img += b'\0' * 4
        for a, k in words:
            img = img[:a] + struct.pack('>I' if o[0] == '.saturn' else '<I', pos[k]) + img[a + 4:]
        o += ['.byte 0x55', '.close']
        return {'main.asm': '\n'.join(o) + '\n'}, {'want': {'chain.bin': (img + b'\x55').decode('latin-1')}}

    def unit(self, rng, ctx):
        if rng.random() < 0.2:
            files, spec = self.regions(rng) if rng.random() < 0.85 else self.chain(rng)
            for k in range(2):
                proc = {'heap': [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(1 << 48)], 'budget': 200000000}
                if k:
                    proc['faults'] = [[op, '*', 1, BIG, 'short', '', rng.choice([1, 2, 3, 7, 100, 1000])] for op in ('read', 'write', 'copy') if rng.random() < 0.7]
                yield {'prop': self.id, 'files': files, 'regions': spec, 'extra': rng.choice([[], ['-stat'], ['-stat', '-temp', 'temp.txt'], ['-sym', 'syms.sym']]), 'proc': proc}
            return
        files, ops = model.make(rng, big=rng.random() < 0.12)
        extra = []
        if rng.random() < 0.4:
            extra += ['-temp', 'temp.txt']
        if rng.random() < 0.4:
            extra += ['-sym', 'syms.sym']
        for k in range(5):
            proc = {'heap': [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(1 << 48)]}
            if k:
                if rng.random() < 0.6:
                    proc['faults'] = [[op, '*', 1, BIG, 'short', '', rng.choice([1, 2, 3, 7, 100, 1000])] for op in ('read', 'write', 'copy') if rng.random() < 0.7]
                if extra and rng.random() < 0.7:
                    proc['sched'] = rng.choice([['rand', rng.randrange(1 << 48), rng.choice([5, 50, 500])], ['seq'] + rng.choice(ORDERS)])
            proc['budget'] = 200000000
            yield {'prop': self.id, 'files': files, 'ops': ops, 'extra': extra, 'proc': proc}

    def prog(self, case):
        files = dict(case['files'])
        if 'regions' in case:
            return {'files': files, 'args': ['armips'] + case['extra'] + ['main.asm']}
        src = model.render(case['ops'], files)
        files['main.asm'] = '\n'.join(src) + '\n'
        return {'files': files, 'args': ['armips'] + case['extra'] + ['main.asm']}

    def judge(self, ctx, case):
        prog = self.prog(case)
        v = ctx.run(scen(prog, case['proc']))[0]
        if v.status != 'DONE':
            return 'abnormal end: %s' % v.bad if v.bad else None
        run = v.runs[0]
        if 'regions' in case:
            if run['ret'] == 0:
                self.mark(ctx, prog['files'], v.evhash)
            if 'want' in case['regions']:
                if run['ret'] != 0:
                    return 'a program of sizes that settle is rejected: %s' % clip([e for e in run['errors'] if is_error(e)][:1] or run['out'])
                d = tree_diff(case['regions']['want'], v.tree, sorted(case['regions']['want']))
                return ('sizes that follow from others: ' + d) if d else None
            return self.placed(case, run, v.tree)
        if run['ret'] != 0:
            return 'a program of the reference model is rejected: %s' % clip([e for e in run['errors'] if is_error(e)][:1] or run['out'])
        want, labels = model.execute(case['files'], case['ops'])
        self.mark(ctx, prog['files'], v.evhash)
        d = tree_diff(want, v.tree, sorted(want))
        return ('file contents differ from the reference model: ' + d) if d else None


def elf_maps(data):
    """[(file offset, size, address)] of the loaded segments of a 32-bit ELF."""
    b = data.encode('latin-1')
    if len(b) < 52 or b[:4] != b'\x7fELF':
        return []
    e = '>' if b[5] == 2 else '<'
    phoff, = struct.unpack_from(e + 'I', b, 28)
    n, = struct.unpack_from(e + 'H', b, 44)
    out = []
    for i in range(n):
        if phoff + 32 * i + 32 > len(b):
            break
        t, off, va, pa, fsz = struct.unpack_from(e + '5I', b, phoff + 32 * i)
        if t == 1:
            out.append((off, fsz, va))
    return out


UNITS = {'byte': 1, 'halfword': 2, 'word': 4, 'doubleword': 8}


DATA_KIND = {1: ('byt', 'asc'), 2: ('wrd',), 4: ('dbl',), 8: ('dbl',)}


def listing_data(text, tree, hdr):
    """Compare every data and fill line of a listing with the bytes at its address; (None or what differs, [(address, unit size, bytes)])."""
    maps, n, name, pool = [], [], None, None
    for line in text.split('\n'):
        m = re.match(r'^[0-9A-F]{8} \.(open|create|loadelf|close)\b(.*?)(?:; |$)', line)
        if m:
            names = re.findall(r'"([^"]*)"', m.group(2))
            name = names[-1][len('/W/'):] if names else None
            maps = []
            if name in tree:
                maps = [(0, len(tree[name]), hdr[name])] if name in hdr else elf_maps(tree[name])
            continue
        p = re.match(r'^([0-9A-F]{8}) \.word 0x([0-9A-F]{8})\s*; (.*)$', line)
        m = re.match(r'^([0-9A-F]{8}) \.(byte|halfword|word|doubleword) ([0-9A-Fa-fx, ]+),\s*; ', line)
        if not p:
            pool = None
        if p:
            # one value of a literal pool
            addr = int(p.group(1), 16)
            u = 4
            want = [int(p.group(2), 16).to_bytes(4, o).decode('latin-1') for o in ('little', 'big')]
        elif m:
            addr = int(m.group(1), 16)
            u = UNITS[m.group(2)]
            vals = [int(x.replace(' ', '')[2:], 16) for x in m.group(3).split(',')]
            want = [b''.join((x % (1 << 8 * u)).to_bytes(u, o) for x in vals).decode('latin-1') for o in ('little', 'big')]
        else:
            m = re.match(r'^([0-9A-F]{8}) \.fill 0x([0-9A-F]{8}),0x([0-9A-F]{2,})\s*; ', line)
            if not m:
                continue
            addr = int(m.group(1), 16)
            u = 1
            want = [chr(int(m.group(3), 16) & 0xFF) * int(m.group(2), 16)]
        if name is None:
            continue
        if pool and pool[2] == p.group(3) and pool[1] == addr:
            n[-1] = (pool[0], 4, addr + 4 - pool[0])
            pool = (pool[0], addr + 4, pool[2])
        else:
            n.append((addr, u, len(want[0])))
            pool = (addr, addr + 4, p.group(3)) if p else None
        got = []
        for off, size, va in maps:
            at = (addr - va) & 0xffffffff
            if 0 <= at and at + len(want[0]) <= size:
                got.append(tree[name][off + at:off + at + len(want[0])])
        if not any(g in want for g in got):
            return 'the listing has "%s" but %s' % (line[:70].strip(), 'the bytes there are %s' % got[0].encode('latin-1').hex()[:40] if got else 'nothing is there'), n
    return None, n


def regions_bad(text, tree, hdr, have):
    """The fill of a region, as the symbol file has it, must be what lies in the binary."""
    binary = set(int(x, 16) for x in re.findall(r'^([0-9A-F]{8}) \.incbin', text, re.M))
    name = None
    for line in text.split('\n'):
        m = re.match(r'^[0-9A-F]{8} \.(open|create|loadelf|close)\b(.*?)(?:; |$)', line)
        if m:
            names = re.findall(r'"([^"]*)"', m.group(2))
            name = names[-1][len('/W/'):] if names else None
            continue
        m = re.match(r'^([0-9A-F]{8}) \.region 0x([0-9A-F]{8}),0x([0-9a-f]+)\s', line)
        if not m or name not in tree or name not in hdr:
            continue
        pos, size, fill = int(m.group(1), 16), int(m.group(2), 16), chr(int(m.group(3), 16) & 255)
        end = pos + size
        at = (pos - hdr[name]) & 0xffffffff
        for a, k, n in have:
            if k == 'byt' and a + n == end and a >= pos and n and a not in binary:
                got = tree[name][at + a - pos:at + size]
                if got != fill * n:
                    return 'the symbol file has %d bytes of fill at %08X, where other bytes lie' % (n, a)
    return None


def spans_bad(text, sym, spans):
    """Labels before and after one directive: its line and its entry must start at the first, the entry must end at the second."""
    addr, nxt, entries = {}, {}, set()
    last = None
    for line in text.split('\n'):
        m = re.match(r'^([0-9A-F]{8,}) (\S+?)(:?)(?:,[0-9A-F]+)?(?:\s|$)', line)
        if not m:
            continue
        a = int(m.group(1), 16) & 0xffffffff
        if last:
            nxt[last] = (a, m.group(2))
        last = None
        if sym and m.group(2)[0] == '.':
            if ':' in m.group(2):
                entries.add((a, int(m.group(2).split(':')[1], 16)))
        elif sym or m.group(3):
            last = m.group(2).lower()
            addr[last] = a
    for s, e, kind in spans:
        if s not in addr or e not in addr:
            continue
        size = (addr[e] - addr[s]) & 0xffffffff
        if sym and size and kind in SPAN_ENTRY and (addr[s], size) not in entries:
            return '%d bytes of %s from %08X on are no entry of the symbol file' % (size, kind, addr[s])
        if not sym and s in nxt and nxt[s][0] != addr[s]:
            return 'the listing has %s at %08X but the %s there at %08X' % (s, addr[s], nxt[s][1], nxt[s][0])
    return None


SPAN_ENTRY = ('.incbin', '.import', '.fill', '.ascii', '.asciiz', '.byte', '.halfword', '.word', '.dword', '.d64', '.doubleword', '.float', '.double', '.sjis', '.sjisn',
              '.string', '.stringn', '.str', '.d16')


class C12(Prop):
    id = 'C12'
    shrink_lines = False
    quick = 2000
    rule = ('one case = one program in which every label is followed by a unique marker word, run under a random schedule and, in most cases, with another process replacing, '
            'growing, shrinking or deleting imported binary files before a seeded system call; on success every label in the symbol file and listing must be at the address where '
            'its marker lies in the binary; non-trivial = the run succeeded with at least one marked label in symbol file or listing, distinct by (program, event-trace hash)')

    def targets(self, rng, ctx):
        """Instructions that refer to addresses all over the place, some of them just within or just out of reach."""
        arch = rng.choice(list(insn.KIND))
        kind = insn.KIND[arch]
        if kind in ('arm', 'arm5') and rng.random() < 0.5:
            kind = kind.replace('arm', 'thumb')
        base = rng.choice([0x1000, 0x8000, 0x10FF0, 0x8000000, 0x6004000, 0x10000000, 0x7FFFF00] + ([0x80010000, 0x80007FF0, 0xA0000000, 0x8FFFFFF0] if kind in ('mips', 'mips2', 'rsp') else []))
        g = Gen(rng, marks=True)
        src = [arch] + ({'thumb': ['.thumb'], 'arm': ['.arm']}.get(kind.rstrip('5'), [])) + ['.create "out.bin",0x%X' % base]
        refs = []
        pos = base
        near = ['here%d' % k for k in range(3)]
        body, defs = [], []
        n = rng.randrange(2, 7)
        for k in range(n):
            form = rng.choice(list(insn.FORMS[kind]))
            m = g.marker()
            text = rng.choice(insn.FORMS[kind][form])
            reach = insn.REACH.get((kind, form))
            if rng.random() < 0.25:
                body += ['%s:' % near[k % 3] if k < 3 else ' nop']
            edge = rng.random() < 0.2
            if reach and not edge:
                # somewhere in between
                unit = 4 if kind in ('mips', 'mips2', 'rsp', 'arm', 'arm5') or form in ('pc', 'adr', 'movl', 'blx') else 2
                at = '(. + %d)' % (rng.randrange(max(reach[1], -0x400) // unit + 2, min(reach[0], 0x400) // unit - 2) * unit)
            elif reach:
                at = '(. + %d)' % (rng.choice(reach) + rng.choice([-8, -4, -4, -2, 0, 0, 0, 2, 4, 4, 8]))
            else:
                at = '0x%X' % (rng.choice([0, 4, 0x100, 0x7FFC, 0x8000, 0xFFFC, 0x10000, 0x18000, 0x1234567C, 0x7FFF8000, 0x80000000, 0x8000FFFC, 0xFFFF7FFC, 0xFFFF8000, 0xFFFFFFFC, rng.randrange(1 << 30) * 4])
                               & (0x0ffffffc if form == 'j' else 0xfffffffc) | (base & 0xf0000000 if form == 'j' else 0))
            body += ['.align 4']
            if kind.rstrip('5') in ('thumb', 'sh') and rng.random() < 0.5:
                body += [' nop']
                if form in ('pc', 'adr', 'movl', 'blx') and rng.random() < 0.8:
                    at = '(%s & ~3)' % at
            l = '%s%d' % (rng.choice(gen.WORDS), k)
            # where the instruction will be is known to the assembler only: the label is defined relative to it
            body += [' .d32 0x%08X' % m, 'pos%d:' % k, ' ' + text.format(l=l), ' nop', ' nop']
            defs.append((l, at.replace('.', 'pos%d' % k)))
            refs.append((m, kind, form, arch in insn.BIG, l))
        if kind.rstrip('5') in ('arm', 'thumb'):
            pool = [k for k in range(n) if refs[k][2] == 'pool']
            if pool and rng.random() < 0.4:
                # the pool just within or just out of reach
                body += ['.skip pos%d + %d - .' % (rng.choice(pool), (1024 if kind[0] == 't' else 4104) + rng.choice([-8, -4, -4, -2, 0, 0, 0, 2, 4, 4, 8]))]
            body.append('.pool')
        for l, at in defs:
            (src if rng.random() < 0.5 else body).append('.definelabel %s,%s' % (l, at))
        src += body + ['.close']
        prog = {'files': {'main.asm': '\n'.join(src) + '\n'}, 'args': ['armips', 'main.asm', '-sym', 'x.sym', '-temp', 'temp.txt'], 'outputs': ['out.bin', 'x.sym', 'temp.txt'], 'inputs': [],
                'tags': ['targets-' + kind], 'hdr': {'out.bin': base}, 'marks': {}, 'insrefs': refs}
        ctx.st.tags.update(prog['tags'])
        yield self.case(prog, {})

    def objects(self, rng, ctx):
        """Imported objects and libraries whose relocations lead all over the program, at addresses where halves of them carry."""
        arch = rng.choice(list(gen.ELF_MACH))
        mach, big = gen.ELF_MACH[arch]
        arm = arch in gen.ARM_ARCH
        base = rng.choice([0x1000, 0x7FC0, 0x17F80, 0x8000000, 0x8007F00] + ([0x80010000, 0x80007F80, 0xA000FF00] if mach == 8 else []))
        g = Gen(rng, marks=True)
        src = [arch, '.create "out.bin",0x%X' % base]
        labels, modes, known, zeros, sizes, files = [], {}, [], [], [], {}
        here = ['near%d' % k for k in range(rng.randrange(1, 4))]
        thumb = {l: arm and rng.random() < 0.5 for l in here}

        def place(l):
            o = ['.align 4'] + (['.thumb' if thumb[l] else '.arm'] if arm else []) + [l + ':'] + g.mark(l)
            return o + ['.skip %d' % (2 * rng.randrange(40))] + ['.align 4']
        modes.update((l, thumb[l] if arm else None) for l in here)
        todo = list(here)
        for i in range(rng.randrange(1, 4)):
            if todo and rng.random() < 0.5:
                src += place(todo.pop())
            psx = arch == '.psx' and rng.random() < 0.6
            lib = rng.random() < 0.4
            members = []
            for j in range(rng.randrange(1, 4) if lib else 1):
                syms = []
                for k in range(rng.randrange(1, 5)):
                    n = '%s_%d%d%d' % (rng.choice(['Foo', 'bar', 'baz']), i, j, k)
                    kind = rng.choice(['func', 'func', 'object', 'notype', 'common'] + ['bss'] * (not psx))
                    m = None
                    if kind not in ('common', 'bss'):
                        g.mark(n.lower())
                        m = g.marks.pop(n.lower())
                        g.symmarks[n] = m
                    syms.append((n, kind, m))
                ext, sites = [n for n in known + here if rng.random() < 0.4][:4], []
                members.append(('m%d%d' % (i, j), gen.make_psx(rng, syms, ext, g.marker, sites) if psx else gen.make_obj(
                    rng, mach, big, syms, ext, not arm and mach != 42 and rng.random() < 0.3, g.marker, sites, arch != '.gba', modes, zeros, sizes)))
                g.insrefs += [(m, 'obj', form, big, n) for m, form, n in sites]
                known += [n for n, k, m in syms]
            name = 'f%d.%s' % (i, 'a' if lib else 'o')
            files[name] = ((gen.make_psxlib(members) if psx else gen.make_ar(members)) if lib else members[0][1]).decode('latin-1')
            src += ['.align %d' % rng.choice([4, 16]), '.import%s "%s"' % ('lib' if lib else 'obj', name), '.align 4'] + (g.ref(rng.choice(known)) if rng.random() < 0.5 else [])
        for l in todo:
            src += place(l)
        src.append('.close')
        files['main.asm'] = '\n'.join(src) + '\n'
        prog = {'files': files, 'args': ['armips', 'main.asm', rng.choice(['-sym', '-sym2']), 'x.sym', '-temp', 'temp.txt'], 'outputs': ['out.bin', 'x.sym', 'temp.txt'], 'inputs': [], 'tags': ['objects-' + arch],
                'hdr': {'out.bin': base}, 'marks': g.marks, 'symmarks': g.symmarks, 'refmarks': g.refmarks, 'insrefs': g.insrefs, 'zeros': zeros, 'sizes': sizes, 'accept': True}
        ctx.st.tags.update(prog['tags'])
        yield self.case(prog, {})

    def unit(self, rng, ctx):
        k = rng.random()
        if k < 0.4:
            for _ in range(5):
                yield from self.targets(rng, ctx)
            return
        if k < 0.55:
            for _ in range(5):
                yield from self.objects(rng, ctx)
            return
        for _ in range(5):
            prog = Gen(rng, size=rng.choice([0.4, 0.7, 1.0]), marks=True, want_temp=0.9, want_sym=0.9, bigdata=0.05).program()
            binf = [f for f in prog['inputs'] if f.endswith('.dat')]
            if binf or rng.random() < 0.3:
                break
        b = self.base(ctx, prog, {'profile': True})
        ctx.st.tags.update(prog['tags'])
        if b.status != 'DONE' or b.runs[0]['ret'] != 0:
            return
        occ = occurrences(b.events)
        onbin = [(e, n) for e, n in occ if e.path in binf]
        for k in range(9):
            proc = {}
            if binf and occ and rng.random() < 0.85:
                proc['intr'] = []
                proc['faults'] = []
                for j in range(rng.choice([1, 1, 2])):
                    e, n = rng.choice(onbin if onbin and rng.random() < 0.6 else occ)
                    f = e.path if e.path in binf and rng.random() < 0.7 else rng.choice(binf)
                    old = prog['files'][f]
                    kind = rng.choice([0, 0, 0, 1, 2, 3])
                    data = rng.randbytes(rng.choice([0, 1, max(0, len(old) - rng.randrange(1, 9)), len(old), len(old) + rng.randrange(1, 70), 5000])).decode('latin-1') if kind in (0, 2) else ''
                    proc['intr'].append([f, kind, data, rng.randrange(0, len(old) + 40)])
                    proc['faults'].append([e.op, e.path, n, 1, 'intrude', '', j])
            if rng.random() < 0.6:
                sched_for(rng, proc, b, b.hot)
            yield self.case(prog, proc)

    def judge(self, ctx, case):
        prog, proc = case['prog'], case['proc']
        v = ctx.run(scen(prog, proc))[0]
        if v.status == 'DONE' and v.runs[0]['ret'] != 0 and prog.get('accept'):
            return 'a program that imports well-formed objects is rejected: %s' % clip([e for e in v.runs[0]['errors'] if is_error(e)][:1] or v.runs[0]['out'])
        if v.status != 'DONE' or v.runs[0]['ret'] != 0:
            return None
        marks = dict(prog['marks'], **prog.get('symmarks', {}))
        locs, vals, ends = prog.get('locmarks', []), prog.get('valmarks', {}), prog.get('endmarks', {})
        where = {}      # marker -> addresses, after: marker -> the word following it
        after = {}
        insrefs = prog.get('insrefs', [])
        decoded = {}    # marker before an instruction -> what the instruction refers to
        insmark = {x[0]: x for x in insrefs}
        every = set(marks.values()) | set(m for n, m in locs) | set(insmark) | set(m for m, n in prog.get('refmarks', [])) | set(vals.values()) | set(ends.values())
        for out in prog['outputs']:
            if out not in v.tree:
                continue
            data = v.tree[out]
            maps = [(0, len(data), prog['hdr'][out])] if out in prog['hdr'] else elf_maps(data)
            for off, size, va in maps:
                for m in every:
                    w = struct.pack('<I', m).decode('latin-1')
                    i = data.find(w, off)
                    while 0 <= i < off + size:
                        where.setdefault(m, set()).add((va + i - off) & 0xffffffff)
                        if i + 8 <= len(data):
                            after.setdefault(m, set()).update(struct.unpack(o + 'I', data[i + 4:i + 8].encode('latin-1'))[0] for o in '<>')
                        if m in insmark:
                            x = insmark[m]
                            decoded.setdefault(m, []).append(insn.target(x[1], x[2], x[3], data, i + 4, va + i + 4 - off))
                        i = data.find(w, i + 1)
        low = lambda x: x.lower()
        names = {}
        for l, m in list(marks.items()) + locs:
            names.setdefault(low(l), []).append(m)
        values = {low(l): m for l, m in vals.items()}
        ends = {low(l): m for l, m in ends.items()}
        seen = 0
        refs = prog.get('refmarks', [])
        spans = [tuple(low(x) for x in y) for y in prog.get('spans', [])]
        for a in prog['outputs']:
            if not (a.endswith('.sym') or a.endswith('temp.txt')):
                continue
            if a not in v.tree:
                if a in prog['args']:
                    return 'disagreement: the run succeeded without writing %s' % a
                continue
            sym = a.endswith('.sym')
            what = 'symbol file' if sym else 'listing'
            if 'old listing' in v.tree[a] or 'old symbols' in v.tree[a]:
                return 'the %s contains what was in the file before the run' % what
            bad = spans_bad(v.tree[a], sym, spans) if spans else None
            if bad:
                return 'disagreement: ' + bad
            have = {}
            for line in v.tree[a].split('\n'):
                m = re.match(r'^([0-9A-F]{8,}) ([^.,]\S*?)(?:,([0-9A-F]+))?$' if sym else r'^([0-9A-F]{8}) (\S+):\s()', line)
                if not m:
                    continue
                l, addr = low(m.group(2)), int(m.group(1), 16) & 0xffffffff
                have.setdefault(l, set()).add(addr)
                if l in values:
                    seen += 1
                    x = values[l]
                    if x in after and addr not in after[x]:
                        return 'disagreement: %s has %s as %08X but the binary has %s' % (what, l, addr, ' or '.join('%08X' % y for y in after[x]))
                if l not in names:
                    continue
                seen += 1
                pos = set().union(*[where.get(x, set()) for x in names[l]])
                if not pos:
                    return 'disagreement: %s has %s at %08X but its bytes are nowhere in the binary' % (what, l, addr)
                if addr not in pos:
                    return 'disagreement: %s has %s at %08X but its bytes are at %s' % (what, l, addr, ', '.join('%08X' % x for x in sorted(pos)))
                if sym and m.group(3) and l in ends and ends[l] in where:
                    size = int(m.group(3), 16)
                    if not any((addr + size) & 0xffffffff == x for x in where[ends[l]]):
                        return 'disagreement: symbol file gives %s the size %X but it ends at %s' % (l, size, ', '.join('%08X' % x for x in sorted(where[ends[l]])))
            listed = [l for l in marks] if sym else [l for l in prog['marks']]      # symbols of imported objects are not listed
            for l, x in [(l, marks[l]) for l in listed] + locs:
                if len(where.get(x, ())) == 1 and not where[x] <= have.get(low(l), set()):
                    return 'disagreement: %s lies in the binary at %08X but not so in the %s' % (l, min(where[x]), what)
            for x, l in refs:
                addr = have.get(low(l))
                if x in after and addr and not addr & after[x]:
                    return 'disagreement: %s has %s at %s but the binary refers to it as %s' % (what, l, ' or '.join('%08X' % y for y in addr), ' or '.join('%08X' % y for y in after[x]))
            for l, n in prog.get('zeros', []) if sym else []:
                data, addr = v.tree['out.bin'], have.get(low(l), ())
                if len(addr) != 1:
                    return 'disagreement: symbol file has %s %d times' % (l, len(addr))
                i = min(addr) - prog['hdr']['out.bin']
                if data[i:i + n] != '\0' * n:
                    return 'disagreement: symbol file has %s, which is to be empty, at %08X where the binary has %s' % (l, min(addr), data[i:i + n].encode('latin-1').hex())
            for l, n, func in prog.get('sizes', []) if sym else []:
                addr = have.get(low(l), ())
                if len(addr) != 1:
                    return 'disagreement: symbol file has %s %d times' % (l, len(addr))
                line = '%08X .byt:%04X' % (min(addr), n) if not func else '%08X %s,%08X' % (min(addr), l, n) if '-sym2' in prog['args'] else None
                if line and line not in v.tree[a].split('\n'):
                    return 'disagreement: symbol file lacks %r, the size of an imported symbol' % line
            for x, kind, form, big, l in insrefs:
                addr = have.get(low(l), ())
                if len(addr) == 1 and len(decoded.get(x, ())) == 1:
                    seen += 1
                    got = decoded[x][0]
                    if got is None or not insn.agrees(got, min(addr)):
                        return 'disagreement: %s has %s at %08X but the instruction referring to it (%s %s) %s' % (
                            what, l, min(addr), kind, form, 'has %08X' % (got[0] & 0xffffffff) if got else 'is something else')
            for a1, b1, k, c, x1, y1 in prog.get('rels', []):
                p = [have.get(low(l), ()) for l in (a1, b1, x1, y1)]
                if all(len(x) == 1 for x in p):
                    p = [min(x) for x in p]
                    if (c and (p[1] - p[0] - k - c * (p[3] - p[2])) & 0xffffffff) or (not c and (p[1] - p[0]) & 0xffffffff < k):
                        return 'disagreement: the %s has %d bytes from %s to %s, which the source makes %d%+d*%d' % (what, p[1] - p[0], a1, b1, k, c, p[3] - p[2])
            for l, x in vals.items():
                if x in where and low(l) not in have:
                    return 'disagreement: %s is used in the binary but is missing from the %s' % (l, what)
        data = {}
        for a in prog['outputs']:
            if a.endswith('temp.txt') and a in v.tree:
                bad, lines = listing_data(v.tree[a], v.tree, prog['hdr'])
                if bad:
                    return 'disagreement: ' + bad
                seen += len(lines)
                for b in prog['outputs']:
                    if b.endswith('.sym') and b in v.tree:
                        have = set(re.findall(r'^([0-9A-F]{8,}) \.(byt|wrd|dbl|asc):([0-9A-F]{4,})$', v.tree[b], re.M))
                        have = set((int(x, 16) & 0xffffffff, k, int(n, 16)) for x, k, n in have)
                        one = sum(not x.endswith(('.sym', 'temp.txt')) for x in prog['outputs']) == 1
                        bad = regions_bad(v.tree[a], v.tree, prog['hdr'], have) if one else None
                        if bad:
                            return 'disagreement: ' + bad
                        for addr, u, n in lines:
                            if n and not any((addr, k, n) in have for k in DATA_KIND[u]):
                                return 'disagreement: the listing has %d bytes of data in units of %d at %08X but the symbol file does not' % (n, u, addr)
        if seen:
            self.mark(ctx, prog['files'], v.evhash)
        return None


def host_image(run, base):
    """Bytes the accepted writes left in the host object, from address base on."""
    img = bytearray()
    for k, a, n, d in run['host']:
        if k == 'W':
            d = d.encode('latin-1')
            o = a - base
            if o < 0:
                return None
            if len(img) < o and d:
                img.extend(b'\0' * (o - len(img)))
            img[o:o + len(d)] = d
    return bytes(img)


def host_protocol(run):
    """None or what is wrong with the sequence of calls on the host object."""
    state = 'closed'
    refused = False
    for i, (k, a, n, d) in enumerate(run['host']):
        nxt = run['host'][i + 1][0] if i + 1 < len(run['host']) else ''
        if k == 'O':
            if state == 'open':
                return 'opened for writing twice without closing'
            if nxt == 'x':
                refused = True
            else:
                state = 'open'
        elif k == 'o':
            if state == 'open':
                return 'opened for checking while open for writing'
            if nxt == 'x':
                refused = True
        elif k == 'C':
            if state == 'open':
                state = 'done'
            elif state == 'done':
                return 'closed more than once'
        elif k == 'B':
            return 'written to while not open for writing'
        elif k in 'WR':
            if state != 'open':
                return 'written to while not open for writing'
            if k == 'R':
                refused = True
    if state == 'open':
        return 'not closed'
    if refused and run['ret'] == 0:
        return 'refused a call but success was reported'
    return None


class C13(Prop):
    id = 'C13'
    quick = 2400
    rule = ('one case = one to three memory-mode runs in one process driving a simulated host object that may refuse opens or writes, with optional failing system calls on listing and '
            'symbol file and a random schedule; the calls on the object must be properly bracketed and the bytes equal those of the reference model or of the same program in file mode; '
            'non-trivial = the object was opened for writing or refused a call, distinct by (programs, call sequence)')

    def one(self, rng):
        """(run, want): a memory-mode run and how its expected bytes are obtained."""
        run = {'kind': 'mem'}
        files = {}
        k = rng.random()
        if k < 0.06:
            # the program turns to a file of its own (the only way to do so in memory mode)
            g = Gen(rng, opts=False)
            block = [l.replace('out/', '') for l in g.elfblock('.psp') if l != '.close']
            run['header'] = 0x1000
            run['content'] = '\n'.join(['.psp', '.org 0x%X' % (0x1000 + 4 * rng.randrange(20)), ' .word 1,2,3', ' nop'] + block) + '\n'
            return run, dict(g.p.files), {}, ['mem', 'memelf']
        if k < 0.5:
            while True:
                files, ops = model.make(rng, elf=False)
                body = []
                for op in ops:
                    if op[0] in ('open', 'create', 'copy', 'close'):
                        if any(x[0] not in ('arch', 'table', 'mdef', 'equ', 'efunc') for x in body):
                            break
                        continue
                    if op[0] != 'hdr':
                        body.append(op)
                if body:
                    break
            files = {k: v for k, v in files.items() if k.startswith('in')}
            hdr = rng.choice([0, 0x1000, 0x8000000, 0x8000000, 0x80000000, 0xFFFF0000, 0x100000000, 0x7FFFFFFFF0])
            ops = [['create', 'image.bin', hdr]] + body + [['close']]
            model.drop_undefined(ops)
            inc = {}
            src = model.render(ops, inc)
            run['content'] = '\n'.join(src[1:-1]) + '\n'
            run['header'] = hdr
            want = {'ops': ops, 'files': dict(files)}
            files = dict(files)
            files.update(inc)
            tags = ['mem', 'model']
        else:
            prog = Gen(rng, mem=True, size=rng.choice([0.4, 0.8]), opts=False, want_temp=0, want_sym=0).program()
            if rng.random() < 0.12:
                prog = add_error(rng, prog)
            src = prog['files']['main.asm']
            m = re.search(r'^\.org 0x([0-9A-F]+)$', src, re.M)
            if not m:
                return self.one(rng)
            hdr = int(m.group(1), 16)
            files = {k: v for k, v in prog['files'].items() if k != 'main.asm'}
            run['content'] = src
            run['header'] = hdr
            want = {'src': '.create "twin.bin",0x%X\n%s\n.close\n' % (hdr, src), 'files': files}
            tags = prog['tags'] + ['mem']
        return run, files, want, tags

    def unit(self, rng, ctx):
        n = rng.choice([1, 1, 2, 3])
        files, runs, wants, tags = {}, [], [], []
        for i in range(n):
            r, f, w, t = self.one(rng)
            # every run has its own directory of inputs: names must not collide between runs
            sub = {}
            for k in f:
                nk = 'r%d_%s' % (i, k.replace('/', '_'))
                sub[k] = nk
            def fix(s):
                for k in sorted(sub, key=len, reverse=True):
                    s = s.replace('"%s"' % k, '"%s"' % sub[k])
                return s
            def fixbin(k, s):
                if not k.endswith('.asm'):
                    return s
                b = s.encode('latin-1')
                if b[:2] in (b'\xff\xfe', b'\xfe\xff'):
                    e = 'utf-16-le' if b[:2] == b'\xff\xfe' else 'utf-16-be'
                    return (b[:2] + fix(b[2:].decode(e)).encode(e)).decode('latin-1')
                return fix(s)
            r['content'] = fix(r['content'])
            for k, v in f.items():
                files[sub[k]] = fixbin(k, v)
            if 'src' in w:
                w = {'src': fix(w['src'])}
            if rng.random() < 0.06:
                # directives about files, which do not apply to the host's object
                ls = r['content'].split('\n')
                spots = top_spots(ls, True) or [0]
                at = rng.choice(spots)
                ls[at:at] = rng.choice([['.headersize 0x%X' % rng.choice([0, 0x100, 0x8000000])], ['.close'], ['.create "own.bin",0', '.close'],
                                        ['.open "r0_none.bin",0', '.close'], ['.headersize headersize()+4', '.orga 0']])
                r['content'] = '\n'.join(ls)
                w = {}
                t = t + ['memfile']
            if rng.random() < 0.5:
                r['temp'] = 'r%dtemp.txt' % i
            if rng.random() < 0.5:
                r['sym'] = 'r%dsyms.sym' % i
            if 'src' in w and rng.random() < 0.3:
                r['eow'] = True
            runs.append(r)
            wants.append(w)
            tags += t
        ctx.st.tags.update(tags)
        b = ctx.ref({'files': files, 'procs': [{'runs': runs, 'profile': True}]})[0]
        for k in range(6):
            rs = [dict(r) for r in runs]
            proc = {}
            for r in rs:
                if k and rng.random() < 0.55:
                    m = rng.randrange(5)
                    if m == 0:
                        r['hostfail'] = [1, 0, 0, 0]
                    elif m == 1:
                        r['hostfail'] = [0, 1, 0, 0]
                    else:
                        r['hostfail'] = [0, 0, rng.randrange(1, 12), rng.choice([1, 1, 3, 1 << 30])]
            if k and b.status == 'DONE' and rng.random() < 0.3:
                occ = occurrences(b.events)
                if occ:
                    proc['faults'] = [fault_for(rng, *rng.choice(occ))]
            if rng.random() < 0.5 and b.status == 'DONE':
                sched_for(rng, proc, b, b.hot)
            proc['budget'] = 60000000
            yield {'prop': self.id, 'files': files, 'runs': rs, 'wants': wants, 'proc': proc}

    def twin(self, ctx, case, w, eow=False):
        f = dict(case['files'])
        f['twinmain.asm'] = w['src']
        return ctx.ref({'files': f, 'procs': [{'runs': [{'args': ['armips', 'twinmain.asm'] + ['-erroronwarning'] * eow}]}]})[0]

    def judge(self, ctx, case):
        proc = dict(case['proc'])
        proc['runs'] = case['runs']
        v = ctx.run({'files': case['files'], 'procs': [proc]})[0]
        key = []
        for i, run in enumerate(v.runs):
            calls = ''.join(c[0] for c in run['host'])
            if 'O' in calls or 'x' in calls:
                key.append((case['runs'][i]['content'], calls))
            d = host_protocol(run)
            if d:
                return 'host object (run %d): %s' % (i + 1, d)
            if run.get('stale'):
                return 'host object of an earlier run was called during run %d' % (i + 1)
            eow = bool(case['runs'][i].get('eow'))
            errs = [e for e in run['errors'] if is_error(e) or (eow and is_warning(e))]
            if run['ret'] != 0 and not errs and not proc.get('faults'):
                return 'host object (run %d): failure without an error diagnostic' % (i + 1)
            if run['ret'] == 0 and 'O' not in calls and case['runs'][i]['content'].strip():
                return 'host object (run %d): success but never opened for writing' % (i + 1)
            if run['ret'] != 0 and 'O' in calls and not proc.get('faults') and not case['runs'][i].get('hostfail'):
                return 'host object (run %d): opened for writing although the program was rejected: %s' % (i + 1, clip(errs[:1]))
            w = case['wants'][i]
            if proc.get('faults') or (run['ret'] != 0 and case['runs'][i].get('hostfail')):
                continue
            if run['ret'] != 0:
                # nothing failed underneath: the program must be one that file mode rejects as well (directives about files aside)
                if 'ops' in w:
                    return 'host object (run %d): memory mode rejects a program of the reference model: %s' % (i + 1, clip(errs[:1]))
                if 'src' in w and not re.search(r'^\s*\.(open|create|close|headersize)', case['runs'][i]['content'], re.M | re.I):
                    t = self.twin(ctx, case, w, eow)
                    if t.status == 'DONE' and t.runs[0]['ret'] == 0:
                        return 'host object (run %d): memory mode rejects what file mode accepts: %s' % (i + 1, clip(errs[:1]))
                continue
            hdr = case['runs'][i]['header']
            img = host_image(run, hdr)
            if img is None:
                return 'host object (run %d): write below the start address' % (i + 1)
            if not w:
                continue
            if 'ops' in w:
                want = model.execute(dict(w['files']), w['ops'])[0]['image.bin'].encode('latin-1')
                how = 'the reference model'
            else:
                t = self.twin(ctx, case, w, eow)
                if t.status != 'DONE' or t.runs[0]['ret'] != 0:
                    if t.status == 'DONE':
                        return 'host object (run %d): memory mode accepts what file mode rejects: %s' % (i + 1, clip(t.runs[0]['errors'][:2]))
                    continue
                want = t.tree['twin.bin'].encode('latin-1')
                how = 'file mode'
            if img != want:
                d = tree_diff({'image': want.decode('latin-1')}, {'image': img.decode('latin-1')})
                return 'host object (run %d): bytes differ from %s: %s' % (i + 1, how, d)
        if key:
            self.mark(ctx, key)
        if v.bad and not proc.get('faults'):
            return 'abnormal end: ' + v.bad
        return None


DIAG = re.compile(r'(^|\) )(warning|error|fatal error|notice): ')


class C14(Prop):
    id = 'C14'
    quick = 1600
    rule = ('one case = one program (accepted, rejected, with notices and warnings, silent or not, file or memory mode) with up to four failing calls under a random schedule; the returned '
            'list, the console and the result must agree, and lines inserted for exactly one notice or warning each give exactly one; non-trivial = at least one diagnostic was issued, distinct by (program, event-trace hash, diagnostics)')

    def unit(self, rng, ctx):
        memrun = rng.random() < 0.12
        if memrun:
            prog = Gen(rng, mem=True, size=rng.choice([0.4, 0.8]), opts=False, want_temp=0, want_sym=0, notices=0.8, warnings=0.5).program()
        else:
            prog = any_prog(rng, notices=0.8, warnings=0.5, want_temp=0.85, want_sym=0.85)
        if not memrun and rng.random() < 0.6:
            prog = add_markers(rng, prog)
        if rng.random() < 0.3:
            prog = add_error(rng, prog)
        if not memrun and rng.random() < 0.15 and '-erroronwarning' not in prog['args']:
            prog = dict(prog, args=prog['args'][:1] + ['-erroronwarning'] + prog['args'][1:])
        if any('.erroronwarning' in f for f in prog['files'].values()):
            return
        ctx.st.tags.update(prog['tags'])
        if memrun:
            run = {'kind': 'mem', 'content': prog['files']['main.asm'], 'temp': 'temp.txt', 'sym': 'syms.sym', 'eow': rng.random() < 0.2, 'header': 0x1000,
                   'stats': rng.random() < 0.3}
        else:
            run = {'args': prog['args']}
        if rng.random() < 0.2:
            run['silent'] = True
        base = {'prop': self.id, 'prog': prog, 'run': run}
        if not memrun and rng.random() < 0.08:
            main = prog['args'][-1]
            src = prog['files'][main]
            if not any(ord(c) > 126 for c in src[:3]):
                prog = dict(prog, files=dict(prog['files'], **{main: '.erroronwarning on\n' + src}))
                base = {'prop': self.id, 'prog': prog, 'run': run, 'eow': True}
        b = ctx.ref({'files': prog['files'], 'procs': [{'runs': [run], 'profile': True}]})[0]
        yield dict(base, proc={})
        if not memrun and rng.random() < 0.5:
            yield dict(base, proc={}, passes=rng.choice([2, 3, 6, 12]))
        if b.status != 'DONE':
            return
        occ = occurrences(b.events)
        for k in range(10):
            proc = {'budget': max(4000000, 12 * b.steps)}
            r2 = dict(run)
            if occ and rng.random() < 0.75:
                outs = [x for x in occ if x[0].path in prog['outputs'] or x[0].path in ('temp.txt', 'syms.sym')]
                proc['faults'] = [fault_for(rng, *rng.choice(outs if outs and rng.random() < 0.7 else occ)) for _ in range(rng.choice([1, 2, 3, 4]))]
            if memrun and rng.random() < 0.3:
                r2['hostfail'] = rng.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, rng.randrange(1, 9), 1]])
            if rng.random() < 0.7:
                sched_for(rng, proc, b, b.hot)
            yield dict(base, run=r2, proc=proc)

    def more_passes(self, ctx, case, r):
        """Definitions at the end of the source that take more passes to settle must not change how often anything is reported."""
        prog, n = case['prog'], case['passes']
        main = prog['args'][-1]
        src = prog['files'][main]
        if 'autoregion' in src or 'autoregion' in ''.join(prog['files'].values()) or 'error:unterminated' in prog['tags'] or \
           any('"%s"' % main in f for f in prog['files'].values()):
            return None     # the source is data of its own program; placement may depend on the number of passes; the additions would be inside an open block
        if n > 6 and any('.pool' in f for f in prog['files'].values()):
            return None     # from the tenth pass on literal pools keep equal values apart
        tail = ''.join('.definelabel settle%d,settle%d+1\n' % (i, i + 1) for i in range(n)) + '.definelabel settle%d,1\n' % n
        files = dict(prog['files'], **{main: src + ('' if src.endswith('\n') else '\n') + tail})
        w = ctx.run({'files': files, 'procs': [dict(case['proc'], runs=[case['run']])]})[0]
        if w.status != 'DONE':
            return None
        # reported after the last line, with its position, which the additions move
        a, b = (sorted(e for e in x if not re.search(r'File not closed|[Aa]reas .*overlap|unterminated|Unterminated', e)) for x in (r['errors'], w.runs[0]['errors']))
        if a != b and not any('infinite' in e for e in a + b):
            return 'diagnostics depend on the number of passes: ' + (list_diff('diagnostics', a, b) or '')
        return None

    def judge(self, ctx, case):
        prog, run, proc = case['prog'], case['run'], dict(case['proc'])
        proc['runs'] = [run]
        v = ctx.run({'files': prog['files'], 'procs': [proc]})[0]
        if v.status != 'DONE':
            return None     # C04's business
        r = v.runs[0]
        if 'Cannot parse arguments' in r['out']:
            return None
        errs = []
        for e in r['errors']:
            errs += e.split('\n')
        cons = r['out'].split('\n')
        shown = [l for l in cons if DIAG.search(l)]
        want = [] if run.get('silent') else [l for l in errs if DIAG.search(l)]
        if errs:
            self.mark(ctx, prog['files'], v.evhash, errs)
        if len(r['errors']) != sum(1 for e in r['errors'] if DIAG.search(e)):
            return 'a returned diagnostic is garbled: %s' % clip([e for e in r['errors'] if not DIAG.search(e)][0])
        if shown != want:
            if run.get('silent') and not errs:
                # a rejected command line is reported before the silent setting applies: ask the same run without it
                w = ctx.run({'files': prog['files'], 'procs': [dict(proc, runs=[{k: x for k, x in run.items() if k != 'silent'}])]})[0]
                if w.status == 'DONE' and 'Cannot parse arguments' in w.runs[0]['out']:
                    return None
            return 'console and returned list disagree: ' + (list_diff('lines', want, shown) or '')
        main = prog['args'][-1]
        for i, l in enumerate(prog['files'][main].split('\n')):
            e = re.search(r'; @err(\d)$', l)
            if e:
                m = '%s(%d) error' % (main, i + 1)
                n = sum(1 for x in r['errors'] if x.startswith(m) or '/' + m in x)
                k = int(e.group(1))
                if n > k or n < k and not proc.get('faults') and not run.get('hostfail') and not any(t.startswith('error:') for t in prog['tags']):
                    return '%d diagnostics for line %s %s instead of %d' % (n, m, clip(l), k)
            if not l.endswith(('; @mark', '; @mark3')):
                continue
            m = '%s(%d) ' % (main, i + 1)
            got = [e for e in r['errors'] if (e.startswith(m) or ('/' + m) in e) and re.search(r'mark\d|cond|by zero|truncated', e)]
            if l.endswith('3'):
                # the same notice or warning issued by three lines of one macro: three diagnostics
                if len(got) > 3 or (r['ret'] == 0 and len(got) < 3):
                    return '%d diagnostics for line %s %s instead of 3' % (len(got), m, clip(l))
                continue
            if len(got) != len(set(got)):
                return 'a diagnostic is delivered more than once: %s' % clip(got[0])
            if not got and r['ret'] == 0:
                return 'no diagnostic for line %s %s' % (m, clip(l))
        if run.get('silent') and not proc.get('faults') and not proc.get('sched') and not run.get('hostfail'):
            w = ctx.run({'files': prog['files'], 'procs': [dict(proc, runs=[{k: x for k, x in run.items() if k != 'silent'}])]})[0]
            if w.status == 'DONE' and 'Cannot parse arguments' not in w.runs[0]['out']:
                d = list_diff('returned diagnostics', w.runs[0]['errors'], r['errors'])
                if d:
                    return 'the returned list depends on the silent setting: ' + d
        if case.get('passes') and not run.get('silent'):
            d = self.more_passes(ctx, case, r)
            if d:
                return d
        eow = case.get('eow') or run.get('eow') or '-erroronwarning' in run.get('args', [])
        bad = any(is_error(e) or (eow and is_warning(e)) for e in r['errors'])
        if bad and r['ret'] == 0:
            return 'success with an error diagnostic: %s' % clip([e for e in r['errors'] if is_error(e) or is_warning(e)][0])
        if not bad and r['ret'] != 0:
            return 'failure without an error diagnostic: %s' % clip(r['out'][-200:])
        return None



class C15(Prop):
    id = 'C15'
    shrink_lines = False
    quick = 1200
    rule = ('one case = one program of comments, messages, strings and tables in several files, each stored in a seeded encoding and line end style, read in pieces of seeded sizes with '
            'interruptions and, in some cases, a failing read; messages, their positions and the output must be those of the text itself; non-trivial = some file is not plain UTF-8 or '
            'a read was cut short, distinct by (files, event-trace hash)')

    def unit(self, rng, ctx):
        prog = text.Text(rng).program()
        for k in range(6):
            choice = text.choose(rng, prog)
            files = prog
            ctx.st.tags.update('enc:' + c[0] for c in choice.values())
            proc = {'budget': 80000000}
            x = rng.random()
            if x < 0.6:
                proc['faults'] = [['read', '*', rng.choice([1, 1, 2, 5]), rng.choice([1, 3, BIG]), 'short', '', rng.choice([1, 2, 3, 5, 13, 1000, 4095])]]
                if rng.random() < 0.3:
                    proc['faults'].append(['read', rng.choice(sorted(files)), rng.randrange(1, 6), rng.choice([1, 1, 4]), 'err', 'EINTR', 0])
            elif x < 0.75:
                proc['faults'] = [['read', rng.choice(sorted(files)), rng.randrange(1, 5), rng.choice([1, BIG]), 'err', 'EIO', 0]]
            yield {'prop': self.id, 'logical': prog, 'enc': choice, 'runs': [{'args': ['armips', 'main.asm']}], 'proc': proc}

    def judge(self, ctx, case):
        proc = case['proc']
        want = text.expect(case['logical'])
        if want is None:
            return None
        diag, out, err = want
        files = text.render(case['logical'], case['enc'])
        v = ctx.run({'files': files, 'procs': [dict(proc, runs=case['runs'])]})[0]
        if v.bad:
            return 'abnormal end: ' + v.bad
        r = v.runs[0]
        if v.fired or any(e[:2] != ['utf8', '\n'] for e in case['enc'].values()):
            self.mark(ctx, files, v.evhash)
        if r['ret'] != 0 and any(f[5] == 'EIO' for f in proc.get('faults', [])) and v.fired:
            return None
        d = list_diff('messages', diag, r['errors'])
        if d:
            return 'text read differently: ' + d
        if (r['ret'] != 0) != err:
            return 'text read differently: result %d' % r['ret']
        if not err:
            d = tree_diff({'text.bin': out}, {'text.bin': v.tree.get('text.bin', '')})
            if d:
                return 'text read differently: ' + d
        return None


class C16(Prop):
    id = 'C16'
    quick = 2000
    rule = ('one case = one program one or two of whose input files were left cut short or with a zeroed part (as by a crash or a full disk while they were written), at a seeded position, '
            'run twice with different contents of unused memory; non-trivial = the damaged run did not report what the intact one does, distinct by (program, damage)')

    def inputs(self, prog):
        return [n for n, d in sorted(prog['files'].items()) if d and not n.endswith('/') and not n.endswith('.keep')]

    def sweep(self, rng, ctx):
        """Every word of one small object, library or ELF file zeroed in turn, and cuts all over it."""
        arch = rng.choice(list(gen.ELF_MACH))
        mach, big = gen.ELF_MACH[arch]
        kinds = ['func', 'object', 'object', 'notype', 'common']
        out = ['out.bin']
        k = rng.random()
        if k < 0.25:
            name = 'a.elf'
            data = gen.make_elf(rng, nseg=rng.choice([1, 2]), sizes=(0x10, 0x20), tabfirst=rng.random() < 0.5)[0]
            src = ['.psp', '.loadelf "a.elf","out.bin"', '.org 0x08804000', '.word 1', '.close']
        else:
            psx = arch == '.psx' and rng.random() < 0.7
            lib = rng.random() < 0.3
            members, known = [], ['ext']
            for i in range(2 if lib else 1):
                syms = [('s%d%d' % (i, j), rng.choice(kinds), None) for j in range(rng.randrange(1, 4))]
                ext = [x for x in known if rng.random() < 0.5]
                members.append((rng.choice(['m%d', 'sixteen_chars_%02d', 'fifteen_chars%02d'] if not psx else ['m%d']) % i, gen.make_psx(rng, syms, ext) if psx else gen.make_obj(rng, mach, big, syms, ext, arch not in gen.ARM_ARCH + gen.SH_ARCH and rng.random() < 0.4)))
                known += [s for s, kind, m in syms]
            name = 'a.a' if lib else 'a.o'
            data = (gen.make_psxlib(members) if psx else gen.make_ar(members)) if lib else members[0][1]
            data = data.decode('latin-1')
            src = [arch, '.create "out.bin",0x1000', '.definelabel ext,0x1234', '.importobj "%s"' % name, '.byte 1', '.close']
        args = ['armips', 'main.asm'] + (['-sym', 'x.sym'] if rng.random() < 0.5 else [])
        prog = {'files': {'main.asm': '\n'.join(src) + '\n', name: data}, 'args': args, 'outputs': out + ['x.sym'] * (len(args) > 2), 'inputs': [], 'raw': True, 'tags': ['sweep']}
        ctx.st.tags.update(prog['tags'])
        size = len(data)
        dmg = [['zero', p, min(size, p + 4)] for p in range(0, size, 4)]
        dmg += [['zero', p, p + 1] for p in rng.sample(range(size), 40)] + [['cut', p, size] for p in rng.sample(range(size), 60)]
        for d in dmg:
            yield self.case(prog, {'heap': [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(1 << 48)]}, dmg=[[name] + d], alt=rng.random() < 0.5)

    def unit(self, rng, ctx):
        if rng.random() < 0.04:
            yield from self.sweep(rng, ctx)
            return
        for _ in range(8):
            prog = any_prog(rng, corpus=0.1, io=True)
            if any(n.endswith(('.o', '.a', '.elf')) for n in prog['files']) or rng.random() < 0.1:
                break
        ctx.st.tags.update(prog['tags'])
        names = self.inputs(prog)
        obj = [n for n in names if n.endswith(('.o', '.a', '.elf'))]
        if not names:
            return
        for k in range(9):
            dmg = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                n = rng.choice(obj if obj and rng.random() < 0.8 else names)
                size = len(prog['files'][n])
                at = rng.choice([rng.randrange(size), rng.randrange(size), rng.randrange(min(size, 96)), max(0, size - rng.randrange(1, 100))])
                if rng.random() < 0.5:
                    dmg.append([n, 'cut', at, size])
                else:
                    at = rng.choice([at, at & ~3])
                    dmg.append([n, 'zero', at, rng.choice([size, min(size, at + rng.choice([1, 2, 4, 4, 4, 8, 16, 40, 64]))])])
            yield self.case(prog, {'heap': [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(1 << 48)]}, dmg=dmg, alt=rng.random() < 0.5)

    def damaged(self, case):
        f = dict(case['prog']['files'])
        for n, kind, a, b in case['dmg']:
            d = f[n]
            f[n] = d[:a] if kind == 'cut' else d[:a] + '\0' * max(0, min(b, len(d)) - a) + d[b:]
        return f

    @staticmethod
    def complete(d, at):
        """Whether the file, cut at this position, may be taken for a complete one with less in it."""
        if d[:3] == 'LNK':
            pos = 6
            while pos < len(d):
                if at == pos:
                    return True
                k = ord(d[pos])
                if k == 0x0A:
                    pos += 4
                    while d[pos + 1] == '\0' and d[pos] in '\x2C\x2E':
                        pos += 6
                    pos += 3 if d[pos] == '\x02' else 9
                elif k == 2:
                    pos += 3 + ord(d[pos + 1]) + 256 * ord(d[pos + 2])
                elif k in (0x10, 0x14, 0x1C, 0x0C, 0x0E, 0x30, 0x12):
                    n = {0x10: 6, 0x14: 4, 0x1C: 3, 0x0C: 9, 0x0E: 3, 0x30: 9, 0x12: 7}[k]
                    pos += n + 1 + ord(d[pos + n])
                else:
                    pos += {0x06: 3, 0x08: 3, 0x00: 1, 0x4C: 11, 0x3C: 3, 0x32: 3, 0x3A: 9}[k]
            return False
        if d[:8] == '!<arch>\n':
            pos = 8
            while pos < len(d):
                if at == pos:
                    return True
                pos += 60 + int(d[pos + 48:pos + 58])
                if at == pos:
                    return True
                pos += pos % 2
        elif d[:4] == 'LIB\x01':
            pos = 4
            while pos < len(d):
                if at == pos:
                    return True
                pos += int.from_bytes(d[pos + 16:pos + 20].encode('latin-1'), 'little')
        return False

    def judge(self, ctx, case):
        prog, files = case['prog'], self.damaged(case)
        r = self.base(ctx, prog)
        if r.status != 'DONE':
            return None
        budget = max(20000000, 12 * r.steps)
        for n, kind, p, q in case['dmg']:
            what = 'input file %s' % ('cut short' if kind == 'cut' else 'partly zeroed')
            ctx.st.faults[what] += 1
            ctx.st.fired[what] += 1
        a = ctx.run(scen(prog, {'heap': [0, 1, 2, 1], 'budget': budget}, files))[0]
        if a.sim_problem:
            return None
        if a.bad:
            return 'abnormal end on a damaged input file: ' + a.bad
        run = a.runs[0]
        if run['ret'] != 0:
            if not prog.get('silent') and not has_error(run, prog['args']) and not any(is_error(l) for l in run['out'].split('\n')):
                return 'failure without an error diagnostic: %s' % clip(run['out'])
        elif r.runs[0]['ret'] == 0:
            cut = [(n, p) for n, k, p, q in case['dmg'] if k == 'cut' and n.endswith(('.o', '.a', '.elf'))]
            if len(cut) == len(case['dmg']) and not any(self.complete(prog['files'][n], p) for n, p in cut):
                d = tree_diff(r.tree, a.tree, prog['outputs'])
                if d:
                    return 'success with an incomplete input file: ' + d
        b = ctx.run(dict(scen(prog, dict(case['proc'], budget=2 * budget), files), alt=case.get('alt', False)))[0]
        if b.bad:
            return 'abnormal end on a damaged input file: ' + b.bad
        if run['ret'] != r.runs[0]['ret'] or tree_diff(r.tree, a.tree, prog['outputs']):
            self.mark(ctx, prog['files'], case['dmg'])
        d = same_run(run, b.runs[0], a.tree, b.tree)
        return ('the outcome depends on memory outside of the damaged file: ' + d) if d else None


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
