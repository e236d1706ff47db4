"""Shared pieces of the property checks: observations, perturbation plans, run helper."""
import collections, hashlib, json, os, re

BIG = 1 << 40
OPEN_ERR = ['EACCES', 'EIO', 'EMFILE', 'ENOSPC', 'EROFS', 'ENOMEM', 'ESTALE']
WRITE_ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']
READ_ERR = ['EIO', 'ESTALE', 'ENOMEM']
CLOSE_ERR = ['EIO', 'ENOSPC', 'EDQUOT']
STAT_ERR = ['EIO', 'EACCES', 'ELOOP', 'ESTALE', 'ENOMEM']
MISC_ERR = ['EIO', 'EACCES', 'ENOMEM']
RUN_END = 'run-end'


class Stats:
    """What the simulated runs of one worker covered (all counts measured)."""
    def __init__(self):
        self.runs = 0
        self.procs = 0
        self.steps = 0
        self.simns = 0
        self.events = 0
        self.switches = 0
        self.fired = collections.Counter()
        self.faults = collections.Counter()
        self.status = collections.Counter()
        self.scheds = collections.Counter()
        self.tags = collections.Counter()
        self.il = set()
        self.ev = set()
        self.nontrivial = set()
        self.evals = 0
        self.ret = collections.Counter()
        self.twice = 0
        self.twice_bad = 0

    def add(self, p):
        self.procs += 1
        self.runs += len(p.runs)
        self.steps += p.steps
        self.simns += p.simns
        self.events += p.nevents
        self.switches += p.nswitch
        for k, v in p.fired.items():
            self.fired[k] += v
        self.status[p.status] += 1
        if p.threads > 0:
            self.il.add(p.ilhash)
        self.ev.add(p.evhash)
        for r in p.runs:
            self.ret['success' if r['ret'] == 0 else 'failure'] += 1

    def merge(self, o):
        for k in ('runs', 'procs', 'steps', 'simns', 'events', 'switches', 'evals', 'twice', 'twice_bad'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('fired', 'faults', 'status', 'scheds', 'tags', 'ret'):
            getattr(self, k).update(getattr(o, k))
        for k in ('il', 'ev', 'nontrivial'):
            getattr(self, k).update(getattr(o, k))


class Ctx:
    """One worker's simulator with a memo of reference runs."""
    def __init__(self, sim, stats):
        self.sim = sim
        self.st = stats
        sim.stats = stats
        self.memo = collections.OrderedDict()

    def run(self, sc):
        for p in sc['procs']:
            s = p.get('sched')
            self.st.scheds[s[0] if s else 'seq'] += 1
        res = self.sim.run(sc)
        for p, q in zip(sc['procs'], res):
            if p.get('faults') and q.fired:
                for f in p['faults']:
                    self.st.faults['%s %s%s' % (f[0], f[4], (' ' + f[5]) if f[5] else '')] += 1
            if 'kill' in p and q.status == 'KILLED':
                self.st.faults['kill'] += 1
            if 'disk' in p and any(e.tag == 'DISKFULL' for e in q.events):
                self.st.faults['disk full'] += 1
        return res

    def ref(self, sc):
        """Reference run, cached."""
        k = hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).digest()
        if k in self.memo:
            self.memo.move_to_end(k)
            return self.memo[k]
        res = self.run(sc)
        self.memo[k] = res
        if len(self.memo) > 6:
            self.memo.popitem(last=False)
        return res


# ---- observations ---------------------------------------------------------
def clip(s, n=160):
    s = repr(s)
    return s if len(s) <= n else s[:n] + '...'


def tree_diff(a, b, names=None):
    """First difference between two trees, restricted to names if given."""
    keys = sorted(set(a) | set(b)) if names is None else names
    for k in keys:
        if k in a and k not in b:
            return 'file %s is missing' % k
        if k not in a and k in b:
            return 'file %s should not exist' % k
        if k in a and a[k] != b[k]:
            x, y = a[k], b[k]
            n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return 'file %s differs at byte %d: expected %s got %s' % (k, n, clip(x[n:n + 24]), clip(y[n:n + 24]))
    return None


def list_diff(what, a, b):
    if a == b:
        return None
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return '%s differ at entry %d: expected %s got %s' % (what, i, clip(x), clip(y))
    return what + ' differ'


def same_run(a, b, ta, tb, ordered=True, files=True):
    """None, or how run b differs from reference run a (result, diagnostics, console, files)."""
    if a['ret'] != b['ret']:
        return 'result: expected %s got %s; diagnostics %s' % (a['ret'], b['ret'], clip(b['errors'][-2:]))
    ea, eb = a['errors'], b['errors']
    oa, ob = a['out'].split('\n'), b['out'].split('\n')
    if not ordered:
        ea, eb, oa, ob = sorted(ea), sorted(eb), sorted(oa), sorted(ob)
    d = list_diff('diagnostics', ea, eb) or list_diff('console lines', oa, ob)
    if d:
        return d
    if a.get('host') != b.get('host'):
        return 'calls on the host object differ'
    if files:
        d = tree_diff(ta, tb)
        if d:
            return 'files: ' + d
    return None


def is_error(line):
    return re.search(r'(^|\) )(fatal )?error: ', line) is not None


def is_warning(line):
    return re.search(r'(^|\) )warning: ', line) is not None


def has_error(run, args):
    for e in run['errors']:
        if is_error(e):
            return True
        if '-erroronwarning' in args and is_warning(e):
            return True
    return False


# ---- schedules -----------------------------------------------------------
ORDERS = [[1, 2, 0], [0, 1, 2], [2, 1, 0], [1, 0, 2], [2, 0, 1], [0, 2, 1]]


def random_sched(rng, base, hot=None):
    """A random schedule policy for a process like base."""
    k = rng.random()
    c = max(10, base.csteps)
    if k < 0.12:
        return ['seq'] + rng.choice(ORDERS)
    if k < 0.40:
        return ['rand', rng.randrange(1 << 48), rng.choice([2, 5, 20, 80, 300, 1500])]
    if k < 0.65:
        return ['pct', rng.randrange(1 << 48), rng.choice([1, 2, 3, 5, 8]), c]
    return ['hots', rng.randrange(1 << 48), rng.choice([100, 300, 600, 900]), rng.choice([0, 200, 600]), rng.choice([200, 2000, 20000])]


def sched_for(rng, proc, base, hot):
    s = random_sched(rng, base)
    proc['sched'] = s
    if s[0] == 'hots' and hot:
        proc['hot'] = hot
    return proc


# ---- faults --------------------------------------------------------------
def occurrences(events):
    """[(event, nth)] where nth counts events of the same op and path so far."""
    seen = collections.Counter()
    out = []
    for e in events:
        if e.op == RUN_END:
            continue
        k = (e.op, e.path)
        seen[k] += 1
        out.append((e, seen[k]))
    return out


def fault_for(rng, e, nth, hard=True, forever=None):
    """A fault plan entry hitting this event."""
    cnt = BIG if (forever if forever is not None else rng.random() < 0.6) else rng.choice([1, 1, 2])
    op = e.op
    if op in ('open_r', 'open_u', 'open_w', 'opendir'):
        return [op, e.path, nth, cnt, 'err', rng.choice(OPEN_ERR), 0]
    if op == 'write':
        if rng.random() < 0.35:
            return [op, e.path, nth, cnt, 'torn', rng.choice(WRITE_ERR), rng.randrange(max(1, e.ret + 1))]
        return [op, e.path, nth, cnt, 'err', rng.choice(WRITE_ERR), 0]
    if op == 'read':
        if rng.random() < 0.4:
            return [op, e.path, nth, BIG, 'eof', '', 0]
        return [op, e.path, nth, cnt, 'err', rng.choice(READ_ERR), 0]
    if op == 'copy':
        return [op, e.path, nth, cnt, 'err', rng.choice(['EIO', 'ENOSPC', 'EDQUOT']), 0]
    if op == 'close':
        return [op, e.path, nth, cnt, 'err', rng.choice(CLOSE_ERR), 0]
    if op in ('stat', 'fstat', 'access', 'readlink'):
        return [op, e.path, nth, cnt, 'err', rng.choice(STAT_ERR), 0]
    return [op, e.path, nth, cnt, 'err', rng.choice(MISC_ERR), 0]


def cut_for(rng, e, nth):
    """Fault plan entries that deliver only the beginning of what this read or copy transferred, then fail or end."""
    k = rng.choice([rng.randrange(1, e.ret), rng.randrange(max(1, e.ret * 3 // 4), e.ret)])
    return [[e.op, e.path, nth, 1, 'short', '', k],
            [e.op, e.path, nth + 1, BIG, 'eof', '', 0] if rng.random() < 0.5 else
            [e.op, e.path, nth + 1, rng.choice([BIG, BIG, 1]), 'err', rng.choice(READ_ERR) if e.op == 'read' else 'EIO', 0]]
