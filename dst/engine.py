"""Client for the simulation server (sim/harness.cpp).

A scenario is a JSON-able dict:
  files: {path: latin-1 text}, dirs: [path],
  procs: [ {heap:[mode,reuse,fill,seed], clock:int, budget:int, sched:[...], faults:[...],
            disk:int, kill:[event,mid], intr:[[path,kind,data,len]], runs:[run...],
            hot:[pc], profile:bool, wantsched:bool} ]
  run: {kind:'cli', args:[..], silent:bool} or {kind:'mem', content:str, ...}
One scenario is one exactly repeatable execution.
"""
import json, os, struct, subprocess, tempfile, shutil, errno as _errno

ST = {0: 'RUNNING', 1: 'DONE', 2: 'KILLED', 3: 'DEADLOCK', 4: 'STEPLIMIT', 5: 'MEMLIMIT',
      6: 'TERMINATE', 7: 'EXIT', 8: 'SIMERROR', 9: 'FSLIMIT'}
ERR = {n: getattr(_errno, n) for n in ('EIO', 'ENOSPC', 'EACCES', 'EINTR', 'ENOENT', 'EDQUOT', 'EROFS', 'ENOMEM',
                                       'EMFILE', 'ENFILE', 'ESTALE', 'EBUSY', 'EFBIG', 'ELOOP', 'EPERM', 'ENOTDIR', 'EISDIR', 'ETXTBSY', 'EAGAIN', 'EINVAL', 'EOVERFLOW')}


class SimError(Exception):
    pass


def _x(s):
    if isinstance(s, str):
        s = s.encode('latin-1')
    return 'x' + s.hex()


def encode(sc):
    o = ['reset']
    for d in sc.get('dirs', []):
        o.append('dir ' + _x(d))
    for n, d in sc['files'].items():
        o.append('dir ' + _x(n[:-1]) if n.endswith('/') else 'file %s %s' % (_x(n), _x(d)))
    for p in sc['procs']:
        o.append('proc')
        if 'heap' in p:
            o.append('heap %d %d %d %d' % tuple(p['heap']))
        if 'clock' in p:
            o.append('clock %d' % p['clock'])
        if 'budget' in p:
            o.append('budget %d' % p['budget'])
        if 'membudget' in p:
            o.append('membudget %d' % p['membudget'])
        s = p.get('sched')
        if s:
            if s[0] == 'exp':
                o.append('exp ' + ' '.join('%d %d' % (c, t) for c, t in s[1]))
            else:
                o.append(' '.join(str(v) for v in s))
        if p.get('hot'):
            o.append('hotpc ' + ' '.join(str(v) for v in p['hot']))
        if p.get('profile'):
            o.append('profile')
        if p.get('wantsched'):
            o.append('wantsched')
        if p.get('noevents'):
            o.append('noevents')
        if p.get('notrees'):
            o.append('notrees')
        if 'disk' in p:
            o.append('disk %d' % p['disk'])
        if 'kill' in p:
            o.append('kill %d %d' % tuple(p['kill']))
        for f in p.get('faults', []):
            op, path, nth, count, action, err, arg = f
            o.append('fault %s %s %d %d %s %d %d' % (op, _x(path), nth, count, action, ERR.get(err, 0) if isinstance(err, str) else err, arg))
        for i in p.get('intr', []):
            o.append('intr %s %d %s %d' % (_x(i[0]), i[1], _x(i[2]), i[3] if len(i) > 3 else 0))
        for r in p['runs']:
            if r.get('kind', 'cli') == 'cli':
                o.append('run cli')
                for a in r['args']:
                    o.append('arg ' + _x(a))
                if 'absnames' in r:
                    o.append('absnames %d' % r['absnames'])
            else:
                o.append('run mem')
                o.append('content ' + _x(r['content']))
                if r.get('temp'):
                    o.append('temp ' + _x(r['temp']))
                if r.get('sym'):
                    o.append('sym %s %d' % (_x(r['sym']), r.get('symver', 1)))
                if r.get('eow'):
                    o.append('eow 1')
                if r.get('stats'):
                    o.append('stats 1')
                for n, v in r.get('equs', []):
                    o.append('equ %s %s' % (_x(n), _x(v)))
                for n, v in r.get('labels', []):
                    o.append('label %s %d' % (_x(n), v))
                if r.get('header'):
                    o.append('header %d' % r['header'])
                if 'hostfail' in r:
                    o.append('hostfail %d %d %d %d' % tuple(r['hostfail']))
            for n, d in r.get('edits', []):
                o.append('edit %s %s' % (_x(n), _x(d)))
            if r.get('silent'):
                o.append('silent 1')
    return '\n'.join(o).encode('ascii')


class Event(tuple):
    __slots__ = ()
    tid = property(lambda s: s[0])
    op = property(lambda s: s[1])
    path = property(lambda s: s[2])
    ret = property(lambda s: s[3])
    err = property(lambda s: s[4])
    tag = property(lambda s: s[5])


def parse_log(text):
    ev = []
    for line in text.split('\n'):
        if not line or line[0] == '#':
            continue
        f = line.split('\t')
        if len(f) < 6:
            continue
        ev.append(Event((int(f[0]), f[1], f[2], int(f[3]), int(f[4]), f[5])))
    return ev


class Proc:
    """What one simulated process did."""
    def __init__(self, d):
        self.d = d
        self.status = ST.get(d['status'], '?')
        self.sig = d['sig']
        if self.status == 'RUNNING':
            self.status = 'SIGNAL' if self.sig else 'VANISHED'
        self.msg = d['msg']
        self.runs = d['runs']
        self.tree = d['tree']
        self._ev = None

    def __getattr__(self, k):
        try:
            return self.__dict__['d'][k]
        except KeyError:
            raise AttributeError(k)

    @property
    def events(self):
        if self._ev is None:
            self._ev = parse_log(self.d.get('log', ''))
        return self._ev

    def run_tree(self, i):
        r = self.runs[i]
        return r['tree'] if 'tree' in r else self.tree

    @property
    def bad(self):
        """Abnormal ending of the process itself, as text, or None."""
        if self.status in ('DONE', 'KILLED'):
            return None
        if self.status == 'SIGNAL':
            return 'died on signal %d' % self.sig
        return '%s: %s' % (self.status, self.msg)

    @property
    def sim_problem(self):
        return self.status in ('SIMERROR', 'FSLIMIT')


class Sim:
    def __init__(self, binary, scratch_base=None):
        self.binary = binary
        base = scratch_base or ('/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None)
        self.scratch = tempfile.mkdtemp(prefix='armsim', dir=base)
        self.p = None
        self.alt = None
        self.count = 0
        self.procs = 0
        self.stats = None

    def start(self):
        env = {'LC_ALL': 'C.UTF-8', 'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent'}
        self.p = subprocess.Popen([self.binary, self.scratch + '/s'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')

    def raw(self, sc):
        if self.p is None or self.p.poll() is not None:
            self.start()
        msg = encode(sc)
        self.p.stdin.write(struct.pack('<I', len(msg)) + msg)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise SimError('server died (exit %s)' % self.p.wait())
        n = struct.unpack('<I', h)[0]
        data = self.p.stdout.read(n)
        if len(data) < n:
            raise SimError('server died mid-reply')
        return data

    def run(self, sc):
        if sc.get('alt'):
            # the same tree built with other initial contents of automatic variables
            if self.alt is None:
                self.alt = Sim(self.binary + '_alt', os.path.dirname(self.scratch))
            self.alt.stats = self.stats
            return self.alt.run({k: v for k, v in sc.items() if k != 'alt'})
        data = self.raw(sc)
        d = json.loads(data.decode('ascii'))
        self.count += 1
        self.procs += len(d['procs'])
        res = [Proc(p) for p in d['procs']]
        for p in res:
            if p.status == 'SIMERROR':
                raise SimError(p.msg)
            if self.stats is not None:
                self.stats.add(p)
        return res

    def close(self):
        if self.alt is not None:
            self.alt.close()
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=10)
            except Exception:
                self.p.kill()
            self.p = None
        shutil.rmtree(self.scratch, ignore_errors=True)
