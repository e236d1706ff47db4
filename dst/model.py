"""Reference model of what a program's file operations leave on disk (property C11).

Programs are operation lists; render() writes them as armips source, execute() computes the
resulting files from the documented meaning of each directive, sharing nothing with armips.
"""
import re
import struct

LITTLE = ['.psx', '.ps2', '.psp', '.gba', '.nds', '.3ds', '.arm.little']
BIGE = ['.n64', '.rsp', '.saturn', '.arm.big']


HERE = {'@org': 'org()', '@orga': 'orga()', '@hdr': 'headersize()'}


class Machine:
    def __init__(self, files):
        self.files = {k: bytearray(v.encode('latin-1')) for k, v in files.items()}
        self.inputs = files
        self.cur = None
        self.hdr = 0
        self.pos = 0
        self.big = False
        self.word = 4
        self.labels = {}
        self.writing = True
        self.table = None
        self.session = 0
        self.regions = {}      # session -> (address after the region's own content, bytes used by autoregions)
        self.used = {}
        self.macros = {}
        self.frames = []
        self.calls = 0

    def value(self, v):
        """Value of an operand: a number, [source text, value], or a name ($parameter, %label of the macro, @position, label)."""
        while isinstance(v, str) and v[0] == '$':
            v = self.frames[-1][1][v[1:]]
        if isinstance(v, list):
            return v[1]
        if isinstance(v, str):
            if v[0] == '%':
                return self.labels.get((self.frames[-1][0], v[1:]), 0)
            return {'@org': self.hdr + self.pos, '@orga': self.pos, '@hdr': self.hdr}[v] if v[0] == '@' else self.labels.get(v, 0)
        return v

    def put(self, data):
        f = self.files[self.cur]
        if self.writing and data:
            if len(f) < self.pos:
                f.extend(b'\0' * (self.pos - len(f)))
            f[self.pos:self.pos + len(data)] = data
        self.pos += len(data)

    def ints(self, vals, size):
        out = b''
        for v in vals:
            if isinstance(v, str) and v[0] == '"':
                for c in v[1:-1]:
                    out += ord(c).to_bytes(size, 'big' if self.big else 'little')
                continue
            v = self.value(v)
            for v in v if isinstance(v, list) else [v]:
                out += (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if self.big else 'little')
        self.put(out)

    def run(self, ops):
        for op in ops:
            self.step(op)

    def step(self, op):
        k = op[0]
        if k == 'arch':
            self.big = op[1] in BIGE
            self.word = 2 if op[1] == '.saturn' else 4
        elif k in ('create', 'open', 'copy'):
            self.session += 1
            self.cur = op[-2]
            self.hdr = op[-1]
            self.pos = 0
            if self.writing:
                if k == 'create':
                    self.files[self.cur] = bytearray()
                elif k == 'copy':
                    self.files[self.cur] = bytearray(self.files[op[1]])
            elif self.cur not in self.files:
                self.files[self.cur] = bytearray()
        elif k == 'elf':
            # the file is read before anything is written; addresses map linearly to its one segment
            self.session += 1
            self.cur = op[2]
            self.hdr = op[3]
            self.pos = op[4]
            self.files[self.cur] = bytearray(self.inputs[op[1]].encode('latin-1'))
        elif k == 'seg':
            self.hdr, self.pos = op[1], op[2]
        elif k == 'close':
            self.cur = None
        elif k in ('org', 'orga'):
            self.pos = op[1]
        elif k == 'hdr':
            self.hdr = op[1]
        elif k == 'int':
            w = self.word
            self.ints(op[2], {'.byte': 1, '.db': 1, '.dcb': 1, '.d8': 1, '.d16': 2, '.d32': 4, '.d64': 8, '.word': w, '.dcd': w, '.dw': w, '.halfword': w // 2, '.hword': w // 2,
                              '.dcw': w // 2, '.dh': w // 2, '.dword': w * 2, '.doubleword': w * 2, '.dcq': w * 2, '.dd': w * 2}[op[1]])
        elif k == 'float':
            f = ('>' if self.big else '<') + ('f' if op[1] == '.float' else 'd')
            self.put(b''.join(struct.pack(f, v) for v in op[2]))
        elif k == 'str':
            self.put(op[2].encode('latin-1') + (b'\0' if op[1] in ('.asciiz', '.sjis') else b''))
        elif k == 'table':
            self.table = op
        elif k == 'tstr':
            ent = dict(self.table[2])
            s, out = op[2], b''
            while s:
                n = max(n for n in range(1, 5) if s[:n] in ent and len(s[:n]) == n)
                out += bytes.fromhex(ent[s[:n]])
                s = s[n:]
            if op[1] in ('.string', '.str'):
                out += bytes.fromhex(self.table[3])
            self.put(out)
        elif k == 'fill':
            self.put(bytes([(op[2] or 0) & 255]) * op[1])
        elif k in ('align', 'aligna'):
            a = self.pos + (self.hdr if k == 'align' else 0)
            self.put(bytes([(op[1] and op[2] or 0) & 255]) * (-a % (op[1] or 4)))
        elif k == 'skip':
            self.pos += op[1]
        elif k == 'incbin':
            d = self.inputs[op[1]].encode('latin-1')
            s = op[2] or 0
            self.put(d[s:s + op[3]] if op[3] is not None else d[s:])
        elif k == 'area':
            p = self.pos
            self.run(op[3])
            if op[2] is not None:
                self.put(bytes([op[2] & 255]) * (p + op[1] - self.pos))
        elif k == 'label':
            self.labels[op[1]] = self.hdr + self.pos
        elif k == 'mlabel':
            self.labels[(self.frames[-1][0], op[1])] = self.hdr + self.pos
        elif k == 'plabel':
            # a label whose name is a parameter is called what the caller called it
            self.labels[self.frames[-1][1][op[1]]] = self.hdr + self.pos
        elif k == 'mdef':
            self.macros[op[1].lower()] = op[2], op[3]
        elif k == 'mcall':
            self.calls += 1
            params, body = self.macros[op[1].lower()]
            args = [[None, self.value(a)] if not isinstance(a, str) or a[0] in '$%' else a for a in op[2]]
            self.frames.append((self.calls, dict(zip(params, args))))
            self.run(body)
            self.frames.pop()
        elif k == 'mequ':
            self.labels[(self.frames[-1][0], op[1])] = self.value(op[2])
        elif k in ('equ', 'efunc'):
            pass
        elif k == 'include' or k == 'macro':
            self.run(op[2])
        elif k == 'func':
            self.labels[op[1]] = self.hdr + self.pos
            self.run(op[2])
        elif k == 'region':
            # at most one per opened file, so autoregions go there, in order, after its own content
            p = self.pos
            self.run(op[3])
            used = self.regions.get(self.session, (0, 0))[1]
            self.regions[self.session] = (self.pos, used)
            if op[2] is not None:
                self.pos += used
                self.put(bytes([op[2] & 255]) * (p + op[1] - self.pos))
            self.pos = p + op[1]
        elif k == 'autoregion':
            back = self.pos
            u = self.used.get(self.session, 0)
            self.pos = self.regions.get(self.session, (0, 0))[0] + u
            start = self.pos
            self.run(op[1])
            self.used[self.session] = u + self.pos - start
            self.pos = back
        elif k == 'if':
            c = op[1]
            if isinstance(c, list):
                a, b = self.value(c[1]), c[2]
                c = {'==': a == b, '<': a < b, '>=': a >= b}[c[0]]
            self.run(op[2] if c else op[3])
        elif k == 'autoseek':
            pass


def execute(files, ops):
    """Two passes: addresses of labels first, then contents."""
    labels, regions = {}, {}
    for k in range(4):
        m2 = Machine(files)
        m2.writing = k == 3
        m2.labels, m2.regions = labels, regions
        m2.run(ops)
        regions = {s: (e, m2.used.get(s, 0)) for s, (e, u) in m2.regions.items()}
    return {k: bytes(v).decode('latin-1') for k, v in m2.files.items()}, m2.labels


def render(ops, files, state=None):
    """Source lines; include contents are added to files."""
    if state is None:
        state = {'hdr': 0, 'inc': 0}
    o = []
    for op in ops:
        k = op[0]
        if k == 'arch':
            o.append(op[1])
        elif k == 'create':
            state['hdr'] = op[2]
            o.append('.create "%s",0x%X' % (op[1], op[2]))
        elif k == 'open':
            state['hdr'] = op[2]
            o.append('.open "%s",0x%X' % (op[1], op[2]))
        elif k == 'copy':
            state['hdr'] = op[3]
            o.append('.open "%s","%s",0x%X' % (op[1], op[2], op[3]))
        elif k == 'elf':
            state['hdr'] = op[3]
            o.append('.loadelf "%s"' % op[1] + (',"%s"' % op[2] if op[2] != op[1] else ''))
        elif k == 'seg':
            state['hdr'] = op[1]
            o.append('.org 0x%X' % (op[1] + op[2]))
        elif k == 'close':
            o.append('.close')
        elif k == 'org':
            o.append('.org 0x%X' % (state['hdr'] + op[1]))
        elif k == 'orga':
            o.append('.orga 0x%X' % op[1])
        elif k == 'hdr':
            state['hdr'] = op[1]
            o.append('.headersize 0x%X' % op[1])
        elif k == 'int':
            o.append('%s %s' % (op[1], ','.join(text(v) for v in op[2])))
        elif k == 'float':
            o.append('%s %s' % (op[1], ','.join(str(v) for v in op[2])))
        elif k == 'table':
            files[op[1]] = '\n'.join('%s=%s' % (h, s) for s, h in op[2]) + '\n/%s\n' % op[3]
            o.append('.loadtable "%s"' % op[1])
        elif k == 'tstr':
            o.append('%s "%s"' % (op[1], op[2]))
        elif k == 'str':
            o.append('%s "%s"' % (op[1], op[2]))
        elif k == 'fill':
            o.append('.fill %d' % op[1] + (',%d' % op[2] if op[2] is not None else ''))
        elif k in ('align', 'aligna'):
            o.append('.' + k + (' %d' % op[1] if op[1] else '') + (',%d' % op[2] if op[1] and op[2] is not None else ''))
        elif k == 'skip':
            o.append('.skip %d' % op[1])
        elif k == 'incbin':
            o.append('.%s "%s"' % (op[4] if len(op) > 4 else 'incbin', op[1]) + (',%d' % op[2] if op[2] is not None else '') + (',%d' % op[3] if op[3] is not None else ''))
        elif k == 'area':
            o.append('.area %d%s' % (op[1], '' if op[2] is None else ',%d' % op[2]))
            o += render(op[3], files, state)
            o.append('.endarea')
        elif k in ('label', 'mlabel', 'plabel'):
            o.append(op[1] + ':')
        elif k == 'mdef':
            o += ['.macro ' + ','.join([op[1]] + op[2])] + render(op[3], files, state) + ['.endmacro']
        elif k == 'mcall':
            o.append((op[1] + ' ' + ','.join(text(a) for a in op[2])).rstrip())
        elif k == 'mequ':
            o.append('%s equ %s' % (op[1], text(op[2])))
        elif k == 'equ':
            o.append('%s equ %s' % (op[1], op[2]))
        elif k == 'efunc':
            o.append('.expfunc %s,%s' % (op[1], op[2]))
        elif k == 'include':
            files[op[1]] = '\n'.join(render(op[2], files, state)) + '\n'
            o.append('.include "%s"' % op[1])
        elif k == 'macro':
            o += ['.macro %s' % op[1]] + render(op[2], files, state) + ['.endmacro', op[1]]
        elif k == 'func':
            o += ['.func ' + op[1]] + render(op[2], files, state) + ['.endfunc']
        elif k == 'region':
            if op[4]:
                o.append('.defineregion org(),%d%s' % (op[1], '' if op[2] is None else ',%d' % op[2]))
                continue
            o.append('.region %d%s' % (op[1], '' if op[2] is None else ',%d' % op[2]))
            o += render(op[3], files, state)
            o.append('.endregion')
        elif k == 'autoregion':
            o += ['.autoregion'] + render(op[1], files, state) + ['.endautoregion']
        elif k == 'if':
            h = state['hdr']
            a = render(op[2], files, state)
            b = render(op[3], files, state)
            c = '%s %s %d' % (text(op[1][1]), op[1][0], op[1][2]) if isinstance(op[1], list) else str(op[1])
            # a condition that depends on an address is only known once addresses are
            c = [c, 'org()*0 + (%s)' % c, 'orga() < 0 ? !(%s) : (%s)' % (c, c)][op[4] if len(op) > 4 else 0]
            o += ['.if ' + c] + a + (['.else'] + b if b or len(op) < 5 else []) + ['.endif']
    return o


def text(v):
    if isinstance(v, list):
        return v[0]
    if isinstance(v, str) and v[0] in '$%':
        return v[1:]
    return HERE.get(v, v) if isinstance(v, str) else str(v)


def expr(rng, d=2, files=None, lim=1 << 20):
    """[text, value] of a random constant expression."""
    k = rng.randrange(12) if d else 0
    if k < 3:
        v = rng.choice([0, 1, 2, 3, 4, 7, 8, 255, 256, rng.randrange(lim)])
        return [rng.choice(['%d', '0x%X', '0x%x', '%d'] if v else ['0']) % (() if not v else v), v]
    a, x = expr(rng, d - 1, files, lim)
    b, y = expr(rng, d - 1, files, lim)
    if k < 6:
        o = rng.choice(['+', '-', '&', '|', '^', '==', '!=', '<', '>', '<=', '>='])
        v = {'+': x + y, '-': x - y, '&': x & y, '|': x | y, '^': x ^ y, '==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]
        return ['(%s%s%s%s%s)' % (a, rng.choice(['', ' ']), o, ' ' if o in '-<>' else '', b), int(v)]
    if k == 6:
        return ['(%s << %d)' % (a, y % 5), x << y % 5]
    if k == 7:
        return ['(%s ? %s : %d)' % (a, b, d), y if x else d]
    if k == 8:
        return ['min(%s,%s)' % (a, b), min(x, y)]
    if k == 9:
        return ['max(%s, %s, %d)' % (a, b, d), max(x, y, d)]
    if k == 10 and files:
        f = rng.choice(files)
        n = rng.choice([1, 2, 4, 8])
        if len(f[1]) >= n:
            o = rng.choice([0, len(f[1]) - n, rng.randrange(len(f[1]) - n + 1)])
            if n == 8:
                return ['(readu64("%s",%d)&0xFFFFFF)' % (f[0], o), int.from_bytes(f[1][o:o + 3].encode('latin-1'), 'little')]
            g = rng.random() < 0.5
            return ['read%s%d("%s",%d)' % ('s' if g else 'u', 8 * n, f[0], o), int.from_bytes(f[1][o:o + n].encode('latin-1'), 'little', signed=g)]
        return ['filesize("%s")' % f[0], len(f[1])]
    return ['abs(%s)' % a, abs(x)]


POOL = ['l', 'loop', 'end', 'data', 'start']


def macros(rng, globs):
    """(operations defining macros, functions that make a call of one)."""
    defs, calls, plain = [], [], []
    for i in range(rng.randrange(1, 5)):
        name = rng.choice(['mm%d', 'Put%d', 'entry_%d']) % i
        params = rng.sample(['p', 'q', 'name', 'val', 'x1'], rng.randrange(0, 3))
        kind = rng.choice(['@@', '@', '', ''])
        labs = [kind + l for l in rng.sample(POOL + ['z%d' % i], rng.randrange(0, 4))]
        own = 'name' in params and kind != '@@' and rng.random() < 0.7       # defines a label the caller names
        vals = [q for q in params if not (q == 'name' and own)]
        inner = plain if kind != '@@' and rng.random() < 0.5 else []
        equ = rng.random() < 0.2
        others = [g for g in globs if g not in labs]
        seen = {'cond': False}

        def val():
            w = rng.random()
            if vals and w < 0.45:
                return '$' + rng.choice(vals)
            if labs and w < 0.75:
                return '%' + rng.choice(labs)
            if equ and w < 0.85:
                return '%eq'
            if others and w < 0.93:
                return rng.choice(others)
            return rng.choice([rng.randrange(256), expr(rng), '@org'])

        def body(n, depth=0):
            o = []
            for _ in range(n):
                w = rng.random()
                if w < 0.5 or depth > 1:
                    o.append(['int', rng.choice(['.d32', '.d64', '.d32']), [val() for _ in range(rng.randrange(1, 4))]])
                elif w < 0.62:
                    o.append(rng.choice([['str', '.ascii', 'm%d' % i], ['fill', rng.randrange(0, 9), rng.randrange(256)], ['align', 4, 0xEE]]))
                elif w < 0.75 and inner:
                    o.append(rng.choice(inner)(lambda: ('$' + rng.choice(vals)) if vals and rng.random() < 0.6 else expr(rng)))
                    seen['cond'] = True
                elif vals:
                    c = [rng.choice(['==', '<', '>=']), '$' + rng.choice(vals), rng.choice([0, 1, 2, 4, 255])]
                    o.append(['if', c, body(rng.randrange(1, 3), depth + 1), body(rng.randrange(0, 2), depth + 1), rng.randrange(3)])
                    seen['cond'] = True
                else:
                    o.append(['int', '.byte', [rng.randrange(256), expr(rng)]])
            return o
        b = body(rng.randrange(1, 5))
        for l in labs:
            b.insert(rng.randrange(len(b) + 1), ['mlabel', l])
        if own:
            b.insert(rng.randrange(len(b) + 1), ['plabel', 'name'])
        if equ:
            b.insert(0, ['mequ', 'eq', '$' + rng.choice(vals) if vals and rng.random() < 0.5 else rng.randrange(1 << 20)])
        defs.append(['mdef', name, params, b])

        def call(arg, names=None, labels=(), name=name, params=params, own=own, fixed=own or equ, cond=seen['cond']):
            """A call with arguments of arg(); names() makes a label name, and is missing where a label may not be defined."""
            if fixed and names is None:
                return None
            args = []
            for q in params:
                if q == 'name' and own:
                    args.append(names())
                elif labels and not cond and rng.random() < 0.4:
                    args.append(rng.choice(labels))
                else:
                    args.append(arg())
            return ['mcall', name.upper() if rng.random() < 0.1 else name, args]
        calls.append(call)
        if not own and not equ:
            plain.append(call)
    return defs, calls


def size_of(ops, m):
    """Upper bound of the space the operations take (areas need a sufficient size)."""
    n = 0
    for op in ops:
        k = op[0]
        if k == 'int':
            n += sum(8 * len(v[1]) if isinstance(v, list) and isinstance(v[1], list) else 8 for v in op[2])
            n += sum(8 * len(v) for v in op[2] if isinstance(v, str) and v[0] == '"')
        elif k == 'float':
            n += 8 * len(op[2])
        elif k in ('str', 'tstr'):
            n += 3 * len(op[2]) + 3
        elif k in ('fill', 'skip'):
            n += op[1]
        elif k in ('align', 'aligna'):
            n += op[1] or 4
        elif k == 'incbin':
            n += op[3] if op[3] is not None else op[5]
        elif k == 'area':
            n += op[1]
        elif k in ('func', 'include', 'macro'):
            n += size_of(op[2], m)
        elif k == 'mcall':
            n += 1 << 30
        elif k == 'if':
            n += max(size_of(op[2], m), size_of(op[3], m))
    return n


def make(rng, big=False, elf=True):
    """(files, ops): a random accepted program of this subset."""
    files = {}
    bins = []
    for i in range(rng.randrange(1, 4)):
        n = rng.choice([1, 5, 64, 300]) if not big else rng.choice([64, 5000, 20000, 70000, 140000])
        files['in%d.dat' % i] = rng.randbytes(n).decode('latin-1')
        bins.append(('in%d.dat' % i, n))
    nf = rng.randrange(1, 4)
    existing = []
    outs = ['o%d.bin' % i for i in range(nf)]
    for f in outs:
        if rng.random() < 0.6:
            files[f] = rng.randbytes(rng.choice([0, 3, 50, 500, 5000])).decode('latin-1')
            existing.append(f)
    labels = []
    st = {'inc': 0, 'mac': 0, 'lab': 0, 'region': False}
    table = None
    if rng.random() < 0.25:
        ent = []
        for s in rng.sample(['a', 'b', 'c', 'X', '1', ' ', 'ab', 'bc', 'abc', '1X', 'caX'], 9) + ['d']:
            ent.append([s, rng.choice(['%02X' % rng.randrange(256), '%04X' % rng.randrange(65536)])])
        table = ['table', 'enc.tbl', ent, '%02X' % rng.randrange(256)]

    mdefs, mcalls, equs, globs = [], [], [], []
    if rng.random() < 0.4:
        globs = rng.sample(POOL, rng.randrange(0, 3))
        mdefs, mcalls = macros(rng, globs)
    if rng.random() < 0.3:
        for i in range(rng.randrange(1, 4)):
            if rng.random() < 0.6:
                vs = [rng.randrange(1 << 16) for _ in range(rng.choice([1, 1, 2, 3]))]
                mdefs.append(['equ', 'eq%d' % i, ','.join(map(str, vs)), vs])
                equs.append(lambda i=i, vs=vs: ['eq%d' % i, vs])
            else:
                t, f = rng.choice([('a*2 + b', lambda a, b: a * 2 + b), ('max(a,b) - min(a,b)', lambda a, b: abs(a - b)), ('a > b ? a : b', max),
                                   ('a <= 0 ? b : fn%d(a >> 1,b+1)' % i, lambda a, b: b + a.bit_length() if a > 0 else b)])
                mdefs.append(['efunc', 'fn%d(a,b)' % i, t])

                def ecall(i=i, f=f):
                    (a, x), (b, y) = expr(rng, 1, None, 4096), expr(rng, 1, None, 4096)
                    return ['fn%d(%s,%s)' % (i, a, b), f(x, y)]
                equs.append(ecall)
    cfiles = [(k, v) for k, v in files.items() if k.startswith('in')]

    def mcall(depth):
        def name():
            st['lab'] += 1
            labels.append('lab%d' % st['lab'])
            return labels[-1]
        ok = [l for l in labels]
        return rng.choice(mcalls)(lambda: expr(rng, 2, cfiles), name if depth == 0 else None, ok)

    def tstr():
        n = rng.randrange(1, 12)
        s = ''.join(rng.choice([e for e, h in table[2]]) for _ in range(n))
        ent = {e for e, h in table[2]}
        t = s
        while t:
            # every position must have a match
            k = [n for n in range(1, 5) if t[:n] in ent and len(t[:n]) == n]
            if not k:
                return ['tstr', '.string', 'd']
            t = t[max(k):]
        return ['tstr', rng.choice(['.string', '.str', '.stringn', '.strn']), s]

    def data(n, depth=0):
        o = []
        for _ in range(n):
            k = rng.randrange(15)
            if k == 13:
                if table and rng.random() < 0.6:
                    o.append(tstr())
                else:
                    o.append(['float', rng.choice(['.float', '.double']), [rng.choice([0.5, -2.25, 1e10, 3.140625, 0.0, 7, -3, 123456.75]) for _ in range(rng.randrange(1, 4))]])
            elif k == 14 and depth < 2:
                if mcalls and not st['region'] and rng.random() < 0.8:
                    many = (rng.choice([1, 1, 2, 3, 12]) if rng.random() < 0.92 else rng.choice([30, 70, 300])) if depth == 0 else 1
                    o += [c for c in [mcall(depth) for _ in range(many)] if c]
                elif rng.random() < 0.5:
                    st['mac'] += 1
                    o.append(['macro', 'mac%d' % st['mac'], [x for x in data(rng.randrange(1, 4), 2) if x[0] != 'label']])
                else:
                    st['lab'] += 1
                    o.append(['func', 'fun%d' % st['lab'], [x for x in data(rng.randrange(1, 4), 2)]])
                    labels.append('fun%d' % st['lab'])
            elif k < 4:
                d = rng.choice(['.byte', '.d8', '.d16', '.d32', '.d64', '.word', '.halfword', '.dword', '.db', '.hword', '.dcb', '.dcw', '.dcd', '.dcq', '.doubleword', '.dh', '.dw', '.dd'])
                vals = [rng.choice([rng.randrange(256), rng.randrange(1 << 31), -rng.randrange(100)]) for _ in range(rng.randrange(1, 6))]
                if labels and d in ('.d32', '.d64') and rng.random() < 0.5:
                    vals.append(rng.choice(labels))
                if d in ('.d32', '.d64') and rng.random() < 0.3:
                    vals.insert(rng.randrange(len(vals) + 1), rng.choice(['@org', '@orga', '@hdr']))
                if rng.random() < 0.3:
                    vals.insert(rng.randrange(len(vals) + 1), expr(rng, 3, cfiles))
                if equs and rng.random() < 0.5:
                    vals.insert(rng.randrange(len(vals) + 1), rng.choice(equs)())
                if d == '.d64' and rng.random() < 0.4:
                    vals.append(rng.choice([rng.randrange(1 << 63), -rng.randrange(1 << 63)]))
                if rng.random() < 0.1:
                    vals.insert(rng.randrange(len(vals) + 1), '"%s"' % ''.join(rng.choice('abcXYZ 09') for _ in range(rng.randrange(1, 9))))
                o.append(['int', d, vals])
            elif k == 4:
                o.append(['str', rng.choice(['.ascii', '.asciiz', '.asciiz', '.sjis', '.sjisn']), ''.join(rng.choice('abcdefgXYZ 123') for _ in range(rng.randrange(1, 30)))])
            elif k == 5:
                o.append(['fill', rng.choice([0, 1, 7, 127, 128, 129, 256, 300]) if not big else rng.randrange(9000), rng.choice([None, rng.randrange(256), rng.randrange(256)])])
            elif k == 6:
                o.append([rng.choice(['align', 'aligna']), rng.choice([0, 2, 4, 8, 16, 64, 256]), rng.choice([None, rng.randrange(256), rng.randrange(256)])])
            elif k == 7:
                o.append(['skip', rng.randrange(1, 80)])
            elif k == 8:
                b, n2 = rng.choice(bins)
                s = rng.choice([rng.randrange(n2), max(0, n2 - rng.randrange(1, 40))])
                w = rng.random()
                o.append(['incbin', b, None if w < 0.15 else s, None if w < 0.3 else rng.randrange(0, n2 - s + 1), rng.choice(['incbin', 'import']), n2])
            elif k == 9 and depth < 2 and not st['region']:
                sub = data(rng.randrange(0, 4), depth + 1)
                if size_of(sub, None) >= 1 << 30:       # what a macro call takes is not known here
                    sub = []
                o.append(['area', size_of(sub, None) + rng.choice([0, 1, 63, 64, 65, 130, 200]), rng.choice([None, rng.randrange(256)]), sub])
            elif k == 10:
                st['lab'] += 1
                l = 'lab%d' % st['lab']
                o.append(['label', l])
                labels.append(l)
            elif k == 11 and depth < 2:
                if rng.random() < 0.5:
                    st['inc'] += 1
                    o.append(['include', 'i%d.asm' % st['inc'], data(rng.randrange(1, 4), depth + 1)])
                else:
                    # labels inside conditional blocks would be conditional themselves
                    c = rng.randrange(2)
                    sub = [x for x in data(2, 2) if x[0] != 'label']
                    sub2 = [x for x in data(2, 2) if x[0] != 'label']
                    o.append(['if', c, sub, sub2, rng.randrange(3)])
            elif depth == 0:
                # without seeks no autoregion starts out at an address inside the region, which it would keep
                if st['region']:
                    o.append(['autoregion', simple(rng.randrange(1, 4))])
                elif rng.random() < 0.25:
                    o.append(['hdr', rng.choice([0, 0x1000, 0x8000000, 0xFFFFFF00])])
                else:
                    o.append([rng.choice(['org', 'orga']), rng.choice([0, rng.randrange(64), rng.randrange(600), rng.randrange(600) if not big else rng.randrange(200000)])])
        return o

    def simple(n):
        """Data whose size does not depend on where it lies."""
        o = [x for x in data(n, 2) if x[0] in ('int', 'str', 'tstr', 'float', 'incbin', 'label', 'fill')]
        return o + [['int', '.byte', [rng.randrange(256)]]]

    ops = [['arch', rng.choice(LITTLE + BIGE)]]
    if table:
        ops.append(table)
    ops += mdefs
    for s in range(rng.randrange(1, 5)):
        if rng.random() < 0.4:
            ops.append(['arch', rng.choice(LITTLE + BIGE)])
        hdr = rng.choice([0, 0x100, 0x8000000, 0x80000000, 0x1234, 0xFFFFF000, 0x1FFFFFF00])
        f = rng.choice(outs)
        k = rng.random()
        if elf and rng.random() < 0.12:
            from .gen import make_elf
            name = 'prog%d.elf' % s
            base = 4 * rng.randrange(0x2000000)
            nseg = rng.choice([1, 1, 2, 3])
            # segments that lie one after the other in the file and in memory: data may run from one into the next
            join = nseg > 1 and rng.random() < 0.5
            sizes = rng.choice([(0x40, 0x80, 0xC0), (0x2000, 0x40)] if join else [(0x40, 0x80, 0xC0), (0x44, 0x1C, 0x104), (0x2000, 0x44)])
            files[name], addrs = make_elf(rng, big=rng.random() < 0.3, base=base, nsec=rng.randrange(1, 4), nseg=nseg, sizes=sizes, join=join)
            total = sum(n for a, n, *o in addrs)
            first = 96 if nseg == 1 else addrs[0][2]
            ops += [['arch', rng.choice(['.psp', '.ps2', '.psx', '.n64'])], ['elf', name, rng.choice([name, 'patched%d.elf' % s]), base - first, first]]
            for _ in range(rng.randrange(0, 4)):
                if nseg == 1:
                    ops.append(['org', 96 + rng.randrange(total - 26)])
                else:
                    i = rng.choice([i for i, x in enumerate(addrs) if x[1] > 26])
                    a, n, o = addrs[i]
                    last = i == len(addrs) - 1
                    ops.append(['seg', a - o, o + (rng.randrange(n - 26, n) if join and not last else rng.choice([0, rng.randrange(n - 26)]))])
                for _ in range(rng.randrange(1, 3)):
                    ops.append(rng.choice([['int', '.byte', [rng.randrange(256) for _ in range(rng.randrange(1, 8))]], ['int', '.d32', [rng.randrange(1 << 32), '@org']],
                                           ['str', '.ascii', 'patch'], ['fill', rng.randrange(1, 13), rng.randrange(256)]]))
            ops.append(['close'])
            continue
        if k < 0.45 and existing:
            ops.append(['open', rng.choice(existing), hdr])
        elif k < 0.75 or not bins:
            ops.append(['create', f, hdr])
        else:
            src = rng.choice([b for b, n in bins] + [e for e in existing if e != f])
            ops.append(['copy', src, f, hdr])
        if rng.random() < 0.12:
            st['region'] = True
            body = data(rng.randrange(1, 9))
            sub = simple(rng.randrange(0, 3)) if rng.random() < 0.7 else []
            if rng.random() < 0.3:
                inner = simple(1) if rng.random() < 0.5 else []
                sub = [['area', size_of(inner, None) + rng.choice([0, 1, 16, 70]), rng.randrange(256), inner]] + sub
            need = size_of(sub, None) + sum(size_of(x[1], None) for x in body if x[0] == 'autoregion')
            reg = ['region', need + rng.choice([0, 3, 64, 65, 200]) + 1, rng.choice([None, rng.randrange(256)]), sub, not sub and rng.random() < 0.5]
            at = rng.randrange(len(body) + 1)
            body.insert(at, reg)
            if rng.random() < 0.2:
                body.insert(at, ['area', 0, rng.randrange(256), []])
            ops += body
            st['region'] = False
        else:
            ops += data(rng.randrange(1, 12))
        ops += [['label', g] for g in globs]
        globs = []
        if rng.random() < 0.85:
            # otherwise the next open, or the end of the program, closes it with a warning
            ops.append(['close'])
    drop_undefined(ops)
    return files, ops


def drop_undefined(ops):
    """A name may only be referenced if some operation defines it; drop the others."""
    defined = set()
    macs = {}

    def lists(op):
        return [x for x in op[1:] if isinstance(x, list) and x and isinstance(x[0], list) and op[0] not in ('int', 'mcall', 'table')]

    def walk(os):
        for op in os:
            if op[0] in ('label', 'func'):
                defined.add(op[1])
            elif op[0] in ('equ', 'efunc'):
                defined.add(op[1].split('(')[0])
            elif op[0] == 'mdef':
                macs[op[1].lower()] = op
            elif op[0] == 'mcall' and op[1].lower() in macs:
                m = macs[op[1].lower()]
                if any(x[0] == 'plabel' for x in m[3]):
                    defined.add(op[2][m[2].index('name')])
            for x in lists(op):
                walk(x)
    walk(ops)

    def good(v):
        if isinstance(v, list):
            return all(x in defined for x in re.findall(r'(?:eq|fn)\d', v[0]))
        return not isinstance(v, str) or v[0] in '@"$%' or v in defined

    def fix(os):
        os[:] = [op for op in os if op[0] != 'mcall' or op[1].lower() in macs]
        for op in os:
            if op[0] == 'int':
                op[2] = [v for v in op[2] if good(v)] or [1]
            elif op[0] == 'mcall':
                op[2] = [v if good(v) else 1 for v in op[2]]
            for x in lists(op):
                fix(x)
    fix(ops)
