"""Workload generator: whole armips programs with their input files and command line.

A program is a JSON-able dict
  files   initial tree, args command line, outputs paths the program names as outputs,
  inputs  paths it reads, raw True if every output is a raw file (no ELF),
  tags    features used (for coverage accounting)
Everything is drawn from the random.Random passed in; nothing else is consulted.
"""
import re
import struct

from . import insn

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lamb', 'mu', 'nu', 'xi']
ARM_ARCH = ['.gba', '.nds', '.3ds', '.arm.big', '.arm.little']
MIPS_ARCH = ['.psx', '.ps2', '.psp', '.n64', '.rsp']
SH_ARCH = ['.saturn', '.32x']


def make_elf(rng, big=False, base=0x08804000, nsec=2, nseg=1, sizes=(0x40, 0x80, 0xC0), join=False, tabfirst=False):
    """A small MIPS ELF executable; (data, [(address, size of a section)]), with several segments also the section's file offset."""
    e = '>' if big else '<'
    segs = [[rng.randbytes(rng.choice(sizes)) for _ in range(nsec if k == 0 else rng.randrange(1, 3))] for k in range(nseg)]
    bss = nseg > 1 and rng.random() < 0.5
    nsec = sum(len(x) for x in segs) + bss
    names = b'\0' + b'.shstrtab\0' + b''.join(b'.s%d\0' % i for i in range(nsec))
    phoff = 52
    shnum = nsec + 2
    out = b'\0' * (52 + 32 * nseg)
    tabpos = len(out)
    if tabfirst:
        out += b'\0' * (40 * shnum)
    ph, secs, addrs = b'', [], []
    for k, g in enumerate(segs):
        out += b'\0' * (-len(out) % 16)
        off, n = len(out), sum(len(x) for x in g)
        if not k:
            first = off
        va = base + (off - first if join else 0x100000 * k)
        ph += struct.pack(e + 'IIIIIIII', 1, off, va, 0, n, n + (64 if bss and k == nseg - 1 else 0), 7, 16)
        for x in g:
            secs.append((1, 6, va + len(out) - off, len(out), len(x)))
            addrs.append((va + len(out) - off, len(x)) + ((len(out),) if nseg > 1 else ()))
            out += x
    if bss:
        secs.append((8, 3, secs[-1][2] + secs[-1][4], len(out), 64))
    stroff = len(out)
    out += names
    out += b'\0' * (-len(out) % 4)
    ident = b'\x7fELF' + bytes([1, 2 if big else 1, 1]) + b'\0' * 9
    eh = ident + struct.pack(e + 'HHIIIIIHHHHHH', 2, 8, 1, base, phoff, tabpos if tabfirst else len(out), 0, 52, 32, nseg, 40, shnum, shnum - 1)
    out = eh + ph + out[len(eh) + len(ph):]
    tab = struct.pack(e + '10I', *([0] * 10))
    npos = 1 + len(b'.shstrtab\0')
    for i, (t, fl, va, off, n) in enumerate(secs):
        tab += struct.pack(e + '10I', npos, t, fl, va, off, n, 0, 0, 4, 0)
        npos += len(b'.s%d\0' % i)
    tab += struct.pack(e + '10I', 1, 3, 0, 0, stroff, len(names), 0, 0, 1, 0)
    out = out[:tabpos] + tab + out[tabpos + len(tab):] if tabfirst else out + tab
    return out.decode('latin-1'), addrs


ELF_MACH = {'.gba': (40, 0), '.nds': (40, 0), '.3ds': (40, 0), '.arm.little': (40, 0), '.arm.big': (40, 1), '.ps2': (8, 0), '.psp': (8, 0),
            '.psx': (8, 0), '.n64': (8, 1), '.saturn': (42, 1)}


def make_obj(rng, mach, big, syms, externs=(), ctor=False, marker=None, sites=None, arm9=False, modes=None, zeros=None, sizes=None):
    """A relocatable ELF object. syms: [(name, kind, marker or None)] global symbols to define, kind 'func'/'object'/'notype'/'common'.

    With a source of marker words there are references the oracle can find; they are added to sites as (marker, [form, addend, thumb or None], symbol)."""
    e = '>' if big else '<'
    u32 = lambda v: struct.pack(e + 'I', v & 0xFFFFFFFF)
    text, data = b'', b''
    where = {}
    kinds = {'func': 2, 'object': 1, 'notype': 0, 'common': 1, 'bss': 1}
    bss = 0
    modes = {} if modes is None else modes      # what is known to be THUMB code or not
    thumb = set(n for n, k, m in syms if k == 'func' and mach == 40 and marker and rng.random() < 0.5)
    for name, kind, word in syms:
        if kind == 'common':
            where[name] = (0xFFF2, rng.choice([4, 4, 8, 16]) if zeros is not None else 4, rng.choice([4, 8, 12]))      # st_value is the alignment
            if zeros is not None:
                zeros.append((name, where[name][2]))
            continue
        if kind == 'bss':
            where[name] = (3, bss, rng.choice([4, 12, 40]))
            bss += where[name][2]
            zeros.append((name, where[name][2]))
            continue
        body = (u32(word) if word is not None else b'') + rng.randbytes(4 * rng.randrange(1, 5))
        if kind == 'func':
            half = b'\xC0\x46'[::-1 if big else 1] if name in thumb and rng.random() < 0.5 else b''
            where[name] = (1, len(text + half), len(body))
            text += half + body + half
        else:
            where[name] = (2, len(data), len(body))
            data += body
    reltext = reldata = b''
    text += b'\0' * 16
    data += b'\0' * 4
    names = [n for n, k, m in syms]
    allsyms = names + list(externs)
    index = {n: 2 + i for i, n in enumerate(allsyms)}      # 0 null, 1 section symbol of .data
    abs32 = {40: 2, 8: 2, 42: 1}[mach]
    rel = lambda off, sym, t: struct.pack(e + 'II', off, sym << 8 | t) + (struct.pack(e + 'i', 0) if mach == 42 else b'')
    # word relocations at the end of both sections, never on a symbol's own data
    pos = len(text) - 16
    for i in range(rng.randrange(0, 4)):
        n = rng.choice(allsyms) if allsyms and rng.random() < 0.8 else None
        if mach == 8 and n and where.get(n, (0,))[0] != 0xFFF2 and rng.random() < 0.4 and i < 2:
            text = text[:pos] + u32(0x3C040000) + u32(0x24840000 | rng.randrange(64)) + text[pos + 8:]
            reltext += rel(pos, index[n], 5) + rel(pos + 4, index[n], 6)
            pos += 8
            continue
        text = text[:pos] + u32(rng.randrange(64) * 4 if mach != 42 else 0) + text[pos + 4:]
        reltext += rel(pos, index[n] if n else 1, abs32)
        pos += 4
        if pos >= len(text):
            break
    if allsyms and rng.random() < 0.5:
        reldata += rel(len(data) - 4, index[rng.choice(allsyms)], abs32)
    for _ in range(rng.randrange(1, 6) if marker and allsyms else 0):
        n = rng.choice(allsyms)
        own = where.get(n, (0,))[0] in (1, 2)
        func = own and where[n][0] == 1 or not own and modes.get(n) is not None
        form = rng.choice({40: ['abs', 'abs'] + ['call', 'thmcall'] * func, 8: ['abs', 'hilo', 'hilo', 'call26'], 42: ['abs', 'abs', 'rel']}[mach])
        t = None if mach != 40 else n in thumb if own else modes.get(n)
        if form in ('call', 'thmcall') and not arm9 and t != (form == 'thmcall'):
            form = 'thmcall' if t else 'call'
        text += u32(marker())
        m = struct.unpack(e + 'I', text[-4:])[0]
        a = 4 * rng.randrange(-8, 60) if rng.random() < 0.5 else 0
        at = len(text)
        if form == 'hilo':
            a = rng.choice([0, 0, 4, 0x7FFC, 0x8000, 0xFFFC, 0x12348000, -4, -0x8000])
            text += u32(0x3C040000 | (a + 0x8000) >> 16 & 0xFFFF)
            if rng.random() < 0.4:
                text += u32(0)
            reltext += rel(at, index[n], 5) + rel(len(text), index[n], 6)
            text += u32(0x24840000 | a & 0xFFFF)
        elif form == 'call26':
            text += u32(0x0C000000 | a >> 2 & 0x3FFFFFF) + u32(0)
            reltext += rel(at, index[n], 4)
        elif form == 'call':
            text += u32(0xEB000000 | (a - 8) >> 2 & 0xFFFFFF)
            reltext += rel(at, index[n], rng.choice([28, 28 if t else 29]))
        elif form == 'thmcall':
            # the instruction may lie at an address that is not a multiple of four
            h = [0xF000 | (a - 4) >> 12 & 0x7FF, 0xF800 | (a - 4) >> 1 & 0x7FF]
            odd = rng.random() < 0.5
            h = [0x46C0] + h + [0x46C0] if odd else h
            text += b''.join(struct.pack(e + 'H', x) for x in h)
            reltext += rel(at + 2 * odd, index[n], 10)
            form += '2' * odd
        else:
            sect = own and where[n][0] == 2 and mach != 42 and rng.random() < 0.3       # by the section and an offset
            text += u32(a + (where[n][1] if sect else 0) if mach != 42 else 0)
            r = rel(at, 1 if sect else index[n], abs32 if form == 'abs' else 2)
            reltext += r[:8] + struct.pack(e + 'i', a) if mach == 42 else r
        sites.append((m, [form, a, t], n))
    modes.update((n, n in thumb) for n, k, m in syms if k == 'func')
    if sizes is not None:
        sizes += [(n, where[n][2], k == 'func') for n, k, m in syms if k != 'notype']
    bss += rng.choice([0, 0, 4, 24])
    init = u32(0) if ctor else b''
    strtab = b'\0'
    symtab = b'\0' * 16 + struct.pack(e + 'IIIBBH', 0, 0, 0, 3, 0, 2)
    for n in allsyms:
        kind = dict((a, b) for a, b, c in syms).get(n)
        sh, val, size = where.get(n, (0, 0, 0))
        symtab += struct.pack(e + 'IIIBBH', len(strtab), val | (n in thumb), size, 0x10 | kinds.get(kind, 0), 0, sh)
        strtab += n.encode() + b'\0'
    shnames = b'\0'
    secs = []      # name, type, flags, data, size, link, info, align, entsize

    def sec(name, typ, flags, d, link=0, info=0, align=4, ent=0, size=None):
        nonlocal shnames
        secs.append((len(shnames), typ, flags, d, len(d) if size is None else size, link, info, align, ent))
        shnames += name.encode() + b'\0'
    rt, rs, rn = (4, 12, '.rela') if mach == 42 else (9, 8, '.rel')
    sec('', 0, 0, b'', align=0)
    sec('.text', 1, 6, text)
    sec('.data', 1, 3, data, align=rng.choice([4, 4, 8, 16]))
    sec('.bss', 8, 3, b'', size=bss)
    sec('.init_array', 14, 3, init)
    rels = [('.text', reltext, 1), ('.data', reldata, 2)]
    for n, d, i in rels[::rng.choice([1, -1])]:
        sec(rn + n if d else n + '.none', rt if d else 1, 0, d, 7 if d else 0, i if d else 0, 4, rs if d else 0)
    sec('.symtab', 2, 0, symtab, 8, 2, 4, 16)
    sec('.strtab', 3, 0, strtab, align=1)
    sec('.shstrtab', 3, 0, b'', align=1)
    if not ctor:
        secs[4] = secs[4][:1] + (1, 0, b'', 0) + secs[4][5:]     # keep the section numbers
    secs[9] = secs[9][:3] + (shnames, len(shnames)) + secs[9][5:]
    # the parts of the file may come in any order
    order = list(range(len(secs)))
    first = rng.random() < 0.4
    if rng.random() < 0.4:
        rng.shuffle(order)
    body, offs = b'\0' * (40 * len(secs) if first else 0), [0] * len(secs)
    for i in order:
        s = secs[i]
        while (52 + len(body)) % max(1, s[7]):
            body += b'\0'
        offs[i] = 52 + len(body) if s[1] else 0
        body += s[3]
    if not first:
        body += b'\0' * (-len(body) % 4)
    hdr = b'\x7fELF' + bytes([1, 2 if big else 1, 1]) + b'\0' * 9
    hdr += struct.pack(e + 'HHIIIIIHHHHHH', 1, mach, 1, 0, 0, 52 if first else 52 + len(body), 0, 52, 0, 0, 40, len(secs), 9)
    tab = b''.join(struct.pack(e + '10I', s[0], s[1], s[2], 0, offs[i], s[4], s[5], s[6], s[7], s[8]) for i, s in enumerate(secs))
    return hdr + tab + body[len(tab):] if first else hdr + body + tab


def make_ar(members):
    out = b'!<arch>\n'
    for name, d in members:
        out += ('%-16s%-12d%-6d%-6d%-8s%-10d' % ((name + '/')[:16], 0, 0, 0, '100644', len(d))).encode() + b'`\n' + d
        if len(d) % 2:
            out += b'\n'
    return out


def make_psx(rng, syms, externs=(), marker=None, sites=None):
    """A PSX LNK object: one segment holding the symbols' data, word relocations and optionally a bss symbol."""
    st = lambda t: bytes([len(t)]) + t.encode()
    w, d = (lambda v: struct.pack('<H', v)), (lambda v: struct.pack('<I', v & 0xFFFFFFFF))
    o = b'LNK\x02\x2E\x07' + b'\x10' + d(1) + b'\x08' + st('.text')
    # a second segment, file names, function information: what compilers add
    two = rng.random() < 0.4
    if two:
        o += b'\x10' + d(2) + b'\x08' + st('.data')
    if rng.random() < 0.4:
        o += b'\x1C' + w(1) + st('SRC.C')
    if rng.random() < 0.2:
        o += b'\x14' + w(3) + b'\0' + st('grp')
    seg, defs, sid = b'', b'', 1
    ids = []
    for name, kind, word in syms:
        if kind == 'common':
            defs += b'\x30' + w(sid) + w(1) + d(rng.choice([4, 8])) + st(name)
            ids.append(sid)
        else:
            defs += b'\x0C' + w(sid) + w(1) + d(len(seg)) + st(name)
            ids.append(sid)
            seg += (d(word) if word is not None else b'') + rng.randbytes(4 * rng.randrange(1, 4))
        sid += 1
    for name in externs:
        defs += b'\x0E' + w(sid) + st(name)
        ids.append(sid)
        sid += 1
    rels = b''
    for i in range(rng.randrange(0, 4)):
        at = len(seg)
        seg += d(rng.randrange(16))
        if ids and rng.random() < 0.8:
            rels += b'\x0A\x10' + w(at) + b'\x02' + w(rng.choice(ids))
        else:
            rels += b'\x0A\x10' + w(at) + rng.choice([b'', b'\x2C\x00' + d(4), b'\x2E\x00' + d(4)]) + b'\x2C\x04' + w(2 if two and rng.random() < 0.5 else 1) + b'\x00' + d(0)
    names, off = [n for n, k, m in syms] + list(externs), {}
    for _ in range(rng.randrange(1, 5) if marker and ids else 0):
        k = rng.randrange(len(ids))
        form = rng.choice(['abs', 'hilo', 'hilo', 'call26'])
        m, a = marker(), rng.choice([0, 0, 4, 0x40, 0x7FFC, -4])
        if form == 'hilo':
            a = off.setdefault(k, a)
        seg += d(m)
        at = len(seg)
        ref = (b'' if not a else b'\x2C\x00' + d(a) if rng.random() < 0.5 else b'\x2E\x00' + d(-a)) + b'\x02' + w(ids[k])
        if form == 'hilo':
            seg += d(0x3C040000) + d(0x24840000)
            r = [b'\x0A\x52' + w(at) + ref, b'\x0A\x54' + w(at + 4) + ref]
            rels += b''.join(r if rng.random() < 0.5 else r[::-1])
        else:
            seg += d(0x0C000000) + d(0) if form == 'call26' else d(0)
            rels += (b'\x0A\x4A' if form == 'call26' else b'\x0A\x10') + w(at) + ref
        sites.append((m, [form, a, None], names[k]))
    for name, kind, word in syms:
        if kind == 'func' and rng.random() < 0.5:
            defs += rng.choice([b'\x4C' + b'\0' * 10, b'\x3C\0\0', b'\x32\0\0', b'\x3A' + b'\0' * 8])
    if rng.random() < 0.3:
        rels += b'\x08' + w(rng.choice([4, 8]))
    if two:
        rels += b'\x06' + w(2) + b'\x02' + w(8) + rng.randbytes(8) + (b'\x0A\x10' + w(4) + b'\x02' + w(rng.choice(ids)) if ids and rng.random() < 0.5 else b'')
    return o + b'\x06' + w(1) + b'\x02' + w(len(seg)) + seg + rels + defs + b'\x00'


def make_psxlib(members):
    out = b'LIB\x01'
    for name, d in members:
        out += ('%-16s' % name).encode() + struct.pack('<I', 21 + len(d)) + b'\0' + d
    return out


def hexs(n):
    return '-0x%X' % -n if n < 0 else '0x%X' % n


class Prog:
    def __init__(self):
        self.files = {}
        self.args = []
        self.outputs = []
        self.inputs = []
        self.raw = True
        self.tags = set()

    def d(self):
        return {'files': self.files, 'args': self.args, 'outputs': sorted(set(self.outputs)), 'inputs': sorted(set(self.inputs)),
                'raw': self.raw, 'tags': sorted(self.tags)}


class Gen:
    def __init__(self, rng, pre='', size=1.0, raw=False, mem=False, opts=True, imports=True, notices=0.3, warnings=0.15, elf=True,
                 out_dir=True, regions=True, want_temp=0.75, want_sym=0.75, io=True, bigdata=0.0, marks=False, objs=True):
        self.r = rng
        self.pre = pre
        self.size = size
        self.rawonly = raw
        self.mem = mem
        self.opts = opts
        self.imports = imports
        self.p_notice = notices
        self.p_warn = warnings
        self.elf = elf and not raw and not mem
        self.regions = regions
        self.want_temp = want_temp
        self.want_sym = want_sym
        self.io = io
        self.bigdata = bigdata
        self.marks = {} if marks else None     # label -> marker word placed at it
        self.symmarks = {}      # imported symbol -> marker word
        self.used = set()
        self.locmarks = []      # (local or static label, marker word placed at it); names repeat
        self.valmarks = {}      # label defined by value -> marker word placed before its value
        self.refmarks = []      # (marker word, label whose address follows it)
        self.insrefs = []       # (marker word, kind, form, big endian, label the instruction after it refers to)
        self.rels = []          # (a, b, k, c, x, y): b-a = k + c*(y-x) according to the source; c 0: b-a >= k
        self.spans = []         # (label before a directive, label after it, directive)
        self.endmarks = {}      # function -> marker word placed at its end
        self.objs = objs
        self.nobj = 0
        self.objsyms = []
        self.outhdr = {}
        self.p = Prog()
        self.nlabel = 0
        self.labels = []        # global labels (known to be placed)
        self.equs = []
        self.macros = []
        self.bins = []
        self.table = None
        self.ninc = 0
        self.nout = 0
        self.nloc = 0
        self.mode = None

    # -- small helpers
    def pick(self, *a):
        return self.r.choice(a)

    def chance(self, p):
        return self.r.random() < p

    def newlabel(self):
        self.nlabel += 1
        return '%s%d' % (self.r.choice(WORDS), self.nlabel)

    def marker(self):
        while True:
            a, b = self.r.randrange(1, 256), self.r.randrange(1, 256)
            m = a | b << 8 | b << 16 | a << 24      # the same bytes in both byte orders
            if a != b and m not in self.used:
                self.used.add(m)
                return m

    def mark(self, l):
        if self.marks is None:
            return []
        self.marks[l] = self.marker()
        return [' .d32 0x%08X' % self.marks[l]]

    def num(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return str(r.randrange(256))
        if k == 1:
            return '0x%X' % r.randrange(1 << 16)
        if k == 2:
            return '0x%X' % r.randrange(1 << 32)
        if k == 3:
            return '%d+%d' % (r.randrange(100), r.randrange(100))
        if k == 4 and self.equs:
            return r.choice(self.equs)
        return str(-r.randrange(128))

    def binfile(self):
        if self.bins and self.chance(0.6):
            return self.r.choice(self.bins)
        n = self.pick(1, 3, 16, 64, 100, 257)
        if self.chance(self.bigdata):
            n = self.pick(5000, 9000, 40000)
        name = '%sbin%d.dat' % (self.pre, len(self.bins))
        if self.chance(0.3):
            name = 'data/' + name
        self.p.files[name] = self.r.randbytes(n).decode('latin-1')
        self.p.inputs.append(name)
        self.bins.append((name, n))
        return self.bins[-1]

    def intexpr(self, blk):
        r = self.r
        k = r.randrange(10)
        if k < 3:
            return self.num()
        if k < 6 and (blk['labels'] or self.labels):
            pool = blk['labels'] + self.labels
            l = r.choice(pool)
            return self.pick(l, l, l + '+4', 'org(%s)' % l, '%s-%s' % (l, l))
        if k == 6:
            return self.pick('.', 'org()', 'orga()', 'headersize()', 'version()')
        if k == 7:
            return self.pick('min(3,%d)' % r.randrange(9), 'max(1,%d)' % r.randrange(9), 'abs(-%d)' % r.randrange(99), 'round(%d.5)' % r.randrange(9),
                             'int(%d.25)' % r.randrange(9), 'strlen("abc")', 'find("hello","l")', '(1 ? %d : 7)' % r.randrange(50))
        if k == 8 and self.imports and self.io:
            n, sz = self.binfile()
            self.p.tags.add('filefunc')
            return self.pick('filesize("%s")' % n, 'fileexists("%s")' % n, 'readu8("%s",%d)' % (n, r.randrange(sz)), 'readu8("%s")' % n,
                             'fileexists("%snope.dat")' % self.pre, 'reads8("%s",%d)' % (n, r.randrange(sz)))
        if k == 9:
            return self.pick('defined(%s)' % (r.choice(self.labels) if self.labels else 'nothere'), 'endianness() == "little"')
        return self.num()

    # -- one statement (list of lines)
    def data(self, blk):
        r = self.r
        k = r.randrange(14)
        if k == 0:
            return ['.byte %s' % ','.join(self.intexpr(blk) for _ in range(r.randrange(1, 5)))]
        if k == 1:
            return ['.align 4', '.halfword %s' % ','.join(self.intexpr(blk) for _ in range(r.randrange(1, 4)))]
        if k in (2, 3, 4):
            return ['.align 4', '.word %s' % ','.join(self.intexpr(blk) for _ in range(r.randrange(1, 4)))]
        if k == 5:
            return ['.align 8', '%s %s' % (self.pick('.dword', '.d64', '.doubleword'), self.intexpr(blk))]
        if k == 6:
            return [self.pick('.float', '.double') + ' %d.%d' % (r.randrange(100), r.randrange(100))]
        if k == 7:
            return [self.pick('.ascii', '.asciiz') + ' "%s"' % self.text()]
        if k == 8:
            return [self.pick('.sjis', '.sjisn') + ' "%s"' % self.text()]
        if k == 9:
            if not self.table:
                return ['.d16 %s' % self.intexpr(blk)]
            self.p.tags.add('table')
            return [self.pick('.string', '.stringn', '.str') + ' "%s"' % ''.join(r.choice('abcde') for _ in range(r.randrange(1, 9)))]
        if k == 10:
            return ['.fill %d,%d' % (r.randrange(1, 200 if not self.chance(self.bigdata) else 6000), r.randrange(256))]
        if k == 11:
            return ['.skip %d' % r.randrange(1, 64)]
        if k == 12:
            return ['%s %d%s' % (self.pick('.align', '.aligna') if not self.mem else '.align', self.pick(2, 4, 8, 16, 32), self.pick('', ',0x%X' % r.randrange(256)))]
        if self.imports:
            n, sz = self.binfile()
            s = r.randrange(sz)
            self.p.tags.add('incbin')
            return [self.pick('.incbin "%s"' % n, '.incbin "%s",%d' % (n, s), '.import "%s",%d,%d' % (n, s, r.randrange(1, sz - s + 1)), '.incbin "%s",0,0' % n)]
        return ['.d32 1,2']

    def text(self):
        return ''.join(self.r.choice('abcdefgh XYZ0123') for _ in range(self.r.randrange(1, 20)))

    def code(self, blk):
        r = self.r
        arch = blk['arch']
        a = []
        lab = r.choice(blk['labels']) if blk['labels'] else None
        n = r.randrange(1, 5)
        if lab and self.marks is not None and arch in insn.KIND and self.chance(0.4):
            return self.insref(blk, lab)
        if arch in ARM_ARCH:
            a.append('.align 4')
            if blk['thumb']:
                t = ['mov r0,%d' % r.randrange(256), 'add r0,r1,r2', 'ldr r1,=0x%X' % r.randrange(1 << 32), 'nop', 'push r4,lr', 'ldr r0,[r1,4]', 'lsl r0,r1,2', 'bx lr']
                if lab:
                    t += ['bl %s' % lab, 'ldr r2,=%s' % lab]
            else:
                t = ['mov r0,%d' % r.randrange(256), 'add r0,r1,r2', 'ldr r1,=0x%X' % r.randrange(1 << 32), 'nop', 'ldr r0,[r1,4]', 'sub r1,r1,1', 'bx lr', 'mul r0,r1,r2']
                if lab:
                    t += ['bl %s' % lab, 'b %s' % lab, 'ldr r2,=%s' % lab, 'adr r1,.+8']
            for _ in range(n):
                x = r.choice(t)
                a.append(' ' + x)
                if '=' in x:
                    blk['pool'] = True
                    self.p.tags.add('pool')
            if blk.get('pool') and self.chance(0.4):
                a += ['.pool']
                blk['pool'] = False
        elif arch in MIPS_ARCH:
            a.append('.align 4')
            rsp = arch == '.rsp'
            t = ['addiu a0,a0,%d' % r.randrange(1000), 'nop', 'lui a0,0x%X' % r.randrange(65536), 'or a0,a1,a2', 'sll a0,a1,3', 'sw a0,4(sp)', 'li a1,0x%X' % r.randrange(1 << 32)]
            if lab:
                t += ['j %s' % lab, 'jal %s' % lab, 'la a2,%s' % lab, 'beq a0,a1,%s' % lab, 'lw a0,lo(%s)(a1)' % lab] if not rsp else ['j %s' % lab]
            for _ in range(n):
                x = r.choice(t)
                a.append(' ' + x)
                if x[0] in 'jb' or x.startswith('lw'):
                    a.append(' nop')
        elif arch in SH_ARCH:
            a.append('.align 4')
            t = ['mov #%d,r0' % r.randrange(100), 'add r1,r2', 'nop', 'mov.l @r1,r2', 'shll r3', 'rts']
            if lab:
                t += ['bra %s' % lab]
            for _ in range(n):
                x = r.choice(t)
                a.append(' ' + x)
                if x.startswith('bra') or x == 'rts':
                    a.append(' nop')
        return a

    def insref(self, blk, lab):
        """An instruction that refers to a label, after a marker word by which the oracle finds it."""
        r, arch = self.r, blk['arch']
        kind = insn.KIND[arch].replace('arm', 'thumb') if arch in ARM_ARCH and blk['thumb'] else insn.KIND[arch]
        form = r.choice({'mips': ['j', 'branch', 'branch', 'cmpbranch', 'load', 'load', 'split'], 'rsp': ['j', 'branch'], 'arm': ['branch', 'pool'], 'thumb': ['bl', 'pool'], 'sh': ['bra']}[kind.rstrip('25')])
        if form == 'pool':
            blk['pool'] = True
            self.p.tags.add('pool')
        self.p.tags.add('insref-' + kind)
        m = self.marker()
        self.insrefs.append((m, kind, form, arch in insn.BIG, lab))
        return ['.align 4', ' .d32 0x%08X' % m, ' ' + r.choice(insn.FORMS[kind][form]).format(l=lab), ' nop'] + [' nop'] * (kind in ('thumb', 'thumb5', 'sh') and form not in ('bl',))

    def ref(self, l):
        """A reference the oracle can find, to a label placed anywhere."""
        self.refmarks.append((self.marker(), l))
        return [' .d32 0x%08X,%s' % self.refmarks[-1]]

    def span(self, lines):
        """One directive between two labels."""
        a, b = self.newlabel(), self.newlabel()
        self.spans.append((a, b, lines[-1].split()[0]))
        return lines[:-1] + [a + ':', lines[-1], b + ':'] + self.mark(b)

    def chain(self, blk):
        """Sizes that settle one pass after the other, and regions that grow and shrink on the way."""
        r = self.r
        self.p.tags.add('chain')
        n = r.randrange(2, 9)
        ls = [(self.newlabel(), self.newlabel()) for _ in range(n)]
        o = ['.align 4']
        for _ in range(r.randrange(1, 4)):
            o += self.ref(r.choice(r.choice(ls)))
        step = self.pick(1, 4, 4)
        auto = []
        if self.regions and not blk.get('inarea') and not self.mem and self.chance(0.6):
            self.p.tags.add('region')
            o += ['.region 0x%X%s' % (self.pick(0x400, 0x800), self.pick('', ',0x%X' % r.randrange(256))), '.endregion']
            auto = [r.randrange(n + 1) for _ in range(r.randrange(1, 5))]
        big = r.randrange(1, 9) * step
        down = False
        for i, (a, b) in enumerate(ls):
            if i in auto or i == n - 1 and n in auto:
                for _ in range(auto.count(i)):
                    s, e = self.newlabel(), self.newlabel()
                    x, y = r.choice(ls)
                    o += ['.autoregion', s + ':'] + self.mark(s)
                    o += ['%s (%s-%s) %s %d ? %d : %d' % (self.pick('.fill', '.skip'), y, x, self.pick('<', '>', '=='), r.randrange(0, big + n * step), 4 * r.randrange(20), 4 * r.randrange(20))]
                    if self.chance(0.6):
                        o += [e + ':'] + self.mark(e) + self.ref(self.pick(s, e))
                    o += ['.endautoregion']
            o += [a + ':'] + self.mark(a)
            if i == n - 1:
                o.append('%s %d' % (self.pick('.fill', '.skip'), big))
            else:
                # grow with the next one, or shrink as it grows
                x, y = ls[i + 1]
                c, k = (1, step - 4) if self.chance(0.6) or down else (-1, big + n * step + 8)
                down = down or c < 0
                o.append('%s %d%s(%s-%s)' % (self.pick('.fill', '.skip', '.skip'), k, '+' if c > 0 else '-', y, x))
                self.rels.append((a, b, k + 4, c, x, y))
            o += [b + ':'] + self.mark(b)
            if self.chance(0.3):
                o += self.ref(r.choice(r.choice(ls)))
        return o + ['.align 4']

    def stmt(self, blk, depth=0):
        r = self.r
        k = r.random()
        if self.marks is not None and k < 0.1:
            k = r.random()
            if k < 0.35:
                return self.span(self.data(blk))
            if k < 0.6 and depth == 0 and not blk.get('inarea') and not blk.get('chain'):
                blk['chain'] = True
                return self.chain(blk)
            if self.labels or blk['labels']:
                return ['.align 4'] + self.ref(r.choice([x for x in self.labels if x not in self.objsyms] + blk['labels'] or blk['labels'] + self.objsyms))
        if k < 0.34:
            return self.data(blk)
        if k < 0.58:
            return self.code(blk) if blk['code'] else self.data(blk)
        if k < 0.68:
            if blk['todo']:
                l = blk['todo'].pop()
                return [l + ':'] + self.mark(l)
            return self.data(blk)
        if k < 0.72 and self.macros:
            self.p.tags.add('macro')
            return ['.align 4', ' %s %s,%s' % (r.choice(self.macros), self.num(), self.num())]
        if k < 0.75 and depth < 2:
            self.p.tags.add('cond')
            c = self.pick('1', '0', 'org() >= 0', 'orga() < 0x10', '%d > %d' % (r.randrange(5), r.randrange(5)))
            o = ['.if ' + c] + self.plain(blk, depth + 1)
            if self.chance(0.6):
                o += ['.else'] + self.plain(blk, depth + 1)
            return o + ['.endif']
        if k < 0.80 and depth < 2 and not blk.get('inarea'):
            self.p.tags.add('area')
            if self.chance(0.1):
                return ['.area %s,0x%X' % (self.pick('0', '4-4', '8'), r.randrange(256)), '.endarea']
            sub = dict(blk, todo=[], inarea=True, pool=False)
            o = ['.area 0x%X%s' % (self.pick(0x400, 0x800), self.pick('', ',0x%X' % r.randrange(256)))]
            o += self.body(sub, r.randrange(1, 4), depth + 1)
            if sub.get('pool'):
                o += ['.pool']
            return o + ['.endarea']
        if k < 0.85 and depth < 2 and self.regions and not blk.get('inarea') and not self.mem:
            self.p.tags.add('region')
            o = []
            if not blk.get('region'):
                o += ['.region 0x%X%s' % (self.pick(0x800, 0x1000), self.pick('', ',0x%X' % r.randrange(256)))]
                if self.chance(0.3):
                    o += ['.area 0x%X,0x%X' % (self.pick(0, 8, 0x20), r.randrange(256)), '.endarea']
                o += self.plain(blk, 2) + ['.endregion']
                blk['region'] = True
            l = self.newlabel()
            fl = self.newlabel()
            self.labels.append(l)
            o += ['.autoregion', '.align 4', l + ':'] + self.mark(l) + [' .word %s' % self.intexpr(blk), ' .word %s' % l]
            if self.chance(0.4):
                o += ['.area 0x40,0x%X' % r.randrange(256), fl + ':'] + self.mark(fl) + ['.byte 1', '.endarea']
            return o + ['.endautoregion']
        if k < 0.885:
            self.nloc += 1
            if self.marks is not None:
                g, lo, m = self.newlabel(), self.pick('@@rep', '@@rep', '@@two', '@once%d' % self.nloc), self.marker()
                self.labels.append(g)
                self.locmarks.append((lo, m))
                return ['.align 4', g + ':'] + self.mark(g) + [lo + ':', ' .d32 0x%08X' % m, ' .word %s' % lo]
            lo = '%s%d' % (self.pick('@@loc', '@sta'), self.nloc)
            return ['.align 4', lo + ':', ' .word %s' % lo]
        if k < 0.92 and self.chance(self.p_notice * 2):
            self.p.tags.add('notice')
            return ['.notice "%s at " + tohex(org())' % self.text()]
        if k < 0.945 and self.chance(self.p_warn * 2):
            self.p.tags.add('warning')
            return ['.warning "%s"' % self.text()]
        if k < 0.965 and self.imports and depth < 2:
            return self.include(blk, depth)
        if k < 0.98 and depth < 2 and not blk.get('infunc'):
            self.p.tags.add('func')
            l = self.newlabel()
            self.labels.append(l)
            sub = dict(blk, todo=[], infunc=True, pool=False)
            o = ['.align 4', '.func ' + l] + self.mark(l) + self.body(sub, r.randrange(1, 4), depth + 1)
            if self.marks is not None and not blk.get('inarea') and self.chance(0.05):
                o.append('.fill 0x%X' % self.pick(0xFFF0, 0x10000, 0x11230))
            if sub.get('pool'):
                o += ['.pool']
            o.append('.endfunc')
            if self.marks is not None and not blk.get('inarea'):
                self.endmarks[l] = self.marker()
                o.append(' .d32 0x%08X' % self.endmarks[l])
            return o
        if k < 0.99 and not blk.get('inarea') and not self.mem and self.marks is None:
            return ['.orga 0x%X' % (16 * r.randrange(1, 60))]
        l = self.newlabel()
        self.labels.append(l)
        if self.marks is not None:
            self.valmarks[l] = self.marker()
            return ['.definelabel %s,0x%X' % (l, r.randrange(1 << 28)), ' .d32 0x%08X,%s' % (self.valmarks[l], l)]
        return [self.pick('.definelabel %s,0x%X', '.definelabel %s,0x%X') % (l, r.randrange(1 << 28))]

    def plain(self, blk, depth):
        sub = dict(blk, todo=[], pool=False)
        o = self.data(sub)
        return o

    def body(self, blk, n, depth=0):
        o = []
        for _ in range(n):
            o += self.stmt(blk, depth)
        return o

    def include(self, blk, depth):
        self.ninc += 1
        self.p.tags.add('include')
        name = '%sinc%d.asm' % (self.pre, self.ninc)
        if self.chance(0.3):
            name = 'inc/' + name
        sub = dict(blk, todo=[], pool=False)
        lines = self.body(sub, self.r.randrange(1, 4), depth + 1)
        if sub.get('pool'):
            lines.append('.pool')
        txt = '\n'.join(lines) + self.pick('\n', '', '\n\n')
        if self.chance(0.2):
            txt = txt.replace('\n', '\r\n')
        enc = self.r.randrange(8)
        if enc == 0:
            raw = b'\xff\xfe' + txt.encode('utf-16-le')
        elif enc == 1:
            raw = b'\xfe\xff' + txt.encode('utf-16-be')
        elif enc == 2:
            raw = b'\xef\xbb\xbf' + txt.encode('utf-8')
        else:
            raw = txt.encode('utf-8')
        self.p.files[name] = raw.decode('latin-1')
        self.p.inputs.append(name)
        return ['.include "%s"%s' % (name, self.pick('', '', ',"utf8"') if enc > 2 else '')]

    # -- file blocks
    def block(self, opener, arch, n):
        r = self.r
        thumb = arch in ARM_ARCH and self.chance(0.5)
        blk = {'arch': arch, 'thumb': thumb, 'labels': [], 'todo': [], 'code': True, 'pool': False}
        nl = r.randrange(1, 5)
        names = [self.newlabel() for _ in range(nl)]
        blk['labels'] = list(names)
        blk['todo'] = list(names)
        o = list(opener)
        if arch in ARM_ARCH:
            o.append('.thumb' if thumb else '.arm')
        o += self.body(blk, n)
        if self.imports and self.objs and arch in ELF_MACH and self.chance(0.22):
            if blk.get('pool'):
                o.append('.pool')
                blk['pool'] = False
            for _ in range(self.pick(1, 1, 2)):
                o += self.importobj(blk)
                if self.chance(0.5):
                    o += self.body(blk, 1)
        for l in blk['todo']:
            o += ['.align 4', l + ':'] + self.mark(l) + [' .word %s' % l]
        if arch in ARM_ARCH:
            o.append('.pool')
        self.labels += names
        return o

    def importobj(self, blk):
        """An object or library import at the top level of a block."""
        r = self.r
        arch = blk['arch']
        mach, big = ELF_MACH[arch]
        self.nobj += 1
        psx = arch == '.psx' and self.chance(0.6)
        lib = self.chance(0.35)
        ctor = not psx and arch not in SH_ARCH and self.chance(0.3)
        members = []
        known = []
        modes = {l: blk['thumb'] for l in blk['labels']} if arch in ARM_ARCH else {}
        for i in range(r.randrange(1, 4) if lib else 1):
            syms = []
            for _ in range(r.randrange(1, 4)):
                n = '%s_o%d' % (self.pick('Foo', 'bar', 'baz'), self.nlabel)
                self.nlabel += 1
                kind = self.pick('func', 'object', 'object', 'notype', 'common')
                m = None
                if self.marks is not None and kind != 'common':
                    self.mark(n.lower())
                    m = self.marks.pop(n.lower())
                    self.symmarks[n] = m
                syms.append((n, kind, m))
            ext, sites = [n for n in known + self.objsyms + blk['labels'] if self.chance(0.3)][:3], []
            name = r.choice(['m%d.o', 'm%d.o', 'sixteen_char_%d.o', 'fifteenchar_%d.o'] if not psx else ['m%d.o']) % i
            if psx:
                members.append((name, make_psx(r, syms, ext, self.marker if self.marks is not None else None, sites)))
            else:
                members.append((name, make_obj(r, mach, big, syms, ext, ctor and arch not in ARM_ARCH and self.chance(0.7), self.marker if self.marks is not None else None, sites, arch != '.gba', modes)))
            self.insrefs += [(m, 'obj', form, big, n) for m, form, n in sites]
            known += [n for n, k, m in syms]
        self.objsyms += known
        fn = '%sobj%d.%s' % (self.pre, self.nobj, 'a' if lib else 'o')
        raw = (make_psxlib(members) if psx else make_ar(members)) if lib else members[0][1]
        self.p.files[fn] = raw.decode('latin-1')
        self.p.inputs.append(fn)
        self.p.tags.add('psxobj' if psx else 'importobj')
        self.labels += [n for n in known]
        o = ['.align 16', '%s "%s"%s' % ('.importlib' if lib else '.importobj', fn, ',%s' % self.newlabel() if ctor else ''), '.align 4']
        if self.chance(0.6):
            o.append(' .word ' + r.choice(known))
        if self.marks is not None:
            o += self.ref(r.choice(known))
            if not lib and self.chance(0.3):
                # it is pushed away from the label, a little further in every pass
                l, x, lim = self.newlabel(), r.choice(known), 64 * r.randrange(1, 4)
                o = ['.align 4', l + ':'] + self.mark(l) + ['.skip (%s-%s) < %d ? (%s-%s)+4 : %d' % (x, l, lim, x, l, lim)] + o
                self.rels.append((l, x, lim, 0, l, l))
                if self.chance(0.6):
                    o.append('.org (org()+0xFFF) & ~0xFFF')
            elif len(known) > 1 and self.chance(0.4):
                # the import moves without anything behind it moving
                x, y = r.sample(known, 2)
                o = ['.align 4'] + self.ref(r.choice(known)) + ['.skip (%s > %s ? %s-%s : %s-%s) & 0xFF' % (x, y, x, y, y, x)] + o
                if self.chance(0.6):
                    o.append('.org (org()+0xFFF) & ~0xFFF')
        return o

    def outname(self):
        self.nout += 1
        d = self.pick('', '', 'out/')
        return '%s%sout%d.bin' % (d, self.pre, self.nout)

    def opener(self, arch):
        r = self.r
        hdr = self.pick(0, 0x08000000, 0x80010000 & 0x7fffffff, 0x1000, 0x100)
        if arch in MIPS_ARCH:
            hdr = self.pick(0x80010000, 0x08800000, 0x1000, 0)
        if self.chance(0.06):
            hdr = self.pick(-0x8000, -0x10000000, 0xFFFC0000, 0x7FFFF000)
        name = self.outname()
        k = r.randrange(6)
        self.p.outputs.append(name)
        self.outhdr[name] = hdr
        if k < 3:
            self.p.tags.add('create')
            if self.chance(0.4):
                self.p.files[name] = r.randbytes(self.pick(0, 1, 200, 3000)).decode('latin-1')
            elif '/' in name:
                self.p.files[self.pick('out/.keep', 'out/')] = ''
            return name, ['.create "%s",%s' % (name, hexs(hdr))]
        if k < 5:
            self.p.tags.add('open')
            self.p.files[name] = r.randbytes(self.pick(0, 10, 300, 2000)).decode('latin-1')
            return name, ['.open "%s",%s' % (name, hexs(hdr))]
        self.p.tags.add('copy')
        src = '%ssrc%d.bin' % (self.pre, self.nout)
        self.p.files[src] = r.randbytes(self.pick(0, 10, 300, 2000) if not self.chance(self.bigdata) else 70000).decode('latin-1')
        self.p.inputs.append(src)
        if self.chance(0.4):
            self.p.files[name] = r.randbytes(self.pick(0, 50, 50, 4000)).decode('latin-1')
        elif '/' in name:
            self.p.files[self.pick('out/.keep', 'out/')] = ''
        return name, ['.open "%s","%s",%s' % (src, name, hexs(hdr))]

    def elfblock(self, arch):
        r = self.r
        self.p.tags.add('elf')
        self.p.raw = False
        data, addrs = make_elf(r, tabfirst=self.chance(0.4))
        inp = '%sprog%d.elf' % (self.pre, self.nout)
        self.p.files[inp] = data
        if self.chance(0.5):
            out = self.outname()[:-4] + '.elf'
            if '/' in out:
                self.p.files[self.pick('out/.keep', 'out/')] = ''
            if self.chance(0.4):
                self.p.files[out] = r.randbytes(self.pick(0, 70, 3000)).decode('latin-1')
            self.p.outputs.append(out)
            self.p.inputs.append(inp)
            o = ['.loadelf "%s","%s"' % (inp, out)]
        else:
            self.nout += 1
            self.p.outputs.append(inp)
            o = ['.loadelf "%s"' % inp]
        a, sz = r.choice(addrs)
        l = self.newlabel()
        self.labels.append(l)
        o += ['.org 0x%X' % (a + 4 * r.randrange(4)), l + ':'] + self.mark(l) + [' .word 0x%X,%s' % (r.randrange(1 << 32), l), ' nop', ' j %s' % l, ' nop', '.close']
        return o

    def program(self):
        r = self.r
        p = self.p
        main = '%smain.asm' % self.pre
        head = []
        if self.chance(0.4):
            for i in range(r.randrange(1, 3)):
                e = 'eq%d' % i
                head.append('%s equ 0x%X' % (e, r.randrange(1 << 16)))
                self.equs.append(e)
        if self.chance(0.35):
            m = 'mac'
            head += ['.macro %s,pa,pb' % m, '@@ml:', ' .word pa', ' .word @@ml', ' .byte pb', '.endmacro']
            self.macros.append(m)
        if self.chance(0.3) and self.imports:
            t = '%stab.tbl' % self.pre
            p.files[t] = '\n'.join('%02X=%s' % (0x10 + i + r.randrange(100), c) for i, c in enumerate(['a', 'b', 'c', 'd', 'e', 'ab', 'cde'])) + '\n/%02X\n' % r.randrange(256)
            p.inputs.append(t)
            head.append('.loadtable "%s"' % t)
            self.table = t
        if self.chance(0.1):
            head.append('.expfunc ef(n), n+1')
        lines = list(head)
        nb = 1 if self.mem else self.pick(1, 1, 2, 2, 3)
        for b in range(nb):
            arch = r.choice(ARM_ARCH + MIPS_ARCH + SH_ARCH)
            lines.append(arch)
            if self.elf and arch in ('.psp', '.ps2') and self.chance(0.6):
                lines += self.elfblock(arch)
                continue
            n = max(1, int(r.randrange(3, 14) * self.size))
            if self.mem:
                op = ['.org 0x%X' % self.pick(0x8000000, 0x1000, 0x80010000)]
                lines += self.block(op, arch, n)
                continue
            name, op = self.opener(arch)
            if self.chance(self.bigdata / 2):
                op = op + ['.fill %d,0x%X' % (self.pick(9000, 33000, 40000, 70000), r.randrange(256))]
            lines += self.block(op, arch, n)
            if b == nb - 1 and self.chance(0.07):
                p.tags.add('unclosed')
            else:
                lines.append('.close')
        p.files[main] = '\n'.join(lines) + '\n'
        p.inputs.append(main)
        args = ['armips']
        if self.chance(self.want_temp):
            args += ['-temp', '%stemp.txt' % self.pre]
            p.outputs.append('%stemp.txt' % self.pre)
            p.tags.add('temp')
            if self.chance(0.3):
                p.files['%stemp.txt' % self.pre] = self.pick('', 'old listing\n', 'old listing\n' * 1000)
        if self.chance(self.want_sym):
            args += [self.pick('-sym', '-sym2'), '%ssyms.sym' % self.pre]
            p.outputs.append('%ssyms.sym' % self.pre)
            p.tags.add('sym')
            if self.chance(0.3):
                p.files['%ssyms.sym' % self.pre] = self.pick('', 'old symbols\n', 'old symbols\n' * 1000)
        if self.opts:
            if self.chance(0.25):
                args += ['-stat']
                p.tags.add('stat')
            if self.chance(0.15):
                args += ['-equ', 'cmdequ', str(r.randrange(100))]
            if self.chance(0.15):
                args += ['-definelabel', 'cmdlabel', str(r.randrange(1000))]
            if self.chance(0.1) and 'warning' not in p.tags and 'unclosed' not in p.tags:
                args += ['-erroronwarning']
        args.append(main)
        p.args = args
        d = p.d()
        if self.marks is not None:
            d['marks'] = self.marks
            d['symmarks'] = self.symmarks
            d['locmarks'] = self.locmarks
            d['valmarks'] = self.valmarks
            d['refmarks'] = self.refmarks
            d['insrefs'] = self.insrefs
            d['spans'] = self.spans
            d['rels'] = self.rels
            d['endmarks'] = self.endmarks
            d['hdr'] = self.outhdr
        return d


ERRORS = [
    ('undef', ['.word undefinedlabel%d']),
    ('syntax', ['.word (1+']),
    ('unknown', ['frobnicate r0,r%d']),
    ('error', ['.error "stop %d"']),
    ('dup', ['dupl%d:', 'dupl%d:']),
    ('area', ['.area 2', '.word %d,2,3', '.endarea']),
    ('align', ['.align 3 ; %d']),
    ('noinc', ['.include "missing%d.asm"']),
    ('nobin', ['.incbin "missing%d.bin"']),
    ('region', ['.autoregion', '.fill 0x100000,%d', '.endautoregion']),
    ('warnerr', ['.warning "w%d"']),
    ('unterminated', ['.if %d']),
    ('neg', ['.orga -%d-1']),
    ('incneg', ['.incbin "@MAIN@",-%d']),
    ('incnegsize', ['.incbin "@MAIN@",0,0-%d']),
    ('incpast', ['.incbin "@MAIN@",0x100000+%d']),
    ('fillneg', ['.fill -%d']),
    ('areaneg', ['.area -%d', '.endarea']),
    ('notclosed', []),
    ('cmdline', []),
    ('openin', ['.area 0x100', '.create "inarea%d.bin",0', '.endarea']),
    ('closein', ['.area 0x100 ; %d', '.close', '.endarea']),
    ('nopatch', ['.create "made%d.bin",0', '.close', '.open "missing%d.bin",0', '.close']),
    ('nocopy', ['.open "missing%d.bin","fresh.bin",0', '.close']),
    ('nodir', ['.create "nodir%d/x.bin",0', '.close']),
    ('selfcopy', ['.open "@MAIN@","@MAIN@",%d', '.close']),
    ('loop', ['loopl%d equ 1', '.fill loopq-org()==4 ? 8 : 4', 'loopq:']),
    ('strtype', ['.word "abc"+%d-"d"']),
    ('floattype', ['.float "x%d"']),
    ('endif', ['.endif ; %d']),
    ('definelabel', ['.definelabel dupx%d,1', '.definelabel dupx%d,2']),
    ('hdrsize', ['.headersize undefinedhdr%d']),
    ('noobj', ['.importobj "missing%d.o"']),
    ('noread', ['.word readu32("missing%d.bin")']),
    ('notable', ['.loadtable "missing%d.tbl"']),
    ('stringtable', ['.string "\xc3\xa4%d"']),
    ('range', ['.fill undefinedsize%d']),
    # warnings treated as errors
    ('wa-overlap', ['.area 0x20', '.fill 8,%d', '.endarea', '.org org()-4', '.area 0x20', '.word 1', '.endarea']),
    ('wa-overfill', ['.area 0x20,1', '.word %d', '.endarea', '.org org()-0x10', '.area 0x20,1', '.word 2', '.endarea']),
    ('wa-trunc', ['.incbin "@MAIN@",0,0x100000+%d']),
    ('wa-div', ['.word %d/0']),
    ('wa-fdiv', ['.float %d/0']),
    ('wa-reopen', ['.create "second%d.bin",0', '.word 1']),
    ('wa-unaligned', ['.align 4', '.byte %d', ' nop', '.align 4']),
    ('wa-loaddelay', ['.align 4', ' lw a0,0(a1)', ' addu a0,a0,a0 ; %d']),
    ('wa-delaymacro', ['.align 4', ' j 0x80000000', ' li a0,0x12345678 ; %d']),
    ('wa-negorg', ['.headersize -0x7000000%d', '.orga 0']),
    ('wa-ascii', ['.if toint("%d") == 0 && rfind("\xc3\xa4","a") == 1', '.endif']),
]


def top_spots(lines, anywhere):
    """Line positions at top level (not inside a macro definition or nested block)."""
    depth = 0
    spots = []
    opened = False
    for i, l in enumerate(lines):
        s = l.strip()
        w = s.split(' ')[0].split(',')[0] if s else ''
        if w in ('.macro', '.area', '.region', '.autoregion', '.func', '.function') or w.startswith('.if'):
            depth += 1
        if depth == 0 and (opened or anywhere) and (w != '.else'):
            spots.append(i + 1)
        if w in ('.endmacro', '.endif', '.endarea', '.endregion', '.endautoregion', '.endfunc', '.endfunction'):
            depth -= 1
            if depth == 0 and opened:
                spots.append(i + 1)
        if w in ('.open', '.create', '.loadelf'):
            opened = True
            if depth == 0:
                spots.append(i + 1)
        if w == '.close':
            opened = False
            if not anywhere:
                while spots and spots[-1] == i + 1:
                    spots.pop()
    return spots


MARKERS = ['.notice "mark%d"', '.warning "mark%d"', '.if %d/0\n.endif', '.if %d % 0\n.endif', '.definelabel markl%d,%d/0',
           '.if %d\n.notice "cond"\n.endif',
           '.macro twice%d,x\n.notice "mark%d"\n.warning "mark%d"\n.warning "mark%d"\n.endmacro\n twice%d 1']
FILE_MARKERS = ['.incbin "mark.dat",2,%d0+9', '.word %d/0', '.fill 2,%d/0', '.area 0x10,%d/0\n.endarea', '.byte 1/0,%d', '.notice "mark%d at " + org()']


def add_markers(rng, prog):
    """Insert lines, tagged "@mark", that must give exactly one diagnostic each, and lines, tagged "@mark3", that must give three."""
    main = prog['args'][-1]
    lines = prog['files'][main].split('\n')
    for k in range(rng.choice([2, 3, 5])):
        infile = rng.random() < 0.4
        spots = top_spots(lines, not infile)
        if not spots:
            continue
        m = rng.choice(FILE_MARKERS if infile else MARKERS).replace('%d', str(rng.randrange(1, 9999))).split('\n')
        if 'macro' in m[0]:
            m[-1] += ' ; @mark3'
        else:
            m[1 if 'cond' in m[-2:][0] else 0] += ' ; @mark'
        at = rng.choice(spots)
        lines[at:at] = m
    spots = top_spots(lines, False)
    if spots and rng.random() < 0.12:
        # a line that cannot be understood, in a macro: once for every call
        n, k, at = rng.randrange(1, 9999), rng.choice([1, 2, 3]), rng.choice(spots)
        lines[at:at] = ['.macro bad%d,x' % n, rng.choice([' fumble%d x', ' .byte 1+ ;%d', ' .fill 1,x,2,3,%d', ' .word %d,']) % n + ' ; @err%d' % k, '.endmacro'] + [' bad%d %d' % (n, i) for i in range(k)]
    files = dict(prog['files'])
    files[main] = '\n'.join(lines)
    if 'mark.dat' in files[main]:
        files['mark.dat'] = 'mark'
    return dict(prog, files=files, tags=prog['tags'] + ['markers'])


CMD_ERRORS = [['-equ', 'selfequ', 'selfequ'], ['-equ', 'selfequ', '(1+SelfEqu)'], ['-equ', 'selfequ', 'x equ 2'], ['-equ', 'fine', '1', '-equ', 'selfequ', '2+selfequ']]


def add_error(rng, prog):
    """Make the program one that must be rejected: an error somewhere in the main source."""
    main = prog['args'][-1]
    lines = prog['files'][main].split('\n')
    kind, body = rng.choice(ERRORS)
    n = rng.randrange(1, 999)
    body = [b.replace('%d', str(n)).replace('@MAIN@', main) for b in body]
    if kind == 'cmdline':
        return dict(prog, args=prog['args'][:1] + rng.choice(CMD_ERRORS) + prog['args'][1:], tags=prog['tags'] + ['error:' + kind])
    if kind == 'notclosed':
        # everything is fine but for the missing .close, which is a warning treated as an error
        at = [i for i, l in enumerate(lines) if l.strip() == '.close']
        if not at:
            return add_error(rng, prog)
        del lines[at[-1]]
        files = dict(prog['files'])
        files[main] = '\n'.join(lines)
        args = list(prog['args'])
        if '-erroronwarning' not in args:
            args.insert(1, '-erroronwarning')
        return dict(prog, files=files, args=args, tags=prog['tags'] + ['error:' + kind])
    spots = top_spots(lines, kind in ('syntax', 'unknown', 'error', 'noinc', 'warnerr'))
    if not spots:
        spots = [1]
    # prefer late positions: everything before has been processed by then
    at = spots[-1 - int(len(spots) * rng.random() ** 2 * 0.999)] if spots else len(lines)
    lines[at:at] = body
    files = dict(prog['files'])
    files[main] = '\n'.join(lines)
    args = list(prog['args'])
    if (kind == 'warnerr' or kind.startswith('wa-')) and '-erroronwarning' not in args:
        args.insert(1, '-erroronwarning')
    outputs = list(prog['outputs'])
    for l in body:
        if l.startswith(('.create', '.open')):
            outputs.append(re.findall(r'"([^"]*)"', l)[-1])
    return dict(prog, files=files, args=args, outputs=outputs, tags=prog['tags'] + ['error:' + kind])
