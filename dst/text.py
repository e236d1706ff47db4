"""Programs made of text: comments, messages, strings and tables in every supported encoding, with their expected outcome (C15).

A program is a set of logical files; render() stores each in one of the encodings its characters permit, with some
line end style, and names the encoding in the directive that reads it. Messages and output bytes follow from the
logical files alone (expect()).
"""

ASCII = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-_!?#$&*+/<>[]^|~'
HALF = ''.join(chr(c) for c in range(0xFF61, 0xFFA0))
KANA = ''.join(chr(c) for c in list(range(0x3041, 0x3094)) + list(range(0x30A1, 0x30F7)))


def _kanji():
    out = []
    for hi in list(range(0x88, 0xA0)) + list(range(0xE0, 0xEB)):
        for lo in range(0x40, 0xFD):
            try:
                c = bytes([hi, lo]).decode('shift_jis')
            except UnicodeDecodeError:
                continue
            if 0x4E00 <= ord(c[0]) < 0xA000:
                out.append(c)
    return ''.join(out)


KANJI = _kanji()
# the second byte of these is a backslash, a pipe or a brace in Shift-JIS
TRICKY = ''.join(c for c in KANJI + KANA if c.encode('shift_jis')[-1] in (0x5C, 0x7C, 0x7B, 0x40, 0x5B))
UNI = [(0xA1, 0x24F), (0x386, 0x3CE), (0x400, 0x4FF), (0x800, 0x83E), (0xAC00, 0xD7A3), (0x4E00, 0x9FA0), (0x2600, 0x26FF), (0xFFE0, 0xFFE6)]


def uni(rng):
    lo, hi = rng.choice(UNI)
    return chr(rng.randrange(lo, hi + 1))


def text(rng, rep, n):
    s = ''
    for _ in range(n):
        k = rng.random()
        if rep == 'ascii' or k < 0.4:
            s += rng.choice(ASCII)
        elif rep == 'uni' and k < 0.75:
            s += uni(rng)
        elif k < 0.82:
            s += rng.choice(KANA)
        elif k < 0.87:
            s += rng.choice(HALF)
        elif k < 0.92:
            s += rng.choice(TRICKY)
        else:
            s += rng.choice(KANJI)
    return s


ENC = {     # name: (codec, byte order mark, name in directives or None, repertoire)
    'utf8': ('utf-8', b'', None, 'uni'), 'utf8bom': ('utf-8', b'\xef\xbb\xbf', None, 'uni'),
    'utf16lebom': ('utf-16-le', b'\xff\xfe', None, 'uni'), 'utf16bebom': ('utf-16-be', b'\xfe\xff', None, 'uni'),
    'utf8arg': ('utf-8', b'', 'utf8', 'uni'), 'utf16arg': ('utf-16-le', b'', 'utf16', 'uni'), 'utf16bearg': ('utf-16-be', b'', 'utf16-be', 'uni'),
    'utf8arg2': ('utf-8', b'', 'UTF-8', 'uni'), 'utf16arg2': ('utf-16-le', b'', 'utf-16', 'uni'), 'utf16bearg2': ('utf-16-be', b'', 'utf-16-be', 'uni'),
    'sjisupper': ('shift_jis', b'', 'SJIS', 'sjis'), 'sjismixed': ('shift_jis', b'', 'Shift-JIS', 'sjis'), 'utf16upper': ('utf-16-le', b'', 'UTF-16', 'uni'),
    'utf16beupper': ('utf-16-be', b'', 'UTF16-BE', 'uni'),
    'sjis': ('shift_jis', b'', 'sjis', 'sjis'), 'sjis2': ('shift_jis', b'', 'shift-jis', 'sjis'), 'ascii': ('ascii', b'', 'ascii', 'ascii'),
    'bomwins': ('utf-16-le', b'\xff\xfe', 'ascii', 'uni'), 'bomwins2': ('utf-8', b'\xef\xbb\xbf', 'sjis', 'uni'),
}
LEVEL = {'ascii': 0, 'sjis': 1, 'uni': 2}
MAIN = ['utf8', 'utf8bom', 'utf16lebom', 'utf16bebom']


class Text:
    def __init__(self, rng):
        self.r = rng
        self.files = {}     # name -> [repertoire, items]; an item is a line with what it contributes to the outcome
        self.table = None
        self.n = 0

    def new(self, ext):
        self.n += 1
        return '%sf%d.%s' % (self.r.choice(['', '', 'sub/']), self.n, ext)

    def mktable(self, rep):
        r = self.r
        ent = {}
        some = text(r, rep, 3) if r.random() < 0.4 else ''      # entries that are prefixes of each other
        for i in range(r.choice([1, 4, 12, 40, 300])):
            k = ''.join(r.choice(some) for _ in range(r.randrange(1, 7))) if some else text(r, rep, r.choice([1, 1, 1, 2, 3]))
            k = k.replace('=', '').replace('/', '').replace('*', '')
            if k:
                ent.setdefault(k, bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 3] if r.random() < 0.95 else [4, 8, 9, 16, 31, 32]))))
        if not ent:
            ent['a'] = b'\x07'
        lines = ['%s=%s' % (v.hex().upper() if r.random() < 0.5 else v.hex(), k) for k, v in ent.items()]
        term = b'\0'
        if r.random() < 0.5:
            term = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 1, 2, 4, 32])))
            lines.insert(r.randrange(len(lines) + 1), '/' + term.hex())
        for _ in range(r.choice([0, 0, 1, 3])):
            lines.insert(r.randrange(len(lines) + 1), r.choice(['', '* ' + text(r, rep, r.randrange(30))]))
        name = self.new('tbl')
        self.files[name] = [rep, [{'l': l} for l in lines]]
        return name, ent, term

    def strings(self, rep):
        """A string the current table can encode, with its bytes."""
        ent, term = self.table[:2]
        keys = [k for k in ent if rep != 'ascii' or k.isascii()]
        if rep != 'uni':
            keys = [k for k in keys if all(c.isascii() or c in KANA or c in HALF or c in KANJI for c in k)]
        if not keys:
            return None
        s = ''.join(self.r.choice(keys) for _ in range(self.r.choice([1, 3, 20])))
        out, i = b'', 0
        while i < len(s):
            for n in range(6, 0, -1):
                if s[i:i + n] in ent and i + n <= len(s):
                    out += ent[s[i:i + n]]
                    i += n
                    break
            else:
                return None     # greedy matching got stuck
        return s, out

    def body(self, name, rep, depth):
        r = self.r
        items = []
        self.files[name] = [rep, items]
        if depth == 0:
            items += [{'l': '.psx'}, {'l': '.create "text.bin",0'}]
        for _ in range(r.choice([2, 6, 15, 40])):
            k = r.random()
            if k < 0.15:
                items.append({'l': r.choice(['; ', ';', '// ']) + text(r, rep, r.choice([0, 5, 60, 60, 1000, 4090, r.randrange(9000)]))})
            elif k < 0.2:
                # a lone carriage return is not a line end
                items.append({'l': '; ' + text(r, rep, r.randrange(40)) + '\r' * r.choice([1, 1, 2, 3]) + text(r, rep, r.randrange(1, 40))})
            elif k < 0.25:
                items.append({'l': r.choice(['', '', '  ', '\t'])})
            elif k < 0.42:
                t = text(r, rep, r.choice([1, 8, 40, 300]))
                if r.random() < 0.15 and len(t) > 1:
                    i = r.randrange(1, len(t))
                    t = t[:i] + '\r' * r.choice([1, 1, 2]) + t[i:]
                kind = 'error' if r.random() < 0.03 else r.choice(['notice', 'warning'])
                items.append({'l': '.%s "%s"' % (kind, t), 'd': [kind, t]})
            elif k < 0.47:
                self.n += 1
                t = text(r, rep, r.choice([1, 8, 40])).replace('/', '+')     # an equ ends at a comment, quoted or not
                items.append({'l': 'txt%d equ "%s"' % (self.n, t), 'def': self.n})
                items.append({'l': '.notice txt%d' % self.n, 'd': ['notice', t], 'use': self.n})
            elif k < 0.62:
                t = text(r, 'sjis' if rep == 'uni' else rep, r.choice([1, 8, 40]))
                z = r.random() < 0.5
                items.append({'l': '%s "%s"' % ('.sjis' if z else '.sjisn', t), 'o': (t.encode('shift_jis') + (b'\0' if z else b'')).decode('latin-1')})
            elif k < 0.68:
                t = text(r, 'ascii', r.choice([1, 8, 40]))
                items.append({'l': '.ascii "%s"' % t, 'o': t})
            elif k < 0.74:
                b = [r.randrange(256) for _ in range(r.choice([1, 3, 16]))]
                items.append({'l': '.byte ' + ','.join(map(str, b)), 'o': bytes(b).decode('latin-1')})
            elif k < 0.8:
                t = r.choice([x for x in LEVEL if LEVEL[x] >= LEVEL[rep] or r.random() < 0.3])
                n, ent, term = self.mktable(t)
                self.table = (ent, term, n)
                items.append({'l': '%s "%s"{%s}' % (r.choice(['.loadtable', '.table']), n, n), 'tab': n})
            elif k < 0.9 and self.table:
                s = self.strings(rep)
                if s:
                    z = r.random() < 0.5
                    items.append({'l': '%s "%s"' % (r.choice(['.string', '.str']) if z else r.choice(['.stringn', '.strn']), s[0]),
                                  'o': (s[1] + (self.table[1] if z else b'')).decode('latin-1'), 'need': self.table[2]})
            elif k < 0.97 and depth < 3 and len(self.files) < 8:
                n = self.new('asm')
                items.append({'l': '.include "%s"{%s}' % (n, n), 'inc': n})
                self.body(n, r.choice(['ascii', 'sjis', 'uni']), depth + 1)
        if depth == 0:
            items.append({'l': '.close'})

    def program(self):
        self.body('main.asm', self.r.choice(['ascii', 'sjis', 'uni', 'uni']), 0)
        return self.files


def choose(rng, files):
    """An encoding, line end style and end of file for every file."""
    c = {}
    for n, (rep, items) in files.items():
        pool = MAIN if n == 'main.asm' else [e for e in ENC if LEVEL[ENC[e][3]] >= LEVEL[rep]]
        c[n] = [rng.choice(pool), rng.choice(['\n', '\n', '\r\n']), rng.random() < 0.7]
    return c


def render(files, choice):
    """The files as bytes in Latin-1."""
    out = {}
    for n, (rep, items) in files.items():
        e, eol, last = choice[n]
        codec, bom, arg, _ = ENC[e]
        ls = []
        for it in items:
            l = it['l']
            m = it.get('inc') or it.get('tab')
            if m:
                a = ENC[choice[m][0]][2]
                l = l.replace('{%s}' % m, ',"%s"' % a if a else '')
            ls.append(l)
        out[n] = (bom + (eol.join(ls) + (eol if last else '')).encode(codec)).decode('latin-1')
    return out


def expect(files):
    """(messages, output bytes, rejected) that follow from the text, or None if a line lacks what it refers to."""
    diag, out, state = [], [], {'tab': None, 'def': set(), 'ok': True}

    def walk(n):
        for i, it in enumerate(files[n][1]):
            if it.get('need') and it['need'] != state['tab'] or it.get('use') and it['use'] not in state['def']:
                state['ok'] = False
            if 'def' in it:
                state['def'].add(it['def'])
            if 'tab' in it:
                state['tab'] = it['tab']
            if 'd' in it:
                diag.append(('%s(%d) %s: %s' % (n, i + 1, it['d'][0], it['d'][1])).encode('utf-8').decode('latin-1'))
            out.append(it.get('o', ''))
            if 'inc' in it:
                walk(it['inc'])

    walk('main.asm')
    main = [it['l'] for it in files['main.asm'][1]]
    if not state['ok'] or main[:2] != ['.psx', '.create "text.bin",0'] or main[-1] != '.close':
        return None
    return diag, ''.join(out), any(') error: ' in d for d in diag)
