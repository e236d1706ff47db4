"""Instructions that refer to an address: how to write them, and which address the assembled ones refer to."""

# kind -> {form: instruction text}; everything a form needs is in the instruction words themselves
FORMS = {
    'mips': {'j': ['j {l}', 'jal {l}'],
             'branch': ['beq a0,a1,{l}', 'bne a0,zero,{l}', 'blez a0,{l}', 'bgtz a1,{l}', 'bltz a0,{l}', 'bgez a0,{l}', 'bltzal a0,{l}', 'bgezal a0,{l}', 'b {l}', 'bal {l}', 'beqz a2,{l}', 'bnez a0,{l}'],
             'cmpbranch': ['blt a0,a1,{l}', 'bge a0,a1,{l}', 'bgtu a0,a1,{l}', 'beq a0,5,{l}', 'bne a1,0x12345,{l}', 'blt a0,7,{l}'],
             'load': ['la a2,{l}', 'la t0,{l}', 'li a1,{l}', 'lw a0,{l}', 'sw a0,{l}', 'lbu a1,{l}', 'sh a1,{l}'],
             'split': ['lui a1,hi({l})']},
    'rsp': {'j': ['j {l}', 'jal {l}'], 'branch': ['beq a0,a1,{l}', 'bnez a0,{l}', 'bgtz a1,{l}', 'bal {l}', 'b {l}']},
    'arm': {'branch': ['b {l}', 'bl {l}', 'beq {l}', 'blne {l}', 'bhi {l}'], 'pool': ['ldr r2,={l}', 'ldr r0,={l}', 'ldrne r4,={l}'], 'pc': ['ldr r0,[{l}]', 'str r3,[{l}]', 'ldrne r2,[{l}]'],
            'pch': ['strh r1,[{l}]', 'strh r7,[{l}]'], 'adr': ['adr r1,{l}', 'add r4,={l}']},
    'thumb': {'bl': ['bl {l}'], 'b': ['b {l}'], 'bcond': ['beq {l}', 'bhi {l}', 'blt {l}', 'bne {l}'], 'pool': ['ldr r2,={l}', 'ldr r7,={l}'], 'pc': ['ldr r3,[{l}]'], 'adr': ['add r0,={l}', 'add r5,={l}']},
    'sh': {'bra': ['bra {l}', 'bsr {l}'], 'bt': ['bt {l}', 'bf {l}', 'bt/s {l}', 'bf/s {l}'], 'movl': ['mov.l {l},r3', 'mova {l},r0'], 'movw': ['mov.w {l},r5']},
}
FORMS['mips2'] = dict(FORMS['mips'], branch=FORMS['mips']['branch'] + ['beql a0,a1,{l}', 'bnel a2,zero,{l}', 'bgtzl a0,{l}', 'bltzl a0,{l}', 'bc1t {l}', 'bc1fl {l}'])
FORMS['arm5'] = dict(FORMS['arm'], blx=['blx {l}'])
FORMS['thumb5'] = dict(FORMS['thumb'], blx=['blx {l}'])
KIND = {'.psx': 'mips', '.ps2': 'mips2', '.psp': 'mips2', '.n64': 'mips2', '.rsp': 'rsp', '.gba': 'arm', '.nds': 'arm5', '.3ds': 'arm5', '.arm.little': 'arm5', '.arm.big': 'arm5', '.saturn': 'sh', '.32x': 'sh'}
BIG = ('.n64', '.rsp', '.saturn', '.32x', '.arm.big')
# how far forward and back a form reaches from the instruction (a little less may be accepted)
REACH = {('mips', 'cmpbranch'): (0x1FFC0, -0x1FFC0), ('mips', 'branch'): (0x20000, -0x1FFFC), ('rsp', 'branch'): (0x20000, -0x1FFFC), ('arm', 'branch'): (0x2000004, -0x1FFFFF8), ('arm', 'pc'): (4104, -4088), ('arm', 'pch'): (264, -248), ('arm', 'adr'): (1028, -1012),
         ('thumb', 'bl'): (0x400002, -0x3FFFFC), ('thumb', 'b'): (2050, -2044), ('thumb', 'bcond'): (258, -252), ('thumb', 'pc'): (1024, 4), ('thumb', 'adr'): (1024, 4),
         ('sh', 'bra'): (4098, -4092), ('sh', 'bt'): (258, -252), ('sh', 'movl'): (1024, 4), ('sh', 'movw'): (514, 4)}

for (k, f), v in list(REACH.items()):
    if k in ('mips', 'arm', 'thumb'):
        REACH[k + {'mips': '2'}.get(k, '5'), f] = v
REACH['arm5', 'blx'] = REACH['arm', 'branch']
REACH['thumb5', 'blx'] = REACH['thumb', 'bl']


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def rot(imm12):
    n, v = 2 * (imm12 >> 8), imm12 & 255
    return (v >> n | v << (32 - n)) & 0xffffffff


def target(kind, form, big, data, i, pc):
    """(address the instruction at data[i], which has the address pc, refers to, mask of the bits it determines) or None."""
    o = 'big' if big else 'little'

    def word(p, n=4):
        if p < 0 or p + n > len(data):
            return None
        return int.from_bytes(data[p:p + n].encode('latin-1'), o)

    full = 0xffffffff
    if kind == 'obj':
        name, addend, thumb = form
        w = word(i)
        if w is None:
            return None
        if name == 'abs':
            # a pointer to THUMB code is odd
            return (w - addend, 0xfffffffe) if thumb is None else ((w - addend) ^ thumb, full)
        if name == 'rel':
            return w + pc - addend, full
        if name == 'call26':
            return ((w & 0x3ffffff) << 2) - addend, 0x0ffffffc
        if name == 'hilo':
            if word(i + 4) == 0:
                i += 4
            return None if word(i + 4) is None else (((w & 0xffff) << 16) + sx(word(i + 4), 16) - addend, full)
        if name == 'call':
            got = target('arm5', 'blx' if thumb else 'branch', big, data, i, pc)
        else:
            odd = 2 * name.endswith('2')
            if not thumb and (word(i + odd + 2, 2) or 0) & 1:
                return None
            got = target('thumb5', 'bl' if thumb else 'blx', big, data, i + odd, pc + odd)
        return got and (got[0] - addend, full)
    word4 = 0xfffffffc      # MIPS code lies at multiples of four: the assembler drops the low bits of a branch target
    if kind in ('mips', 'mips2', 'rsp'):
        w = word(i)
        if w is None:
            return None
        op = w >> 26
        if form == 'j':
            return ((w & 0x3ffffff) << 2, 0x0ffffffc) if op in (2, 3) else None
        if form == 'branch':
            return (pc + 4 + 4 * sx(w, 16), word4) if op in (1, 4, 5, 6, 7, 17, 18, 20, 21, 22, 23) else None
        if form == 'cmpbranch':
            for k in range(5):
                w = word(i + 4 * k)
                if w is not None and w >> 26 in (4, 5, 6, 7) or w is not None and w >> 26 == 1:
                    return pc + 4 * k + 4 + 4 * sx(w, 16), word4
            return None
        if form == 'load':
            base = 0
            if op == 15:
                base = (w & 0xffff) << 16
                reg = w >> 16 & 31
                nx = word(i + 4)
                if nx is None or nx >> 21 & 31 != reg:
                    return base, full
                w = nx
                op = w >> 26
            elif w >> 21 & 31:
                return None
            if op == 13:
                return base + (w & 0xffff), full
            if op == 9 or op >= 32:
                return base + sx(w, 16), full
            return base, full
        if form == 'split':
            return (((w & 0xffff) << 16), -1) if op == 15 else None
    if kind in ('arm', 'arm5'):
        w = word(i)
        if w is None:
            return None
        if form == 'blx':
            return (pc + 8 + 4 * sx(w, 24) + (w >> 23 & 2), full) if w >> 25 == 0x7d else None
        if form == 'branch':
            return (pc + 8 + 4 * sx(w, 24), full) if w >> 25 & 7 == 5 else None
        if w & 0x0ff00000 == 0x03a00000:
            return rot(w & 0xfff), full
        if w & 0x0ff00000 == 0x03e00000:
            return rot(w & 0xfff) ^ full, full
        if form in ('pool', 'pc'):
            if w & 0x0f2f0000 != 0x050f0000:
                return None
            d = (w & 0xfff) * (1 if w >> 23 & 1 else -1) + 8
            if form == 'pc':
                return pc + d, full
            v = word(i + d)
            return None if v is None else (v, full)
        if form == 'pch':
            if w & 0x0f6f0090 != 0x014f0090:
                return None
            return pc + 8 + ((w >> 4 & 0xf0) | (w & 15)) * (1 if w >> 23 & 1 else -1), full
        if form == 'adr':
            if w & 0x0fff0000 == 0x028f0000:
                return pc + 8 + rot(w & 0xfff), full
            if w & 0x0fff0000 == 0x024f0000:
                return pc + 8 - rot(w & 0xfff), full
            return None
    if kind in ('thumb', 'thumb5'):
        h = word(i, 2)
        if h is None:
            return None
        if form == 'bl':
            g = word(i + 2, 2)
            if g is None or h >> 11 != 0x1e or g >> 11 != 0x1f:
                return None
            return pc + 4 + 2 * sx((h & 0x7ff) << 11 | (g & 0x7ff), 22), full
        if form == 'blx':
            g = word(i + 2, 2)
            if g is None or h >> 11 != 0x1e or g >> 11 != 0x1d:
                return None
            return (pc + 4 + 2 * sx((h & 0x7ff) << 11 | (g & 0x7ff), 22)) & ~3, full
        if form == 'b':
            return (pc + 4 + 2 * sx(h, 11), full) if h >> 11 == 0x1c else None
        if form == 'bcond':
            return (pc + 4 + 2 * sx(h, 8), full) if h >> 12 == 0xd else None
        if form == 'adr':
            return (((pc + 4) & ~3) + 4 * (h & 255), full) if h >> 11 == 0x14 else None
        if h >> 11 != 9:
            return None
        a = ((pc + 4) & ~3) + 4 * (h & 255)
        if form == 'pc':
            return a, full
        v = word(i + a - pc)
        return None if v is None else (v, full)
    if kind == 'sh':
        h = word(i, 2)
        if h is None:
            return None
        if form == 'bra':
            return (pc + 4 + 2 * sx(h, 12), full) if h >> 12 in (10, 11) else None
        if form == 'bt':
            return (pc + 4 + 2 * sx(h, 8), full) if h >> 8 in (0x89, 0x8b, 0x8d, 0x8f) else None
        if form == 'movl':
            return (((pc + 4) & ~3) + 4 * (h & 255), full) if h >> 12 == 0xd or h >> 8 == 0xc7 else None
        if form == 'movw':
            return (pc + 4 + 2 * (h & 255), full) if h >> 12 == 9 else None
    return None


def agrees(got, addr):
    """Whether a decoded reference is to this address."""
    v, mask = got
    if mask == -1:                       # the upper half, to be completed by a sign-extended lower half
        return ((addr - sx(addr, 16)) ^ v) & 0xffffffff == 0
    return (v ^ addr) & mask == 0
