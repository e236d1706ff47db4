"""Small programs whose outcome shows what state a run started from or leaves state behind (C09).

Each entry: (name, source lines, extra arguments, extra files). {p} is the run's file prefix.
"""
TAB = '01=a\n02=b\n03=c\n0405=ab\n/00\n'
TAB2 = '41=a\n42=b\n43=x\n'

PROBES = [
    ('noarch', ['.create "{p}o.bin",0', '.word 0x01020304', '.halfword 0x0506', '.byte 7', '.dword 8', '.close'], [], {}),
    ('nostringtable', ['.create "{p}o.bin",0', '.string "abc"', '.close'], [], {}),
    ('table', ['.loadtable "{p}t.tbl"', '.create "{p}o.bin",0', '.string "abc"', '.stringn "aab"', '.close'], [], {'{p}t.tbl': TAB}),
    ('table2', ['.table "{p}t.tbl"', '.create "{p}o.bin",0', '.stringn "abx"', '.close'], [], {'{p}t.tbl': TAB2}),
    ('tableempty', ['.loadtable "{p}t.tbl"', '.create "{p}o.bin",0', '.stringn "abc"', '.close'], [], {'{p}t.tbl': '99=q\n'}),
    ('gbadefault', ['.gba', '.create "{p}o.bin",0x08000000', ' mov r0,1', ' nop', ' ldr r1,=0x12345678', '.pool', '.close'], ['-stat'], {}),
    ('gbathumb', ['.gba', '.thumb', '.create "{p}o.bin",0x08000000', ' mov r0,1', 'lab1:', ' ldr r1,=lab1', '.pool', '.close'], ['-stat', '-sym', '{p}s.sym'], {}),
    ('ndsarm', ['.nds', '.create "{p}o.bin",0', ' mov r0,1', '.thumb', ' mov r0,1', '.close'], [], {}),
    ('ndsnopool', ['.nds', '.arm', '.create "{p}o.bin",0', ' ldr r0,=0xCAFEBABE', ' ldr r0,=0xCAFEBABE', '.close'], ['-stat'], {}),
    ('armbig', ['.arm.big', '.create "{p}o.bin",0', '.word 0x01020304', ' nop', '.close'], [], {}),
    ('psxdelay', ['.psx', '.create "{p}o.bin",0x80010000', ' lw a0,0(a1)', ' addu a2,a0,a0', ' nop', '.close'], [], {}),
    ('psxendload', ['.psx', '.create "{p}o.bin",0x80010000', ' nop', ' lw a0,0(a1)', '.close'], [], {}),
    ('psxendbranch', ['.psx', '.create "{p}o.bin",0x80010000', ' nop', ' j 0x80010000', '.close'], [], {}),
    ('psxstartuse', ['.psx', '.create "{p}o.bin",0x80010000', ' addu a2,a0,a0', ' beq a0,a1,0x80010000', ' nop', '.close'], [], {}),
    ('psxfix', ['.psx', '.fixloaddelay', '.create "{p}o.bin",0x80010000', ' lw a0,0(a1)', ' addu a2,a0,a0', '.close'], [], {}),
    ('psxreset', ['.psx', '.create "{p}o.bin",0x80010000', ' lw a0,0(a1)', '.resetdelay', ' addu a2,a0,a0', '.close'], [], {}),
    ('pspelf', ['.psp', '.create "{p}o.bin",0x8800000', ' li a0,0x12345678', 'func1:', ' jal func1', ' nop', '.close'], ['-sym2', '{p}s.sym'], {}),
    ('n64', ['.n64', '.create "{p}o.bin",0x80000000', ' daddiu a0,a0,1', '.word 1', '.close'], [], {}),
    ('rsp', ['.rsp', '.create "{p}o.bin",0x1000', ' vadd v1,v2,v3', '.word 1', '.close'], [], {}),
    ('saturn', ['.saturn', '.create "{p}o.bin",0x6000000', ' mov #1,r0', '.word 1', '.close'], [], {}),
    ('wrongarch', ['.saturn', '.create "{p}o.bin",0', ' addiu a0,a0,1', '.close'], [], {}),
    ('nocashon', ['.nocash on', '.gba', '.create "{p}o.bin",0', 'dw 1', 'dd 2', '.close'], [], {}),
    ('nocashdef', ['.gba', '.create "{p}o.bin",0', 'dw 1', 'dd 2', '.close'], [], {}),
    ('endian', ['.create "{p}o.bin",0', '.notice endianness()', '.word 1', '.n64', '.notice endianness()', '.word 1', '.close'], [], {}),
    ('isarm', ['.create "{p}o.bin",0', '.notice isarm()', '.close'], [], {}),
    ('isthumb', ['.gba', '.create "{p}o.bin",0', '.notice isarm() + 10 * isthumb()', '.thumb', '.notice isarm() + 10 * isthumb()', '.close'], [], {}),
    ('equ', ['val equ 1', '.create "{p}o.bin",0', '.byte val', '.close'], [], {}),
    ('equ2', ['val equ 2', 'word equ .byte', '.create "{p}o.bin",0', 'word val', '.close'], [], {}),
    ('noequ', ['.create "{p}o.bin",0', '.byte val', '.close'], [], {}),
    ('labelval', ['.create "{p}o.bin",0', 'val:', '.word val', '.close'], ['-temp', '{p}t.txt'], {}),
    ('deflabel', ['.definelabel val,0x77', '.definelabel lab1,0x99', '.create "{p}o.bin",0', '.byte val,lab1', '.close'], ['-sym', '{p}s.sym'], {}),
    ('ifdef', ['.create "{p}o.bin",0', '.ifdef val', '.byte 1', '.else', '.byte 2', '.endif', '.if defined(lab1)', '.byte 3', '.endif', '.close'], [], {}),
    ('macro', ['.macro mac,a', '@@x:', '.byte a', '.word @@x', '.endmacro', '.create "{p}o.bin",0', 'mac 1', 'mac 2', '.close'], ['-temp', '{p}t.txt'], {}),
    ('macro2', ['.macro mac', '.byte 9', '.endmacro', '.create "{p}o.bin",0', 'mac', '.close'], [], {}),
    ('nomacro', ['.create "{p}o.bin",0', 'mac 1', '.close'], [], {}),
    ('expfunc', ['.expfunc fn(x), x*2', '.create "{p}o.bin",0', '.byte fn(4)', '.close'], [], {}),
    ('expfunc2', ['.expfunc fn(x), x*3', '.create "{p}o.bin",0', '.byte fn(4)', '.close'], [], {}),
    ('noexpfunc', ['.create "{p}o.bin",0', '.byte fn(4)', '.close'], [], {}),
    ('relinc', ['.relativeinclude on', '.create "{p}o.bin",0', '.include "{p}d/a.asm"', '.close'], [], {'{p}d/a.asm': '.include "b.asm"\n', '{p}d/b.asm': '.byte 5\n'}),
    ('norelinc', ['.create "{p}o.bin",0', '.include "{p}d/a.asm"', '.close'], [], {'{p}d/a.asm': '.include "b.asm"\n', '{p}d/b.asm': '.byte 5\n'}),
    ('incerr', ['.create "{p}o.bin",0', '.include "{p}e.asm"', '.close'], [], {'{p}e.asm': '.byte 1\n.byte (\n'}),
    ('eowdir', ['.erroronwarning on', '.create "{p}o.bin",0', '.warning "w"', '.close'], [], {}),
    ('eowarg', ['.create "{p}o.bin",0', '.warning "w"', '.close'], ['-erroronwarning'], {}),
    ('warn', ['.create "{p}o.bin",0', '.warning "w"', '.notice "n"', '.close'], [], {}),
    ('symoff', ['.create "{p}o.bin",0', '.sym off', 'a1:', '.byte 1', '.close'], ['-sym', '{p}s.sym'], {}),
    ('symdef', ['.create "{p}o.bin",0', 'a1:', '.byte 1', '.close'], ['-sym', '{p}s.sym'], {}),
    ('sym2', ['.gba', '.arm', '.create "{p}o.bin",0', '.func f1', ' nop', '.endfunc', '.close'], ['-sym2', '{p}s.sym', '-temp', '{p}t.txt'], {}),
    ('unclosed', ['.psx', '.create "{p}o.bin",0', '.word 1'], [], {}),
    ('unclosed2', ['.create "{p}o.bin",0', '.byte 1', '.create "{p}o2.bin",0', '.byte 2', '.close'], [], {}),
    ('noopen', ['.byte 1', '.close'], [], {}),
    ('closetwice', ['.create "{p}o.bin",0', '.close', '.close'], [], {}),
    ('area', ['.create "{p}o.bin",0', '.area 16,1', '.byte 1', '.endarea', '.area 8', '.word 1', '.endarea', '.close'], ['-stat'], {}),
    ('areaover', ['.create "{p}o.bin",0', '.area 2', '.word 1', '.endarea', '.close'], ['-stat'], {}),
    ('areaopen', ['.create "{p}o.bin",0', '.area 2', '.byte 1'], ['-stat'], {}),
    ('region', ['.gba', '.create "{p}o.bin",0', '.region 64', '.endregion', '.autoregion', 'rr:', '.word rr', '.endautoregion', '.close'], ['-stat'], {}),
    ('regionfull', ['.gba', '.create "{p}o.bin",0', '.region 4', '.endregion', '.autoregion', '.word 1,2', '.endautoregion', '.close'], ['-stat'], {}),
    ('noregion', ['.gba', '.create "{p}o.bin",0', '.autoregion', '.word 1', '.endautoregion', '.close'], ['-stat'], {}),
    ('defregion', ['.gba', '.create "{p}o.bin",0', '.defineregion 0x20,0x20,0x11', '.autoregion', '.word 1', '.endautoregion', '.close'], ['-stat'], {}),
    ('statonly', ['.create "{p}o.bin",0', '.byte 1', '.close'], ['-stat'], {}),
    ('overlap', ['.create "{p}o.bin",0', '.area 16', '.byte 1', '.endarea', '.orga 8', '.area 16', '.byte 1', '.endarea', '.close'], ['-stat'], {}),
    ('loop', ['.create "{p}o.bin",0', '.fill (lx & 1) ? 0 : 1', 'lx:', '.close'], [], {}),
    ('local', ['.create "{p}o.bin",0', 'g1:', '@@l:', '.word @@l', 'g2:', '@@l:', '.word @@l', '@s:', '.word @s', '.close'], ['-temp', '{p}t.txt'], {}),
    ('nolocal', ['.create "{p}o.bin",0', '.word @@l', '.word @s', '.close'], [], {}),
    ('cmdequ', ['.create "{p}o.bin",0', '.byte cmdq', '.word cmdl', '.close'], ['-equ', 'cmdq', '7', '-definelabel', 'cmdl', '0x55'], {}),
    ('nocmdequ', ['.create "{p}o.bin",0', '.byte cmdq', '.word cmdl', '.close'], [], {}),
    ('badequ', ['.create "{p}o.bin",0', '.close'], ['-equ', '1x', '7'], {}),
    ('equloop', ['.create "{p}o.bin",0', '.close'], ['-equ', 'qq', 'rr', '-definelabel', 'qq', '1'], {}),
    ('badarg', ['.byte 1'], ['-nonsense'], {}),
    ('noinput', None, [], {}),
    ('missingopen', ['.open "{p}missing.bin",0', '.byte 1', '.close'], [], {}),
    ('headersize', ['.create "{p}o.bin",0x100', '.headersize 0x200', 'hs:', '.word hs', '.close'], ['-temp', '{p}t.txt'], {}),
    ('unterminated', ['.create "{p}o.bin",0', '.if 1', '.byte 1'], [], {}),
    ('unmacro', ['.macro mac', '.byte 1'], [], {}),
    ('recmacro', ['.macro mac', 'mac', '.endmacro', '.create "{p}o.bin",0', 'mac', '.close'], [], {}),
    ('pool', ['.gba', '.arm', '.create "{p}o.bin",0', ' ldr r0,=0x11111111', ' ldr r0,=0x22222222', '.pool', '.close'], ['-stat'], {}),
    ('undefd', ['.gba', '.thumb', '.create "{p}o.bin",0', ' bl undefinedthing', '.close'], [], {}),
    ('rangeerr', ['.gba', '.thumb', '.create "{p}o.bin",0', ' b .+0x100000', '.close'], [], {}),
    ('msg', ['.gba', '.arm', '.create "{p}o.bin",0', '.msg "hello"', '.close'], [], {}),
    ('armlabel', ['.gba', '.create "{p}o.bin",0x8000000', '.definethumblabel tl,0x8000100', '.definearmlabel al,0x8000200', '.thumb', ' bl tl', '.arm', ' bl al', '.close'], [], {}),
    ('empty', [''], ['-temp', '{p}t.txt', '-sym', '{p}s.sym'], {}),
    ('fileerr', ['.create "{p}nodir/o.bin",0', '.byte 1', '.close'], [], {}),
    ('staticarg', ['.create "{p}o.bin",0', '.word @sx', '.close'], ['-definelabel', '@sx', '5'], {}),
    ('staticequ', ['.create "{p}o.bin",0', '.word @sy', '.close'], ['-equ', '@sy', '5'], {}),
    ('inclast', ['.create "{p}o.bin",0', '.byte 1', '.close', '.include "{p}i.asm"'], [], {'{p}i.asm': '.include "{p}j.asm"\n', '{p}j.asm': '@sx equ 1\n@q2 equ 2\n'}),
    ('incmissing', ['.create "{p}o.bin",0', '.include "{p}i.asm"', '.close'], [], {'{p}i.asm': '.byte 1\n.include "{p}none.asm"\n.byte 2\n'}),
    ('endiannoarch', ['.notice endianness()'], [], {}),
    ('outputname', ['.create "{p}o.bin",0', '.notice outputname()', '.close', '.notice outputname()'], [], {}),
    ('orgnofile', ['.notice org()', '.notice orga()'], [], {}),
    ('fileio', ['.create "{p}o.bin",0', '.word readu8("{p}d.bin"),readu16("{p}d.bin",1),readu32("{p}d.bin",2)', '.incbin "{p}d.bin"', '.close'], [], {'{p}d.bin': 'abcdefghij'}),
    ('versions', ['.create "{p}o.bin",0', '.if version() >= 0', '.byte 1', '.endif', '.notice demangle("_Z1fv")', '.close'], [], {}),
    ('elfpsp', ['.psp', '.create "{p}o.bin",0', '.definelabel vfl,3', ' vadd.s s000,s001,s002', '.word vfl', '.close'], [], {}),
    ('tempopen', ['.psx', '.create "{p}o.bin",0', ' li a0,0x12345678', 'tl1:', '.close'], ['-temp', '{p}t.txt', '-sym', '{p}s.sym', '-root', '.'], {}),
    ('genname', ['.psx', '.create "{p}o.bin",0x100', '__armips_label_00000000__:', '.word 1', '@@__armips_label_00000000__:', '.byte 1', '.align 4', '@@__armips_label_00000001__:', '.word @@__armips_label_00000001__', '__armips_label_00000002__:', '.word 3', '.close'],
     ['-temp', '{p}t.txt', '-sym', '{p}s.sym'], {}),
    ('genuse', ['.psx', '.create "{p}o.bin",0', ' li a0,0x12345678', ' la a1,0x80101234', ' ulw a0,4(a1)', ' blt a0,a1,gu1', ' nop', ' gu1:', '.close'], [], {}),
    ('thumbend', ['.gba', '.create "{p}o.bin",0', '.arm', ' nop', '.thumb', ' nop', 'te1:', '.close'], ['-sym', '{p}s.sym'], {}),
    ('poolleft', ['.gba', '.thumb', '.create "{p}o.bin",0', ' ldr r0,=0x12345', ' ldr r0,=0x12346', '.close'], [], {}),
    ('poolonly', ['.gba', '.arm', '.create "{p}o.bin",0', '.pool', '.byte 1', '.close'], [], {}),
    ('dupmacrolabel', ['.macro mm', '.byte 1', 'mlab:', '.endmacro', '.create "{p}o.bin",0', 'mm', 'mm', '.close'], [], {}),
    ('include2', ['.create "{p}o.bin",0', '.include "{p}i.asm"', '.include "{p}i.asm"', '.close'], ['-temp', '{p}t.txt'], {'{p}i.asm': '@st:\n.word @st\n'}),
]


def mem_probe(rng, p):
    """A probe's source given to the library as a string, with a host-supplied output."""
    name, src, args, extra = rng.choice([x for x in PROBES if x[1]])
    f = lambda s: s.replace('{p}', p)
    return {'files': {f(k): v for k, v in extra.items()}, 'content': f('\n'.join(src)) + '\n', 'tags': ['memprobe:' + name]}


def probe(rng, p, only=None):
    name, src, args, extra = only or rng.choice(PROBES)
    f = lambda s: s.replace('{p}', p)
    files = {f(k): v for k, v in extra.items()}
    main = p + 'main.asm'
    if src is not None:
        files[main] = f('\n'.join(src)) + '\n'
    return {'files': files, 'args': ['armips'] + [f(a) for a in args] + [main], 'tags': ['probe:' + name]}
