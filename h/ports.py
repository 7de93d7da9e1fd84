#!/usr/bin/env python3
"""C24: random make/jump/ontop histories for the assembler ports of processors this machine does not have. The sources are
assembled (clang) and linked (lld), disassembled (llvm-objdump) and executed instruction by instruction (emu.py); the
contexts themselves are played by this program, which behaves as nastily as the port's calling convention allows: every
caller-saved register and every byte a callee may overwrite is filled with junk, every callee-saved register is remembered."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, struct, subprocess, sys, time
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.environ.get('VERIF_HERE', os.path.dirname(os.path.abspath(__file__)))
while not os.path.exists(os.path.join(ROOT, 'jobs.py')) and ROOT != '/': ROOT = os.path.dirname(ROOT)
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, 'h')]
import emu
from genprog import Src

def R(fmt, a, b): return [fmt % i for i in range(a, b)]
class Abi:
    big = False; sret = False; byref = False; callee_area = 0; align = 16; sretret = False; descr = False; fenv = (); fmask = 1 << 64; entryreg = None; teb = None; fixed = (); bias = 0; retoff = 0; win = False; noontop = False; scr = None; strictsp = False; redzone = 0
    def __init__(s, **k): s.__dict__.update(k)
    def like(s, **k): n = Abi(**s.__dict__); n.__dict__.update(k); return n
A64 = Abi(cpu=emu.Arm64, ptr=8, args=R('x%d', 0, 4), res=('x0', 'x1'), sp='sp', lr='x30', cs=R('x%d', 19, 30), fcs=R('d%d', 8, 16), vol=R('x%d', 0, 18) + ['x30'], fvol=R('d%d', 0, 8) + R('d%d', 16, 32))
ARM = Abi(cpu=emu.Arm, ptr=4, args=R('r%d', 0, 4), res=None, sp='sp', lr='lr', cs=R('r%d', 4, 12), fcs=R('d%d', 8, 16), vol=R('r%d', 0, 4) + ['r12', 'lr'], fvol=R('d%d', 0, 8) + R('d%d', 16, 32), sret=True, align=8)
RV = Abi(cpu=emu.Riscv, ptr=8, args=R('a%d', 0, 4), res=('a0', 'a1'), sp='sp', lr='ra', cs=R('s%d', 0, 12), fixed=('gp', 'tp'), fcs=R('fs%d', 0, 12), vol=R('a%d', 0, 8) + R('t%d', 0, 7) + ['ra'], fvol=R('ft%d', 0, 12) + R('fa%d', 0, 8))
LA = Abi(cpu=emu.Loong, ptr=8, args=R('$a%d', 0, 4), res=('$a0', '$a1'), sp='$sp', lr='$ra', cs=R('$s%d', 0, 9) + ['$fp'], fixed=('$tp', '$r21'), fcs=R('$fs%d', 0, 8), vol=R('$a%d', 0, 8) + R('$t%d', 0, 9) + ['$ra'], fvol=R('$fa%d', 0, 8) + R('$ft%d', 0, 16))
M32 = Abi(cpu=emu.Mips32, ptr=4, args=R('$%d', 4, 8), res=None, sp='$sp', lr='$ra', cs=R('$%d', 16, 24) + ['$fp'], fcs=['$f%d' % i for i in range(20, 32, 2)], vol=R('$%d', 1, 16) + ['$24', '$25', '$gp', '$ra'], fvol=['$f%d' % i for i in range(0, 20, 2)], sret=True, sretret='$2', callee_area=16, align=8, entryreg='$25', big=True)
M64 = Abi(cpu=emu.Mips, ptr=8, args=R('$%d', 4, 8), res=('$2', '$3'), sp='$sp', lr='$ra', cs=R('$%d', 16, 24) + ['$fp', '$gp'], fcs=R('$f%d', 24, 32), vol=R('$%d', 1, 16) + ['$24', '$25', '$ra'], fvol=R('$f%d', 0, 24), entryreg='$25', big=True)
P32 = Abi(cpu=emu.Ppc32, ptr=4, args=R('r%d', 3, 8), res=None, sp='r1', lr='lr', cs=R('r%d', 14, 32), fixed=('r2', 'r13'), fcs=R('f%d', 14, 32), vol=['r0'] + R('r%d', 3, 13) + ['ctr', 'lr'], fvol=R('f%d', 0, 14), sret=True, byref=True, callee_area=8, fenv=('fpscr',), big=True, cr=0x00fff000, keepword=0)
P64 = Abi(redzone=288, cpu=emu.Ppc, ptr=8, args=R('r%d', 3, 8), res=('r3', 'r4'), sp='r1', lr='lr', cs=R('r%d', 14, 32) + ['r2'], fixed=('r13',), fcs=R('f%d', 14, 32), vol=['r0'] + R('r%d', 3, 13) + ['ctr', 'lr'], fvol=R('f%d', 0, 14), callee_area=32, cr=0x00fff000, entryreg='r12', keepword=0)
P64V1M = P64.like(res=None, sret=True, callee_area=64, entryreg=None, descr=True, big=True)      # every function with its own TOC
P64V1 = P64V1M.like(cs=R('r%d', 14, 32), fixed=('r13', 'r2'))                                     # all code in one module
AIX64 = P64V1
AIX32 = P32.like(redzone=220, cs=R('r%d', 13, 32), fixed=('r2',), byref=False, callee_area=32, descr=True)   # 24 bytes of linkage area and two parameter words
MAC32 = P32.like(redzone=224, cs=R('r%d', 13, 32), fixed=(), vol=P32.vol + ['r2'], byref=False, callee_area=32)
MAC64 = P64V1.like(descr=False, fixed=('r13',), vol=P64.vol + ['r2'])
S390 = Abi(cpu=emu.S390, ptr=8, args=['%r2', '%r3', '%r4', '%r5'], res=None, sp='%r15', lr='%r14', cs=['%%r%d' % i for i in range(6, 14)], fcs=['%%f%d' % i for i in range(8, 16)], vol=['%%r%d' % i for i in (0, 1, 2, 3, 4, 5, 14)], fvol=['%%f%d' % i for i in range(0, 8)], sret=True, byref=True, callee_area=160, align=8, fenv=('fpc',), big=True)

SPARC = Abi(cpu=emu.Sparc, ptr=8, args=R('%%o%d', 0, 4), res=('%o0', '%o1'), sp='%o6', lr='%o7', cs=R('%%l%d', 0, 8) + R('%%i%d', 0, 6), fcs=[], vol=R('%%o%d', 0, 6) + ['%o7', '%g1', '%g4', '%g5'], fixed=('%g2', '%g3', '%g6', '%g7'), fvol=[], callee_area=176, scr=(128, 176), big=True, bias=2047, retoff=8, win=True)

# name: (abi, clang target, further flags, source suffix, conversion, symbol prefix)
PORTS = {
    'arm64-elf': (A64, 'aarch64-linux-gnu', '', 'arm64_aapcs_elf_gas.S', None),
    'arm64-macho': (A64.like(redzone=128), 'aarch64-linux-gnu', '', 'arm64_aapcs_macho_gas.S', 'macho64'),
    'arm64-pe-armclang': (A64.like(redzone=16, teb=('x18', dict(base=8, limit=16, dealloc=0x1478, fdata=0x20))), 'aarch64-linux-gnu', '', 'arm64_aapcs_pe_armclang.S', 'coff'),
    'arm64-pe-armasm': (A64.like(redzone=16, teb=('x18', dict(base=8, limit=16, dealloc=0x1478, fdata=0x20))), 'aarch64-linux-gnu', '', 'arm64_aapcs_pe_armasm.asm', 'armasm'),
    'arm-elf-hard': (ARM, 'armv7-linux-gnueabihf', '', 'arm_aapcs_elf_gas.S', None),
    'arm-elf-soft': (ARM.like(fcs=[]), 'armv5te-linux-gnueabi', '-mfloat-abi=soft', 'arm_aapcs_elf_gas.S', None),
    'arm-macho': (ARM.like(sjlj=72, align=4), 'armv7-linux-gnueabihf', '', 'arm_aapcs_macho_gas.S', 'macho32'),
    'loongarch64-elf': (LA, 'loongarch64-linux-gnu', '', 'loongarch64_sysv_elf_gas.S', None),
    'mips32-o32-be': (M32, 'mips-linux-gnu', '', 'mips32_o32_elf_gas.S', None),
    'mips32-o32-le': (M32.like(big=False), 'mipsel-linux-gnu', '', 'mips32_o32_elf_gas.S', None),
    'mips64-n64-be': (M64, 'mips64-linux-gnuabi64', '', 'mips64_n64_elf_gas.S', None),
    'mips64-n64-le': (M64.like(big=False), 'mips64el-linux-gnuabi64', '', 'mips64_n64_elf_gas.S', None),
    'ppc32-linux': (P32, 'powerpc-linux-gnu', '', 'ppc32_sysv_elf_gas.S', None),
    'ppc32-bsd': (P32.like(sret=False, res=('r3', 'r4')), 'powerpc-unknown-netbsd', '', 'ppc32_sysv_elf_gas.S', None),
    'ppc64-elfv1': (P64V1, 'powerpc64-linux-gnu', '-mabi=elfv1 -D_CALL_LINUX=1', 'ppc64_sysv_elf_gas.S', None),
    'ppc64-elfv1-modules': (P64V1M, 'powerpc64-linux-gnu', '-mabi=elfv1 -D_CALL_LINUX=1', 'ppc64_sysv_elf_gas.S', None),
    'ppc64le-elfv2-vmx': (P64.like(cs=P64.cs + R('v%d', 20, 32)), 'powerpc64le-linux-gnu', '-mabi=elfv2', 'ppc64_sysv_elf_gas.S', None),
    'ppc64le-elfv2': (P64, 'powerpc64le-linux-gnu', '-mabi=elfv2', 'ppc64_sysv_elf_gas.S', None),
    'ppc64-elfv2': (P64.like(big=True), 'powerpc64-linux-gnu', '-mabi=elfv2', 'ppc64_sysv_elf_gas.S', None),
    'ppc64-xcoff': (AIX64, 'powerpc64-linux-gnu', '-mabi=elfv1', 'ppc64_sysv_xcoff_gas.S', 'xcoff'),
    'ppc32-xcoff': (AIX32, 'powerpc64-linux-gnu', '-mabi=elfv1', 'ppc32_sysv_xcoff_gas.S', 'xcoff'),
    'ppc64-elfv1-tocs': (P64V1M.like(noontop=True), 'powerpc64-linux-gnu', '-mabi=elfv1 -D_CALL_LINUX=1', 'ppc64_sysv_elf_gas.S', None),
    'ppc64-xcoff-tocs': (P64V1M.like(noontop=True), 'powerpc64-linux-gnu', '-mabi=elfv1', 'ppc64_sysv_xcoff_gas.S', 'xcoff'),
    'ppc32-xcoff-tocs': (AIX32.like(noontop=True, cs=AIX32.cs + ['r2'], fixed=()), 'powerpc64-linux-gnu', '-mabi=elfv1', 'ppc32_sysv_xcoff_gas.S', 'xcoff'),
    'ppc32-macho': (MAC32, 'powerpc-linux-gnu', '', 'ppc32_sysv_macho_gas.S', 'machoppc'),
    'ppc64-macho': (MAC64, 'powerpc64-linux-gnu', '-mabi=elfv1', 'ppc64_sysv_macho_gas.S', 'machoppc'),
    'riscv64-elf': (RV, 'riscv64-linux-gnu', '-march=rv64gc -mabi=lp64d', 'riscv64_sysv_elf_gas.S', None),
    'sparc64-elf': (SPARC, 'sparc64-linux-gnu', '', 'sparc64_sysv_elf_gas.S', None),
    's390x-elf': (S390, 's390x-linux-gnu', '', 's390x_sysv_elf_gas.S', None),
}
KNOWN = ('ppc64-elfv1-modules', 'ppc64le-elfv2-vmx', 'ppc64-macho')      # not part of the default selection: known findings, see DESIGN.md
EXIT = 0x18000
FN, ONTOP, RET = 0x18100, 0x18200, 0x19000
STACKS = 5
SSIZE = 4096

def sh(c):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'); return r.returncode, r.stdout
def convert(kind, text):
    o = []
    for l in text.splitlines():
        if kind == 'macho64': l = re.sub(r';.*', '', l)
        if kind in ('macho64', 'macho32') and re.match(r'\s*\.(private_extern|subsections)', l): continue
        if kind == 'machoppc':
            l = re.sub(r';.*', '', l)
            if re.match(r'\s*\.(private_extern|section|non_lazy|indirect)', l): continue
            l = re.sub(r'\b[rf](\d+)\b', r'\1', l).replace('.const_data', '.section .rodata')
            l = re.sub(r'\blo16\(((?:[^()]|\([^()]*\))*)\)', r'(\1)@l', l); l = re.sub(r'\bha16\(((?:[^()]|\([^()]*\))*)\)', r'(\1)@ha', l)
        if kind == 'xcoff':
            m = re.match(r'\s*\.(llong|long)\s+(\.\w+)\[PR\], TOC\[tc0\], 0', l)
            if m: l = '.%s %s, 0, 0\n.text' % ('quad' if m.group(1) == 'llong' else 'long', m.group(2))
            elif re.match(r'\w+:$', l) and l[:-1] in ('make_fcontext', 'jump_fcontext', 'ontop_fcontext'): l = '.data\n.globl %s\n%s' % (l[:-1], l)
            elif re.match(r'\s*\.(toc|csect|file|globl)', l): continue
            l = re.sub(r'\._exit\b', '_exit', l)
        if kind == 'coff' and re.match(r'\s*\.(def|seh_|endef|section\s+\.drectve|ascii)', l): continue
        if kind == 'armasm':
            l = re.sub(r';.*', '', l); w = l.split()
            if not w: continue
            if w[0] in ('AREA', 'EXPORT', 'IMPORT', 'ALIGN', 'END', 'ENDP', 'PRESERVE8', 'THUMB', 'ARM', 'REQUIRE8') or 'endp' in map(str.lower, w): continue
            if 'proc' in map(str.lower, w): l = '.globl %s\n%s:' % (w[0], w[0])
            elif not l[0].isspace(): l = '%s: %s' % (w[0], ' '.join(w[1:]))
        o.append(l)
    return '.text\n' + '\n'.join(o) + '\n'
class Port:
    """an assembled and linked port"""
    def __init__(s, name, d):
        abi, tgt, fl, src, conv = PORTS[name]; s.abi, s.name, s.err = abi, name, ''
        wd = os.path.join(d, name); os.makedirs(wd); objs = []
        for f in ('make', 'jump', 'ontop'):
            p = os.path.join(REPO, 'src/asm', f + '_' + src)
            if conv:
                q = os.path.join(wd, f + '.S'); open(q, 'w').write(convert(conv, open(p).read())); p = q
            o = os.path.join(wd, f + '.o')
            rc, out = sh(['clang', '-target', tgt, '-x', 'assembler-with-cpp'] + fl.split() + ['-c', p, '-o', o])
            if rc: s.err = 'the port %s does not assemble: %s' % (name, out[-300:]); return
            objs.append(o)
        defs = ['--defsym=_exit=%d' % EXIT, '--defsym=__exit=%d' % EXIT]
        if name == 'ppc32-macho':      # no compiler for this ABI: what tail_ontop_ppc32_sysv.cpp means there
            o = os.path.join(wd, 'tail.o'); open(wd + '/tail.S', 'w').write('.text\n.globl _ontop_fcontext_tail\n_ontop_fcontext_tail:\nmr 4, 7\nmtctr 6\nbctr\n')
            sh(['clang', '-target', tgt, '-c', wd + '/tail.S', '-o', o]); objs.append(o)
        elif 'ppc32' in name and 'xcoff' not in name:
            o = os.path.join(wd, 'tail.o'); os.makedirs(wd + '/gnu'); open(wd + '/gnu/stubs-32.h', 'w').close()
            rc, out = sh(['clang++', '-target', tgt, '-O2', '-fno-exceptions', '-fno-asynchronous-unwind-tables', '-nostdinc++', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', wd, '-DBOOST_CONTEXT_NO_LIB', '-DBOOST_CONTEXT_STATIC_LINK', '-DBOOST_CONTEXT_EXPORT=', '-I' + REPO + '/include', '-std=c++14', '-c', os.path.join(REPO, 'src/asm/tail_ontop_ppc32_sysv.cpp'), '-o', o])
            if rc: s.err = 'the port %s does not compile: %s' % (name, out[-600:]); return
            objs.append(o)
        exe = os.path.join(wd, 'p')
        rc, out = sh(['ld.lld', '--fatal-warnings', '-Ttext=0x10000', '--entry=0'] + defs + objs + ['-o', exe])
        if rc: s.err = 'the port %s does not link: %s' % (name, out[-300:]); return
        s.text = sh(['llvm-objdump-18', '-d', '--no-show-raw-insn', exe])[1]
        s.sym = {}
        for l in sh(['llvm-nm-18', exe])[1].splitlines():
            m = re.match(r'([0-9a-f]+) (\S) (\S+)$', l)
            if m: s.sym[m.group(3).lstrip('_')] = int(m.group(1), 16)
        s.image = []
        for l in sh(['llvm-readelf-18', '-lW', exe])[1].splitlines():
            m = re.match(r'\s+LOAD\s+0x(\w+)\s+0x(\w+)\s+0x\w+\s+0x(\w+)\s+0x(\w+)', l)
            if m:
                off, va, fs, ms = (int(x, 16) for x in m.groups()); data = open(exe, 'rb').read()[off:off + fs]; s.image.append((va, bytearray(data + b'\0' * (ms - fs))))
        s.image = [x for i, x in enumerate(s.image) if x[1] and not any(y[0] <= x[0] and x[0] + len(x[1]) <= y[0] + len(y[1]) and j != i and (len(y[1]) > len(x[1]) or j > i) for j, y in enumerate(s.image))]
class Bad(Exception): pass
SIGNALS = False
class World:
    """one history"""
    def __init__(w, port, src):
        w.p, w.a, w.s = port, port.abi, src; a = w.a
        w.m = emu.Mem(a.big); w.cpu = a.cpu(w.m)
        for va, d in port.image: w.m.add(va, bytearray(d), False)
        w.cpu.load(port.text) if not hasattr(port, 'code') else None
        sd = src.d(1 << 30); w.rng = random.Random(sd); w.sig = random.Random(sd ^ 0x5167)
        w.base = 0x7f1234560000 if a.ptr == 8 else 0x7ffd0000
        w.mask = (1 << 8 * a.ptr) - 1
        w.arena = bytearray(w.rng.randbytes(STACKS * SSIZE + 4096)); w.m.add(w.base, w.arena, True)
        if a.descr:
            w.dbase = 0x40000; w.dd = bytearray(0x1000); w.m.add(w.dbase, w.dd, False); w.toc = {}
        if a.teb: w.tebbase = 0x7ff700000000; w.m.add(w.tebbase, bytearray(0x2000), True)
        if getattr(a, 'sjlj', 0): w.tls = 0x5a000000; w.m.add(w.tls, bytearray(128), True); w.cpu.tls = w.tls | 1
        w.n = 0; w.log = []; w.stats = collections.Counter(); w.ids = {}; w.rets = {}
        w.ctx = {0: dict(k=0, st='run', lo=w.base + 64, hi=w.base + SSIZE, sp=w.base + SSIZE - 512, fr=[])}; w.cur = 0
        w.st = collections.Counter(); w.setsp(w.ctx[0]['sp'])
        for n in a.fixed: w.cpu.r[n] = w.rng.getrandbits(8 * a.ptr)
    def getsp(w): return (w.cpu.r[w.a.sp] + w.a.bias) & w.mask
    def setsp(w, v): w.cpu.r[w.a.sp] = (v - w.a.bias) & w.mask
    def val(w):
        k = w.s.d(6)
        return (w.rng.getrandbits(8 * w.a.ptr), 0, w.mask, 1 << (8 * w.a.ptr - 1), w.rng.getrandbits(16), w.rng.getrandbits(8 * w.a.ptr) & ~0xf)[k]
    def junk(w, keep=()):
        r = w.cpu.r
        for n in w.a.vol: r[n] = w.rng.getrandbits(8 * w.a.ptr)
        for n in w.a.fvol: r[n] = w.rng.getrandbits(64)
        if hasattr(w.a, 'cr'): r['cr'] = (r['cr'] & w.a.cr) | (w.rng.getrandbits(32) & ~w.a.cr)
    def state(w, fresh=True):
        """load random values into everything that is preserved, return what must be found again"""
        r = w.cpu.r; a = w.a; e = {}
        for n in a.cs: r[n] = w.rng.getrandbits(8 * a.ptr)
        for n in a.fcs: r[n] = w.rng.getrandbits(64)
        if hasattr(a, 'cr'): r['cr'] = w.rng.getrandbits(32)
        for n in a.fenv:
            if w.s.d(3) == 1: r[n] = w.rng.getrandbits(31) & 0x00ffffff
        if a.teb: r[a.teb[0]] = w.tebbase; w.setteb({f: w.rng.getrandbits(64) for f in a.teb[1]})
        if getattr(a, 'sjlj', 0): w.m.poke(w.tls + a.sjlj, 4, w.rng.getrandbits(32))
        return w.snap()
    def setteb(w, v):
        for f, x in v.items(): w.m.poke(w.tebbase + w.a.teb[1][f], 8, x)
    def snap(w):
        r = w.cpu.r; a = w.a; e = {n: r[n] for n in list(a.cs) + list(a.fcs) + list(a.fenv) + list(a.fixed)}
        if hasattr(a, 'cr'): e['cr'] = r['cr'] & a.cr
        if a.win: e['%i6'], e['%i7'] = r['%i6'], r['%i7']
        if a.teb:
            for f, o in a.teb[1].items(): e['teb ' + f] = w.m.rd(w.tebbase + o, 8)
        if getattr(a, 'sjlj', 0): e['sjlj'] = w.m.rd(w.tls + a.sjlj, 4)
        return e
    def restore(w, e):
        for n, v in e.items():
            if n == 'cr': w.cpu.r['cr'] = (w.cpu.r['cr'] & ~w.a.cr) | v
            elif n.startswith('teb '): w.m.poke(w.tebbase + w.a.teb[1][n[4:]], 8, v)
            elif n == 'sjlj': w.m.poke(w.tls + w.a.sjlj, 4, v)
            else: w.cpu.r[n] = v
    def same(w, e, what):
        g = w.snap()
        for n in e:
            if g[n] != e[n]: raise Bad('%s: %s is %#x, expected %#x' % (what, n, g[n], e[n]))
    def fnptr(w, code):
        if not w.a.descr: return code
        o = w.dbase + (code - FN) // 16 * 32; w.toc[code] = w.cpu.r['r2'] if 'r2' in w.a.fixed else w.rng.getrandbits(8 * w.a.ptr - 1)
        n = w.a.ptr; w.m.poke(o, n, code); w.m.poke(o + n, n, w.toc[code]); return o
    def entry(w, sym):
        if w.a.descr:
            d = w.p.sym[sym]; return w.m.rd(d, w.a.ptr)
        return w.p.sym[sym]
    def spcheck(w, c, what, area):
        sp = w.getsp()
        if sp % w.a.align: raise Bad('%s: the stack pointer %#x is not aligned to %d bytes' % (what, sp, w.a.align))
        if not (c['lo'] <= sp and sp + area <= c['hi']): raise Bad('%s: the stack pointer %#x is outside the stack [%#x, %#x)' % (what, sp, c['lo'], c['hi']))
        return sp
    def go(w, pc, allowed, what):
        stop = set(w.rets) | {EXIT} | {FN + 16 * i for i in range(16)} | {ONTOP + 16 * i for i in range(16)}
        w.m.log.clear()
        w.cpu.irq = None
        if SIGNALS and w.sig.random() < 0.6:        # a signal handler runs between any two instructions and uses the stack below sp (and the red zone)
            every = w.sig.random() < 0.5; a = w.a; w.st['interrupted'] += 1
            def irq(t):
                if not every and w.sig.random() < 0.9: return
                sp = w.getsp()
                if not any(lo <= sp <= hi for lo, hi in allowed): raise emu.Fault('a signal arriving after %s finds the stack pointer %#x outside of the stacks involved' % (t, sp))
                lo = max(l for l, h in allowed if l <= sp <= h); hi = sp - a.redzone; lo = max(lo, hi - 400)
                if lo < hi: w.arena[lo - w.base:hi - w.base] = w.sig.randbytes(hi - lo)
                if a.win: w.cpu.everything()
            w.cpu.irq = irq
        try: x = w.cpu.run(pc, stop)
        except emu.Fault as e: raise Bad('%s: %s' % (what, e))
        for ad, n in w.m.log:
            if not any(lo <= ad and ad + n <= hi for lo, hi in allowed):
                if w.a.teb and w.tebbase <= ad < w.tebbase + 0x2000 and ad - w.tebbase in w.a.teb[1].values(): continue
                if getattr(w.a, 'sjlj', 0) and ad == w.tls + w.a.sjlj: continue
                raise Bad('%s: wrote %d bytes at %#x, outside of the stacks involved' % (what, n, ad))
        return x
    def scribble(w, lo, hi):
        for ad in range(lo, hi, 4): w.m.poke(ad, min(4, hi - ad), w.rng.getrandbits(32))
    def call(w, c, regs, extra=0):
        """prepare a call out of the running context c: a frame, random preserved registers, junk elsewhere"""
        a = w.a; r = w.cpu.r; sp = c['sp'] - a.callee_area - 32 - a.align * w.s.d(6); sp -= sp % a.align
        if sp - 900 < c['lo']: return None
        w.junk()
        if a.win and w.s.d(4) == 1: w.cpu.everything()
        w.setsp(sp)
        if hasattr(a, 'keepword'): w.m.poke(sp, a.ptr, c['sp'])      # back chain
        return sp
    # -- operations
    def make(w, k):
        a, r = w.a, w.cpu.r; cur = w.ctx[w.cur]
        hi = w.base + k * SSIZE + SSIZE - 64 + w.s.d(48); lo = w.base + (k - 1) * SSIZE + SSIZE + 64; size = (hi - lo, SSIZE - 200, 2048, 1024)[w.s.d(4)]
        e = w.state(); sp = w.call(cur, 3)
        if sp is None: return False
        r[a.args[0]], r[a.args[1]], r[a.args[2]] = hi, size, w.fnptr(FN + 16 * k)
        ent = w.entry('make_fcontext'); ret = RET + 16 * w.n; w.n += 1; w.rets[ret] = 1
        if a.entryreg: r[a.entryreg] = ent
        if a is M64 or a.cpu is emu.Mips and a.ptr == 8: r['$gp'] = w.p.sym['gp']; e['$gp'] = r['$gp']
        if a.descr: r['r2'] = e['r2']
        r[a.lr] = ret - a.retoff; x = w.go(ent, [(max(lo, hi - size), hi), (cur['lo'], sp + a.callee_area)], 'make_fcontext')
        what = 'make_fcontext(sp=%#x, size=%d)' % (hi, size)
        w.rets.pop(ret)
        if x != ret: raise Bad(what + ' does not return')
        if w.getsp() != sp: raise Bad(what + ' changes the stack pointer')
        if a.cpu is emu.Ppc and not a.descr: e.pop('r2', None)      # ELFv2: the caller restores it
        w.same(e, what)
        res = r[a.args[0]] if not a.cpu in (emu.Mips, emu.Mips32) else r['$2']
        w.ctx[k] = dict(k=k, st='fresh', lo=max(lo, hi - size), hi=hi, fr=[], fenv={n: r[n] for n in a.fenv}, id=res, size=size)
        if not max(lo, hi - size) <= (res + a.bias) & w.mask < hi: raise Bad(what + ' returns %#x' % res)
        if w.s.d(2): w.scribble(max(lo, hi - size), (res + a.bias) & w.mask)               # below the identity nothing is kept
        w.st['make'] += 1
        return True
    def transfer(w, t, k, ontop):
        a, r = w.a, w.cpu.r; c, T = w.ctx[w.cur], w.ctx[k]
        what = '%s from context %d to %d' % ('ontop_fcontext' if ontop else 'jump_fcontext', c['k'], k)
        if c['sp'] - c['lo'] < 1400: return False
        e = w.state(); 
        sret = 0; sp = c['sp']
        if a.sret: sp -= 32; sret = sp - sp % 16; sp = sret
        old = c['sp']; c['sp'] = sp; nsp = w.call(c, 4)
        data = w.val(); ret = RET + 16 * w.n; w.n += 1
        ar = ([sret] if a.sret else []) + [T['id'], data] + ([w.fnptr(ONTOP + 16 * w.cur)] if ontop else [])
        for n, v in zip(a.args, ar): r[n] = v
        ent = w.entry('ontop_fcontext' if ontop else 'jump_fcontext')
        if a.entryreg: r[a.entryreg] = ent
        if a.cpu is emu.Ppc and not a.descr: e.pop('r2', None)
        r[a.lr] = ret - a.retoff
        c['fr'].append(dict(ret=ret, e=e, sp=nsp, old=old, sret=sret)); c['st'] = 'susp'; w.rets[ret] = c['k']
        src = w.cur
        allowed = [(c['lo'], nsp + a.callee_area)]
        if T['st'] == 'fresh': allowed.append((T['lo'], T['hi']))
        else:
            f = T['fr'][-1]; allowed.append((T['lo'], f['sp'] + a.callee_area))
            if f['sret']: allowed.append((f['sret'], f['sret'] + 2 * a.ptr))
        fenv = {n: r[n] for n in a.fenv}
        x = w.go(ent, allowed, what); w.st['ontop' if ontop else 'jump'] += 1
        w.arrive(x, k, src, data, what, ontop, fenv)
        return True
    def rdt(w, at): return w.m.rd(at, w.a.ptr), w.m.rd(at + w.a.ptr, w.a.ptr)
    def args(w, T, what, with_sret):
        """the transfer_t passed to a function that is entered"""
        a, r = w.a, w.cpu.r; i = 0; rp = None
        if with_sret and a.sret: rp = r[a.args[0]]; i = 1
        if a.byref:
            at = r[a.args[i]]
            if not T['lo'] <= at <= T['hi'] - 2 * a.ptr and not any(c['lo'] <= at < c['hi'] for c in w.ctx.values()): raise Bad('%s: the transfer_t is passed at %#x' % (what, at))
            try: t = w.rdt(at)
            except emu.Fault as e: raise Bad('%s: %s' % (what, e))
            w.byref = at
        else: t = r[a.args[i]], r[a.args[i + 1]]
        return t, rp
    def arrive(w, x, k, src, data, what, ontop, fenv):
        a, r = w.a, w.cpu.r; T = w.ctx[k]
        if T['st'] == 'fresh':
            if x != FN + 16 * k: raise Bad('%s: control arrives at %#x instead of the function of the new context' % (what, x))
            what += ', entry of a new context'; sp = w.spcheck(T, what, a.callee_area if not a.callee_area == 64 else 64); t, _ = w.args(T, what, False)
            if a.entryreg and r[a.entryreg] != x: raise Bad('%s: %s does not contain the address of the function' % (what, a.entryreg))
            if a.descr and r['r2'] != w.toc[x]: raise Bad('%s: r2 does not contain the TOC pointer of the function' % what)
            for n, v in T['fenv'].items():
                if r[n] != v: raise Bad('%s: %s is %#x, %#x where the context was created' % (what, n, r[n], v))
            if hasattr(a, 'keepword') and w.m.rd(sp, a.ptr) != 0: raise Bad('%s: the back chain is not terminated' % what)
            if a.teb:
                for f, v in (('base', T['hi']), ('limit', T['hi'] - T['size']), ('dealloc', T['hi'] - T['size']), ('fdata', 0)):
                    g = w.m.rd(w.tebbase + a.teb[1][f], 8)
                    if g != v: raise Bad('%s: the thread block\'s %s is %#x, expected %#x' % (what, f, g, v))
            T['entry'] = dict(lr=r[a.lr], sp=sp, e=w.snap()); T['sp'] = sp
            w.st['entered'] += 1
        elif ontop:
            if x != ONTOP + 16 * src: raise Bad('%s: control arrives at %#x instead of the on-top function' % (what, x))
            f = T['fr'][-1]; what += ', on-top function'
            sp = w.spcheck(dict(lo=T['lo'], hi=f['sp'] + a.callee_area), what, 0); t, rp = w.args(T, what, True)
            if sp + a.callee_area > f['sp'] + a.callee_area: raise Bad('%s: the callee may overwrite the frame of the suspended call' % what)
            if a.entryreg and r[a.entryreg] != x: raise Bad('%s: %s does not contain the address of the function' % (what, a.entryreg))
            if a.descr and r['r2'] != w.toc[x]: raise Bad('%s: r2 does not contain the TOC pointer of the function' % what)
            if hasattr(a, 'keepword'): w.backchain(T, sp, what)
            T['fr'].append(dict(ontop=1, lr=r[a.lr], sp=sp, e=w.snap(), rp=rp)); T['sp'] = sp
            w.st['ontop entered'] += 1
        else:
            f = T['fr'].pop(); t = w.returned(x, T, f, what)
        T['st'] = 'run'; w.cur = k
        S = w.ctx[src]
        if t[1] != data: raise Bad('%s: the data pointer is %#x, expected %#x' % (what, t[1], data))
        S['id'] = t[0]
        if not S['lo'] <= (t[0] + a.bias) & w.mask < S['hi']: raise Bad('%s: the identity %#x is not within the suspended context' % (what, t[0]))
        # the callee's frame: what it may overwrite is overwritten
        entry = x in (FN + 16 * k, ONTOP + 16 * src)
        if entry or T['fr'] and 'ontop' in T['fr'][-1]:
            sp = T['sp']; lo = a.ptr if hasattr(a, 'keepword') else 0
            if entry and w.s.d(2):
                if a.byref and sp <= w.byref < sp + a.callee_area: raise Bad('%s: the transfer_t lies in an area the callee may overwrite' % what)
                w.scribble(*(sp + x for x in a.scr or (lo, a.callee_area)))
            if a.win and entry: sp -= 176 + 16 * w.s.d(5); w.cpu.save(sp - a.bias & w.mask); T['sp'] = sp
            if a.win and w.s.d(4) == 1: w.cpu.everything()
            if w.s.d(2): w.scribble(T['lo'], sp - (288 if hasattr(a, 'keepword') and a.ptr == 8 else 0))
    def backchain(w, T, sp, what): pass
    def returned(w, x, T, f, what):
        a, r = w.a, w.cpu.r
        if x != f['ret']: raise Bad('%s: control arrives at %#x instead of the suspended call' % (what, x))
        what += ', return of the suspended call'
        if w.getsp() != f['sp']: raise Bad('%s: the stack pointer is %#x, expected %#x' % (what, w.getsp(), f['sp']))
        w.same(f['e'], what)
        T['sp'] = f['old']; w.rets.pop(f['ret'])
        if a.sret:
            if a.sretret and r[a.sretret] != f['sret']: raise Bad('%s: %s does not point to the result' % (what, a.sretret))
            w.st['resumed'] += 1
            return w.rdt(f['sret'])
        w.st['resumed'] += 1
        return r[a.res[0]], r[a.res[1]]
    def unwind(w, f):
        """the epilogue of a played function"""
        if w.a.win:
            w.cpu.restore()
            if w.getsp() != f['sp']: raise Bad('the frame of a running function was overwritten')
        else: w.restore(f['e']); w.setsp(f['sp'])
    def leave_ontop(w):
        a, r = w.a, w.cpu.r; T = w.ctx[w.cur]; f = T['fr'].pop(); o = T['fr'].pop()
        ids = [c['id'] for c in w.ctx.values() if 'id' in c and c['k'] != w.cur] + [0]
        t = (ids[w.s.d(len(ids))], w.val())
        w.junk(); w.unwind(f); what = 'return of the on-top function of context %d' % w.cur
        if a.sret:
            if not (o['sret'] <= f['rp'] and f['rp'] + 2 * a.ptr <= o['sret'] + 32) and not T['lo'] <= f['rp'] < f['sp'] + 256: raise Bad('%s: it was given %#x for its result' % (what, f['rp']))
            w.m.poke(f['rp'], a.ptr, t[0]); w.m.poke(f['rp'] + a.ptr, a.ptr, t[1])
            if a.sretret: r[a.sretret] = f['rp']
            elif a.cpu is emu.Ppc32 or a.cpu is emu.Ppc: r['r3'] = f['rp']
        else: r[a.res[0]], r[a.res[1]] = t
        al = [(T['lo'], o['sp'] + a.callee_area)] + ([(o['sret'], o['sret'] + 2 * a.ptr)] if o['sret'] else [])
        if a.cpu is emu.Ppc and not a.descr: r['r2'] = w.rng.getrandbits(64)
        x = w.go(f['lr'] + a.retoff, al, what); g = w.returned(x, T, o, what)
        if g != t: raise Bad('%s: the suspended call returns %#x, %#x instead of the on-top function\'s result %#x, %#x' % (what, *g, *t))
        w.st['ontop returned'] += 1
    def finish(w):
        a, r = w.a, w.cpu.r; T = w.ctx[w.cur]; f = T['entry']
        w.junk(); w.unwind(f); what = 'return of the function of context %d' % w.cur
        if a.callee_area: lo = a.ptr if hasattr(a, 'keepword') else 0; w.scribble(*(f['sp'] + x for x in a.scr or (lo, a.callee_area)))
        w.scribble(T['lo'], f['sp'])
        x = w.go(f['lr'] + a.retoff, [(T['lo'], T['hi'])], what)
        if x != EXIT: raise Bad('%s: control arrives at %#x instead of _exit' % (what, x))
        if r[a.args[0]] & 0xffffffff: raise Bad('%s: _exit is called with %#x' % (what, r[a.args[0]]))
        if w.getsp() % a.align: raise Bad('%s: _exit is entered with the misaligned stack pointer %#x' % (what, w.getsp()))
        if a.entryreg == '$25' and r['$25'] != EXIT: raise Bad('%s: t9 does not contain the address of _exit' % what)
        w.st['finished'] += 1
    def run(w, maxops):
        s = w.s; ops = []
        for _ in range(2 + s.d(maxops)):
            c = w.ctx[w.cur]; intop = c['fr'] and 'ontop' in c['fr'][-1]
            others = [k for k, x in w.ctx.items() if x['st'] in ('fresh', 'susp') and k != w.cur]
            susp = [k for k in others if w.ctx[k]['st'] == 'susp']
            free = [k for k in range(1, STACKS) if k not in w.ctx]
            o = s.d(12)
            if o < 2 and free: ops.append('make'); w.make(free[0])
            elif o < 4 and susp and not w.a.noontop: ops.append('ontop'); w.transfer(None, susp[s.d(len(susp))], True)
            elif o < 7 and intop: ops.append('leave'); w.leave_ontop()
            elif o == 11 and not c['fr'] and 'entry' in c and s.d(3) == 1: ops.append('finish'); w.finish(); break
            elif others: ops.append('jump'); w.transfer(None, others[s.d(len(others))], False)
            elif free: ops.append('make'); w.make(free[0])
        return ops
def judge(port, ch, maxops, rng=None):
    s = Src(ch, rng); w = World(port, s)
    try: ops = w.run(maxops); return None, s.rec, w, ops
    except (Bad, emu.Fault) as e: return str(e), s.rec, w, []
PORT = {}
def worker(job):
    name, d, seed, lo, hi, maxops, wall = job; t0 = time.time()
    p = PORT.get(name)
    if p is None: p = PORT[name] = Port(name, os.path.join(d, 'w%d_%s' % (os.getpid(), name)))
    st = collections.Counter(); seen = set(); smp = []; herr = None
    if p.err: return name, 0, 0, [], st, (p.err, []), None, []
    n = 0
    for i in range(lo, hi):
        if time.time() - t0 > wall: break
        try: res, rec, w, ops = judge(p, None, maxops, random.Random('%d/%s/%d' % (seed, name, i)))
        except emu.Unknown as e: herr = '%s: %s' % (name, e); break
        n += 1
        if res is None:
            nt = w.st['resumed'] >= 3 and w.st['jump'] + w.st['ontop'] >= 5
            if nt: st['nt'] += 1; seen.add(hashlib.sha1(repr(rec).encode()).digest()[:8])
            for k, v in w.st.items(): st[name + ' ' + k] += v
            if not smp and nt: smp.append('%s: %s' % (name, ' '.join(ops)))
        else:
            t1 = time.time(); ch = rec; kind = re.sub(r'0x[0-9a-f]+|\d+', '#', res); more = True
            while more and time.time() - t1 < 30:
                more = False; alts = []; k = max(1, len(ch) // 2)
                while k >= 1:
                    alts += [ch[:j] + ch[j + k:] for j in range(0, len(ch), k)]; k //= 2
                alts += [ch[:j] + [0] + ch[j + 1:] for j in range(len(ch)) if ch[j]]
                for al in alts:
                    try: r2, rec2, _, _ = judge(p, al, maxops)
                    except emu.Unknown: continue
                    while rec2 and rec2[-1] == 0: rec2.pop()
                    if r2 and re.sub(r'0x[0-9a-f]+|\d+', '#', r2) == kind and (len(rec2), sum(rec2)) < (len(ch), sum(ch)): ch, res, more = rec2, r2, True; break
            return name, n, st['nt'], list(seen), st, (res, ch), herr, smp
    return name, n, st['nt'], list(seen), st, None, herr, smp
def main():
    ap = argparse.ArgumentParser()
    for a, t, dflt in (('--cases', int, 200), ('--seed', int, 1), ('--workers', int, 8), ('--max-wall', float, 240), ('--out', str, ''), ('--fail-out', str, ''), ('--tmp', str, '.'), ('--replay', str, ''), ('--port', str, ''), ('--maxops', int, 30), ('--all', int, 0)):
        ap.add_argument(a, type=t, default=dflt)
    ap.add_argument('--signals', action='store_true')
    o = ap.parse_args(); global SIGNALS; SIGNALS = o.signals; d = os.path.abspath(os.path.join(o.tmp, 'pt%d' % os.getpid())); os.makedirs(d)
    try: return go(o, d)
    finally: shutil.rmtree(d, ignore_errors=True)
def go(o, d):
    t0 = time.time()
    if o.replay:
        t = open(o.replay, errors='replace').read(); ch = [int(x) for x in re.search(r'^choices:(.*)$', t, re.M).group(1).split()]; name = re.search(r'^port: (\S+)', t, re.M).group(1)
        p = Port(name, d + '/r'); res = p.err
        if not res: res = judge(p, ch, o.maxops)[0]
        print('RESULT ' + ('pass' if not res else 'FAIL [%s] %s' % (name, res))); return 1 if res else 0
    names = [o.port] if o.port else [n for n in PORTS if n not in KNOWN]; per = max(1, o.cases // len(names)); chunk = max(1, (per + 3) // 4)
    jobs = [(n, d, o.seed, lo, min(per, lo + chunk), o.maxops, o.max_wall) for lo in range(0, per, chunk) for n in names]
    tot = nt = 0; seen = set(); st = collections.Counter(); viol = {}; bad, errs = set(), set(); smp = []
    with cf.ProcessPoolExecutor(o.workers) as ex:
        for name, n, k, sn, s, v, h, sm in ex.map(worker, jobs):
            tot += n; nt += k; seen.update((name, x) for x in sn); st.update(s); (bad.add(name), errs.add(h)) if h else None; smp += sm if len(smp) < 3 else []
            if v and (name not in viol or len(v[1]) < len(viol[name][1])): viol[name] = v
    herr = '; '.join(sorted(errs)) if 2 * len(bad) >= len(names) else ''      # a port the interpreter cannot follow any more is reported as not executed
    if errs: print('not executed: ' + '; '.join(sorted(errs)))
    for n in bad: st['not executed: ' + n] = 1
    st.pop('nt', None); res = ''; ch = []
    if o.all:
        for n, v in viol.items(): print(n, v[0])
    if viol:
        name = min(viol, key=lambda n: (len(viol[n][1]), n)); res, ch = viol[name]; res = '[%s] %s' % (name, res)
        if o.fail_out: open(o.fail_out, 'w').write('harness: ports\nargs:%s\nmessage: %s\nport: %s\nchoices: %s\n' % (' --signals' if SIGNALS else '', res, name, ' '.join(map(str, ch))))
    out = dict(harness='ports', cases=tot, nontrivial=nt, distinct_nontrivial=len(seen), steps=sum(v for k, v in st.items() if k.split()[-1] in ('make', 'jump', 'ontop')), wall=round(time.time() - t0, 2), cut=0, harness_errors=1 if herr and not viol else 0, harness_error_msg=herr, unreproduced=0, unreproduced_msg='',
               failed=1 if viol else 0, message=res, first_message='', shrink_evals=0, rule='a case is a history of make/jump/ontop/return operations executed by one port; non-trivial with >=5 switches and >=3 resumed suspended calls; distinct by choices', labels=dict(st), samples=smp)
    s = json.dumps(out); print(s)
    if o.out: open(o.out, 'w').write(s)
    return 1 if viol else 2 if herr else 0
if __name__ == '__main__': sys.exit(main())
