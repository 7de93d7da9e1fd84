"""Executes the few instructions that occur in the assembler ports of other processors. Programs come from llvm-objdump's
disassembly of the linked objects; every instruction is translated once into a closure."""
import re, struct

class Fault(Exception): pass
class Unknown(Exception): pass

class Mem:
    def __init__(s, big): s.e = 'big' if big else 'little'; s.regions = []; s.log = []
    def add(s, base, data, w): s.regions.append((base, base + len(data), data, w)); s.regions.sort(key=lambda r: r[0])
    def find(s, a, n):
        for lo, hi, d, w in s.regions:
            if lo <= a and a + n <= hi: return lo, d, w
        raise Fault('access to unmapped address %#x (%d bytes)' % (a, n))
    def rd(s, a, n):
        lo, d, _ = s.find(a, n); return int.from_bytes(d[a - lo:a - lo + n], s.e)
    def wr(s, a, n, v):
        lo, d, w = s.find(a, n)
        if not w: raise Fault('write to read-only memory at %#x' % a)
        d[a - lo:a - lo + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, s.e); s.log.append((a, n))
    def poke(s, a, n, v):
        lo, d, _ = s.find(a, n); d[a - lo:a - lo + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, s.e)

def num(t):
    t = t.strip()
    return -int(t[1:], 0) if t[:1] == '-' else int(t, 0)
def sx(v, b): v &= (1 << b) - 1; return v - (1 << b) if v >> (b - 1) else v

class Cpu:
    bits = 64; strict = 0; irq = None      # irq: called between instructions; strict: largest access that must be naturally aligned
    def __init__(s, mem): s.m = mem; s.r = {}; s.code = {}; s.mask = (1 << s.bits) - 1; s.cc = 0; s.setup()
    def setup(s): pass
    def load(s, text):
        ins = []
        for l in text.splitlines():
            m = re.match(r'^\s*([0-9a-f]+):\s+(\S.*)$', l)
            if m: ins.append((int(m.group(1), 16), re.sub(r'\s*(//|@|#(?=\s)|;).*$', '', re.sub(r'\s*<[^>]*>', '', m.group(2))).strip().replace('\t', ' ')))
        for i, (a, t) in enumerate(ins):
            n = ins[i + 1][0] if i + 1 < len(ins) else a + 4
            try: s.code[a] = (s.translate(t, a, n), n, t)
            except Unknown: s.code[a] = (None, n, t)
            except (ValueError, KeyError, IndexError, AttributeError): s.code[a] = (None, n, t)
    delay = ()
    def run(s, pc, stop, limit=3000):
        code = s.code; pend = None
        while pc not in stop or pend is not None:
            e = code.get(pc)
            if e is None: raise Fault('execution continues at %#x, which is no code' % pc)
            f, n, t = e
            if f is None and (not t or t.split()[0] in ('unimp', 'udf', '<unknown>', '.long', 'trap', 'break')): raise Fault('illegal instruction at %#x' % pc)
            if f is None: raise Unknown('instruction not supported by the emulator: %s' % t)
            limit -= 1
            if limit < 0: raise Fault('endless loop at %#x' % pc)
            try: x = f()
            except Fault as ex: raise Fault('%s: %s' % (t, ex))
            if s.irq is not None: s.irq(t)
            if pend is not None: pc, pend = pend, None
            elif x is not None and t.split()[0] in s.delay: pc, pend = n, x
            else: pc = n if x is None else x
        s.last = pc
        return pc
    # helpers that make closures
    def mov(s, d, f):
        r, k = s.r, s.mask
        def g(): r[d] = f() & k
        return g
    def reg(s, n):
        r = s.r
        if n in s.zero: return lambda: 0
        if n not in r: raise Unknown(n)
        return lambda: r[n]
    def imm(s, v): return lambda: v
    zero = ()
    def ldst(s, op, d, addr, n, store, signed=False):
        r, m, k = s.r, s.m, s.mask
        z = d in s.zero
        if not z and d not in r: raise Unknown(d)
        if s.strict:
            a0 = addr; w = min(n, s.strict)
            def addr():
                e = a0()
                if e % w: raise Fault('misaligned access to %#x' % e)
                return e
        if store: return lambda: m.wr(addr(), n, 0 if z else r[d])
        def g():
            v = m.rd(addr(), n)
            if not z: r[d] = (sx(v, 8 * n) & k) if signed else v
        return g
    def baseoff(s, b, o):
        r, k = s.r, s.mask
        if b not in r: raise Unknown(b)
        return lambda: (r[b] + o) & k
def ops(t):
    """mnemonic and operands; commas inside brackets do not separate"""
    mn, _, rest = t.partition(' '); o = []; d = 0; cur = ''
    for c in rest:
        if c in '[{(': d += 1
        if c in ']})': d -= 1
        if c == ',' and d == 0: o.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): o.append(cur.strip())
    return mn, o

class Arm64(Cpu):
    zero = ('xzr', 'wzr')
    def setup(s):
        for i in range(31): s.r['x%d' % i] = 0
        for i in range(32): s.r['d%d' % i] = 0
        s.r['sp'] = 0
    def val(s, o):
        """operand value: register or immediate"""
        if o.startswith('#'): v = num(o[1:]); return lambda: v
        if o[0] == 'w' and o not in s.zero: r = s.r; n = 'x' + o[1:]; return lambda: r[n] & 0xffffffff
        return s.reg(o)
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask
        if mn in ('nop', 'bti', 'paciasp', 'autiasp', 'hint', 'yield', 'isb', 'dmb', 'prfm', 'pacibsp', 'autibsp'): return lambda: None
        if mn in ('and', 'orr', 'add', 'sub', 'eor', 'bic'):
            d, x, y = o[0], s.val(o[1]), s.val(o[2])
            sh = 0
            if len(o) > 3: sh = num(re.match(r'lsl #(.*)', o[3]).group(1))
            f = {'and': lambda p, q: p & q, 'orr': lambda p, q: p | q, 'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'eor': lambda p, q: p ^ q, 'bic': lambda p, q: p & ~q}[mn]
            w = d[0] == 'w'; dd = 'x' + d[1:] if w else d; kk = 0xffffffff if w else k
            def g(): r[dd] = f(x(), (y() << sh)) & kk
            return g
        if mn in ('lsl', 'lsr') and o[2][0] == '#':
            x = s.val(o[1]); sh = num(o[2][1:]); d = o[0]; w = d[0] == 'w'; dd = 'x' + d[1:] if w else d; kk = 0xffffffff if w else k
            return s.mov(dd, (lambda: (x() << sh) & kk) if mn == 'lsl' else (lambda: x() >> sh))
        if mn in ('bfc', 'bfxil', 'bfi', 'ubfx') and o[0][0] == 'x':
            d = o[0]; a1 = [num(z[1:]) for z in o if z[0] == '#']; ls, w = a1; mk = (1 << w) - 1; x = s.reg(o[1]) if mn != 'bfc' else s.imm(0); y = s.reg(d)
            return s.mov(d, {'bfc': lambda: y() & ~(mk << ls), 'bfi': lambda: y() & ~(mk << ls) | (x() & mk) << ls, 'bfxil': lambda: y() & ~mk | x() >> ls & mk, 'ubfx': lambda: x() >> ls & mk}[mn])
        if mn in ('mov', 'movz'):
            d = o[0]; v = s.val(o[1]); dd = 'x' + d[1:] if d[0] == 'w' else d; kk = 0xffffffff if d[0] == 'w' else k
            def g(): r[dd] = v() & kk
            return g
        if mn == 'fmov' and len(o) == 2: d = o[0]; v = s.val(o[1]); return s.mov(d, v)
        if mn in ('adr', 'adrp'): v = num(o[1].lstrip('#')); return s.mov(o[0], lambda: v)
        if mn in ('stp', 'ldp', 'str', 'ldr', 'stur', 'ldur'):
            pair = mn[2] == 'p'; regs = o[:2] if pair else o[:1]; mo = o[2] if pair else o[1]
            w = regs[0][0]; n = {'x': 8, 'd': 8, 'w': 4, 's': 4, 'q': 16}[w]
            if w in 'sq': raise Unknown(t)
            pre = mo.endswith('!'); q = re.match(r'\[(\w+)(?:,\s*#(-?\w+))?\]', mo); b = q.group(1); off = num(q.group(2)) if q.group(2) else 0
            post = num(o[3 if pair else 2].lstrip('#')) if len(o) > (3 if pair else 2) else None
            rr = ['x' + x[1:] if x[0] == 'w' and x not in s.zero else x for x in regs]; st = mn[0] == 's'
            acc = [s.ldst(mn, x, (lambda j: (lambda: s._ea + j))(i * n), n, st) for i, x in enumerate(rr)]
            def g():
                s._ea = (r[b] + off) & k; e = s._ea
                if b == 'sp' and r['sp'] & 15: raise Fault('sp is misaligned')
                for f in acc: f()
                if pre: r[b] = e
                if post is not None: r[b] = (r[b] + post) & k
            return g
        if mn == 'bl':
            v = num(o[0].lstrip('#'))
            def g(): r['x30'] = nx; return v
            return g
        if mn == 'blr':
            v = s.reg(o[0])
            def g(): x = v(); r['x30'] = nx; return x
            return g
        if mn == 'b': v = num(o[0].lstrip('#')); return lambda: v
        if mn in ('br', 'ret'): v = s.reg(o[0] if o else 'x30'); return v
        if mn in ('cbz', 'cbnz'):
            v = s.val(o[0]); tt = num(o[1].lstrip('#')); want = mn == 'cbz'
            return lambda: tt if (v() == 0) == want else None
        raise Unknown(t)

class Arm(Cpu):
    bits = 32; strict = 4
    def setup(s):
        for i in range(13): s.r['r%d' % i] = 0
        s.r['sp'] = s.r['lr'] = 0
        for i in range(32): s.r['d%d' % i] = 0
        s.tls = 0
    def lst(s, t):
        o = []
        for x in t.strip('{}').split(','):
            x = x.strip(); q = re.match(r'([rd])(\d+)-[rd](\d+)$', x)
            if q: o += ['%s%d' % (q.group(1), i) for i in range(int(q.group(2)), int(q.group(3)) + 1)]
            else: o.append(x)
        return o
    def val(s, o, a):
        if o.startswith('#'): v = num(o[1:]) & s.mask; return lambda: v
        if o == 'pc': return lambda: a + 8
        o = {'r13': 'sp', 'r14': 'lr'}.get(o, o)
        return s.reg(o)
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask; jump = lambda x: x & ~1
        if mn == 'nop': return lambda: None
        f = {'and': lambda p, q: p & q, 'orr': lambda p, q: p | q, 'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'eor': lambda p, q: p ^ q, 'bic': lambda p, q: p & ~q}.get(mn)
        if f:
            if len(o) == 2: o = [o[0]] + o
            x, y = s.val(o[1], a), s.val(o[2], a); return s.mov(o[0], lambda: f(x(), y()))
        if mn in ('lsl', 'lsr') and o[-1][0] == '#':
            x = s.val(o[-2], a); sh = num(o[-1][1:]); return s.mov(o[0], (lambda: x() << sh) if mn == 'lsl' else (lambda: x() >> sh))
        if mn == 'bfc': x = s.val(o[0], a); ls, w = num(o[1][1:]), num(o[2][1:]); return s.mov(o[0], lambda: x() & ~(((1 << w) - 1) << ls))
        if mn in ('strd', 'ldrd'):
            q = re.match(r'\[(\w+)(?:,\s*#(-?\w+))?\]$', o[2])
            if not q or len(o) > 3: raise Unknown(t)
            st = mn == 'strd'; z = [s.ldst(mn, x, s.baseoff(q.group(1), (num(q.group(2)) if q.group(2) else 0) + 4 * i), 4, st) for i, x in enumerate(o[:2])]
            if q.group(1) in o[:2] and not st: z.reverse() if o[0] == q.group(1) else None
            def g():
                for f in z: f()
            return g
        if mn == 'adr': v = num(o[1].lstrip('#')); return s.mov(o[0], lambda: a + 8 + v)
        if mn == 'mov':
            v = s.val(o[1], a)
            if o[0] == 'pc': return lambda: v()
            return s.mov(o[0], v)
        if mn in ('str', 'ldr'):
            q = re.match(r'\[(\w+)(?:,\s*#(-?\w+))?\](!?)', o[1]); b = q.group(1); off = num(q.group(2)) if q.group(2) else 0; pre = q.group(3); post = num(o[2].lstrip('#')) if len(o) > 2 else None
            st = mn == 'str'; d = o[0]
            base = (lambda: a + 8) if b == 'pc' else (lambda: r[b])
            def g():
                e = (base() + off) & k; res = None
                if st: m.wr(e, 4, r[d])
                elif d == 'pc': res = jump(m.rd(e, 4))
                else: v = m.rd(e, 4)
                if pre: r[b] = e
                if post is not None: r[b] = (r[b] + post) & k
                if not st and d != 'pc': r[d] = v
                return res
            return g
        ls = re.match(r'(v?)(push|pop|stmia|ldmia|stmdb|ldmdb|stm|ldm|stmfd|ldmfd)$', mn)
        if ls:
            if 'p' == ls.group(2)[0]: b, wb, regs = 'sp', True, s.lst(o[0])
            else: b, wb, regs = o[0].rstrip('!'), o[0].endswith('!'), s.lst(o[1])
            n = 8 if ls.group(1) else 4; st = ls.group(2)[0] == 's' or ls.group(2) == 'push'; down = ls.group(2) in ('push', 'stmdb', 'ldmdb', 'stmfd')
            def g():
                e = r[b] - n * len(regs) if down else r[b]; res = None; st0 = e
                for x in regs:
                    if st: m.wr(e & k, n, r[x])
                    elif x == 'pc': res = jump(m.rd(e & k, n))
                    elif x == b and wb: raise Fault('write-back register in list')
                    else: r[x] = m.rd(e & k, n)
                    e += n
                if wb: r[b] = (st0 if down else e) & k
                return res
            return g
        if mn in ('vldr', 'vstr'):
            q = re.match(r'\[(\w+)(?:,\s*#(-?\w+))?\]', o[1]); ad = s.baseoff(q.group(1), num(q.group(2)) if q.group(2) else 0); return s.ldst(mn, o[0], ad, 8, mn == 'vstr')
        if mn == 'mrc' and o[0] == 'p15' and o[3:5] == ['c13', 'c0'] and num(o[5][1:]) == 3: return s.mov(o[2], lambda: s.tls)
        if mn in ('bl', 'b'):
            v = num(o[0].lstrip('#'))
            def g():
                if mn == 'bl': r['lr'] = nx
                return v
            return g
        if mn in ('bx', 'blx'):
            v = s.reg(o[0])
            def g():
                x = v()
                if mn == 'blx': r['lr'] = nx
                return jump(x)
            return g
        raise Unknown(t)

class Riscv(Cpu):
    zero = ('zero',)
    N = 'ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6'.split()
    F = ['ft%d' % i for i in range(12)] + ['fs%d' % i for i in range(12)] + ['fa%d' % i for i in range(8)]
    def setup(s):
        for n in s.N + s.F: s.r[n] = 0
    def memop(s, t): q = re.match(r'(-?\w*)\((\w+)\)', t); return s.baseoff(q.group(2), num(q.group(1) or '0'))
    def translate(s, t, a, nx):
        mn, o = ops(t.replace('c.', '')); r, m, k = s.r, s.m, s.mask
        if mn in ('nop', 'fence'): return lambda: None
        if mn in ('addi', 'andi', 'ori', 'xori'):
            x = s.reg(o[1]); v = num(o[2]); f = {'addi': lambda p: p + v, 'andi': lambda p: p & (v & k), 'ori': lambda p: p | (v & k), 'xori': lambda p: p ^ (v & k)}[mn]
            return s.mov(o[0], lambda: f(x()))
        if mn in ('add', 'sub', 'and', 'or', 'xor'):
            x, y = s.reg(o[1]), s.reg(o[2]); f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[mn]
            return s.mov(o[0], lambda: f(x(), y()))
        if mn in ('slli', 'srli'):
            x = s.reg(o[1]); sh = num(o[2]); return s.mov(o[0], (lambda: x() << sh) if mn == 'slli' else (lambda: x() >> sh))
        if mn in ('mv', 'fmv.d'): return s.mov(o[0], s.reg(o[1]))
        if mn == 'li': v = num(o[1]); return s.mov(o[0], lambda: v)
        if mn == 'lui': v = sx(num(o[1]) << 12, 32); return s.mov(o[0], lambda: v)
        if mn == 'auipc': v = a + sx(num(o[1]) << 12, 32); return s.mov(o[0], lambda: v)
        if mn in ('sd', 'fsd', 'sw'): return s.ldst(mn, o[0], s.memop(o[1]), 4 if mn == 'sw' else 8, True)
        if mn in ('ld', 'fld', 'lw', 'lwu'): return s.ldst(mn, o[0], s.memop(o[1]), 4 if mn[:2] == 'lw' else 8, False, mn == 'lw')
        if mn == 'ret': return s.reg('ra')
        if mn in ('jr', 'jalr'):
            q = re.match(r'(-?\w*)\((\w+)\)$', o[-1]); b, off = (q.group(2), num(q.group(1) or '0')) if q else (o[-1], 0)
            link = (o[0] if len(o) > 1 else 'ra') if mn == 'jalr' else None
            v = s.reg(b)
            def g():
                x = (v() + off) & k & ~1
                if link and link != 'zero': r[link] = nx
                return x
            return g
        if mn in ('j', 'jal', 'tail', 'call'):
            v = num(o[-1]); link = {'jal': o[0] if len(o) > 1 else 'ra'}.get(mn)
            def g():
                if link and link != 'zero': r[link] = nx
                return v
            return g
        if mn in ('beqz', 'bnez'): v = s.reg(o[0]); tt = num(o[1]); want = mn == 'beqz'; return lambda: tt if (v() == 0) == want else None
        raise Unknown(t)

class Loong(Cpu):
    zero = ('$zero',)
    N = ['$ra', '$tp', '$sp', '$fp', '$r21'] + ['$a%d' % i for i in range(8)] + ['$t%d' % i for i in range(9)] + ['$s%d' % i for i in range(9)]
    F = ['$fa%d' % i for i in range(8)] + ['$ft%d' % i for i in range(16)] + ['$fs%d' % i for i in range(8)]
    def setup(s):
        for n in s.N + s.F: s.r[n] = 0
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask
        if mn == 'nop': return lambda: None
        if mn == 'bstrins.d':
            hi, lo = num(o[2]), num(o[3]); x, d = s.reg(o[1]), s.reg(o[0]); w = (1 << (hi - lo + 1)) - 1
            return s.mov(o[0], lambda: (d() & ~(w << lo)) | ((x() & w) << lo))
        if mn in ('addi.d', 'ori', 'andi', 'xori'):
            x = s.reg(o[1]); v = num(o[2]); f = {'a': lambda p: p + v, 'o': lambda p: p | v, 'x': lambda p: p ^ v}[mn[0]] if mn != 'andi' else (lambda p: p & v)
            return s.mov(o[0], lambda: f(x()))
        if mn in ('add.d', 'sub.d', 'and', 'or', 'xor', 'andn'):
            x, y = s.reg(o[1]), s.reg(o[2]); f = {'add.d': lambda p, q: p + q, 'sub.d': lambda p, q: p - q, 'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q, 'andn': lambda p, q: p & ~q}[mn]
            return s.mov(o[0], lambda: f(x(), y()))
        if mn in ('slli.d', 'srli.d'):
            x = s.reg(o[1]); sh = num(o[2]); return s.mov(o[0], (lambda: x() << sh) if mn == 'slli.d' else (lambda: x() >> sh))
        if mn in ('li.d', 'li.w'): v = num(o[1]); return s.mov(o[0], lambda: v)
        if mn in ('move', 'fmov.d'): return s.mov(o[0], s.reg(o[1]))
        if mn in ('pcalau12i', 'pcaddu12i'): v = a + (sx(num(o[1]), 20) << 12); v = v & ~0xfff if mn[3] == 'l' or mn[2] == 'a' and mn == 'pcalau12i' else v; return s.mov(o[0], lambda: v)
        if mn == 'pcaddi': v = a + (num(o[1]) << 2); return s.mov(o[0], lambda: v)
        if mn in ('st.d', 'fst.d', 'ld.d', 'fld.d'): return s.ldst(mn, o[0], s.baseoff(o[1], num(o[2])), 8, 'st' in mn)
        if mn in ('jr', 'ret'): return s.reg(o[0] if o else '$ra')
        if mn in ('b', 'bl'):
            v = num(o[0])
            if re.search(r'^(b|bl) -?\d+$', t): v += a
            def g():
                if mn == 'bl': r['$ra'] = nx
                return v
            return g
        if mn == 'jirl':
            v = s.reg(o[1]); off = num(o[2]); d = o[0]
            def g():
                x = (v() + off) & k
                if d != '$zero': r[d] = nx
                return x
            return g
        raise Unknown(t)

class Mips(Cpu):
    strict = 8
    zero = ('$zero', '$0')
    delay = ('jr', 'jalr', 'b', 'bal', 'j', 'jal', 'beqz', 'bnez', 'beq', 'bne')
    def setup(s):
        for i in range(1, 28): s.r['$%d' % i] = 0
        for n in ('$gp', '$sp', '$fp', '$ra'): s.r[n] = 0
        for i in range(32): s.r['$f%d' % i] = 0
    def memop(s, t):
        q = re.match(r'(-?\w*)\((\$\w+)\)', t); b = q.group(2)
        return s.baseoff(b, num(q.group(1) or '0'))
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask; s32 = lambda v: sx(v, 32) & k
        if mn == 'nop': return lambda: None
        if mn in ('addiu', 'daddiu', 'andi', 'ori'):
            x = s.reg(o[1]); v = num(o[2]); f = {'addiu': lambda p: s32(p + v), 'daddiu': lambda p: p + v, 'andi': lambda p: p & v, 'ori': lambda p: p | v}[mn]
            return s.mov(o[0], lambda: f(x()))
        if mn in ('addu', 'daddu', 'subu', 'dsubu', 'and', 'or', 'xor'):
            x, y = s.reg(o[1]), s.reg(o[2]); f = {'addu': lambda p, q: s32(p + q), 'daddu': lambda p, q: p + q, 'subu': lambda p, q: s32(p - q), 'dsubu': lambda p, q: p - q, 'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[mn]
            return s.mov(o[0], lambda: f(x(), y()))
        if mn in ('sll', 'srl', 'dsll', 'dsrl'):
            x = s.reg(o[1]); sh = num(o[2]); return s.mov(o[0], {'sll': lambda: s32(x() << sh), 'srl': lambda: s32((x() & 0xffffffff) >> sh), 'dsll': lambda: x() << sh, 'dsrl': lambda: x() >> sh}[mn])
        if mn == 'li': v = num(o[1]); return s.mov(o[0], lambda: s32(v))
        if mn in ('ins', 'dins'):
            d, x = s.reg(o[0]), s.reg(o[1]); ls, w = num(o[2]), num(o[3]); mk = (1 << w) - 1; z = s32 if mn == 'ins' else (lambda v: v)
            return s.mov(o[0], lambda: z(d() & ~(mk << ls) | (x() & mk) << ls))
        if mn in ('move', 'mov.d'): return s.mov(o[0], s.reg(o[1]))
        if mn == 'lui': v = s32(num(o[1]) << 16); return s.mov(o[0], lambda: v)
        if mn in ('sw', 'sd', 'sdc1'): return s.ldst(mn, o[0], s.memop(o[1]), 4 if mn == 'sw' else 8, True)
        if mn in ('lw', 'ld', 'ldc1'):
            f = s.ldst(mn, o[0], s.memop(o[1]), 4 if mn == 'lw' else 8, False, mn == 'lw')
            if mn == 'ldc1': return f
            return f
        if mn == 'jr': return s.reg(o[0])
        if mn == 'jalr':
            v = s.reg(o[-1])
            def g(): x = v(); r['$ra'] = nx + 4; return x
            return g
        if mn in ('b', 'bal', 'jal', 'j'):
            v = num(o[0])
            def g():
                if 'l' in mn: r['$ra'] = nx + 4
                return v
            return g
        if mn in ('beqz', 'bnez'): v = s.reg(o[0]); tt = num(o[1]); want = mn == 'beqz'; return lambda: tt if (v() == 0) == want else None
        raise Unknown(t)
class Mips32(Mips): bits = 32

class Ppc(Cpu):
    def setup(s):
        for i in range(32): s.r['r%d' % i] = 0; s.r['f%d' % i] = 0
        for n in ('lr', 'ctr', 'cr', 'fpscr'): s.r[n] = 0
    def memop(s, t):
        q = re.match(r'(-?\w+)\((\w+)\)', t); b = q.group(2); o = num(q.group(1))
        return s.baseoff('r' + b, o) if b != '0' else (lambda: o & s.mask)
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask; R = lambda x: s.reg('r' + x); D = lambda x: 'r' + x
        if mn == 'nop': return lambda: None
        if mn in ('mflr', 'mfctr', 'mfcr'): n = mn[2:]; return s.mov(D(o[0]), lambda: r[n])
        if mn in ('mtlr', 'mtctr', 'mtcr'):
            n = mn[2:]; x = R(o[0])
            def g(): r[n] = x() & (0xffffffff if n == 'cr' else k)
            return g
        if mn == 'mffs':
            d = 'f' + o[0]
            def g(): r[d] = 0xfff8000000000000 | r['fpscr']
            return g
        if mn == 'mtfsf':
            if num(o[0]) != 255: raise Unknown(t)
            x = 'f' + o[1]
            def g(): r['fpscr'] = r[x] & 0xffffffff
            return g
        if mn in ('addi', 'addis'):
            v = num(o[2]) << (16 if mn == 'addis' else 0)
            v = sx(v, 32) if mn == 'addis' else v
            x = R(o[1]) if o[1] != '0' else s.imm(0); return s.mov(D(o[0]), lambda: x() + v)
        if mn in ('li', 'lis'): v = num(o[1]) << (16 if mn == 'lis' else 0); v = sx(v, 32) if mn == 'lis' else v; return s.mov(D(o[0]), lambda: v)
        if mn == 'mr': return s.mov(D(o[0]), R(o[1]))
        if mn == 'fmr':
            x, d = 'f' + o[1], 'f' + o[0]
            def g(): r[d] = r[x]
            return g
        if mn in ('add', 'or', 'and', 'subf'):
            x, y = R(o[1]), R(o[2]); f = {'add': lambda p, q: p + q, 'or': lambda p, q: p | q, 'and': lambda p, q: p & q, 'subf': lambda p, q: q - p}[mn]
            return s.mov(D(o[0]), lambda: f(x(), y()))
        if mn in ('rldicl', 'clrldi'): x = R(o[1]); sh, mb = (num(o[2]), num(o[3])) if mn == 'rldicl' else (0, num(o[2])); mk = k >> mb; return s.mov(D(o[0]), lambda: ((x() << sh | x() >> (64 - sh)) if sh else x()) & k & mk)
        if mn == 'rldicr': x = R(o[1]); sh, me = num(o[2]), num(o[3]); mk = ((1 << (me + 1)) - 1) << (63 - me); return s.mov(D(o[0]), lambda: ((x() << sh | x() >> (64 - sh)) & k & mk) if sh else x() & mk)
        if mn == 'rlwinm':
            x = R(o[1]); sh, mb, me = num(o[2]), num(o[3]), num(o[4])
            if mb > me: raise Unknown(t)
            mk = ((1 << (me - mb + 1)) - 1) << (31 - me); return s.mov(D(o[0]), lambda: ((x() << sh | (x() & 0xffffffff) >> (32 - sh)) if sh else x()) & mk)
        if mn in ('sldi', 'srdi'): x = R(o[1]); n = num(o[2]); return s.mov(D(o[0]), (lambda: x() << n) if mn == 'sldi' else (lambda: x() >> n))
        if mn in ('slwi', 'srwi'): x = R(o[1]); n = num(o[2]); return s.mov(D(o[0]), (lambda: (x() << n) & 0xffffffff) if mn == 'slwi' else (lambda: (x() & 0xffffffff) >> n))
        if mn in ('stmw', 'lmw') and s.bits == 32:
            i = num(o[0]); ad = s.memop(o[1]); st = mn == 'stmw'
            def g():
                e = ad()
                for j in range(i, 32):
                    if st: m.wr(e + 4 * (j - i), 4, r['r%d' % j])
                    else: r['r%d' % j] = m.rd(e + 4 * (j - i), 4)
            return g
        if mn in ('clrrdi', 'clrrwi'): x = R(o[1]); n = num(o[2]); return s.mov(D(o[0]), lambda: x() >> n << n)
        q = re.match(r'(st|l)(d|wz|w|fd)(u?)$', mn)
        if q and (q.group(1) == 'st') == (q.group(2) != 'wz' and mn[0] == 's') and mn not in ('lw', 'lwu'):
            st = mn[0] == 's'; fl = q.group(2) == 'fd'; n = 8 if 'd' in q.group(2) else 4; d = ('f' if fl else 'r') + o[0]; ad = s.memop(o[1]); b = 'r' + re.search(r'\((\w+)\)', o[1]).group(1); up = q.group(3)
            def g():
                e = ad()
                if st: m.wr(e, n, r[d])
                else: r[d] = m.rd(e, n)
                if up: r[b] = e
            return g
        if mn in ('stfd', 'lfd'): return s.ldst(mn, 'f' + o[0], s.memop(o[1]), 8, mn == 'stfd')
        if mn == 'bcl' and num(o[0]) & 20 == 20: mn, o = 'bl', o[2:]
        if mn in ('b', 'bl'):
            v = num(o[0])
            def g():
                if mn == 'bl': r['lr'] = nx
                return v
            return g
        if mn in ('bctr', 'blr', 'bctrl', 'blrl'):
            n = 'ctr' if 'ctr' in mn else 'lr'
            def g():
                x = r[n] & ~3
                if mn.endswith('l'): r['lr'] = nx
                return x
            return g
        if mn in ('cmpdi', 'cmpwi'):
            x = R(o[0]); v = num(o[1]); b = 64 if mn == 'cmpdi' else 32
            def g():
                y = sx(x(), b); r['cr'] = r['cr'] & 0x0fffffff | (8 if y < v else 4 if y > v else 2) << 28
            return g
        if mn in ('bt', 'bf'):
            bit = 31 - num(o[0]); tt = num(o[1]); want = mn == 'bt'
            return lambda: tt if bool(r['cr'] >> bit & 1) == want else None
        if mn in ('beq', 'bne'): tt = num(o[-1]); want = mn == 'beq'; return lambda: tt if bool(r['cr'] >> 29 & 1) == want else None
        raise Unknown(t)
class Ppc32(Ppc): bits = 32

class S390(Cpu):
    def setup(s):
        for i in range(16): s.r['%%r%d' % i] = 0; s.r['%%f%d' % i] = 0
        s.r['fpc'] = 0
    def memop(s, t):
        q = re.match(r'(-?\w+)(?:\((%r\d+)\))?$', t); o = num(q.group(1))
        if not q.group(2) or q.group(2) == '%r0': return lambda: o
        return s.baseoff(q.group(2), o)
    def translate(s, t, a, nx):
        mn, o = ops(t); r, m, k = s.r, s.m, s.mask
        if mn in ('nop', 'nopr', 'bcr'): return lambda: None
        if mn in ('nill', 'nilh', 'nilf'):
            v = num(o[1]); sh, w = {'nill': (0, 16), 'nilh': (16, 16), 'nilf': (0, 32)}[mn]; x = s.reg(o[0]); mk = ~(((1 << w) - 1) << sh) | v << sh
            return s.mov(o[0], lambda: x() & mk)
        if mn in ('aghi', 'agfi'): v = num(o[1]); x = s.reg(o[0]); return s.mov(o[0], lambda: x() + v)
        if mn in ('sllg', 'srlg') and '(' not in o[2]: x = s.reg(o[1]); n = num(o[2]); return s.mov(o[0], (lambda: x() << n) if mn == 'sllg' else (lambda: x() >> n))
        if mn in ('lghi', 'lgfi'): v = num(o[1]); return s.mov(o[0], lambda: v)
        if mn == 'lgr': return s.mov(o[0], s.reg(o[1]))
        if mn in ('agr', 'sgr', 'ngr', 'ogr', 'xgr'):
            x, y = s.reg(o[0]), s.reg(o[1]); f = {'a': lambda p, q: p + q, 's': lambda p, q: p - q, 'n': lambda p, q: p & q, 'o': lambda p, q: p | q, 'x': lambda p, q: p ^ q}[mn[0]]; return s.mov(o[0], lambda: f(x(), y()))
        if mn in ('la', 'lay'): return s.mov(o[0], s.memop(o[1]))
        if mn == 'larl': v = num(o[1]); return s.mov(o[0], lambda: v)
        if mn in ('stg', 'std', 'stdy'): return s.ldst(mn, o[0], s.memop(o[1]), 8, True)
        if mn in ('lg', 'ld', 'ldy'): return s.ldst(mn, o[0], s.memop(o[1]), 8, False)
        if mn == 'ltg':
            f = s.ldst(mn, o[0], s.memop(o[1]), 8, False); d = o[0]
            def g(): f(); v = sx(r[d], 64); s.cc = 0 if v == 0 else 1 if v < 0 else 2
            return g
        if mn == 'ltgr':
            x = s.reg(o[1]); d = o[0]
            def g(): r[d] = x(); v = sx(r[d], 64); s.cc = 0 if v == 0 else 1 if v < 0 else 2
            return g
        if mn in ('stmg', 'lmg'):
            i, j = int(o[0][2:]), int(o[1][2:]); ad = s.memop(o[2]); rr = ['%%r%d' % (x % 16) for x in range(i, (j if j >= i else j + 16) + 1)]; st = mn == 'stmg'
            def g():
                e = ad(); v = []
                for n, x in enumerate(rr):
                    if st: m.wr(e + 8 * n, 8, r[x])
                    else: v.append(m.rd(e + 8 * n, 8))
                for x, y in zip(rr, v): r[x] = y
            return g
        if mn in ('stfpc', 'lfpc'):
            ad = s.memop(o[0]); st = mn == 'stfpc'
            def g():
                if st: m.wr(ad(), 4, r['fpc'])
                else: r['fpc'] = m.rd(ad(), 4)
            return g
        if mn in ('mvghi', 'mvhi'): ad = s.memop(o[0]); v = num(o[1]); n = 8 if mn == 'mvghi' else 4; return lambda: m.wr(ad(), n, v)
        if mn == 'br': return s.reg(o[0])
        if mn in ('basr', 'brasl', 'bras'):
            v = s.reg(o[1]) if mn == 'basr' else s.imm(num(o[1])); d = o[0]
            def g(): x = v(); r[d] = nx; return x
            return g
        if mn in ('j', 'jg'): v = num(o[0]); return lambda: v
        if mn in ('jne', 'jnz', 'je', 'jz', 'jgne', 'jge', 'jlh'): v = num(o[0]); want = mn in ('je', 'jz', 'jge'); return lambda: v if (s.cc == 0) == want else None
        raise Unknown(t)

class Sparc(Cpu):
    """SPARC V9 with 8 register windows; windows are spilled and filled as the operating system does"""
    zero = ('%g0',); delay = ('call', 'jmp', 'ret', 'jmpl', 'b', 'ba'); strict = 8; BIAS = 2047
    L = ['%%l%d' % i for i in range(8)]; I = ['%%i%d' % i for i in range(8)]; O = ['%%o%d' % i for i in range(8)]
    def setup(s):
        for x in 'goli':
            for i in range(8): s.r['%%%s%d' % (x, i)] = 0
        s.cache = []
    def fix(s, t): return re.sub(r'%sp\b', '%o6', re.sub(r'%fp\b', '%i6', t))
    def save(s, sp):
        r = s.r; s.cache.append((r['%o6'], [r[n] for n in s.L + s.I]))
        for o, i in zip(s.O, s.I): r[i] = r[o]
        r['%o6'] = sp
        if len(s.cache) > 5: s.spill(s.cache.pop(0))
    def spill(s, c):
        for i, v in enumerate(c[1]): s.m.poke(c[0] + s.BIAS + 8 * i, 8, v)
    def flush(s):
        for c in s.cache: s.spill(c)
        s.cache = []
    def everything(s):
        """an interrupt that makes the system write back all windows, including the current one"""
        s.flush(); r = s.r; s.spill((r['%o6'], [r[n] for n in s.L + s.I]))
    def restore(s):
        r = s.r; ni = [r[n] for n in s.I]
        if s.cache: v = s.cache.pop()[1]
        else:
            if r['%i6'] & 1 == 0: raise Fault('window fill with the unbiased stack pointer %#x' % r['%i6'])
            v = [s.m.rd((r['%i6'] + s.BIAS & s.mask) + 8 * i, 8) for i in range(16)]
        for o, x in zip(s.O, ni): r[o] = x
        for n, x in zip(s.L + s.I, v): r[n] = x
    def val(s, o):
        if o[0] == '%': return s.reg(o)
        v = num(o); return lambda: v
    def memop(s, t):
        q = re.match(r'\[(%\w+)(?:\s*\+?\s*(-?\w+))?\]', t); return s.baseoff(q.group(1), num(q.group(2) or '0'))
    def translate(s, t, a, nx):
        mn, o = ops(s.fix(t)); r, m, k = s.r, s.m, s.mask
        if mn == 'nop': return lambda: None
        if mn in ('save', 'restore'):
            if not o:
                if mn == 'save': raise Unknown(t)
                return lambda: s.restore()
            x, y, d = s.val(o[0]), s.val(o[1]), o[2]
            def g():
                v = (x() + y()) & k
                if mn == 'save':
                    s.save(r['%o6'])
                    if d != '%g0': r[d] = v
                else:
                    s.restore()
                    if d != '%g0': r[d] = v
            return g
        if mn in ('and', 'or', 'xor', 'add', 'sub', 'andn'):
            x, y = s.val(o[0]), s.val(o[1]); f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q, 'andn': lambda p, q: p & ~q}[mn]; return s.mov(o[2], lambda: f(x(), y()))
        if mn in ('sllx', 'srlx'): x = s.val(o[0]); n = num(o[1]); return s.mov(o[2], (lambda: x() << n) if mn == 'sllx' else (lambda: x() >> n))
        if mn == 'mov': return s.mov(o[1], s.val(o[0]))
        if mn == 'clr': return s.mov(o[0], lambda: 0)
        if mn == 'rd' and o[0] == '%pc': return s.mov(o[1], lambda: a)
        if mn == 'stx': return s.ldst(mn, o[0], s.memop(o[1]), 8, True)
        if mn == 'ldx': return s.ldst(mn, o[1], s.memop(o[0]), 8, False)
        if mn == 'flushw': return lambda: s.flush()
        if mn == 'ret': return lambda: (r['%i7'] + 8) & k
        if mn == 'jmp': return s.reg(o[0])
        if mn == 'call':
            v = s.reg(o[0]) if o[0][0] == '%' else s.imm(a + num(o[0]))
            def g(): x = v(); r['%o7'] = a; return x
            return g
        if mn in ('b', 'ba'): v = a + num(o[0]); return lambda: v
        raise Unknown(t)
