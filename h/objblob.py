#!/usr/bin/env python3
"""Turns the .text of a COFF or Mach-O object (x86) into an ELF assembler file defining SYMBOL.
objblob.py OBJ SYMBOL OUT.S : local references are resolved, references to _exit go to raw_exit."""
import struct, sys


def coff(d):
    mach, nsec, _, symoff, nsym, optsz, _ = struct.unpack_from('<HHIIIHH', d, 0)
    strs = symoff + nsym * 18

    def name(b):
        if b[:4] == b'\0\0\0\0':
            o = strs + struct.unpack_from('<I', b, 4)[0]
            return d[o:d.index(b'\0', o)].decode()
        return b.rstrip(b'\0').decode()
    syms, i = [], 0
    while i < nsym:
        b = d[symoff + i * 18: symoff + i * 18 + 18]
        val, sec, typ, cls, aux = struct.unpack_from('<IhHBB', b, 8)
        syms.append((name(b[:8]), val, sec))
        for _ in range(aux):
            syms.append(None)
        i += 1 + aux
    for k in range(nsec):
        o = 20 + optsz + k * 40
        nm = d[o:o + 8].rstrip(b'\0').decode()
        vs, va, rs, ro, rel, ln, nr, nl, ch = struct.unpack_from('<IIIIIIHHI', d, o + 8)
        if nm in ('.text', '_TEXT') or nm.startswith('.text$') and rs:
            if rs == 0:
                continue
            text = bytearray(d[ro:ro + rs])
            rels = []
            for j in range(nr):
                a, si, t = struct.unpack_from('<IIH', d, rel + j * 10)
                s = syms[si]
                add = struct.unpack_from('<i', text, a)[0]
                pcrel = t == (4 if mach == 0x8664 else 0x14)
                if not pcrel and not (mach == 0x14c and t == 6) and not (mach == 0x8664 and t == 2):
                    raise SystemExit('coff relocation type %d' % t)
                rels.append((a, pcrel, s[0], s[1] if s[2] == k + 1 else None, add))
            return text, {s[0]: s[1] for s in syms if s and s[2] == k + 1}, rels
    raise SystemExit('no text')


def macho(d):
    magic = struct.unpack_from('<I', d, 0)[0]
    m64 = magic == 0xfeedfacf
    ncmds = struct.unpack_from('<I', d, 16)[0]
    p = 32 if m64 else 28
    secs, syms = [], []
    for _ in range(ncmds):
        cmd, sz = struct.unpack_from('<II', d, p)
        if cmd in (0x19, 1):
            n = struct.unpack_from('<I', d, p + (64 if m64 else 48))[0]
            q = p + (72 if m64 else 56)
            for _ in range(n):
                nm = d[q:q + 16].rstrip(b'\0').decode()
                if m64:
                    addr, size, off, al, ro, nr = struct.unpack_from('<QQIIII', d, q + 32)
                    q += 80
                else:
                    addr, size, off, al, ro, nr = struct.unpack_from('<IIIIII', d, q + 32)
                    q += 68
                secs.append((nm, addr, size, off, ro, nr))
        if cmd == 2:
            so, ns, sto, _ = struct.unpack_from('<IIII', d, p + 8)
            for i in range(ns):
                if m64:
                    sx, ty, sc, ds, v = struct.unpack_from('<IBBHQ', d, so + i * 16)
                else:
                    sx, ty, sc, ds, v = struct.unpack_from('<IBBHI', d, so + i * 12)
                o = sto + sx
                syms.append((d[o:d.index(b'\0', o)].decode(), v, sc))
        p += sz
    nm, addr, size, off, ro, nr = [s for s in secs if s[0] == '__text'][0]
    text = bytearray(d[off:off + size])
    rels, j = [], 0
    while j < nr:
        a, w = struct.unpack_from('<II', d, ro + j * 8)
        j += 1
        if a & 0x80000000:        # scattered: section differences are already in the code
            t = (a >> 24) & 15
            if t not in (1, 2, 4):
                raise SystemExit('scattered relocation %d' % t)
            continue
        sym, pcrel, ln, ext, t = w & 0xffffff, (w >> 24) & 1, (w >> 25) & 3, (w >> 27) & 1, (w >> 28) & 15
        add = struct.unpack_from('<i', text, a)[0]
        if not ext:
            if pcrel:
                continue
            raise SystemExit('local absolute relocation')
        s = syms[sym]
        if not m64 and pcrel:
            add += a + 4          # i386: relative to the section start
        rels.append((a, bool(pcrel), s[0], s[1] - addr if s[2] else None, add))
    return text, {s[0]: s[1] - addr for s in syms if s[2]}, rels


def main():
    d = open(sys.argv[1], 'rb').read()
    text, syms, rels = macho(d) if d[:4] in (b'\xcf\xfa\xed\xfe', b'\xce\xfa\xed\xfe') else coff(d)
    sym = sys.argv[2]
    base = [v for k, v in syms.items() if k.lstrip('_') == sym]
    if not base:
        raise SystemExit('symbol %s not found in %s' % (sym, sorted(syms)))
    out = ['.text', '.balign 64', 'blob_%s:' % sym]
    at = {r[0]: r for r in rels}
    i = 0
    while i < len(text):
        if i == base[0]:
            out += ['.globl %s' % sym, '.type %s,@function' % sym, '%s:' % sym]
        if i in at:
            a, pcrel, nm, local, add = at[i]
            tgt = 'blob_%s+%d' % (sym, local) if local is not None else ('raw_exit' if nm.lstrip('_') == 'exit' else None)
            if tgt is None:
                raise SystemExit('unknown symbol ' + nm)
            out.append('.long %s%s%+d' % (tgt, '-.-4' if pcrel else '', add))
            i += 4
        else:
            out.append('.byte %d' % text[i])
            i += 1
    out += ['.size %s,.-%s' % (sym, sym), '.section .note.GNU-stack,"",%progbits']
    open(sys.argv[3], 'w').write('\n'.join(out) + '\n')


main()
