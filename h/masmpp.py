#!/usr/bin/env python3
"""Reduces a MASM source to what llvm-ml accepts (attributes, segment assumptions and unwind directives carry no code)."""
import re, sys
src = open(sys.argv[1]).read().splitlines()
labels = {m.group(1) for m in (re.match(r'\s*(\w+):', l) for l in src) if m}
o = []
for l in src:
    l = re.sub(r'\bBOOST_CONTEXT_EXPORT\b', '', l)
    l = re.sub(r'\bPROC\s+FRAME\b', 'PROC', l)
    if re.match(r'\s*(assume\b|\.endprolog|\.safeseh)', l, re.I):
        continue
    l = re.sub(r'^\s*_exit\s+PROTO.*', 'EXTERN _exit:PROC', l)
    m = re.match(r'(\s*mov\s+\w+\s*,\s*)(\w+)(\s*(;.*)?)$', l)
    if m and m.group(2) in labels:         # MASM: a code label as operand is its address
        l = m.group(1) + 'offset ' + m.group(2)
    o.append(l + '\n')
open(sys.argv[2], 'w').writelines(o)
