#!/usr/bin/env python3
"""C30: what the build descriptions (CMakeLists.txt, build/Jamfile.v2) select for a platform.

A case is a platform (operating system, processor, word size, compiler, options). CMake really configures the library with a stub
compiler that pretends to be the platform's, and its file API tells which files would be compiled with which definitions; b2 loads
the Jamfile and resolves its alternatives. The model says which assembler port, which implementation and which stack traits belong
to the platform. Finite domains, but too large to be tried by hand (and never tried by the tests, which run on one platform)."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time
ROOT = os.environ.get('VERIF_HERE') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'h')]
from genprog import Src
REPO = os.environ.get('VERIF_REPO', '/repo')
ASM3 = ('make', 'jump', 'ontop')
# every port: (architecture, word size, abi, binary format, assembler) -> what follows make_/jump_/ontop_
def port(arch, bits, abi, fmt, asm):
    f = {'mach-o': 'macho'}.get(fmt, fmt)
    name = {('arm', 32): 'arm', ('arm', 64): 'arm64', ('mips', 32): 'mips32', ('mips', 64): 'mips64', ('power', 32): 'ppc32', ('power', 64): 'ppc64', ('riscv', 64): 'riscv64', ('loongarch', 64): 'loongarch64',
            ('s390x', 64): 's390x', ('sparc', 64): 'sparc64', ('x86', 32): 'i386', ('x86', 64): 'x86_64'}.get((arch, bits))
    ok = {'arm': {'elf': 'aapcs', 'mach-o': 'aapcs', 'pe': 'aapcs'}, 'arm64': {'elf': 'aapcs', 'mach-o': 'aapcs', 'pe': 'aapcs'}, 'i386': {'elf': 'sysv', 'mach-o': 'sysv', 'pe': 'ms'}, 'x86_64': {'elf': 'sysv', 'mach-o': 'sysv', 'pe': 'ms'},
          'mips32': {'elf': 'o32'}, 'mips64': {'elf': 'n64'}, 'ppc32': {'elf': 'sysv', 'mach-o': 'sysv', 'xcoff': 'sysv'}, 'ppc64': {'elf': 'sysv', 'mach-o': 'sysv', 'xcoff': 'sysv'}}.get(name, {'elf': 'sysv'} if name else {})
    if ok.get(fmt) != abi: return None
    if fmt != 'pe': return '%s_%s_%s_gas.S' % (name, abi, f) if asm == 'gas' else None
    if name in ('arm', 'arm64'): return {'armasm': '%s_aapcs_pe_armasm.asm' % name, 'armclang': 'arm64_aapcs_pe_armclang.S' if name == 'arm64' else None}.get(asm)
    return {'masm': '%s_ms_pe_masm.asm', 'gas': '%s_ms_pe_gas.asm'}.get(asm, '%.0s') % name or None
def helpers(p):     # C++ sources without which the port does not link / that merely print a note
    return {'tail_ontop_ppc32_sysv.cpp'} if p and p.startswith(('ppc32_sysv_elf', 'ppc32_sysv_macho', 'ppc32_ppc64')) else set()
NOTES = {'dummy.cpp', 'untested.cpp'}
# ---- b2 -----------------------------------------------------------------------------------------
TS = 'gcc clang msvc clang-win intel qcc darwin embarcadero borland openxl'.split()
ABIS = 'aapcs eabi ms n32 n64 o32 o64 sysv x32'.split(); AMS = ['32', '64', '32_64']
ARCHS = 'arm mips power riscv s390x sparc x86 loongarch arm+x86'.split(); FMTS = 'elf mach-o pe xcoff'.split()
def b2_expected(c):
    """(port or None, must be supported)"""
    ts, abi, am, arch, fmt = c['ts'], c['abi'], c['am'], c['arch'], c['fmt']
    if arch == 'arm+x86': return ('combined_sysv_macho_gas.S', ts in ('clang', 'darwin')) if abi == 'sysv' and fmt == 'mach-o' else (None, False)
    if am == '32_64':
        u = {'x86': 'i386_x86_64_sysv_macho_gas.S', 'power': 'ppc32_ppc64_sysv_macho_gas.S'}.get(arch) if abi == 'sysv' and fmt == 'mach-o' else None
        return u, bool(u) and ts in ('clang', 'darwin')
    bits = int(am)
    if abi == 'x32': return ('x86_64_sysv_elf_gas.S', ts in ('gcc', 'clang')) if (arch, bits, fmt) == ('x86', 32, 'elf') else (None, False)
    if ts == 'embarcadero' and (arch, bits, abi, fmt) == ('x86', 64, 'ms', 'pe'): return 'x86_64_sysv_elf_gas.S', True
    asm = 'gas'
    if fmt == 'pe':
        asm = ('armasm' if ts == 'msvc' else 'armclang') if arch == 'arm' else 'gas' if ts in ('gcc', 'clang') else 'masm'
    p = port(arch, bits, abi, fmt, asm)
    main = {'elf': ('gcc', 'clang'), 'mach-o': ('clang', 'darwin'), 'pe': ('msvc',) if arch == 'arm' else ('msvc', 'clang-win', 'gcc', 'clang'), 'xcoff': ('gcc', 'clang')}[fmt]
    return p, bool(p) and ts in main
def b2_key(c): return '%(arch)s/%(am)s/%(abi)s/%(fmt)s/%(ts)s' % c
def b2_run(cases, d):
    """selected sources per case; None if b2 could not be run"""
    os.makedirs(d + '/ctx/build', exist_ok=True); os.makedirs(d + '/run', exist_ok=True)
    for f in os.listdir(REPO + '/build'):
        if os.path.isfile(REPO + '/build/' + f): shutil.copy(REPO + '/build/' + f, d + '/ctx/build/')
    for f in os.listdir(REPO):
        if f.endswith('.jam') and f != 'build.jam': shutil.copy(os.path.join(REPO, f), d)
    w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    w('config.jam', 'rule requires ( names + ) { return ; }\n'); w('boost-build.jam', 'boost-build /usr/share/b2/src/kernel ;\n'); w('user-config.jam', ''); w('site-config.jam', '')
    w('Jamroot', 'import feature ;\nrule import-search ( x ) { }\nconstant boost_dependencies : "" ;\nimport boost-context-features ;\nproject root ;\nlocal known = [ feature.values toolset ] ;\n'
      'for local t in %s { if ! $(t) in $(known) { feature.extend toolset : $(t) ; } }\n' % ' '.join(TS))
    t = ('import project ; import property-set ; import modules ;\nlocal m = [ project.load ctx/build ] ;\nlocal p = [ project.target $(m) ] ;\n'
         'rule sel ( p id : ps * ) { for local n in asm_sources impl_sources stack_traits_sources { local a = [ $(p).main-target $(n) ] ; local b = [ $(a).select-alternatives [ property-set.create $(ps) ] ] ;\n'
         ' if $(b) { ECHO SEL $(id) $(n) [ modules.peek $(b) : self.sources ] ; } else { ECHO SEL $(id) $(n) NONE ; } } }\n')
    for i, c in enumerate(cases):
        t += 'sel $(p) %d : <toolset>%s <abi>%s <address-model>%s <architecture>%s <binary-format>%s <threading>multi <context-impl>%s <target-os>%s ;\n' % (i, c['ts'], c['abi'], c['am'], c['arch'], c['fmt'], c['impl'], c['os'])
    w('run/Jamfile', t)
    r = subprocess.run(['b2', '-n', '-d0', 'run'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, HOME=d, BOOST_BUILD_PATH=d))
    out = [{} for _ in cases]
    for l in r.stdout.split('\n'):
        f = l.split()
        if f[:1] == ['SEL']: out[int(f[1])][f[2]] = None if f[3:] == ['NONE'] else f[3:]
    if any(len(o) != 3 for o in out): return None, r.stdout[-600:]
    return out, None
def b2_judge(c, o):
    p, must = b2_expected(c); k = 'b2 %s' % b2_key(c)
    a = o['asm_sources']
    if a is None:
        if must: return '%s: no assembler sources are selected, %s expected' % (k, p)
    elif not a and must: return '%s: nothing is selected' % k
    else:
        bad = [x for x in a if not os.path.isfile(REPO + '/src/' + x)]
        if bad: return '%s: the selected source %s does not exist' % (k, bad[0])
        if p is None: return '%s: sources are selected (%s) for a platform without port' % (k, ' '.join(a))
        got = {x for x in a if os.path.basename(x) not in NOTES}
        want = {'asm/%s_%s' % (n, p) for n in ASM3}; h = {'asm/' + x for x in helpers(p)}
        if got - h != want: return '%s: %s is selected, the port is %s' % (k, ' '.join(sorted(got)), p)
        if not h <= got: return '%s: %s is missing' % (k, ' '.join(h))
    i = o['impl_sources']; k = 'b2 context-impl=%s' % c['impl']
    if i is None: return '%s: no sources are selected' % k
    base = {os.path.basename(x) for x in i}
    if c['impl'] == 'fcontext':
        if not {'asm_sources', 'fcontext.cpp'} <= base or base & {'fiber.cpp', 'continuation.cpp'}: return '%s selects %s' % (k, ' '.join(i))
    elif not {'fiber.cpp', 'continuation.cpp'} <= base or base & {'asm_sources', 'fcontext.cpp'}: return '%s selects %s' % (k, ' '.join(i))
    t = o['stack_traits_sources']
    want = ['windows/stack_traits.cpp'] if c['os'] == 'windows' else ['posix/stack_traits.cpp']
    if t != want: return 'b2 target-os=%s: stack traits %s are selected' % (c['os'], t)
    return None
# ---- CMake --------------------------------------------------------------------------------------
# (system, processor names, word size, compilers) -> port; the processor names are what the system's uname (or the toolchain files of its vendor) say
GNU, CL, MS = ('GNU',), ('Clang',), ('MSVC',)
NATIVE = [('Linux', ('x86_64',), 64, GNU + CL, 'x86_64_sysv_elf_gas.S'), ('Linux', ('i386', 'i486', 'i586', 'i686', 'x86'), 32, GNU + CL, 'i386_sysv_elf_gas.S'),
          ('Linux', ('aarch64', 'arm64'), 64, GNU + CL, 'arm64_aapcs_elf_gas.S'), ('Linux', ('arm', 'armv6l', 'armv7l', 'armv7-a', 'armv8l', 'armv5te'), 32, GNU + CL, 'arm_aapcs_elf_gas.S'),
          ('Linux', ('mips', 'mipsel'), 32, GNU + CL, 'mips32_o32_elf_gas.S'), ('Linux', ('mips64', 'mips64el'), 64, GNU + CL, 'mips64_n64_elf_gas.S'), ('Linux', ('mips64',), 32, GNU + CL, 'mips32_o32_elf_gas.S'),
          ('Linux', ('riscv64',), 64, GNU + CL, 'riscv64_sysv_elf_gas.S'), ('Linux', ('loongarch64',), 64, GNU + CL, 'loongarch64_sysv_elf_gas.S'), ('Linux', ('s390x',), 64, GNU + CL, 's390x_sysv_elf_gas.S'),
          ('Linux', ('ppc64', 'ppc64le'), 64, GNU + CL, 'ppc64_sysv_elf_gas.S'), ('Linux', ('ppc', 'powerpc', 'ppc64'), 32, GNU + CL, 'ppc32_sysv_elf_gas.S'), ('FreeBSD', ('powerpc64', 'powerpc64le'), 64, CL, 'ppc64_sysv_elf_gas.S'), ('FreeBSD', ('powerpc',), 32, CL, 'ppc32_sysv_elf_gas.S'), ('Linux', ('sparc64',), 64, GNU + CL, 'sparc64_sysv_elf_gas.S'),
          ('Linux', ('x86_64',), 32, GNU + CL, 'i386_sysv_elf_gas.S'), ('Linux', ('aarch64',), 32, GNU + CL, 'arm_aapcs_elf_gas.S'),
          ('FreeBSD', ('amd64',), 64, CL, 'x86_64_sysv_elf_gas.S'), ('FreeBSD', ('i386',), 32, CL, 'i386_sysv_elf_gas.S'), ('FreeBSD', ('arm64', 'aarch64'), 64, CL, 'arm64_aapcs_elf_gas.S'), ('FreeBSD', ('riscv64',), 64, CL, 'riscv64_sysv_elf_gas.S'),
          ('OpenBSD', ('amd64',), 64, CL, 'x86_64_sysv_elf_gas.S'), ('NetBSD', ('x86_64', 'amd64'), 64, GNU, 'x86_64_sysv_elf_gas.S'), ('SunOS', ('i386',), 64, GNU, 'x86_64_sysv_elf_gas.S'),
          ('Darwin', ('x86_64',), 64, ('AppleClang', 'Clang', 'GNU'), 'x86_64_sysv_macho_gas.S'), ('Darwin', ('arm64',), 64, ('AppleClang', 'Clang', 'GNU'), 'arm64_aapcs_macho_gas.S'),
          ('Windows', ('AMD64', 'x86_64'), 64, GNU + CL, 'x86_64_ms_pe_gas.asm'), ('Windows', ('x86', 'X86', 'i686'), 32, GNU + CL, 'i386_ms_pe_gas.asm'),
          ('Windows', ('AMD64',), 64, MS, 'x86_64_ms_pe_masm.asm'), ('Windows', ('X86', 'x86'), 32, MS, 'i386_ms_pe_masm.asm'), ('Windows', ('ARM64', 'arm64'), 64, MS, 'arm64_aapcs_pe_armasm.asm'), ('Windows', ('ARM', 'ARMv7'), 32, MS, 'arm_aapcs_pe_armasm.asm')]
FINDINGS = {'m32-x86_64': ('Linux', ('x86_64',), 32), 'm32-aarch64': ('Linux', ('aarch64',), 32), 'm32-mips64': ('Linux', ('mips64',), 32), 'sunos': ('SunOS', ('i386',), 64), 'sparc': ('Linux', ('sparc64',), 64),
            'ppc64': ('Linux', ('ppc64', 'ppc64le'), 64), 'ppc32': ('Linux', ('ppc', 'powerpc', 'ppc64'), 32), 'ppc64-bsd': ('FreeBSD', ('powerpc64', 'powerpc64le'), 64), 'ppc32-bsd': ('FreeBSD', ('powerpc',), 32)}
def known(c):   # listed in known_findings.txt; looked at by jobs of their own (--only)
    if c['kind'] == 'b2':
        k = b2_key(c)
        return 'b2-armclang' if k == 'arm/64/aapcs/pe/clang' else 'b2-loongarch' if k == 'loongarch/64/sysv/elf/clang' else 'b2-ppc-universal' if k.startswith('power/32_64/sysv/mach-o/') else None
    if (c['impl'] or 'fcontext') != 'fcontext': return None
    if c['arch']: return 'tail' if helpers(c['port']) else None
    for n, (s, ps, b) in FINDINGS.items():
        if (c['sys'], c['bits']) == (s, b) and c['proc'] in ps: return n
# explicit choices by BOOST_CONTEXT_*: (architecture, abi, binary format, assembler, suffix) with an existing port
EXPL = [(a, ab, f, 'gas', '.S') for a, ab, f in (('arm', 'aapcs', 'elf'), ('arm', 'aapcs', 'mach-o'), ('arm64', 'aapcs', 'elf'), ('arm64', 'aapcs', 'mach-o'), ('loongarch64', 'sysv', 'elf'), ('mips32', 'o32', 'elf'), ('mips64', 'n64', 'elf'), ('riscv64', 'sysv', 'elf'),
        ('s390x', 'sysv', 'elf'), ('i386', 'sysv', 'elf'), ('i386', 'sysv', 'mach-o'), ('x86_64', 'sysv', 'elf'), ('x86_64', 'sysv', 'mach-o'), ('combined', 'sysv', 'mach-o'), ('sparc64', 'sysv', 'elf'), ('ppc64', 'sysv', 'elf'), ('ppc64', 'sysv', 'xcoff'), ('ppc64', 'sysv', 'mach-o'),
        ('ppc32', 'sysv', 'elf'), ('ppc32', 'sysv', 'mach-o'), ('ppc32', 'sysv', 'xcoff'))] + \
       [(a, 'ms', 'pe', m, '.asm') for a in ('i386', 'x86_64') for m in ('gas', 'masm')] + [(a, 'aapcs', 'pe', 'armasm', '.asm') for a in ('arm', 'arm64')]
def cm_run(c, d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/src'); os.makedirs(d + '/b/.cmake/api/v1/query'); open(d + '/b/.cmake/api/v1/query/codemodel-v2', 'w').close()
    stub = d + '/stub'; open(stub, 'w').write('#!/bin/sh\nexit 0\n'); os.chmod(stub, 0o755)
    open(d + '/src/CMakeLists.txt', 'w').write('cmake_minimum_required(VERSION 3.16)\nproject(host LANGUAGES CXX)\nforeach(l assert config core mp11 pool predef smart_ptr)\n  add_library(boost_${l} INTERFACE)\n  add_library(Boost::${l} ALIAS boost_${l})\nendforeach()\nadd_subdirectory(${REPO} ctx)\n')
    t = 'set(CMAKE_SYSTEM_NAME %s)\nset(CMAKE_SYSTEM_PROCESSOR %s)\nset(CMAKE_SIZEOF_VOID_P %d)\n' % (c['sys'], c['proc'], c['bits'] // 8)
    for l in ('CXX', 'C', 'ASM', 'ASM-ATT', 'ASM_MASM', 'ASM_ARMASM'):
        t += ''.join('set(CMAKE_%s_%s %s)\n' % (l, k, v) for k, v in (('COMPILER', stub), ('COMPILER_ID', c['cid']), ('COMPILER_VERSION', '19.3' if c['cid'] == 'MSVC' else '13'), ('COMPILER_ID_RUN', 1), ('COMPILER_FORCED', 1), ('SIZEOF_DATA_PTR', c['bits'] // 8), ('STANDARD_COMPUTED_DEFAULT', 17), ('EXTENSIONS_COMPUTED_DEFAULT', 'ON')))
        if c['cid'] == 'MSVC': t += 'set(MSVC_%s_ARCHITECTURE_ID x64)\n' % l
    for v in ('AR', 'RANLIB', 'LINKER', 'MT', 'RC_COMPILER', 'INSTALL_NAME_TOOL', 'CXX_COMPILER_AR', 'CXX_COMPILER_RANLIB'): t += 'set(CMAKE_%s %s CACHE FILEPATH "")\n' % (v, stub)
    t += 'set(CMAKE_RC_COMPILER_ID_RUN 1)\nset(CMAKE_OSX_SYSROOT "" CACHE STRING "")\nset(CMAKE_OSX_DEPLOYMENT_TARGET "" CACHE STRING "")\nset(CMAKE_MACOSX_RPATH 1)\n'
    open(d + '/tc.cmake', 'w').write(t)
    a = ['cmake', '-G', 'Unix Makefiles', '-S', d + '/src', '-B', d + '/b', '-DREPO=' + REPO, '-DCMAKE_TOOLCHAIN_FILE=%s/tc.cmake' % d, '-DBUILD_TESTING=OFF', '-DCMAKE_MAKE_PROGRAM=' + stub, '-DBUILD_SHARED_LIBS=%s' % ('ON' if c['shared'] else 'OFF')]
    if c['arch']: a += ['-DBOOST_CONTEXT_ARCHITECTURE=' + c['arch'], '-DBOOST_CONTEXT_ABI=' + c['abi'], '-DBOOST_CONTEXT_BINARY_FORMAT=' + c['fmt'], '-DBOOST_CONTEXT_ASSEMBLER=' + c['asm'], '-DBOOST_CONTEXT_ASM_SUFFIX=' + c['suffix']]
    if c['impl']: a += ['-DBOOST_CONTEXT_IMPLEMENTATION=' + c['impl']]
    for _ in range(2 if c['twice'] else 1): r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, HOME=d))
    m = re.search(r'Cannot find source file:\s*\n?\s*(\S+)', r.stdout)
    if m: return dict(missing=m.group(1))
    if r.returncode: return dict(error=r.stdout[-700:])
    out = dict(sources=[], groups=[])
    rd = d + '/b/.cmake/api/v1/reply/'
    for f in os.listdir(rd):
        if f.startswith('target-boost_context-'):
            j = json.load(open(rd + f)); out['sources'] = [s['path'] for s in j['sources']]
            for g in j.get('compileGroups', []):
                for i in g['sourceIndexes']: out['groups'].append((g['language'], j['sources'][i]['path'], ' '.join(x['fragment'] for x in g.get('compileCommandFragments', [])), {x['define'] for x in g.get('defines', [])}))
    return out
def cm_name(c):
    s = 'cmake %(sys)s/%(proc)s/%(bits)d/%(cid)s' % c
    if c['arch']: s += ' architecture=%(arch)s abi=%(abi)s format=%(fmt)s assembler=%(asm)s suffix=%(suffix)s' % c
    return s + (' implementation=' + c['impl'] if c['impl'] else '')
def cm_judge(c, o):
    k = cm_name(c); impl = c['impl'] or 'fcontext'
    if 'error' in o: return None, 'configuring %s failed:\n%s' % (k, o['error'])
    if 'missing' in o: return '%s: the selected source %s does not exist' % (k, os.path.basename(o['missing'])), None
    rel = {os.path.relpath(os.path.join(REPO, s), REPO + '/src') for s in o['sources']}; compiled = {os.path.relpath(os.path.join(REPO, g[1]), REPO + '/src'): g for g in o['groups']}
    asm = {s for s in rel if s.startswith('asm/')}
    if impl == 'fcontext':
        want = {'asm/%s_%s' % (n, c['port']) for n in ASM3}
        if asm - {'asm/' + h for h in helpers(c['port'])} != want: return '%s: %s is selected, the port is %s' % (k, ' '.join(sorted(asm)), c['port']), None
        if not want <= set(compiled): return '%s: the assembler sources are not compiled' % k, None
        if helpers(c['port']) - {os.path.basename(s) for s in compiled if 'cpp' not in compiled[s][2]}: return '%s: %s is missing' % (k, ' '.join(helpers(c['port']))), None
        if c['cid'] == 'GNU' and c['port'].endswith('gas.asm') and any('assembler-with-cpp' not in compiled[s][2] for s in want): return '%s: GCC is not told that the .asm files are assembler' % k, None
        if c['port'] == 'i386_ms_pe_masm.asm' and any('/safeseh' not in compiled[s][2] for s in want): return '%s: masm is not told to mark the objects /safeseh' % k, None
    elif asm: return '%s: assembler sources are selected (%s)' % (k, ' '.join(sorted(asm))), None
    must = {'fcontext.cpp'} if impl == 'fcontext' else {'fiber.cpp', 'continuation.cpp'}; not_ = {'fiber.cpp', 'continuation.cpp', 'fcontext.cpp'} - must
    if not must <= set(compiled) or not_ & rel: return '%s: %s selected' % (k, ' '.join(sorted(rel))), None
    tr = {s for s in rel if s.endswith('stack_traits.cpp')}
    if tr != {'windows/stack_traits.cpp' if c['sys'] == 'Windows' else 'posix/stack_traits.cpp'}: return '%s: stack traits %s' % (k, ' '.join(tr)), None
    for s, g in compiled.items():
        if not s.endswith('.cpp'): continue
        d = {x.split('=')[0]: x.split('=')[1] if '=' in x else '1' for x in g[3]}
        if ('BOOST_USE_UCONTEXT' in d) != (impl == 'ucontext') or ('BOOST_USE_WINFIB' in d) != (impl == 'winfib'): return '%s: %s is compiled with %s' % (k, s, ' '.join(sorted(d))), None
        if ('BOOST_CONTEXT_DYN_LINK' in d) != bool(c['shared']): return '%s: %s library, but %s' % (k, 'shared' if c['shared'] else 'static', ' '.join(sorted(d))), None
    return None, None
# ---- generation ---------------------------------------------------------------------------------
def gen(s, only=None):
    kind = s.d(6)
    if (kind < 5 and not only) or (only and only.startswith('b2')):
        rnd = lambda k: {'ts': TS, 'abi': ABIS, 'am': AMS, 'arch': ARCHS, 'fmt': FMTS}[k]
        pick = lambda k: rnd(k)[s.d(len(rnd(k)))]
        keys = ('ts', 'abi', 'am', 'arch', 'fmt')
        m = s.d(4)      # 0, 1: a platform that has a port; 2: one where one property is off; 3: any
        while True:
            c = {k: pick(k) for k in keys}
            if s.d(8):     # make the rest agree
                c['fmt'] = c['fmt'] if c['arch'] in ('x86', 'arm', 'power') else 'elf'
                c['abi'] = 'aapcs' if c['arch'] == 'arm' else ('o32' if c['am'] == '32' else 'n64') if c['arch'] == 'mips' else 'ms' if c['fmt'] == 'pe' else 'sysv' if c['abi'] != 'x32' else 'x32'
                if c['arch'] in ('riscv', 's390x', 'sparc', 'loongarch'): c['am'] = '64'
            if m == 3 or b2_expected(c)[0] or (s.ch is not None and s.i >= len(s.ch)): break
        if m == 2: k = keys[s.d(5)]; c[k] = pick(k)
        c.update(impl=('fcontext', 'ucontext', 'winfib')[s.d(3)], os=('linux', 'windows', 'darwin', 'freebsd', 'aix', 'android', 'iphone')[s.d(7)], kind='b2')
        return c
    n = NATIVE[s.d(len(NATIVE))]; c = dict(kind='cmake', sys=n[0], proc=n[1][s.d(len(n[1]))], bits=n[2], cid=n[3][s.d(len(n[3]))], port=n[4], arch=None, shared=s.d(2), twice=s.d(4) == 0, impl=None)
    c['impl'] = (None, None, 'fcontext', 'ucontext', 'winfib')[s.d(5)]
    if s.d(3) == 0:
        c['arch'], c['abi'], c['fmt'], c['asm'], c['suffix'] = EXPL[s.d(len(EXPL))]
        if c['asm'] == 'gas' and c['cid'] == 'MSVC': c['cid'] = 'Clang'
        c['port'] = '%s_%s_%s_%s%s' % (c['arch'], c['abi'], 'macho' if c['fmt'] == 'mach-o' else c['fmt'], c['asm'], c['suffix'])
    return c
def want(c, only):
    k = known(c)
    if only: return k is not None and only == k
    return k is None
def judge(c, d):
    """(violation, harness error)"""
    if c['kind'] == 'b2':
        o, e = b2_run([c], d + '/b2'); return (b2_judge(c, o[0]), None) if o else (None, e)
    return cm_judge(c, cm_run(c, d + '/cm'))
def describe(c): return cm_name(c) + (' shared' if c['shared'] else '') if c['kind'] == 'cmake' else 'b2 %s impl=%s os=%s' % (b2_key(c), c['impl'], c['os'])
def worker(job):
    seed, lo, hi, d, only, wall = job; t0 = time.time(); st = collections.Counter(); seen = set(); viol = None; herr = None; smp = []; n = 0; b2 = []
    os.makedirs(d, exist_ok=True)
    def record(c, ch, v, e):
        nonlocal viol, herr, n
        n += 1; herr = herr or e
        nt = bool(b2_expected(c)[0]) if c['kind'] == 'b2' else True
        st[c['kind'] + ' configurations'] += 1
        if c['kind'] == 'cmake': st['cmake ' + c['sys']] += 1; st['cmake explicit'] += bool(c['arch'])
        if nt: st['nt'] += 1; seen.add(hashlib.sha1(repr(sorted(c.items(), key=str)).encode()).digest()[:8])
        if len(smp) < 3 and nt: smp.append(describe(c))
        if v and (viol is None or len(ch) < len(viol[1])): viol = (v, ch)
    for i in range(lo, hi):
        if time.time() - t0 > wall or viol: break
        for t in range(4000 if only else 50):
            s = Src(None, random.Random('%d/%d/%d' % (seed, i, t))); c = gen(s, only)
            if want(c, only): break
        else: continue
        if c['kind'] == 'b2': b2.append((c, s.rec)); continue
        v, e = judge(c, d); record(c, s.rec, v, e)
        if e: break
    for k in range(0, len(b2), 400):
        o, e = b2_run([c for c, _ in b2[k:k + 400]], d + '/b2')
        if o is None: herr = herr or e; break
        for (c, ch), x in zip(b2[k:k + 400], o): record(c, ch, b2_judge(c, x), None)
    if viol:      # fewer and smaller choices
        v, ch = viol; kind = re.sub(r'^\S+ \S+ ?', '', v)[:40]; more = True; t1 = time.time()
        while more and time.time() - t1 < 25:
            more = False
            for al in [ch[:j] + [0] + ch[j + 1:] for j in range(len(ch)) if ch[j]] + [ch[:j] + [ch[j] // 2] + ch[j + 1:] for j in range(len(ch)) if ch[j] > 1]:
                s = Src(al, None); c = gen(s, only)
                if not want(c, only): continue
                r, _ = judge(c, d)
                if r and sum(s.rec) < sum(ch): ch, v, more = s.rec, r, True; break
        viol = (v, ch)
    return n, st, list(seen), viol, herr, smp
def main():
    ap = argparse.ArgumentParser()
    for a, t, dflt in (('--cases', int, 200), ('--seed', int, 1), ('--workers', int, 8), ('--max-wall', float, 240), ('--out', str, ''), ('--fail-out', str, ''), ('--tmp', str, '.'), ('--replay', str, ''), ('--only', str, '')): ap.add_argument(a, type=t, default=dflt)
    o = ap.parse_args(); d = os.path.abspath(os.path.join(o.tmp, 'bs%d' % os.getpid())); os.makedirs(d)
    try: return go(o, d)
    finally: shutil.rmtree(d, ignore_errors=True)
def go(o, d):
    t0 = time.time()
    if o.replay:
        t = open(o.replay, errors='replace').read(); c = gen(Src([int(x) for x in re.search(r'^choices:(.*)$', t, re.M).group(1).split()], None), o.only); v, e = judge(c, d)
        print('RESULT ' + ('FAIL ' + v if v else 'harness error ' + e if e else 'pass')); return 1 if v else 2 if e else 0
    ch = max(1, (o.cases + o.workers - 1) // o.workers)
    jobs = [(o.seed, lo, min(o.cases, lo + ch), '%s/w%d' % (d, lo), o.only, o.max_wall) for lo in range(0, o.cases, ch)]
    tot = 0; st = collections.Counter(); seen = set(); viol = None; herr = ''; smp = []
    with cf.ProcessPoolExecutor(o.workers) as ex:
        for n, s, sn, v, e, sm in ex.map(worker, jobs):
            tot += n; st.update(s); seen.update(sn); smp += sm; herr = herr or e or ''
            if v and (viol is None or sum(v[1]) < sum(viol[1])): viol = v
    nt = st.pop('nt', 0)
    if viol and o.fail_out: open(o.fail_out, 'w').write('harness: buildsel\nargs:%s\nmessage: %s\nchoices: %s\n' % (' --only ' + o.only if o.only else '', viol[0], ' '.join(map(str, viol[1]))))
    out = dict(harness='buildsel', cases=tot, nontrivial=nt, distinct_nontrivial=len(seen), steps=tot, wall=round(time.time() - t0, 2), cut=0, harness_errors=1 if herr and not viol else 0, harness_error_msg=herr, unreproduced=0, unreproduced_msg='', failed=1 if viol else 0, message=viol[0] if viol else '',
               first_message='', shrink_evals=0, rule='a case is a platform with options; non-trivial: a platform that has a port (b2), any (cmake); distinct by configuration', labels=dict(st), samples=smp[:3])
    s = json.dumps(out); print(s)
    if o.out: open(o.out, 'w').write(s)
    return 1 if viol else 2 if herr else 0
if __name__ == '__main__': sys.exit(main())
