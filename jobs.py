"""What is built and run for every property."""
import glob, os

BASE = ['-DBOOST_CONTEXT_NO_LIB=', '-DBOOST_CONTEXT_STATIC_LINK=', '-DBOOST_CONTEXT_EXPORT=', '-DBOOST_ALL_NO_LIB=']
KNOWN_SRC = {'continuation.cpp', 'dummy.cpp', 'fcontext.cpp', 'fiber.cpp', 'untested.cpp'}


def lib_sources(repo, impl):
    s = repo + '/src/'
    extra = sorted(p for p in glob.glob(s + '*.cpp') if os.path.basename(p) not in KNOWN_SRC)
    extra += sorted(p for p in glob.glob(s + 'posix/*.cpp') if os.path.basename(p) != 'stack_traits.cpp')
    if impl == 'n':
        return []
    if impl == 't':
        return [s + 'posix/stack_traits.cpp'] + extra
    if impl == 'f':
        a = s + 'asm/%s_x86_64_sysv_elf_gas.S'
        return [s + 'fcontext.cpp'] + [a % x for x in ('make', 'jump', 'ontop')] + [s + 'posix/stack_traits.cpp'] + extra
    return [s + 'fiber.cpp', s + 'continuation.cpp', s + 'posix/stack_traits.cpp'] + extra


def commands(name, spec, repo, here):
    if 'commands' in spec:
        return spec['commands'](name, spec, repo, here)
    impl = spec.get('impl', 'f')
    cxx = spec.get('cxx', 'g++')
    f = list(BASE) + [x.replace('@H@', here + '/h') for x in spec.get('flags', []) if x.startswith('-I')] + ['-I' + repo + '/include', '-I' + here + '/h', '-std=c++' + spec.get('std', '17')]
    f += spec.get('opt', '-O2').split() + ['-g1', '-pthread', '-w']
    if impl in 'us':
        f += ['-DBOOST_USE_UCONTEXT=']
    if impl == 'w':
        f += ['-DBOOST_USE_WINFIB=', '-I' + here + '/h/win']
    if impl == 's':
        f += ['-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack', '-fcf-protection=none', '-static', '-fuse-ld=gold']
    f += [x.replace('@H@', here + '/h') for x in spec.get('flags', [])]
    src = [here + '/h/' + x for x in spec['src'].split()]
    lib = lib_sources(repo, impl)
    if spec.get('wintraits'):
        lib = [x.replace('src/posix/stack_traits.cpp', 'src/windows/stack_traits.cpp') for x in lib]
        f += ['-DST_WIN', '-I' + here + '/h/win']
    link = spec.get('link', ['-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc'] + (['-Wl,-z,now'] if impl != 's' else []))
    return [([cxx] + f + src + lib + ['-o', '@D@/' + name] + link + spec.get('libs', []), name)]


def wrapped_commands(name, spec, repo, here):
    sp = {k: v for k, v in spec.items() if k not in ('commands', 'wrap')}
    return commands(name + '.bin', sp, repo, here) + script_commands(name, dict(src=spec['wrap']), repo, here)


ASM = ('make', 'jump', 'ontop')


def raw_commands(name, spec, repo, here):
    """C17/C23: one assembler variant linked with the register level harness."""
    var, bits, defs = spec['variant'], spec.get('bits', 64), spec.get('asmflags', [])
    h, a = here + '/h/', repo + '/src/asm/'
    cmds, srcs = [], []
    for f in ASM:
        o = '@D@/%s.obj' % f
        if var == 'elf':
            srcs.append(a + f + ('_x86_64' if bits == 64 else '_i386') + '_sysv_elf_gas.S')
            continue
        t = 'x86_64' if bits == 64 else 'i386'
        if var == 'macho':
            argv = ['clang', '-target', t + '-apple-darwin'] + defs + ['-c', '-o', o, a + f + '_%s_sysv_macho_gas.S' % ('i386_x86_64' if spec.get('combined') else t)]
            cmds.append((argv, name))
        elif var in ('pe', 'pec'):
            tt = t if bits == 64 else 'i686'
            src = a + f + '_%s_ms_pe_%s' % (t, 'gas.asm' if var == 'pe' else 'clang_gas.S')
            cmds.append((['clang', '-target', tt + '-pc-windows-gnu', '-x', 'assembler-with-cpp'] + defs + ['-c', '-o', o, src], name))
        elif var == 'masm':
            cmds.append((['python3', h + 'masmpp.py', a + f + '_%s_ms_pe_masm.asm' % t, '@D@/%s.asm' % f], name))
            cmds.append((['llvm-ml-18', '-m%d' % bits, '--filetype=obj'] + [d.replace('-D', '/D') for d in defs] + ['-c', '@D@/%s.asm' % f, '/Fo', o], name))
        cmds.append((['python3', h + 'objblob.py', o, f + '_fcontext', '@D@/%s.S' % f], name))
        srcs.append('@D@/%s.S' % f)
    flags = spec.get('flags', [])
    ad = defs if var == 'elf' else []
    if bits == 64:
        cmds.append(([spec.get('cxx', 'g++'), spec.get('opt', '-O2'), '-g1', '-fno-omit-frame-pointer', '-fno-stack-protector', '-mno-red-zone', '-w', '-no-pie'] + flags + ad + [h + 'raw.cpp'] + srcs +
                     ['-o', '@D@/' + name] + spec.get('link', []), name))
    else:
        for f, s in zip(ASM, srcs):
            cmds.append((['gcc', '-m32'] + ad + ['-c', s, '-o', '@D@/%s.o' % f], name))
        cmds.append((['g++', '-m32', '-O1', '-fno-omit-frame-pointer', '-fno-stack-protector', '-ffreestanding', '-fno-pic', '-no-pie', '-nostdlib', '-static', '-fno-exceptions', '-fno-rtti',
                      '-fno-threadsafe-statics', '-fno-tree-loop-distribute-patterns', '-w'] + flags + [h + 'raw32.cpp'] + ['@D@/%s.o' % f for f in ASM] + ['-o', '@D@/agent'], name))
        cmds.append((['gcc', '-c', '-DAGENT_FILE="@D@/agent"', h + 'blob32.S', '-o', '@D@/blob.o'], name))
        cmds.append((['g++', '-O2', '-w', h + 'raw32host.cpp', '@D@/blob.o', '-o', '@D@/' + name], name))
    return cmds


def script_commands(name, spec, repo, here):
    return [(['cp', here + '/h/' + spec['src'], '@D@/' + name], name), (['chmod', '755', '@D@/' + name], name)]


def raw(variant, bits=64, defs=(), flags=(), **kw):
    fl = list(flags)
    if bits == 64 and variant in ('pe', 'pec', 'masm'):
        fl.append('-DABI_MS64')
    if bits == 32:
        fl += ['-DRAW_SRET'] if variant == 'elf' else ['-freg-struct-return']
        if variant in ('pe', 'pec', 'masm'):
            fl.append('-DABI_MS32')
    df = list(defs)
    if '-DBOOST_USE_TSX' in df:
        fl.append('-DRAW_TSX=1')
    if '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR' in df:
        fl.append('-DRAW_GUARD=1')
    return dict(commands=raw_commands, variant=variant, bits=bits, asmflags=df, flags=fl, **kw)


TSX, GUARD = ['-DBOOST_USE_TSX'], ['-DBOOST_CONTEXT_TLS_STACK_PROTECTOR']
RAW23 = {
    'r64_tsx': raw('elf', defs=TSX), 'r64_guard': raw('elf', defs=GUARD), 'r64_tsxguard': raw('elf', defs=TSX + GUARD),
    'r64_macho': raw('macho'), 'r64_machotsx': raw('macho', defs=TSX, combined=1),
    'r64_pe': raw('pe'), 'r64_petsx': raw('pe', defs=TSX), 'r64_pec': raw('pec'), 'r64_pectsx': raw('pec', defs=TSX), 'r64_masm': raw('masm'), 'r64_masmtsx': raw('masm', defs=TSX),
    'r32_elf': raw('elf', 32), 'r32_elftsx': raw('elf', 32, TSX), 'r32_elfguard': raw('elf', 32, GUARD),
    'r32_macho': raw('macho', 32), 'r32_machotsx': raw('macho', 32, TSX, combined=1),
    'r32_pe': raw('pe', 32), 'r32_petsx': raw('pe', 32, TSX), 'r32_pec': raw('pec', 32), 'r32_pectsx': raw('pec', 32, TSX), 'r32_masm': raw('masm', 32), 'r32_masmtsx': raw('masm', 32, TSX),
}
RAW17 = {
    'raw': raw('elf'), 'raw_nocet': raw('elf', flags=['-fcf-protection=none']), 'raw_cet': raw('elf', flags=['-fcf-protection=full']),
    'raw_clang': raw('elf', cxx='clang++', opt='-O1'),
}
CETF = ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1']
RAW25 = {
    'rc': raw('elf', flags=['-DRAW_CET=1'] + CETF, link=['-Wl,--wrap=syscall,--wrap=munmap', '-Wl,-z,now']),
    'rc_tsx': raw('elf', defs=TSX, flags=['-DRAW_CET=1'] + CETF, link=['-Wl,--wrap=syscall,--wrap=munmap', '-Wl,-z,now']),
    'rc_guard': raw('elf', defs=GUARD, flags=['-DRAW_CET=1'] + CETF, link=['-Wl,--wrap=syscall,--wrap=munmap', '-Wl,-z,now']),
}
RAW29 = {'s' + n: dict(b, flags=b['flags'] + ['-DRAW_SIG=1']) for n, b in list(RAW23.items()) + [('raw', RAW17['raw'])]}
NOBI = ['-fno-builtin-malloc', '-fno-builtin-free', '-fno-builtin-posix_memalign']
WRAPS = ['-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc', '-Wl,-z,now']
FAILW = ['-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc,--wrap=mmap,--wrap=munmap,--wrap=mprotect,--wrap=getcontext', '-Wl,-z,now']
SEGW = ['-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc,--wrap=syscall']
CETW = ['-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=memalign,--wrap=valloc,--wrap=syscall,--wrap=munmap', '-Wl,-z,now']
FUZZ = ['-DPBT_LIBFUZZER', '-fsanitize-coverage=inline-8bit-counters,indirect-calls,trace-cmp,pc-table']
FUZZL = ['-Wl,--whole-archive', glob.glob('/usr/lib/llvm-18/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a')[0] if glob.glob('/usr/lib/llvm-18/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a') else '-lfuzzer', '-Wl,--no-whole-archive']
BUILDS = {
    **RAW17, **RAW23, **RAW25, **RAW29,
    'mf': dict(src='machine.cpp', impl='f'),
    'mfc': dict(src='machine.cpp', impl='f', flags=['-DM_CALLCC']),
    'gmf': dict(src='machine.cpp', impl='f', flags=['-DM_SIG']), 'gmfc': dict(src='machine.cpp', impl='f', flags=['-DM_CALLCC', '-DM_SIG'], cxx='clang++'),
    'gmu': dict(src='machine.cpp', impl='u', flags=['-DM_SIG'], cxx='clang++'), 'gmuc': dict(src='machine.cpp', impl='u', flags=['-DM_CALLCC', '-DM_SIG']),
    'mu': dict(src='machine.cpp', impl='u'),
    'muc': dict(src='machine.cpp', impl='u', flags=['-DM_CALLCC']),
    'st': dict(src='stacks.cpp', impl='f', flags=NOBI, link=WRAPS),
    'stm': dict(src='stacks.cpp', impl='f', flags=NOBI + ['-DBOOST_CONTEXT_USE_MAP_STACK'], link=WRAPS),
    **{n: dict(src='fail.cpp', impl=i, flags=NOBI + f, link=FAILW) for n, i, f in (('ff', 'f', []), ('ffc', 'f', ['-DM_CALLCC']), ('fu', 'u', []), ('fuc', 'u', ['-DM_CALLCC']),
                                                                             ('ffm', 'f', ['-DBOOST_CONTEXT_USE_MAP_STACK']), ('fum', 'u', ['-DBOOST_CONTEXT_USE_MAP_STACK']))},
    **{n: dict(src='escape.cpp', impl=i, flags=f, link=[], **k) for n, i, f, k in (
        ('ef', 'f', [], {}), ('efc', 'f', ['-DM_CALLCC'], {}), ('eu', 'u', [], {}), ('euc', 'u', ['-DM_CALLCC'], {}),
        ('efl', 'f', [], dict(cxx='clang++', opt='-O0', std='11')), ('eul', 'u', ['-DM_CALLCC'], dict(cxx='clang++', opt='-O3', std='20')))},
    **{n: dict(src='layout.cpp', impl=i, flags=['-fno-omit-frame-pointer', '-fno-stack-protector'] + f, link=['-Wl,-z,now'], **k) for n, i, f, k in (
        ('lf', 'f', [], {}), ('lfc', 'f', ['-DM_CALLCC'], {}), ('lu', 'u', [], {}), ('luc', 'u', ['-DM_CALLCC'], {}),
        ('lfl', 'f', ['-DFRAMES=3000'], dict(cxx='clang++', opt='-O0', std='11')), ('lul', 'u', ['-DFRAMES=3000'], dict(cxx='clang++', opt='-O1', std='20')))},
    **{n: dict(src='fwd.cpp', impl=i, flags=f, link=['-Wl,-z,now'], **k) for n, i, f, k in (
        ('wf', 'f', [], {}), ('wfc', 'f', ['-DM_CALLCC'], {}), ('wu', 'u', [], {}), ('wuc', 'u', ['-DM_CALLCC'], {}),
        ('wf11', 'f', ['-DM_CALLCC'], dict(cxx='clang++', opt='-O1', std='11')), ('wu11', 'u', [], dict(opt='-O0', std='11')))},
    **{n: dict(src='traits.cpp', impl=i, flags=f, link=['-Wl,--wrap=sysconf,--wrap=getpagesize,--wrap=getauxval', '-Wl,-z,now'], **k) for n, i, f, k in (
        ('tf', 'f', [], {}), ('tuc', 'u', ['-DM_CALLCC'], {}), ('tfl', 'f', ['-DM_CALLCC'], dict(cxx='clang++', opt='-O0', std='11')))},
    **{n: dict(src='par.cpp', impl=i, flags=f, link=['-Wl,-z,now'], **k) for n, i, f, k in (
        ('pf', 'f', [], {}), ('pfc', 'f', ['-DM_CALLCC'], {}), ('pu', 'u', [], {}), ('puc', 'u', ['-DM_CALLCC'], {}), ('pul', 'u', [], dict(cxx='clang++', opt='-O3', std='11')))},
    **{n: dict(commands=wrapped_commands, wrap='wrap_san.sh', src='par.cpp', impl='u', cxx=c, std=d, opt=o, link=[], flags=['-fsanitize=thread', '-DBOOST_USE_TSAN', '-fno-omit-frame-pointer'])
        for n, c, d, o in (('put', 'g++', '17', '-O1'), ('putl', 'clang++', '14', '-O1'))},
    'gh': dict(commands=script_commands, src='genhelpers.py'),
    'gp': dict(commands=script_commands, src='genprog.py'),
    'gi': dict(commands=script_commands, src='genhead.py'),
    'po': dict(commands=script_commands, src='ports.py'),
    'bs': dict(commands=script_commands, src='buildsel.py'),
    **{n: dict(src='machine.cpp', impl=i, cxx=c, std=d, opt=o, flags=(['-DM_CALLCC'] if a else []) + f.split()) for n, c, d, o, i, a, f in (
        ('x1', 'g++', '11', '-O0', 'f', 0, ''), ('x2', 'clang++', '20', '-O3', 'u', 1, '-DNDEBUG'), ('x3', 'clang++', '11', '-O2', 'f', 1, ''), ('x4', 'g++', '20', '-O3', 'u', 0, '-DNDEBUG'),
        ('x5', 'g++', '14', '-Os', 'u', 1, '-D_GLIBCXX_ASSERTIONS'), ('x6', 'clang++', '17', '-O0', 'f', 0, ''), ('x7', 'g++', '20', '-O3', 'f', 1, '-DNDEBUG'), ('x8', 'clang++', '14', '-O1', 'u', 0, ''))},
    # documented sanitizer and valgrind builds
    **{n: dict(commands=wrapped_commands, wrap='wrap_san.sh', src='machine.cpp', impl='u', cxx=c, std=d, opt=o, flags=['-fsanitize=address', '-DBOOST_USE_ASAN', '-fno-omit-frame-pointer'] + f.split()) for n, c, d, o, f in (
        ('mua', 'g++', '17', '-O1', ''), ('muca', 'g++', '14', '-O2', '-DM_CALLCC'), ('mual', 'clang++', '20', '-O1', ''), ('mucal', 'clang++', '11', '-O0', '-DM_CALLCC'))},
    **{n: dict(commands=wrapped_commands, wrap='wrap_san.sh', src='machine.cpp', impl='u', cxx=c, std=d, opt=o, link=[], flags=['-fsanitize=thread', '-DBOOST_USE_TSAN', '-fno-omit-frame-pointer'])
        for n, c, d, o in (('mut', 'g++', '17', '-O1'), ('mutl', 'clang++', '14', '-O1'))},
    **{n: dict(commands=wrapped_commands, wrap='wrap_vg.sh', src='machine.cpp', impl=i, opt='-O1', link=[], flags=['-DBOOST_USE_VALGRIND', '-DM_REALVG', '-g'] + f.split()) for n, i, f in (('vf', 'f', ''), ('vfc', 'f', '-DM_CALLCC'), ('vu', 'u', ''), ('vuc', 'u', '-DM_CALLCC'))},
    **{n: dict(src='machine.cpp', impl=i, flags=['-DBOOST_USE_VALGRIND', '-DM_MOCKVG', '-I@H@/mockvg'] + f.split()) for n, i, f in (('gf', 'f', ''), ('gfm', 'f', '-DM_CALLCC -DBOOST_CONTEXT_USE_MAP_STACK'), ('gu', 'u', ''), ('guc', 'u', '-DM_CALLCC'))},
    # libFuzzer mutates the choice sequences (thorough tier only)
    **{n: dict(src=src, impl=i, cxx='clang++', opt='-O1', flags=FUZZ + f, link=l + FUZZL) for n, src, i, f, l in (
        ('zf', 'machine.cpp', 'f', [], WRAPS), ('zfc', 'machine.cpp', 'f', ['-DM_CALLCC'], WRAPS), ('zu', 'machine.cpp', 'u', [], WRAPS), ('zuc', 'machine.cpp', 'u', ['-DM_CALLCC'], WRAPS),
        ('zst', 'stacks.cpp', 'f', NOBI, WRAPS), ('zff', 'fail.cpp', 'f', NOBI, FAILW), ('zfu', 'fail.cpp', 'u', NOBI + ['-DM_CALLCC'], FAILW), ('zwf', 'fwd.cpp', 'f', [], ['-Wl,-z,now']), ('zwu', 'fwd.cpp', 'u', ['-DM_CALLCC'], ['-Wl,-z,now']))},
    # shadow stacks, emulated by single-stepping (cet.hpp)
    **{n: dict(src='machine.cpp', impl='f', cxx=c, std=d, opt=o, flags=['-DM_CET', '-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1'] + f.split(), link=CETW) for n, c, d, o, f in (
        ('cf', 'g++', '17', '-O2', ''), ('cfc', 'g++', '20', '-O2', '-DM_CALLCC -DNDEBUG'), ('cfl', 'clang++', '11', '-O1', '-DNDEBUG'))},
    # Windows fibers on a model of the Windows API (winmock.hpp)
    **{n: dict(src='machine.cpp', impl='w', cxx=c, std=d, opt=o, flags=f.split()) for n, c, d, o, f in (
        ('nf', 'g++', '17', '-O2', ''), ('nfc', 'g++', '20', '-O2', '-DM_CALLCC'), ('nf11', 'clang++', '11', '-O1', '-DNDEBUG -D_WIN32_WINNT=0x0501'), ('nfc14', 'g++', '14', '-O0', '-DM_CALLCC -D_WIN32_WINNT=0x0600'))},
    **{n: dict(src=src, impl='w', flags=f, link=l, **k) for n, src, f, l, k in (
        ('nw', 'fwd.cpp', [], ['-Wl,-z,now'], {}), ('nwc', 'fwd.cpp', ['-DM_CALLCC'], ['-Wl,-z,now'], dict(cxx='clang++', std='11', opt='-O1')),
        ('ne', 'escape.cpp', [], [], {}), ('nec', 'escape.cpp', ['-DM_CALLCC'], [], dict(cxx='clang++', std='14', opt='-O0')),
        ('np', 'par.cpp', [], ['-Wl,-z,now'], {}), ('npc', 'par.cpp', ['-DM_CALLCC'], ['-Wl,-z,now'], {}),
        ('nff', 'fail.cpp', NOBI, FAILW, {}), ('nffc', 'fail.cpp', NOBI + ['-DM_CALLCC'], FAILW, {}))},
    # the Windows stack allocator and traits on a model of the Windows API (winmem.hpp)
    'yst': dict(src='stacks.cpp', impl='f', flags=NOBI, link=WRAPS, wintraits=1), 'ystl': dict(src='stacks.cpp', impl='f', cxx='clang++', std='14', opt='-O1', flags=NOBI + ['-DNDEBUG'], link=WRAPS, wintraits=1),
    'yff': dict(src='fail.cpp', impl='f', flags=NOBI, link=FAILW, wintraits=1), 'yffn': dict(src='fail.cpp', impl='w', flags=NOBI + ['-DM_CALLCC', '-DNDEBUG'], link=FAILW, wintraits=1),
    'ytf': dict(src='traits.cpp', impl='f', link=['-Wl,--wrap=sysconf,--wrap=getpagesize,--wrap=getauxval', '-Wl,-z,now'], wintraits=1),
    # contexts in static and thread_local objects
    **{n: dict(src='late.cpp', impl=i, flags=f, link=[], **k) for n, i, f, k in (
        ('hf', 'f', [], {}), ('hfc', 'f', ['-DM_CALLCC', '-DLATE_EARLY'], dict(cxx='clang++', std='14', opt='-O1')), ('hu', 'u', [], {}), ('huc', 'u', ['-DM_CALLCC'], {}),
        ('hue', 'u', ['-DLATE_EARLY'], dict(cxx='clang++', std='20', opt='-O3')), ('huce', 'u', ['-DM_CALLCC', '-DLATE_EARLY', '-DNDEBUG'], dict(std='11', opt='-O0')),
        ('hw', 'w', ['-DNDEBUG'], {}), ('hwc', 'w', ['-DM_CALLCC'], dict(cxx='clang++', std='11', opt='-O1')))},
    **{n: dict(commands=wrapped_commands, wrap='wrap_san.sh', src='late.cpp', impl='u', cxx=c, std=d, opt=o, link=[], flags=['-fsanitize=address', '-DBOOST_USE_ASAN', '-fno-omit-frame-pointer'] + f.split()) for n, c, d, o, f in (
        ('hua', 'g++', '17', '-O1', ''), ('hual', 'clang++', '14', '-O1', '-DM_CALLCC -DLATE_EARLY'))},
    'ms': dict(src='machine.cpp', impl='s', flags=['-DSEG_ACCOUNT'], link=SEGW),
    'msc': dict(src='machine.cpp', impl='s', flags=['-DM_CALLCC', '-DSEG_ACCOUNT'], link=SEGW),
    'msn': dict(src='machine.cpp', impl='s', opt='-O0', std='11', flags=['-DSEG_ACCOUNT'], link=SEGW),
}


def M(build, profile, quick, thorough=None, **kw):
    return dict(build=build, args=['--profile', profile], quick=quick, thorough=thorough if thorough is not None else quick * 30, **kw)


def four(profile, quick, thorough=None, **kw):
    return [M(b, profile, quick, thorough, **kw) for b in ('mf', 'mfc', 'mu', 'muc')]


def Z(profile, thorough, builds=('zf', 'zfc', 'zu', 'zuc')):
    """libFuzzer mutates the histories (thorough tier only)"""
    return [dict(build=b, args=['--profile', profile, '--fuzz'], quick=0, thorough=thorough) for b in builds]


def K(build, kind, quick, thorough, **kw):
    return dict(build=build, args=['--kind', kind], quick=quick, thorough=thorough, **kw)


def R(build, exits, quick, thorough):
    return dict(build=build, args=['--exits'] if exits else [], quick=quick, thorough=thorough)


T_R = 'model-based property testing at register level (random make/jump/ontop scripts with random register files vs. a reference model, choice-sequence shrinking)'
MACH = ('Model-based histories: every operation is executed by whichever context runs, the reference model predicts who must get control next and what every handle must report; '
        'the oracle is evaluated at every wake-up. ')
T_M = 'stateful model-based property testing (random operation histories vs. a reference model, choice-sequence shrinking)'


def prop(jobs, rule, level='exploration', technique=T_M, **kw):
    return dict(level=level, technique=technique, jobs=jobs, rule=rule, **kw)


PROPS = {
    'C01': prop(four('switch', 250000, 3000000) + Z('switch', 2000000), MACH + 'Non-trivial: >=6 switches, >=4 contexts alive at once and at least one return to a context other than the resumer.'),
    'C02': prop(four('state', 200000, 3000000) + Z('state', 2000000), MACH + 'Non-trivial: >=6 switches, >=3 contexts alive at once, >=2 nested frames.'),
    'C03': prop(four('fp', 250000, 3000000) + Z('fp', 2000000), MACH + 'Non-trivial: >=2 effective changes of FP control settings and >=4 switches.'),
    'C04': prop(four('handle', 250000, 3000000) + Z('handle', 2000000), MACH + 'Non-trivial: >=5 moves/swaps/self-moves and >=2 switches.'),
    'C05': prop(four('term', 250000, 3000000) + Z('term', 2000000), MACH + 'Non-trivial: >=2 returns, at least one to a context other than the resumer.'),
    'C06': prop(four('unwind', 250000, 3000000) + Z('unwind', 2000000), MACH + 'Non-trivial: >=2 suspended contexts destroyed, >=2 frames unwound.'),
    'C07': prop(four('ontop', 250000, 3000000) + Z('ontop', 2000000), accepts=True, rule=MACH + 'Non-trivial: >=4 resume_with, and a fresh target, a nested use, another returned handle or a stashed resumer.'),
    'C08': prop(four('throw', 250000, 3000000) + Z('throw', 2000000), MACH + 'Non-trivial: >=1 exception thrown by an on-top function, >=4 switches.'),
    'C09': prop([dict(build=b, args=[], quick=100000, thorough=4000000) for b in ('lf', 'lfc', 'lu', 'luc', 'lfl', 'lul')] + four('deep', 15000),
                'layout.cpp: canaries above and below the region handed over, every byte below the frame is filled and verified over switches. ' + MACH),
    'C10': prop([dict(build=b, args=[], quick=500000, thorough=20000000) for b in ('wf', 'wfc', 'wu', 'wuc', 'wf11', 'wu11')] + [dict(build=b, args=['--fuzz'], quick=0, thorough=8000000) for b in ('zwf', 'zwu')],
                'fwd.cpp: every instrumented object registers its address, construction, copy, move and destruction; the registry is compared with what the interface promises after every operation.', accepts=True),
    'C11': prop([K(b, 'pool', 150000, 10000000) for b in ('st', 'stm')] + [dict(build='zst', args=['--kind', 'pool', '--fuzz'], quick=0, thorough=3000000)], 'Histories over fixed-size and pooled allocators against a model of the memory they own, with every heap request observed.'),
    'C12': prop([K(b, k, 15000 if k == 'prot' else 30000, 600000) for b in ('st', 'stm') for k in ('prot', 'over')], 'Histories over protected allocators with /proc/self/maps as oracle; overflowing contexts in forked children.'),
    'C20': prop(four('throw', 40000) + [dict(build=b, args=[], quick=10000, thorough=300000) for b in ('ef', 'efc', 'eu', 'euc', 'efl', 'eul')],
                MACH + 'escape.cpp: forked programs in which an exception leaves a context.'),
    'C21': prop([M(b, p, q, t) for b, q, t in (('mua', 20000, 400000), ('muca', 20000, 400000), ('mual', 20000, 400000), ('mucal', 20000, 400000)) for p in ('mix', 'throw')] + [M('mua', 'deep', 10000, 200000), M('muca', 'unwind', 10000, 200000)] +
                [M(b, p, 15000, 400000) for b in ('mut', 'mutl') for p in ('mix', 'thread')] + [M(b, 'mix', 2000, 60000) for b in ('vf', 'vfc', 'vu', 'vuc')] + [M(b, 'mix', 40000, 1000000) for b in ('gf', 'gfm', 'gu', 'guc')],
                'The same histories as everywhere else, built with the address sanitizer, thread sanitizer and valgrind support: any report, any different behaviour, growing sanitizer state, and stack registrations (recorded by a stand-in for valgrind.h) that do not match the live stacks are violations. ' + MACH, accepts=True),
    'C22': prop([dict(build=b, args=[], quick=150000, thorough=6000000) for b in ('ff', 'ffc', 'fu', 'fuc', 'ffm', 'fum')] + [dict(build=b, args=['--fuzz'], quick=0, thorough=3000000) for b in ('zff', 'zfu')], 'Fault injection: allocation, mapping, protection, getcontext, user allocators and copies of callables fail one at a time inside random histories.',
                technique='property-based fault injection (random histories with generated faults vs. a reference model, choice-sequence shrinking)'),
    'C13': prop([dict(build=b, args=[], quick=60000, thorough=3000000) for b in ('tf', 'tuc', 'tfl')], 'traits.cpp: process images with generated RLIMIT_STACK values and page sizes; every query is compared with the system.'),
    'C14': prop(four('thread', 100000) + [M(b, 'thread', 10000, 300000) for b in ('mut', 'mutl')] + [dict(build=b, args=[], quick=8000, thorough=300000) for b in ('pf', 'pfc', 'pu', 'puc', 'pul')] + [dict(build=b, args=[], quick=3000, thorough=100000) for b in ('put', 'putl')],
                MACH + 'par.cpp: 2..4 threads at the same time, contexts exchanged through a mailbox, also under the thread sanitizer. Non-trivial (machine): >=2 thread hand-overs, >=4 switches.'),
    'C18': prop([M(b, p, q, 1000000) for b, q in (('ms', 40000), ('msc', 40000), ('msn', 20000)) for p in ('seg', 'deep', 'mix')] + [M('ms', p, 10000, 500000) for p in ('ontop', 'unwind', 'throw')],
                MACH + 'Built with split stacks; frames of up to 900 KB on contexts created with 16..64 KB, every byte verified after nested histories; segments mapped by the runtime are accounted for. Non-trivial (seg, deep): >=2 deep frames, >=4 switches.'),
    'C15': prop([dict(build='gp', args=[], quick=1500, thorough=24000), dict(build='gi', args=[], quick=240, thorough=6000)] + [M(b, 'mix', 25000, 1500000) for b in ('x1', 'x2', 'x3', 'x4', 'x5', 'x6', 'x7', 'x8', 'msn')],
                'genprog.py: generated programs against the documented interface whose trace a model predicts while generating, compiled and run in 6 of 24 configurations each (compiler, standard, optimisation, implementation, fiber or continuation, assertions). '
                'genhead.py: programs of 2..3 translation units that include the headers in random selections and orders, exchange contexts, and link the library statically or as a shared library with hidden visibility. ' + MACH,
                technique='property-based differential testing of generated programs over build configurations (vs. a model of the trace), and model-based histories, choice-sequence shrinking', accepts=True),
    'C19': prop(four('mask', 150000, 3000000) + Z('mask', 2000000), MACH + 'Non-trivial: >=2 mask changes, >=4 switches.'),
    'C16': prop([dict(build='gh', args=[], quick=1600, thorough=40000)], 'genhelpers.py: generated programs (random callables, argument categories, tuples) compiled with GCC and Clang under C++11..20; result, type, value category and the trace of copies, moves and calls are '
                'compared with a reference implementation of the standard facilities and, where available, with std:: itself.', technique='property-based differential testing of generated programs (library helper vs. reference vs. std), choice-sequence shrinking'),
    'C17': prop([R(b, e, 4000 if e else 300000, 100000 if e else 20000000) for b in RAW17 for e in (0, 1)], 'Every jump is made through a probe that loads random values into all ABI-preserved registers and junk into all others.', technique=T_R),
    'C23': prop([R(b, e, 1000 if e else 60000, 30000 if e else 5000000) for b in RAW23 for e in (0, 1)],
                'Foreign objects (Mach-O, COFF) are assembled by clang/llvm-ml, their text is relinked as ELF and executed natively; 32-bit code runs in a freestanding 32-bit agent; Microsoft variants get a fake thread block through %gs/%fs.', technique=T_R, parallel=1),
    'C24': prop([dict(build='po', args=[], quick=14400, thorough=1200000)] + [dict(build='po', args=['--port', n], quick=40, thorough=400) for n in ('ppc64-elfv1-modules', 'ppc64le-elfv2-vmx', 'ppc64-macho')],
                'a case is a history of make/jump/ontop/return operations executed by one port in the instruction interpreter; non-trivial with >=5 switches and >=3 resumed suspended calls; distinct by choice sequence',
                technique='model-based property testing of the assembled ports in instruction interpreters (random make/jump/ontop/return histories with random register files against an ABI model, choice-sequence shrinking)',
                note='The ports are assembled (clang), linked (lld), disassembled and executed by small interpreters written for this check; text conversions replace the directives of the Mach-O, XCOFF and PE assemblers. Trusts the assembler, the disassembler and the interpreters; CFI/unwind data of these ports is not examined.'),
    'C25': prop([dict(build=b, args=['--profile', 'cet', '--hang-cpu', '60'], quick=80, thorough=4000) for b in ('cf', 'cfc', 'cfl')] + [R(b, 0, 300, 20000) for b in RAW25] + [R(b, 1, 30, 2000) for b in RAW25],
                'a case is a history as for C01 (or C17), executed instruction by instruction on an emulated shadow stack; non-trivial with >=5 switches and >=3 live contexts (raw: as for C17); distinct by choice sequence',
                technique='stateful model-based property testing under a single-stepping shadow-stack emulator (calls, returns and the shadow-stack instructions are checked against the specification of the processor), choice-sequence shrinking',
                note='Emulates user shadow stacks and map_shadow_stack in the SIGTRAP handler of the process; trusts that emulation (written from the Intel SDM) and the gcc/clang code it steps through. Signals and threads are not used in these histories.', parallel=1, accepts=True),
    'C26': prop([M(b, p, q, q * 40) for b in ('nf', 'nfc', 'nf11', 'nfc14') for p, q in (('mix', 60000), ('switch', 30000), ('ontop', 30000), ('unwind', 30000), ('throw', 30000), ('thread', 20000), ('term', 20000), ('handle', 20000), ('deep', 15000), ('state', 15000))] +
                [dict(build=b, args=[], quick=q, thorough=q * 40) for b, q in (('nw', 60000), ('nwc', 60000), ('ne', 4000), ('nec', 4000), ('np', 1500), ('npc', 1500), ('nff', 60000), ('nffc', 60000))] +
                [dict(build='gp', args=['--win'], quick=220, thorough=6000), dict(build='gi', args=['--win'], quick=56, thorough=2000)],
                MACH + 'Built with BOOST_USE_WINFIB against a model of the Windows fiber API that treats misuse as a failure; the other harnesses (callables and allocators, escaping exceptions, threads, injected failures, generated programs) run in the same way. Non-trivial: as for the profile or harness.',
                technique='stateful model-based property testing (random operation histories vs. a reference model, on a model of the Windows fiber API), choice-sequence shrinking', accepts=True,
                note='The Windows API is a model (winmock.hpp) written from its documentation; Windows itself, its compilers and structured exception handling are not exercised.'),
    'C27': prop([K(b, k, q, q * 40) for b in ('yst', 'ystl') for k, q in (('prot', 30000), ('over', 30000), ('pool', 30000))] + [dict(build=b, args=[], quick=q, thorough=q * 40) for b, q in (('yff', 60000), ('yffn', 60000), ('ytf', 40000))],
                'Histories over the Windows protected allocator (and the others with the Windows stack traits) on a model of VirtualAlloc/VirtualProtect/VirtualFree/GetSystemInfo backed by real mappings, with /proc/self/maps as oracle; overflowing contexts in forked children; injected failures of each call.',
                note='The Windows API is a model (winmem.hpp) written from its documentation on top of mmap; a guard page is a page without access.', accepts=True),
    'C28': prop([dict(build=b, args=[], quick=25000, thorough=1500000) for b in ('hf', 'hfc', 'hu', 'huc', 'hue', 'huce', 'hw', 'hwc')] + [dict(build=b, args=[], quick=6000, thorough=200000) for b in ('hua', 'hual')],
                'late.cpp: a case is a program in a forked child; threads and main fill function-local statics, thread_local objects, pthread keys and atexit handlers with contexts that are used and destroyed while the thread or the process exits; exit() also inside contexts and on other threads. '
                'The trace is compared with a model that simulates contexts as state machines. Non-trivial: >=2 holders and at least one context alive or created while its holder is destroyed.',
                technique='model-based property testing of generated program life cycles (forked programs vs. a reference model of the trace), choice-sequence shrinking', accepts=True,
                note='glibc order of destruction (thread_local objects, then pthread keys; at exit thread_local objects of the calling thread, then statics and atexit handlers) is part of the model; quick_exit and dlclose are not used.'),
    'C29': prop([M(b, p, 120, 20000) for b in ('gmf', 'gmfc', 'gmu', 'gmuc') for p in ('mix', 'switch', 'ontop', 'unwind', 'throw', 'term', 'fp', 'thread')] +
                [R(b, 0, 120, 20000) for b in RAW29] + [R(b, 1, 30, 3000) for b in RAW29] + [dict(build='po', args=['--signals'], quick=3600, thorough=300000)],
                'A case is a history as for C01 (machine), C17/C23 (raw) or C24 (ports), in which bursts of signals arrive, one after every instruction; every handler overwrites the memory below the red zone of the interrupted stack. '
                'Non-trivial: as for the profile or harness.',
                technique='stateful model-based property testing with a signal delivered after every instruction of generated stretches (random operation histories vs. a reference model), choice-sequence shrinking', parallel=1,
                note='Handlers are ordinary ones: they return, do not switch contexts and do not throw. 32-bit and foreign x86 code runs as for C23, other ports in the interpreters of C24.'),
    'C30': prop([dict(build='bs', args=[], quick=16000, thorough=160000)] + [dict(build='bs', args=['--only', n], quick=40, thorough=200) for n in ('m32-x86_64', 'm32-aarch64', 'm32-mips64', 'sunos', 'sparc', 'ppc64', 'ppc32', 'ppc64-bsd', 'ppc32-bsd', 'tail', 'b2-armclang', 'b2-loongarch', 'b2-ppc-universal')],
                'buildsel.py: a case is a platform (system, processor, word size, compiler) with options, or a set of b2 properties. CMake really configures the library with a stub compiler that claims to be the platform\'s, and reports through its file API what '
                'would be compiled how; b2 loads build/Jamfile.v2 and resolves its alternatives. Non-trivial: a platform that has a port.',
                technique='property-based testing of the build descriptions over generated platforms and options (what CMake and b2 select vs. a model of the ports), choice-sequence shrinking',
                note='The platform is a toolchain file with a stub compiler: what CMake itself finds out about a real compiler is not exercised, nor is b2 deduction of the platform from the compiler.'),
}

NOT_APPLICABLE = {}
