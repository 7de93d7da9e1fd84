#!/usr/bin/env python3
"""C15, second half: the public headers as a user includes them. A case draws a build configuration (compiler, standard,
implementation, feature macros, how the library is linked) and two or three translation units, each of which includes a
random selection of the headers in a random order and uses what it included; contexts are created, resumed and destroyed in
different translation units. Everything must compile, link together and behave."""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, random, re, subprocess, sys, time
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.environ.get('VERIF_HERE', os.path.dirname(os.path.abspath(__file__)))
while not os.path.exists(os.path.join(ROOT, 'jobs.py')) and ROOT != '/': ROOT = os.path.dirname(ROOT)
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, os.path.join(ROOT, 'h')]
import jobs
from genprog import Src, run, HDIR

IMPL = [('f', ''), ('u', ''), ('f', '-DBOOST_CONTEXT_USE_MAP_STACK'), ('u', '-DNDEBUG'), ('f', '-DNDEBUG'), ('u', '-fsanitize=address -DBOOST_USE_ASAN'), ('f', '-DBOOST_USE_VALGRIND'), ('u', '-DBOOST_USE_VALGRIND'),
        ('s', ''), ('u', '-fsanitize=thread -DBOOST_USE_TSAN'), ('u', '-DBOOST_CONTEXT_USE_MAP_STACK')]
WINIMPL = [('w', ''), ('w', '-DNDEBUG'), ('w', '-D_WIN32_WINNT=0x0501'), ('w', '-D_WIN32_WINNT=0x0600 -DBOOST_CONTEXT_USE_MAP_STACK')]
CXX = [('g++', '17', '-O1'), ('g++', '11', '-O0'), ('clang++', '11', '-O1'), ('g++', '20', '-O2'), ('clang++', '20', '-O0'), ('clang++', '14', '-O2'), ('g++', '14', '-O0'), ('clang++', '17', '-O0')]
LINK = ['static', 'shared', 'plugin']
HDR = {
 'fiber': 'fiber.hpp', 'cont': 'continuation.hpp', 'fixed': 'fixedsize_stack.hpp', 'pool': 'pooled_fixedsize_stack.hpp', 'prot': 'protected_fixedsize_stack.hpp', 'seg': 'segmented_stack.hpp', 'pre': 'preallocated.hpp',
 'sctx': 'stack_context.hpp', 'traits': 'stack_traits.hpp', 'flags': 'flags.hpp', 'fctx': 'detail/fcontext.hpp', 'apply': 'detail/apply.hpp', 'invoke': 'detail/invoke.hpp', 'index': 'detail/index_sequence.hpp',
 'tuple': 'detail/tuple.hpp', 'exchange': 'detail/exchange.hpp', 'disable': 'detail/disable_overload.hpp', 'exc': 'detail/exception.hpp', 'config': 'detail/config.hpp', 'prefetch': 'detail/prefetch.hpp', 'externc': 'detail/externc.hpp'}
NAMES = ['fiber', 'cont', 'fiber', 'cont', 'pre', 'fixed', 'pool', 'prot', 'traits', 'sctx'] + [x for x in HDR if x not in ('fiber', 'cont', 'pre', 'fixed', 'pool', 'prot', 'traits', 'sctx')]
B = '::boost::context::'
USE = {
 'traits': ['  if (%sstack_traits::default_size() < %sstack_traits::minimum_size()) return 11; if (!%sstack_traits::is_unbounded() && %sstack_traits::maximum_size() < %sstack_traits::minimum_size()) return 12;' % ((B,) * 5),
            '  ::std::size_t p = %sstack_traits::page_size(); if (p == 0 || (p & (p - 1))) return 13;' % B],
 'sctx': ['  %sstack_context s; if (s.sp || s.size) return 21; s.size = 4; %sstack_context t(s); if (t.size != 4) return 22; s = t;' % (B, B)],
 'pre': ['  char b[64]; {0}stack_context s; s.sp = b + 64; s.size = 64; {0}preallocated p(s.sp, s.size, s); if (p.sp != b + 64 || p.size != 64 || p.sctx.sp != b + 64) return 31;'.format(B)],
 'flags': ['  %sexec_ontop_arg_t const & x = %sexec_ontop_arg; (void)x;' % (B, B)],
 'invoke': ['  struct F { int operator()(int a) const { return a + 1; } }; F f; if (%sdetail::invoke(f, 4) != 5) return 41;' % B],
 'exchange': ['  int a = 3; if (%sdetail::exchange(a, 9) != 3 || a != 9) return 51;' % B],
 'apply': ['  struct F { int operator()(int a, int b) const { return a * 10 + b; } }; F f; if (%sdetail::apply(f, ::std::make_tuple(3, 4)) != 34) return 71;' % B],
 'exc': ['  int q = 0; try { ++q; } catch (%sdetail::forced_unwind const &) { return 81; }' % B],
}
for k, t in (('fixed', 'fixedsize_stack'), ('pool', 'pooled_fixedsize_stack'), ('prot', 'protected_fixedsize_stack'), ('seg', 'segmented_stack')):
    USE[k] = ['  {0}{1} a(65536); {0}stack_context s(a.allocate()); if (!s.sp || s.size < 65536) return 91; static_cast<char *>(s.sp)[-1] = 1; static_cast<char *>(s.sp)[-65000] = 1; a.deallocate(s);'.format(B, t),
              '  {0}{1} a; {0}stack_context s(a.allocate()), r(a.allocate()); a.deallocate(s); a.deallocate(r);'.format(B, t)]
USE['fixed'].append('  {0}default_stack a; {0}stack_context s(a.allocate()); if (!s.sp) return 92; a.deallocate(s);'.format(B))
def start(api, al, pre):
    a = ''
    if al and pre: return '  %s%s al(131072); %sstack_context sc(al.allocate()); %spreallocated pa(sc.sp, sc.size, sc);' % (B, al, B, B), '::std::allocator_arg, pa, al, '
    if al: a = '::std::allocator_arg, %s%s(131072), ' % (B, al)
    return '', a
def control(api, d, incl, impl):
    """a use of a handle type that only needs its header (and possibly others of this translation unit)"""
    al = [n for k, n in (('fixed', 'fixedsize_stack'), ('pool', 'pooled_fixedsize_stack'), ('prot', 'protected_fixedsize_stack')) if k in incl]
    if impl == 's': al = ['segmented_stack'] if 'seg' in incl else []
    al = al[d(len(al) + 1) - 1] if al and d(3) else ''
    pre, arg = start(api, al, 'pre' in incl and d(2))
    H = B + ('fiber' if api == 'fiber' else 'continuation')
    mk = (H + '(%s' % arg if api == 'fiber' else B + 'callcc(' + arg)
    go = ').resume()' if api == 'fiber' else ')'
    k = d(7 if 'fiber' in incl and 'cont' in incl else 6)
    if k == 6:  # a continuation inside a fiber or the other way round
        F, C = B + 'fiber', B + 'continuation'
        inner = C + ' q = ' + B + 'callcc(' if api == 'fiber' else F + ' q = ' + F + '('; ig = ')' if api == 'fiber' else ').resume()'; I = C if api == 'fiber' else F
        end = ['f = ::std::move(f).resume(); if (v != 2 || w != 2 || f) return 10;', '{ %s z = ::std::move(f); } if (v != 2 || w != 2) return 15;' % H][d(2)]
        return pre + '\n  int v = 0, w = 0; {H} f = {mk}[&]({H} && m) {{ {inner}[&]({I} && n) {{ G g(w); n = ::std::move(n).resume(); return ::std::move(n); }}{ig}; G g(v); m = ::std::move(m).resume(); q = ::std::move(q).resume(); return ::std::move(m); }}{go}; if (v != 1 || w != 1) return 14; {end}'.format(H=H, mk=mk, go=go, inner=inner, ig=ig, I=I, end=end)
    if k == 0: return pre + '\n  int v = 0; {H} f = {mk}[&v]({H} && m) {{ v = 1; m = ::std::move(m).resume(); v = 2; return ::std::move(m); }}{go}; if (v != 1 || !f) return 1; f = ::std::move(f).resume(); if (v != 2 || f) return 2;'.format(H=H, mk=mk, go=go)
    if k == 1: return pre + '\n  int v = 0; {{ {H} f = {mk}[&v]({H} && m) {{ G g(v); m = ::std::move(m).resume(); v = 7; return ::std::move(m); }}{go}; if (v != 1) return 3; }} if (v != 2) return 4;'.format(H=H, mk=mk, go=go)
    if k == 2: return pre + '\n  int v = 0; {H} f = {mk}[&v]({H} && m) {{ m = ::std::move(m).resume(); ++v; return ::std::move(m); }}{go}; f = ::std::move(f).resume_with([&v]({H} && m) {{ v = 10; return ::std::move(m); }}); if (v != 11) return 5;'.format(H=H, mk=mk, go=go)
    if k == 3: return pre + '\n  int v = 0; {H} f = {mk}[&v]({H} && m) {{ try {{ m = ::std::move(m).resume(); }} catch (X const & e) {{ v = e.v; return ::std::move(const_cast<X &>(e).h); }} return ::std::move(m); }}{go}; f = ::std::move(f).resume_with([&v]({H} && m) -> {H} {{ throw X(::std::move(m), 6); }}); if (v != 6) return 6;'.format(H=H, mk=mk, go=go).replace('X', 'X' + api)
    if k == 4: return '  {H} a, b; if (a || b || a < b) return 7; a.swap(b); swap_(a, b); ::std::ostringstream o; o << a; if (o.str().empty()) return 8; a = ::std::move(b);'.format(H=H).replace('swap_(a, b)', 'swap(a, b)')
    return pre + '\n  int v = 0, w = 0; {{ {H} f = {mk}[&]({H} && m) {{ {H} q = {mk2}[&]({H} && n) {{ G g(w); n = ::std::move(n).resume(); return ::std::move(n); }}{go}; G g(v); m = ::std::move(m).resume(); return ::std::move(m); }}{go}; }} if (v != 2 || w != 2) return 9;'.format(H=H, mk=mk, mk2=H + '(' if api == 'fiber' else B + 'callcc(', go=go)

class Case:
    def __init__(s, ch, rng):
        s.src = Src(ch, rng); d = s.src.d
        s.impl, s.flags = IMPL[d(len(IMPL))]; s.cxx = CXX[d(len(CXX))]; s.link = LINK[d(3)]
        if s.impl == 's': s.cxx = ('g++',) + s.cxx[1:]; s.link = 'static'
        if 'sanitize' in s.flags and s.link != 'static': s.link = 'static'
        s.n = 2 + d(2); s.tus = []; s.apis = []
        for t in range(s.n):
            k = 1 + d(5); inc = []
            for _ in range(k):
                h = NAMES[d(len(NAMES))]
                if h not in inc: inc.append(h)
            s.tus.append(inc)
        for api, h in (('fiber', 'fiber'), ('cont', 'cont')):
            if all(h in x for x in s.tus): s.apis.append(api)
        s.text = [s.tu(t, d) for t in range(s.n)]
        s.text[0] += s.main(d)
    def key(s): return (s.impl, s.flags, s.cxx, s.link)
    def tu(s, t, d):
        inc = s.tus[t]; o = []; after = d(2)
        std = '#include <sstream>\n#include <tuple>\n#include <utility>\n#include <cstdio>\n#include <cstdlib>\n'
        incs = ''.join('#include <boost/context/%s>\n' % HDR[h] for h in inc)
        o.append(incs + std if after else std + incs)
        o.append('struct TRACKER_ { };'.replace('TRACKER_', 'T%d' % t))
        o.append('namespace { struct G { int & v; explicit G(int & v_) : v(v_) { v = 1; } ~G() { v = 2; } };')
        for h, c in (('fiber', 'fiber'), ('cont', 'continuation')):
            if h in inc: o.append('struct X%s { mutable %s%s h; int v; X%s(%s%s && h_, int v_) : h(::std::move(h_)), v(v_) {} X%s(X%s const & o) : h(::std::move(o.h)), v(o.v) {} };' % (h, B, c, h, B, c, h, h))
        o.append('}')
        calls = []
        for i, h in enumerate(inc):
            if h in ('fiber', 'cont'): body = control(h, d, inc, s.impl)
            elif h == 'fctx':
                if s.impl != 'f': continue
                body = '  char * m = static_cast<char *>(::std::malloc(65536)); struct S {{ static void f({0}detail::transfer_t t) {{ ++*static_cast<int *>(t.data); {0}detail::jump_fcontext(t.fctx, t.data); }} }}; int v = 1; {0}detail::fcontext_t c = {0}detail::make_fcontext(m + 65536, 65536, &S::f); {0}detail::transfer_t t = {0}detail::jump_fcontext(c, &v); if (v != 2 || t.data != &v || !t.fctx) return 95; ::std::free(m);'.format(B)
            elif h == 'seg' and s.impl != 's': continue
            elif h == 'fixed' and s.impl == 's': body = USE[h][d(2)]
            elif h in USE: body = USE[h][d(len(USE[h]))]
            else: continue
            n = 'use_%d_%d' % (t, i); o.append('static int %s() {\n%s\n  return 0; }' % (n, body)); calls.append(n)
        exp = '__attribute__((visibility("default"))) '
        o.append(exp + 'int tu%d() { int r = 0; %s return r; }' % (t, ' '.join('if (!r) { r = %s(); if (r) ::std::printf("%s: check %%d failed\\n", r); }' % (c, c) for c in calls)))
        for api in s.apis:
            H = B + ('fiber' if api == 'fiber' else 'continuation')
            o.append(exp + 'void * make_%s%d(int & v) { return new %s; }' % (api, t, (H + '([&v](%s && m) { G g(v); for (;;) { m = ::std::move(m).resume(); v += 10; } return ::std::move(m); })' % H) if api == 'fiber' else
                     H + '(%scallcc([&v](%s && m) { G g(v); for (;;) { m = ::std::move(m).resume(); v += 10; } return ::std::move(m); }))' % (B, H)))
            o.append(exp + 'void run_%s%d(void * p) { %s * h = static_cast<%s *>(p); *h = ::std::move(*h).resume(); }' % (api, t, H, H))
            o.append(exp + 'void with_%s%d(void * p, int & v) { %s * h = static_cast<%s *>(p); *h = ::std::move(*h).resume_with([&v](%s && m) { v += 100; return ::std::move(m); }); }' % (api, t, H, H, H))
            o.append(exp + 'void drop_%s%d(void * p) { delete static_cast<%s *>(p); }' % (api, t, H))
        return '\n'.join(o) + '\n'
    def main(s, d):
        o = []
        for t in range(s.n):
            o.append('int tu%d();' % t)
            for a in s.apis: o.append('void * make_%s%d(int &); void run_%s%d(void *); void with_%s%d(void *, int &); void drop_%s%d(void *);' % ((a, t) * 4))
        o.append('int main() {')
        order = list(range(s.n))
        if d(2): order.reverse()
        for t in order: o.append('  if (int r = tu%d()) return r;' % t)
        for a in s.apis:
            o.append('  {'); n = 1 + d(3); live = []; want = {}
            for i in range(n):
                o.append('  int v%d = 0; void * p%d = make_%s%d(v%d);' % (i, i, a, d(s.n), i)); live.append(i); want[i] = None if a == 'fiber' else 1
            for _ in range(2 + d(6)):
                i = live[d(len(live))]; t = d(s.n)
                if want[i] is None: o.append('  run_%s%d(p%d);' % (a, t, i)); want[i] = 1
                elif d(3): o.append('  run_%s%d(p%d);' % (a, t, i)); want[i] += 10
                else: o.append('  with_%s%d(p%d, v%d);' % (a, t, i, i)); want[i] += 110
                o.append('  if (v%d != %d) { ::std::printf("a context shared between translation units: expected %d, got %%d\\n", v%d); return 99; }' % (i, want[i], want[i], i))
            for i in live: o.append('  drop_%s%d(p%d); if (v%d != %d) { ::std::printf("destroying a context in another translation unit: expected %d, got %%d\\n", v%d); return 98; }' % (a, d(s.n), i, i, *((0, 0) if want[i] is None else (2, 2)), i))
            o.append('  }')
        o.append('  ::std::printf("DONE\\n"); return 0; }')
        return '\n'.join(o)
def flags(key, lib):
    impl, fl, (cxx, std, opt), link = key
    f = [cxx, '-std=c++' + std, opt, '-w', '-pthread', '-DBOOST_ALL_NO_LIB=', '-I' + REPO + '/include'] + fl.split()
    if link == 'static': f += ['-DBOOST_CONTEXT_STATIC_LINK=', '-DBOOST_CONTEXT_EXPORT=']
    else: f += ['-DBOOST_CONTEXT_DYN_LINK=', '-DBOOST_CONTEXT_EXPORT=EXPORT', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden']
    if lib: f += ['-DBOOST_CONTEXT_SOURCE=']
    if impl in 'us': f.append('-DBOOST_USE_UCONTEXT=')
    if impl == 'w': f += ['-DBOOST_USE_WINFIB=', '-I' + os.path.join(HDIR, 'win')]
    if impl == 's': f += ['-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack', '-fcf-protection=none']
    return f
LIBS = {}
LOCKS = collections.defaultdict(__import__('threading').Lock)
def lib(key, d):
    with LOCKS[key]:
        if key not in LIBS:
            od = os.path.join(d, 'lib%d' % len(LIBS)); LIBS[key] = None; os.makedirs(od); r = ([], '')
            for x in jobs.lib_sources(REPO, key[0]):
                o = os.path.join(od, os.path.basename(x) + '.o'); rc, out = run(flags(key, True) + ['-c', x, '-o', o])
                if rc: r = (None, 'building the library: ' + out); break
                r[0].append(o)
            if r[0] is not None and key[0] == 'w':
                o = os.path.join(od, 'winmock.o'); run(['g++', '-O1', '-w', '-fPIC', '-I' + os.path.join(HDIR, 'win'), '-c', os.path.join(HDIR, 'winmock.cpp'), '-o', o]); r[0].append(o)
            if r[0] is not None and key[3] != 'static':
                so = os.path.join(od, 'libboost_context.so'); rc, out = run(flags(key, True) + ['-shared'] + r[0] + ['-o', so])
                r = ([so], '') if not rc else (None, 'linking the shared library: ' + out)
            LIBS[key] = r
        return LIBS[key]
def judge(ch, d, tag, rng=None, case=None):
    """None or a message"""
    c = case or Case(ch, rng); key = c.key()
    objs, out = lib(key, d)
    short = lambda o: re.sub(r'\s+', ' ', '\n'.join(x for x in o.splitlines() if 'error' in x or 'undefined' in x or 'multiple def' in x)[:600] or o[-400:])
    if objs is None: return 'the library does not build: ' + short(out), c
    wd = os.path.join(d, tag); os.makedirs(wd); tu = []
    try:
        for t in range(c.n):
            s = os.path.join(wd, 'tu%d.cpp' % t); open(s, 'w').write(c.text[t])
            rc, out = run(flags(key, False) + ['-c', s, '-o', s[:-3] + 'o'])
            if rc: return 'a translation unit including <%s> does not compile: %s' % ('>, <'.join(HDR[h] for h in c.tus[t]), short(out)), c
            tu.append(s[:-3] + 'o')
        rp = ['-Wl,-rpath,' + os.path.dirname(objs[0])] if c.link != 'static' else []
        if c.link == 'plugin':
            so = os.path.join(wd, 'libplugin.so'); rc, out = run(flags(key, False) + ['-shared'] + tu[1:] + objs + rp + ['-o', so])
            if rc: return 'a shared object using the library does not link: ' + short(out), c
            tu = [tu[0], so]; rp += ['-Wl,-rpath,' + wd]
        exe = os.path.join(wd, 'p')
        rc, out = run(flags(key, False) + tu + objs + ['-o', exe] + rp + (['-static', '-fuse-ld=gold'] if c.impl == 's' else []))
        if rc: return 'the translation units do not link together: ' + short(out), c
        rc, out = run((['setarch', '-R'] if 'sanitize' in c.flags else []) + [exe], 60)
        if rc == 0 and 'DONE' in out: return None, c
        return 'a program using several translation units fails (status %d): %s' % (rc, re.sub(r'\s+', ' ', out[-600:])), c
    finally: __import__('shutil').rmtree(wd, ignore_errors=True)
def show(c): return '%s\n%s' % (c.key(), '\n'.join('// ---- translation unit %d\n%s' % x for x in enumerate(c.text)))
def main():
    ap = argparse.ArgumentParser()
    for a, t, dflt in (('--cases', int, 200), ('--seed', int, 1), ('--workers', int, 8), ('--max-wall', float, 240), ('--out', str, ''), ('--fail-out', str, ''), ('--tmp', str, '.'), ('--replay', str, ''), ('--show', int, -1)):
        ap.add_argument(a, type=t, default=dflt)
    ap.add_argument('--win', action='store_true')
    o = ap.parse_args()
    if o.win: IMPL[:] = WINIMPL
    if o.show >= 0: print(show(Case(None, random.Random('%d/%d' % (o.seed, o.show))))); return 0
    d = os.path.abspath(os.path.join(o.tmp, 'gi%d' % os.getpid())); os.makedirs(d)
    try: return go(o, d)
    finally: __import__('shutil').rmtree(d, ignore_errors=True)
def go(o, d):
    t0 = time.time()
    if o.replay:
        ch = [int(x) for x in re.search(r'^choices:(.*)$', open(o.replay, errors='replace').read(), re.M).group(1).split()]
        res, c = judge(ch, d, 'rp'); print(show(c)); print('RESULT ' + ('pass' if res is None else 'FAIL ' + res)); return 0 if res is None else 1
    st = dict(n=0, nt=0, viol=None, cut=0, unrep=0, msg=''); distinct = set(); lab = collections.Counter(); samples = []
    def one(u):
        if st['viol']: return
        if time.time() - t0 > o.max_wall: st['cut'] = 1; return
        c = Case(None, random.Random('%d/%d' % (o.seed, u)))
        res, _ = judge(None, d, 'c%d' % u, case=c); st['n'] += 1
        nt = sum(len(x) for x in c.tus) >= 5 and bool(c.apis or len({h for x in c.tus for h in x}) >= 5)
        if nt: st['nt'] += 1; distinct.add(hashlib.sha1(show(c).encode()).digest())
        lab['link ' + c.link] += 1; lab['impl %s %s' % (c.impl, c.flags)] += 1; lab['%s c++%s' % c.cxx[:2]] += 1
        for x in c.tus:
            for h in x: lab['header ' + HDR[h]] += 1
            lab['first header ' + HDR[x[0]]] += 1
        if c.apis: lab['contexts shared between translation units'] += 1
        if nt and len(samples) < 2: samples.append(show(c)[:3000])
        if res and not st['viol']:
            again, _ = judge(c.src.rec, d, 'r%d' % u)
            if again: st['viol'] = (again, list(c.src.rec))
            else: st['unrep'] += 1; st['msg'] = res
    with cf.ThreadPoolExecutor(o.workers) as ex: list(ex.map(one, range(o.cases)))
    ev = 0; res = ''
    if st['viol']:
        res, ch = st['viol']; t1 = time.time(); more = True; kind = lambda m: m[:24]
        with cf.ThreadPoolExecutor(o.workers) as ex:
            while more and time.time() - t1 < 80:
                more = False; alts = []; n = max(1, len(ch) // 2)
                while n >= 1:
                    alts += [ch[:i] + ch[i + n:] for i in range(0, len(ch), n)]; n //= 2
                alts += [ch[:i] + [0] + ch[i + 1:] for i in range(len(ch)) if ch[i]]
                seen = set(); al2 = []
                for a in alts:
                    a = list(Case(a, None).src.rec)
                    while a and a[-1] == 0: a.pop()
                    if tuple(a) not in seen and (len(a), sum(a)) < (len(ch), sum(ch)): seen.add(tuple(a)); al2.append(a)
                for k in range(0, len(al2), o.workers):
                    if time.time() - t1 > 80: break
                    rs = list(ex.map(lambda z: judge(z[1], d, 's%d_%d' % (k, z[0])), enumerate(al2[k:k + o.workers]))); ev += len(rs)
                    hit = [(a, r[0]) for a, r in zip(al2[k:], rs) if r[0] and kind(r[0]) == kind(res)]
                    if hit: ch, res = min(hit, key=lambda a: (len(a[0]), sum(a[0]))); more = True; break
        c = Case(ch, None); res += ' [%s -std=c++%s %s, implementation %s, %s, library linked as %s]' % (*c.cxx, c.impl, c.flags or 'no further flags', c.link)
        if o.fail_out: open(o.fail_out, 'w').write('harness: genhead\nargs:%s\nmessage: %s\nchoices: %s\nprogram:\n%s\n' % (' --win' if o.win else '', res, ' '.join(map(str, ch)), show(c)))
    out = dict(harness='genhead', cases=st['n'], nontrivial=st['nt'], distinct_nontrivial=len(distinct), steps=st['n'], wall=round(time.time() - t0, 2), cut=st['cut'], harness_errors=st['unrep'] if st['unrep'] > 3 else 0, harness_error_msg=st['msg'] if st['unrep'] > 3 else '',
               unreproduced=st['unrep'], unreproduced_msg=st['msg'], failed=1 if st['viol'] else 0, message=res, first_message='', shrink_evals=ev, rule='a case is one program of 2..3 translation units; non-trivial with >=5 inclusions and a context shared between the translation units or >=5 different headers; distinct by text', labels=dict(lab), samples=samples)
    s = json.dumps(out); print(s)
    if o.out: open(o.out, 'w').write(s)
    return 1 if st['viol'] else 2 if out['harness_errors'] else 0
if __name__ == '__main__': sys.exit(main())
