#!/usr/bin/env python3
"""C16: generates C++ programs that use boost::context::detail::{invoke,apply,exchange,head,tail} with random
callables, argument categories and types, and compares value, type, value category and the trace of copies, moves and calls
with a reference implementation of [func.require] (itself checked against std:: where the library has it).

A case is a choice sequence, like in pbt.hpp: the generator draws from it, shrinking edits it."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, subprocess, sys, time, collections
REPO = os.environ.get('VERIF_REPO', '/repo')

PRELUDE = r'''
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <array>
#include <utility>
#include <type_traits>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <boost/context/detail/invoke.hpp>
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/tuple.hpp>
static std::string lg;
static void say(char const * s, long v) { char b[100]; snprintf(b, sizeof b, "%s%ld;", s, v); lg += b; }
template<int K> struct T { int v; explicit T(int x = 0) : v(x) {} T(T const & o) : v(o.v) { say("cc", v); } T(T && o) : v(o.v) { say("mc", v); o.v = -o.v; }
  T & operator=(T const & o) { say("ca", o.v); v = o.v; return *this; } T & operator=(T && o) { say("ma", o.v); v = o.v; if (&o != this) o.v = -o.v; return *this; } bool operator==(T const & o) const { return v == o.v; } };
struct MO { int v; explicit MO(int x = 0) : v(x) {} MO(MO && o) : v(o.v) { say("mmc", v); o.v = -1; } MO & operator=(MO && o) { say("mma", o.v); v = o.v; o.v = -1; return *this; } };
struct NC { int v; explicit NC(int x = 0) : v(x) {} NC(NC const &) = delete; NC & operator=(NC const &) = delete; };
struct B0 { int d0 = 70; T<5> t0{71}; virtual ~B0() {} virtual int vf(int x) { say("B0vf", x); return x + 1; } int bf(int x) const { say("bf", x); return x; } };
struct D0 : B0 { int d1 = 80; int vf(int x) override { say("D0vf", x); return x + 2; } };
struct Conv { int v; operator int() const { say("conv", v); return v; } };
template<class X> struct SP { X * p; X & operator*() const { say("deref", 0); return *p; } };
// identity of results
static long id(int x) { return x; } static long id(long x) { return x; } static long id(bool x) { return x; } static long id(std::string const & s) { long h = 0; for (char c : s) h = h * 31 + c; return h; }
template<int K> long id(T<K> const & t) { return t.v; } static long id(MO const & t) { return t.v; } static long id(NC const & t) { return t.v; }
template<class X> long id(std::unique_ptr<X> const & p) { return p ? *p : -7; } template<class X> long id(X * p) { return p ? 1 : 0; } template<class X> long id(std::vector<X> const & v) { return long(v.size()); }
static long id(B0 const & b) { return b.d0; } static long id(double d) { return long(d * 8); }
template<class A, class B> long id(std::pair<A, B> const & p) { return id(p.first) * 7 + id(p.second); }
template<class...A> long id(std::tuple<A...> const &) { return 3; } template<class A, size_t N> long id(std::array<A, N> const &) { return 4; }
template<class X> struct Cat { static char const * n() { return std::is_lvalue_reference<X>::value ? "lv" : std::is_rvalue_reference<X>::value ? "xv" : "pv"; } };
template<class X> struct Off { static long of(X &, void const *, size_t) { return -2; } };
template<class X> struct Off<X &> { static long of(X & r, void const * lo, size_t n) { char const * a = reinterpret_cast<char const *>(std::addressof(r)), * b = static_cast<char const *>(lo); return n && a >= b && a < b + n ? a - b : -1; } };
template<class X> struct Off<X &&> : Off<X &> {};
template<class R> struct Run { template<class F> static void go(F f, void const * lo, size_t n) { R r = f(); say("res", id(r)); say("at", Off<R>::of(r, lo, n)); } };
template<> struct Run<void> { template<class F> static void go(F f, void const *, size_t) { f(); say("void", 0); } };
namespace ref {
template<class X> struct isrw : std::false_type {}; template<class X> struct isrw<std::reference_wrapper<X>> : std::true_type {};
template<class C> struct inv { template<class F, class...A> static auto call(F && f, A &&... a) -> decltype(std::forward<F>(f)(std::forward<A>(a)...)) { return std::forward<F>(f)(std::forward<A>(a)...); } };
template<class B, class M> struct inv<M B::*> {
  template<class X, class D = typename std::decay<X>::type, class = typename std::enable_if<std::is_base_of<B, D>::value>::type> static auto get(X && x) -> X && { return std::forward<X>(x); }
  template<class X, class D = typename std::decay<X>::type, class = typename std::enable_if<isrw<D>::value>::type> static auto get(X && x) -> decltype(x.get()) { return x.get(); }
  template<class X, class D = typename std::decay<X>::type, class = typename std::enable_if<!std::is_base_of<B, D>::value && !isrw<D>::value>::type> static auto get(X && x) -> decltype(*std::forward<X>(x)) { return *std::forward<X>(x); }
  template<class X, class...A, class M1, class = typename std::enable_if<std::is_function<M1>::value>::type> static auto call(M1 B::* f, X && x, A &&... a) -> decltype((inv::get(std::forward<X>(x)).*f)(std::forward<A>(a)...)) { return (inv::get(std::forward<X>(x)).*f)(std::forward<A>(a)...); }
  template<class X, class M1, class = typename std::enable_if<!std::is_function<M1>::value>::type> static auto call(M1 B::* f, X && x) -> decltype(inv::get(std::forward<X>(x)).*f) { return inv::get(std::forward<X>(x)).*f; }
};
template<class F, class...A> auto invoke(F && f, A &&... a) -> decltype(inv<typename std::decay<F>::type>::call(std::forward<F>(f), std::forward<A>(a)...)) { return inv<typename std::decay<F>::type>::call(std::forward<F>(f), std::forward<A>(a)...); }
template<size_t...I> struct seq {}; template<size_t N, size_t...I> struct mk : mk<N - 1, N - 1, I...> {}; template<size_t...I> struct mk<0, I...> { typedef seq<I...> type; };
template<class F, class P, size_t...I> auto ap(F && f, P && p, seq<I...>) -> decltype(ref::invoke(std::forward<F>(f), std::get<I>(std::forward<P>(p))...)) { return ref::invoke(std::forward<F>(f), std::get<I>(std::forward<P>(p))...); }
template<class F, class P> auto apply(F && f, P && p) -> decltype(ref::ap(std::forward<F>(f), std::forward<P>(p), typename mk<std::tuple_size<typename std::decay<P>::type>::value>::type())) { return ref::ap(std::forward<F>(f), std::forward<P>(p), typename mk<std::tuple_size<typename std::decay<P>::type>::value>::type()); }
template<class X, class U = X> X exchange(X & t, U && n) { X o(std::move(t)); t = std::forward<U>(n); return o; }
}
#if __cplusplus >= 201703L
#define HAVE_STD 1
#endif
#ifdef REF_ONLY
namespace lib = ref;
#else
namespace lib = boost::context::detail;
#endif
static int failures;
static void bad(int c, char const * what, std::string const & a, std::string const & b) { printf("FAIL %d %s | library: %s | expected: %s\n", c, what, a.c_str(), b.c_str()); ++failures; }
'''

class G:
    """choice source"""
    def __init__(self, ch=None, rng=None):
        self.ch, self.rng, self.rec, self.i = ch, rng, [], 0
    def d(self, n):
        if n <= 1: return 0
        if self.ch is not None:
            v = self.ch[self.i] if self.i < len(self.ch) else 0
            self.i += 1
            v %= n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v
    def of(self, l): return l[self.d(len(l))]

# value types usable as arguments: (type, init expression)
def val(g, k):
    return g.of([('int', str(10 + k)), ('T<1>', 'T<1>(%d)' % (20 + k)), ('T<2>', 'T<2>(%d)' % (30 + k)), ('MO', 'MO(%d)' % (40 + k)), ('std::string', 'std::string("s%d")' % k), ('NC', None), ('std::unique_ptr<int>', 'std::unique_ptr<int>(new int(%d))' % (50 + k))])

RET = ['void', 'int', 'T<3>', 'T<3>&', 'T<3> const&', 'T<3>&&', 'T<3> const&&', 'MO', 'std::string', 'int&', 'T<3> const', 'NC&', 'bool', 'T<3>*', 'std::unique_ptr<int>']
def retstmt(r, n):
    return {'void': '', 'int': 'return %d;' % n, 'T<3>': 'return T<3>(%d);' % n, 'T<3>&': 'static T<3> s; s.v = %d; return s;' % n, 'T<3> const&': 'static T<3> s; s.v = %d; return s;' % n,
            'T<3>&&': 'static T<3> s; s.v = %d; return std::move(s);' % n, 'T<3> const&&': 'static T<3> const s(%d); return std::move(s);' % n, 'MO': 'return MO(%d);' % n, 'std::string': 'return std::string(%d, \'x\');' % (n % 50),
            'int&': 'static int s; s = %d; return s;' % n, 'T<3> const': 'return T<3>(%d);' % n, 'NC&': 'static NC s; s.v = %d; return s;' % n, 'bool': 'return %s;' % ('true' if n & 1 else 'false'),
            'T<3>*': 'static T<3> s; return &s;', 'std::unique_ptr<int>': 'return std::unique_ptr<int>(new int(%d));' % n}[r]

COPYABLE = {'int', 'T<1>', 'T<2>', 'std::string'}
def params(g, n):
    """parameter list: types (type, how)"""
    ps = []
    for k in range(n):
        t, init = val(g, k)
        if t == 'NC': how = g.of(['&', 'const&'])
        else: how = g.of(['', '&', 'const&', '&&', 'const'])
        ps.append((t, how, k))
    return ps
def ptype(t, how):
    return {'': t, '&': t + '&', 'const&': t + ' const&', '&&': t + '&&', 'const': t + ' const'}[how]
def pdecl(ps): return ', '.join('%s a%d' % (ptype(t, h), k) for t, h, k in ps)
def logargs(ps): return ''.join(' say("a%d=", id(a%d));' % (k, k) for t, h, k in ps)
def touch(ps, g):
    s = ''
    for t, h, k in ps:
        if h in ('&&', '') and t in ('T<1>', 'T<2>', 'MO') and g.d(3) == 2: s += ' { %s taken(std::move(a%d)); (void)taken; }' % (t, k)
    return s
def argexpr(g, t, how, k):
    """an expression (on local x<k>) that binds to the parameter"""
    if how == '&': return 'x%d' % k
    if how == '&&': return 'std::move(x%d)' % k
    if how == 'const&': return g.of(['x%d' % k, 'c%d' % k, 'std::move(x%d)' % k, 'std::move(c%d)' % k])
    if t in COPYABLE: return g.of(['x%d' % k, 'c%d' % k, 'std::move(x%d)' % k, 'std::move(c%d)' % k])
    return 'std::move(x%d)' % k
def locs(ps):
    s = ''
    for t, h, k in ps:
        init = {'int': '%d' % (10 + k), 'T<1>': 'T<1>(%d)' % (20 + k), 'T<2>': 'T<2>(%d)' % (30 + k), 'MO': 'MO(%d)' % (40 + k), 'std::string': 'std::string("s%d")' % k, 'NC': '(%d)' % k,
                'std::unique_ptr<int>': 'std::unique_ptr<int>(new int(%d))' % (50 + k)}[t]
        if t == 'NC': s += ' NC x%d(%d); NC const & c%d = x%d;' % (k, 90 + k, k, k)
        elif t == 'int': s += ' int x%d = %s; int const & c%d = x%d;' % (k, init, k, k)
        else: s += ' %s x%d{%s}; %s const & c%d = x%d;' % (t, k, init, t, k, k) if t not in ('T<1>', 'T<2>', 'MO') else ' %s x%d(%s); %s const & c%d = x%d;' % (t, k, init[init.index('(') + 1:-1], t, k, k)
        s += ' (void)c%d;' % k
    return s
def after(ps): return ''.join(' say("x%d=", id(x%d));' % (k, k) for t, h, k in ps)

QUAL = ['', 'const', '&', 'const&', '&&', 'const&&']
def gen_callable(g, c):
    """returns dict(top=namespace scope code, loc=local code, fn=expression of the callable, first=expression of the object or None, ps, kind)"""
    kind = g.of(['fptr', 'fref', 'functor', 'functor2', 'pmf', 'pmd', 'lambda', 'stdfunction', 'bind', 'refwrap', 'virt', 'pmd_base'])
    n = g.d(4)
    ps = params(g, n)
    r = g.of(RET)
    rv = 100 + c * 3 + 1
    noex = g.of(['', ' noexcept'])
    bodyt = ' { say("call", %d);%s%s %s }'
    o = dict(top='', loc='', ps=ps, kind=kind, first=None)
    if kind in ('fptr', 'fref', 'bind'):
        o['top'] = '%s f%d(%s)%s' % (r, c, pdecl(ps), noex) + bodyt % (1, logargs(ps), touch(ps, g), retstmt(r, rv))
        if kind == 'fptr':
            o['fn'] = g.of(['&f%d' % c, 'p']); o['loc'] = 'auto p = &f%d; (void)p;' % c
        elif kind == 'fref': o['fn'] = 'f%d' % c
        else:
            ps = o['ps'] = []
            o['top'] = 'static %s f%d(int a, T<1> const & b)' % (r, c) + ' { say("call", a + b.v); %s }' % retstmt(r, rv)
            o['loc'] = 'auto bb = std::bind(&f%d, 7, T<1>(8));' % c
            o['fn'] = g.of(['bb', 'std::move(bb)'])
        return o
    if kind in ('functor', 'functor2', 'refwrap', 'stdfunction'):
        quals = [g.of(QUAL)] if kind == 'functor' else [g.of(['', 'const', '&', 'const&'])] if kind == 'stdfunction' else g.of([['&', 'const&', '&&', 'const&&'], ['', 'const'], ['&', '&&'], ['const&', '&&'], ['const&', '&']])
        s = 'struct F%d { int st = %d; F%d() {} F%d(F%d const & o) : st(o.st) { say("fcc", st); } F%d(F%d && o) : st(o.st) { say("fmc", st); o.st = -1; }\n' % (c, c + 5, c, c, c, c, c)
        for i, q in enumerate(quals):
            rr = r if i == 0 else g.of(RET)
            s += '  %s operator()(%s) %s%s { say("op%s", st);%s%s %s }\n' % (rr, pdecl(ps), q, noex, re.sub(r'\W', '_', q) + str(i), logargs(ps), touch(ps, g), retstmt(rr, rv + i))
        o['top'] = s + '};'
        cats = []
        for e, ok in (('f', {'', 'const', '&', 'const&'}), ('cf', {'const', 'const&'}), ('std::move(f)', {'', 'const', '&&', 'const&&', 'const&'}), ('std::move(cf)', {'const', 'const&', 'const&&'})):
            if any(q in ok for q in quals): cats.append(e)
        o['loc'] = 'F%d f; F%d const & cf = f; (void)cf;' % (c, c)
        if kind == 'refwrap':
            if 'f' not in cats: quals = None
            o['loc'] += ' auto rw = std::%s(f);' % ('ref' if g.d(2) or 'cf' not in cats else 'cref')
            o['fn'] = g.of(['rw', 'std::move(rw)'])
            if 'f' not in cats: o['fn'] = cats[0]
        elif kind == 'stdfunction' and r != 'NC&' and not any(t == 'NC' and h == '' for t, h, k in ps) and 'f' in cats:
            o['loc'] += ' std::function<%s(%s)> sf(f);' % (r.replace(' const', '') if r == 'T<3> const' else r, ', '.join(ptype(t, h) for t, h, k in ps))
            o['fn'] = g.of(['sf', 'std::move(sf)'])
        else:
            o['fn'] = g.of(cats)
        return o
    if kind == 'lambda':
        o['loc'] = 'int cap = 3; auto l = [&cap](%s)%s -> %s { say("lam", cap);%s %s };' % (pdecl(ps), g.of(['', ' mutable']), r, logargs(ps), retstmt(r, rv))
        o['fn'] = g.of(['l', 'std::move(l)'])
        return o
    # members
    if kind == 'pmf':
        q = g.of(QUAL)
        o['top'] = 'struct M%d { int st = %d; %s mf(%s) %s%s { say("mf", st);%s%s %s } };\nstruct DM%d : M%d { int more = 1; };' % (c, c + 6, r, pdecl(ps), q, noex if '&&' not in q else '', logargs(ps), touch(ps, g), retstmt(r, rv), c, c)
        cls = g.of(['M%d', 'DM%d']) % c
        lv = q in ('', 'const', '&', 'const&'); cl = q in ('const', 'const&')
        rv_ok = q in ('', 'const', '&&', 'const&&'); crv = q in ('const', 'const&&')      # const& on an rvalue: only since C++20
        ex = []
        if lv: ex += ['o', '&o', 'std::ref(o)', 'up', 'sp', 'op']
        if cl: ex += ['co', '&co', 'std::cref(o)', 'cop']
        if rv_ok: ex += ['std::move(o)']
        if crv: ex += ['std::move(co)']
        o['loc'] = '%s o; %s const & co = o; std::unique_ptr<%s> up(new %s); SP<%s> sp{ &o }; %s * op = &o; %s const * const cop = &o; (void)co; (void)op; (void)cop;' % ((cls,) * 7)
        o['first'] = g.of(ex)
        o['loc'] += ' auto pm = &M%d::mf; auto const cpm = pm; (void)cpm;' % c
        o['fn'] = g.of(['&M%d::mf' % c, 'pm', 'cpm', 'std::move(pm)'])
        return o
    if kind == 'virt':
        o['ps'] = []
        cls = g.of(['B0', 'D0'])
        o['loc'] = '%s o; B0 & bo = o; std::shared_ptr<B0> sh(new D0);' % cls
        o['first'] = g.of(['o', 'bo', '&bo', 'std::ref(bo)', 'sh', 'std::move(o)', 'std::move(sh)'])
        o['extra'] = g.of(['5', 'Conv{6}', 'true'])
        o['fn'] = g.of(['&B0::vf', '&B0::bf'])
        return o
    # data members
    o['ps'] = []
    if kind == 'pmd_base':
        cls = g.of(['B0', 'D0']); o['loc'] = '%s o; %s const & co = o; (void)co; std::unique_ptr<%s> up(new %s);' % ((cls,) * 4)
        o['fn'] = g.of(['&B0::d0', '&B0::t0'])
    else:
        t = g.of(['int', 'T<4>', 'int const', 'std::string', 'MO', 'NC'])
        o['top'] = 'struct M%d { %s m%s; M%d() {} };' % (c, t, '{42}' if t in ('int', 'int const') else '{"q"}' if t == 'std::string' else '{42}', c)
        o['loc'] = 'M%d o; M%d const & co = o; (void)co; std::unique_ptr<M%d> up(new M%d); SP<M%d> sp{ &o };' % ((c,) * 5)
        o['fn'] = '&M%d::m' % c
    o['first'] = g.of(['o', 'co', 'std::move(o)', 'std::move(co)', '&o', '&co', 'std::ref(o)', 'std::cref(o)', 'up', 'std::move(up)'] + (['sp'] if kind == 'pmd' else []))
    return o

def gen_invoke(g, c):
    o = gen_callable(g, c)
    args = ([o['first']] if o['first'] else []) + ([o['extra']] if o.get('extra') else []) + [argexpr(g, *p) for p in o['ps']]
    call = 'NS::invoke(%s)' % ', '.join([o['fn']] + args)
    return o['top'], o['loc'] + locs(o['ps']), call, after(o['ps']), 'invoke ' + o['kind'], o['kind']

def gen_apply(g, c):
    o = gen_callable(g, c)
    cat = g.of(['tp', 'std::move(tp)', 'ctp', 'std::move(ctp)'])
    els, ini = [], []
    def elem(expr, t):      # element type so that get<I>(forward) binds
        return t
    # build a tuple of references (forward_as_tuple like) or of values
    args = ([o['first']] if o['first'] else []) + ([o['extra']] if o.get('extra') else []) + [argexpr(g, *p) for p in o['ps']]
    if cat == 'std::move(tp)' and not any('&' == a[:1] for a in args):
        byval = [g.d(2) for _ in args]
        for a, b in zip(args, byval):
            if a.startswith('std::move(') and b and 'c' != a[10:11]: els.append('typename std::decay<decltype(%s)>::type' % a)
            elif a.startswith('std::move('): els.append('decltype(%s)' % a)
            elif re.match(r'^[a-z]\w*$', a): els.append('decltype((%s))' % a)
            else: els.append('typename std::decay<decltype(%s)>::type' % a)
            ini.append(a)
        loc2 = ' std::tuple<%s> tp{%s};' % (', '.join(els), ', '.join(ini)) if els else ' std::tuple<> tp;'
    else:
        # lvalue tuple: elements are seen as lvalues; only parameters that accept lvalues survive
        for a in args:
            if re.match(r'^[a-z]\w*$', a): els.append('decltype((%s))' % a); ini.append(a)
            elif a.startswith('std::move(') and re.match(r'^std::move\(x(\d+)\)$', a):
                k = int(re.match(r'^std::move\(x(\d+)\)$', a).group(1)); p = [q for q in o['ps'] if q[2] == k][0]
                if p[1] == '&&' or p[0] not in COPYABLE: cat = 'std::move(tp)'; els.append('decltype(%s)' % a); ini.append(a)
                else: els.append(p[0]); ini.append(a)
            elif a.startswith('std::move('): cat = 'std::move(tp)'; els.append('decltype(%s)' % a); ini.append(a)
            else: els.append('typename std::decay<decltype(%s)>::type' % a); ini.append(a)
        loc2 = ' std::tuple<%s> tp{%s};' % (', '.join(els), ', '.join(ini)) if els else ' std::tuple<> tp;'
    if 'ctp' in cat: loc2 += ' auto const & ctp = tp;'
    return o['top'], o['loc'] + locs(o['ps']) + loc2, 'NS::apply(%s, %s)' % (o['fn'], cat), after(o['ps']), 'apply ' + o['kind'], o['kind']

def gen_pairapply(g, c):
    src = g.of(['std::pair<int, T<1>> tp(3, T<1>(4));', 'std::array<int, 2> tp{{5, 6}};', 'std::tuple<int, int> tp{7, 8};'])
    top = 'struct F%d { template<class A, class B> long operator()(A && a, B && b) const { say(Cat<A&&>::n(), 1); say(std::is_const<typename std::remove_reference<A>::type>::value ? "c" : "n", 0); return id(a) * 10 + id(b); } };' % c
    cat = g.of(['tp', 'std::move(tp)', 'ctp', 'std::move(ctp)'])
    return top, src + ' auto const & ctp = tp; (void)ctp; F%d f;' % c, 'NS::apply(%s, %s)' % (g.of(['f', 'F%d()' % c]), cat), '', 'apply pair/array', 'pairapply'

def gen_exchange(g, c):
    t, x, n = g.of([('T<1>', 'T<1> x(5);', ['T<1>(6)', 'y', 'cy', 'std::move(y)']), ('int', 'int x = 5;', ['6', 'y', 'cy', 'Conv{9}', "'c'"]), ('std::string', 'std::string x("abc");', ['"lit"', 'y', 'cy', 'std::move(y)', "'z'"]),
                    ('MO', 'MO x(5);', ['MO(6)', 'std::move(y)']), ('std::unique_ptr<int>', 'std::unique_ptr<int> x(new int(4));', ['nullptr', 'std::move(y)', 'std::unique_ptr<int>(new int(9))']),
                    ('int*', 'int q = 1; int * x = &q;', ['nullptr', 'y']), ('std::vector<int>', 'std::vector<int> x(3, 1);', ['{1, 2, 3, 4}', 'y', 'std::vector<int>(7)', '{}']),
                    ('double', 'double x = 2.5;', ['1', '7.5f', 'y']), ('T<1>', 'T<1> x(5);', ['x', 'std::move(x)'])])
    y = {'T<1>': 'T<1> y(7);', 'int': 'int y = 7;', 'std::string': 'std::string y("other");', 'MO': 'MO y(7);', 'std::unique_ptr<int>': 'std::unique_ptr<int> y(new int(8));', 'int*': 'int r = 2; int * y = &r;', 'std::vector<int>': 'std::vector<int> y(5, 2);', 'double': 'double y = 1.25;'}[t]
    return '', x + ' ' + y + ' %s const & cy = y; (void)cy;' % t, 'NS::exchange(x, %s)' % g.of(n), ' say("x", id(x)); say("y", id(y));', 'exchange', 'exchange'

TE = [('int', '%d', 'int'), ('T<1>', 'T<1>(%d)', 'T<1>'), ('T<2>', 'T<2>(%d)', 'T<2>'), ('std::string', 'std::string(%d, \'s\')', 'std::string'), ('MO', 'MO(%d)', 'MO'), ('int', '%d', 'long'), ('std::unique_ptr<int>', 'std::unique_ptr<int>(new int(%d))', 'std::unique_ptr<int>'), ('bool', '%d != 0', 'int')]
def gen_tuple(g, c):
    n = g.d(7); el = [g.of(TE) for _ in range(n)]; k = g.d(n + 1); head = g.d(2) == 0
    rval = g.d(2) == 1 or any(e[0] in ('MO', 'std::unique_ptr<int>') for e in el)
    off = 0 if head else n - k
    src = '{ std::tuple<%s> s{%s};' % (', '.join(e[0] for e in el), ', '.join(e[1] % (i + 3) for i, e in enumerate(el))) if n else '{ std::tuple<> s;'
    src += ' std::tuple<%s> d;' % ', '.join(e[2] for e in el[off:off + k])
    t = src + ' std::string got, want; lg.clear(); lib2::%s(d) = %s; got = lg; ' % ('head' if head else 'tail', 'std::move(s)' if rval else 's')
    # expectation
    t += 'std::string counts; '
    for j in range(k):
        i = off + j; e = el[i]
        ev = {'int': '%d' % (i + 3), 'T<1>': '%d' % (i + 3), 'T<2>': '%d' % (i + 3), 'std::string': 'id(std::string(%d, \'s\'))' % (i + 3), 'MO': '%d' % (i + 3), 'std::unique_ptr<int>': '%d' % (i + 3), 'bool': '1'}[e[0]]
        t += 'if (id(std::get<%d>(d)) != %s) bad(CASE, "wrong element", std::to_string(id(std::get<%d>(d))), std::to_string(%s)); ' % (j, ev, j, ev)
    # every selected tracked element is read once (copied from lvalues, moved from rvalues), others never
    for i, e in enumerate(el):
        if e[0] in ('T<1>', 'T<2>'):
            sel = off <= i < off + k
            t += '{ size_t cc = 0, p = 0; std::string key = "cc%d;"; while ((p = got.find(key, p)) != std::string::npos) { ++cc; ++p; } if (cc != %d) bad(CASE, "copies of an element", std::to_string(cc), "%d"); } ' % (i + 3, 1 if sel and not rval else 0, 1 if sel and not rval else 0)
            t += 'if (std::get<%d>(s).v != %d) bad(CASE, "state of the source", std::to_string(std::get<%d>(s).v), "%d"); ' % (i, -(i + 3) if sel and rval else i + 3, i, -(i + 3) if sel and rval else i + 3)
            if not sel: t += 'if (got.find("mc%d;") != std::string::npos) bad(CASE, "an element outside the range was moved", got, ""); ' % (i + 3)
        elif e[0] in ('MO',):
            sel = off <= i < off + k
            t += 'if (std::get<%d>(s).v != %d) bad(CASE, "state of the source", std::to_string(std::get<%d>(s).v), "%d"); ' % (i, -1 if sel else i + 3, i, -1 if sel else i + 3)
        elif e[0] == 'std::string':
            sel = off <= i < off + k
            if not (sel and rval): t += 'if (std::get<%d>(s) != std::string(%d, \'s\')) bad(CASE, "state of the source", std::get<%d>(s), "unchanged"); ' % (i, i + 3, i)
        elif e[0] == 'std::unique_ptr<int>':
            sel = off <= i < off + k
            t += 'if (!!std::get<%d>(s) != %s) bad(CASE, "state of the source", "", ""); ' % (i, 'false' if sel else 'true')
    return t + '}', '%s of %d elements, %d taken, %s' % ('head' if head else 'tail', n, k, 'rvalue' if rval else 'lvalue')

def gen(g, c):
    w = g.d(12)
    if w < 5: top, loc, call, aft, desc, kind = gen_invoke(g, c)
    elif w < 8: top, loc, call, aft, desc, kind = gen_apply(g, c)
    elif w == 8: top, loc, call, aft, desc, kind = gen_pairapply(g, c)
    elif w == 9: top, loc, call, aft, desc, kind = gen_exchange(g, c)
    else:
        body, desc = gen_tuple(g, c)
        return dict(top='', body='#ifdef REF_ONLY\n#else\nnamespace lib2 = boost::context::detail;\nvoid case_%d() { enum { CASE = %d }; %s }\n#endif' % (c, c, body), desc=desc, kind='tuple', calls=('', 'case_%d' % c), key=body.replace('CASE', ''))
    base = '&x, sizeof x' if kind == 'exchange' else '&o, sizeof o' if re.search(r'(^| )\w+ o;', loc) else '&tp, sizeof tp' if ' tp' in loc and kind == 'pairapply' else 'nullptr, 0'
    run = lambda ns, nm: 'static std::string %s_%d(std::string & ty) { %s lg.clear(); typedef decltype(%s) R; ty = std::string(Cat<R>::n()); Run<R>::go([&]() -> R { return %s; }, %s);%s return lg; }\n' % (
        nm, c, loc, call.replace('NS', ns), call.replace('NS', ns), base, aft)
    txt = top + '\n' + (run('lib', 'L') + run('ref', 'X'))
    txt += '#ifdef HAVE_STD\n' + run('std', 'S') + '#endif\n'
    ty = 'static bool same_%d() { %s (void)0; return std::is_same<decltype(%s), decltype(%s)>::value; }\n' % (c, loc, call.replace('NS', 'lib'), call.replace('NS', 'ref'))
    sty = '#ifdef HAVE_STD\nstatic bool ssame_%d() { %s (void)0; return std::is_same<decltype(%s), decltype(%s)>::value; }\n#endif\n' % (c, loc, call.replace('NS', 'ref'), call.replace('NS', 'std'))
    txt += ty + sty
    main = 'void case_%d() { std::string ta, tb; std::string a = L_%d(ta), b = X_%d(tb); if (a != b) bad(%d, "trace", a, b); if (ta != tb) bad(%d, "value category", ta, tb); if (!same_%d()) bad(%d, "result type", "", "");\n' % ((c,) * 7)
    main += '#ifdef HAVE_STD\nstd::string ts; std::string s = S_%d(ts); if (s != b || ts != tb || !ssame_%d()) { printf("REFERENCE %d\\n"); failures += 1000; }\n#endif\n}\n' % (c, c, c)
    return dict(top=txt, body=main, desc=desc + ': ' + call.replace('NS::', ''), kind=kind, calls=('', 'case_%d' % c), key=(top + loc + call).replace(str(c), '#'))

def unit(cases):
    t = PRELUDE
    for c in cases: t += '\n' + c['top'] + '\n' + c['body'] + '\n'
    t += 'int main() {\n'
    for c in cases:
        if c['kind'] == 'tuple': t += '#ifndef REF_ONLY\n%s();\n#endif\n' % c['calls'][1]
        else: t += '%s();\n' % c['calls'][1]
    return t + 'printf("DONE %d\\n", failures); return failures ? 1 : 0; }\n'

def compile_run(cases, cfg, d, tag, refonly=False):
    src = os.path.join(d, tag + '.cpp'); exe = os.path.join(d, tag)
    open(src, 'w').write(unit(cases))
    cxx, std = cfg
    cmd = [cxx, '-std=c++' + std, '-O0', '-w', '-DBOOST_CONTEXT_NO_LIB=', '-DBOOST_CONTEXT_STATIC_LINK=', '-DBOOST_CONTEXT_EXPORT=', '-I' + REPO + '/include', src, '-o', exe] + (['-DREF_ONLY'] if refonly else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: return 'compile', r.stdout[-3000:]
    try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired: return 'run', 'timeout'
    finally:
        try: os.unlink(exe); os.unlink(src)
        except OSError: pass
    if r.returncode == 0 and 'DONE 0' in r.stdout: return 'ok', ''
    return 'run', r.stdout[-3000:] + (' status %d' % r.returncode if r.returncode not in (0, 1) else '')

def judge(ch, cfg, d, tag):
    """one case on its own: None ok, ('gen', ..) generator problem, str violation"""
    case = gen(G(ch), 0)
    k, out = compile_run([case], cfg, d, tag)
    if k == 'ok': return None, case
    if k == 'compile':
        if case['kind'] == 'tuple': return ('the tuple helpers reject: ' + case['desc'], case)
        k2, o2 = compile_run([case], cfg, d, tag + 'r', True)
        if k2 == 'compile': return (('gen', o2), case)
        return ('the library does not accept a call the standard facility accepts: ' + case['desc'], case)
    if 'REFERENCE' in out: return (('gen', 'reference differs from std: ' + case['desc']), case)
    m = re.search(r'FAIL \d+ (.*)', out)
    return ((m.group(1) if m else 'crash: ' + out[-200:]) + ' in ' + case['desc'], case)

CFG = [('g++', '11'), ('g++', '14'), ('g++', '17'), ('g++', '20'), ('clang++', '11'), ('clang++', '14'), ('clang++', '17'), ('clang++', '20')]
def main():
    ap = argparse.ArgumentParser()
    for a, t, dflt in (('--cases', int, 1000), ('--seed', int, 1), ('--workers', int, 8), ('--max-wall', float, 240), ('--out', str, ''), ('--fail-out', str, ''), ('--tmp', str, '.'), ('--replay', str, '')):
        ap.add_argument(a, type=t, default=dflt)
    o = ap.parse_args()
    d = os.path.join(o.tmp, 'gh%d' % os.getpid()); os.makedirs(d)
    try:
        return go(o, d)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)
def go(o, d):
    t0 = time.time()
    if o.replay:
        txt = open(o.replay, errors='replace').read()
        ch = [int(x) for x in re.search(r'^choices:(.*)$', txt, re.M).group(1).split()]
        cfg = tuple(re.search(r'^config: (\S+) (\S+)', txt, re.M).groups())
        res, case = judge(ch, cfg, d, 'rp')
        print(case['top'] + '\n' + case['body'])
        print('RESULT ' + ('pass' if res is None else 'FAIL %s' % (res,)))
        return 0 if res is None else 1
    PER = 40
    jobs = []
    for u in range((o.cases + PER - 1) // PER): jobs.append(u)
    state = dict(cases=0, kinds=collections.Counter(), distinct=set(), rej=0, viol=None, gen=None, samples=[])
    def one(u):
        if state['viol'] or time.time() - t0 > o.max_wall: return
        rng = random.Random('%d/%d' % (o.seed, u)); cfg = CFG[u % len(CFG)]
        chs, cases = [], []
        for i in range(PER):
            g = G(None, rng); cases.append(gen(g, i)); chs.append(g.rec)
        k, out = compile_run(cases, cfg, d, 'u%d' % u)
        badi = []
        if k != 'ok':
            badi = sorted({int(x) for x in re.findall(r'FAIL (\d+)', out)} | {int(x) for x in re.findall(r'REFERENCE (\d+)', out)}) if k == 'run' else []
            if not badi: badi = range(PER)
        for i in badi:
            if state['viol']: break
            res, case = judge(chs[i], cfg, d, 'u%d_%d' % (u, i))
            if res is None: continue
            if isinstance(res, tuple): state['rej'] += 1; state['gen'] = state['gen'] or (res[1], chs[i], cfg); continue
            state['viol'] = (res, chs[i], cfg, case)
        state['cases'] += PER
        for c in cases: state['kinds'][c['desc'].split(':')[0].split(' of ')[0]] += 1; state['distinct'].add(hashlib.sha1(c['key'].encode()).digest())
        if len(state['samples']) < 3: state['samples'].append(cases[0]['desc'] + ' [%s c++%s]' % cfg)
    with cf.ThreadPoolExecutor(o.workers) as ex: list(ex.map(one, jobs))
    ev = 0
    if state['viol']:
        res, ch, cfg, case = state['viol']; t1 = time.time()
        cand = True
        with cf.ThreadPoolExecutor(o.workers) as ex:
            while cand and time.time() - t1 < 60:
                cand = False; alts = []
                for i in range(len(ch)): alts.append(ch[:i] + ch[i + 1:])
                for i in range(len(ch)):
                    if ch[i]: alts.append(ch[:i] + [0] + ch[i + 1:]); alts.append(ch[:i] + [ch[i] - 1] + ch[i + 1:])
                for k in range(0, len(alts), o.workers):
                    if time.time() - t1 > 60: break
                    rs = list(ex.map(lambda z: judge(z[1], cfg, d, 's%d' % z[0]), enumerate(alts[k:k + o.workers]))); ev += len(rs)
                    hit = [a for a, r in zip(alts[k:], rs) if isinstance(r[0], str)]
                    if hit: ch = hit[0]; cand = True; break
        res2, case = judge(ch, cfg, d, 'fin')
        if isinstance(res2, str): res = res2
        if o.fail_out:
            open(o.fail_out, 'w').write('harness: genhelpers\nargs:\nmessage: %s\nconfig: %s %s\nchoices: %s\nprogram:\n%s\n%s\n' % (res, cfg[0], cfg[1], ' '.join(map(str, ch)), case['top'], case['body']))
    herr = 0; hmsg = ''
    if state['rej'] > max(4, state['cases'] // 50): herr, hmsg = state['rej'], str(state['gen'])[:1500]
    out = dict(harness='genhelpers', cases=state['cases'], nontrivial=state['cases'] - state['rej'], distinct_nontrivial=max(0, len(state['distinct']) - state['rej']), steps=0, wall=round(time.time() - t0, 2), cut=0, harness_errors=herr, harness_error_msg=hmsg,
               unreproduced=state['rej'], unreproduced_msg='', failed=1 if state['viol'] else 0, message=res if state['viol'] else '', first_message='', shrink_evals=ev, rule='generated C++ programs; every accepted program counts, distinct by program text',
               labels=dict(state['kinds']), samples=state['samples'])
    s = json.dumps(out)
    print(s)
    if state['gen']: print('generator problem:', state['gen'][0][-1500:], state['gen'][1], file=sys.stderr)
    if o.out: open(o.out, 'w').write(s)
    return 1 if state['viol'] else 2 if herr else 0
if __name__ == '__main__': sys.exit(main())
