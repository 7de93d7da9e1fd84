#!/usr/bin/env python3
"""C15: generates whole programs against the documented interface (contexts, on-top functions, exceptions, unwinding,
handle operations, every way of passing a callable), predicts their trace with a model while generating them, and compiles
and runs each of them with several implementations, language levels, compilers and optimisation levels.

A case is a choice sequence, like in pbt.hpp: the generator draws from it, shrinking edits it."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, subprocess, sys, time, collections
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

PRELUDE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#ifdef CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
namespace ctx = boost::context;
#ifdef CALLCC
typedef ctx::continuation H;
#define LVALUE(h) (h)
#define START(...) ctx::callcc(__VA_ARGS__)
#else
typedef ctx::fiber H;
#define LVALUE(h) std::move(h)
#define START(...) H(__VA_ARGS__).resume()
#endif
#ifdef BOOST_USE_SEGMENTED_STACKS
typedef ctx::segmented_stack A0, A1, A2, A3, A4;
#else
typedef ctx::default_stack A0; typedef ctx::fixedsize_stack A1; typedef ctx::protected_fixedsize_stack A2; typedef ctx::pooled_fixedsize_stack A3;
#endif
#ifndef BOOST_USE_SEGMENTED_STACKS
struct A4 { // a user defined stack allocator
    typedef ctx::stack_traits traits_type; std::size_t n; explicit A4(std::size_t n_) : n(n_) {}
    ctx::stack_context allocate() { void * v = std::malloc(n); if (!v) throw std::bad_alloc(); ctx::stack_context sc; sc.size = n; sc.sp = static_cast<char *>(v) + n; return sc; }
    void deallocate(ctx::stack_context & sc) noexcept { std::free(static_cast<char *>(sc.sp) - sc.size); }
};
#endif
static H pass(H h) { return h; }
struct Holder { H h; H take() { return std::move(h); } };
static std::string tr;
static void lg(char const * w, long v) { char b[60]; snprintf(b, sizeof b, "%s%ld;", w, v); tr += b; }
struct G { int k; explicit G(int k_) : k(k_) { lg("+", k); } ~G() { lg("-", k); } G(G const &) = delete; G & operator=(G const &) = delete; };
struct E { int k; explicit E(int k_) : k(k_) {} };
template<class F> void nest(int n, F f) { volatile char pad[40]; pad[n & 31] = char(n); if (n > 0) nest(n - 1, f); else f(); if (pad[n & 31] != char(n)) lg("pad", n); }
static long shown(H const & h) { std::ostringstream o; o << h; return o.str() == "{not-a-context}"; }
template<class Al> struct Pre { Al al; ctx::stack_context sc; ctx::preallocated pa; explicit Pre(Al const & a) : al(a), sc(al.allocate()), pa(sc.sp, sc.size, sc) {} };
#ifdef CALLCC
template<class Al, class F> H startpre(Al const & a, F && f) { Pre<Al> p(a); return ctx::callcc(std::allocator_arg, p.pa, p.al, std::forward<F>(f)); }
#else
template<class Al, class F> H startpre(Al const & a, F && f) { Pre<Al> p(a); return H(std::allocator_arg, p.pa, p.al, std::forward<F>(f)).resume(); }
template<class Al, class F> H makepre(Al const & a, F && f) { Pre<Al> p(a); return H(std::allocator_arg, p.pa, p.al, std::forward<F>(f)); }
#endif
'''
NS = 48

class Src:
    def __init__(s, ch, rng): s.ch, s.rng, s.rec, s.i = ch, rng, [], 0
    def d(s, n):
        if n <= 1: return 0
        if s.ch is None: v = s.rng.randrange(n)
        else: v = s.ch[s.i] % n if s.i < len(s.ch) else 0
        s.i += 1; s.rec.append(v); return v
    def of(s, l): return l[s.d(len(l))]

class C:
    def __init__(s, i): s.i, s.st, s.body, s.scopes, s.dest, s.wait, s.v, s.parm = i, 'fresh', [], [dict(kind='fn', items=[])], None, None, i * 7, None

class Prog:
    """draws a program and its trace"""
    def __init__(p, ch, rng, fiber_only=None):
        p.s = Src(ch, rng); p.val = {}; p.tr = []; p.top = []; p.n = 0; p.stats = collections.Counter()
        p.fonly = p.s.d(3) == 1
        p.gs = ['s[%d]' % i for i in range(NS)]
        for g in p.gs: p.val[g] = None
        p.main = C(0); p.main.st = 'run'; p.cs = [p.main]; p.cur = p.main
        p.gen()
    def lg(p, w, v): p.tr.append('%s%d;' % (w, v))
    def uid(p): p.n += 1; return p.n
    # -- text
    def emit(p, c, t): c.body.append(t)
    # -- locations
    def reach(p, c):
        """locations the context can name: globals and everything in its open scopes"""
        r = list(p.gs)
        for sc in c.scopes: r += [x[1] for x in sc['items'] if x[0] == 'h']
        return r
    def live(p, c): return [l for l in p.reach(c) if p.val[l] is not None]
    def free_g(p): return [g for g in p.gs if p.val[g] is None and g not in p.reserved()]
    def reserved(p): return {c.dest for c in p.cs if c.dest}
    def subtree(p, c):
        r = [c]
        for sc in c.scopes:
            for x in sc['items']:
                if x[0] == 'h' and p.val[x[1]] is not None: r += p.subtree(p.val[x[1]])
        return r
    def has_main(p, c): return p.main in p.subtree(c)
    # -- model actions (no text)
    def kill(p, t):
        """the handle of t is destroyed"""
        p.stats['destroyed'] += 1
        if t.st == 'susp':
            t.tail = ['lg("dead", %d);' % t.i] + p.closers(t)
            while t.scopes: p.pop(t, True)
        else: p.stats['fresh_destroyed'] += 1
        t.st = 'done'; t.dest = None
    def closers(p, c):
        return [{'fn': '', 'block': '}', 'nest': '});', 'try': '} catch (E const & e) { lg("c%d_", e.k); throw; }' % sc.get('id', 0), 'tryall': '} catch (ctx::detail::forced_unwind const &) { lg("fu", %d); throw; }' % sc.get('id', 0)}[sc['kind']] for sc in reversed(c.scopes)]
    def pop(p, t, unw):
        sc = t.scopes.pop()
        for x in reversed(sc['items']):
            if x[0] == 'g': p.lg('-', x[1])
            elif p.val.get(x[1]) is not None:
                k = p.val[x[1]]; p.val[x[1]] = None; p.kill(k)
        if unw and sc['kind'] == 'tryall': p.lg('fu', sc['id'])
        return sc
    def close(p, c):
        """text and model of leaving the innermost scope normally"""
        sc = c.scopes[-1]
        k = sc['kind']
        p.pop(c, False)
        if k == 'block': p.emit(c, '}')
        elif k == 'nest': p.emit(c, '});')
        elif k == 'try': p.emit(c, '} catch (E const & e) { lg("c%d_", e.k); }' % sc['id'])
        elif k == 'tryall': p.emit(c, '} catch (ctx::detail::forced_unwind const &) { lg("fu", %d); throw; }' % sc['id'])
    def set(p, loc, ctxv): p.val[loc] = ctxv
    # -- control transfer: c waits (already), t gets `h` (a context or None)
    def arrive(p, t, h):
        p.cur = t
        if t.st == 'fresh':
            t.st = 'run'; nm = t.parm; p.set(nm, h); t.scopes[0]['items'].append(('h', nm))
            p.emit(t, 'int v = %d; (void)v; lg("in%d_", bool(%s));' % (t.v, t.i, nm)); p.lg('in%d_' % t.i, int(h is not None)); loc = nm
        else:
            t.st = 'run'; loc = t.dest; t.dest = None
            if h is not None and t is not p.main and t.body[t.wait].endswith(' = ' + t.waitsrc + ';') and t.waitsrc.endswith('.resume()') and not any(sc['kind'] == 'nest' for sc in t.scopes) and p.s.d(8) == 1 and not any(
                    x[0] == 'h' and p.val[x[1]] is not None and p.has_main(p.val[x[1]]) for sc in t.scopes for x in sc['items']):
                # the resumption is the return value
                t.body[t.wait] = 'return %s;' % t.waitsrc; t.tail = p.closers(t); p.stats['tail_return'] += 1
                while t.scopes: p.pop(t, False)
                t.st = 'done'; p.arrive(h, None); return
            p.set(loc, h)
            p.emit(t, 'lg("bk%d_", bool(%s));' % (t.i, loc)); p.lg('bk%d_' % t.i, int(h is not None))
        if h is p.main:
            g = p.s.of(p.free_g()); p.emit(t, '%s = std::move(%s);' % (g, loc)); p.set(g, h); p.set(loc, None)
    def arrive_exc(p, t, k):
        p.cur = t; t.st = 'run'; t.dest = None; p.stats['thrown'] += 1
        w = t.wait
        tries = [i for i, sc in enumerate(t.scopes) if sc['kind'] == 'try']
        if tries and p.s.d(2):
            while len(t.scopes) - 1 > tries[-1]:
                sc = p.pop(t, False)
                p.emit(t, {'block': '}', 'nest': '});', 'tryall': '} catch (ctx::detail::forced_unwind const &) { lg("fu", %d); throw; }' % sc.get('id', 0)}[sc['kind']])
            sc = p.pop(t, False)
            p.emit(t, '} catch (E const & e) { lg("c%d_", e.k); }' % sc['id']); p.lg('c%d_' % sc['id'], k)
        else:
            t.body[w] = 'try { ' + t.body[w] + ' } catch (E const & e) { lg("x%d_", e.k); }' % t.i
            p.lg('x%d_' % t.i, k)
    def wait(p, c, src_text, with_text=None, pre=''):
        """emits the suspension of c; returns nothing, c.dest is where the next handle goes"""
        w = p.s.d(4); fg = p.free_g()
        if w == 0:
            nm = 'h%d' % p.uid(); p.emit(c, 'H %s;' % nm); c.scopes[-1]['items'].append(('h', nm)); p.val[nm] = None; d = nm
        else:
            el = [l for l in p.reach(c) if p.val[l] is None and l not in p.gs]
            d = p.s.of(el) if el and w == 1 else p.s.of(fg)
        c.dest = d; c.st = 'susp'; c.waitsrc = src_text
        p.emit(c, '%s%s = %s;' % (pre, d, src_text)); c.wait = len(c.body) - 1
    # -- callables
    def entry(p, c2):
        """text of a callable that runs the body of c2 as (declarations in this block, expression)"""
        i = c2.i; byval = p.s.d(4) == 0; c2.parm = 'p%d' % i
        c2.sig = 'static H B%d(H %s%s)' % (i, '' if byval else '&& ', c2.parm)
        f = p.s.d(14); fwd = 'return B%d(std::move(h));' % i; k = p.uid()
        P = p.s.of(['H && h', 'H h'])
        if f == 0: return '', '[](%s) -> H { %s }' % (P, fwd)
        if f == 1: return 'int k%d = %d;' % (k, k), '[k%d](%s) mutable -> H { if (k%d++ != %d) lg("cap", k%d); %s }' % (k, P, k, k, k, fwd)
        if f == 2: return '', 'B%d' % i
        if f == 3: return '', '&B%d' % i
        if f in (4, 5, 6, 7, 8):
            q = 'const' if f == 6 or (f == 4 and p.s.d(2)) else ''
            p.top.append('struct F%d { int a; explicit F%d(int x) : a(x) {} H operator()(%s) %s { if (a != %d) lg("obj", a); %s } };' % (k, k, P, q, k, fwd))
            if f == 4: return '', 'F%d(%d)' % (k, k)
            if f == 5: return 'F%d f%d(%d);' % (k, k, k), 'f%d' % k
            if f == 6: return 'F%d const f%d(%d);' % (k, k, k), 'f%d' % k
            if f == 7: return 'F%d f%d(%d);' % (k, k, k), 'std::move(f%d)' % k
            return 'F%d f%d(%d);' % (k, k, k), 'static_cast<F%d &&>(f%d)' % (k, k)
        if f == 9:
            p.top.append('struct F%d { std::unique_ptr<int> a; explicit F%d(int x) : a(new int(x)) {} H operator()(%s) { if (!a || *a != %d) lg("mo", 0); %s } };' % (k, k, P, k, fwd))
            return '', 'F%d(%d)' % (k, k)
        if f == 10: return '', 'std::function<H(H &&)>(&B%d)' % i if not byval else 'std::function<H(H &&)>([](H && h) -> H { %s })' % fwd
        if f == 11: return 'H (* f%d)(H %s) = B%d;' % (k, '' if byval else '&&', i), 'f%d' % k
        if f == 12: return 'auto f%d = [](%s) -> H { %s };' % (k, P, fwd), p.s.of(['f%d', 'std::move(f%d)']) % k
        return 'std::string big%d(70, char(65));' % k, '[big%d](%s) -> H { if (big%d.size() != 70 || big%d[69] != char(65)) lg("cap", 1); %s }' % (k, P, k, k, fwd)
    def ontop(p, fresh):
        k = p.uid(); m = p.s.d(5); fg = p.free_g(); c = p.cur
        eff = ['ret', 'ret', 'stash', 'other', 'throw'][m]
        if eff == 'throw' and fresh: eff = 'ret'
        gl = [g for g in p.gs if p.val[g] is not None and p.val[g] is not p.main]
        if eff == 'other' and not gl: eff = 'stash'
        body = 'lg("ot%d_", bool(q));' % k; r = dict(eff=eff, k=k)
        if eff == 'ret': body += ' return std::move(q);'
        else:
            r['slot'] = p.s.of(fg); body += ' %s = std::move(q);' % r['slot']
            if eff == 'stash': body += ' return H();'
            elif eff == 'other': r['src'] = None; r['cands'] = gl
            else: body += ' throw E(%d);' % k
        return r, body
    def ontop_form(p, r, body):
        k = r['k']; f = p.s.d(13); byval = p.s.d(3) == 0; P = 'H q' if byval else 'H && q'
        if f == 0: return '', '[](%s) -> H { %s }' % (P, body)
        if f == 1: return 'int k%d = %d;' % (k, k), '[k%d](%s) mutable -> H { if (k%d++ != %d) lg("cap", k%d); %s }' % (k, P, k, k, k, body)
        if f in (2, 3, 4):
            p.top.append('static H O%d(%s) { %s }' % (k, P, body))
            return [('', 'O%d' % k), ('', '&O%d' % k), ('H (* f%d)(%s) = O%d;' % (k, P.replace(' q', ''), k), 'f%d' % k)][f - 2]
        if f in (5, 6, 7, 8):
            q = 'const' if f == 6 or (f == 5 and p.s.d(2)) else ''
            p.top.append('struct O%d { int a; explicit O%d(int x) : a(x) {} H operator()(%s) %s { if (a != %d) lg("obj", a); %s } };' % (k, k, P, q, k, body))
            return [('', 'O%d(%d)' % (k, k)), ('O%d const f%d(%d);' % (k, k, k), 'f%d' % k), ('O%d f%d(%d);' % (k, k, k), 'f%d' % k), ('O%d f%d(%d);' % (k, k, k), 'std::move(f%d)' % k)][f - 5]
        if f == 9:
            p.top.append('struct O%d { std::unique_ptr<int> a; explicit O%d(int x) : a(new int(x)) {} H operator()(%s) { if (!a || *a != %d) lg("mo", 0); %s } };' % (k, k, P, k, body))
            return '', 'O%d(%d)' % (k, k)
        if f == 10: return '', 'std::function<H(H &&)>([](%s) -> H { %s })' % (P, body)
        if f == 11: return 'auto f%d = [](%s) -> H { %s };' % (k, P, body), p.s.of(['f%d', 'std::move(f%d)']) % k
        return 'std::string big%d(70, char(66));' % k, '[big%d](%s) -> H { if (big%d.size() != 70) lg("cap", 1); %s }' % (k, P, k, body)
    # -- operations of the running context
    def op_new(p, start=True):
        c = p.cur; t = C(len(p.cs)); p.cs.append(t); decl, ex = p.entry(t); a = p.s.d(8); p.stats['created'] += 1
        al = ['', '', 'A0()', 'A1(65536)', 'A2(32768)', 'A3()', 'A0()', 'A4(40000)'][a]
        if decl: p.emit(c, decl)
        alx = al
        if al and p.s.d(3) == 0: k = p.uid(); p.emit(c, '%s al%d%s;' % (al.split('(')[0], k, '(' + al.split('(')[1] if al[-2] != '(' else '')); alx = 'al%d' % k
        pre = al and p.s.d(4) == 0
        if start:
            t.start_from = c
            tx = 'START(%s)' % ex if not al else 'startpre(%s, %s)' % (alx, ex) if pre else 'START(std::allocator_arg, %s, %s)' % (alx, ex)
            p.wait(c, tx); p.arrive(t, c)
        else:
            tx = 'H(%s)' % ex if not al else 'makepre(%s, %s)' % (alx, ex) if pre else 'H(std::allocator_arg, %s, %s)' % (alx, ex)
            g = p.s.of(p.free_g()); p.emit(c, '%s = %s;' % (g, tx)); p.set(g, t); p.emit(c, 'lg("nw", bool(%s));' % g); p.lg('nw', 1)
    def src(p, c, loc): return p.s.of(['std::move(%s)', 'static_cast<H &&>(%s)', 'LVALUE(%s)']) % loc
    def op_resume(p):
        c = p.cur; l = p.live(c)
        if not l: return False
        x = p.s.of(l); t = p.val[x]; p.set(x, None); p.stats['resumed'] += 1
        p.wait(c, p.src(c, x) + '.resume()'); p.arrive(t, c)
    def op_with(p):
        c = p.cur; l = p.live(c)
        if not l: return False
        x = p.s.of(l); t = p.val[x]; fresh = t.st == 'fresh'; p.set(x, None); p.stats['with'] += 1
        # reserve the destination of the resumer first
        mark = len(c.body); p.wait(c, '@@'); r, body = p.ontop(fresh)
        if r['eff'] == 'other':
            cand = [g for g in r['cands'] if p.val[g] is not None and g != r['slot']]
            if cand: r['src'] = p.s.of(cand); body += ' return std::move(%s);' % r['src']
            else: r['eff'] = 'stash'; body += ' return H();'
        if fresh: p.stats['with_fresh'] += 1
        d, ex = p.ontop_form(r, body)
        w = c.wait; c.body[w] = c.body[w].replace('@@', p.src(c, x) + '.resume_with(' + ex + ')')
        if d: c.body.insert(w, d); c.wait = w + 1
        p.lg('ot%d_' % r['k'], 1)
        if r['eff'] == 'ret': p.arrive(t, c)
        elif r['eff'] == 'stash': p.set(r['slot'], c); p.arrive(t, None)
        elif r['eff'] == 'throw': p.set(r['slot'], c); p.arrive_exc(t, r['k'])
        else:
            o = p.val[r['src']]; p.set(r['src'], None); p.set(r['slot'], c); p.arrive(t, o)
    def op_destroy(p):
        c = p.cur; l = [x for x in p.live(c) if p.val[x].st in ('susp', 'fresh') and not p.has_main(p.val[x])]
        if not l: return False
        x = p.s.of(l); t = p.val[x]; f = p.s.d(4)
        l2 = [y for y in p.live(c) if y != x]
        if f == 3 and l2:
            y = p.s.of(l2)
            if p.val[y] is p.main and x not in p.gs: return False
            p.emit(c, '%s = std::move(%s);' % (x, y)); u = p.val[y]; p.set(x, u); p.set(y, None); p.kill(t)
        else:
            p.emit(c, ['%s = H();', '{ H tmp(std::move(%s)); (void)tmp; }', '{ H tmp; tmp.swap(%s); }', '%s = H{};'][f] % x); p.set(x, None); p.kill(t)
        p.emit(c, 'lg("ds%d_", bool(%s));' % (c.i, x)); p.lg('ds%d_' % c.i, int(p.val[x] is not None))
    def mv(p, y, x):
        return p.s.of(['{y} = std::move({x});', '{y} = pass(std::move({x}));', '{{ std::vector<H> vv; vv.push_back(std::move({x})); vv.insert(vv.begin(), H()); vv.emplace_back(); {y} = std::move(vv[1]); }}', '{{ Holder o; o.h = std::move({x}); Holder o2(std::move(o)); {y} = o2.take(); }}',
                '{{ std::unique_ptr<H> u(new H(std::move({x}))); {y} = std::move(*u); }}', '{{ std::pair<int, H> q(1, std::move({x})); std::swap(q.second, {y}); }}']).format(x=x, y=y)
    def op_handle(p):
        c = p.cur; r = [x for x in p.reach(c) if x not in p.reserved()]; l = [x for x in p.live(c)]
        f = p.s.d(6); p.stats['handle'] += 1
        loc = [x for x in r if x not in p.gs]
        if f == 0 and l:
            x = p.s.of(l); k = 'm%d' % p.uid()
            if p.val[x] is p.main: return False
            p.emit(c, 'H %s(std::move(%s));' % (k, x)); p.val[k] = p.val[x]; p.set(x, None); c.scopes[-1]['items'].append(('h', k)); p.emit(c, 'lg("mv", bool(%s) * 2 + bool(%s));' % (x, k)); p.lg('mv', 1)
        elif f == 1 and l:
            x = p.s.of(l); y = p.s.of(p.free_g()); p.emit(c, p.mv(y, x)); p.set(y, p.val[x]); p.set(x, None); p.emit(c, 'lg("ma", bool(%s) * 2 + !%s);' % (x, y)); p.lg('ma', 0)
        elif f in (2, 3) and l:
            x = p.s.of(l); y = p.s.of(r)
            if y in loc and p.val[x] is p.main or x in loc and p.val[y] is p.main: return False
            p.emit(c, ['%s.swap(%s);', 'using std::swap; swap(%s, %s);'][f - 2] % (x, y)); a, b = p.val[x], p.val[y]; p.set(x, b); p.set(y, a)
            p.emit(c, 'lg("sw", bool(%s) * 2 + bool(%s));' % (x, y)); p.lg('sw', (p.val[x] is not None) * 2 + (p.val[y] is not None))
        elif f == 4: x = p.s.of(r); p.emit(c, 'lg("sh", shown(%s));' % x); p.lg('sh', int(p.val[x] is None))
        else: x = p.s.of(r); p.emit(c, 'if (%s) lg("b", 1); else lg("b", 0);' % x); p.lg('b', int(p.val[x] is not None))
    def op_open(p):
        c = p.cur; f = p.s.d(6); k = p.uid()
        kind = ['block', 'block', 'block', 'nest', 'try', 'tryall'][f]
        p.emit(c, {'block': '{', 'nest': 'nest(%d, [&] {' % p.s.d(6), 'try': 'try {', 'tryall': 'try {'}[kind]); c.scopes.append(dict(kind=kind, items=[], id=k))
        if p.s.d(4): g = p.uid(); p.emit(c, 'G g%d(%d);' % (g, g)); p.lg('+', g); c.scopes[-1]['items'].append(('g', g))
    def op_close(p):
        c = p.cur
        if len(c.scopes) < 2: return False
        for x in c.scopes[-1]['items']:
            if x[0] == 'h' and p.val[x[1]] is not None and p.has_main(p.val[x[1]]): return False
        p.close(c)
    def op_calc(p):
        c = p.cur; k = 1 + p.s.d(50)
        c.v = (c.v * 3 + k) % 10007; p.emit(c, 'v = (v * 3 + %d) %% 10007; lg("v%d_", v);' % (k, c.i)); p.lg('v%d_' % c.i, c.v)
    def op_throw(p):
        c = p.cur; k = p.uid(); p.emit(c, 'try { G gt(%d); throw E(%d); } catch (E const & e) { lg("t", e.k); }' % (k, k)); p.lg('+', k); p.lg('-', k); p.lg('t', k)
    def ret(p, c, x):
        t = p.val[x]; p.set(x, None); p.stats['returned'] += 1
        if t.st == 'fresh': p.stats['return_fresh'] += 1
        # moved into the return value, then everything left is destroyed
        k = p.uid(); p.emit(c, 'lg("rt", %d); return std::move(%s);' % (c.i, x)); p.lg('rt', c.i)
        while c.scopes: p.pop(c, False)
        c.st = 'done'; p.arrive(t, None)
    def op_return(p):
        c = p.cur
        if c is p.main or any(s['kind'] != 'fn' and s['kind'] == 'nest' for s in c.scopes): return False
        # blocks are left by the return statement itself, so their text is closed afterwards
        l = p.live(c)
        l = [x for x in l if x]
        if not l: return False
        for s in c.scopes:
            for x in s['items']:
                if x[0] == 'h' and p.val[x[1]] is not None and p.has_main(p.val[x[1]]): return False
        x = p.s.of(l)
        cl = p.closers(c)
        p.ret(c, x)
        c.body += cl
    def mainloc(p):
        for g in p.gs:
            if p.val[g] is p.main: return g
    def gen(p):
        s = p.s; n = 2 + s.d(90)
        W = [('new', 5), ('resume', 7), ('with', 6), ('destroy', 3), ('handle', 4), ('open', 4), ('close', 3), ('calc', 3), ('throw', 1), ('return', 3)] + ([('fresh', 4)] if p.fonly else [])
        tot = sum(w for _, w in W)
        for _ in range(n):
            if len(p.free_g()) < 8: break
            r = s.d(tot)
            for nm, w in W:
                r -= w
                if r < 0: break
            if nm in ('new', 'fresh') and (sum(c.st not in ('done',) for c in p.cs) > 8 or len(p.cs) > 14): continue
            if nm == 'fresh': p.op_new(False)
            else: getattr(p, 'op_' + nm)()
        # drain
        guard = 0
        while p.cur is not p.main:
            guard += 1
            c = p.cur; x = p.mainloc()
            if s.d(2) and not any(sc['kind'] == 'nest' for sc in c.scopes):
                cl = p.closers(c); p.ret(c, x); c.body += cl
            else: p.set(x, None); p.wait(c, 'std::move(%s).resume()' % x); p.arrive(p.main, c)
        m = p.main
        while len(m.scopes) > 1: p.close(m)
        p.emit(m, 'lg("drain", 0);'); p.lg('drain', 0)
        p.emit(m, 'for (int i = 0; i < %d; ++i) if (s[i]) s[i] = H();' % NS)
        for g in p.gs:
            if p.val[g] is not None: t = p.val[g]; p.set(g, None); p.kill(t)
        # locals of main go out of scope
        p.pop(m, False)
        p.emit(m, '')
    def text(p, idx):
        t = ['namespace N%d {' % idx, 'static H s[%d];' % NS]
        fw = [c.sig + ';' for c in p.cs[1:]]
        t += fw + p.top
        for c in p.cs[1:]:
            b = list(c.body)
            t.append(c.sig + ' {'); t += ['  ' + x for x in b + getattr(c, 'tail', []) if x]; t.append('  return H();'); t.append('}')
        t.append('static void run() { int v = 0; (void)v;'); t += ['  ' + x for x in p.main.body if x]; t.append('}')
        t.append('static char const * const want = "%s";' % ''.join(p.tr)); t.append('}')
        return '\n'.join(t)

# (compiler, standard, optimisation, implementation, interface, further flags)
CFG = [('g++', '17', '-O1', 'f', 'fiber', ''), ('g++', '11', '-O0', 'f', 'fiber', ''), ('g++', '14', '-O2', 'f', 'callcc', '-DNDEBUG'), ('g++', '20', '-O3', 'f', 'fiber', '-DNDEBUG'), ('g++', '17', '-Os', 'f', 'callcc', '-D_GLIBCXX_ASSERTIONS'),
       ('clang++', '11', '-O2', 'f', 'callcc', ''), ('clang++', '14', '-O0', 'f', 'fiber', '-DNDEBUG'), ('clang++', '17', '-O3', 'f', 'callcc', ''), ('clang++', '20', '-O1', 'f', 'fiber', ''),
       ('g++', '11', '-O2', 'u', 'fiber', ''), ('g++', '14', '-O0', 'u', 'fiber', '-DNDEBUG'), ('g++', '17', '-O3', 'u', 'callcc', ''), ('g++', '20', '-O1', 'u', 'callcc', '-DNDEBUG'), ('g++', '11', '-O1', 'u', 'callcc', '-D_GLIBCXX_ASSERTIONS'),
       ('clang++', '11', '-O3', 'u', 'callcc', '-DNDEBUG'), ('clang++', '14', '-O2', 'u', 'fiber', ''), ('clang++', '17', '-O0', 'u', 'callcc', ''), ('clang++', '20', '-O2', 'u', 'fiber', '-DNDEBUG'), ('g++', '14', '-O3', 'f', 'callcc', '-fno-plt'),
       ('g++', '11', '-O1', 's', 'fiber', ''), ('g++', '17', '-O2', 's', 'callcc', ''), ('g++', '20', '-O0', 's', 'fiber', '-DNDEBUG'), ('g++', '14', '-O3', 's', 'callcc', ''), ('clang++', '14', '-Os', 'u', 'callcc', '')]
WINCFG = [('g++', '17', '-O1', 'w', 'fiber', ''), ('g++', '11', '-O2', 'w', 'callcc', ''), ('g++', '14', '-O0', 'w', 'fiber', '-D_WIN32_WINNT=0x0600'), ('g++', '20', '-O3', 'w', 'callcc', '-DNDEBUG'),
          ('clang++', '11', '-O1', 'w', 'fiber', '-DNDEBUG'), ('clang++', '17', '-O2', 'w', 'callcc', '-D_WIN32_WINNT=0x0501'), ('clang++', '20', '-O0', 'w', 'fiber', ''), ('g++', '11', '-Os', 'w', 'fiber', '-D_GLIBCXX_ASSERTIONS')]
ENV = dict(os.environ, LC_ALL='C')
def flags(cfg):
    cxx, std, opt, impl, api, more = cfg
    f = [cxx, '-std=c++' + std, opt, '-w', '-pthread', '-DBOOST_CONTEXT_NO_LIB=', '-DBOOST_CONTEXT_STATIC_LINK=', '-DBOOST_CONTEXT_EXPORT=', '-DBOOST_ALL_NO_LIB=', '-I' + REPO + '/include'] + more.split()
    if impl in 'us': f.append('-DBOOST_USE_UCONTEXT=')
    if impl == 's': f += ['-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack', '-fcf-protection=none']
    if impl == 'w': f += ['-DBOOST_USE_WINFIB=', '-I' + os.path.join(HDIR, 'win')]
    if api == 'callcc': f.append('-DCALLCC')
    return f
def run(cmd, timeout=120, cwd=None):
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
    return r.returncode, r.stdout
LIBS = {}
HDIR = os.environ.get('VERIF_HERE', HERE)
while not os.path.exists(os.path.join(HDIR, 'jobs.py')) and HDIR != '/': HDIR = os.path.dirname(HDIR)
HDIR = os.path.join(HDIR, 'h')
def build_lib(cfg, d):
    sys.path.insert(0, os.path.dirname(HDIR)); sys.dont_write_bytecode = True
    import jobs
    od = os.path.join(d, 'lib%d' % CFG.index(cfg)); os.makedirs(od, exist_ok=True); objs = []
    srcs = [x for x in jobs.lib_sources(REPO, cfg[3]) if not x.endswith('.h')]
    if cfg[3] == 'w': srcs.append(os.path.join(HDIR, 'winmock.cpp'))
    for x in srcs:
        o = os.path.join(od, os.path.basename(x) + '.o')
        rc, out = run(flags(cfg) + ['-c', x, '-o', o])
        if rc: return None, out
        objs.append(o)
    return objs, ''
def unit(ps):
    t = [PRELUDE]
    for i, p in ps: t.append(p.text(i))
    t.append("""
static int one(int id, void (*f)(), char const * want) {
    fflush(stdout); int pf[2]; if (pipe(pf)) abort(); pid_t c = fork();
    if (!c) { alarm(20); close(pf[0]); f(); size_t n = 0; while (n < tr.size()) { ssize_t w = write(pf[1], tr.data() + n, tr.size() - n); if (w <= 0) break; n += size_t(w); } _exit(0); }
    close(pf[1]); std::string got; char b[4096]; ssize_t r; while ((r = read(pf[0], b, sizeof b)) > 0) got.append(b, size_t(r)); close(pf[0]);
    int st = 0; waitpid(c, &st, 0);
    if (st) { printf("FAIL %d %s %d\\n", id, WIFSIGNALED(st) ? "killed by signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); return 1; }
    if (got != want) { size_t k = 0; while (k < got.size() && want[k] == got[k]) ++k; size_t q = k > 60 ? k - 60 : 0; printf("FAIL %d the trace differs: got \\"...%s\\", expected \\"...%s\\"\\n", id, got.substr(q, 120).c_str(), std::string(want).substr(q, 120).c_str()); return 1; }
    return 0;
}
int main() { int bad = 0;""")
    for i, p in ps: t.append('bad += one(%d, N%d::run, N%d::want);' % (i, i, i))
    t.append('printf("DONE %d\\n", bad); return bad ? 1 : 0; }')
    return '\n'.join(t)
def compile_run(ps, cfg, d, tag):
    """ps: (index, program); returns ('ok'|'compile'|'run', output)"""
    src = os.path.join(d, tag + '.cpp'); exe = os.path.join(d, tag)
    open(src, 'w').write(unit(ps))
    if cfg not in LIBS: LIBS[cfg] = build_lib(cfg, d)
    objs, out = LIBS[cfg]
    if objs is None: return 'compile', out[-3000:]
    rc, out = run(flags(cfg) + [src] + objs + ['-o', exe] + (['-static', '-fuse-ld=gold'] if cfg[3] == 's' else []))
    if rc: return 'compile', '\n'.join(x for x in out.splitlines() if 'error' in x)[:3000] or out[-2000:]
    rc, out = run([exe], 300)
    for f in (exe, src):
        try: os.unlink(f)
        except OSError: pass
    return ('ok' if rc == 0 and 'DONE 0' in out else 'run'), out[-4000:]
def usable(p, cfg): return not (p.fonly and cfg[4] == 'callcc')
def judge(ch, cfg, d, tag):
    p = Prog(ch, None); 
    if not usable(p, cfg): return None, p
    k, out = compile_run([(0, p)], cfg, d, tag)
    if k == 'ok': return None, p
    if k == 'compile': return 'a program written against the documented interface does not compile or link: ' + re.sub(r'\s+', ' ', out)[:400], p
    m = re.search(r'FAIL \d+ (.*)', out)
    return (m.group(1) if m else 'the program ends abnormally: ' + out[-200:]), p
def main():
    ap = argparse.ArgumentParser()
    for a, t, dflt in (('--cases', int, 1000), ('--seed', int, 1), ('--workers', int, 8), ('--max-wall', float, 240), ('--out', str, ''), ('--fail-out', str, ''), ('--tmp', str, '.'), ('--replay', str, ''), ('--show', int, -1), ('--per', int, 10), ('--k', int, 6)):
        ap.add_argument(a, type=t, default=dflt)
    ap.add_argument('--win', action='store_true')
    o = ap.parse_args()
    if o.win: CFG[:] = WINCFG
    if o.show >= 0:
        p = Prog(None, random.Random('%d/%d' % (o.seed, o.show))); print(PRELUDE + p.text(0)); return 0
    d = os.path.abspath(os.path.join(o.tmp, 'gp%d' % os.getpid())); os.makedirs(d)
    try: return go(o, d)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
def go(o, d):
    t0 = time.time()
    if o.replay:
        txt = open(o.replay, errors='replace').read()
        ch = [int(x) for x in re.search(r'^choices:(.*)$', txt, re.M).group(1).split()]
        cfg = CFG[int(re.search(r'^config: (\d+)', txt, re.M).group(1))]
        res, p = judge(ch, cfg, d, 'rp'); print(p.text(0)); print('config', cfg)
        print('RESULT ' + ('pass' if res is None else 'FAIL ' + res)); return 0 if res is None else 1
    st = dict(evals=0, progs=0, nt=0, distinct=set(), viol=None, samples=[], kinds=collections.Counter(), cfg=collections.Counter(), cut=0)
    with cf.ThreadPoolExecutor(o.workers) as ex:
        for cfg, r in zip(CFG, ex.map(lambda c: build_lib(c, d), CFG)): LIBS[cfg] = r
    nu = (o.cases + o.per * o.k - 1) // (o.per * o.k)
    def one(u):
        if st['viol']: return
        if time.time() - t0 > o.max_wall: st['cut'] = 1; return
        rng = random.Random('%d/%d' % (o.seed, u)); ps = [Prog(None, rng) for _ in range(o.per)]
        start = rng.randrange(len(CFG)); step = rng.choice([5, 7, 11, 13])
        for j in range(o.k):
            if st['viol'] or time.time() - t0 > o.max_wall: break
            cfg = CFG[(start + j * step) % len(CFG)]; sub = [(i, p) for i, p in enumerate(ps) if usable(p, cfg)]
            if not sub: continue
            k, out = compile_run(sub, cfg, d, 'u%d' % u)
            st['evals'] += len(sub); st['cfg']['%s c++%s %s %s %s' % cfg[:5]] += len(sub)
            if k == 'ok': continue
            idx = [int(x) for x in re.findall(r'FAIL (\d+)', out)] if k == 'run' else [i for i, _ in sub]
            hit = False
            for i in idx:
                if st['viol']: break
                res, p = judge(ps[i].s.rec, cfg, d, 'u%d_%d' % (u, i))
                if res: st['viol'] = (res, ps[i].s.rec, cfg); hit = True
            if not hit and not st['viol']: st['viol'] = None; st['unrep'] = st.get('unrep', 0) + 1; st['unrepmsg'] = out[-400:]
        for p in ps:
            st['progs'] += 1; nt = len(p.tr) > 25 and p.stats['created'] >= 2 and p.stats['resumed'] + p.stats['with'] >= 3
            st['nt'] += nt
            if nt: st['distinct'].add(hashlib.sha1(p.text(0).encode()).digest())
            for a, b in p.stats.items(): st['kinds'][a] += b
            if len(st['samples']) < 2 and nt: st['samples'].append(p.text(0)[:3000])
    with cf.ThreadPoolExecutor(o.workers) as ex: list(ex.map(one, range(nu)))
    ev = 0; res = ''
    if st['viol']:
        res, ch, cfg = st['viol']; t1 = time.time(); first = res; cand = True
        with cf.ThreadPoolExecutor(o.workers) as ex:
            while cand and time.time() - t1 < 80:
                cand = False; alts = []
                n = max(1, len(ch) // 2)
                while n >= 1:
                    for i in range(0, len(ch), n): alts.append(ch[:i] + ch[i + n:])
                    n //= 2
                for i in range(len(ch)):
                    if ch[i]: alts.append(ch[:i] + [0] + ch[i + 1:])
                def ok(c):
                    try: q = Prog(c, None)
                    except Exception: return None
                    return q.s.rec
                seen = set(); al2 = []
                for a in alts:
                    a = ok(a)
                    if a is None: continue
                    while a and a[-1] == 0: a = a[:-1]
                    if tuple(a) not in seen and (len(a), sum(a)) < (len(ch), sum(ch)): seen.add(tuple(a)); al2.append(a)
                for k in range(0, len(al2), o.workers):
                    if time.time() - t1 > 80: break
                    rs = list(ex.map(lambda z: judge(z[1], cfg, d, 's%d' % z[0]), enumerate(al2[k:k + o.workers]))); ev += len(rs)
                    hit = [a for a, r in zip(al2[k:], rs) if r[0]]
                    if hit: ch = min(hit, key=lambda a: (len(a), sum(a))); cand = True; break
        r2, p = judge(ch, cfg, d, 'fin')
        if r2: res = r2
        res += ' [%s -std=c++%s %s %s %s %s]' % cfg
        if o.fail_out: open(o.fail_out, 'w').write('harness: genprog\nargs:%s\nmessage: %s\nconfig: %d %s\nchoices: %s\nprogram:\n%s\n' % (' --win' if o.win else '', res, CFG.index(cfg), cfg, ' '.join(map(str, ch)), p.text(0)))
    unrep = st.get('unrep', 0); herr = unrep if unrep > 3 else 0
    kinds = dict(st['kinds']); kinds.update(('config ' + a, b) for a, b in st['cfg'].items())
    out = dict(harness='genprog', cases=st['evals'], nontrivial=st['nt'], distinct_nontrivial=len(st['distinct']), steps=st['progs'], wall=round(time.time() - t0, 2), cut=st['cut'], harness_errors=herr, harness_error_msg=st.get('unrepmsg', '') if herr else '', unreproduced=unrep, unreproduced_msg=st.get('unrepmsg', ''),
               failed=1 if st['viol'] else 0, message=res, first_message='', shrink_evals=ev, rule='a case is one generated program run in one configuration; a program is non-trivial with >=2 created contexts, >=3 resumptions and a trace of >25 events; distinct by program text', labels=kinds, samples=st['samples'])
    s = json.dumps(out); print(s)
    if o.out: open(o.out, 'w').write(s)
    return 1 if st['viol'] else 2 if herr else 0
if __name__ == '__main__': sys.exit(main())
