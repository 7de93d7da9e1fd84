// C10: function objects and allocators are forwarded, kept and destroyed faithfully.
// Instrumented function objects and allocators of every copy/move flavour are passed in every value category; a
// registry of all live instances (address -> identity) is the reference model.
#include "pbt.hpp"
#ifdef BOOST_USE_WINFIB
#include "winmock.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <functional>
#include <memory>
#include <map>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
enum { CC = 1 };
#else
typedef ctx::fiber H;
enum { CC = 0 };
#endif
#define NI __attribute__((noinline))
enum { NC = 6, STK = 48 * 1024, MAXOBJ = 4096 };
PBT_LABEL(l_rv, "function objects from rvalues"); PBT_LABEL(l_lv, "function objects from lvalues"); PBT_LABEL(l_clv, "function objects from const lvalues"); PBT_LABEL(l_crv, "function objects from const rvalues");
PBT_LABEL(a_rv, "allocators from rvalues"); PBT_LABEL(a_lv, "allocators from lvalues"); PBT_LABEL(a_clv, "allocators from const lvalues");
PBT_LABEL(l_never, "ended without being started"); PBT_LABEL(l_unw, "unwound"); PBT_LABEL(l_fin, "finished"); PBT_LABEL(l_pre, "preallocated"); PBT_LABEL(l_def, "default allocator"); PBT_LABEL(l_nest, "operations made by a context"); PBT_LABEL(l_ot, "on-top function objects");
PBT_LABEL(l_mo, "move-only function objects"); PBT_LABEL(l_co, "copy-only function objects"); PBT_LABEL(l_plain, "function pointers, std::function, bind, lambdas");

struct Obj { void const * at; int kind, id; long val; };       // kind 1 function object, 2 allocator, 3 on-top function, 4 captured
static Obj objs[MAXOBJ]; static int nobj;
static Obj * find(void const * p, int kind) { for (int i = 0; i < nobj; ++i) if (objs[i].at == p && objs[i].kind == kind) return &objs[i]; return nullptr; }
static char const * const KN[] = { "", "function object", "allocator", "on-top function object", "captured object" };
static void born(void const * p, int kind, int id, long val) {
    if (find(p, kind)) pbt::fail("a %s was constructed over a live one", KN[kind]);
    if (nobj == MAXOBJ) pbt::harness_error("too many objects");
    objs[nobj++] = Obj{ p, kind, id, val };
}
static void died(void const * p, int kind, int id) {
    Obj * o = find(p, kind);
    if (!o) pbt::fail("a %s (of context %d) was destroyed twice or never constructed", KN[kind], id);
    *o = objs[--nobj];
}
static int live(int kind, int id) { int n = 0; for (int i = 0; i < nobj; ++i) n += objs[i].kind == kind && objs[i].id == id; return n; }
static int cnt_copy[5], cnt_move[5];                           // since the last reset

struct Cx { bool used; H h; int id; char * mem; ctx::stack_context sc; bool own; int allocs, deallocs, started, falls; bool stop, thrown; void const * self; long val; int orig_f, orig_a, uniq; int steps; bool isdef, standin, plain; };
static Cx C[NC]; static pbt::Src * S; static int serial, depth_;
static Cx & of(int uniq) { for (auto & c : C) if (c.uniq == uniq) return c; pbt::fail("an object belongs to no context"); }
static bool inside(Cx const & c, void const * p) { char const * q = static_cast<char const *>(p); return c.mem && q >= c.mem && q < c.mem + STK; }

// ---- tracked base: identity and value travel with copies and moves
template<int KIND> struct Tr {
    int id; long val; long volatile chk;
    Tr(int i, long v) : id(i), val(v), chk(~v) { born(this, KIND, i, v); }
    Tr(Tr const & o) noexcept : id(o.id), val(o.val), chk(~o.val) { o.look("copied from"); ++cnt_copy[KIND]; born(this, KIND, id, val); }
    Tr(Tr && o) noexcept : id(o.id), val(o.val), chk(~o.val) { o.look("moved from"); ++cnt_move[KIND]; born(this, KIND, id, val); o.val = -1; o.chk = ~-1L; }
    ~Tr() { look("destroyed"); died(this, KIND, id); chk = 0; }
    void look(char const * w) const {
        if (!find(this, KIND)) pbt::fail("a dead %s was %s", KN[KIND], w);
        if (chk != ~val) pbt::fail("a %s was overwritten before it was %s", KN[KIND], w);
    }
};
static NI H body(int uniq, H && m, void const * self, long val);
struct BF : Tr<1> { BF(int i, long v) : Tr<1>(i, v) {} BF(BF const &) = default; BF(BF &&) = default; H go(H && m) { look("called"); return body(id, std::move(m), this, val); } };
struct FCopy : BF { using BF::BF; FCopy(FCopy const &) = default; FCopy(FCopy &&) = default; H operator()(H && m) { return go(std::move(m)); } };
struct FMove : BF { using BF::BF; FMove(FMove &&) = default; FMove(FMove const &) = delete; H operator()(H && m) { return go(std::move(m)); } };
struct FCopyOnly : BF { using BF::BF; FCopyOnly(FCopyOnly const & o) noexcept : BF(static_cast<BF const &>(o)) {} H operator()(H && m) { return go(std::move(m)); } };
struct FOver : BF { using BF::BF; FOver(FOver const &) = default; FOver(FOver &&) = default; H operator()(H && m) & { return go(std::move(m)); }
    H operator()(H && m) const & { pbt::fail("the const call operator was used"); return std::move(m); } H operator()(H && m) && { pbt::fail("the rvalue call operator was used"); return std::move(m); } };
struct FByVal : BF { using BF::BF; FByVal(FByVal const &) = default; FByVal(FByVal &&) = default; char pad[333]; H operator()(H m) { return go(std::move(m)); } };
struct FConst : BF { using BF::BF; FConst(FConst const &) = default; FConst(FConst &&) = default; H operator()(H && m) const { return const_cast<FConst *>(this)->go(std::move(m)); } };
struct FRet : BF { using BF::BF; H keep; FRet(FRet &&) = default; H && operator()(H && m) { keep = go(std::move(m)); return std::move(keep); } };
struct FHold : BF { using BF::BF; H keep; FHold(FHold &&) = default; H operator()(H && m) { return go(std::move(m)); } };

// ---- allocators
struct Ab : Tr<2> {
    typedef ctx::stack_traits traits_type;
    Ab(int i, long v) : Tr<2>(i, v) {} Ab(Ab const &) = default; Ab(Ab &&) = default;
    ctx::stack_context get() {
        look("asked for a stack"); Cx & c = of(id);
        if (val != 1000 + id) pbt::fail("a moved-from allocator was asked for a stack");
        if (c.allocs++) pbt::fail("a second stack was allocated for one context");
        return c.sc;
    }
    void put(ctx::stack_context & s) {
        look("given a stack back"); Cx & c = of(id);
        if (val != 1000 + id) pbt::fail("the stack was given back to a moved-from allocator");
        if (s.sp != c.sc.sp || s.size != c.sc.size) pbt::fail("the allocator got back another stack than it supplied");
        if (c.deallocs++) pbt::fail("a stack was given back twice");
        char volatile here; if (inside(c, const_cast<char const *>(&here)) || inside(c, this)) pbt::fail("the stack was released while it (or the allocator on it) was in use");
        if (live(1, id) != c.orig_f + c.standin) pbt::fail("the stack was given back while the function object still lives");
        memset(c.mem, 0xdd, STK);
    }
};
struct ACopy : Ab { using Ab::Ab; ACopy(ACopy const &) = default; ACopy(ACopy &&) = default; ctx::stack_context allocate() { return get(); } void deallocate(ctx::stack_context & s) noexcept { put(s); } };
struct AMove : Ab { using Ab::Ab; AMove(AMove &&) = default; ctx::stack_context allocate() { return get(); } void deallocate(ctx::stack_context & s) noexcept { put(s); } };
struct ACopyOnly : Ab { using Ab::Ab; ACopyOnly(ACopyOnly const & o) noexcept : Ab(static_cast<Ab const &>(o)) {} ctx::stack_context allocate() { return get(); } void deallocate(ctx::stack_context & s) noexcept { put(s); } };
struct AConst : Ab { using Ab::Ab; AConst(AConst const &) = default; AConst(AConst &&) = default; ctx::stack_context allocate() const { return const_cast<AConst *>(this)->get(); } void deallocate(ctx::stack_context & s) const noexcept { const_cast<AConst *>(this)->put(s); } };
// non-tracked library allocators are decorated to observe them
template<class Lib> struct ALib : Ab {
    Lib lib; ALib(int i, long v) : Ab(i, v), lib(STK) {} ALib(ALib const &) = default; ALib(ALib &&) = default;
    ctx::stack_context allocate() { Cx & c = of(id); c.sc = lib.allocate(); c.mem = nullptr; return get(); }
    void deallocate(ctx::stack_context & s) noexcept { look("given a stack back"); Cx & c = of(id); if (s.sp != c.sc.sp || s.size != c.sc.size) pbt::fail("the allocator got back another stack than it supplied"); if (c.deallocs++) pbt::fail("a stack was given back twice"); if (live(1, id) != c.orig_f + c.standin) pbt::fail("the stack was given back while the function object still lives"); lib.deallocate(s); }
};

static void controls(int budget);
struct Loc { int uniq; explicit Loc(int u) : uniq(u) {} ~Loc() { Cx & c = of(uniq); --c.falls; if (live(1, uniq) < 1 + c.orig_f) pbt::fail("the function object of a context died before the objects on its stack"); } };
static NI H body(int uniq, H && m, void const * self, long val) {
    Cx & c = of(uniq);
    if (c.started++) pbt::fail("the function of a context ran twice");
    if (val != c.val) pbt::fail("the function object runs with state %ld instead of %ld", val, c.val);
    if (c.mem && !c.plain && !inside(c, self)) pbt::fail("the function object that runs is not the one kept on the context's stack");
    c.self = self; if (!m) pbt::fail("the entry function got an invalid handle");
    ++c.falls; Loc l(uniq);
    if (live(1, uniq) != 1 + c.orig_f) pbt::fail("%d instances of the function object live while its context runs, expected %d", live(1, uniq), 1 + c.orig_f);
    while (!c.stop) {
        ++c.steps;
        m = std::move(m).resume();
        if (!m) pbt::fail("a context got an invalid handle");
        if (depth_ < 3 && S->draw(4) == 3) { pbt::hit(l_nest); controls(1 + int(S->draw(2))); }
    }
    return std::move(m);
}
static void check_live(Cx & c, char const * when) {
    int f = live(1, c.uniq), a = live(2, c.uniq);
    if (f != 1 + c.orig_f) pbt::fail("%s: a context keeps %d function objects", when, f - c.orig_f);
    if (!c.isdef && a != 1 + c.orig_a) pbt::fail("%s: a context keeps %d allocators", when, a - c.orig_a);
    if (c.deallocs) pbt::fail("%s: the stack of a live context was given back", when);
    if (!c.isdef && c.allocs != 1) pbt::fail("%s: %d stacks were allocated", when, c.allocs);
}
static void check_dead(Cx & c, char const * when) {
    int f = live(1, c.uniq), a = live(2, c.uniq);
    if (f != c.orig_f) pbt::fail("%s: %d function objects of the ended context still live", when, f - c.orig_f);
    if (a != c.orig_a) pbt::fail("%s: %d allocators of the ended context still live", when, a - c.orig_a);
    if (!c.isdef && c.deallocs != 1) pbt::fail("%s: the stack was given back %d times", when, c.deallocs);
    if (c.falls) pbt::fail("%s: locals of the ended context still live", when);
    c.used = false;
}
#ifdef M_CALLCC
template<class F> static H mk0(F && f) { return ctx::callcc(std::forward<F>(f)); }
template<class A, class F> static H mk1(A && a, F && f) { return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H mk2(ctx::preallocated p, A && a, F && f) { return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#else
template<class F> static H mk0(F && f) { return H(std::forward<F>(f)); }
template<class A, class F> static H mk1(A && a, F && f) { return H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H mk2(ctx::preallocated p, A && a, F && f) { return H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#endif
// how: 0 default allocator, 1 allocator, 2 preallocated
template<class A, class F> static void launch(Cx & c, int how, A && a, F && f) {
    H h;
    switch (how) {
    case 1: h = mk1(std::forward<A>(a), std::forward<F>(f)); break;
    default: {
        c.allocs = 1;
        size_t head = S->draw(2) ? S->draw(3000) : 0;
        ctx::preallocated p(static_cast<char *>(c.sc.sp) - head, c.sc.size - head, c.sc);
        h = mk2(p, std::forward<A>(a), std::forward<F>(f));
    }
    }
    c.h = std::move(h);
}
template<class F> static void launch0(Cx & c, F && f) { c.isdef = true; c.mem = nullptr; c.h = mk0(std::forward<F>(f)); }

enum Cat { RV, LV, CLV, CRV };
static char const * const CN[] = { "rvalue", "lvalue", "const lvalue", "const rvalue" };
template<class T> struct isCopyOnly { enum { v = 0 }; }; template<> struct isCopyOnly<FCopyOnly> { enum { v = 1 }; }; template<> struct isCopyOnly<ACopyOnly> { enum { v = 1 }; };
template<class T> static void orig(T const & t, Cat k, long val, char const * what, int kind, int live_before_copies) {
    (void)live_before_copies;
    t.look("looked at afterwards");
    bool moved = k == RV && !isCopyOnly<T>::v;
    if (!moved && t.val != val) pbt::fail("the original %s passed as %s was changed", what, CN[k]);
    if (moved && cnt_copy[kind]) pbt::fail("a %s passed as rvalue was copied", what);
    if (moved && t.val == val) pbt::fail("a %s passed as rvalue was not moved from", what);
    if (!moved && cnt_copy[kind] != 1 && !isCopyOnly<T>::v) pbt::fail("a %s passed as %s was copied %d times", what, CN[k], cnt_copy[kind]);
    if (!moved && !cnt_copy[kind]) pbt::fail("a %s passed as %s was not copied", what, CN[k]);
    if (cnt_move[kind] > 6) pbt::fail("a %s was moved %d times", what, cnt_move[kind]);
}
static void hitcat(Cat k) { pbt::hit(k == RV ? l_rv : k == LV ? l_lv : k == CLV ? l_clv : l_crv); }
static void reset_counts() { memset(cnt_copy, 0, sizeof cnt_copy); memset(cnt_move, 0, sizeof cnt_move); }
// pick the value category of the function object
template<class F, bool COPY = std::is_copy_constructible<F>::value> struct FCat {
    template<class A> static void go(Cx & c, int how, Cat k, A && a, F & f) {
        switch (k) { case RV: launch(c, how, std::forward<A>(a), std::move(f)); break; case LV: launch(c, how, std::forward<A>(a), f); break;
            case CLV: launch(c, how, std::forward<A>(a), static_cast<F const &>(f)); break; case CRV: launch(c, how, std::forward<A>(a), static_cast<F const &&>(f)); break; }
    }
    static void go0(Cx & c, Cat k, F & f) { switch (k) { case RV: launch0(c, std::move(f)); break; case LV: launch0(c, f); break; case CLV: launch0(c, static_cast<F const &>(f)); break; case CRV: launch0(c, static_cast<F const &&>(f)); break; } }
    static Cat cat() { return Cat(S->draw(4)); }
};
template<class F> struct FCat<F, false> {
    template<class A> static void go(Cx & c, int how, Cat, A && a, F & f) { launch(c, how, std::forward<A>(a), std::move(f)); }
    static void go0(Cx & c, Cat, F & f) { launch0(c, std::move(f)); }
    static Cat cat() { pbt::hit(l_mo); return RV; }
};
static Cx & fresh(Cx & c) {
    c.uniq = ++serial; c.id = c.uniq; c.own = true; c.allocs = c.deallocs = c.started = c.falls = c.steps = 0; c.stop = false; c.self = nullptr; c.val = 100000 + c.uniq; c.orig_f = c.orig_a = 0; c.isdef = c.standin = c.plain = false; c.used = true;
    static char * pool[NC]; char *& p = pool[&c - C]; if (!p) p = static_cast<char *>(malloc(STK)); c.mem = p; c.sc = ctx::stack_context(); c.sc.sp = p + STK; c.sc.size = STK;
    c.stop = CC && S->draw(6) == 5;
    reset_counts();
    return c;
}
template<class F> static void cr_fn(Cx & c, int how) {
    fresh(c);
    {
        F f(c.uniq, c.val); c.orig_f = 1; Cat k = FCat<F>::cat(); hitcat(k); if (isCopyOnly<F>::v) pbt::hit(l_co);
        pbt::log("c%d: function object of size %zu as %s, constructor %d\n", int(&c - C), sizeof(F), CN[k], how);
        if (how == 0) { FCat<F>::go0(c, k, f); pbt::hit(l_def); }
        else { if (how == 2) pbt::hit(l_pre); c.orig_a = 0; FCat<F>::go(c, how, k, ACopy(c.uniq, 1000 + c.uniq), f); }
        orig(f, k, c.val, "function object", 1, 1);
    }
    c.orig_f = 0;
}
template<class A> static void pick_a(Cx & c, int how, Cat ka, A & a, FCopy && f, std::true_type) {
    if (ka == LV) launch(c, how, a, std::move(f)); else launch(c, how, std::move(a), std::move(f));
}
template<class A> static void pick_a(Cx & c, int how, Cat, A & a, FCopy && f, std::false_type) { launch(c, how, std::move(a), std::move(f)); }
template<class A> static void cr_al(Cx & c, int how) {
    fresh(c);
    {
        A a(c.uniq, 1000 + c.uniq); c.orig_a = 1; Cat k = std::is_copy_constructible<A>::value && S->draw(2) ? LV : RV; pbt::hit(k == LV ? a_lv : a_rv); if (how == 2) pbt::hit(l_pre);
        pbt::log("c%d: allocator as %s, constructor %d\n", int(&c - C), CN[k], how);
        { c.orig_f = 0; FCopy f(c.uniq, c.val); c.orig_f = 1; reset_counts(); pick_a(c, how, k, a, std::move(f), std::is_copy_constructible<A>()); c.orig_f = 1; }
        c.orig_f = 0;
        orig(a, k, 1000 + c.uniq, "allocator", 2, 1);
    }
    c.orig_a = 0;
}
static void cr_const(Cx & c, int how) {
    fresh(c);
    { AConst const a(c.uniq, 1000 + c.uniq); c.orig_a = 1; pbt::hit(a_clv); { FCopy f(c.uniq, c.val); c.orig_f = 1; reset_counts(); pbt::log("c%d: const allocator, constructor %d\n", int(&c - C), how); launch(c, how, a, f); } c.orig_f = 0; orig(a, CLV, 1000 + c.uniq, "allocator", 2, 1); }
    c.orig_a = 0;
}
// ---- things that are not instrumented function objects themselves
static int fp_uniq; static H fptr(H && m) { int u = fp_uniq; return body(u, std::move(m), nullptr, of(u).val); }
static void cr_plain(Cx & c, int how) {
    fresh(c); pbt::hit(l_plain); c.plain = true; int sel = int(S->draw(6)); c.orig_f = 0;
    pbt::log("c%d: plain callable %d, constructor %d\n", int(&c - C), sel, how);
    ACopy al(c.uniq, 1000 + c.uniq); c.orig_a = 1;
    // body() asserts one live function object: the captured one stands in for it
    switch (sel) {
    case 0: { born(&c, 1, c.uniq, c.val); c.standin = true; int u = c.uniq; auto f = [u](H && m) { return body(u, std::move(m), nullptr, of(u).val); }; if (how) launch(c, how, al, f); else launch0(c, f); break; }
    case 1: { std::shared_ptr<FCopy> p = std::make_shared<FCopy>(c.uniq, c.val); std::weak_ptr<FCopy> w = p; auto f = [p](H && m) { return (*p)(std::move(m)); }; p.reset(); c.orig_f = 0; if (how) launch(c, how, al, std::move(f)); else launch0(c, std::move(f)); if (c.used && w.expired() && !(CC && c.stop)) pbt::fail("an object captured by the function object was destroyed early"); break; }
    case 2: { std::function<H(H &&)> f(FCopy(c.uniq, c.val)); if (how) launch(c, how, al, std::move(f)); else launch0(c, std::move(f)); break; }
    case 3: { std::shared_ptr<FCopy> p = std::make_shared<FCopy>(c.uniq, c.val); auto f = std::bind([](std::shared_ptr<FCopy> const & q, H & m) { H t = std::move(m); return (*q)(std::move(t)); }, std::move(p), std::placeholders::_1);
        struct W { decltype(f) g; H operator()(H && m) { return g(m); } }; W w{ std::move(f) }; if (how) launch(c, how, al, std::move(w)); else launch0(c, std::move(w)); break; }
    case 4: { std::unique_ptr<FCopy> p(new FCopy(c.uniq, c.val)); struct L { std::unique_ptr<FCopy> p; H operator()(H && m) { return (*p)(std::move(m)); } }; L l{ std::move(p) }; if (how) launch(c, how, al, std::move(l)); else launch0(c, std::move(l)); break; }
    default: { born(&c, 1, c.uniq, c.val); c.standin = true; fp_uniq = c.uniq; if (how) { if (S->flip()) launch(c, how, al, &fptr); else launch(c, how, al, fptr); } else { if (S->flip()) launch0(c, &fptr); else launch0(c, fptr); }
        // a plain function reads its identity when it starts: start it now
        if (c.h && !c.started) { c.h = std::move(c.h).resume(); } }
    }
    c.orig_a = 0;
    al.look("looked at afterwards");
    if (al.val != 1000 + c.uniq) pbt::fail("the original allocator passed as lvalue was changed");
}
static void plain_end(Cx & c) { if (c.standin) { died(&c, 1, c.uniq); c.standin = false; } }

typedef void (*Cr)(Cx &, int);
static Cr const crs[] = { cr_fn<FCopy>, cr_fn<FMove>, cr_fn<FCopyOnly>, cr_fn<FOver>, cr_fn<FByVal>, cr_fn<FConst>, cr_fn<FHold>, cr_fn<FRet>, cr_al<ACopy>, cr_al<AMove>, cr_al<ACopyOnly>, cr_al<ALib<ctx::fixedsize_stack>>, cr_al<ALib<ctx::pooled_fixedsize_stack>>, cr_al<ALib<ctx::protected_fixedsize_stack>>, cr_const, cr_plain };
enum { NCR = sizeof crs / sizeof *crs };
static int nend, ncre;
static void settle(Cx & c, char const * when) {
    if (c.h) check_live(c, when);
    else { c.h = H(); plain_end(c); check_dead(c, when); ++nend; }
}
// on-top function objects
struct OT : Tr<3> { OT(int i, long v) : Tr<3>(i, v) {} OT(OT const &) = default; OT(OT &&) = default; };
static int ot_ran, ot_expect;
struct OCopy : OT { using OT::OT; OCopy(OCopy const &) = default; OCopy(OCopy &&) = default; H operator()(H && m) { look("called"); if (id != ot_expect || val != 7000 + id) pbt::fail("another on-top function object ran"); ++ot_ran; return std::move(m); } };
struct OMove : OT { using OT::OT; OMove(OMove &&) = default; H operator()(H && m) { look("called"); if (id != ot_expect || val != 7000 + id) pbt::fail("another on-top function object ran"); ++ot_ran; return std::move(m); } };
#ifdef M_CALLCC
#define OTCALL(...) (lv ? c.h.resume_with(__VA_ARGS__) : std::move(c.h).resume_with(__VA_ARGS__))
#else
#define OTCALL(...) std::move(c.h).resume_with(__VA_ARGS__)
#endif
static void ontop(Cx & c) {
    bool lv = S->flip(); (void)lv;
    pbt::hit(l_ot); int id = ++serial; int before = nobj; (void)before; ot_ran = 0; ot_expect = id; bool st = c.started > 0; int steps = c.steps;
    int k = int(S->draw(4)); reset_counts();
    pbt::log("on-top function object on c%d as %s\n", int(&c - C), k == 3 ? "move-only rvalue" : CN[k]);
    if (k == 3) { OMove f(id, 7000 + id); c.h = OTCALL(std::move(f)); if (f.val == 7000 + id) pbt::fail("an on-top function passed as rvalue was not moved from"); if (cnt_copy[3]) pbt::fail("copied"); }
    else {
        OCopy f(id, 7000 + id);
        if (k == RV) { c.h = OTCALL(std::move(f)); if (cnt_copy[3]) pbt::fail("an on-top function passed as rvalue was copied"); }
        else { if (k == LV) c.h = OTCALL(f); else c.h = OTCALL(static_cast<OCopy const &>(f));
            if (f.val != 7000 + id) pbt::fail("the original on-top function passed as %s was changed", CN[k]); if (cnt_copy[3] != 1) pbt::fail("an on-top function passed as %s was copied %d times", CN[k], cnt_copy[3]); }
    }
    if (ot_ran != 1) pbt::fail("the on-top function ran %d times", ot_ran);
    if (live(3, id)) pbt::fail("%d copies of the on-top function object were not destroyed", live(3, id));
    (void)st; (void)steps;
}
static bool busy[NC];
static void controls(int budget) {
    ++depth_;
    for (int n = 0; n < budget; ++n) {
        int i = int(S->draw(NC)); Cx & c = C[i];
        if (busy[i]) continue;
        busy[i] = true;
        if (!c.used) {
            int t = int(S->draw(NCR)), how = int(S->draw(3));
            if (t >= 8 && t < 15 && how == 0) how = 1;
            if (t >= 11 && t <= 13) how = 1;
            crs[t](c, how); ++ncre;
            settle(c, "after the creation");
        } else switch (S->draw(6)) {
        case 0: pbt::log("finish c%d\n", i); c.stop = true; pbt::hit(l_fin); c.h = std::move(c.h).resume(); if (c.h) pbt::fail("a context that ends is still valid"); settle(c, "after the end"); break;
        case 1: { pbt::log("destroy c%d\n", i); pbt::hit(c.started ? l_unw : l_never); bool ns = !c.started; { H t = std::move(c.h); } if (ns && c.started) pbt::fail("the function of a context destroyed before it was started ran"); settle(c, "after the destruction"); break; }
        case 2: {   // the function object of an on-top call must not run user control operations: nested ones run only in body()
            int d = depth_; depth_ = 9; ontop(c); depth_ = d; settle(c, "after an on-top function"); break; }
        case 3: { H t = std::move(c.h); if (c.h) pbt::fail("moved-from handle is valid"); c.h = std::move(t); settle(c, "after a move of the handle"); break; }
        default: { pbt::log("resume c%d\n", i); int st = c.steps; c.h = std::move(c.h).resume(); if (c.steps != st + 1) pbt::fail("a resumption made %d steps", c.steps - st); settle(c, "after a resumption"); }
        }
        busy[i] = false;
    }
    --depth_;
}
static bool run(pbt::Src & s) {
    S = &s; nobj = 0; serial = 0; depth_ = 0; nend = ncre = 0; memset(busy, 0, sizeof busy);
    for (auto & c : C) { c.used = false; c.uniq = 0; }
    controls(s.range(3, 40));
    depth_ = 9;
    for (int i = 0; i < NC; ++i) if (C[i].used) {
        Cx & c = C[i];
        if (s.flip()) { c.stop = true; c.h = std::move(c.h).resume(); } else { H t = std::move(c.h); }
        settle(c, "at the end");
    }
    if (nobj) pbt::fail("%d objects (first: a %s) leaked", nobj, KN[objs[0].kind]);
    return ncre >= 2 && nend >= 2;
}
static void init(int, char **) {
#ifdef M_CALLCC
    H h = ctx::callcc([](H && m) { m = std::move(m).resume(); return std::move(m); });
#else
    H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume();
#endif
}
static pbt::Harness const harness = { "fwd", run, init, "history over up to 6 contexts with instrumented function objects / allocators of every flavour and value category; non-trivial: >=2 creations and >=2 endings" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
