// C22: histories in which single creations and switches fail (memory, mappings, getcontext, user
// supplied allocators, copies and moves of the callables), checked against a model in which a failed
// operation changes nothing.
//   -DM_CALLCC continuations, -DBOOST_USE_UCONTEXT ucontext, -DBOOST_CONTEXT_USE_MAP_STACK
#include "pbt.hpp"
#ifdef BOOST_USE_WINFIB
#include <ucontext.h>
extern "C" int __real_getcontext(ucontext_t *);
#define WIN_GETCONTEXT __real_getcontext
#include "winmock.hpp"
#endif
#ifdef ST_WIN
#include "winmem.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <cerrno>
#include <memory>
#include <new>
#include <string>
#include <system_error>
#include <vector>
#include <ucontext.h>
#include <sys/mman.h>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
enum { CC = 1 };
#else
typedef ctx::fiber H;
enum { CC = 0 };
#endif
#define NI __attribute__((noinline))

// ---- fault injection ---------------------------------------------------------------------------
enum { F_MALLOC = 1, F_NEW = 2, F_MMAP = 4, F_ALIGN = 8, F_PROTECT = 16, F_GETCTX = 32 };
static volatile int arm_mask, arm_at, fired; static volatile bool tracking;
static volatile long heap_live, map_live; static volatile int get_errno;
static bool hit(int k) {
    if (!(arm_mask & k)) return false;
    if (arm_at-- > 0) return false;
    arm_mask = 0; fired = k; return true;
}
static void arm(int m, int at) { fired = 0; arm_at = at; arm_mask = m; }
static int disarm() { arm_mask = 0; return fired; }
struct Hide { int m; Hide() : m(arm_mask) { arm_mask = 0; } ~Hide() { arm_mask = m; } };
extern "C" void * __real_malloc(size_t); extern "C" void __real_free(void *); extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void * __real_mmap(void *, size_t, int, int, int, off_t); extern "C" int __real_munmap(void *, size_t); extern "C" int __real_mprotect(void *, size_t, int);
extern "C" int __real_getcontext(ucontext_t *);
extern "C" void * __wrap_malloc(size_t n) { if (hit(F_MALLOC)) { errno = ENOMEM; return nullptr; } void * p = __real_malloc(n); if (p && tracking) ++heap_live; return p; }
extern "C" void __wrap_free(void * p) { if (p && tracking) --heap_live; __real_free(p); }
extern "C" int __wrap_posix_memalign(void ** pp, size_t a, size_t n) { if (hit(F_ALIGN)) return ENOMEM; int r = __real_posix_memalign(pp, a, n); if (!r && tracking) ++heap_live; return r; }
extern "C" void * __wrap_mmap(void * a, size_t n, int p, int f, int fd, off_t o) { if (hit(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; } void * r = __real_mmap(a, n, p, f, fd, o); if (r != MAP_FAILED && tracking && !(f & MAP_FIXED)) map_live += long((n + 4095) / 4096); return r; }
extern "C" int __wrap_munmap(void * a, size_t n) { if (tracking) map_live -= long((n + 4095) / 4096); return __real_munmap(a, n); }
extern "C" int __wrap_mprotect(void * a, size_t n, int p) { if (hit(F_PROTECT)) { errno = ENOMEM; return -1; } return __real_mprotect(a, n, p); }
// getcontext() returns twice and saves the return address, thus the wrapper jumps to the real one
extern "C" __attribute__((used)) int hit_getctx() { if (!hit(F_GETCTX)) return 0; errno = get_errno; return 1; }
asm(".text\n.globl __wrap_getcontext\n.type __wrap_getcontext,@function\n__wrap_getcontext:\n pushq %rdi\n call hit_getctx\n popq %rdi\n testl %eax,%eax\n jne 1f\n jmp __real_getcontext@PLT\n1: movl $-1,%eax\n ret\n");
void * operator new(size_t n) { if (hit(F_NEW)) throw std::bad_alloc(); void * p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (tracking) ++heap_live; return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { if (p && tracking) --heap_live; __real_free(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
#define HEAP_FAILS hit(F_MALLOC)
#define HEAP_NEW_FAILS hit(F_NEW)
#define HEAP_GOT(p, n) (void)(tracking && ++heap_live)
#define HEAP_DROP(p) (void)(tracking && --heap_live)
#include "heapwrap.hpp"

// ---- model ---------------------------------------------------------------------------------------
struct Boom { int serial; };
static volatile int cp_arm = -1, cp_fired, cp_serial;       // n-th copy/move of an armed callable throws
static void cp_hit() { if (cp_arm < 0) return; if (cp_arm-- == 0) { cp_arm = -1; cp_fired = 1; throw Boom{ cp_serial }; } }
enum { NC = 10 };
struct Cx { bool used; H h; volatile bool stop, act; volatile int started, steps, wake; };
static Cx C[NC];
static int cur = -1;                        // running context, -1 main
static volatile int ent_live, fn_live;      // function objects alive
static volatile int ot_runs, ot_on; static int ot_want;
static int n_fail_create, n_fail_rw, n_ok_rw, n_ok_create, opsleft, depth; static int surf;
static pbt::Src * S;
PBT_LABEL(l_stack, "failed stack allocations"); PBT_LABEL(l_user, "failing user allocators"); PBT_LABEL(l_get, "getcontext failures"); PBT_LABEL(l_copy, "failing copies of on-top functions");
PBT_LABEL(l_mem, "exhausted memory in resume_with"); PBT_LABEL(l_pool, "failing pool constructions"); PBT_LABEL(l_in, "failures inside contexts");

static void one_op();
static NI uint64_t churn(uint64_t v, int id) {
    uint64_t volatile a[40]; for (int i = 0; i < 40; ++i) a[i] = v * (i + 3) + uint64_t(id);
    double x = double(v) * 1.5; (void)x;
    for (int i = 0; i < 40; ++i) if (a[i] != v * (i + 3) + uint64_t(id)) pbt::fail("stack of context %d was overwritten", id);
    return v + 1;
}
static NI H body(int id, H && m) {
    disarm(); cp_arm = -1;
    Cx & c = C[id];
    if (c.started++) pbt::fail("function of context %d was started twice", id);
    uint64_t v = uint64_t(id) * 1000, n = 0;
    char volatile pad[300]; for (int i = 0; i < 300; ++i) pad[i] = char(i * 7 + id);
    for (;;) {
        int by = cur; cur = id; ++c.steps;
        if (c.act && opsleft > 0 && depth < 6) { c.act = false; ++depth; { Hide hide; one_op(); } --depth; if (cur != id) pbt::fail("context %d: a failed operation changed the running context", id); }
        if (c.stop) { cur = by; return std::move(m); }
        cur = by;
        try { m = std::move(m).resume(); }
        catch (Boom const & b) { pbt::fail("a failure to copy the on-top function surfaced in the target context %d (exception %d)", id, b.serial); }
        catch (std::bad_alloc const &) { pbt::fail("memory exhaustion in resume_with surfaced in the target context %d", id); }
        catch (std::system_error const &) { pbt::fail("system_error surfaced in the target context %d", id); }
        if (!m) pbt::fail("context %d received no handle of its resumer", id);
        v = churn(v, id); ++n;
        if (v != uint64_t(id) * 1000 + n) pbt::fail("local of context %d changed", id);
        for (int i = 0; i < 300; ++i) if (pad[i] != char(i * 7 + id)) pbt::fail("local array of context %d changed", id);
    }
}
struct Ent {
    int id; Ent(int i) : id(i) { ++ent_live; } Ent(Ent const & o) noexcept : id(o.id) { ++ent_live; } Ent(Ent && o) noexcept : id(o.id) { ++ent_live; } ~Ent() { --ent_live; }
    H operator()(H && m) { return body(id, std::move(m)); }
};
static H ot_run(int tgt, H && r) { disarm(); cp_arm = -1; ++ot_runs; ot_on = tgt; if (!r) pbt::fail("the on-top function got an empty handle"); return std::move(r); }
struct Base { int t; explicit Base(int x) : t(x) { ++fn_live; } Base(Base const & o) : t(o.t) { ++fn_live; } ~Base() { --fn_live; } };
struct ThrowCopy : Base { using Base::Base; ThrowCopy(ThrowCopy const & o) : Base((cp_hit(), o)) {} ThrowCopy(ThrowCopy && o) noexcept : Base(o) {} H operator()(H && r) { return ot_run(t, std::move(r)); } };
struct CopyOnly : Base { using Base::Base; CopyOnly(CopyOnly const & o) : Base((cp_hit(), o)) {} H operator()(H && r) const { return ot_run(t, std::move(r)); } };
struct ThrowMove : Base { using Base::Base; ThrowMove(ThrowMove const & o) : Base((cp_hit(), o)) {} ThrowMove(ThrowMove && o) : Base((cp_hit(), o)) {} H operator()(H && r) { return ot_run(t, std::move(r)); } };
struct Mem : Base { std::vector<int> v; explicit Mem(int x) : Base(x), v(50, x) {} H operator()(H && r) { for (int q : v) if (q != t) pbt::fail("on-top function lost its state"); return ot_run(t, std::move(r)); } };
struct MemConst : Base { std::string const v; char big[200]; explicit MemConst(int x) : Base(x), v(60, char('a' + x)) {} H operator()(H && r) { for (char q : v) if (q != 'a' + t) pbt::fail("on-top function lost its state"); return ot_run(t, std::move(r)); } };

// custom allocator; stacks from the heap
struct UA {
    int mode; int serial;                  // 0 works, 1 throws Boom, 2 throws bad_alloc, 3 throws int
    typedef ctx::stack_traits traits_type;
    ctx::stack_context allocate() { if (mode == 1) throw Boom{ serial }; if (mode == 2) throw std::bad_alloc(); if (mode == 3) throw 4711; ctx::stack_context s; s.size = 64 * 1024; char * p = static_cast<char *>(malloc(s.size)); s.sp = p + s.size; return s; }
    void deallocate(ctx::stack_context & s) noexcept { free(static_cast<char *>(s.sp) - s.size); }
};
#ifdef M_CALLCC
template<class A, class F> static H make(A && a, F && f) { return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H makep(ctx::preallocated p, A && a, F && f) { return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#else
template<class A, class F> static H make(A && a, F && f) { return H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H makep(ctx::preallocated p, A && a, F && f) { return H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#endif
static std::unique_ptr<ctx::pooled_fixedsize_stack> pool; static size_t pool_size;

static void check_all(char const * when) {
    for (int i = 0; i < NC; ++i) {
        Cx & c = C[i]; if (!c.used) continue;
        if (!c.h) pbt::fail("%s: the handle of suspended context %d became invalid", when, i);
    }
}
static void do_create(int id) {
    Cx & c = C[id];
    int kind = int(S->draw(6)), val = int(S->draw(2));
    int fault = int(S->draw(4));                    // 0 none
    int mask = 0, at = int(S->draw(3)) == 2 ? 1 : 0; int mode = 0; int serial = int(S->draw(1000));
    if (fault) {
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
        if (fault == 3 || kind == 4) { mask = F_GETCTX; at = 0; get_errno = S->draw(2) ? EINVAL : ENOSYS; } else
#endif
        if (kind == 3) mode = 1 + int(S->draw(3));
        else if (kind != 4) mask = F_MALLOC | F_MMAP | F_ALIGN | F_PROTECT | F_NEW;
        if (kind == 1 && S->draw(2)) at = 1;         // mprotect
    }
    c.started = 0; c.stop = false; c.act = false; c.steps = 0;
    long heap0 = heap_live, map0 = map_live; int ent0 = ent_live, steps0[NC], by = cur; for (int i = 0; i < NC; ++i) steps0[i] = C[i].steps;
    char * mem = nullptr; ctx::stack_context sc; 
    if (kind == 4) { sc.size = 96 * 1024; mem = static_cast<char *>(malloc(sc.size)); sc.sp = mem + sc.size; }
    int got = 0, gserial = 0; std::error_code ec; bool freed_mem = false;
    pbt::log("%d: create c%d allocator %d %s fault %d/%d mode %d\n", cur, id, kind, val ? "lvalue" : "rvalue", mask, at, mode);
    {
        H r; Ent e(id); UA ua{ mode, serial }; ctx::fixedsize_stack fx(80 * 1024); ctx::protected_fixedsize_stack pr(70 * 1000);
        struct PA { void deallocate(ctx::stack_context & s) noexcept { free(static_cast<char *>(s.sp) - s.size); } ctx::stack_context allocate() { return ctx::stack_context(); } } pa;
        // preallocated: the region below a small header is handed over
        arm(mask, at);
        try {
            switch (kind) {
            case 1: r = val ? make(pr, e) : make(ctx::protected_fixedsize_stack(70 * 1000), std::move(e)); break;
            case 2: r = val ? make(*pool, e) : make(ctx::pooled_fixedsize_stack(*pool), std::move(e)); break;
            case 3: r = val ? make(ua, e) : make(UA(ua), std::move(e)); break;
            case 4: { char * sp = static_cast<char *>(sc.sp) - 200; ctx::preallocated p(sp, size_t(sp - mem), sc); r = val ? makep(p, pa, e) : makep(p, PA(), std::move(e)); break; }
            case 5:
#ifdef M_CALLCC
                r = val ? ctx::callcc(e) : ctx::callcc(std::move(e)); break;
#else
                r = val ? H(e) : H(std::move(e)); break;
#endif
            default: r = val ? make(fx, e) : make(ctx::fixedsize_stack(80 * 1024), std::move(e));
            }
        }
        catch (Boom const & b) { got = 1; gserial = b.serial; }
        catch (std::bad_alloc const &) { got = 2; }
        catch (int i) { got = 3; gserial = i; }
        catch (std::system_error const & x) { got = 4; ec = x.code(); }
        int f = disarm();
        if (cur != by) pbt::fail("creating a context changed the running context");
        int want = mode == 1 ? 1 : mode == 2 ? 2 : mode == 3 ? 3 : f == F_GETCTX ? 4 : f ? 2 : 0;
        if (kind == 2 && f && f != F_GETCTX && got == 0) want = 0;           // the pool may retry with a smaller chunk
        if (got != want) pbt::fail("creation with failing %s: expected %s, got %s", f == F_GETCTX ? "getcontext (CreateFiber)" : mode ? "allocator" : f ? "memory" : "nothing", want == 0 ? "success" : want == 1 ? "the allocator's exception" : want == 2 ? "bad_alloc" : want == 3 ? "the allocator's int" : "system_error", got == 0 ? "success" : got == 1 ? "Boom" : got == 2 ? "bad_alloc" : got == 3 ? "int" : "system_error");
        if (got == 1 && gserial != serial) pbt::fail("the allocator's exception changed its value");
        if (got == 3 && gserial != 4711) pbt::fail("the allocator's exception changed its value");
        if (got == 4 && (ec.value() != get_errno || ec.category() != std::system_category())) pbt::fail("system_error carries code %d instead of %d", ec.value(), int(get_errno));
        if (got) {
            if (c.started) pbt::fail("the function of a context that could not be created was run");
            if (r) pbt::fail("a failed creation produced a handle");
            ++n_fail_create; if (mode) pbt::hit(l_user); else if (f == F_GETCTX) pbt::hit(l_get); else pbt::hit(l_stack);
            if (cur >= 0) pbt::hit(l_in);
            freed_mem = got == 4;                    // getcontext failed: the allocator got its stack back
        } else {
            if (!r) pbt::fail("a new context has an invalid handle");
            if (c.started != CC) pbt::fail("the function of the new context was started %d times", c.started);
            c.h = std::move(r); c.used = true; ++n_ok_create;
        }
    }
    for (int i = 0; i < NC; ++i) if (i != id && C[i].steps != steps0[i]) pbt::fail("creating a context ran context %d", i);
    if (got) {
        if (kind == 4) { if (!freed_mem) free(mem); }
        if (ent_live != ent0) pbt::fail("a failed creation leaked %d function objects", ent_live - ent0);
        if (heap_live != heap0 && !(kind == 2 && got == 4)) pbt::fail("a failed creation changed the number of heap blocks by %ld", heap_live - heap0);
        if (map_live != map0) pbt::fail("a failed creation changed the number of mapped pages by %ld", map_live - map0);
    } else if (ent_live != ent0 + 1) pbt::fail("a new context keeps %d function objects", ent_live - ent0);
}
template<class F> static void rw(int id, int how, int cpf, int newf) {
    Cx & c = C[id]; int st = c.steps, fn0 = fn_live, by = cur; long heap0 = heap_live;
    bool act = c.act, stop = c.stop;
    int got = 0, serial = 0; int f = 0, cf = 0, runs = 0, on = -2;
    bool fresh = !CC && c.started == 0;
    H r; 
    {
        F fn(id); F const & cfn = fn;
        ot_runs = 0; ot_on = -1; cp_fired = 0; cp_serial = 100 + opsleft;
        H h = std::move(c.h); c.used = false;
        arm(newf >= 0 ? F_NEW | F_MALLOC : 0, newf); cp_arm = cpf;
        try {
            switch (how) { case 0: r = std::move(h).resume_with(fn); break; case 1: r = std::move(h).resume_with(cfn); break; default: r = std::move(h).resume_with(std::move(fn)); }
        }
        catch (Boom const & b) { got = 1; serial = b.serial; }
        catch (std::bad_alloc const &) { got = 2; }
        f = disarm(); cp_arm = -1; cf = cp_fired; runs = ot_runs; on = ot_on;
        if (cur != by) pbt::fail("a failed resume_with changed the running context");
        if (got) { if (!h) pbt::fail("a failed resume_with lost the context: its handle became invalid"); r = std::move(h); }
        else if (h) pbt::fail("a successful resume_with left a valid handle behind");
    }
    if (got) {
        if (runs) pbt::fail("resume_with threw although the on-top function was run");
        if (c.steps != st) pbt::fail("the target of a failed resume_with ran");
        if (got == 1 && (!cf || serial != 100 + opsleft)) pbt::fail("resume_with threw a foreign exception");
        if (got == 2 && !f) pbt::fail("resume_with threw bad_alloc without a failure");
        if (fn_live != fn0) pbt::fail("a failed resume_with leaked %d function objects", fn_live - fn0);
        if (heap_live != heap0) pbt::fail("a failed resume_with leaked %ld heap blocks", heap_live - heap0);
        ++n_fail_rw; if (got == 1) pbt::hit(l_copy); else pbt::hit(l_mem);
        if (cur >= 0) pbt::hit(l_in);
        c.h = std::move(r); c.used = true;
    } else {
        (void)act; (void)fresh;
        if (runs < 1 && !(act)) pbt::fail("resume_with did not run the function");
        if (!act && (runs != 1 || on != id)) pbt::fail("the on-top function was run %d times", runs);
        if (!act && c.steps != st + 1) pbt::fail("target of resume_with made %d steps", c.steps - st);
        ++n_ok_rw;
        if (stop) { if (r) pbt::fail("a finished context still has a valid handle"); }
        else { if (!r) pbt::fail("the resumed context's handle is invalid"); c.h = std::move(r); c.used = true; }
    }
    if (!act && fn_live != fn0) pbt::fail("resume_with left %d copies of the on-top function", fn_live - fn0);
}
static void one_op() {
    if (opsleft <= 0) return;
    --opsleft;
    int live[NC], nl = 0; for (int i = 0; i < NC; ++i) if (C[i].used) live[nl++] = i;
    static int const w[] = { 8, 6, 12, 2, 1 };
    int op = S->pick(w, 5);
    if (!nl && op < 4) op = 0;
    switch (op) {
    case 0: { int id = -1; for (int i = 0; i < NC; ++i) if (!C[i].used && !(i == cur)) { bool busy = C[i].wake; if (!busy) { id = i; break; } } if (id < 0) return; C[id].wake = 1; do_create(id); C[id].wake = C[id].used; break; }
    case 1: {
        int id = live[S->draw(uint32_t(nl))]; Cx & c = C[id];
        c.stop = S->draw(5) == 4; c.act = S->draw(3) == 2; bool act = c.act; int st = c.steps; bool stop = c.stop;
        pbt::log("%d: resume c%d%s%s\n", cur, id, stop ? " (returns)" : "", act ? " (acts)" : "");
        int by = cur; H h = std::move(c.h); c.used = false;
        h = std::move(h).resume();
        cur = by;
        if (c.steps != st + 1) pbt::fail("resumed context %d made %d steps", id, c.steps - st);
        if (stop != !h) pbt::fail("handle of context %d wrong after a resumption", id);
        if (h) { c.h = std::move(h); c.used = true; } else c.wake = 0;
        break;
    }
    case 2: {
        int id = live[S->draw(uint32_t(nl))]; Cx & c = C[id];
        c.stop = S->draw(6) == 5; c.act = S->draw(6) == 5;
        int k = int(S->draw(5)), how = int(S->draw(3)), flt = int(S->draw(4)), at = int(S->draw(4));
        pbt::log("%d: resume_with c%d callable %d as %s, failing %s %d\n", cur, id, k, how == 0 ? "lvalue" : how == 1 ? "const lvalue" : "rvalue", flt == 0 ? "nothing" : k < 3 && flt < 3 ? "copy" : "memory", at);
        int cpf = flt && k < 3 && flt < 3 ? at : -1, nf = flt && cpf < 0 ? at : -1; int by = cur;
        switch (k) { case 0: rw<ThrowCopy>(id, how, cpf, nf); break; case 1: rw<CopyOnly>(id, how, cpf, nf); break; case 2: rw<ThrowMove>(id, how, cpf, nf); break; case 3: rw<Mem>(id, how, cpf, nf); break; default: rw<MemConst>(id, how, cpf, nf); }
        cur = by; if (!c.used) c.wake = 0;
        break;
    }
    case 3: { int id = live[S->draw(uint32_t(nl))]; pbt::log("%d: destroy c%d\n", cur, id); int e0 = ent_live; C[id].h = H(); C[id].used = false; C[id].wake = 0; if (ent_live != e0 - 1) pbt::fail("destroying a context destroyed %d function objects", e0 - ent_live); break; }
    case 4: {   // constructing a pooled allocator without memory
        long h0 = heap_live; bool threw = false; int at = int(S->draw(2));
        pbt::log("%d: pooled allocator, memory fails\n", cur);
        arm(F_NEW | F_MALLOC, at);
        try { ctx::pooled_fixedsize_stack p(64 * 1024, 2); } catch (std::bad_alloc const &) { threw = true; }
        bool f = disarm() != 0; arm_mask = 0;
        if (threw != f) pbt::fail("pooled allocator: memory failure was not reported");
        if (heap_live != h0) pbt::fail("pooled allocator: a failed construction leaked");
        pbt::hit(l_pool);
        break;
    }
    }
    check_all("after an operation");
}
static bool run(pbt::Src & s) {
    S = &s; cur = -1; depth = 0; n_fail_create = n_fail_rw = n_ok_rw = n_ok_create = 0; ent_live = fn_live = 0; arm_mask = 0; cp_arm = -1; heap_live = map_live = 0;
    for (auto & c : C) { c.used = false; c.wake = 0; c.started = 0; c.steps = 0; }
    opsleft = s.range(5, 60);
    tracking = true;
    pool.reset(new ctx::pooled_fixedsize_stack(64 * 1024, 1 + s.draw(6), 0));
    while (opsleft > 0) one_op();
    // everything still works
    for (auto & c : C) if (c.used && s.flip()) { c.act = false; c.stop = false; int st = c.steps; c.h = std::move(c.h).resume(); if (c.steps != st + 1 || !c.h) pbt::fail("context does not work at the end"); }
    for (auto & c : C) if (c.used) { c.h = H(); c.used = false; }
    pool.reset();
    tracking = false;
    if (ent_live) pbt::fail("%d function objects leaked", int(ent_live));
    if (heap_live) pbt::fail("%ld heap blocks leaked", heap_live);
#ifdef BOOST_USE_WINFIB
    if (win::live_fibers()) pbt::fail("%d fibers leaked", win::live_fibers());
#endif
    if (map_live) pbt::fail("%ld mapped pages leaked", map_live);
    return n_fail_create + n_fail_rw >= 2 && n_ok_create >= 1;
}
static void init(int, char **) { {
#ifdef BOOST_USE_WINFIB
    win::refuse_hook = [] () -> DWORD { return hit(F_GETCTX) ? DWORD(get_errno) : 0; };
#endif
    ctx::stack_traits::default_size(); ctx::stack_traits::is_unbounded();
#ifdef M_CALLCC
    H h = ctx::callcc([](H && m) { m = std::move(m).resume(); return std::move(m); });
#else
    H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume();
#endif
    h = std::move(h).resume(); } try { throw Boom{ 1 }; } catch (Boom const &) {} }
static pbt::Harness const harness = { "fail", run, init, "history in which single creations and resume_with calls fail; non-trivial: >=2 failed operations and >=1 successfully created context" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
