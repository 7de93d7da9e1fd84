// Stateful model-based harness: arbitrary histories of context operations on the real library,
// checked at every step against an explicit model of what must be running and what every handle
// denotes.  One source for fibers and continuations, fcontext / ucontext / segmented, any standard.
//
//   -DM_CALLCC            continuations instead of fibers
//   -DBOOST_USE_UCONTEXT  ucontext implementation
//   -DBOOST_USE_SEGMENTED_STACKS (with -fsplit-stack)
#include "pbt.hpp"
#ifdef M_REALVG
#include <valgrind/memcheck.h>
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <sstream>
#include <thread>
#include <sys/syscall.h>
#include <semaphore.h>
#include <pthread.h>
#include <new>

#ifdef BOOST_USE_WINFIB
#define M_WIN
#include "winmock.hpp"
#endif
#ifdef M_SIG
#include "sig.hpp"
#define SIG_STOP() sig::stop()
enum { SIGROOM = 40 * 1024 };
#else
enum { SIGROOM = 0 };
#define SIG_STOP() (void)0
#endif
#ifdef M_CET
#include "cet.hpp"
#else
#define CET_PAUSE (void)0
#define CET_BEGIN() (void)0
#define CET_END() (void)0
#endif

namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
enum { UCTX = 1 };
#else
enum { UCTX = 0 };
#endif
#ifdef BOOST_USE_SEGMENTED_STACKS
enum { SEG = 1 };
#else
enum { SEG = 0 };
#endif
#if defined(__SANITIZE_ADDRESS__)
#define M_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define M_ASAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define M_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define M_TSAN 1
#endif
#endif
#ifndef M_ASAN
#define M_ASAN 0
#endif
#ifndef M_TSAN
#define M_TSAN 0
#endif
#if M_ASAN || M_TSAN || defined(M_REALVG)
enum { SAN = 1 };
#else
enum { SAN = 0 };
#endif

#define NI __attribute__((noinline, noclone))
#if defined(__clang__)
#undef NI
#define NI __attribute__((noinline))
#endif

// ---- memory accounting (only memory obtained from this binary's code) --------------------------
static long g_blocks = 0;
#if !M_TSAN && !defined(M_REALVG)
extern "C" void * __real_malloc(size_t); extern "C" void __real_free(void *);
extern "C" void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (p) __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); return p; }
extern "C" void __wrap_free(void * p) { if (p) __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); __real_free(p); }
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r && *p) __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); return r; }
void * operator new(size_t n) { void * p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { if (p) { __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); __real_free(p); } }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
#define HEAP_FAILS false
#define HEAP_NEW_FAILS false
#define HEAP_GOT(p, n) __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED)
#define HEAP_DROP(p) __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED)
#include "heapwrap.hpp"
#endif

// ---- configuration of a run -------------------------------------------------------------------
struct Profile {
    char const * name;
    int budget_lo, budget_hi, maxctx, maxlive, threads;
    // weights
    int w_new, w_resume, w_with, w_destroy, w_move, w_push, w_pop, w_throw, w_deep, w_setfp, w_setmask, w_thread, w_check, w_return;
    int bare;              // percentage of frames that are plain
    int ontop_w[9];        // T0..T8
    unsigned checks;       // bit set
};
static Profile const profiles[] = {
    //            name      blo bhi ctx live thr new res with dst mov psh pop thr dep sfp msk thd chk ret bare {ret,stash,other,throw,stthrow,nested,drop,term,leave}
    { "mix",        8, 60, 24, 8, 0,  10, 24, 10,  7,  5,  9,  6,  4,  2,  3,  2,  0,  1,  7, 30, {10, 5, 5, 5, 3, 6, 4, 2, 4}, 0 },
    { "switch",    10, 80, 24, 8, 0,  12, 45,  5,  2,  3,  5,  4,  0,  1,  0,  0,  0,  0, 12, 60, {10, 5, 5, 0, 0, 2, 0, 1, 1}, 0 },
    { "state",     10, 60, 16, 6, 0,   8, 40,  6,  3,  1, 10,  6,  2,  6,  0,  0,  0,  0,  5, 60, {10, 5, 5, 2, 1, 5, 1, 1, 1}, 0 },
    { "fp",        10, 60, 16, 6, 0,   8, 25, 10,  6,  1,  5,  4,  3,  1, 25,  0,  0,  0,  7, 30, {10, 5, 5, 4, 2, 6, 4, 1, 4}, 0 },
    { "handle",    10, 80, 24, 8, 0,  12, 15,  5,  8, 40,  4,  3,  1,  0,  0,  0,  0, 12,  7, 30, {10, 6, 6, 2, 1, 3, 3, 2, 3}, 0 },
    { "term",      10, 60, 24, 8, 0,  16, 16,  6,  4,  4,  5,  4,  1,  1,  0,  0,  0,  0, 25, 30, {10, 5, 5, 1, 1, 3, 3, 2, 3}, 0 },
    { "unwind",    10, 60, 24, 8, 0,  12, 18,  6, 16,  5, 24,  4,  2,  2,  0,  0,  0,  0,  4, 15, {10, 5, 5, 2, 1, 6, 8, 2, 8}, 0 },
    { "ontop",     10, 60, 20, 8, 0,  10,  9, 36,  5,  3,  7,  4,  2,  1,  0,  0,  0,  0,  5, 30, {10, 6, 6, 3, 2, 8, 4, 3, 4}, 0 },
    { "throw",     10, 60, 20, 8, 0,  10, 14, 24,  4,  2, 18,  3, 10,  1,  0,  0,  0,  0,  4, 10, {4, 3, 3, 14, 10, 5, 2, 1, 2}, 0 },
    { "thread",    10, 70, 20, 8, 3,  10, 22,  9,  8,  3,  7,  5,  3,  1,  2,  0, 24,  0,  6, 30, {10, 5, 5, 4, 2, 5, 4, 1, 4}, 0 },
    { "mask",      10, 60, 16, 6, 0,   9, 24, 10,  6,  1,  5,  4,  3,  1,  0, 25,  0,  0,  7, 30, {10, 5, 5, 4, 2, 6, 4, 1, 4}, 0 },
    { "deep",      10, 50, 14, 6, 0,   9, 20,  8,  6,  1,  6,  5,  2, 25,  0,  0,  0,  0,  6, 30, {10, 5, 5, 3, 1, 6, 3, 1, 3}, 0 },
    { "cet",        6, 24, 10, 5, 0,  10, 24, 10,  3,  2,  4,  6,  1,  3,  0,  0,  0,  0,  9, 50, {10, 5, 5, 2, 2, 5, 2, 2, 2}, 0 },
    { "seg",       10, 60, 14, 8, 0,  10, 20, 16, 10,  2,  6,  5,  3, 40,  0,  0,  0,  0,  7, 30, {10, 6, 6, 5, 3, 7, 4, 2, 4}, 0 },
};
static Profile P;
static bool opt_threads_ok = true;

// ---- model ------------------------------------------------------------------------------------
enum St { Free, Fresh, Susp, Run, Blocked, Done };
static char const * stname[] = { "free", "fresh", "susp", "run", "blocked", "done" };
enum HK { HEmpty, HLive, HTerm };
enum WK { WNone, WPlain, WDestroy, WThrow, WReturnedFromDestroy };

struct Fp { uint32_t mx; uint16_t cw; };
struct FrameRec { int serial; int kind; };
constexpr int MAXC = 40, NSLOT = 44, MAXF = 24, MAXT = 6;

struct Ctx {
    St st; bool base; int thread; int pin_depth; // pin_depth = noexc
    bool unwinding;          // forced unwinding has begun
    bool started;            // entry function entered
    int destroyer;           // who waits for our destruction
    WK wk; HK rk; int rc;    // expected wake and returned handle
    uint64_t exc;            // serial of the exception expected to arrive
    uint64_t ontop_token;    // pending on-top function
    int ontop_from;
    int leaving; HK lk; int lc;   // context which the library ends after an on-top function left its handle alone (+ 1), and the handle returned
    int catch_depth; int ontop_nest;
    int nframes; FrameRec fr[MAXF];
    int depth;               // interp nesting
    char const * lo; char const * hi;   // stack region (null: unknown)
    char const * wlo;                   // lowest usable address (above a guard page)
    Fp fp; unsigned mask;
    int allocs, deallocs;    // of its stack
    int fnlive;              // live function objects carrying this ctx id
    int fnstored_dead;
    bool tracked;            // allocator instrumented
    unsigned char * pre; size_t prelen; unsigned char prepat;
    int fnkind;
    size_t size;
    void * fib, * app;
};
struct Slot { H h; HK k; int c; int busy; };

static Ctx C[MAXC];
static int nctx;
alignas(64) static unsigned char slotmem[NSLOT * sizeof(Slot)];
static Slot * S;
struct Th { bool alive; int base; int cur; sem_t sem; std::thread th; unsigned mask; bool started, finished; pthread_t self; bool joined; };
static Th T[MAXT];
static int active;
static int nth;
static bool drain;
static int budget;
static uint64_t tokens, excs;
static int frame_serial;
static int alloc_objs, ontop_objs, guard_objs, fn_origs;

// per case counters used by the non-trivial rules
struct Cnt { int sigs, news, switches, resumes, withs, destroys, destroys_susp, destroys_fresh, destroys_nested, throws, thrown_ontop, moves, swaps, selfmoves, returns, returns3, freshreturns, setfp, setmask, thmig, thsw, deep, nestedontop, drops, cascaded, activeops, maxlive, framesunwound, caught, rethrown, freshwith, stash, other, leaves, termret, fpdiff, maskdiff, inflight, maxdepth, fnkinds, allocs, failed_maps, appfibers; };
static Cnt K;
#ifdef M_SIG
PBT_LABEL(l_sig, "signals delivered");
#endif

// ---- low level helpers ------------------------------------------------------------------------
static inline uint32_t get_mx() { uint32_t v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v & 0xffc0u; }
static inline void set_mx(uint32_t v) { __asm__ volatile("ldmxcsr %0" :: "m"(v)); }
static inline uint16_t get_cw() { uint16_t v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static inline void set_cw(uint16_t v) { __asm__ volatile("fldcw %0" :: "m"(v)); }
static int const SIGS[4] = { SIGUSR1, SIGUSR2, SIGWINCH, SIGIO };
static NI unsigned get_mask() {
    CET_PAUSE;
    sigset_t s; pthread_sigmask(SIG_BLOCK, nullptr, &s);
    unsigned m = 0;
    for (int i = 0; i < 4; ++i) if (sigismember(&s, SIGS[i]) == 1) m |= 1u << i;
    return m;
}
static NI void set_mask(unsigned m) {
    CET_PAUSE;
    sigset_t b, u; sigemptyset(&b); sigemptyset(&u);
    for (int i = 0; i < 4; ++i) sigaddset((m >> i & 1) ? &b : &u, SIGS[i]);
    pthread_sigmask(SIG_BLOCK, &b, nullptr); pthread_sigmask(SIG_UNBLOCK, &u, nullptr);
}
static NI int this_thread_index() {
    pthread_t me = pthread_self();
    __asm__ volatile("" : "+r"(me) :: "memory");
    for (int i = 0; i < nth; ++i) if (T[i].alive && pthread_equal(T[i].self, me)) return i;
    return -1;
}
static inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
#define OPAQUE(x) __asm__ volatile("" : "+r"(x))

// expected fp / mask
static bool chk_mask = true;
static NI void check_env(int self) {
    Ctx & c = C[self];
    uint32_t mx = get_mx(); uint16_t cw = get_cw();
#ifndef M_REALVG
    PBT_REQUIRE(mx == c.fp.mx, "context %d: MXCSR control is %#x, expected %#x", self, mx, c.fp.mx);
    PBT_REQUIRE(cw == c.fp.cw, "context %d: x87 control word is %#x, expected %#x", self, cw, c.fp.cw);
#else
    (void)mx; (void)cw;
#endif
    if (chk_mask) {
        unsigned m = get_mask(), e = UCTX ? c.mask : T[active].mask;
        PBT_REQUIRE(m == e, "context %d: signal mask is %#x, expected %#x", self, m, e);
    }
}
static NI void check_slots() {
    for (int i = 0; i < NSLOT; ++i) {
        if (S[i].busy) continue;
        bool b = static_cast<bool>(S[i].h), e = S[i].k == HLive;
        if (b != e) pbt::fail("handle in slot %d reports %s but it %s", i, b ? "true" : "false",
            S[i].k == HLive ? "denotes a suspended context" : S[i].k == HTerm ? "denotes a finished context" : "is empty");
        if (!S[i].h == e) pbt::fail("operator! and operator bool agree (slot %d)", i);
    }
}
static NI void check_on_stack(int self, char const * what) {
    char probe; char const * p = &probe; __asm__ volatile("" : "+r"(p));
    Ctx & c = C[self];
    if (SEG || (SAN && M_ASAN)) return;
#ifdef M_WIN
    // Windows fibers bring their own stack
    win::Fiber * f = win::cur();
    if (c.app) { if (f != c.app) pbt::fail("%s of context %d does not run on the fiber of the application that it was left from", what, self); }
    else if (!c.base) {
        if (!f || f->thread) pbt::fail("%s of context %d does not run on a fiber", what, self);
        if (!(p >= f->lo && p < f->hi)) pbt::fail("%s of context %d does not run on the stack of its fiber", what, self);
        if (size_t(f->hi - f->lo) < c.size) pbt::fail("context %d has %zu bytes of stack, requested were %zu", self, size_t(f->hi - f->lo), c.size);
        for (int i = 0; i < nctx; ++i) if (i != self && C[i].fib == f && C[i].st != Done) pbt::fail("%s of context %d runs on the fiber of context %d", what, self, i);
        if (c.fib && c.fib != f) pbt::fail("%s of context %d runs on another fiber than before", what, self);
        c.fib = f;
    }
    return;
#endif
    if (c.lo && !(p >= c.wlo && p < c.hi)) pbt::fail("%s of context %d runs at %p outside its stack [%p,%p)", what, self, (void const *)p, (void const *)c.wlo, (void const *)c.hi);
    if (!c.lo) for (int i = 0; i < nctx; ++i) if (i != self && C[i].lo && C[i].st != Free && C[i].st != Done && p >= C[i].lo && p < C[i].hi)
        pbt::fail("%s of context %d runs on the stack of context %d", what, self, i);
}
// everything that must be true whenever context `self` gets control
static NI void wake_checks(int self, char const * what) {
    CET_PAUSE;
    int th = this_thread_index();
    PBT_REQUIRE(th == active, "%s: context %d got control on thread %d, expected thread %d", what, self, th, active);
    PBT_REQUIRE(T[th].cur == self, "%s: context %d got control although context %d should be running", what, self, T[th].cur);
    PBT_REQUIRE(C[self].st == Run, "%s: context %d got control in model state %s", what, self, stname[C[self].st]);
    PBT_REQUIRE(C[self].ontop_token == 0, "%s: context %d continued before the on-top function ran", what, self);
    check_on_stack(self, what);
    check_env(self);
    check_slots();
}

static int free_slot() { for (int i = 0; i < NSLOT; ++i) if (S[i].k == HEmpty && !S[i].busy) return i; return -1; }
static int count_free() { int n = 0; for (int i = 0; i < NSLOT; ++i) n += S[i].k == HEmpty && !S[i].busy; return n; }
static void reap_check(int c, char const * what) {
    if (C[c].tracked) PBT_REQUIRE(C[c].deallocs == 1, "%s: stack of finished context %d was deallocated %d times", what, c, C[c].deallocs);
    PBT_REQUIRE(C[c].fnlive == 0, "%s: %d function objects of finished context %d still alive", what, C[c].fnlive, c);
}
static void drop_term(int s) {      // destroys the handle of a finished context
    int c = S[s].c;
    S[s].busy = 1;
    { H tmp(std::move(S[s].h)); }
    S[s].k = HEmpty; S[s].c = -1; S[s].busy = 0;
    reap_check(c, "after dropping its handle");
}
// stores a handle of known meaning into a free slot
static int store(H && h, HK k, int c, char const * what) {
    bool b = static_cast<bool>(h);
    if (b != (k == HLive)) pbt::fail("%s: returned handle reports %s, expected a handle to %s", what, b ? "true" : "false",
            k == HLive ? "a suspended context" : k == HTerm ? "a finished context" : "nothing");
    if (k == HEmpty) return -1;
    if (k == HTerm && (count_free() < MAXC + 2 - 0 && pbt::src().flip())) {
        { H tmp(std::move(h)); }
        reap_check(c, what);
        return -1;
    }
    if (k == HTerm && count_free() < 16) { { H tmp(std::move(h)); } reap_check(c, what); return -1; }
    int n = count_free();
    PBT_REQUIRE(n > 0, "harness: no free slot");
    int r = int(pbt::src().draw(uint32_t(n < 6 ? n : 6)));
    for (int i = 0; i < NSLOT; ++i) if (S[i].k == HEmpty && !S[i].busy && r-- == 0) {
        S[i].h = std::move(h);
        S[i].k = k; S[i].c = c;
        if (static_cast<bool>(h)) pbt::fail("%s: moved-from handle still reports true", what);
        return i;
    }
    return -1;
}

// ---- allocators -------------------------------------------------------------------------------
#if M_ASAN
#include <sanitizer/asan_interface.h>
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define UNPOISON(p, n) ((void)0)
#endif
// canaried arena: every stack lives in its own slot of one mapping; freed slots become inaccessible
static char * arena; static size_t const ASLOT = 512 * 1024; static int const NAR = MAXC + 2; static int arena_next;
static size_t const RED = 4096;
enum AK { AArena, AFixed, APooled, AProt, ASegm, ADefault, NAK };
static char const * akname[] = { "arena", "fixedsize", "pooled", "protected", "segmented", "default" };

struct ArenaStack {
    size_t size; size_t shift;
    ctx::stack_context allocate() {
        if (arena_next >= NAR) pbt::harness_error("arena exhausted");
        char * b = arena + size_t(arena_next++) * ASLOT;
        // usable [lo,hi) placed so that hi is `shift` bytes below the red zone
        char * hi = b + ASLOT - RED - shift, * lo = hi - size;
        memset(hi, 0xA5, size_t(b + ASLOT - hi)); memset(lo - RED, 0xA5, RED);
        ctx::stack_context s; s.size = size; s.sp = hi;
#ifdef M_REALVG
        VALGRIND_MAKE_MEM_UNDEFINED(lo, size);     // reused memory: everything below the last stack pointer counts as popped
        s.valgrind_stack_id = VALGRIND_STACK_REGISTER(s.sp, lo);
#endif
        return s;
    }
    void deallocate(ctx::stack_context & s) noexcept {
        char * hi = static_cast<char *>(s.sp), * lo = hi - s.size;
        size_t idx = size_t(hi - arena) / ASLOT;
        char * b = arena + idx * ASLOT;
        for (char * p = hi; p < b + ASLOT; ++p) if (*p != char(0xA5)) pbt::fail("memory above the stack was overwritten (offset %ld from sp)", long(p - hi));
        for (char * p = lo - RED; p < lo; ++p) if (*p != char(0xA5)) pbt::fail("memory below the stack was overwritten (offset %ld)", long(p - lo));
#ifdef M_REALVG
        VALGRIND_STACK_DEREGISTER(s.valgrind_stack_id);
#endif
        if (!SAN) mprotect(b, ASLOT, PROT_NONE);
    }
};
static void arena_reset() { if (arena_next && !SAN) mprotect(arena, size_t(arena_next) * ASLOT, PROT_READ | PROT_WRITE); arena_next = 0; }

// pooled allocator shared by the contexts of one case
static ctx::pooled_fixedsize_stack * pool;
static size_t const POOLSZ = (SAN ? 160 * 1024 : 64 * 1024) + SIGROOM;

struct AnyBase {
    AK kind; size_t size, shift;
};
// The allocator type handed to the library: stateful, counts instances, checks pairing.
template<class B> struct Track {
    B base; int cid; uint64_t tag; bool moved;
    Track(B b, int c) : base(b), cid(c), tag(mix(uint64_t(c) + 77)), moved(false) { ++alloc_objs; }
    Track(Track const & o) : base(o.base), cid(o.cid), tag(o.tag), moved(o.moved) { o.ok("copied from"); ++alloc_objs; }
    Track(Track && o) noexcept : base(std::move(o.base)), cid(o.cid), tag(o.tag), moved(o.moved) { o.ok("moved from"); o.moved = true; ++alloc_objs; }
    Track & operator=(Track const &) = delete;
    ~Track() { if (tag != mix(uint64_t(cid) + 77)) pbt::fail("stack allocator object of context %d corrupted", cid); --alloc_objs; tag = 0; }
    void ok(char const * w) const { if (tag != mix(uint64_t(cid) + 77)) pbt::fail("destroyed stack allocator %s", w); }
    ctx::stack_context allocate() {
        ok("used"); if (moved) pbt::fail("moved-from stack allocator used to allocate");
#ifdef M_MOCKVG
        long regs = MockVg::get().regs;
#endif
        ctx::stack_context s = base.allocate();
#ifdef M_MOCKVG
        if (!std::is_same<B, ArenaStack>::value && (MockVg::get().regs != regs + 1 || !MockVg::get().covers(static_cast<char *>(s.sp) - s.size, static_cast<char *>(s.sp))))
            pbt::fail("%ld stack regions registered with valgrind for a new stack, or not the region handed out", MockVg::get().regs - regs);
#endif
        note(s, false);
        return s;
    }
    // used for preallocated stacks too
    void note(ctx::stack_context & s, bool) {
        Ctx & c = C[cid];
        ++c.allocs; c.tracked = true; c.size = s.size;
        c.hi = static_cast<char *>(s.sp); c.lo = c.hi - s.size; c.wlo = c.lo;
        if (c.allocs > 1) pbt::fail("allocate called twice for context %d", cid);
    }
    void deallocate(ctx::stack_context & s) noexcept {
        Ctx & c = C[cid];
        ok("used to deallocate"); if (moved) pbt::fail("moved-from stack allocator used to deallocate (context %d)", cid);
        if (c.st != Done) pbt::fail("stack of context %d deallocated while the context is %s", cid, stname[c.st]);
        if (++c.deallocs > 1) pbt::fail("stack of context %d deallocated twice", cid);
        if (!SEG && (static_cast<char *>(s.sp) != c.hi || s.size != c.size)) pbt::fail("stack of context %d deallocated with a different stack_context", cid);
        if (c.fnlive) pbt::fail("stack of context %d deallocated with %d live function objects", cid, c.fnlive);
        char probe; char const * p = &probe; __asm__ volatile("" : "+r"(p));
        if (!SEG && !M_ASAN && p >= c.lo && p < c.hi) pbt::fail("stack of context %d deallocated while running on it", cid);
        // a stack allocator may use its argument and itself after the memory is gone
        p = reinterpret_cast<char const *>(&s); if (!SEG && p >= c.lo && p < c.hi) pbt::fail("the stack_context passed to deallocate() lies in the released stack of context %d", cid);
        p = reinterpret_cast<char const *>(this); if (!SEG && p >= c.lo && p < c.hi) pbt::fail("the stack allocator is used out of the released stack of context %d", cid);
        if (c.pre) for (size_t i = 0; i < c.prelen; ++i) if (c.pre[i] != (unsigned char)(c.prepat + i)) pbt::fail("preallocated area of context %d overwritten at offset %zu", cid, i);
        base.deallocate(s);
    }
};

// ---- forward ----------------------------------------------------------------------------------
static void interp(int self, int nested_budget, bool nosuspend_exc);
struct TestExc { uint64_t serial; int target; uint64_t chk; H h; HK k; int c;
    TestExc(uint64_t s, int t) : serial(s), target(t), chk(mix(s)), k(HEmpty), c(-1) {}
    TestExc(TestExc && o) : serial(o.serial), target(o.target), chk(o.chk), h(std::move(o.h)), k(o.k), c(o.c) { o.k = HEmpty; o.c = -1; }
};

static int live_ctx() { int n = 0; for (int i = 0; i < nctx; ++i) n += C[i].st != Free && C[i].st != Done; return n; }
static bool destroyable(int c) { return !C[c].base && C[c].pin_depth == 0 && !C[c].unwinding && (C[c].st == Susp || C[c].st == Fresh); }
static bool resumable(int c) { return (C[c].st == Susp || C[c].st == Fresh) && (C[c].thread < 0 || C[c].thread == active); }
// the thread a context is bound to
static void repin(int c) { C[c].thread = C[c].base ? C[c].thread : (C[c].pin_depth > 0 || C[c].unwinding) ? active : -1; }

static void leave_to(int self, int target) {
    C[self].st = Susp; repin(self);
    C[target].st = Run; T[active].cur = target;
    if (C[target].base == false && C[target].thread >= 0 && C[target].thread != active) pbt::harness_error("pinned");
    ++K.switches;
}

// an on-top function did not take the handle it was passed: the library has ended that context
static void left_alone(int self, char const * what) {
    Ctx & c = C[self];
    if (!c.leaving) return;
    int v = c.leaving - 1;
    c.leaving = 0;
    if (c.st != Run || c.wk != WReturnedFromDestroy || C[v].st != Done) pbt::fail("%s: control came to context %d although the context %d, whose handle an on-top function left alone, is not unwound (%d frames left)", what, self, v, C[v].nframes);
    --c.pin_depth; repin(self);
    reap_check(v, what);
    c.wk = WPlain; c.rk = c.lk; c.rc = c.lc;
}
// Guards a library call that gives up control: detects control coming back through an exception.
struct SwitchScope {
    int self; bool done; int slot; char const * what;
    SwitchScope(int s, int sl, char const * w) : self(s), done(false), slot(sl), what(w) {}
    ~SwitchScope() {
        if (done) return;
        if (slot >= 0) S[slot].busy = 0;
        wake_checks(self, what);
        Ctx & c = C[self];
        if (c.wk == WDestroy) { pbt::log("  [%d] unwinding starts in %s\n", self, what); }
        else if (c.wk == WThrow) { pbt::log("  [%d] exception #%lu arrives in %s\n", self, (unsigned long)c.exc, what); }
        else pbt::fail("%s: context %d left by an exception nobody threw into it (expected wake %d)", what, self, int(c.wk));
        c.wk = WNone;
    }
    // normal return: pops the expected handle meaning
    void normal(HK & k, int & rc) {
        done = true;
        wake_checks(self, what);
        Ctx & c = C[self];
        left_alone(self, what);
        if (c.wk != WPlain) pbt::fail("%s: context %d returned normally although %s", what, self, c.wk == WDestroy ? "it is being destroyed" : c.wk == WThrow ? "an on-top function threw into it" : "nobody resumed it");
        c.wk = WNone; k = c.rk; rc = c.rc;
        if (k == HTerm && rc >= 0 && C[rc].st != Done) pbt::harness_error("term");
    }
};

// finishing of a context (both ways)
static void finish(int self, char const * how) {
    Ctx & c = C[self];
    if (c.nframes) pbt::fail("context %d ended (%s) with %d frames whose destructors did not run", self, how, c.nframes);
    if (c.pin_depth) pbt::harness_error("finish pinned");
    c.st = Done;
}
static void finish_unwound(int self) {
    Ctx & c = C[self];
    finish(self, "unwound");
    int d = c.destroyer;
    if (d < 0 || C[d].st != Blocked) pbt::fail("context %d was unwound but nobody destroyed it", self);
    C[d].st = Run; C[d].wk = WReturnedFromDestroy; T[active].cur = d;
    pbt::log("  [%d] finished by unwinding, control to %d\n", self, d);
}

// ---- entry functions --------------------------------------------------------------------------
struct EntryGuard {
    int self; bool normal_exit;
    explicit EntryGuard(int s) : self(s), normal_exit(false) {}
    ~EntryGuard() {
        if (normal_exit) return;
        Ctx & c = C[self];
        wake_or_unwind();
        if (!c.unwinding) pbt::fail("an exception left the function of context %d in the harness", self);
        finish_unwound(self);
    }
    void wake_or_unwind() {
        if (T[active].cur != self) pbt::fail("context %d unwinds while context %d should run", self, T[active].cur);
        check_on_stack(self, "unwinding");
    }
};

static int pick_slot(bool (*pred)(int)) {
    CET_PAUSE;
    int n = 0;
    for (int i = 0; i < NSLOT; ++i) n += !S[i].busy && pred(i);
    if (!n) return -1;
    int r = int(pbt::src().draw(uint32_t(n)));
    for (int i = 0; i < NSLOT; ++i) if (!S[i].busy && pred(i) && r-- == 0) return i;
    return -1;
}
static bool p_resumable(int i) { return S[i].k == HLive && resumable(S[i].c); }
static bool p_destroyable(int i) { return S[i].k == HLive && destroyable(S[i].c); }
static bool p_nondestr_here(int i) { return S[i].k == HLive && !C[S[i].c].base && !destroyable(S[i].c) && resumable(S[i].c); }
static bool p_base_here(int i) { return S[i].k == HLive && C[S[i].c].base && resumable(S[i].c); }
static bool p_term(int i) { return S[i].k == HTerm; }
static bool p_any(int i) { return S[i].k != HEmpty; }
static bool p_live(int i) { return S[i].k == HLive; }
static int drain_target() {
    int s = pick_slot(p_nondestr_here); if (s >= 0) return s;
    return pick_slot(p_base_here);
}

// what every entry function does
static NI H entry_body(int self, H && arg) {
    EntryGuard eg(self);
    Ctx & c = C[self];
    if (c.started) pbt::fail("function of context %d entered twice", self);
    wake_checks(self, "entry");
    left_alone(self, "entry");
    if (c.wk != WPlain) pbt::fail("function of context %d entered without being resumed%s", self, c.wk == WDestroy ? " (it is being destroyed)" : "");
    c.started = true; c.wk = WNone;
    pbt::log("  [%d] entry\n", self);
    store(std::move(arg), c.rk, c.rc, "entry argument");
    int s = -1;
    do {
        interp(self, 1 << 20, false);
        s = drain ? drain_target() : pick_slot(p_resumable);
        if (s < 0 && drain) {
            for (int i = 0; i < NSLOT; ++i) if (S[i].k != HEmpty) fprintf(stderr, "slot %d kind %d ctx %d st %s busy %d\n", i, S[i].k, S[i].c, stname[C[S[i].c].st], S[i].busy);
            pbt::harness_error("context %d has nowhere to return to", self);
        }
    } while (s < 0);
    int t = S[s].c;
    H r(std::move(S[s].h));
    S[s].k = HEmpty; S[s].c = -1;
    pbt::log("  [%d] returns handle to %d (%s)\n", self, t, stname[C[t].st]);
    ++K.returns; if (C[t].st == Fresh) ++K.freshreturns;
    if (!c.base && t != c.ontop_from) ++K.returns3;
    finish(self, "returned");
    C[t].st = Run; C[t].wk = WPlain; C[t].rk = HTerm; C[t].rc = self; T[active].cur = t;
    ++K.switches;
    eg.normal_exit = true;
    return r;
}

template<int N, int AL> struct alignas(AL) Payload { unsigned char b[N]; };
template<int N, int AL, int KIND> struct Fn {
    int cid; uint64_t tag; bool moved, orig; Payload<N, AL> pl;   // orig: the harness' own object, whose lifetime the library does not control
    explicit Fn(int c, bool o = true) : cid(c), tag(mix(uint64_t(c) * 3 + 1)), moved(false), orig(o) { CET_PAUSE; for (int i = 0; i < N; ++i) pl.b[i] = (unsigned char)(c * 7 + i); if (orig) ++fn_origs; else ++C[cid].fnlive; }
    Fn(Fn const & o) : cid(o.cid), tag(o.tag), moved(o.moved), orig(false), pl(o.pl) { o.ok("copied"); if (o.moved) pbt::fail("copy of a moved-from function object"); ++C[cid].fnlive; }
    Fn(Fn && o) noexcept : cid(o.cid), tag(o.tag), moved(o.moved), orig(false), pl(o.pl) { o.ok("moved"); o.moved = true; ++C[cid].fnlive; }
    Fn & operator=(Fn const &) = delete;
    ~Fn() { ok("destroyed"); tag = 0; if (orig) --fn_origs; else --C[cid].fnlive; }
    void ok(char const * w) const {
        CET_PAUSE;
        if (tag != mix(uint64_t(cid) * 3 + 1)) pbt::fail("function object %s in invalid state", w);
        for (int i = 0; i < N; ++i) if (pl.b[i] != (unsigned char)(cid * 7 + i)) pbt::fail("function object of context %d corrupted when %s", cid, w);
        if (reinterpret_cast<uintptr_t>(this) % AL) pbt::fail("function object of context %d is misaligned", cid);
    }
    H call(H && h) {
        ok("called"); if (moved) pbt::fail("moved-from function object called");
        int id = cid;
        if (T[active].cur != id) pbt::fail("function of context %d entered although context %d should be running", id, T[active].cur);
        char const * p = reinterpret_cast<char const *>(this);
        if (!SEG && C[id].lo && !(p >= C[id].lo && p + sizeof(*this) <= C[id].hi)) { /* the library may store it anywhere */ }
        return entry_body(id, std::move(h));
    }
    template<int K2 = KIND> typename std::enable_if<K2 == 0, H>::type operator()(H && h) { return call(std::move(h)); }
    template<int K2 = KIND, class = typename std::enable_if<K2 == 1>::type> H operator()(H h) { return call(std::move(h)); }
};
struct MoveOnlyFn {
    std::unique_ptr<Fn<16, 8, 0>> p;
    explicit MoveOnlyFn(int c) : p(new Fn<16, 8, 0>(c, false)) {}
    MoveOnlyFn(MoveOnlyFn && o) noexcept : p(std::move(o.p)) {}
    H operator()(H && h) { if (!p) pbt::fail("moved-from function object called"); return p->call(std::move(h)); }
};
struct ConstFn {   // callable only as const
    Fn<8, 8, 0> f;
    explicit ConstFn(int c) : f(c) {}
    H operator()(H && h) const { return const_cast<Fn<8, 8, 0> &>(f).call(std::move(h)); }
};
static NI H plain_entry(H && h) { return entry_body(T[active].cur, std::move(h)); }

// ---- creation ---------------------------------------------------------------------------------
static H make_default(int, int kind, int id) {
    (void)kind;
#ifdef M_CALLCC
    return ctx::callcc(Fn<24, 8, 0>(id));
#else
    return H(Fn<24, 8, 0>(id));
#endif
}
template<class A, class F> static H make1(A && a, F && f) {
#ifdef M_CALLCC
    return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#else
    return H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#endif
}
template<class A, class F> static H make2(ctx::preallocated p, A && a, F && f) {
#ifdef M_CALLCC
    return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#else
    return H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#endif
}
// value categories of function and allocator
template<class A, class F> static H with_cat(int id, A & a, F & f, int fcat, int acat, bool pre, size_t presz) {
    if (pre) {
        ctx::stack_context s = a.allocate();
        Ctx & c = C[id];
        char * sp = static_cast<char *>(s.sp) - presz;
        c.pre = reinterpret_cast<unsigned char *>(sp); c.prelen = presz; c.prepat = (unsigned char)(id * 31 + 5);
        for (size_t i = 0; i < presz; ++i) c.pre[i] = (unsigned char)(c.prepat + i);
        ctx::preallocated p(sp, s.size - presz, s);
        if (fcat == 0) return acat ? make2(p, a, std::move(f)) : make2(p, std::move(a), std::move(f));
        F const & cf = f;
        if (fcat == 1) return acat ? make2(p, a, f) : make2(p, std::move(a), f);
        return acat ? make2(p, a, cf) : make2(p, std::move(a), cf);
    }
    if (fcat == 0) return acat ? make1(a, std::move(f)) : make1(std::move(a), std::move(f));
    F const & cf = f;
    if (fcat == 1) return acat ? make1(a, f) : make1(std::move(a), f);
    return acat ? make1(a, cf) : make1(std::move(a), cf);
}
template<class F> static void orig_check(F & f, int fcat) { if (fcat != 0 && f.moved) pbt::fail("an lvalue function object was moved from"); }
static void orig_check(ConstFn & f, int fcat) { if (fcat != 0 && f.f.moved) pbt::fail("an lvalue function object was moved from"); }
template<class A> static void orig_check_a(A & a, int acat) { if (acat != 0 && a.moved) pbt::fail("an lvalue stack allocator was moved from"); }

template<class A> static H create_with(int id, A & a, int fk, int fcat, int acat, bool pre, size_t presz) {
    switch (fk) {
    default:
    case 0: { Fn<8, 8, 0> f(id); H h = with_cat(id, a, f, fcat, acat, pre, presz); orig_check(f, fcat); return h; }
    case 1: { Fn<100, 4, 1> f(id); H h = with_cat(id, a, f, fcat, acat, pre, presz); orig_check(f, fcat); return h; }
    case 2: { Fn<1000, 64, 0> f(id); H h = with_cat(id, a, f, fcat, acat, pre, presz); orig_check(f, fcat); return h; }
    case 3: { ConstFn f(id); H h = with_cat(id, a, f, fcat, acat, pre, presz); orig_check(f, fcat); return h; }
    case 4: {
        H (*pf)(H &&) = plain_entry;
        if (pre) return with_cat(id, a, pf, fcat, acat, pre, presz);
        return acat ? make1(a, plain_entry) : make1(std::move(a), &plain_entry);
    }
    case 5: {
        MoveOnlyFn f(id);
        if (pre) {
            ctx::stack_context s = a.allocate();
            char * sp = static_cast<char *>(s.sp) - presz;
            Ctx & c = C[id]; c.pre = reinterpret_cast<unsigned char *>(sp); c.prelen = presz; c.prepat = (unsigned char)(id * 31 + 5);
            for (size_t i = 0; i < presz; ++i) c.pre[i] = (unsigned char)(c.prepat + i);
            return make2(ctx::preallocated(sp, s.size - presz, s), std::move(a), std::move(f));
        }
        return make1(std::move(a), std::move(f));
    }
    case 6: { Fn<3000, 16, 1> f(id); H h = with_cat(id, a, f, fcat, acat, pre, presz); orig_check(f, fcat); return h; }
    }
}

static int new_ctx() {
    CET_PAUSE;
    int id = nctx++;
    Ctx & c = C[id];
    c = Ctx();
    c.thread = -1; c.destroyer = -1; c.rc = -1; c.ontop_from = -1;
    return id;
}
static void op_new(int self) {
    auto & s = pbt::src();
    int id = new_ctx();
    Ctx & c = C[id];
    c.fp = C[self].fp; c.mask = C[self].mask;
    static int const aw_n[] = { 10, 3, 4, 3, 0, 1 };
    static int const aw_s[] = { 0, 0, 0, 0, 10, 1 };
    int ak = s.pick(SEG ? aw_s : aw_n, NAK);
    int fk = int(s.draw(7)), fcat = int(s.draw(3)), acat = int(s.draw(2));
    bool pre = !SEG && s.chance(1, 4);
    size_t presz = pre ? size_t(s.draw(3) == 0 ? s.draw(64) : s.draw(2000)) : 0;
    size_t size = (SAN ? 96 * 1024 : 40 * 1024) + SIGROOM + s.draw(4) * 7001 + s.draw(64);
    if (SEG) size = 16 * 1024 + s.draw(4) * 16384;
#ifdef M_WIN
    if (ak == AFixed && s.draw(6) == 5) size = (1 << 20) + s.draw(2000) * 1000;   // more than the default reserve of a fiber
#endif
    size_t shift = s.draw(3) == 0 ? s.draw(256) : 0;
    c.fnkind = fk;
    pbt::log("[%d] new %d: allocator %s%s size %zu shift %zu function kind %d category %d alloc-category %d pre %zu\n", self, id, akname[ak], pre ? " (preallocated)" : "", size, shift, fk, fcat, acat, presz);
    ++K.news; K.allocs |= 1 << ak; K.fnkinds |= 1 << fk;
    auto go = [&]() -> H {
        switch (ak) {
        case AArena: { ArenaStack b{ size, shift }; Track<ArenaStack> a(b, id); H h = create_with(id, a, fk, fcat, acat, pre, presz); orig_check_a(a, acat && fk != 5); return h; }
        case AFixed: { Track<ctx::fixedsize_stack> a(ctx::fixedsize_stack(size), id); H h = create_with(id, a, fk, fcat, acat, pre, presz); orig_check_a(a, acat && fk != 5); return h; }
        case APooled: { Track<ctx::pooled_fixedsize_stack> a(*pool, id); H h = create_with(id, a, fk, fcat, acat, pre, presz); orig_check_a(a, acat && fk != 5); return h; }
        case AProt: { Track<ctx::protected_fixedsize_stack> a(ctx::protected_fixedsize_stack(size), id); H h = create_with(id, a, fk, fcat, acat, pre, presz); orig_check_a(a, acat && fk != 5); return h; }
#ifdef BOOST_USE_SEGMENTED_STACKS
        case ASegm: { Track<ctx::segmented_stack> a(ctx::segmented_stack(size), id); H h = create_with(id, a, fk, fcat, acat, pre, presz); orig_check_a(a, acat && fk != 5); return h; }
#endif
        default: return make_default(self, fk, id);
        }
    };
#if defined(M_CET) || defined(M_WIN)
    if (s.draw(12) == 11) {                    // the kernel refuses the shadow stack / the fiber
        ++K.failed_maps; c.st = Done;
        bool thrown = false;
#ifdef M_CET
        cet::refuse = true;
        try { H h(go()); } catch (std::bad_alloc const &) { thrown = true; }
        cet::refuse = false;
#else
        win::refuse = true;
        try { H h(go()); } catch (std::exception const &) { thrown = true; }
        win::refuse = false;
#endif
        if (!thrown) pbt::fail("the operating system refused a resource, but creating the context did not fail");
        if (c.started) pbt::fail("the function of a context that could not be created has run");
        check_env(self); reap_check(id, "failed creation");
        return;
    }
#endif
#ifdef M_CALLCC
    // callcc also transfers control to the new context
    c.st = Fresh; c.wk = WPlain; c.rk = HLive; c.rc = self; c.ontop_from = self;
    leave_to(self, id);
    SwitchScope sc(self, -1, "callcc");
#else
    c.st = Fresh;
#endif
    H h(go());
#ifdef M_CALLCC
    HK k; int rc; sc.normal(k, rc);
    pbt::log("[%d] callcc returned (handle kind %d ctx %d)\n", self, k, rc);
    store(std::move(h), k, rc, "callcc");
#else
    if (c.started || T[active].cur != self) pbt::fail("constructing a fiber ran its function");
    check_env(self);
    if (c.tracked && !SEG && c.deallocs) pbt::fail("stack deallocated on creation");
    store(std::move(h), HLive, id, "constructor");
#endif
}

// ---- on-top functions -------------------------------------------------------------------------
static H ontop_body(int target, uint64_t token, H && arg);
template<int N> struct OnTop {
    int target; uint64_t token; uint64_t chk; unsigned char pl[N];
    OnTop(int t, uint64_t k) : target(t), token(k), chk(mix(k + 9)) { for (int i = 0; i < N; ++i) pl[i] = (unsigned char)(k + unsigned(i)); ++ontop_objs; }
    OnTop(OnTop const & o) : target(o.target), token(o.token), chk(o.chk) { memcpy(pl, o.pl, N); o.ok(); ++ontop_objs; }
    OnTop & operator=(OnTop const &) = delete;
    ~OnTop() { ok(); chk = 0; asm volatile("" : : "r"(this) : "memory"); --ontop_objs; }
    void ok() const {
        if (chk != mix(token + 9)) pbt::fail("on-top function object is invalid or corrupted");
        for (int i = 0; i < N; ++i) if (pl[i] != (unsigned char)(token + unsigned(i))) pbt::fail("on-top function object payload corrupted");
    }
    // the function runs on the target's stack and may end the context that passed it: its state has to outlive that
    struct Alive { OnTop const & o; uint64_t k; ~Alive() { asm volatile("" : : "r"(&o) : "memory"); if (o.token != k) pbt::fail("the state of an on-top function changed while the function was running"); o.ok(); } };
    H operator()(H && h) const { ok(); Alive a{ *this, token }; return ontop_body(target, token, std::move(h)); }
};
struct OnTopByVal {
    OnTop<8> o; OnTopByVal(int t, uint64_t k) : o(t, k) {}
    H operator()(H h) const { o.ok(); OnTop<8>::Alive a{ o, o.token }; return ontop_body(o.target, o.token, std::move(h)); }
};
static NI H plain_ontop(H && h) { int t = T[active].cur; return ontop_body(t, C[t].ontop_token, std::move(h)); }

struct OnTopGuard {
    int self; bool ok; bool thrown;
    explicit OnTopGuard(int s) : self(s), ok(false), thrown(false) { ++C[s].ontop_nest; }
    ~OnTopGuard() {
        --C[self].ontop_nest;
        if (ok || thrown) return;
        Ctx & c = C[self];
        if (T[active].cur != self) pbt::fail("on-top function of context %d unwinds while context %d should run", self, T[active].cur);
        if (c.unwinding) { if (!c.started && !c.ontop_nest) finish_unwound(self); else { c.wk = WDestroy; } }
        else { c.wk = WThrow; }    // a test exception passes through; the suspended call sees it next
    }
};
enum { OT_RET, OT_STASH, OT_OTHER, OT_THROW, OT_STTHROW, OT_NESTED, OT_DROP, OT_TERM, OT_LEAVE, NOT };
static bool can_throw(int c) { return C[c].catch_depth > 0 && C[c].pin_depth == 0 && !C[c].unwinding && C[c].started; }

struct Frame;
static void destroy_handle(int self, H && h, int victim, int how, char const * what);

static NI H ontop_body(int target, uint64_t token, H && arg) {
    auto & s = pbt::src();
    int self = target;
    Ctx & c = C[self];
    if (c.ontop_token != token || !token) pbt::fail("on-top function for context %d ran %s", self, c.ontop_token ? "instead of another one" : "although it is not pending (run twice?)");
    c.ontop_token = 0;
    OnTopGuard g(self);
    wake_checks(self, "on-top function");
    int from = c.ontop_from;
    if (!static_cast<bool>(arg)) pbt::fail("on-top function got an invalid handle");
    if (C[from].st != Susp) pbt::harness_error("ontop from");
    if (c.wk != WPlain) pbt::harness_error("ontop wk");
    c.wk = WNone;
    int w[NOT];
    for (int i = 0; i < NOT; ++i) w[i] = P.ontop_w[i];
    if (!can_throw(self)) w[OT_THROW] = w[OT_STTHROW] = 0;
    bool has_other = false; for (int i = 0; i < NSLOT; ++i) has_other |= S[i].k == HLive && !S[i].busy && C[S[i].c].st != Run;
    if (!has_other) w[OT_OTHER] = 0;
    if (!destroyable(from) || drain) w[OT_DROP] = w[OT_LEAVE] = 0;
    bool has_term = false; for (int i = 0; i < NSLOT; ++i) has_term |= S[i].k == HTerm && !S[i].busy;
    if (!has_term) w[OT_TERM] = 0;
    if (budget <= 0 || drain || c.depth > 8) w[OT_NESTED] = 0;
    if (drain) w[OT_THROW] = w[OT_STTHROW] = 0;
    int k = s.pick(w, NOT);
    if (k < 0) k = OT_RET;
    pbt::log("  [%d] on-top function #%lu from %d: mode %d\n", self, (unsigned long)token, from, k);
    auto leave = [&](HK rk, int rc) { c.wk = WPlain; c.rk = rk; c.rc = rc; g.ok = true; };
    switch (k) {
    case OT_RET: leave(HLive, from); return std::move(arg);
    case OT_STASH: store(std::move(arg), HLive, from, "on-top argument"); ++K.stash; leave(HEmpty, -1); return H();
    case OT_OTHER: case OT_TERM: {
        store(std::move(arg), HLive, from, "on-top argument");
        int sl = pick_slot(k == OT_OTHER ? p_live : p_term);
        if (sl < 0) pbt::harness_error("other");
        ++K.other;
        HK rk = S[sl].k; int rc = S[sl].c;
        H r(std::move(S[sl].h)); S[sl].k = HEmpty; S[sl].c = -1;
        leave(rk, rc);
        return r;
    }
    case OT_THROW: case OT_STTHROW: {
        uint64_t e = ++excs;
        TestExc ex(e, self);
        if (k == OT_THROW) { ex.h = std::move(arg); ex.k = HLive; ex.c = from; ++K.inflight; }
        else store(std::move(arg), HLive, from, "on-top argument");
        c.wk = WThrow; c.exc = e; g.thrown = true;
        ++K.thrown_ontop;
        throw ex;
    }
    case OT_NESTED: {
        ++K.nestedontop;
        store(std::move(arg), HLive, from, "on-top argument");
        interp(self, s.range(1, 6), false);
        int sl = pick_slot(p_live);
        if (sl >= 0 && s.flip()) {
            int rc = S[sl].c;
            H r(std::move(S[sl].h)); S[sl].k = HEmpty; S[sl].c = -1;
            leave(HLive, rc);
            return r;
        }
        leave(HEmpty, -1);
        return H();
    }
    case OT_DROP: {
        ++K.drops;
        destroy_handle(self, std::move(arg), from, 0, "dropping the resumer's handle in an on-top function");
        leave(HEmpty, -1);
        return H();
    }
    case OT_LEAVE: {
        ++K.leaves;
        int sl = s.flip() ? pick_slot(p_destroyable) : -1;   // nobody may need the handle meanwhile
        H r; c.lk = HEmpty; c.lc = -1;
        if (sl >= 0) { r = std::move(S[sl].h); c.lk = HLive; c.lc = S[sl].c; S[sl].k = HEmpty; S[sl].c = -1; }
        Ctx & v = C[from];
        pbt::log("  [%d] leaves the handle of %d (%d frames) alone\n", self, from, v.nframes);
        ++K.destroys; ++K.destroys_susp; if (c.unwinding) ++K.destroys_nested;
        c.leaving = from + 1;
        v.unwinding = true; v.destroyer = self; v.wk = WDestroy; v.st = Run; v.thread = active;
        c.st = Blocked; T[active].cur = from; c.wk = WNone;
        ++c.pin_depth; if (!c.base) c.thread = active;
        ++K.switches; g.ok = true;
        return r;
    }
    }
    leave(HEmpty, -1);
    return H();
}

static void op_resume(int self, int sl, bool with) {
    auto & s = pbt::src();
    int t = S[sl].c;
    Ctx & tc = C[t];
    bool assign_back = s.flip();
    int fk = with ? int(s.draw(6)) : 0;
    uint64_t token = 0;
    if (with) {
        token = ++tokens; ++K.withs; if (tc.st == Fresh) ++K.freshwith;
    } else ++K.resumes;
    pbt::log("[%d] %s %d (%s)%s\n", self, with ? "resume_with" : "resume", t, stname[tc.st], assign_back ? " assigning back" : "");
    tc.wk = WPlain; tc.rk = HLive; tc.rc = self; tc.ontop_token = token; tc.ontop_from = self;
    S[sl].k = HEmpty; S[sl].c = -1;
    if (assign_back) S[sl].busy = 1;
    leave_to(self, t);
    // live values across the switch
    uint64_t volatile seedv = uint64_t(self) * 1000003u + tokens * 17 + uint64_t(K.switches);
    uint64_t sd = seedv;
    uint64_t a = mix(sd), b = mix(sd + 1), cc = mix(sd + 2), d = mix(sd + 3), e = mix(sd + 4), f = mix(sd + 5);
    double x = double(int32_t(a)), y = double(int32_t(b));
    long double lx = (long double)int32_t(cc);
    OPAQUE(a); OPAQUE(b); OPAQUE(cc); OPAQUE(d); OPAQUE(e); OPAQUE(f);
    HK k; int rc;
    {
        SwitchScope sc(self, assign_back ? sl : -1, with ? "resume_with" : "resume");
        H & hh = S[sl].h;
        auto call = [&]() -> H {
#ifdef M_CALLCC
            if (!with) { if (assign_back) return hh.resume(); return std::move(hh).resume(); }
#else
            if (!with) return std::move(hh).resume();
#endif
#ifdef M_CALLCC
            if (assign_back) switch (fk) {
            default:
            case 0: return hh.resume_with(OnTop<8>(t, token));
            case 1: { OnTop<8> fn(t, token); return hh.resume_with(fn); }
            case 2: { OnTop<200> const fn(t, token); return hh.resume_with(fn); }
            case 3: return hh.resume_with(plain_ontop);
            case 4: return hh.resume_with(OnTopByVal(t, token));
            case 5: return hh.resume_with([t, token](H && h) { return ontop_body(t, token, std::move(h)); });
            }
#endif
            switch (fk) {
            default:
            case 0: return std::move(hh).resume_with(OnTop<8>(t, token));
            case 1: { OnTop<8> fn(t, token); return std::move(hh).resume_with(fn); }
            case 2: { OnTop<200> const fn(t, token); return std::move(hh).resume_with(fn); }
            case 3: return std::move(hh).resume_with(plain_ontop);
            case 4: return std::move(hh).resume_with(OnTopByVal(t, token));
            case 5: return std::move(hh).resume_with([t, token](H && h) { return ontop_body(t, token, std::move(h)); });
            }
        };
        if (assign_back) {
            hh = call();
            sc.normal(k, rc);
        } else {
            H r(call());
            sc.normal(k, rc);
            if (k == HLive && !r) pbt::fail("resume of %d returned an invalid handle", t);
            store(std::move(r), k, rc, with ? "resume_with" : "resume");
        }
    }
    uint64_t sd2 = seedv;
    if (a != mix(sd2) || b != mix(sd2 + 1) || cc != mix(sd2 + 2) || d != mix(sd2 + 3) || e != mix(sd2 + 4) || f != mix(sd2 + 5))
        pbt::fail("local values of context %d changed across a switch", self);
    if (x != double(int32_t(a)) || y != double(int32_t(b)) || lx != (long double)int32_t(cc)) pbt::fail("floating point locals of context %d changed across a switch", self);
    if (assign_back) {
        S[sl].busy = 0;
        bool bb = static_cast<bool>(S[sl].h);
        if (bb != (k == HLive)) pbt::fail("resume: assigned handle reports %s, expected a handle to %s", bb ? "true" : "false", k == HLive ? "a suspended context" : k == HTerm ? "a finished context" : "nothing");
        S[sl].k = k; S[sl].c = rc;
        if (k == HEmpty) S[sl].c = -1;
        if (k == HTerm && count_free() < 16) drop_term(sl);
    }
    pbt::log("[%d] back from %s (handle kind %d ctx %d)\n", self, with ? "resume_with" : "resume", k, rc);
}

// destroys the handle h denoting `victim`
static void destroy_handle(int self, H && h, int victim, int how, char const * what) {
    Ctx & v = C[victim];
    Ctx & c = C[self];
    bool fresh = v.st == Fresh;
    pbt::log("[%d] destroy %d (%s, %d frames) by %s, %d\n", self, victim, stname[v.st], v.nframes, what, how);
    ++K.destroys; if (fresh) ++K.destroys_fresh; else ++K.destroys_susp;
    if (c.unwinding) ++K.destroys_nested;
    if (v.ontop_token) pbt::harness_error("destroy pending");
    v.unwinding = true;
    if (fresh) { finish(victim, "never started"); }
    else {
        v.destroyer = self; v.wk = WDestroy; v.st = Run; v.thread = active;
        c.st = Blocked; T[active].cur = victim; c.wk = WNone;
        ++c.pin_depth; if (!c.base) c.thread = active;
        ++K.switches;
    }
    switch (how) {
    default:
    case 0: { H tmp(std::move(h)); break; }
    case 1: h = H(); break;
    case 2: { H * p = new H(std::move(h)); delete p; break; }
    case 3: { std::vector<H> vv; vv.push_back(std::move(h)); vv.clear(); break; }
    case 4: h.~H(); new (&h) H(); break;
    case 5: { H tmp; tmp.swap(h); break; }
    }
    if (static_cast<bool>(h)) pbt::fail("handle still valid after destroying the context");
    if (!fresh) {
        if (c.st != Run || c.wk != WReturnedFromDestroy) pbt::fail("%s: control came back to context %d before context %d was completely unwound (%d frames left)", what, self, victim, v.nframes);
        c.wk = WNone; --c.pin_depth; repin(self);
    }
    wake_checks(self, what);
    if (v.st != Done) pbt::fail("destroyed context %d is not finished", victim);
    reap_check(victim, what);
    pbt::log("[%d] destroy of %d returned\n", self, victim);
}
static void op_destroy(int self, int sl) {
    int v = S[sl].c;
    S[sl].busy = 1; S[sl].k = HEmpty; S[sl].c = -1;
    destroy_handle(self, std::move(S[sl].h), v, int(pbt::src().draw(6)), "destroying a handle");
    S[sl].busy = 0;
}

static void op_move(int self) {
    auto & s = pbt::src();
    int kind = int(s.draw(6));
    int a = pick_slot(p_any);
    if (a < 0) return;
    auto any_nonbusy = [&]() { for (int g = 0; g < 40; ++g) { int i = int(s.draw(12)); if (!S[i].busy) return i; } return -1; };
    switch (kind) {
    case 0: {   // move-assign to an empty slot
        int b = free_slot(); if (b < 0) return;
        ++K.moves; S[b].h = std::move(S[a].h); S[b].k = S[a].k; S[b].c = S[a].c; S[a].k = HEmpty; S[a].c = -1; break;
    }
    case 1: { int b = any_nonbusy(); if (b < 0) return; ++K.swaps; S[a].h.swap(S[b].h); std::swap(S[a].k, S[b].k); std::swap(S[a].c, S[b].c); break; }
    case 2: { int b = any_nonbusy(); if (b < 0) return; ++K.swaps; using std::swap; if (s.flip()) swap(S[a].h, S[b].h); else std::swap(S[a].h, S[b].h); std::swap(S[a].k, S[b].k); std::swap(S[a].c, S[b].c); break; }
    case 3: { ++K.selfmoves; H & r = S[a].h; H * p = &r; OPAQUE(p); r = std::move(*p); break; }
    case 4: { ++K.moves; H tmp(std::move(S[a].h)); if (S[a].h) pbt::fail("moved-from handle reports true"); bool b = static_cast<bool>(tmp); if (b != (S[a].k == HLive)) pbt::fail("moved-to handle reports %d", int(b)); S[a].h = std::move(tmp); if (tmp) pbt::fail("moved-from handle reports true"); break; }
    case 5: {   // overwrite an occupied slot
        int b = any_nonbusy(); if (b < 0 || b == a) return;
        if (S[b].k == HLive && !destroyable(S[b].c)) return;
        if (S[b].k == HLive && S[a].k == HLive && !destroyable(S[a].c)) return;   // somebody may need that handle while the slot is busy
        if (C[self].pin_depth && S[b].k == HLive && C[self].nframes > 10) return;
        ++K.moves;
        HK ok = S[b].k; int oc = S[b].c;
        S[a].busy = S[b].busy = 1;
        HK nk = S[a].k; int nc = S[a].c;
        S[a].k = HEmpty; S[a].c = -1; S[b].k = nk; S[b].c = nc;
        if (ok == HLive) {
            Ctx & v = C[oc]; Ctx & c = C[self];
            bool fresh = v.st == Fresh;
            pbt::log("[%d] overwrite the handle of %d (%s)\n", self, oc, stname[v.st]);
            ++K.destroys; if (fresh) ++K.destroys_fresh; else ++K.destroys_susp;
            v.unwinding = true;
            if (fresh) finish(oc, "never started");
            else { v.destroyer = self; v.wk = WDestroy; v.st = Run; v.thread = active; c.st = Blocked; T[active].cur = oc; c.wk = WNone; ++c.pin_depth; if (!c.base) c.thread = active; ++K.switches; }
            S[b].h = std::move(S[a].h);
            if (!fresh) {
                if (c.st != Run || c.wk != WReturnedFromDestroy) pbt::fail("assignment returned before context %d was unwound", oc);
                c.wk = WNone; --c.pin_depth; repin(self);
            }
            S[a].busy = S[b].busy = 0;
            wake_checks(self, "assignment");
            reap_check(oc, "assignment");
        } else {
            S[b].h = std::move(S[a].h);
            S[a].busy = S[b].busy = 0;
            if (ok == HTerm) reap_check(oc, "assignment over a finished context's handle");
        }
        break;
    }
    }
    pbt::log("[%d] handle shuffle kind %d\n", self, kind);
    check_slots();
}

static void op_check(int self) {
    CET_PAUSE;
    (void)self;
    int n = 0; int idx[NSLOT];
    for (int i = 0; i < NSLOT; ++i) if (!S[i].busy && S[i].k == HLive) idx[n++] = i;
    H e;
    for (int i = 0; i < n; ++i) {
        H & a = S[idx[i]].h;
        if (a < a) pbt::fail("operator< is not irreflexive");
        if (!(e < a) || (a < e)) { if ((e < a) == (a < e)) pbt::fail("operator< does not distinguish a live handle from an empty one"); }
        for (int j = i + 1; j < n; ++j) {
            H & b = S[idx[j]].h;
            if ((a < b) == (b < a)) pbt::fail("operator< does not order two handles of distinct contexts");
            for (int k = 0; k < n; ++k) if (k != i && k != j) { H & c2 = S[idx[k]].h; if ((a < b) && (b < c2) && !(a < c2)) pbt::fail("operator< is not transitive");
                if ((b < a) && (a < c2) && !(b < c2)) pbt::fail("operator< is not transitive"); }
        }
        std::ostringstream os; os << a;
        if (os.str() == "{not-a-context}" || os.str().empty()) pbt::fail("a live handle prints %s", os.str().c_str());
    }
    if (e < e) pbt::fail("operator< on empty handles");
    std::ostringstream os; os << e << '|';
    for (int i = 0; i < NSLOT; ++i) if (!S[i].busy && S[i].k != HLive) { std::ostringstream o2; o2 << S[i].h; if (o2.str() != "{not-a-context}") pbt::fail("an empty handle prints %s", o2.str().c_str()); }
    if (os.str() != "{not-a-context}|") pbt::fail("an empty handle prints %s", os.str().c_str());
    std::wostringstream ws; ws << e;
    check_slots();
}

static void op_setfp(int self) {
    CET_PAUSE;
    auto & s = pbt::src();
    Fp & f = C[self].fp;
    uint32_t mx = f.mx; uint16_t cw = f.cw;
    int k = int(s.draw(4));
    if (k == 0 || k == 3) mx = (mx & ~0x6000u) | (s.draw(4) << 13);
    if (k == 1 || k == 3) { mx = (mx & ~(0x8040u)) | (s.flip() ? 0x8000u : 0) | (s.flip() ? 0x0040u : 0); cw = uint16_t((cw & ~0x0300u) | (s.draw(3) == 0 ? 0x0200u : 0x0300u)); }
    if (k == 2 || k == 3) {
        uint32_t bits = s.draw(8);    // unmask invalid / div-by-zero / overflow (never raised by the harness)
        mx = (mx & ~0x0680u) | ((bits & 1) ? 0 : 0x0080u) | ((bits & 2) ? 0 : 0x0200u) | ((bits & 4) ? 0 : 0x0400u);
        cw = uint16_t((cw & ~0x0c00u) | (s.draw(4) << 10));
        cw = uint16_t((cw & ~0x000du) | ((bits & 1) ? 0 : 0x0001u) | ((bits & 2) ? 0 : 0x0004u) | ((bits & 4) ? 0 : 0x0008u));
    }
    if (mx != f.mx || cw != f.cw) ++K.setfp;
    f.mx = mx; f.cw = cw;
    set_mx(mx | 0x0000u); set_cw(cw);
    if (get_mx() != mx || get_cw() != cw) pbt::harness_error("fp set %x %x %x %x", get_mx(), mx, get_cw(), cw);
    pbt::log("[%d] fp control := mxcsr %#x cw %#x\n", self, mx, cw);
}
static void op_setmask(int self) {
    CET_PAUSE;
    unsigned m = pbt::src().draw(16);
    ++K.setmask;
    C[self].mask = m; T[active].mask = m;
    set_mask(m);
    pbt::log("[%d] signal mask := %#x\n", self, m);
}

// ---- frames -----------------------------------------------------------------------------------
enum FK { FPlain, FHold, FCatch, FRethrow, FActive, NFK };
struct Frame {
    int self, serial, kind; uint64_t can[6]; H h; HK hk; int hc;
    Frame(int s, int k) : self(s), serial(++frame_serial), kind(k), hk(HEmpty), hc(-1) {
        ++guard_objs;
        Ctx & c = C[self];
        c.fr[c.nframes].serial = serial; c.fr[c.nframes].kind = k; ++c.nframes;
        for (int i = 0; i < 6; ++i) can[i] = mix(uint64_t(serial) * 64 + unsigned(i));
        if (K.maxdepth < c.nframes) K.maxdepth = c.nframes;
    }
    Frame(Frame const &) = delete;
    void verify(char const * w) {
        for (int i = 0; i < 6; ++i) if (can[i] != mix(uint64_t(serial) * 64 + unsigned(i))) pbt::fail("stack memory of context %d corrupted (%s)", self, w);
    }
    ~Frame() {
        --guard_objs;
        Ctx & c = C[self];
        if (T[active].cur != self) pbt::fail("destructor on the stack of context %d runs while context %d should run", self, T[active].cur);
        verify("destructor");
        check_on_stack(self, "a destructor");
        check_env(self);
        if (c.nframes <= 0 || c.fr[c.nframes - 1].serial != serial) pbt::fail("destructors of context %d run out of order", self);
        if (c.unwinding) ++K.framesunwound;
        if (hk != HEmpty) {
            ++c.pin_depth; repin(self);
            if (hk == HLive) { ++K.cascaded; destroy_handle(self, std::move(h), hc, 0, "destroying a handle owned by a stack frame"); }
            else { { H tmp(std::move(h)); } reap_check(hc, "destroying a finished context's handle owned by a frame"); }
            --c.pin_depth; repin(self);
            hk = HEmpty;
        }
        if (kind == FActive && !drain && budget > 0) {
            ++c.pin_depth; repin(self);
            ++K.activeops;
            // if an exception is in flight here it must not count as pending for nested switches
            WK wk = c.wk; uint64_t ex = c.exc; int cd = c.catch_depth; bool unw = c.unwinding; int dst = c.destroyer;
            c.wk = WNone; c.catch_depth = 0;
            pbt::log("  [%d] active destructor\n", self);
            interp(self, pbt::src().range(1, 4), true);
            c.wk = wk; c.exc = ex; c.catch_depth = cd; c.unwinding = unw; c.destroyer = dst;
            --c.pin_depth; repin(self);
        }
        --c.nframes;
    }
};
struct DepthGuard { int self; int cd; explicit DepthGuard(int s) : self(s), cd(C[s].catch_depth) { ++C[s].depth; } ~DepthGuard() { --C[self].depth; } };
struct CatchDepth { int self; explicit CatchDepth(int s) : self(s) { ++C[s].catch_depth; } ~CatchDepth() { --C[self].catch_depth; } };

// called with the caught exception already copied out and the handler left
static void after_catch(int self, uint64_t serial, int target, uint64_t chk, H && h, HK k, int hc) {
    Ctx & c = C[self];
    if (T[active].cur != self) pbt::fail("context %d caught an exception while context %d should run", self, T[active].cur);
    if (target != self || chk != mix(serial) || c.exc != serial) pbt::fail("context %d caught exception #%lu meant for context %d (expected #%lu)", self, (unsigned long)serial, target, (unsigned long)c.exc);
    c.exc = 0; c.wk = WNone; ++K.caught;
    if (c.unwinding) pbt::fail("context %d caught a test exception during forced unwinding", self);
    wake_checks(self, "handler");
    if (k != HEmpty) store(std::move(h), k, hc, "handle carried by an exception");
    pbt::log("  [%d] caught exception #%lu\n", self, (unsigned long)serial);
}

static NI void op_push(int self, int nb, bool nosusp) {
    auto & s = pbt::src();
    int w[NFK] = { P.bare, 20, 20, 10, 15 };
    Ctx & c = C[self];
    if (c.depth > 7 || c.nframes > MAXF - 6) return;
    int kind = s.pick(w, NFK);
    int hold = -1;
    if (kind == FHold) {
        hold = pick_slot(p_destroyable);
        if (hold < 0 && s.flip()) hold = pick_slot(p_term);
        // a frame of the base context or of a pinned one may own a handle too: it is destroyed on the way out
        if (hold < 0) kind = FPlain;
    }
    pbt::log("[%d] push frame kind %d\n", self, kind);
    if (kind == FCatch) {
        bool got = false; uint64_t serial = 0, chk = 0; int target = -1; H h; HK hk = HEmpty; int hc = -1;
        {
            try {
                CatchDepth cd(self);
                Frame f(self, kind);
                interp(self, nb, nosusp);
                f.verify("frame");
            } catch (TestExc & e) {
                got = true; serial = e.serial; chk = e.chk; target = e.target; hk = e.k; hc = e.c; e.k = HEmpty;
                h = std::move(e.h);
            }
        }
        if (got) after_catch(self, serial, target, chk, std::move(h), hk, hc);
    } else if (kind == FRethrow) {
        Frame outer(self, FPlain);
        try {
            Frame f(self, kind);
            interp(self, nb, nosusp);
            f.verify("frame");
        } catch (...) { ++K.rethrown; throw; }
        outer.verify("frame");
    } else if (kind == FHold) {
        Frame f(self, kind);
        f.h = std::move(S[hold].h); f.hk = S[hold].k; f.hc = S[hold].c; S[hold].k = HEmpty; S[hold].c = -1;
        interp(self, nb, nosusp);
        f.verify("frame");
        if (static_cast<bool>(f.h) != (f.hk == HLive)) pbt::fail("a handle owned by a stack frame changed");
    } else {
        Frame f(self, kind);
        interp(self, nb, nosusp);
        f.verify("frame");
    }
    pbt::log("[%d] popped frame kind %d\n", self, kind);
}

// use a lot of stack, switch below it, verify it afterwards
static NI void deep_rec(int self, size_t bytes, int nb, bool nosusp, uint64_t sd) {
    size_t const CH = 1024;
    volatile unsigned char buf[CH];
    { CET_PAUSE; for (size_t i = 0; i < CH; i += 8) { uint64_t v = mix(sd + i); memcpy(const_cast<unsigned char *>(buf) + i, &v, 8); } }
    __asm__ volatile("" ::: "memory");
    size_t used = CH + 160;
    if (bytes > used && bytes - used < bytes) deep_rec(self, bytes - used, nb, nosusp, sd + 1);
    else interp(self, nb, nosusp);
    __asm__ volatile("" ::: "memory");
    CET_PAUSE;
    for (size_t i = 0; i < CH; i += 8) { uint64_t v = mix(sd + i), r; memcpy(&r, const_cast<unsigned char *>(buf) + i, 8); if (r != v) pbt::fail("deep stack memory of context %d corrupted", self); }
}
#ifdef M_CET
static NI void small_rec(uint32_t n) {
    if (n) small_rec(n - 1);
    __asm__ volatile("" ::: "memory");
}
#endif
static NI void op_deep(int self, bool nosusp) {
    auto & s = pbt::src();
    Ctx & c = C[self];
    char probe; char const * p = &probe; __asm__ volatile("" : "+r"(p));
    size_t avail;
    if (SEG) avail = size_t(s.draw(6) == 0 ? s.draw(900) : s.draw(120)) * 1024;
    else if (c.base
#ifdef M_WIN
        && !c.app
#endif
        ) avail = s.draw(64) * 1024;
#ifdef M_WIN
    else if (c.size || c.app) {
        long a = long(c.app ? size_t(win::cur()->hi - win::cur()->lo) : c.size) - (win::cur()->hi - p) - 26 * 1024 - SIGROOM;
        if (a < 2048) return;
        avail = size_t(a); if (s.draw(3)) avail = s.draw(uint32_t(avail));
    }
#endif
    else if (c.lo && !M_ASAN) {
        long a = long(p - c.wlo) - (SAN ? 60 * 1024 : 26 * 1024) - SIGROOM;
        if (a < 2048) return;
        avail = size_t(a); if (s.draw(3)) avail = s.draw(uint32_t(avail));
    } else avail = s.draw(8) * 1024;
    if (c.depth > 7) return;
    ++K.deep;
    pbt::log("[%d] deep %zu bytes\n", self, avail);
#ifdef M_CET
    // many small frames: one shadow stack entry for each of them is needed
    if (s.draw(3) == 0) { small_rec(uint32_t(avail / 16)); return; }
#endif
    deep_rec(self, avail, s.range(1, 4), nosusp, mix(uint64_t(++frame_serial)));
    pbt::log("[%d] deep done\n", self);
}

#ifdef M_WIN
// a context runs a fiber of the application and is left from it
struct AppFiber { int self, nb; bool nosusp; void * back; std::exception_ptr ep; };
static VOID CALLBACK app_main(LPVOID p) {
    AppFiber * a = static_cast<AppFiber *>(p);
    try { interp(a->self, a->nb, a->nosusp); } catch (...) { a->ep = std::current_exception(); }
    SwitchToFiber(a->back);
    pbt::fail("a finished fiber of the application was switched to");
}
static NI void op_appfiber(int self, bool nosusp) {
    Ctx & c = C[self];
    if (c.depth > 7 || !IsThreadAFiber()) return;
    AppFiber a{ self, pbt::src().range(1, 4), nosusp, GetCurrentFiber(), nullptr };
    void * before = c.app, * b = CreateFiber(200 * 1024, app_main, &a);
    if (!b) pbt::harness_error("CreateFiber");
    ++K.appfibers; pbt::log("[%d] switches to a fiber of the application\n", self);
    c.app = b; SwitchToFiber(b); c.app = before;
    if (win::cur() != a.back) pbt::fail("a fiber of the application returned to another fiber");
    DeleteFiber(b);
    pbt::log("[%d] back from the fiber of the application\n", self);
    if (a.ep) std::rethrow_exception(a.ep);
}
#endif

// ---- threads ----------------------------------------------------------------------------------
static void baton_to(int from, int to) {
    active = to;
    sem_post(&T[to].sem);
    while (sem_wait(&T[from].sem)) {}
}
static void thread_main(int t) {
    while (sem_wait(&T[t].sem)) {}
    int self = T[t].base;
    Ctx & c = C[self];
    c.fp.mx = get_mx(); c.fp.cw = get_cw(); c.mask = T[t].mask = get_mask();
#ifdef M_WIN
    bool const own = pbt::src().flip();      // the application uses fibers as well
    if (own) ConvertThreadToFiber(nullptr);
#endif
    pthread_attr_t at; void * lo; size_t sz;
    if (!SEG && pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); c.lo = c.wlo = static_cast<char *>(lo); c.hi = c.lo + sz; }
    pbt::log("[%d] thread %d starts\n", self, t);
    for (;;) {
        interp(self, 1 << 20, false);
        // a thread may only end when nothing is bound to it
        bool bound = false;
        for (int i = 0; i < nctx; ++i) if (i != self && C[i].thread == t && C[i].st != Done) bound = true;
        if (!bound) break;
        int s = pick_slot(p_nondestr_here);
        if (s < 0) pbt::harness_error("thread %d cannot end", t);
        op_resume(self, s, false);
    }
    if (T[t].cur != self) pbt::harness_error("thread cur");
    pbt::log("[%d] thread %d ends\n", self, t);
    C[self].st = Done; C[self].lo = C[self].hi = C[self].wlo = nullptr;
#ifdef M_WIN
    if (own) ConvertFiberToThread();
#endif
    T[t].finished = true; T[t].alive = false;
    active = 0;
    SIG_STOP();
    sem_post(&T[0].sem);
}
static void op_thread(int self) {
    auto & s = pbt::src();
    SIG_STOP();                    // glibc blocks the signal while it creates or ends a thread
    int n = 0, cand[MAXT];
    for (int i = 0; i < nth; ++i) if (i != active && T[i].alive) cand[n++] = i;
    bool can_new = nth <= P.threads && nth < MAXT && nctx < MAXC - 2;
    int r = int(s.draw(uint32_t(n + (can_new ? 1 : 0)) ));
    if (n + can_new == 0) return;
    ++K.thsw;
    int to;
    if (r < n) to = cand[r];
    else {
        to = nth;
        int b = new_ctx();
        C[b].base = true; C[b].st = Run; C[b].started = true; C[b].thread = to; C[b].fnkind = -1;
        T[to].base = b; T[to].cur = b; T[to].alive = true; T[to].finished = false; T[to].joined = false;
        sem_init(&T[to].sem, 0, 0);
        int tt = to;
        // the child's own pthread_self is recorded before it ever becomes active
        T[to].th = std::thread([tt] { thread_main(tt); });
        T[to].self = T[to].th.native_handle();
        ++nth;
    }
    int me = active;
    pbt::log("[%d] thread %d hands over to thread %d\n", self, me, to);
    baton_to(me, to);
    wake_checks(self, "after a thread hand-over");
}

// ---- the interpreter --------------------------------------------------------------------------
enum { O_NEW, O_RESUME, O_WITH, O_DESTROY, O_MOVE, O_PUSH, O_POP, O_THROW, O_DEEP, O_SETFP, O_SETMASK, O_THREAD, O_CHECK, O_RETURN, NOP };
static unsigned op_history;
static NI void interp(int self, int nb, bool nosusp) {
    DepthGuard dg(self);
    Ctx & c = C[self];
    auto & s = pbt::src();
    uint64_t ca = mix(uint64_t(self) + 31 * uint64_t(frame_serial)), cb = ca;
    OPAQUE(ca);
    for (;;) {
        if (ca != cb) pbt::fail("a local value of context %d changed", self);
        if (budget <= 0 || s.exhausted()) { if (!drain) { drain = true; pbt::log("-- drain --\n"); } }
        if (drain || nb <= 0) return;
        int op, lv;
        {
            CET_PAUSE;
            --budget; --nb;
            lv = live_ctx(); if (lv > K.maxlive) K.maxlive = lv;
            int w[NOP] = { P.w_new, P.w_resume, P.w_with, P.w_destroy, P.w_move, P.w_push, P.w_pop, P.w_throw, P.w_deep, P.w_setfp, P.w_setmask, opt_threads_ok ? P.w_thread : 0, P.w_check, P.w_return };
            if (nctx >= P.maxctx || nctx >= MAXC - 2 || lv >= P.maxlive || count_free() < 12) w[O_NEW] = 0;
            bool res = false, des = false, any = false;
            for (int i = 0; i < NSLOT; ++i) if (!S[i].busy) { res |= p_resumable(i); des |= p_destroyable(i); any |= S[i].k != HEmpty; }
            if (!res) w[O_RESUME] = w[O_WITH] = 0;
            if (!des) w[O_DESTROY] = 0;
            if (!any) w[O_MOVE] = 0;
            if (c.depth <= 1) w[O_POP] = 0;                     // depth counts this interp
            if (!can_throw(self)) w[O_THROW] = 0;
            if (c.depth > 1 || nosusp || c.unwinding || (c.base && c.thread == 0) || (!c.base && !res)) w[O_RETURN] = 0;
            if (c.base && active != 0) w[O_RETURN] = w[O_RETURN] ? 2 : 0;
            if (c.base && c.thread == 0) w[O_RETURN] = 0;
            op = s.pick(w, NOP);
        }
        pbt::sh()->worksum = pbt::sh()->worksum + 1;
        // situations for the coverage feedback: the last four operations of the case, and the operation with the state it is executed in
        op_history = (op_history << 4 | unsigned(op)) & 0xffff;
        pbt::feature(op_history);
        pbt::feature(0x10000u | unsigned(op) << 12 | unsigned(std::min(c.depth, 7)) << 9 | unsigned(std::min(lv, 7)) << 6 | unsigned(c.unwinding) << 5 | unsigned(c.base) << 4 | unsigned(nosusp) << 3 | unsigned(std::min(c.nframes, 7)));
#ifdef M_SIG
        if (s.draw(3) == 0) { ++K.sigs; sig::burst(20 + long(s.draw(2500))); }
#endif
        switch (op) {
        case O_NEW: op_new(self); break;
        case O_RESUME: case O_WITH: {
            int sl = pick_slot(p_resumable);
            op_resume(self, sl, op == O_WITH);
            break;
        }
        case O_DESTROY: op_destroy(self, pick_slot(p_destroyable)); break;
        case O_MOVE: op_move(self); break;
        case O_PUSH: op_push(self, s.range(1, 12), nosusp); break;
        case O_POP: return;
        case O_THROW: {
            uint64_t e = ++excs;
            c.exc = e; ++K.throws;
            pbt::log("[%d] throw #%lu\n", self, (unsigned long)e);
            throw TestExc(e, self);
        }
        case O_DEEP: op_deep(self, nosusp); break;
#ifdef M_WIN
        case O_SETFP: op_appfiber(self, nosusp); break;
#else
        case O_SETFP: op_setfp(self); break;
#endif
        case O_SETMASK: op_setmask(self); break;
        case O_THREAD: op_thread(self); break;
        case O_CHECK: op_check(self); break;
        case O_RETURN: return;
        default: drain = true; return;
        }
    }
}

// ---- one case ---------------------------------------------------------------------------------
static uint32_t mx0; static uint16_t cw0;
static bool nontrivial_rule();
static void warmup();
static char const * g_profile = "mix";

static bool run_case(pbt::Src & s) {
    long blocks0 = g_blocks;
    for (auto & p : profiles) if (!strcmp(p.name, g_profile)) P = p;
#ifdef M_WIN
    P.w_setmask = 0; P.w_setfp = 2;    // (fibers of the application) Windows fibers created by CreateFiber() do not switch the floating point state
#endif
#ifdef M_REALVG
    P.w_setfp = 0;      // valgrind does not model the floating point control registers
#endif
    memset(static_cast<void *>(&K), 0, sizeof K);
    nctx = 0; nth = 1; drain = false; op_history = 0; tokens = 0; excs = 0; frame_serial = 0; alloc_objs = ontop_objs = guard_objs = fn_origs = 0; active = 0;
    arena_reset();
    S = reinterpret_cast<Slot *>(slotmem);
    for (int i = 0; i < NSLOT; ++i) { new (&S[i].h) H(); S[i].k = HEmpty; S[i].c = -1; S[i].busy = 0; }
    chk_mask = P.w_setmask > 0;
    int b = new_ctx();
    C[b].base = true; C[b].st = Run; C[b].started = true; C[b].thread = 0; C[b].fnkind = -1;
    C[b].fp = Fp{ mx0, cw0 };
    if (chk_mask) C[b].mask = T[0].mask = get_mask();
    T[0].alive = true; T[0].base = b; T[0].cur = b; T[0].self = pthread_self();
    sem_init(&T[0].sem, 0, 0);
    ctx::pooled_fixedsize_stack local_pool(POOLSZ, 1 + s.draw(4), s.draw(2) ? 8 : 0);
    pool = &local_pool;
    budget = s.range(P.budget_lo, P.budget_hi);
    CET_BEGIN();
#ifdef M_SIG
    sig::setup(s.draw(2) == 0);
#endif
    {
        interp(b, 1 << 20, false);
        drain = true;
        // bring every other thread to its end
        for (int t = 1; t < nth; ++t) if (T[t].alive) { baton_to(0, t); wake_checks(b, "drain"); }
        for (;;) {
            int i = pick_slot(p_nondestr_here);
            if (i >= 0) { op_resume(b, i, false); continue; }
            i = pick_slot(p_destroyable);
            if (i < 0) break;
            op_destroy(b, i);
        }
        for (int i = 0; i < NSLOT; ++i) if (S[i].k == HTerm) drop_term(i);
        for (int t = 1; t < nth; ++t) { if (T[t].th.joinable()) T[t].th.join(); T[t].th = std::thread(); sem_destroy(&T[t].sem); }
    }
    CET_END();
#ifdef M_SIG
    sig::stop(); pbt::hit(l_sig, sig::delivered); sig::delivered = 0;
#endif
#ifdef M_WIN
    if (win::live_fibers()) pbt::fail("%d fibers were never deleted", win::live_fibers());
    if (win::converted > 1) pbt::fail("%ld threads that ended were not converted back from a fiber", win::converted - 1);
#endif
    sem_destroy(&T[0].sem);
    for (int i = 0; i < nctx; ++i) if (i != b) {
        if (C[i].st != Done) pbt::fail("context %d did not finish (state %s)", i, stname[C[i].st]);
        if (!C[i].base) reap_check(i, "end of the case");
        if (C[i].nframes) pbt::fail("context %d has frames left", i);
    }
    for (int i = 0; i < NSLOT; ++i) { if (S[i].k != HEmpty) pbt::harness_error("slot left %d kind %d ctx %d", i, S[i].k, S[i].c); if (S[i].h) pbt::fail("an empty handle reports true at the end"); S[i].h.~H(); }
    if (alloc_objs) pbt::fail("%d stack allocator objects leaked", alloc_objs);
    if (ontop_objs) pbt::fail("%d on-top function objects leaked", ontop_objs);
    if (fn_origs) pbt::fail("%d function objects of the caller not destroyed", fn_origs);
    if (guard_objs) pbt::fail("%d frame objects not destroyed", guard_objs);
    pool = nullptr;
    check_env(b);
    set_mx(mx0); set_cw(cw0);
    if (chk_mask) set_mask(0);
    {
        ctx::pooled_fixedsize_stack drop(std::move(local_pool));
        // the pool itself (local_pool keeps or loses its share) is released when both go out of scope
    }
    (void)blocks0;
    return nontrivial_rule();
}
#ifdef SEG_ACCOUNT
// stack segments are mapped and unmapped by the runtime; when no context is left only those of the thread remain
static long g_mapped;
extern "C" { extern __thread struct stack_segment * __morestack_segments; extern __thread struct stack_segment * __morestack_current_segment; void * __morestack_release_segments(struct stack_segment **, int); }
// (libgcc maps them with raw system calls)
extern "C" long __real_syscall(long, long, long, long, long, long, long);
extern "C" long __wrap_syscall(long, long, long, long, long, long, long) __attribute__((no_split_stack));
extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r = __real_syscall(n, a, b, c, d, e, f);
    if (n == SYS_mmap && r != -1) __atomic_add_fetch(&g_mapped, b, __ATOMIC_RELAXED);
    if (n == SYS_munmap && r == 0) __atomic_sub_fetch(&g_mapped, b, __ATOMIC_RELAXED);
    return r;
}
#endif
static bool run_checked(pbt::Src & s) {
    long b0 = g_blocks;
#ifdef SEG_ACCOUNT
    // segments the thread keeps for reuse behind its current one are dropped, so that nothing may remain after a history
    static int own_cases; static long left;
    auto drop = []{ __morestack_release_segments(__morestack_current_segment ? reinterpret_cast<stack_segment **>(__morestack_current_segment) + 1 : &__morestack_segments, 1); };
    static const bool dbg = getenv("SEGDBG") != nullptr;
    if (!own_cases) { drop(); left = g_mapped; }
    bool nt0 = run_case(s); ++own_cases;
    if (g_blocks != b0) pbt::fail("%ld memory blocks leaked in this history", g_blocks - b0);
    drop();
    if (dbg) fprintf(stderr, "%ld KB mapped after %d histories\n", (g_mapped - left) / 1024, own_cases);
    if (g_mapped > left) pbt::fail("%ld KB of stack segments are still mapped although every context has ended", (g_mapped - left) / 1024);
    return nt0;
#endif
    bool nt = run_case(s);
#ifdef M_MOCKVG
    if (MockVg::get().bad) pbt::fail("valgrind annotations: %s", MockVg::get().bad);
    if (!MockVg::get().live.empty()) pbt::fail("%d stacks are still registered with valgrind although every context has ended", int(MockVg::get().live.size()));
#endif
    if (M_ASAN || M_TSAN) {      // the annotations own resources (fake stacks, fiber states) that no allocation hook sees
        static int own_cases; static long base;
        if (++own_cases % 100 == 0) {
            FILE * f = fopen("/proc/self/statm", "r"); long v = 0, r = 0; if (f) { if (fscanf(f, "%ld %ld", &v, &r) != 2) v = 0; fclose(f); }
            v *= 4; r *= 4;
            if (own_cases == 400) base = v;
            if (M_ASAN && own_cases > 400 && v - base > 600 * 1024) pbt::fail("the address space grew by %ld KB over %d histories: fake stacks of finished contexts are kept", v - base, own_cases - 400);
            if (r > 300 * 1024 + 20 * long(own_cases)) pbt::fail("%ld KB resident after %d histories: per-context sanitizer state is kept", r, own_cases);
        }
    }
    long d = g_blocks - b0;
    // memory obtained by the library through this binary must be balanced
    if (d != 0) pbt::fail("%ld memory blocks leaked in this history", d);
    return nt;
}

#define LBL(f) PBT_LABEL(l_##f, #f)
LBL(news); LBL(resumes); LBL(withs); LBL(freshwith); LBL(destroys_susp); LBL(destroys_fresh); LBL(destroys_nested); LBL(thrown_ontop); LBL(caught); LBL(moves); LBL(swaps); LBL(selfmoves); LBL(returns); LBL(returns3); LBL(freshreturns); LBL(setfp); LBL(setmask); LBL(thsw); LBL(deep); LBL(nestedontop); LBL(drops); LBL(cascaded); LBL(activeops); LBL(framesunwound); LBL(rethrown); LBL(stash); LBL(leaves); LBL(other); LBL(inflight); LBL(switches); LBL(throws); LBL(failed_maps); LBL(appfibers);
static bool nontrivial_rule() {
#define HIT(f) pbt::hit(l_##f, uint64_t(K.f))
    HIT(news); HIT(resumes); HIT(withs); HIT(freshwith); HIT(destroys_susp); HIT(destroys_fresh); HIT(destroys_nested); HIT(thrown_ontop); HIT(caught); HIT(moves); HIT(swaps); HIT(selfmoves); HIT(returns); HIT(returns3); HIT(freshreturns); HIT(setfp); HIT(setmask); HIT(thsw); HIT(deep); HIT(nestedontop); HIT(drops); HIT(cascaded); HIT(activeops); HIT(framesunwound); HIT(rethrown); HIT(stash); HIT(leaves); HIT(other); HIT(inflight); HIT(switches); HIT(throws); HIT(failed_maps); HIT(appfibers);
    std::string p = P.name;
    if (p == "switch") return K.switches >= 6 && K.maxlive >= 4 && K.returns3 >= 1;
    if (p == "state") return K.switches >= 6 && K.maxlive >= 3 && K.maxdepth >= 2;
    if (p == "fp") return K.setfp >= 2 && K.switches >= 4;
    if (p == "mask") return K.setmask >= 2 && K.switches >= 4;
    if (p == "handle") return K.moves + K.swaps + K.selfmoves >= 5 && K.switches >= 2;
    if (p == "term") return K.returns >= 2 && K.returns3 >= 1;
    if (p == "unwind") return K.destroys_susp >= 2 && K.framesunwound >= 2;
    if (p == "ontop") return K.withs >= 4 && (K.freshwith || K.other || K.nestedontop || K.stash);
    if (p == "throw") return K.thrown_ontop >= 1 && K.switches >= 4;
    if (p == "thread") return K.thsw >= 2 && K.switches >= 4;
    if (p == "deep" || p == "seg") return K.deep >= 2 && K.switches >= 4;
    return K.switches >= 5 && K.maxlive >= 3;
}
#undef LBL

static void init(int argc, char ** argv) {
    for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--profile") && i + 1 < argc) g_profile = argv[i + 1]; if (!strcmp(argv[i], "--no-threads")) opt_threads_ok = false; }
#ifdef M_CET
    opt_threads_ok = false;
#endif
    if (SEG) opt_threads_ok = false;   // see DESIGN.md: the runtime of this sandbox cannot start threads with split stacks
    if (!arena) {
        arena = static_cast<char *>(mmap(nullptr, ASLOT * size_t(NAR), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (arena == MAP_FAILED) { perror("mmap"); _exit(3); }
    }

    set_mask(0);
    mx0 = get_mx(); cw0 = get_cw();
    try { throw 1; } catch (int) {}
    CET_BEGIN();
    warmup();
    CET_END();
}
// create the per-thread bookkeeping of the library and lazily allocated runtime structures
static NI void warmup() {
#ifdef M_CALLCC
    { H h = ctx::callcc([](H && m) { m = m.resume(); return std::move(m); }); h = h.resume(); }
    { H h = ctx::callcc([](H && m) { m = m.resume(); return std::move(m); }); }
#else
    { H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume(); h = std::move(h).resume(); }
    { H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume(); }
#endif
    { std::ostringstream o; o << 1 << (void *)&o; }
    try { throw 1; } catch (int) {}
}

static pbt::Harness const harness = {
#ifdef M_CALLCC
    "machine/callcc",
#else
    "machine/fiber",
#endif
    run_checked, init,
    "a history is drawn as a sequence of operations (create, resume, resume_with, destroy, move/swap, push/pop frames, throw, deep stack use, FP/signal-mask changes, thread hand-over, return) executed by whichever context is running; per-profile non-triviality is defined in nontrivial_rule()"
};
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
