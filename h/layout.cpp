// C09: a context executes inside the memory it was given, aligned and fully usable.
// Random function object sizes/alignments x stack sizes x misalignments x preallocated offsets; the
// memory around the region carries canaries, the context fills every byte below its frame and keeps it
// over switches made with an almost full stack.
#include "pbt.hpp"
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/preallocated.hpp>
#include <memory>
#include <alloca.h>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
enum { CC = 1 };
#else
typedef ctx::fiber H;
enum { CC = 0 };
#endif
#ifdef BOOST_USE_UCONTEXT
enum { UC = 1, RECORD = 1600 };
#else
enum { UC = 0, RECORD = 256 };
#endif
#ifndef FRAMES
#define FRAMES 1200             // frames of the library between the record and the function, not optimised code needs more
#endif
enum { LOWRES = 1408, CAN = 4096 };
#define NI __attribute__((noinline))
static inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
static NI void fill(char * p, size_t n, uint64_t seed) { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = mix(seed + i); memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = char(mix(seed + i)); }
static NI long bad_at(char const * p, size_t n, uint64_t seed) { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = mix(seed + i), r; memcpy(&r, p + i, 8); if (r != v) return long(i); } for (; i < n; ++i) if (p[i] != char(mix(seed + i))) return long(i); return -1; }

enum { NC = 4, ARENA = 400 * 1024 };
struct Cx {
    bool used; H h; char * arena, * lo, * top, * sp; size_t size, fsize, falign; bool pre; uint64_t seed; ctx::stack_context sc;
    volatile int deallocs, started, steps, fn_live; volatile bool stop, unw, fillall, otrun, isfull; size_t tail; uint64_t * pat; int bits; volatile bool alive;
};
static Cx C[NC]; static pbt::Src * S; static int cur = -1;
PBT_LABEL(l_full, "switches with a full stack"); PBT_LABEL(l_pre, "preallocated"); PBT_LABEL(l_over, "over-aligned function objects"); PBT_LABEL(l_odd, "misaligned tops"); PBT_LABEL(l_small, "stacks below 8 KB"); PBT_LABEL(l_unw, "unwound");

static void canaries(int id, char const * when) {
    Cx & c = C[id];
    long b = bad_at(c.lo - CAN, CAN, c.seed); if (b >= 0) pbt::fail("%s: memory %ld bytes below the stack of context %d (size %zu) was written", when, CAN - b, id, c.size);
    b = bad_at(c.top, CAN, c.seed + 1); if (b >= 0) pbt::fail("%s: memory %ld bytes above the stack top handed over for context %d was written", when, b, id);
}
static void all_canaries(char const * when) { for (int i = 0; i < NC; ++i) if (C[i].arena && C[i].alive) canaries(i, when); }
struct Al {
    int id; typedef ctx::stack_traits traits_type;
    ctx::stack_context allocate() { return C[id].sc; }
    void deallocate(ctx::stack_context & s) noexcept {
        Cx & c = C[id]; ++c.deallocs;
        if (s.sp != c.sc.sp || s.size != c.sc.size) pbt::fail("the allocator got back another stack (%p,%zu) than it supplied (%p,%zu)", s.sp, s.size, c.sc.sp, c.sc.size);
        char volatile here; char * h = const_cast<char *>(&here);
        if (h >= c.lo && h < c.lo + c.size) pbt::fail("the stack of context %d was released while it was in use", id);
    }
};
// runs on the context's stack; the frame of this function is the lowest one of the context
static NI void in_region(int id, void const * p, size_t n, char const * what) {
    Cx & c = C[id]; char const * q = static_cast<char const *>(p);
    if (q < c.lo || q + n > c.top) pbt::fail("%s of context %d lies outside its stack [%p,%p): %p", what, id, (void *)c.lo, (void *)c.top, p);
}
struct Loc { int id; uint64_t v; Loc(int i) : id(i), v(mix(uint64_t(i))) { ++C[id].bits; in_region(id, this, sizeof *this, "a local object"); } ~Loc() { if (v != mix(uint64_t(id))) pbt::fail("a local object of context %d was overwritten", id); --C[id].bits; in_region(id, this, sizeof *this, "a local object"); } };
static NI H hop(int id, H && m) { ++C[id].steps; int by = cur; (void)by; m = std::move(m).resume(); cur = id; if (!m) pbt::fail("context %d got no handle", id); return std::move(m); }
static NI H full(int id, H && m, size_t n, uint64_t seed) {
    char * p = static_cast<char *>(alloca(n));
    in_region(id, p, n, "the frame");
    fill(p, n, seed);
    m = hop(id, std::move(m));
    long b = bad_at(p, n, seed); if (b >= 0) pbt::fail("context %d: its stack was modified %ld bytes above the low end of its frame while it was suspended", id, b);
    asm volatile("" :: "r"(p) : "memory");
    return std::move(m);
}
static NI H body(int id, H && m, void * self) {
    Cx & c = C[id]; cur = id;
    if (c.started++) pbt::fail("context %d started twice", id);
    char * fp = static_cast<char *>(__builtin_frame_address(0));
    in_region(id, fp, 16, "the frame");
    in_region(id, self, c.fsize, "the function object");
    if (reinterpret_cast<uintptr_t>(fp) % 16) pbt::fail("context %d was entered with a misaligned stack pointer", id);
    if (reinterpret_cast<uintptr_t>(self) % c.falign) pbt::fail("the function object of context %d (alignment %zu) lies at %p", id, c.falign, self);
    size_t pad = c.falign > 256 ? c.falign : 256;
    size_t reserve = size_t(c.top - fp), limit = c.fsize + 2 * pad + RECORD + FRAMES;
    if (reserve > limit) pbt::fail("context %d lost %zu bytes of its stack of %zu bytes (function object %zu bytes, alignment %zu)", id, reserve, c.size, c.fsize, c.falign);
    alignas(64) unsigned char al[64]; asm volatile("" :: "r"(al) : "memory");
    if (reinterpret_cast<uintptr_t>(al) % 64) pbt::fail("misaligned local");
    {
        Loc l1(id);
        while (!c.stop) {
            size_t left = size_t(fp - c.lo);
            if (c.fillall && left > LOWRES + 400) {
                size_t n = left - LOWRES - 400; n = (n & ~size_t(15)); if (c.tail) n = n > c.tail ? n - c.tail : 16;
                pbt::hit(l_full); c.isfull = true;
                m = full(id, std::move(m), n < 16 ? 16 : n, c.seed * 3 + uint64_t(c.steps));
            } else { c.isfull = false; m = hop(id, std::move(m)); }
        }
    }
    return std::move(m);
}
template<size_t N, size_t A> struct alignas(A) Fn {
    int id; unsigned char d[N];
    explicit Fn(int i) : id(i) { ++C[id].fn_live; fill(reinterpret_cast<char *>(d), N, uint64_t(id) + N); }
    Fn(Fn const & o) noexcept : id(o.id) { ++C[id].fn_live; memcpy(d, o.d, N); }
    ~Fn() { check("destroyed"); --C[id].fn_live; }
    void check(char const * w) { long b = bad_at(reinterpret_cast<char *>(d), N, uint64_t(id) + N); if (b >= 0) pbt::fail("the function object of context %d was overwritten (%s, byte %ld of %zu)", id, w, b, N); }
    H operator()(H && m) { check("entered"); H r = body(id, std::move(m), this); check("left"); return r; }
};
#ifdef M_CALLCC
template<class A, class F> static H make(A && a, F && f) { return ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H makep(ctx::preallocated p, A && a, F && f) { return ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#else
template<class A, class F> static H make(A && a, F && f) { return H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f)); }
template<class A, class F> static H makep(ctx::preallocated p, A && a, F && f) { return H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f)); }
#endif
static void start(void (*f)()) { f(); }
template<size_t N, size_t A> static NI void create(int id) {
    Cx & c = C[id]; c.fsize = sizeof(Fn<N, A>); c.falign = A;
    if (A > 16) pbt::hit(l_over);
    size_t need = sizeof(Fn<N, A>) + 2 * (A > 256 ? A : 256) + RECORD + FRAMES + LOWRES + 512;
    size_t extra;
    switch (S->draw(5)) { case 0: extra = S->draw(64); break; case 1: extra = S->draw(2000); break; case 2: extra = S->draw(20000); break; case 3: extra = S->draw(200000); break; default: extra = 65536 - need % 65536; }
    size_t head = c.pre ? (S->draw(3) ? S->draw(700) : 0) : 0;                 // user data above sp
    size_t mis = S->draw(4) == 0 ? 0 : S->draw(4) == 1 ? 16 * S->draw(16) : S->draw(256);
    c.size = need + extra;
    if (c.size < 8192) pbt::hit(l_small);
    if (mis % 16) pbt::hit(l_odd);
    if (c.pre) pbt::hit(l_pre);
    // [CAN][size usable][head][CAN]; the region ends misaligned by mis
    uintptr_t t = (reinterpret_cast<uintptr_t>(c.arena) + ARENA - CAN - 2048) & ~uintptr_t(255);
    c.top = reinterpret_cast<char *>(t + mis) - head; c.lo = c.top - c.size;
    c.sc = ctx::stack_context(); c.sc.sp = c.top + head; c.sc.size = c.size + head;
    c.seed = mix(uint64_t(c.size) * 131 + mis) | 1;
    fill(c.lo - CAN, CAN, c.seed); fill(c.top, CAN, c.seed + 1);
    c.deallocs = c.started = c.steps = c.fn_live = c.bits = 0; c.stop = false; c.unw = c.isfull = false; c.alive = true; c.fillall = S->flip(); c.tail = S->draw(3) ? S->draw(600) : 0;
    pbt::log("create c%d size %zu top %%256=%zu fn %zu/%zu%s\n", id, c.size, size_t(reinterpret_cast<uintptr_t>(c.top) & 255), N, A, c.pre ? " preallocated" : "");
    int by = cur;
    {
        Fn<N, A> f(id); Al a{ id };
        if (c.pre) { ctx::preallocated p(c.top, c.size, c.sc); c.h = S->flip() ? makep(p, a, f) : makep(p, Al{ id }, Fn<N, A>(f)); }
        else c.h = S->flip() ? make(a, f) : make(Al{ id }, Fn<N, A>(f));
    }
    cur = by;
    c.used = true;
    if (c.fn_live != 1) pbt::fail("context %d keeps %d function objects", id, int(c.fn_live));
    if (!c.h) pbt::fail("invalid handle after creation");
}
typedef void (*Cr)(int);
static Cr const crs[] = { create<1, 4>, create<1, 8>, create<7, 16>, create<24, 8>, create<100, 4>, create<100, 32>, create<199, 8>, create<250, 8>, create<300, 16>, create<500, 64>, create<1000, 8>, create<1, 128>, create<130, 128>, create<1, 256>, create<300, 256>, create<4000, 8>, create<20000, 8>, create<20001, 64>, create<1, 512>, create<600, 1024>, create<3, 4096> };
static NI H otf(int id, H && r) {
    Cx & c = C[id]; char * fp = static_cast<char *>(__builtin_frame_address(0));
    in_region(id, fp, 16, "the frame of an on-top function");
    if (reinterpret_cast<uintptr_t>(fp) % 16) pbt::fail("an on-top function was entered with a misaligned stack");
    c.otrun = true; return std::move(r);
}
static void after(int id, bool fin) {
    Cx & c = C[id];
    if (fin) {
        if (c.h) pbt::fail("handle valid after the end");
        c.h = H();
        if (c.deallocs != 1) pbt::fail("the stack of finished context %d was released %d times", id, int(c.deallocs));
        if (c.fn_live) pbt::fail("the function object of finished context %d still lives", id);
        if (c.bits) pbt::fail("locals of context %d leaked", id);
        canaries(id, "at the end"); c.used = false; c.alive = false;
    } else { if (!c.h) pbt::fail("handle invalid after a switch"); if (c.deallocs) pbt::fail("stack of a live context was released"); }
    all_canaries("after a switch");
}
static bool run(pbt::Src & s) {
    S = &s; cur = -1;
    for (auto & c : C) { c.used = false; c.alive = false; if (!c.arena) c.arena = static_cast<char *>(malloc(ARENA)); }
    int ops = s.range(4, 30), nsw = 0, ncr = 0;
    for (int k = 0; k < ops; ++k) {
        int id = int(s.draw(NC)); Cx & c = C[id];
        if (!c.used) { c.pre = s.draw(3) == 2; c.h = H(); crs[s.draw(sizeof crs / sizeof *crs)](id); ++ncr; all_canaries("after a creation"); continue; }
        switch (s.draw(8)) {
        case 0: {   // finish
            if (c.started == 0) { c.stop = true; } c.stop = true; pbt::log("finish c%d\n", id);
            c.h = std::move(c.h).resume(); cur = -1; after(id, true); break;
        }
        case 1: {   // unwinding needs stack for the unwinder itself
            bool room = c.size > c.fsize + c.falign * 2 + RECORD + FRAMES + 24 * 1024;
            if (c.started && (!room || c.isfull)) break;
            pbt::log("destroy c%d\n", id); pbt::hit(l_unw);
            if (!c.started && UC && !room) break;
            if (!c.started && !room) break;
            { H t = std::move(c.h); } c.h = H(); cur = -1; after(id, true); break;
        }
        case 2: {   // on top
            c.stop = false; c.otrun = false;
            if (c.isfull && c.started) break;                               // the function needs room
            pbt::log("on top of c%d\n", id);
            if (s.flip()) c.h = std::move(c.h).resume_with([id](H && r) { return otf(id, std::move(r)); });
            else { struct Big { int id; char pad[64]; H operator()(H && r) { return otf(id, std::move(r)); } }; Big b; b.id = id; c.h = std::move(c.h).resume_with(b); }
            cur = -1; if (!c.otrun) pbt::fail("on-top function did not run"); ++nsw; after(id, false); break;
        }
        default: { c.stop = false; int st = c.steps; pbt::log("resume c%d\n", id); bool fa = c.fillall; c.h = std::move(c.h).resume(); (void)fa; cur = -1; if (c.steps != st + 1) pbt::fail("context made %d steps", c.steps - st); ++nsw; after(id, false); c.fillall = s.flip() && c.fillall; }
        }
    }
    for (int i = 0; i < NC; ++i) if (C[i].used) { C[i].stop = true; C[i].h = std::move(C[i].h).resume(); after(i, true); }
    return ncr >= 1 && nsw >= 2;
}
static void init(int, char **) { (void)start; {
#ifdef M_CALLCC
    H h = ctx::callcc([](H && m) { m = std::move(m).resume(); return std::move(m); });
#else
    H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume();
#endif
    } }
static pbt::Harness const harness = { "layout", run, init, "history over up to 4 contexts with random function object sizes/alignments, stack sizes, misalignments and preallocated offsets inside canaries; non-trivial: >=1 creation and >=2 switches" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
