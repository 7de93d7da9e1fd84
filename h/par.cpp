// C14: several threads run at the same time; each executes a list of operations drawn beforehand on
// contexts that wander between them through a mailbox.  Nothing but a context itself is ever shared
// (and always under a lock), so every context must behave as if it were alone.
//   -DM_CALLCC continuations, -DBOOST_USE_UCONTEXT ucontext, -DBOOST_USE_TSAN with the thread sanitizer
#include "pbt.hpp"
#ifdef BOOST_USE_WINFIB
#include "winmock.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <atomic>
#include <memory>
#include <mutex>
#include <new>
#include <pthread.h>
#include <thread>
#include <vector>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
#define NI __attribute__((noinline))

static std::atomic<long> new_live{ 0 };
#ifndef BOOST_USE_TSAN          // the sanitizer brings its own
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if (!p) abort(); new_live.fetch_add(1, std::memory_order_relaxed); return p; }
void operator delete(void * p) noexcept { if (p) new_live.fetch_sub(1, std::memory_order_relaxed); free(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void * operator new[](size_t n) { return operator new(n); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
#endif

static NI pthread_t self() { asm volatile("" ::: "memory"); return pthread_self(); }
static uint64_t mix(uint64_t v) { v ^= v << 13; v ^= v >> 7; v ^= v << 17; return v + 0x9e37; }

static std::atomic<long> stacks_live{ 0 }, migrated{ 0 }, resumed{ 0 }, thrown{ 0 }, unwound{ 0 };
template<class A> struct Cnt {
    A a; uint64_t tag;
    explicit Cnt(A const & x, uint64_t t) : a(x), tag(t) {}
    ctx::stack_context allocate() { ctx::stack_context s = a.allocate(); stacks_live.fetch_add(1, std::memory_order_relaxed); return s; }
    void deallocate(ctx::stack_context & s) noexcept { stacks_live.fetch_sub(1, std::memory_order_relaxed); a.deallocate(s); }
};

enum { STEP, NEST, FIN, CATCH };
struct Exc { uint64_t n; };
struct Cx {
    uint64_t id, v; int cmd; pthread_t runner, last; int steps; int guards; H stash; bool ended; uint64_t onx; pthread_t born;
};
struct Box { Cx * c; H h; };
struct Guard { Cx * c; char pad[40]; explicit Guard(Cx * x) : c(x) { ++c->guards; } ~Guard() { --c->guards; if (!pthread_equal(self(), c->runner)) pbt::fail("a destructor of context %lu ran on another thread than the one that ended it", c->id); } };

static Box make(uint64_t id, int akind, ctx::pooled_fixedsize_stack * pool);
static void step(Box & b, int how, uint64_t x);
static void end(Box & b, int how);

static NI void inner_throw(uint64_t v) { throw Exc{ v }; }
static NI H body(Cx * c, H && m0) {
    H m = std::move(m0);
    uint64_t v = c->id * 77 + 1; uint64_t loc[6]; double d = double(c->id) + .5;
    for (int i = 0; i < 6; ++i) loc[i] = mix(v + uint64_t(i));
    Guard g(c);
    Box child; child.c = nullptr;
    struct Kill { Box & b; Cx * c; ~Kill() { if (b.c) { b.c->runner = self(); end(b, 0); } } } kill{ child, c };
    int n = 0;
    for (;;) {
        if (!pthread_equal(self(), c->runner)) pbt::fail("context %lu continued on another thread than the one that resumed it", c->id);
        if (c->v != v) pbt::fail("context %lu: local value %lx, resumer expects %lx", c->id, v, c->v);
        for (int i = 0; i < 6; ++i) if (loc[i] != mix(c->id * 77 + 1 + uint64_t(i))) pbt::fail("context %lu: local array destroyed", c->id);
        if (d != double(c->id) + .5 + n) pbt::fail("context %lu: floating point local destroyed", c->id);
        if (c->cmd == FIN) break;
        v = mix(v); d += 1; ++n; c->v = v; ++c->steps;
        if (n % 3 == 0) { bool ok = false; try { inner_throw(v); } catch (Exc const & e) { ok = e.n == v; } if (!ok) pbt::fail("context %lu: wrong exception", c->id); }
        if (c->cmd == NEST) { if (!child.c) child = make(c->id + 1000000, n % 2, nullptr); step(child, n % 2, v); }
        bool threw = false; uint64_t got = 0;
        try { m = std::move(m).resume(); } catch (Exc const & e) { threw = true; got = e.n; }
        if (threw) {
            if (c->onx != got) pbt::fail("context %lu: received exception %lx instead of %lx", c->id, got, c->onx);
            c->onx = 0; m = std::move(c->stash);
        } else if (c->onx) pbt::fail("context %lu: the exception of its on-top function got lost", c->id);
        if (!m) pbt::fail("context %lu: no handle of the resumer", c->id);
    }
    if (child.c) { end(child, 1); }
    c->ended = true;
    return m;
}
static NI Box make(uint64_t id, int akind, ctx::pooled_fixedsize_stack * pool) {
    Box b; b.c = new Cx(); Cx * c = b.c;
    c->id = id; c->v = id * 77 + 1; c->cmd = STEP; c->runner = c->last = c->born = self();
    auto f = [c](H && m) { return body(c, std::move(m)); };
    size_t sz = 32768;
#ifdef M_CALLCC
    uint64_t want = mix(c->v);
#define MK(A) b.h = ctx::callcc(std::allocator_arg, Cnt<decltype(A)>(A, id), f)
#else
#define MK(A) b.h = H(std::allocator_arg, Cnt<decltype(A)>(A, id), f)
#endif
    switch (akind) {
    case 0: MK(ctx::fixedsize_stack(sz)); break;
    case 1: MK(ctx::protected_fixedsize_stack(sz)); break;
    case 2: MK(ctx::pooled_fixedsize_stack(sz, 2)); break;       // a pool of its own, which dies wherever the context ends
    default: { ctx::pooled_fixedsize_stack & p = *pool; MK(p); }
    }
    if (!b.h) pbt::fail("context %lu: empty handle after creation", id);
#ifdef M_CALLCC
    if (c->v != want || c->steps != 1) pbt::fail("context %lu did not run when it was created", id);
#endif
    return b;
}
// how: 0 resume, 1 resume_with, 2 resume_with a throwing function (only if it has been started)
static NI void step(Box & b, int how, uint64_t x) {
    Cx * c = b.c; pthread_t me = self();
    if (!pthread_equal(me, c->last)) migrated.fetch_add(1, std::memory_order_relaxed);
    c->runner = c->last = me; c->cmd = x % 5 == 0 && c->id < 1000000 ? NEST : STEP;
    uint64_t want = mix(c->v); int st = c->steps; uint64_t runs = 0;
    if (how == 2 && !c->steps) how = 1;
    if (how == 0) b.h = std::move(b.h).resume();
    else if (how == 1) b.h = std::move(b.h).resume_with([&runs, c, me, x](H && h) { ++runs; if (!pthread_equal(self(), me)) pbt::fail("the on-top function of context %lu runs on another thread", c->id); if (!h) pbt::fail("on-top function without a handle"); return std::move(h); });
    else { c->onx = x | 1; thrown.fetch_add(1, std::memory_order_relaxed); b.h = std::move(b.h).resume_with([&runs, c, x](H && h) -> H { ++runs; c->stash = std::move(h); throw Exc{ x | 1 }; }); }
    resumed.fetch_add(1, std::memory_order_relaxed);
    if (!pthread_equal(self(), me)) pbt::fail("a resume() returned on another thread");
    if (how && runs != 1) pbt::fail("context %lu: the on-top function ran %lu times", c->id, runs);
    if (!b.h) pbt::fail("context %lu: handle empty after a step", c->id);
    if (c->v != want || c->steps != st + 1) pbt::fail("context %lu: one step gave value %lx (%d steps), expected %lx (%d)", c->id, c->v, c->steps, want, st + 1);
}
static NI void end(Box & b, int how) {
    Cx * c = b.c; pthread_t me = self();
    if (!pthread_equal(me, c->last)) migrated.fetch_add(1, std::memory_order_relaxed);
    c->runner = c->last = me; bool started = c->steps > 0;
    if (how == 0) { b.h = H(); unwound.fetch_add(1, std::memory_order_relaxed); }
    else { c->cmd = FIN; b.h = std::move(b.h).resume(); if (b.h) pbt::fail("context %lu: handle still valid after its function returned", c->id); b.h = H(); }
    if (!pthread_equal(self(), me)) pbt::fail("ending a context returned on another thread");
    if (c->guards) pbt::fail("context %lu ended, %d of its locals are still alive", c->id, c->guards);
    if (how == 0 && c->ended) pbt::fail("context %lu finished normally while being unwound", c->id);
    if (how && !c->ended) pbt::fail("context %lu did not finish", c->id);
    (void)started;
    delete c; b.c = nullptr;
}

struct Op { int k; uint32_t a, b; };
struct Th { std::vector<Op> ops; int rounds; };
static std::mutex mtx; static std::vector<Box> mailbox;
static std::atomic<int> ready; static int nth; static std::atomic<uint64_t> ids;
static ctx::pooled_fixedsize_stack * shared_pool;
static size_t t_page, t_def, t_min;
static bool take(Box & b, uint32_t i) {
    std::lock_guard<std::mutex> l(mtx);
    if (mailbox.empty()) return false;
    size_t k = i % mailbox.size();
    b = std::move(mailbox[k]); mailbox[k] = std::move(mailbox.back()); mailbox.pop_back();
    return true;
}
static void put(Box && b) { std::lock_guard<std::mutex> l(mtx); mailbox.push_back(std::move(b)); }
static void worker(Th * t, int no) {
    ready.fetch_add(1); while (ready.load() < nth) { }
    ctx::pooled_fixedsize_stack mine(32768, 2);                 // a pool only this thread uses
    Box b; std::vector<Box> local;
    for (int r = 0; r < t->rounds; ++r) for (Op const & o : t->ops) {
        switch (o.k) {
        case 0: { Box n = make(ids.fetch_add(1), int(o.a % 3), nullptr); if (o.b & 1) step(n, int(o.b >> 1) % 2, o.b); put(std::move(n)); } break;
        case 1: case 2: case 3: if (take(b, o.a)) { for (uint32_t i = 0; i <= o.b % 3; ++i) step(b, int(o.b / 4 + i) % 3, o.b); put(std::move(b)); } break;
        case 4: if (take(b, o.a)) end(b, 0); break;
        case 5: if (take(b, o.a)) end(b, 1); break;
        case 6: if (local.size() < 6) { ctx::pooled_fixedsize_stack * p = no == 0 ? shared_pool : &mine; local.push_back(make(ids.fetch_add(1), 3, p)); }
                else { end(local.back(), int(o.b % 2)); local.pop_back(); } break;
        case 7: if (!local.empty()) step(local[o.a % local.size()], int(o.b % 3), o.b); break;
        case 8: for (uint32_t i = 0; i < 20 + o.a % 200; ++i) { ctx::pooled_fixedsize_stack c1(*shared_pool), c2(c1); if (o.b & 1) c2 = mine; } break;
        case 9: if (ctx::stack_traits::page_size() != t_page || ctx::stack_traits::default_size() != t_def || ctx::stack_traits::minimum_size() != t_min) pbt::fail("stack_traits reports other values on another thread"); break;
        }
    }
    for (auto & x : local) end(x, 1);
}
PBT_LABEL(l_mig, "continuations on another thread"); PBT_LABEL(l_res, "steps"); PBT_LABEL(l_thr, "exceptions from on-top functions"); PBT_LABEL(l_unw, "contexts unwound"); PBT_LABEL(l_late, "contexts ended after the creating thread had exited"); PBT_LABEL(l_cp, "cases with concurrent copies of a pool");
static bool run(pbt::Src & s) {
    migrated = resumed = thrown = unwound = 0; ids = 1; ready = 0;
    nth = 2 + int(s.draw(3));
    int work = 0, copies = 0, used = 0;
    long base = new_live.load();
    {
        std::vector<Th> ts; ts.resize(size_t(nth));
        for (auto & t : ts) {
            t.rounds = 1 + int(s.draw(12)); int n = int(s.draw(14));
            for (int i = 0; i < n; ++i) { Op o; o.k = int(s.draw(10)); o.a = s.draw(1000); o.b = s.draw(1000); t.ops.push_back(o); ++work; copies += o.k == 8; }
            used += n >= 3;
            if (pbt::verbose()) { pbt::log("thread: %d rounds of", t.rounds); for (auto & o : t.ops) pbt::log(" %d(%u,%u)", o.k, o.a, o.b); pbt::log("\n"); }
        }
        ctx::pooled_fixedsize_stack pool(32768, 2); shared_pool = &pool;
        {
            std::vector<std::thread> v;
            for (int i = 0; i < nth; ++i) v.emplace_back(worker, &ts[size_t(i)], i);
            for (auto & t : v) t.join();
        }
        // the threads that created and ran them are gone
        pbt::hit(l_late, mailbox.size());
        for (size_t i = 0; i < mailbox.size(); ++i) { if (i % 3) step(mailbox[i], int(i % 3), i); end(mailbox[i], int(i % 2)); }
        mailbox.clear(); std::vector<Box>().swap(mailbox);
    }
    if (stacks_live.load()) pbt::fail("%ld stacks were not given back", stacks_live.load());
    if (new_live.load() != base) pbt::fail("%ld objects leaked (or were destroyed twice) after all threads ended", new_live.load() - base);
    pbt::hit(l_mig, uint64_t(migrated.load())); pbt::hit(l_res, uint64_t(resumed.load())); pbt::hit(l_thr, uint64_t(thrown.load())); pbt::hit(l_unw, uint64_t(unwound.load())); if (copies) pbt::hit(l_cp);
    pbt::sh()->worksum = pbt::sh()->worksum + uint64_t(work);
    return used >= 2 && migrated.load() >= 2 && resumed.load() >= 4;
}
static void init(int, char **) {
    t_page = ctx::stack_traits::page_size(); t_def = ctx::stack_traits::default_size(); t_min = ctx::stack_traits::minimum_size();
    Box b = make(1, 0, nullptr); step(b, 0, 1); end(b, 1);
    std::thread t([] { }); t.join();
}
static pbt::Harness const harness = { "par", run, init, "lists of operations for 2..4 concurrent threads over contexts exchanged through a mailbox; non-trivial: >=2 threads have work, >=2 continuations on another thread and >=4 steps" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
