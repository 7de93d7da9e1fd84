// C11 / C12: histories over the stack allocators against a model of the memory they own.
//   --kind pool   fixed-size and pooled allocators (C11)
//   --kind prot   protected allocator, whole address space checked (C12)
//   --kind over   a context overflows its protected stack (C12)
#include "pbt.hpp"
#ifdef ST_WIN
#include "winmem.hpp"
#endif
#include <boost/context/fiber.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <new>
#include <memory>
namespace ctx = boost::context;
typedef ctx::fiber H;
#define NI __attribute__((noinline))

// ---- heap blocks obtained through this binary --------------------------------------------------
struct Blk { char * p; size_t n; int owner; bool lib; };
static Blk blk[4096]; static int nblk; static int cur_owner = -1; static bool tracking; static int requests; static size_t lastreq;
extern "C" void * __real_malloc(size_t); extern "C" void __real_free(void *); extern "C" int __real_posix_memalign(void **, size_t, size_t);
static void note_new(void * p, size_t n) {
    if (!tracking || !p) return;
    if (nblk >= 4096) pbt::harness_error("too many blocks");
    blk[nblk++] = Blk{ static_cast<char *>(p), n, cur_owner, cur_owner >= 0 }; ++requests; lastreq = n;
}
static void note_free(void * p) {
    if (!tracking || !p) return;
    for (int i = 0; i < nblk; ++i) if (blk[i].p == p) { blk[i] = blk[--nblk]; return; }
    pbt::fail("memory at %p was freed that is not an allocated block", p);
}
extern "C" void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); note_new(p, n); return p; }
extern "C" void __wrap_free(void * p) { note_free(p); __real_free(p); }
extern "C" int __wrap_posix_memalign(void ** pp, size_t a, size_t n) { int r = __real_posix_memalign(pp, a, n); if (!r) note_new(*pp, n); return r; }
void * operator new(size_t n) { void * p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); note_new(p, n); return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { note_free(p); __real_free(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
#define HEAP_FAILS false
#define HEAP_NEW_FAILS false
#define HEAP_GOT(p, n) note_new(p, n)
#define HEAP_DROP(p) note_free(p)
#include "heapwrap.hpp"

#if defined(BOOST_CONTEXT_USE_MAP_STACK)
enum { MAPS = 1 };
#else
enum { MAPS = 0 };
#endif
static char const * kind = "pool";

static inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
static void fill(char * p, size_t n, uint64_t seed) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = mix(seed + i); memcpy(p + i, &v, 8); }
    for (; i < n; ++i) p[i] = char(mix(seed + i));
}
static long bad_at(char const * p, size_t n, uint64_t seed) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = mix(seed + i), r; memcpy(&r, p + i, 8); if (r != v) return long(i); }
    for (; i < n; ++i) if (p[i] != char(mix(seed + i))) return long(i);
    return -1;
}

// ================================================================================= C11
typedef ctx::fixedsize_stack FX; typedef ctx::pooled_fixedsize_stack PL;
struct PoolM { bool alive; size_t size, next, max; int refs, live, peak, total; };
static PoolM PM[16]; static int npm;
struct Al { int kind; /*0 empty 1 fixed 2 pooled 3 moved-from pooled*/ int pool; size_t size; alignas(16) char mem[64]; FX & fx() { return *reinterpret_cast<FX *>(mem); } PL & pl() { return *reinterpret_cast<PL *>(mem); } };
static_assert(sizeof(FX) <= 64 && sizeof(PL) <= 64, "");
static Al AL[8];
struct Stk { bool used; int pool; size_t size; ctx::stack_context s; uint64_t seed; };
static Stk ST[48];
struct Nb { char * p; size_t n; uint64_t seed; };
static Nb NB[16];
struct Fb { bool used; H h; int pool; int steps; };
static Fb FB[6];
static int n_alloc, n_dealloc, n_copies, n_reuse, n_fib;

struct Own { int o; explicit Own(int p) : o(cur_owner) { cur_owner = p; } ~Own() { cur_owner = o; } };
static int owned(int pool) { int n = 0; for (int i = 0; i < nblk; ++i) n += blk[i].owner == pool; return n; }
static void pool_unref(int p) {
    if (--PM[p].refs == 0) {
        PM[p].alive = false;
        int n = owned(p);
        if (n) pbt::fail("the last copy of pooled allocator %d is gone but %d of its memory blocks are not released", p, n);
    } else if (!owned(p)) pbt::fail("pool %d was released while %d copies are alive", p, PM[p].refs);
}
static void verify_all() {
    for (auto & s : ST) if (s.used) { long b = bad_at(static_cast<char *>(s.s.sp) - s.size, s.size, s.seed); if (b >= 0) pbt::fail("contents of a live stack (%s, size %zu) changed at offset %ld", s.pool < 0 ? "fixedsize" : "pooled", s.size, b); }
    for (auto & n : NB) if (n.p) { long b = bad_at(n.p, n.n, n.seed); if (b >= 0) pbt::fail("a heap object unrelated to the allocators changed at offset %ld", b); }
}
static void check_stack(ctx::stack_context const & s, size_t want, int pool) {
    char * hi = static_cast<char *>(s.sp), * lo = hi - s.size;
    if (s.size != want) pbt::fail("allocated stack reports size %zu, requested %zu", s.size, want);
    for (auto & t : ST) if (t.used) { char * h2 = static_cast<char *>(t.s.sp), * l2 = h2 - t.size; if (lo < h2 && l2 < hi) pbt::fail("two live stacks overlap"); }
    for (auto & n : NB) if (n.p && lo < n.p + n.n && n.p < hi) pbt::fail("a stack overlaps a live heap object");
    if (!MAPS || pool >= 0) {
        bool in = false;
        for (int i = 0; i < nblk; ++i) if (blk[i].p <= lo && hi <= blk[i].p + blk[i].n) { in = true; if (pool >= 0 && blk[i].owner != pool) pbt::fail("a pooled stack lies in memory of another owner"); }
        if (!in) pbt::fail("the stack [%p,%p) does not lie inside memory the allocator obtained", (void *)lo, (void *)hi);
    }
    (void)pool;
}
template<class A> static ctx::stack_context call_alloc(A & a, int pool) { Own o(pool); return a.allocate(); }
static ctx::stack_context do_alloc(Al & a) { return a.kind == 1 ? call_alloc(a.fx(), 15) : call_alloc(a.pl(), a.pool); }

static H fib_body(int id, H && m);
struct FbFn { int id; H operator()(H && m) { return fib_body(id, std::move(m)); } };
static NI H fib_body(int id, H && m) {
    char volatile buf[600];
    for (int i = 0; i < 600; ++i) buf[i] = char(id * 31 + i);
    while (FB[id].steps > 0) {
        --FB[id].steps;
        m = std::move(m).resume();
        for (int i = 0; i < 600; ++i) if (buf[i] != char(id * 31 + i)) pbt::fail("stack of a running context on an allocator's stack was overwritten");
    }
    return std::move(m);
}
static void destroy_al(Al & a) {
    int k = a.kind, p = a.pool;
    a.kind = 0; a.pool = -1;
    if (k == 1) a.fx().~FX();
    else if (k == 2) { a.pl().~PL(); pool_unref(p); }
    else if (k == 3) a.pl().~PL();
}
static bool may_drop(Al & a) { return a.kind != 2 || PM[a.pool].refs > 1 || PM[a.pool].live == 0; }

static bool run_pool(pbt::Src & s) {
    npm = 0; n_alloc = n_dealloc = n_copies = n_reuse = n_fib = 0; nblk = 0; cur_owner = -1; requests = 0;
    for (auto & a : AL) { a.kind = 0; a.pool = -1; }
    for (auto & t : ST) t.used = false;
    for (auto & n : NB) n.p = nullptr;
    for (auto & f : FB) { f.used = false; }
    uint64_t seed = 1;
    tracking = true;
    int ops = s.range(10, 90);
    auto pick_al = [&](int mask) -> Al * { int n = 0; for (auto & a : AL) n += mask >> a.kind & 1; if (!n) return nullptr; int r = int(s.draw(uint32_t(n))); for (auto & a : AL) if ((mask >> a.kind & 1) && r-- == 0) return &a; return nullptr; };
    auto size_pick = [&]() -> size_t {
        switch (s.draw(8)) {
        case 0: return ctx::stack_traits::default_size();
        case 1: return 1 + s.draw(64);
        case 2: return 4096u << s.draw(4);
        case 3: return (4096u << s.draw(4)) + 1 - 2 * s.draw(2);
        case 4: return ctx::stack_traits::minimum_size();
        default: return 256 + s.draw(20000);
        }
    };
    for (int k = 0; k < ops; ++k) {
        static int const w[] = { 6, 6, 10, 6, 30, 18, 8, 4, 6, 5, 4 };
        int op = s.pick(w, 11);
        switch (op) {
        case 0: {   // new fixedsize
            Al * a = pick_al(1); if (!a) break;
            a->size = size_pick(); bool def = s.draw(6) == 5;
            if (def) { a->size = ctx::stack_traits::default_size(); new (a->mem) FX(); } else new (a->mem) FX(a->size);
            a->kind = 1;
            pbt::log("a%ld = fixedsize(%zu)\n", long(a - AL), a->size);
            break;
        }
        case 1: {   // new pool
            Al * a = pick_al(1); if (!a || npm >= 15) break;
            PoolM & p = PM[npm]; p = PoolM(); p.alive = true; p.refs = 1;
            p.size = size_pick(); p.next = 1 + s.draw(8); p.max = s.draw(3) ? s.draw(12) : 0;
            if (p.size > 100000) p.next = 1 + s.draw(2);
            Own o(npm);
            if (s.draw(8) == 7) { p.size = ctx::stack_traits::default_size(); p.next = 32; p.max = 0; new (a->mem) PL(); }
            else if (p.max == 0 && s.draw(2)) new (a->mem) PL(p.size, p.next);
            else new (a->mem) PL(p.size, p.next, p.max);
            a->kind = 2; a->pool = npm; a->size = p.size;
            pbt::log("a%ld = pool %d (%zu, next %zu, max %zu)\n", long(a - AL), npm, p.size, p.next, p.max);
            ++npm;
            break;
        }
        case 2: {   // copy / move construct
            Al * f = pick_al(6); Al * t = pick_al(1); if (!f || !t || f == t) break;
            bool mv = s.draw(4) == 3;
            pbt::log("a%ld = %s of a%ld\n", long(t - AL), mv ? "move" : "copy", long(f - AL));
            ++n_copies;
            if (f->kind == 1) { new (t->mem) FX(f->fx()); t->kind = 1; t->size = f->size; t->pool = -1; break; }
            t->kind = 2; t->pool = f->pool; t->size = f->size;
            if (mv) { new (t->mem) PL(std::move(f->pl())); f->kind = 3; f->pool = -1; }       // must not be used any more
            else { new (t->mem) PL(f->pl()); ++PM[t->pool].refs; }
            break;
        }
        case 3: {   // assign
            Al * f = pick_al(6); Al * t = pick_al(14); if (!f || !t) break;
            int fk = f->kind == 1 ? 1 : 2, tk = t->kind == 1 ? 1 : 2;
            if (fk != tk) break;
            bool mv = s.draw(4) == 3;
            if (mv && f == t) break;
            if (tk == 2 && t->kind == 2 && t->pool != f->pool && !may_drop(*t)) break;
            pbt::log("a%ld := %s of a%ld\n", long(t - AL), mv ? "move" : "copy", long(f - AL));
            ++n_copies;
            if (fk == 1) { t->fx() = f->fx(); t->size = f->size; break; }
            int oldp = t->kind == 2 ? t->pool : -1, newp = f->pool;
            if (!mv) ++PM[newp].refs;
            t->pool = newp; t->size = f->size; t->kind = 2;
            if (mv) { t->pl() = std::move(f->pl()); f->kind = 3; f->pool = -1; } else t->pl() = f->pl();
            if (oldp >= 0) pool_unref(oldp);
            break;
        }
        case 4: {   // allocate
            Al * a = pick_al(6); if (!a) break;
            Stk * t = nullptr; for (auto & x : ST) if (!x.used) { t = &x; break; }
            if (!t) break;
            int before = requests;
            ctx::stack_context sc = do_alloc(*a);
            int req = requests - before;
            ++n_alloc;
            check_stack(sc, a->size, a->kind == 2 ? a->pool : -1);
            if (a->kind == 2) {
                PoolM & p = PM[a->pool];
                if (p.live < p.peak) { ++n_reuse; if (req) pbt::fail("pool %d obtained new memory although %d of its %d stacks are free", a->pool, p.peak - p.live, p.peak); }
                if (p.total && size_t(p.total) < p.next && req) pbt::fail("pool %d obtained memory for its stack number %d although next_size is %zu", a->pool, p.total + 1, p.next);
                if (req > 1) pbt::fail("pool %d made %d memory requests for one stack", a->pool, req);
                if (req && p.max && lastreq > (p.next > p.max ? p.next : p.max) * (p.size + 64) + 256 + (MAPS ? 4096 : 0))
                    pbt::fail("pool %d (limit %zu, first %zu) obtained %zu bytes for stacks of %zu", a->pool, p.max, p.next, lastreq, p.size);
                ++p.live; if (p.live > p.peak) p.peak = p.live;
                if (p.live > p.total) p.total = p.live;
            }
            t->used = true; t->pool = a->kind == 2 ? a->pool : -1; t->size = a->size; t->s = sc; t->seed = seed += 1000003;
            fill(static_cast<char *>(sc.sp) - sc.size, sc.size, t->seed);
            pbt::log("s%ld = a%ld.allocate()\n", long(t - ST), long(a - AL));
            break;
        }
        case 5: {   // deallocate, through any copy
            int n = 0; for (auto & t : ST) n += t.used; if (!n) break;
            int r = int(s.draw(uint32_t(n))); Stk * t = nullptr; for (auto & x : ST) if (x.used && r-- == 0) { t = &x; break; }
            Al * cand[8]; int nc = 0; for (auto & a : AL) if (t->pool >= 0 ? (a.kind == 2 && a.pool == t->pool) : (a.kind == 1)) cand[nc++] = &a;
            if (!nc) break;
            Al * a = cand[s.draw(uint32_t(nc))];
            long b = bad_at(static_cast<char *>(t->s.sp) - t->size, t->size, t->seed); if (b >= 0) pbt::fail("contents of a live stack changed at offset %ld", b);
            char * lo = static_cast<char *>(t->s.sp) - t->size;
            pbt::log("a%ld.deallocate(s%ld)\n", long(a - AL), long(t - ST));
            ++n_dealloc; t->used = false;
            ctx::stack_context sc = t->s;
            if (a->kind == 1) {
                int nb = nblk; a->fx().deallocate(sc);
                if (!MAPS) { if (nblk != nb - 1) pbt::fail("deallocating a fixed-size stack did not release its memory"); for (int i = 0; i < nblk; ++i) if (blk[i].p == lo) pbt::fail("deallocating a fixed-size stack released another block"); }
                else { unsigned char v; if (mincore(reinterpret_cast<void *>((reinterpret_cast<uintptr_t>(lo)) & ~4095ul), 4096, &v) == 0) pbt::fail("deallocating a fixed-size stack did not unmap its memory"); }
            }
            else { a->pl().deallocate(sc); --PM[t->pool].live; }
            break;
        }
        case 6: { Al * a = pick_al(14); if (!a || !may_drop(*a)) break; pbt::log("~a%ld\n", long(a - AL)); destroy_al(*a); break; }
        case 7: verify_all(); break;
        case 8: {   // neighbours on the heap
            Nb & n = NB[s.draw(16)];
            if (n.p) { long b = bad_at(n.p, n.n, n.seed); if (b >= 0) pbt::fail("a heap object unrelated to the allocators changed at offset %ld", b); free(n.p); n.p = nullptr; }
            else { n.n = 1 + s.draw(s.draw(2) ? 20000 : 200); n.p = static_cast<char *>(malloc(n.n)); n.seed = seed += 777; fill(n.p, n.n, n.seed); }
            break;
        }
        case 9: {   // a context keeps a copy of the allocator
            Al * a = pick_al(6); if (!a || a->size < 24 * 1024) break;
            Fb * f = nullptr; for (auto & x : FB) if (!x.used) { f = &x; break; }
            if (!f) break;
            int id = int(f - FB);
            f->used = true; f->steps = int(s.draw(4)); f->pool = a->kind == 2 ? a->pool : -1; ++n_fib;
            pbt::log("f%d = context on a%ld\n", id, long(a - AL));
            bool mv = s.draw(4) == 3 && may_drop(*a) && !(f->pool >= 0);
            if (f->pool >= 0) {
                ++PM[f->pool].refs; PoolM & p = PM[f->pool]; Own o(f->pool);
                int before = requests;
                f->h = H(std::allocator_arg, a->pl(), FbFn{ id });
                if (p.live < p.peak && requests != before) pbt::fail("pool obtained new memory although stacks are free");
                ++p.live; if (p.live > p.peak) p.peak = p.live;
                if (p.live > p.total) p.total = p.live;
            } else { Own o(15); if (mv) f->h = H(std::allocator_arg, std::move(a->fx()), FbFn{ id }); else f->h = H(std::allocator_arg, a->fx(), FbFn{ id }); }
            break;
        }
        case 10: {  // run or destroy a context
            int n = 0; for (auto & f : FB) n += f.used; if (!n) break;
            int r = int(s.draw(uint32_t(n))); Fb * f = nullptr; for (auto & x : FB) if (x.used && r-- == 0) { f = &x; break; }
            if (f->pool >= 0 && PM[f->pool].refs == 1 && PM[f->pool].live > 1) break;   // stacks allocated by hand would lose their allocator
            pbt::log("f%ld %s\n", long(f - FB), "run/destroy");
            if (s.flip()) { f->h = std::move(f->h).resume(); if (f->h) break; f->h = H(); }
            else f->h = H();
            f->used = false;
            if (f->pool >= 0) { --PM[f->pool].live; pool_unref(f->pool); }
            break;
        }
        }
    }
    verify_all();
    // end: contexts first or allocators first
    bool fibers_first = s.flip();
    auto end_fib = [&] { for (auto & f : FB) if (f.used) { f.h = H(); f.used = false; if (f.pool >= 0) { --PM[f.pool].live; pool_unref(f.pool); } } };
    if (fibers_first) end_fib();
    for (auto & t : ST) if (t.used) {
        ctx::stack_context sc = t.s; t.used = false;
        if (t.pool < 0) { FX f(t.size); f.deallocate(sc); }
        else { bool ok = false; for (auto & a : AL) if (a.kind == 2 && a.pool == t.pool) { a.pl().deallocate(sc); --PM[t.pool].live; ok = true; break; } if (!ok) continue; }
    }
    for (auto & a : AL) if (a.kind) destroy_al(a);
    end_fib();
    for (auto & n : NB) if (n.p) { long b = bad_at(n.p, n.n, n.seed); if (b >= 0) pbt::fail("a heap object unrelated to the allocators changed at offset %ld", b); free(n.p); n.p = nullptr; }
    tracking = false;
    for (int i = 0; i < npm; ++i) if (PM[i].refs != 0) pbt::harness_error("pool refs %d", PM[i].refs);
    if (nblk) pbt::fail("%d memory blocks leaked", nblk);
    return n_alloc >= 4 && n_dealloc >= 2 && (n_copies >= 1 || n_reuse >= 1);
}

// ================================================================================= C12
template<size_t PG> struct Tr {
    static bool is_unbounded() noexcept { return true; }
    static std::size_t page_size() noexcept { return PG; }
    static std::size_t default_size() noexcept { return 5 * PG + 17; }
    static std::size_t minimum_size() noexcept { return PG; }
    static std::size_t maximum_size() noexcept { return ~size_t(0); }
};
struct MapE { uintptr_t lo, hi; char perm[5]; };
static MapE maps[4096]; static int nmaps;
static char mapbuf[1 << 20];
static void read_maps() {
    int fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC); size_t n = 0; ssize_t k;
    if (fd < 0) pbt::harness_error("maps");
    while ((k = read(fd, mapbuf + n, sizeof mapbuf - 1 - n)) > 0) n += size_t(k);
    close(fd); mapbuf[n] = 0; nmaps = 0;
    for (char * p = mapbuf; *p && nmaps < 4096;) {
        MapE & m = maps[nmaps]; char * e;
        m.lo = strtoul(p, &e, 16); m.hi = strtoul(e + 1, &e, 16); memcpy(m.perm, e + 1, 4); m.perm[4] = 0; ++nmaps;
        p = strchr(p, '\n'); if (!p) break; ++p;
    }
}
// 0 unmapped anywhere in the range, 1 all rw, 2 all no-access, 3 mixed
static int access_of(char * lo, char * hi) {
    uintptr_t a = uintptr_t(lo), b = uintptr_t(hi); int r = -1;
    for (int i = 0; i < nmaps && a < b; ++i) {
        if (maps[i].hi <= a) continue;
        int k = maps[i].lo > a ? 0 : maps[i].perm[0] == 'r' && maps[i].perm[1] == 'w' ? 1 : maps[i].perm[0] == '-' && maps[i].perm[1] == '-' && maps[i].perm[2] == '-' ? 2 : 3;
        if (r < 0) r = k; else if (r != k) return 3;
        if (k == 0) a = maps[i].lo; else a = maps[i].hi;
    }
    if (a < b) return r < 0 || r == 0 ? 0 : 3;
    return r;
}
static bool any_mapped(char * lo, char * hi) { for (int i = 0; i < nmaps; ++i) if (maps[i].lo < uintptr_t(hi) && maps[i].hi > uintptr_t(lo)) return true; return false; }
struct PS { bool used; int tr; size_t req; ctx::stack_context s; uint64_t seed; };
static PS PSs[24];
static size_t const pages[] = { 0, 4096, 8192, 16384, 65536 };
static size_t sys_page() { return size_t(sysconf(_SC_PAGESIZE)); }
static size_t pg(int tr) { return tr ? pages[tr] : sys_page(); }
static ctx::stack_context p_alloc(int tr, size_t req, bool def) {
    switch (tr) {
    case 1: return def ? ctx::basic_protected_fixedsize_stack<Tr<4096>>().allocate() : ctx::basic_protected_fixedsize_stack<Tr<4096>>(req).allocate();
    case 2: return def ? ctx::basic_protected_fixedsize_stack<Tr<8192>>().allocate() : ctx::basic_protected_fixedsize_stack<Tr<8192>>(req).allocate();
    case 3: return def ? ctx::basic_protected_fixedsize_stack<Tr<16384>>().allocate() : ctx::basic_protected_fixedsize_stack<Tr<16384>>(req).allocate();
    case 4: return def ? ctx::basic_protected_fixedsize_stack<Tr<65536>>().allocate() : ctx::basic_protected_fixedsize_stack<Tr<65536>>(req).allocate();
    default: return def ? ctx::protected_fixedsize_stack().allocate() : ctx::protected_fixedsize_stack(req).allocate();
    }
}
static void p_dealloc(int tr, size_t req, ctx::stack_context & s) {
    switch (tr) {
    case 1: ctx::basic_protected_fixedsize_stack<Tr<4096>>(req).deallocate(s); break;
    case 2: ctx::basic_protected_fixedsize_stack<Tr<8192>>(req).deallocate(s); break;
    case 3: ctx::basic_protected_fixedsize_stack<Tr<16384>>(req).deallocate(s); break;
    case 4: ctx::basic_protected_fixedsize_stack<Tr<65536>>(req).deallocate(s); break;
    default: ctx::protected_fixedsize_stack(req).deallocate(s);
    }
}
static void verify_ps(PS const & p, char const * when) {
    char * hi = static_cast<char *>(p.s.sp), * lo = hi - p.s.size; size_t G = pg(p.tr);
    int a = access_of(lo, lo + G), b = access_of(lo + G, hi);
    if (a != 2) pbt::fail("%s: the page at the low end of a protected stack is %s", when, a == 0 ? "not mapped" : a == 1 ? "accessible" : "partly accessible");
    if (p.s.size > G && b != 1) pbt::fail("%s: the usable part of a protected stack (requested %zu) is %s", when, p.req, b == 2 ? "not accessible" : b == 0 ? "not mapped" : "not entirely writable");
    long k = bad_at(lo + G, size_t(hi - lo) - G, p.seed);
    if (k >= 0) pbt::fail("%s: contents of a live protected stack changed at offset %ld", when, k);
}
static bool run_prot(pbt::Src & s) {
    for (auto & p : PSs) p.used = false;
    int na = 0, nd = 0, nfail = 0; uint64_t seed = 5;
    int ops = s.range(4, 40);
    for (int k = 0; k < ops; ++k) {
        int op = int(s.draw(10));
        if (op < 5) {
            PS * p = nullptr; for (auto & x : PSs) if (!x.used) { p = &x; break; }
            if (!p) continue;
            p->tr = s.draw(2) ? int(s.draw(5)) : 0; size_t P = pg(p->tr); bool def = false;
            switch (s.draw(7)) {
            case 0: p->req = s.draw(3); break;
            case 1: p->req = P * s.draw(6); break;
            case 2: p->req = P * (1 + s.draw(6)) + 1 - 2 * s.draw(2); break;
            case 3: p->req = s.draw(1 << 20); break;
            case 4: def = true; p->req = p->tr ? 5 * P + 17 : ctx::stack_traits::default_size(); break;
            default: p->req = s.draw(50000);
            }
            p->s = p_alloc(p->tr, p->req, def);
            ++na;
            char * hi = static_cast<char *>(p->s.sp), * lo = hi - p->s.size;
            pbt::log("allocate %zu (page %zu) -> size %zu\n", p->req, P, p->s.size);
            if (uintptr_t(hi) % sys_page()) pbt::fail("sp of a protected stack is not page aligned");
            if (p->s.size < P || p->s.size - P < p->req) pbt::fail("a protected stack of %zu bytes reports size %zu with pages of %zu: fewer usable bytes than requested", p->req, p->s.size, P);
            if (p->s.size % P) pbt::fail("the size of a protected stack (%zu) is not a number of pages", p->s.size);
            for (auto & x : PSs) if (x.used && &x != p) { char * h2 = static_cast<char *>(x.s.sp), * l2 = h2 - x.s.size; if (lo < h2 && l2 < hi) pbt::fail("two protected stacks overlap"); }
            read_maps();
            if (access_of(lo + P, hi) == 1) fill(lo + P, size_t(hi - lo) - P, p->seed = seed += 99991);
            p->used = true;
            verify_ps(*p, "allocate");
        } else if (op < 8) {
            int n = 0; for (auto & x : PSs) n += x.used; if (!n) continue;
            int r = int(s.draw(uint32_t(n))); PS * p = nullptr; for (auto & x : PSs) if (x.used && r-- == 0) { p = &x; break; }
            read_maps(); verify_ps(*p, "before deallocate");
            char * hi = static_cast<char *>(p->s.sp), * lo = hi - p->s.size;
            ctx::stack_context sc = p->s;
            p_dealloc(p->tr, p->req, sc); p->used = false; ++nd;
            pbt::log("deallocate %zu\n", p->req);
            read_maps();
            if (any_mapped(lo, hi)) pbt::fail("deallocating a protected stack left a part of it mapped");
            for (auto & x : PSs) if (x.used) verify_ps(x, "deallocation of another stack");
        } else if (op == 8) {
            size_t req; int tr = s.draw(2) ? int(s.draw(5)) : 0;
            switch (s.draw(4)) { case 0: req = ~size_t(0) - s.draw(200000); break; case 1: req = size_t(1) << (47 + s.draw(17)); break; case 2: req = (size_t(1) << 63) + s.draw(1 << 20); break; default: req = ~size_t(0) / (1 + s.draw(3)) - s.draw(10000); }
            if (req < (size_t(1) << 47)) continue;
            bool threw = false; ctx::stack_context sc;
            pbt::log("allocate %zu (must fail)\n", req);
            try { sc = p_alloc(tr, req, false); } catch (std::bad_alloc const &) { threw = true; }
            if (!threw) pbt::fail("a protected stack of %zu bytes was handed out with size %zu instead of bad_alloc", req, sc.size);
            ++nfail;
        } else { read_maps(); for (auto & x : PSs) if (x.used) verify_ps(x, "later"); }
    }
    read_maps(); for (auto & x : PSs) if (x.used) verify_ps(x, "at the end");
    int before = nmaps; (void)before;
    for (auto & x : PSs) if (x.used) { ctx::stack_context sc = x.s; p_dealloc(x.tr, x.req, sc); x.used = false; }
    return na >= 3 && nd >= 1;
}

// ---- overflow ------------------------------------------------------------------------------------
static char * volatile ov_lo, * volatile ov_hi; static size_t ov_page; static PS * ov_nb[4]; static int ov_n;
static void on_segv(int, siginfo_t * si, void *) {
    char * a = static_cast<char *>(si->si_addr);
    for (int i = 0; i < ov_n; ++i) { PS & p = *ov_nb[i]; size_t G = pg(p.tr); char * lo = static_cast<char *>(p.s.sp) - p.s.size; if (bad_at(lo + G, p.s.size - G, p.seed) >= 0) _exit(41); }
    if (a >= ov_lo && a < ov_lo + ov_page) _exit(40);
    _exit(42);
}
static NI size_t eat(size_t frame, int n, uint64_t acc) {
    char volatile b[4000];
    size_t m = frame < 4000 ? frame : 3999;
    for (size_t i = 0; i < 4000; i += 64) b[i] = char(acc);
    b[m] = char(n);
    if (n <= 0) return size_t(b[m]);
    size_t r = eat(frame, n - 1, acc * 31 + 7);
    return r + size_t(b[m]);
}
static bool run_over(pbt::Src & s) {
    for (auto & p : PSs) p.used = false;
    // neighbours allocated before and after, so that they are adjacent
    size_t req = 16384 + s.draw(100000);
    int before = int(s.draw(3)), after = int(s.draw(3)); ov_n = 0;
    int act = int(s.draw(4));            // 0 recurse deep, 1..3: touch around the limits
    size_t off = s.draw(4096);
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (pid == 0) {
        struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
        ov_page = sys_page();
        auto mk = [&](int i) { PS & p = PSs[i]; p.tr = 0; p.req = 20000; p.s = p_alloc(0, p.req, false); char * lo = static_cast<char *>(p.s.sp) - p.s.size; p.seed = uint64_t(i) * 1000 + 7; fill(lo + ov_page, p.s.size - ov_page, p.seed); ov_nb[ov_n++] = &p; };
        for (int i = 0; i < before; ++i) mk(i);
        struct A { ctx::stack_context allocate() { ctx::stack_context c = b.allocate(); ov_hi = static_cast<char *>(c.sp); ov_lo = ov_hi - c.size; return c; } void deallocate(ctx::stack_context & c) noexcept { b.deallocate(c); } ctx::protected_fixedsize_stack b; };
        A a{ ctx::protected_fixedsize_stack(req) };
        H f(std::allocator_arg, a, [&](H && m) {
            if (act == 0) { eat(off, 1 << 20, off); return std::move(m); }
            char * p = ov_lo + ov_page;                                  // lowest usable byte
            *static_cast<char volatile *>(p) = 1;
            m = std::move(m).resume();
            if (act == 1) *static_cast<char volatile *>(p - 1) = 1;
            if (act == 2) *static_cast<char volatile *>(ov_lo) = 1;
            if (act == 3) { volatile char c = *static_cast<char volatile *>(ov_lo + off % ov_page); (void)c; }
            return std::move(m);
        });
        for (int i = 0; i < after && before + i < 4; ++i) mk(before + i);
        f = std::move(f).resume();
        if (act) f = std::move(f).resume();
        _exit(43);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int e = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (e == 99 || e == 98) { if (pbt::sh()->failed) _exit(e); }
    if (e == 41) pbt::fail("a context that overflowed its protected stack (%zu bytes) overwrote a neighbouring stack", req);
    if (e == 42) pbt::fail("a context that overflowed its protected stack (%zu bytes) did not trap in the guard page", req);
    if (e == 43) pbt::fail("a context ran past its protected stack (%zu bytes, access %d) without a trap", req, act);
    if (e != 40) pbt::fail("overflow of a protected stack ended with status %d", e);
    return true;
}
static bool run(pbt::Src & s) {
    if (!strcmp(kind, "prot")) return run_prot(s);
    if (!strcmp(kind, "over")) return run_over(s);
    return run_pool(s);
}
static void init(int argc, char ** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--kind")) kind = argv[i + 1];
    { H h([](H && m) { m = std::move(m).resume(); return std::move(m); }); h = std::move(h).resume(); }
    ctx::stack_traits::default_size(); ctx::stack_traits::is_unbounded();
}
static pbt::Harness const harness = { "stacks", run, init,
    "pool: a history of allocator constructions/copies/moves/assignments, allocations, deallocations through any copy, contexts keeping copies, unrelated heap objects; non-trivial: >=4 allocations, >=2 deallocations and a copy or a reuse. prot: allocations of boundary sizes with several page sizes checked against /proc/self/maps; non-trivial: >=3 allocations and a deallocation. over: a context runs past its protected stack" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
