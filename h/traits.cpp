// C13: stack traits tell the truth about the running system.
// Every case is a fresh process image (fork before the library was used) with generated soft/hard stack limits and page
// size; a generated sequence of queries, made by several threads, is compared with what the system says.
#include "pbt.hpp"
#ifdef ST_WIN
#include "winmem.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <pthread.h>
#include <sys/auxv.h>
namespace ctx = boost::context;
typedef ctx::stack_traits T;
#ifdef M_CALLCC
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
PBT_LABEL(l_unb, "no hard limit"); PBT_LABEL(l_small, "hard limit below the default size"); PBT_LABEL(l_soft, "soft limit below the hard limit"); PBT_LABEL(l_max, "maximum_size queries"); PBT_LABEL(l_page, "page size not 4096");
PBT_LABEL(l_run, "contexts on a stack of minimum_size"); PBT_LABEL(l_thr, "queries by concurrent threads"); PBT_LABEL(l_chg, "changes of the soft limit between queries"); PBT_LABEL(l_def, "default constructed allocators");

static size_t fake_page;
extern "C" {
long __real_sysconf(int); int __real_getpagesize(); unsigned long __real_getauxval(unsigned long);
long __wrap_sysconf(int n) { return n == _SC_PAGESIZE && fake_page ? long(fake_page) : __real_sysconf(n); }
int __wrap_getpagesize() { return fake_page ? int(fake_page) : __real_getpagesize(); }
unsigned long __wrap_getauxval(unsigned long t) { return t == AT_PAGESZ && fake_page ? fake_page : __real_getauxval(t); }
}
#ifdef ST_WIN
enum { WIN = 1 };      // Windows has no limit; the page size is told by GetSystemInfo()
#else
enum { WIN = 0 };
#endif
enum { MAXOP = 24 };
struct Op { int k, a; uint64_t v; };
struct Plan { rlim_t soft, hard; size_t page; int n; Op op[MAXOP]; int threads; } P;
static size_t first_def, first_min; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static rlim_t curhard() { rlimit r; if (getrlimit(RLIMIT_STACK, &r)) pbt::harness_error("getrlimit"); return r.rlim_max; }

struct Al { char * b; typedef T traits_type; enum { G = 16384 };
    ctx::stack_context allocate() { size_t n = T::minimum_size(); b = static_cast<char *>(malloc(n + G)); memset(b, 0x5a, n + G); ctx::stack_context s; s.size = n; s.sp = b + G + n; return s; }
    void deallocate(ctx::stack_context &) noexcept {} };
static void run_min(int how) {
    pbt::hit(l_run);
    Al al; al.b = nullptr; int ran = 0, left = 0; static char * base; base = nullptr;
    struct K : Al { ctx::stack_context allocate() { ctx::stack_context s = Al::allocate(); base = b; return s; } };
    {
        auto fn = [&ran, &left](H && m) { struct D { int & l; ~D() { ++l; } } d{ left }; ++ran; int volatile x[64]; for (int i = 0; i < 64; ++i) x[i] = i; while (ran < 100) { m = std::move(m).resume(); ++ran; for (int i = 0; i < 64; ++i) if (x[i] != i) pbt::fail("a local variable on a stack of minimum_size changed"); } return std::move(m); };
#ifdef M_CALLCC
        H h = ctx::callcc(std::allocator_arg, K(), fn);
#else
        H h(std::allocator_arg, K(), fn);
        h = std::move(h).resume();
#endif
        h = std::move(h).resume();
        if (how & 1) h = std::move(h).resume_with([](H && m) { return std::move(m); });
        if (how & 2) { ran = 1000; h = std::move(h).resume(); if (h) pbt::fail("a context on a stack of minimum_size did not end"); }
    }
    if (left != 1) pbt::fail("a context on a stack of minimum_size was not ended properly");
    for (int i = 0; i < Al::G; ++i) if (base[i] != 0x5a) pbt::fail("a context on a stack of minimum_size (%zu) ran over the end of its stack", T::minimum_size());
    free(base);
}
static void query(Op const & o) {
    switch (o.k) {
    case 0: { size_t p = T::page_size(); if (p != P.page) pbt::fail("page_size() is %zu, the system's page size is %zu", p, P.page); break; }
    case 1: { bool u = T::is_unbounded(); if (u != (WIN || P.hard == RLIM_INFINITY)) pbt::fail("is_unbounded() is %d with a hard limit of %lld", u, (long long)P.hard); break; }
    case 2: if (!WIN && P.hard != RLIM_INFINITY) { pbt::hit(l_max); size_t m = T::maximum_size(); if (m != P.hard) pbt::fail("maximum_size() is %zu, the hard limit is %llu (soft limit %llu)", m, (unsigned long long)P.hard, (unsigned long long)P.soft); if (P.hard >= T::default_size() && T::default_size() > m) pbt::fail("default_size() exceeds maximum_size()"); } break;
    case 3: { size_t d = T::default_size(), m = T::minimum_size(); if (!m || m > d) pbt::fail("minimum_size() %zu exceeds default_size() %zu", m, d);
        pthread_mutex_lock(&mx); if (!first_def) { first_def = d; first_min = m; } bool ok = first_def == d && first_min == m; pthread_mutex_unlock(&mx); if (!ok) pbt::fail("minimum_size() or default_size() changed"); break; }
    case 4: run_min(o.a); break;
    case 5: { pbt::hit(l_def); ctx::fixedsize_stack a; ctx::stack_context s = a.allocate(); if (s.size != T::default_size()) pbt::fail("a default constructed fixedsize_stack supplies %zu bytes, default_size() is %zu", s.size, T::default_size()); a.deallocate(s); break; }
    default: { pbt::hit(l_chg); rlimit r; r.rlim_cur = P.hard == RLIM_INFINITY ? o.v : o.v % (P.hard + 1); r.rlim_max = P.hard; if (setrlimit(RLIMIT_STACK, &r)) pbt::harness_error("setrlimit"); }
    }
}
static void * thr(void * a) { int w = int(reinterpret_cast<intptr_t>(a)); for (int i = 0; i < P.n; ++i) { Op const & o = P.op[(i + w) % P.n]; if (o.k < 4 || o.k == 5) query(o); } return nullptr; }
static void * body(void *) {
    rlimit r; r.rlim_cur = P.soft; r.rlim_max = P.hard;
    if (setrlimit(RLIMIT_STACK, &r)) pbt::harness_error("setrlimit %llu %llu", (unsigned long long)P.soft, (unsigned long long)P.hard);
    if (curhard() != P.hard) pbt::harness_error("hard limit not in force");
    if (P.threads) {
        pthread_t t[4]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
        for (int i = 0; i < P.threads; ++i) if (pthread_create(&t[i], &at, thr, reinterpret_cast<void *>(intptr_t(i)))) pbt::harness_error("pthread_create");
        for (int i = 0; i < P.threads; ++i) pthread_join(t[i], nullptr);
    }
    for (int i = 0; i < P.n; ++i) query(P.op[i]);
    return nullptr;
}
static rlim_t initial_hard;
static rlim_t limit(pbt::Src & s) {
    switch (s.draw(8)) {
    case 0: return RLIM_INFINITY;
    case 1: return 8 * 1024 * 1024;
    case 2: return rlim_t(s.draw(256 * 1024));
    case 3: return rlim_t(s.draw(1 << 30));
    case 4: return (rlim_t(1) << s.draw(62)) + s.draw(3) - 1;
    case 5: return rlim_t(s.draw(1000)) * 4096;
    case 6: return rlim_t(s.u64() >> (1 + s.draw(40)));
    default: return 131072 + rlim_t(s.draw(3)) - 1;
    }
}
static bool run(pbt::Src & s) {
    if (!initial_hard) { rlimit r; getrlimit(RLIMIT_STACK, &r); initial_hard = r.rlim_max; }
    P.hard = limit(s); P.soft = limit(s);
    if (P.hard > initial_hard) P.hard = initial_hard;
    if (P.soft > P.hard) P.soft = s.flip() ? P.hard : P.hard == 0 ? 0 : P.soft % P.hard;
    P.page = s.draw(3) == 0 ? size_t(__real_sysconf(_SC_PAGESIZE)) : size_t(1) << s.range(9, 21);
    fake_page = P.page;
    P.threads = s.draw(3) == 2 ? s.range(2, 4) : 0;
    P.n = s.range(3, MAXOP);
    for (int i = 0; i < P.n; ++i) { Op & o = P.op[i]; static int const w[] = { 4, 6, 8, 4, 2, 1, 2 }; o.k = s.pick(w, 7); o.a = int(s.draw(4)); o.v = o.k == 6 ? uint64_t(s.draw(1u << 30)) : 0; }
    if (P.hard == RLIM_INFINITY) pbt::hit(l_unb); else if (P.hard < 131072) pbt::hit(l_small);
    if (P.soft < P.hard) pbt::hit(l_soft);
    if (P.page != 4096) pbt::hit(l_page);
    if (P.threads) pbt::hit(l_thr);
    pbt::log("hard limit %llu, soft limit %llu, page size %zu, %d queries, %d threads\n", (unsigned long long)P.hard, (unsigned long long)P.soft, P.page, P.n, P.threads);
    for (int i = 0; i < P.n; ++i) pbt::log("  %s\n", (char const *[]){ "page_size", "is_unbounded", "maximum_size", "default_size/minimum_size", "run a context on minimum_size", "default constructed allocator", "change the soft limit" }[P.op[i].k]);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024 * 1024);
        if (pthread_create(&t, &at, body, nullptr)) pbt::harness_error("pthread_create");
        pthread_join(t, nullptr); _exit(0);
    }
    int st = 0; if (waitpid(pid, &st, 0) != pid) pbt::harness_error("waitpid");
    if (WIFSIGNALED(st)) pbt::fail("the process was killed by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) { if (pbt::sh()->failed) _exit(WEXITSTATUS(st)); pbt::fail("the process ended with status %d", WEXITSTATUS(st)); }
    return P.soft != P.hard || P.page != 4096;
}
static pbt::Harness const harness = { "traits", run, nullptr, "generated soft/hard limits, page size and query order in a fresh process; non-trivial: the soft limit differs from the hard limit or the page size is not 4096" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
