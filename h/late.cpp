// C28: contexts held by objects with thread or static storage duration. A case is a program in a
// forked child: threads and the main thread fill holders (function-local statics, thread_local
// objects, pthread keys, atexit handlers) with contexts; the holders destroy or resume them while
// the thread or the process exits, exit() may be called inside a context. The trace of the whole
// life is compared with a model that simulates the contexts as state machines.
#include "pbt.hpp"
#ifdef BOOST_USE_WINFIB
#include "winmock.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <pthread.h>
#include <string>
#include <thread>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
enum { CC = 1 };
#else
typedef ctx::fiber H;
enum { CC = 0 };
#endif
#define NI __attribute__((noinline))
PBT_LABEL(l_tls, "contexts alive in thread_local objects at thread exit"); PBT_LABEL(l_st, "contexts alive in static objects at process exit"); PBT_LABEL(l_at, "contexts used by atexit handlers");
PBT_LABEL(l_key, "contexts alive in pthread keys"); PBT_LABEL(l_in, "exit() inside a context"); PBT_LABEL(l_thr, "exit() on a thread other than main"); PBT_LABEL(l_before, "thread_local holders older than the first use of contexts in their thread");
PBT_LABEL(l_fresh, "contexts created while the thread or process exits"); PBT_LABEL(l_foreign, "contexts created on a thread that has ended"); PBT_LABEL(l_early, "contexts used before main");

// ---- plan ------------------------------------------------------------------------------------------
enum { NCTX = 40, NHOLD = 24, NT = 4, NOPS = 10, NK = 4 };
enum { K_TLS, K_STATIC, K_ATEXIT, K_PKEY, K_N };
enum { E_ENTER = 1, E_CONT, E_LEAVE, E_LOCAL, E_HOLD, E_AFTER, E_ONTOP, E_THREAD, E_TEND, E_EXIT, E_LAST };
struct Ctx { int susp, child, cres, dact, alloc; bool exits; };
struct Hold { int kind, idx; int n; int c[2]; int act, fresh; bool ontop; };
struct Op { int what, a, b; };              // 0 touch holder a, 1 fill holder a with context b (resumed twice at most), 2 run context b to its end
struct Thr { Op op[NOPS]; int n; int end; int endctx; };     // end: 0 return (the main thread: return from main), 1 exit(), 2 exit() inside context endctx
static Ctx C[NCTX]; static int nctx; static Hold Q[NHOLD]; static int nhold; static Thr T[NT]; static int nt; static int res[NCTX];

// ---- trace -----------------------------------------------------------------------------------------
enum { MAXEV = 4000 };
struct Trace { volatile int n; int ev[MAXEV]; };
static Trace * tr; static std::vector<int> exp_;
static void ev(int t, int id, int x = 0) { int n = tr->n; if (n < MAXEV) { tr->ev[n] = t << 24 | (id & 0xfff) << 12 | (x & 0xfff); tr->n = n + 1; } }
static std::string show(int e) {
    static char const * const nm[] = { "?", "context %d starts", "context %d continues (step %d)", "context %d leaves its function", "local of context %d is destroyed", "holder %d is destroyed", "holder %d: context %d used", "on-top function in context %d", "thread %d starts", "thread %d ends", "exit is called", "end" };
    char b[100]; snprintf(b, sizeof b, nm[e >> 24], e >> 12 & 0xfff, e & 0xfff); return b;
}

// ---- real execution ---------------------------------------------------------------------------------
static NI H make(int id);
static ctx::pooled_fixedsize_stack * pool;
static H again(H && h, int id, bool ontop) {
    if (ontop) return std::move(h).resume_with([id](H && m) { ev(E_ONTOP, id); if (!m) pbt::fail("the on-top function got an empty handle"); return std::move(m); });
    return std::move(h).resume();
}
struct Local {
    int id; H child;
    explicit Local(int i) : id(i) {}
    ~Local() { ev(E_LOCAL, id); for (int k = 0; k < C[id].dact && child; ++k) child = again(std::move(child), C[id].child, k & 1); }
};
static NI H body(int id, H && m) {
    ev(E_ENTER, id);
    if (!m) pbt::fail("context %d got an empty handle", id);
    Local l(id);
    std::string s(30, char('a' + id % 26));
    if (C[id].child >= 0) { l.child = make(C[id].child); for (int k = 0; k < C[id].cres && l.child; ++k) l.child = std::move(l.child).resume(); }
    for (int i = 0; i < C[id].susp; ++i) {
        m = std::move(m).resume();
        ev(E_CONT, id, i);
        if (!m) pbt::fail("context %d got an empty handle", id);
        if (s != std::string(30, char('a' + id % 26))) pbt::fail("local of context %d changed", id);
    }
    if (C[id].exits) { ev(E_EXIT, 0); std::exit(33); }
    ev(E_LEAVE, id);
    return std::move(m);
}
static NI H make(int id) {
    auto f = [id](H && m) { return body(id, std::move(m)); };
#ifdef M_CALLCC
    switch (C[id].alloc) { case 1: return ctx::callcc(std::allocator_arg, ctx::protected_fixedsize_stack(), f); case 2: return ctx::callcc(std::allocator_arg, *pool, f); default: return ctx::callcc(f); }
#else
    switch (C[id].alloc) { case 1: return H(std::allocator_arg, ctx::protected_fixedsize_stack(), f); case 2: return H(std::allocator_arg, *pool, f); default: return H(f); }
#endif
}
struct Slot {
    int h = -1; H v[2]; int n = 0;
    void act() {
        if (h < 0) return;
        Hold & q = Q[h];
        ev(E_HOLD, h);
        if (q.fresh >= 0) { H x = make(q.fresh); while (x) x = std::move(x).resume(); }
        for (int i = 0; i < n; ++i) {
            for (int k = 0; k < q.act && v[i]; ++k) v[i] = again(std::move(v[i]), q.c[i], q.ontop && !k);
            v[i] = H();
            ev(E_AFTER, h, q.c[i]);
        }
        h = -1;
    }
    ~Slot() { act(); }
};
template<int I> static Slot & tls_slot() { thread_local Slot s; return s; }
template<int I> static Slot & st_slot() { static Slot s; return s; }
static Slot at_slots[NK]; template<int I> static void at_fn() { at_slots[I].act(); }
static pthread_key_t key;
static void key_fn(void * p) { Slot * s = static_cast<Slot *>(p); s->act(); delete s; }
static Slot & slot(int h, bool touch) {
    Hold & q = Q[h];
    switch (q.kind) {
    case K_TLS: switch (q.idx) { case 0: return tls_slot<0>(); case 1: return tls_slot<1>(); case 2: return tls_slot<2>(); default: return tls_slot<3>(); }
    case K_STATIC: switch (q.idx) { case 0: return st_slot<0>(); case 1: return st_slot<1>(); case 2: return st_slot<2>(); default: return st_slot<3>(); }
    case K_ATEXIT: if (touch) { static void (* const f[])() = { at_fn<0>, at_fn<1>, at_fn<2>, at_fn<3> }; std::atexit(f[q.idx]); } return at_slots[q.idx];
    default: if (touch) pthread_setspecific(key, new Slot()); return *static_cast<Slot *>(pthread_getspecific(key));
    }
}
static NI void thread_ops(int t) {
    ev(E_THREAD, t);
    for (int i = 0; i < T[t].n; ++i) {
        Op & o = T[t].op[i];
        if (o.what == 0) slot(o.a, true).h = o.a;
        else if (o.what == 1) { Slot & s = slot(o.a, false); H & v = s.v[s.n]; v = make(o.b); for (int k = 0; k < res[o.b] && v; ++k) v = std::move(v).resume(); ++s.n; }
        else { H x = make(o.b); while (x) x = std::move(x).resume(); }
    }
    ev(E_TEND, t);
    if (T[t].end == 1) { ev(E_EXIT, 0); std::exit(33); }
    if (T[t].end == 2) { H x = make(T[t].endctx); while (x) x = std::move(x).resume(); pbt::fail("exit() inside a context returned"); }
}
static void last() { ev(E_LAST, 0); }
#ifdef BOOST_USE_WINFIB
static void win_last() { if (win::live_fibers() > 3 * NCTX) pbt::fail("fibers leak"); }
#endif

// used by a static object before main: the state of the library must not depend on it
struct Early {
    int got = 0;
    Early() {
        int a = 0;
#ifdef M_CALLCC
        H h = ctx::callcc([&](H && m) { a = 1; m = std::move(m).resume(); a = 2; return std::move(m); });
#else
        H h([&](H && m) { a = 1; m = std::move(m).resume(); a = 2; return std::move(m); }); h = std::move(h).resume();
#endif
        int b = a; h = std::move(h).resume(); got = b * 10 + a;
    }
};
static Early * early;
#ifdef LATE_EARLY
struct EarlyInit { EarlyInit() { early = new Early(); } };
static EarlyInit early_init;
#endif

// ---- model ------------------------------------------------------------------------------------------
struct MCx { bool made, started, done; int step; };
static MCx M[NCTX]; struct Finished {};
struct MSlot { int h; };
static std::vector<int> atl, tlsl[NT]; static int keyh[NT]; static int running_thread; static int late_acts; static bool exiting_; static int owner[NCTX]; static bool ended[NT]; static std::vector<int> filled[NHOLD];
static void mev(int t, int id, int x = 0) { if (exp_.size() < MAXEV) exp_.push_back(t << 24 | (id & 0xfff) << 12 | (x & 0xfff)); }
static void m_resume(int id); static void m_destroy(int id); static void m_exit();
static bool m_live(int id) { return M[id].made && !M[id].done; }
static void m_make(int id) { M[id] = MCx{ true, false, false, 0 }; owner[id] = running_thread; if (CC) m_resume(id); }
static void m_again(int id, bool ontop) { if (ontop) mev(E_ONTOP, id); m_resume(id); }
static void m_local(int id) { mev(E_LOCAL, id); int ch = C[id].child; if (ch < 0) return; for (int k = 0; k < C[id].dact && m_live(ch); ++k) m_again(ch, k & 1); m_destroy(ch); }
static void m_resume(int id) {
    MCx & m = M[id];
    if (!m.started) {
        m.started = true; mev(E_ENTER, id);
        int ch = C[id].child;
        if (ch >= 0) { m_make(ch); for (int k = 0; k < C[id].cres && m_live(ch); ++k) m_resume(ch); }
    } else mev(E_CONT, id, m.step++);
    if (m.step < C[id].susp) return;
    if (C[id].exits) { pbt::hit(l_in); mev(E_EXIT, 0); m_exit(); }
    mev(E_LEAVE, id); m_local(id); m.done = true;
}
static void m_destroy(int id) { MCx & m = M[id]; if (!m_live(id)) return; m.done = true; if (m.started) m_local(id); }
static void m_run(int id) { m_make(id); while (m_live(id)) m_resume(id); }
static void m_act(int h) {
    Hold & q = Q[h];
    mev(E_HOLD, h);
    if (q.fresh >= 0) { pbt::hit(l_fresh); m_run(q.fresh); ++late_acts; }
    for (int c : filled[h]) {
        if (m_live(c)) { ++late_acts; pbt::hit(q.kind == K_TLS ? l_tls : q.kind == K_STATIC ? l_st : q.kind == K_ATEXIT ? l_at : l_key); if (ended[owner[c]]) pbt::hit(l_foreign); }
        for (int k = 0; k < q.act && m_live(c); ++k) m_again(c, q.ontop && !k);
        m_destroy(c); mev(E_AFTER, h, c);
    }
}
static void m_tls(int t) { while (!tlsl[t].empty()) { int h = tlsl[t].back(); tlsl[t].pop_back(); m_act(h); } }
static void m_exit() {
    if (running_thread != nt - 1) pbt::hit(l_thr);
    m_tls(running_thread);
    while (!atl.empty()) { int h = atl.back(); atl.pop_back(); m_act(h); }
    mev(E_LAST, 0);
    throw Finished();
}
static bool m_program() {
    exp_.clear(); atl.clear(); late_acts = 0; memset(M, 0, sizeof M);
    for (int t = 0; t < NT; ++t) { tlsl[t].clear(); keyh[t] = -1; ended[t] = false; }
    for (int h = 0; h < NHOLD; ++h) filled[h].clear();
    try {
        for (int t = 0; t < nt; ++t) {
            running_thread = t; bool used = false;
            mev(E_THREAD, t);
            for (int i = 0; i < T[t].n; ++i) {
                Op & o = T[t].op[i];
                if (o.what == 0) { switch (Q[o.a].kind) { case K_TLS: if (!used) pbt::hit(l_before); tlsl[t].push_back(o.a); break; case K_PKEY: keyh[t] = o.a; break; default: atl.push_back(o.a); } }
                else if (o.what == 1) { used = true; m_make(o.b); for (int k = 0; k < res[o.b] && m_live(o.b); ++k) m_resume(o.b); filled[o.a].push_back(o.b); }
                else { used = true; m_run(o.b); }
            }
            mev(E_TEND, t);
            if (T[t].end == 1) { mev(E_EXIT, 0); m_exit(); }
            if (T[t].end == 2) m_run(T[t].endctx);
            if (t == nt - 1) m_exit();                      // return from main
            m_tls(t); if (keyh[t] >= 0) m_act(keyh[t]);
            ended[t] = true;
        }
    } catch (Finished) {}
    return late_acts > 0;
}

// ---- generation -----------------------------------------------------------------------------------
static int g_ctx(pbt::Src & s, int depth) {
    if (nctx >= NCTX) return -1;
    int id = nctx++; Ctx & c = C[id];
    c.susp = s.range(0, 3); c.alloc = int(s.draw(3)); c.exits = false; c.dact = int(s.draw(4)); c.cres = int(s.draw(3)); c.child = -1; res[id] = int(s.draw(3));
    if (depth < 2 && s.draw(4) == 3) { int ch = g_ctx(s, depth + 1); C[id].child = ch; }
    return id;
}
static bool run(pbt::Src & s) {
    nctx = nhold = 0; nt = s.range(1, 3);
    bool stused[NK] = {}, atused[NK] = {};
    struct Avail { int h, t; }; std::vector<Avail> open;
    for (int t = 0; t < nt; ++t) {
        Thr & th = T[t]; bool tused[NK] = {}, kused = false;
        th.n = s.range(1, NOPS); th.end = t == nt - 1 ? int(s.draw(3)) : s.draw(12) == 11 ? 1 + int(s.draw(2)) : 0; th.endctx = -1;
        for (int i = 0; i < th.n; ++i) {
            Op & o = th.op[i]; o = Op{ 2, 0, 0 };
            int what = int(s.draw(5)); bool done = false;
            if (what < 2 && nhold < NHOLD) {
                Hold & q = Q[nhold]; q.kind = int(s.draw(K_N)); q.idx = int(s.draw(NK)); q.n = 0; q.act = int(s.draw(5)); q.ontop = s.flip();
                bool & u = q.kind == K_TLS ? tused[q.idx] : q.kind == K_STATIC ? stused[q.idx] : q.kind == K_ATEXIT ? atused[q.idx] : kused;
                if (!u && !(q.kind == K_PKEY && t == nt - 1)) { u = true; done = true; q.fresh = s.draw(4) == 3 ? g_ctx(s, 1) : -1; o = Op{ 0, nhold, 0 }; open.push_back({ nhold, t }); ++nhold; }
            } else if (what < 4 && !open.empty()) {
                Avail a = open[s.draw(uint32_t(open.size()))]; Hold & q = Q[a.h];
                // a thread_local holder is reachable on its thread only, the others until they are destroyed
                if (q.n < 2 && (a.t == t || q.kind == K_STATIC || q.kind == K_ATEXIT)) { int c = g_ctx(s, 0); if (c >= 0) { q.c[q.n++] = c; o = Op{ 1, a.h, c }; done = true; } }
            }
            if (!done) { int c = g_ctx(s, 1); if (c < 0) { th.n = i; break; } o = Op{ 2, 0, c }; }
        }
        if (th.end == 2) { th.endctx = g_ctx(s, 1); if (th.endctx < 0) th.end = 1; else { int c = th.endctx; while (C[c].child >= 0 && C[c].cres + CC > C[C[c].child].susp && s.flip()) c = C[c].child; C[c].exits = true; } }
    }
    bool interesting = m_program();
    if (exp_.size() >= MAXEV) return false;
    if (pbt::verbose()) { pbt::log("%d threads, %d holders, %d contexts; expected:\n", nt, nhold, nctx); for (int e : exp_) pbt::log("  %s\n", show(e).c_str()); }
    if (early) { pbt::hit(l_early); if (early->got != 12) pbt::fail("contexts used before main misbehave (%d)", early->got); }
    tr->n = 0;
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (pid == 0) {
        struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r);
        for (int sg : { SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE }) signal(sg, SIG_DFL);
        std::atexit(last);
#ifdef BOOST_USE_WINFIB
        std::atexit(win_last);
#endif
        pool = new ctx::pooled_fixedsize_stack();
        pthread_key_create(&key, key_fn);
        for (int t = 0; t < nt - 1; ++t) { std::thread x(thread_ops, t); x.join(); }
        thread_ops(nt - 1);
        std::exit(33);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int e = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    if (e == 99) pbt::fail("see above");
    int n = tr->n;
    for (int i = 0; i < n; ++i) {
        if (i >= int(exp_.size())) pbt::fail("event %d: %s, expected nothing", i, show(tr->ev[i]).c_str());
        if (tr->ev[i] != exp_[size_t(i)]) pbt::fail("event %d: %s, expected: %s", i, show(tr->ev[i]).c_str(), show(exp_[size_t(i)]).c_str());
    }
    if (n < int(exp_.size())) pbt::fail("the process ended with status %d before: %s", e, show(exp_[size_t(n)]).c_str());
    if (e != 33) pbt::fail("the process ended with status %d instead of 33", e);
    return interesting && nhold >= 2;
}
static void init(int, char **) {
    tr = static_cast<Trace *>(mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (tr == MAP_FAILED) pbt::harness_error("mmap");
}
static pbt::Harness const harness = { "late", run, init, "programs whose static objects, thread_local objects, pthread keys and atexit handlers hold contexts; non-trivial: >=2 holders and at least one context that is alive or created while its holder is destroyed" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
