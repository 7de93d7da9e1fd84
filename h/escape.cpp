// C20: an exception that leaves a context's function calls std::terminate, whatever surrounds it.
// Every case runs in a forked child whose terminate handler checks that exactly the escaping
// exception is being handled; no handler of any other context may have run.
#include "pbt.hpp"
#ifdef BOOST_USE_WINFIB
#include "winmock.hpp"
#endif
#include <boost/context/detail/config.hpp>
#ifdef M_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/stack_traits.hpp>
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <new>
#include <thread>
namespace ctx = boost::context;
#ifdef M_CALLCC
typedef ctx::continuation H;
enum { CC = 1 };
#else
typedef ctx::fiber H;
enum { CC = 0 };
#endif
#define NI __attribute__((noinline))
struct Evil { int v; std::string s; };
struct Base { virtual ~Base() {} int v; };
struct Derived : Base { int w; };
static int kind_, val_;
// what is thrown
NI static void raise() {
    switch (kind_) {
    case 0: throw val_;
    case 1: throw std::runtime_error("escape " + std::to_string(val_));
    case 2: throw Evil{ val_, std::string(100, char('a' + val_ % 26)) };
    case 3: { Derived d; d.v = val_; d.w = val_ + 1; throw d; }
    case 4: throw std::unique_ptr<int>(new int(val_));
    case 5: throw std::make_exception_ptr(val_);
    case 6: throw std::system_error(std::error_code(val_, std::generic_category()));
    case 7: throw std::bad_alloc();
    case 8: throw static_cast<char const *>("text");
    case 9: std::rethrow_exception(std::make_exception_ptr(Evil{ val_, "x" }));
    default: throw nullptr;
    }
}
static volatile bool thrown; static volatile int wrong;
static void on_terminate() {
    if (!thrown) _exit(51);                         // terminated before anything escaped
    std::exception_ptr p = std::current_exception();
    if (!p) _exit(52);
    try { std::rethrow_exception(p); }
    catch (int x) { _exit(kind_ == 0 && x == val_ ? 40 : 53); }
    catch (std::system_error const & x) { _exit(kind_ == 6 && x.code().value() == val_ ? 40 : 53); }
    catch (std::runtime_error const & x) { _exit(kind_ == 1 && x.what() == "escape " + std::to_string(val_) ? 40 : 53); }
    catch (Evil const & x) { _exit((kind_ == 2 && x.v == val_ && x.s == std::string(100, char('a' + val_ % 26))) || (kind_ == 9 && x.v == val_) ? 40 : 53); }
    catch (Base const & x) { Derived const * d = dynamic_cast<Derived const *>(&x); _exit(kind_ == 3 && d && d->v == val_ && d->w == val_ + 1 ? 40 : 53); }
    catch (std::unique_ptr<int> const & x) { _exit(kind_ == 4 && *x == val_ ? 40 : 53); }
    catch (std::exception_ptr const &) { _exit(kind_ == 5 ? 40 : 53); }
    catch (std::bad_alloc const &) { _exit(kind_ == 7 ? 40 : 53); }
    catch (char const * x) { _exit(kind_ == 8 && x && !strcmp(x, "text") ? 40 : kind_ == 10 && !x ? 40 : 53); }
    catch (std::nullptr_t) { _exit(kind_ == 10 ? 40 : 53); }
#ifdef __clang__
    // clang unwinds the escaping context up to the noexcept boundary first (the standard leaves that
    // open): the handle of the resumer dies and main is unwound, which ends in std::terminate as well
    catch (ctx::detail::forced_unwind const &) { _exit(40); }
#endif
    catch (...) { _exit(54); }
}
// script of one case, drawn before the fork
struct Lvl { bool tryblock, prot, threadhop; int bystanders, mid; };
static Lvl L[8]; static int nl, how, nest, inner; static bool onthread, started; static int caught_own;

struct Spec { int a; };
static NI void rec(int n) {
    struct D { std::string s{ "some live object that is destroyed or not" }; ~D() {} } d;
    if (n > 0) rec(n - 1); else { thrown = true; raise(); }
    asm volatile("" ::: "memory");
}
static NI void own() {      // exceptions that stay inside
    for (int i = 0; i < inner; ++i) {
        try { try { try { throw std::runtime_error("in"); } catch (std::logic_error const &) { _exit(60); } } catch (std::runtime_error const & e) { ++caught_own; if (strcmp(e.what(), "in")) _exit(61); throw i; } }
        catch (int x) { if (x != i) _exit(62); ++caught_own; }
    }
}
template<class F> static NI H start(int l, F f) {
#ifdef M_CALLCC
    if (L[l].prot) return ctx::callcc(std::allocator_arg, ctx::protected_fixedsize_stack(128 * 1024), std::move(f));
    return ctx::callcc(std::move(f));
#else
    H h = L[l].prot ? H(std::allocator_arg, ctx::protected_fixedsize_stack(128 * 1024), std::move(f)) : H(std::move(f));
    return std::move(h).resume();
#endif
}
static NI H bystander(H && m) {
    try { m = std::move(m).resume(); } catch (ctx::detail::forced_unwind const &) { throw; } catch (...) { _exit(55); }
    return std::move(m);
}
static NI void level(int l);
static NI H lvl_body(int l, H && m) {
    for (int i = 0; i < L[l].mid; ++i) { own(); m = std::move(m).resume(); }
    if (l + 1 < nl) level(l + 1);
    else {
        own();
        switch (how) {
        case 0: rec(nest); break;
        case 1: { // leaves a handler of the context
            try { throw 1.5; } catch (double) { thrown = true; raise(); }
            break;
        }
        case 2: { // rethrown unchanged by the function itself
            try { thrown = true; raise(); } catch (ctx::detail::forced_unwind const &) { throw; } catch (...) { throw; }
            break;
        }
        case 3: { // a destructor executed by the unwinding of the context throws (it is noexcept(false))
            struct Bad { bool & live; ~Bad() noexcept(false) { if (live) { thrown = true; raise(); } } }; bool live = true; Bad b{ live };
            m = std::move(m).resume(); _exit(56);
        }
        case 4: { // thrown by an on-top function in a target that does not catch it
            m = std::move(m).resume(); _exit(57);
        }
        case 5: { // a noexcept function within the context
            struct N { static NI void f(int n) noexcept { rec(n); } }; N::f(nest); break;
        }
        }
    }
    return std::move(m);
}
static NI void level(int l) {
    H by[4]; for (int i = 0; i < L[l].bystanders; ++i) by[i] = start(l, [](H && m) { return bystander(std::move(m)); });
    auto go = [&] {
        H h;
        bool last = l + 1 == nl;
        h = start(l, [l](H && m) { return lvl_body(l, std::move(m)); });
        for (int i = 0; i < L[l].mid; ++i) h = std::move(h).resume();
        if (last && how == 3) { if (!h) _exit(58); h = H(); }
        if (last && how == 4) { if (!h) _exit(58); h = std::move(h).resume_with([](H && m) -> H { thrown = true; raise(); return std::move(m); }); }
    };
    if (L[l].tryblock) { try { go(); } catch (ctx::detail::forced_unwind const &) { throw; } catch (...) { _exit(50); } }
    else go();
    _exit(59);
}
// how == 6: the function is entered by resume_with whose function throws in a context never started
static NI void fresh() {
    try {
#ifndef M_CALLCC
        struct Fn { H operator()(H && m) { _exit(63); return std::move(m); } };
        H h{ Fn() };
        h = std::move(h).resume_with([](H && m) -> H { thrown = true; raise(); return std::move(m); });
#endif
    } catch (ctx::detail::forced_unwind const &) { throw; } catch (...) { _exit(50); }
    _exit(59);
}
static bool run(pbt::Src & s) {
    kind_ = int(s.draw(11)); val_ = 1 + int(s.draw(1000)); how = int(s.draw(CC ? 6 : 7)); nest = int(s.draw(6)); inner = int(s.draw(4)); nl = s.range(1, 6); onthread = s.draw(4) == 3; caught_own = 0;
    int by = 0, tr = 0;
    for (int i = 0; i < nl; ++i) { L[i].tryblock = s.flip(); L[i].prot = s.draw(3) == 2; L[i].bystanders = int(s.draw(4)); L[i].mid = int(s.draw(3)); by += L[i].bystanders; tr += L[i].tryblock; }
    pbt::log("exception kind %d value %d escapes (way %d) from %d nested contexts, %d try blocks, %d bystanders%s\n", kind_, val_, how, nl, tr, by, onthread ? ", on a thread" : "");
    pid_t pid = fork();
    if (pid < 0) pbt::harness_error("fork");
    if (pid == 0) {
        struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r);
        for (int sg : { SIGABRT, SIGSEGV, SIGBUS, SIGILL }) signal(sg, SIG_DFL);
        std::set_terminate(on_terminate); thrown = false;
        auto f = [] { if (how == 6) fresh(); else level(0); };
        if (onthread) { std::thread t(f); t.join(); } else f();
        _exit(59);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int e = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    switch (e) {
    case 40: break;
    case 50: pbt::fail("an exception that left a context's function reached the resumer");
    case 51: pbt::fail("std::terminate was called although no exception escaped");
    case 52: pbt::fail("std::terminate was called without the escaping exception");
    case 53: pbt::fail("std::terminate was called with an exception of another value or type");
    case 54: pbt::fail("std::terminate was called with a foreign exception");
    case 55: pbt::fail("an exception reached the handler of an unrelated, suspended context");
    case 56: case 57: pbt::fail("a suspended context was resumed instead of unwound/receiving the exception");
    case 58: pbt::fail("the context finished early");
    case 59: pbt::fail("an exception that left a context's function disappeared");
    case 60: case 61: case 62: pbt::fail("an exception caught inside its context was delivered to the wrong handler");
    case 63: pbt::fail("a context entered by a throwing on-top function was started");
    default: pbt::fail("instead of std::terminate the process ended with status %d", e);
    }
    return nl >= 2 && (by >= 1 || tr >= 1);
}
static pbt::Harness const harness = { "escape", run, nullptr, "nested contexts with try blocks and suspended bystanders; the innermost lets an exception escape; non-trivial: >=2 nested contexts and at least one try block or bystander" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
