// Windows fibers as documented (fibersapi.h), on top of ucontext. Misuse that Windows leaves undefined is a failure of the case:
// switching to a fiber that runs, was deleted or never existed, switching from a thread that is no fiber, deleting a running
// fiber, a fiber function that returns (this would end the thread).
#pragma once
#ifdef WIN_STANDALONE
// (an object file linked with generated programs)
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
namespace pbt {
template<class... A> [[noreturn]] static void fail(char const * f, A... a) { printf("misuse of the Windows API: "); printf(f, a...); printf("\n"); fflush(stdout); abort(); }
[[noreturn]] static void harness_error(char const * w) { fail("%s", w); }
}
#else
#include "pbt.hpp"
#endif
#include <windows.h>
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

#ifndef WIN_GETCONTEXT
#define WIN_GETCONTEXT getcontext
#endif
namespace win {
struct Fiber { uint64_t magic; ucontext_t u; char * lo; char * hi; void * map; size_t maplen; bool thread, running; LPFIBER_START_ROUTINE fn; void * arg; };
enum : uint64_t { LIVE = 0x4642524c49564521ull, DEAD = 0xdead46425244ull };
static long created, deleted, converted, switches;     // statistics
static bool refuse;                                    // CreateFiber fails
static DWORD (* refuse_hook)();                        // returns an error or 0
static thread_local Fiber * cur_;
static thread_local DWORD err_;
static __attribute__((noinline)) Fiber *& cur() { Fiber ** p = &cur_; __asm__ volatile("" : "+r"(p) :: "memory"); return *p; }
static Fiber * all[512]; static int nall;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
struct Lock { Lock() { pthread_mutex_lock(&mx); } ~Lock() { pthread_mutex_unlock(&mx); } };
static bool known(void const * p) { Lock l; for (int i = 0; i < nall; ++i) if (all[i] == p) return true; return false; }
static Fiber * make(size_t stack) {
    size_t len = 8192 + stack;
    // (directly: the harnesses observe mmap())
    void * m = reinterpret_cast<void *>(syscall(SYS_mmap, nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED) return nullptr;
    // [fiber | guard | stack]
    Fiber * f = static_cast<Fiber *>(m);
    f->map = m; f->maplen = len; f->magic = LIVE;
    if (stack) { syscall(SYS_mprotect, static_cast<char *>(m) + 4096, 4096, PROT_NONE); f->lo = static_cast<char *>(m) + 8192; f->hi = f->lo + stack; }
    Lock l;
    if (nall >= 512) { pbt::harness_error("too many fibers"); }
    all[nall++] = f;
    return f;
}
static void drop(Fiber * f) {
    Lock l;
    for (int i = 0; i < nall; ++i) if (all[i] == f) { all[i] = all[--nall]; break; }
    f->magic = DEAD;
    syscall(SYS_munmap, f->map, f->maplen);
}
static int live_fibers() { Lock l; int n = 0; for (int i = 0; i < nall; ++i) n += !all[i]->thread; return n; }
static void start(unsigned lo, unsigned hi) {
    Fiber * f = reinterpret_cast<Fiber *>(uintptr_t(lo) | uintptr_t(hi) << 32);
    f->fn(f->arg);
    pbt::fail("the function of a Windows fiber returned: the thread would be ended");
}
} // namespace win
static_assert(sizeof(win::Fiber) <= 4096, "");

extern "C" DWORD GetLastError(void) { return win::err_; }
extern "C" VOID SetLastError(DWORD e) { win::err_ = e; }
extern "C" BOOL IsThreadAFiber(void) { return win::cur() != nullptr; }
// (undefined when the thread is no fiber: Windows returns a value that is not a fiber)
extern "C" LPVOID GetCurrentFiber(void) { win::Fiber * f = win::cur(); return f ? f : reinterpret_cast<LPVOID>(0x1E00); }
extern "C" LPVOID GetFiberData(void) { win::Fiber * f = win::cur(); if (!f) pbt::fail("GetFiberData on a thread that is no fiber"); return f->arg; }
extern "C" LPVOID ConvertThreadToFiberEx(LPVOID p, DWORD) {
    if (win::cur()) { win::err_ = ERROR_ALREADY_FIBER; return nullptr; }
    win::Fiber * f = win::make(0);
    if (!f) { win::err_ = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    f->thread = f->running = true; f->arg = p; win::cur() = f; ++win::converted;
    return f;
}
extern "C" LPVOID ConvertThreadToFiber(LPVOID p) { return ConvertThreadToFiberEx(p, 0); }
extern "C" BOOL ConvertFiberToThread(void) {
    win::Fiber * f = win::cur();
    if (!f) { win::err_ = ERROR_ALREADY_THREAD; return FALSE; }
    if (!f->thread) pbt::fail("ConvertFiberToThread is called by a fiber that is no converted thread");
    win::cur() = nullptr; --win::converted; win::drop(f);
    return TRUE;
}
extern "C" LPVOID CreateFiberEx(SIZE_T commit, SIZE_T reserve, DWORD, LPFIBER_START_ROUTINE fn, LPVOID arg) {
    if (win::refuse_hook) { DWORD e = win::refuse_hook(); if (e) { win::err_ = e; return nullptr; } }
    if (win::refuse || commit > (SIZE_T(1) << 40)) { win::err_ = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    size_t const MB = 1 << 20;
    size_t sz = reserve ? reserve : MB;
    if (commit >= sz) sz = (commit + MB - 1) / MB * MB;
    sz = (sz + 4095) & ~size_t(4095);
    win::Fiber * f = win::make(sz);
    if (!f) { win::err_ = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    f->fn = fn; f->arg = arg;
    WIN_GETCONTEXT(&f->u);
    f->u.uc_stack.ss_sp = f->lo; f->u.uc_stack.ss_size = size_t(f->hi - f->lo); f->u.uc_link = nullptr;
    makecontext(&f->u, reinterpret_cast<void (*)()>(win::start), 2, unsigned(uintptr_t(f)), unsigned(uintptr_t(f) >> 32));
    __atomic_add_fetch(&win::created, 1, __ATOMIC_RELAXED);
    return f;
}
extern "C" LPVOID CreateFiber(SIZE_T size, LPFIBER_START_ROUTINE fn, LPVOID arg) { return CreateFiberEx(size, 0, 0, fn, arg); }
extern "C" VOID DeleteFiber(LPVOID p) {
    if (!p) pbt::fail("DeleteFiber(NULL)");
    if (!win::known(p)) pbt::fail("DeleteFiber(%p): no such fiber (deleted twice?)", p);
    win::Fiber * f = static_cast<win::Fiber *>(p);
    if (f == win::cur()) pbt::fail("DeleteFiber of the running fiber: the thread would be ended");
    if (f->running) pbt::fail("DeleteFiber of a fiber that runs on another thread");
    if (f->thread) pbt::fail("DeleteFiber of a converted thread");
    __atomic_add_fetch(&win::deleted, 1, __ATOMIC_RELAXED);
    win::drop(f);
}
extern "C" VOID SwitchToFiber(LPVOID p) {
    win::Fiber * me = win::cur();
    if (!me) pbt::fail("SwitchToFiber is called on a thread that is no fiber");
    if (!p) pbt::fail("SwitchToFiber(NULL)");
    if (!win::known(p)) pbt::fail("SwitchToFiber(%p): no such fiber", p);
    win::Fiber * f = static_cast<win::Fiber *>(p);
    if (f == me) pbt::fail("SwitchToFiber to the running fiber");
    if (f->running) pbt::fail("SwitchToFiber to a fiber that runs on another thread");
    if (f->thread) { /* the stack of another thread: only valid on that thread, checked by the model */ }
    __atomic_add_fetch(&win::switches, 1, __ATOMIC_RELAXED);
    me->running = false; f->running = true; win::cur() = f;
    swapcontext(&me->u, &f->u);
}
