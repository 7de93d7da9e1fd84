// A signal may be delivered at any instruction: bursts of single steps (trap flag), each of which runs a handler. Either on the
// stack in use (the kernel's frame and the handler overwrite what lies below the red zone), or on an alternate stack: then the
// handler overwrites the bytes below the red zone itself, all of them (the kernel leaves gaps).
#pragma once
#include <csignal>
#include <cerrno>
#include <cstring>
#include <ucontext.h>
namespace sig {
static volatile long left; static volatile unsigned long delivered;
static unsigned char * alt; enum { ALT = 64 * 1024, CLOB = 900 };
static __attribute__((noinline)) void handler(int, siginfo_t *, void * u) {
    int e = errno;
    auto * g = static_cast<ucontext_t *>(u)->uc_mcontext.gregs;
    volatile unsigned char a[700]; for (unsigned i = 0; i < sizeof a; ++i) a[i] = 0xC3;
    unsigned char * here = const_cast<unsigned char *>(a);
    if (here >= alt && here < alt + ALT) {
        volatile unsigned long * q = reinterpret_cast<volatile unsigned long *>((static_cast<unsigned long>(g[REG_RSP]) - 128 - CLOB) & ~7ul);
        unsigned char * end = reinterpret_cast<unsigned char *>(g[REG_RSP]) - 128;
        for (; reinterpret_cast<unsigned char volatile *>(q + 1) <= end; ++q) *q = 0xC3C3C3C3C3C3C3C3ul;
        for (volatile unsigned char * r = reinterpret_cast<volatile unsigned char *>(q); r < end; ++r) *r = 0xC3;
    }
    ++delivered; errno = EDOM;
    if (--left <= 0) g[REG_EFL] &= ~0x100ll;
    errno = e;
}
static void setup(bool onstack) {
    if (!alt) alt = static_cast<unsigned char *>(mmap(nullptr, ALT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    stack_t st{}; st.ss_sp = alt; st.ss_size = ALT; sigaltstack(&st, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | (onstack ? SA_ONSTACK : 0);
    sigaction(SIGTRAP, &sa, nullptr);
}
#define SIG_TF(op) __asm__ volatile("leaq -128(%%rsp), %%rsp\n\tpushfq\n\t" op ", (%%rsp)\n\tpopfq\n\tnop\n\tleaq 128(%%rsp), %%rsp" ::: "cc", "memory")
static inline __attribute__((always_inline)) void burst(long n) { left = n; SIG_TF("orq $0x100"); }
static inline __attribute__((always_inline)) void stop() { left = 0; SIG_TF("andq $~0x100"); }
}
