// Control-flow enforcement (user shadow stacks, SHADOW_STACK_SYSCALL) on processors and kernels that have none: the code
// under test runs with the trap flag set, the SIGTRAP handler sees every instruction before it is executed, keeps the shadow
// stack of the processor (calls push, returns compare and pop) and executes RDSSP, INCSSP, RSTORSSP and SAVEPREVSSP as
// specified (Intel SDM vol. 1 ch. 17/18, vol. 2). map_shadow_stack and munmap are wrapped at link time.
// Pause switches tracing off for a balanced stretch of the harness itself.
#pragma once
#include "pbt.hpp"
#include <sys/syscall.h>
#include <ucontext.h>
#ifdef CET_PROF
#include <dlfcn.h>
#endif

namespace cet {
struct Region { uint64_t lo, hi; bool live; };
static Region reg[96]; static int nreg;         // reg[0]: the thread's own
static uint64_t ssp;
static bool on;
static uint64_t steps, maps, unmaps, restores;
static bool refuse;                              // map_shadow_stack fails
static uint64_t prev_rsp, prev_rip; static int prev;      // class of the instruction just executed: 0 other, 1 call, 2 ret
static uint32_t depth_max;

static __attribute__((noinline)) Region * find(uint64_t a) {
    for (int i = nreg - 1; i >= 0; --i) if (reg[i].live && a >= reg[i].lo && a + 8 <= reg[i].hi) return &reg[i];
    return nullptr;
}
static uint64_t * at(uint64_t a, char const * what, uint64_t rip) {
    static Region * last;
    if (a & 7) pbt::fail("shadow stack: %s at %#lx uses the misaligned address %#lx", what, (unsigned long)rip, (unsigned long)a);
    if (!last || !last->live || a < last->lo || a + 8 > last->hi) {
        last = find(a);
        if (!last) {
            for (int i = 0; i < nreg; ++i) if (a + 8 == reg[i].lo || (a < reg[i].lo && reg[i].lo - a < 4096)) pbt::fail("shadow stack overflow: %s at %#lx (the shadow stack has %lu bytes)", what, (unsigned long)rip, (unsigned long)(reg[i].hi - reg[i].lo));
            pbt::fail("shadow stack: %s at %#lx accesses %#lx, which is no shadow stack", what, (unsigned long)rip, (unsigned long)a);
        }
    }
    return reinterpret_cast<uint64_t *>(a);
}
#ifdef CET_PROF
static uint32_t prof[65536]; static uint64_t profa[65536];
#endif
static void handler(int, siginfo_t *, void * vu) {
    ucontext_t * u = static_cast<ucontext_t *>(vu);
    greg_t * g = u->uc_mcontext.gregs;
    if (!(g[REG_EFL] & 0x100)) { prev = 0; return; }         // the POPF that switched tracing off
    ++steps;
#ifdef CET_PROF
    { uint64_t q = (uint64_t(g[REG_RIP]) >> 5) & 0xffff; ++prof[q]; profa[q] = uint64_t(g[REG_RIP]); }
#endif
    uint64_t rip = uint64_t(g[REG_RIP]), rsp = uint64_t(g[REG_RSP]);
    if (prev == 1) {
        uint64_t ra = *reinterpret_cast<uint64_t *>(rsp);
        ssp -= 8;
        *at(ssp, "call", prev_rip) = ra;
    } else if (prev == 2) {
        uint64_t want = *at(ssp, "return", prev_rip);
        if (want != rip) pbt::fail("control protection: the return at %#lx goes to %#lx, the shadow stack says %#lx", (unsigned long)prev_rip, (unsigned long)rip, (unsigned long)want);
        ssp += 8;
    }
    static int const regno[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
    unsigned char const * p;
    for (;;) {
        p = reinterpret_cast<unsigned char const *>(rip);
        if (p[0] != 0xf3) break;
        int k = 1, rex = 0;
        if ((p[k] & 0xf0) == 0x40) rex = p[k++];
        if (p[k] != 0x0f) break;
        int op = p[k + 1], mrm = p[k + 2], mod = mrm >> 6, ext = mrm >> 3 & 7, r = (mrm & 7) | (rex & 1) << 3;
        bool w = rex & 8;
        if (op == 0x1e && mod == 3 && ext == 1) {                                  // rdssp
            g[regno[r]] = w ? greg_t(ssp) : greg_t((uint64_t(g[regno[r]]) & ~0xffffffffull) | uint32_t(ssp));
            rip += uint64_t(k + 3);
        } else if (op == 0xae && mod == 3 && ext == 5) {                           // incssp
            uint64_t n = uint64_t(g[regno[r]]) & 0xff, sz = w ? 8 : 4;
            if (n) { at(ssp & ~7ull, "incssp", rip); at((ssp + n * sz - sz) & ~7ull, "incssp", rip); }
            ssp += n * sz;
            rip += uint64_t(k + 3);
        } else if (op == 0x01 && mrm == 0xea) {                                    // saveprevssp
            uint64_t t = *at(ssp, "saveprevssp", rip);
            if ((t & 3) != 3) pbt::fail("shadow stack: saveprevssp at %#lx: no previous-ssp token on top of the shadow stack", (unsigned long)rip);
            uint64_t old = t & ~3ull;
            *at(old - 8, "saveprevssp", rip) = old | 1;
            ssp += 8;
            rip += uint64_t(k + 3);
        } else if (op == 0x01 && mod != 3 && ext == 5) {                           // rstorssp m64
            int len = k + 3, b = mrm & 7; uint64_t a = 0;
            if (b == 4) {
                int sib = p[k + 3]; ++len;
                int base = (sib & 7) | (rex & 1) << 3, idx = (sib >> 3 & 7) | (rex & 2) << 2;
                if ((sib & 7) == 5 && mod == 0) pbt::harness_error("rstorssp with disp32 SIB");
                a = uint64_t(g[regno[base]]);
                if (idx != 4) a += uint64_t(g[regno[idx]]) << (sib >> 6);
            } else if (b == 5 && mod == 0) { int32_t d; memcpy(&d, p + len, 4); a = rip + uint64_t(len) + 4 + uint64_t(int64_t(d)); len += 4; }
            else a = uint64_t(g[regno[r]]);
            if (mod == 1) a += uint64_t(int64_t(static_cast<signed char>(p[len++])));
            else if (mod == 2) { int32_t d; memcpy(&d, p + len, 4); a += uint64_t(int64_t(d)); len += 4; }
            uint64_t * m = at(a, "rstorssp", rip), t = *m;
            if ((t & 3) != 1 || ((((t & ~1ull) - 8) & ~7ull) != a)) pbt::fail("control protection: rstorssp at %#lx finds no restore token at %#lx (%#lx)", (unsigned long)rip, (unsigned long)a, (unsigned long)t);
            *m = ssp | 3;
            ssp = a; ++restores;
            rip += uint64_t(len);
        } else break;
        g[REG_RIP] = greg_t(rip);
    }
    // what is executed next?
    int k = 0;
    while (p[k] == 0xf2 || p[k] == 0xf3 || p[k] == 0x3e || p[k] == 0x2e || p[k] == 0x66 || (p[k] & 0xf0) == 0x40) ++k;
    prev = p[k] == 0xe8 || (p[k] == 0xff && (p[k + 1] >> 3 & 7) == 2) ? 1 : p[k] == 0xc3 || p[k] == 0xc2 ? 2 : 0;
    prev_rip = rip; prev_rsp = rsp;
}
#define CET_TF_ON()  __asm__ volatile("leaq -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tnop\n\tleaq 128(%%rsp), %%rsp" ::: "cc", "memory")
#define CET_TF_OFF() __asm__ volatile("leaq -128(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tnop\n\tleaq 128(%%rsp), %%rsp" ::: "cc", "memory")
struct Pause {
    bool was;
    __attribute__((always_inline)) Pause() : was(on) { if (was) { CET_TF_OFF(); on = false; } }
    __attribute__((always_inline)) ~Pause() { if (was) { on = true; CET_TF_ON(); } }
};
#define CET_PAUSE cet::Pause cet_pause_
static __attribute__((noinline)) void setup() {
    static bool done;
    static char alt[64 * 1024];
    if (!done) {
        done = true;
        stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(SIGTRAP, &sa, nullptr);
        void * b = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        reg[0] = Region{ uint64_t(b), uint64_t(b) + (1 << 20), true };
    }
    nreg = 1; ssp = reg[0].hi - 4096; prev = 0;
}
static __attribute__((noinline)) void at_end() {
#ifdef CET_PROF
    printf("PROF %lu\n", (unsigned long)steps); for (int i = 0; i < 65536; ++i) if (prof[i] > 500) { Dl_info di; printf("P %u %#lx %s\n", prof[i], (unsigned long)profa[i], dladdr((void *)profa[i], &di) ? (di.dli_sname ? di.dli_sname : di.dli_fname) : "?"); }
#endif
    for (int i = 1; i < nreg; ++i) if (reg[i].live) pbt::fail("the shadow stack of %lu bytes at %#lx was never unmapped", (unsigned long)(reg[i].hi - reg[i].lo), (unsigned long)reg[i].lo);
    if (ssp != reg[0].hi - 4096) pbt::fail("at the end the shadow stack pointer of the thread is off by %ld bytes", long(reg[0].hi - 4096 - ssp));
}
#define CET_BEGIN() do { cet::setup(); cet::on = true; CET_TF_ON(); } while (0)
#define CET_END() do { CET_TF_OFF(); cet::on = false; cet::at_end(); } while (0)
} // namespace cet

extern "C" long __real_syscall(long, long, long, long, long, long, long);
extern "C" int __real_munmap(void *, size_t);
extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (n != 453) return __real_syscall(n, a, b, c, d, e, f);
    CET_PAUSE;
    uint64_t size = uint64_t(b), al = (size + 4095) & ~uint64_t(4095);
    if (a || (c & ~1l) || !size || (c && (size & 7))) { errno = EINVAL; return -1; }
    if (cet::refuse) { errno = ENOMEM; return -1; }
    if (cet::nreg >= 96) pbt::harness_error("too many shadow stacks");
    void * m = mmap(nullptr, al, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return -1;
    ++cet::maps;
    cet::reg[cet::nreg++] = cet::Region{ uint64_t(m), uint64_t(m) + al, true };
    if (c) *reinterpret_cast<uint64_t *>(uint64_t(m) + size - 8) = (uint64_t(m) + size) | 1;
    return long(m);
}
extern "C" int __wrap_munmap(void * p, size_t n) {
    CET_PAUSE;
    uint64_t a = uint64_t(p), al = (n + 4095) & ~size_t(4095);
    for (int i = 0; i < cet::nreg; ++i) if (cet::reg[i].live && a < cet::reg[i].hi && a + al > cet::reg[i].lo) {
        if (i == 0 || a != cet::reg[i].lo || a + al != cet::reg[i].hi) pbt::fail("munmap(%p, %zu) does not fit the shadow stack [%#lx,%#lx)", p, n, (unsigned long)cet::reg[i].lo, (unsigned long)cet::reg[i].hi);
        if (cet::ssp >= cet::reg[i].lo && cet::ssp <= cet::reg[i].hi) pbt::fail("the shadow stack in use is unmapped");
        cet::reg[i].live = false; ++cet::unmaps;
    }
    return __real_munmap(p, n);
}
