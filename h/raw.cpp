// C17 / C23: host of rawcore.h for 64-bit code.
#include "pbt.hpp"
#ifndef RAW_MAKE
#define RAW_MAKE make_fcontext
#define RAW_JUMP jump_fcontext
#define RAW_ONTOP ontop_fcontext
#endif
#if RAW_CET
#include "cet.hpp"
// what the documentation of the library's own callers does: the address of the shadow stack lies below the stack top
static void raw_shadow(unsigned char * top, size_t size) {
    size_t n = (size + 7) & ~size_t(7);
    long b = __wrap_syscall(453, 0, long(n), 1, 0, 0, 0);
    if (b == -1) pbt::harness_error("shadow stack");
    uint64_t v = uint64_t(b) + n;
    memcpy(top - 8, &v, 8);
}
static void raw_shadow_end() {      // the contexts of the case are given up
    CET_PAUSE;
    for (int i = 1; i < cet::nreg; ++i) if (cet::reg[i].live) { __real_munmap(reinterpret_cast<void *>(cet::reg[i].lo), cet::reg[i].hi - cet::reg[i].lo); cet::reg[i].live = false; }
}
#endif
#include "rawcore.h"
#if defined(ABI_MS64)
#include <asm/prctl.h>
#include <sys/syscall.h>
#endif
unsigned raw_draw(unsigned n) { return pbt::src().draw(n); }
static bool host_env_dirty = true;
[[noreturn]] void raw_fail(char const * fmt, W a, W b, W c, W d) {
    w_mx(0x1f80); w_cw(0x37f);
    // %d/%ld/%lx all take one word
    char f[300]; size_t j = 0;
    for (size_t i = 0; fmt[i] && j < sizeof f - 4; ++i) { f[j++] = fmt[i]; if (fmt[i] == '%' && fmt[i + 1] == 'd') f[j++] = 'l'; }
    f[j] = 0;
    char out[900];
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
    snprintf(out, sizeof out, f, a, b, c, d);
    if (strncmp(out, "harness:", 8) == 0) pbt::harness_error("%s", out);
    pbt::fail("%s", out);
}
void raw_log(char const * fmt, W a, W b, W c, W d) {
    if (!pbt::verbose()) return;
    CET_PAUSE;
    uint32_t m = r_mx(); uint16_t w = r_cw();
    w_mx(0x1f80); w_cw(0x37f);
    char f[300]; size_t j = 0;
    for (size_t i = 0; fmt[i] && j < sizeof f - 4; ++i) { f[j++] = fmt[i]; if (fmt[i] == '%' && fmt[i + 1] == 'd') f[j++] = 'l'; }
    f[j] = 0;
    char out[300];
    snprintf(out, sizeof out, f, a, b, c, d);
    pbt::log("%s", out);
    w_mx(m); w_cw(w);
}
extern "C" void CC raw_exit(int code) { _exit(code); }     // target of the foreign objects' _exit
static bool exits;
#if RAW_SIG
#include <ucontext.h>
extern "C" char __executable_start, etext;
PBT_LABEL(l_s, "signals delivered");
static void on_trap(int, siginfo_t *, void * u) {
    auto * g = static_cast<ucontext_t *>(u)->uc_mcontext.gregs;
    bool own = g[REG_RIP] >= W(&__executable_start) && g[REG_RIP] < W(&etext);
    int e = errno;
    if (rsignal(W(g[REG_RSP]), own)) g[REG_EFL] &= ~0x100ll;
    errno = e;
}
#endif
PBT_LABEL(l_j, "jumps"); PBT_LABEL(l_o, "ontop jumps"); PBT_LABEL(l_n, "nested on-top"); PBT_LABEL(l_m, "contexts made"); PBT_LABEL(l_x, "function returns (process exit)");
static bool run(pbt::Src &) {
    if (exits) {
        // returning from a context function ends the process with exit code zero
        pbt::Shared * s = pbt::sh();
        pid_t pid = fork();
        if (pid < 0) pbt::harness_error("fork");
        if (pid == 0) { raw_case(1, 14, true); _exit(77); }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (s->failed) _exit(s->failed == 1 ? 99 : 98);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) pbt::fail("returning from a context function: process %s %d instead of exiting with code zero", WIFEXITED(st) ? "exited with" : "was killed by signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
        pbt::hit(l_x);
        return true;
    }
    raw_case(8, 60, false);
    pbt::hit(l_j, uint64_t(rjumps)); pbt::hit(l_o, uint64_t(rontops)); pbt::hit(l_n, uint64_t(rnested)); pbt::hit(l_m, uint64_t(rn - 1));
#if RAW_SIG
    pbt::hit(l_s, rsigs); rsigs = 0;
#endif
    pbt::sh()->worksum = pbt::sh()->worksum + uint64_t(rjumps);
    return rjumps >= 6 && rmaxlive >= 2 && rontops >= 1;
}
static void init(int argc, char ** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--exits")) exits = true;
    if (!raw_arena) raw_arena = static_cast<unsigned char *>(mmap(nullptr, size_t(RAW_NSLOT + 1) * RAW_SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
#if RAW_SIG
    struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    static unsigned char alt[65536]; stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    sigaction(SIGTRAP, &sa, nullptr);
#endif
#if RAW_TEB
    if (!raw_teb) raw_teb = static_cast<unsigned char *>(mmap(nullptr, 0x4000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    *reinterpret_cast<W *>(raw_teb + 0x30) = W(raw_teb);
    syscall(SYS_arch_prctl, ARCH_SET_GS, raw_teb);
#endif
}
static pbt::Harness const harness = { "raw", run, init,
    "a script of make / jump / on-top-jump / control-word changes over up to 10 contexts with random stack tops, sizes, register contents and data words; non-trivial: >=6 jumps, >=1 on-top jump, >=2 suspended contexts at once (exit jobs: a context function returned)" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
