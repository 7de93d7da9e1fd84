// Model-based test of the low level switch functions at register level.  Freestanding: used by the
// 64-bit harness (raw.cpp) directly and by the 32-bit agent (raw32.cpp).
//
// Every context runs loop(): it makes new contexts, jumps or on-top-jumps to any suspended one, with
// random values in all registers the ABI calls preserved (and junk in all others), and at every point
// where control arrives the model says which context must be running, what it must have received and
// what its registers, control words, thread block and stack memory must contain.
#pragma once
#include <stdint.h>
#include <stddef.h>

typedef uintptr_t W;
struct TR { void * fctx; void * data; };

#if defined(ABI_MS64)
#define CC __attribute__((ms_abi))
#else
#define CC
#endif
#ifndef RAW_TSX
#define RAW_TSX 0          // 1: control words are not switched
#endif
#ifndef RAW_CET            // 1: shadow stacks (cet.hpp)
#define RAW_CET 0
#endif
#if !RAW_CET
#define CET_PAUSE (void)0
#define CET_BEGIN() (void)0
#define CET_END() (void)0
#endif
#ifndef RAW_SIG
#define RAW_SIG 0          // 1: bursts of signals, one after every instruction
#endif
#ifndef RAW_GUARD
#define RAW_GUARD 0        // 1: the stack protector guard in the TLS block belongs to the context
#endif
#if defined(ABI_MS64) || defined(ABI_MS32)
#define RAW_TEB 1
#else
#define RAW_TEB 0
#endif
extern "C" {
void * CC RAW_MAKE(void * sp, size_t size, void (CC * fn)(TR));
TR CC RAW_JUMP(void * const to, void * vp);
TR CC RAW_ONTOP(void * const to, void * vp, TR (CC * fn)(TR));
}

// provided by the host
unsigned raw_draw(unsigned n);
[[noreturn]] void raw_fail(char const * fmt, W a = 0, W b = 0, W c = 0, W d = 0);
void raw_log(char const * fmt, W a = 0, W b = 0, W c = 0, W d = 0);
static unsigned char * raw_arena;          // RAW_NSLOT * RAW_SLOT bytes
static unsigned char * raw_teb;            // fake thread block (MS ABIs)

enum { RAW_NSLOT = 10, RAW_SLOT = 64 * 1024, RAW_RED = 512, RAW_MAXC = 10 };

static inline W rmix(W x_) {
    uint64_t x = x_; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    return W(x) ^ W(x >> 32 >> (sizeof(W) == 8 ? 31 : 0));
}

#if defined(ABI_MS64)
enum { NREG = 8 };
static char const * const regname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15", "rsi", "rdi" };
struct Regs { W fn, a0, a1, a2; W in[8]; W out[8]; W rax, rdx; W junk; W pad; uint64_t xin[20]; uint64_t xout[20]; };
extern "C" void raw_probe(Regs *);
__asm__(R"(
.text
.globl raw_probe
.type raw_probe,@function
raw_probe:
    push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15
    push %rdi
    sub $0x30,%rsp
    mov %rdi,%rax
    mov %rdi,0x28(%rsp)
    mov 32(%rax),%rbx
    mov 40(%rax),%rbp
    mov 48(%rax),%r12
    mov 56(%rax),%r13
    mov 64(%rax),%r14
    mov 72(%rax),%r15
    mov 80(%rax),%rsi
    mov 88(%rax),%rdi
    movups 192(%rax),%xmm6
    movups 208(%rax),%xmm7
    movups 224(%rax),%xmm8
    movups 240(%rax),%xmm9
    movups 256(%rax),%xmm10
    movups 272(%rax),%xmm11
    movups 288(%rax),%xmm12
    movups 304(%rax),%xmm13
    movups 320(%rax),%xmm14
    movups 336(%rax),%xmm15
    mov 176(%rax),%r10
    movq %r10,%xmm0
    movq %r10,%xmm1
    movq %r10,%xmm5
    lea 160(%rax),%rcx
    mov 8(%rax),%rdx
    mov 16(%rax),%r8
    mov 24(%rax),%r9
    mov (%rax),%r11
    mov %r10,%rax
    call *%r11
    mov 0x28(%rsp),%rcx
    mov %rbx,96(%rcx)
    mov %rbp,104(%rcx)
    mov %r12,112(%rcx)
    mov %r13,120(%rcx)
    mov %r14,128(%rcx)
    mov %r15,136(%rcx)
    mov %rsi,144(%rcx)
    mov %rdi,152(%rcx)
    movups %xmm6,352(%rcx)
    movups %xmm7,368(%rcx)
    movups %xmm8,384(%rcx)
    movups %xmm9,400(%rcx)
    movups %xmm10,416(%rcx)
    movups %xmm11,432(%rcx)
    movups %xmm12,448(%rcx)
    movups %xmm13,464(%rcx)
    movups %xmm14,480(%rcx)
    movups %xmm15,496(%rcx)
    add $0x30,%rsp
    pop %rdi
    pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx
    ret
.size raw_probe,.-raw_probe
)");
#elif defined(__x86_64__)
enum { NREG = 6 };
static char const * const regname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
struct Regs { W fn, a0, a1, a2; W in[6]; W out[6]; W rax, rdx; W junk; };
extern "C" void raw_probe(Regs *);
__asm__(R"(
.text
.globl raw_probe
.type raw_probe,@function
raw_probe:
    push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15
    push %rdi
    mov %rdi,%rax
    mov 32(%rax),%rbx
    mov 40(%rax),%rbp
    mov 48(%rax),%r12
    mov 56(%rax),%r13
    mov 64(%rax),%r14
    mov 72(%rax),%r15
    mov 8(%rax),%rdi
    mov 16(%rax),%rsi
    mov 24(%rax),%rdx
    mov (%rax),%r11
    mov 144(%rax),%r10
    mov %r10,%r9
    mov %r10,%r8
    mov %r10,%rcx
    movq %r10,%xmm0
    movq %r10,%xmm1
    movq %r10,%xmm6
    movq %r10,%xmm15
    mov %r10,%rax
    call *%r11
    mov (%rsp),%rcx
    mov %rbx,80(%rcx)
    mov %rbp,88(%rcx)
    mov %r12,96(%rcx)
    mov %r13,104(%rcx)
    mov %r14,112(%rcx)
    mov %r15,120(%rcx)
    mov %rax,128(%rcx)
    mov %rdx,136(%rcx)
    pop %rdi
    pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx
    ret
.size raw_probe,.-raw_probe
)");
#else  // i386; RAW_SRET: transfer_t through a hidden pointer popped by the callee, else in eax:edx
enum { NREG = 4 };
static char const * const regname[] = { "ebx", "ebp", "esi", "edi" };
struct Regs { W fn, a0, a1, a2; W in[4]; W out[4]; W rax, rdx; W junk; W spin, spout; };
extern "C" void raw_probe(Regs *);
__asm__(R"(
.text
.globl raw_probe
.type raw_probe,@function
raw_probe:
    mov 4(%esp),%eax
    push %ebx; push %ebp; push %esi; push %edi
    push %eax
    sub $8,%esp
    /* entry esp = 16k+12, now 16k+12-28 = 16m */
    pushl 4*3(%eax)
    pushl 4*2(%eax)
    pushl 4*1(%eax)
)"
#ifdef RAW_SRET
R"(
    lea 4*12(%eax),%ecx
    push %ecx
)"
#else
R"(
    sub $4,%esp
    mov 4(%esp),%ecx
    mov %ecx,(%esp)
    mov 8(%esp),%ecx
    mov %ecx,4(%esp)
    mov 12(%esp),%ecx
    mov %ecx,8(%esp)
)"
#endif
R"(
    mov %esp,4*15(%eax)
    mov 4*4(%eax),%ebx
    mov 4*5(%eax),%ebp
    mov 4*6(%eax),%esi
    mov 4*7(%eax),%edi
    mov 4*14(%eax),%ecx
    mov %ecx,%edx
    call *(%eax)
    /* the saved Regs pointer: relative to the expected stack pointer */
)"
#ifdef RAW_SRET
R"(
    mov 20(%esp),%ecx
    mov %esp,4*16(%ecx)
    add $20,%esp
)"
#else
R"(
    mov 24(%esp),%ecx
    mov %esp,4*16(%ecx)
    mov %eax,4*12(%ecx)
    mov %edx,4*13(%ecx)
    add $24,%esp
)"
#endif
R"(
    mov %ebx,4*8(%ecx)
    mov %ebp,4*9(%ecx)
    mov %esi,4*10(%ecx)
    mov %edi,4*11(%ecx)
    add $4,%esp
    pop %edi; pop %esi; pop %ebp; pop %ebx
    ret
.size raw_probe,.-raw_probe
)");
#endif

static inline uint32_t r_mx() { uint32_t v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v & 0xffc0u; }
static inline uint16_t r_cw() { uint16_t v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static inline void w_mx(uint32_t v) { __asm__ volatile("ldmxcsr %0" :: "m"(v)); }
static inline void w_cw(uint16_t v) { __asm__ volatile("fldcw %0" :: "m"(v)); }
#if RAW_GUARD
#if defined(__x86_64__)
static inline W r_guard() { W v; __asm__ volatile("movq %%fs:0x28,%0" : "=r"(v)); return v; }
static inline void w_guard(W v) { __asm__ volatile("movq %0,%%fs:0x28" :: "r"(v)); }
#else
static inline W r_guard() { W v; __asm__ volatile("movl %%gs:0x14,%0" : "=r"(v)); return v; }
static inline void w_guard(W v) { __asm__ volatile("movl %0,%%gs:0x14" :: "r"(v)); }
#endif
#else
static inline W r_guard() { return 0; }
static inline void w_guard(W) {}
#endif
#if RAW_TEB
#if defined(ABI_MS64)
static unsigned const tebo[] = { 0x08, 0x10, 0x1478, 0x20 };     // base, limit, deallocation stack, fiber data
static char const * const tebn[] = { "stack base", "stack limit", "deallocation stack", "fiber data" };
enum { NTEB = 4 };
#else
static unsigned const tebo[] = { 0x04, 0x08, 0xe0c, 0x10, 0x00 };
static char const * const tebn[] = { "stack base", "stack limit", "deallocation stack", "fiber data", "exception list" };
enum { NTEB = 5 };
#endif
static inline W & teb(int i) { return *reinterpret_cast<W *>(raw_teb + tebo[i]); }
#endif

enum RSt { RFree, RFresh, RSusp, RRun };
struct RCx {
    RSt st; void * f; unsigned char * lo, * hi; size_t size;
    uint32_t mx; uint16_t cw; W guard; W teb[5];
    int from; W data;                    // what the next arrival must deliver
    bool ontop; int depth;
    bool entered;
};
static RCx RC[RAW_MAXC];
static int rcur, rn; static int rbudget; static bool rdrain;
static W rtok;
static int rjumps, rontops, rmaxlive, rnested, rexits;
struct { uint32_t mx; uint16_t cw; W guard; W teb[5]; } rg;      // control settings currently in force

static void rcheck_stack(int self, void const * p, char const * what) {
    RCx & c = RC[self];
    unsigned char const * q = static_cast<unsigned char const *>(p);
    if (self && !(q >= c.lo && q < c.hi)) raw_fail("%s of context %d runs at %lx, outside its stack", W(what), W(self), W(q));
    if (!self) for (int i = 1; i < rn; ++i) if (q >= RC[i].lo - RAW_RED && q < RC[i].hi + RAW_RED) raw_fail("the main context runs on the stack of context %d", W(i));
}
static void rcheck_red(int i) {
    RCx & c = RC[i];
    unsigned char * b = raw_arena + size_t(i) * RAW_SLOT;
    for (unsigned char * p = c.hi; p < b + RAW_SLOT; ++p) if (*p != 0xA5) raw_fail("context %d: memory above the stack top was written (offset %ld)", W(i), W(p - c.hi));
    for (unsigned char * p = c.lo - RAW_RED; p < c.lo; ++p) if (*p != 0xA5) raw_fail("context %d: memory below the stack was written (offset %ld)", W(i), W(p - c.lo));
}
#if RAW_SIG
// The trap flag is set: after every instruction a signal handler runs, on an alternate stack, and overwrites what a handler on the
// stack in use could overwrite: everything below the stack pointer (System V x86-64: below the 128 bytes of the red zone).
static volatile long rsleft; static volatile unsigned rsigs;
#if defined(__x86_64__)
#define RAW_TF(op) __asm__ volatile("leaq -128(%%rsp), %%rsp\n\tpushfq\n\t" op "q %0, (%%rsp)\n\tpopfq\n\tnop\n\tleaq 128(%%rsp), %%rsp" :: "i"(op[0] == 'o' ? 0x100 : -0x101) : "cc", "memory")
#else
#define RAW_TF(op) __asm__ volatile("pushfl\n\t" op "l %0, (%%esp)\n\tpopfl\n\tnop" :: "i"(op[0] == 'o' ? 0x100 : -0x101) : "cc", "memory")
#endif
static inline __attribute__((always_inline)) void rsburst(long n) { rsleft = n; RAW_TF("or"); }
static inline __attribute__((always_inline)) void rsstop() { rsleft = 0; RAW_TF("and"); }
// true: the trap flag is to be cleared
static __attribute__((noinline)) bool rsignal(W sp, bool own_text) {
    ++rsigs;
    unsigned char * p = reinterpret_cast<unsigned char *>(sp), * lo = p - 700;
#if defined(__x86_64__) && !defined(ABI_MS64)
    own_text = false;
#endif
    if (p >= raw_arena && p < raw_arena + size_t(RAW_NSLOT + 1) * RAW_SLOT) {
        bool in = false;
        for (int i = 1; i < rn; ++i) if (p > RC[i].lo && p <= RC[i].hi) { in = true; if (lo < RC[i].lo) lo = RC[i].lo; }
        if (!in) raw_fail("a signal was delivered while the stack pointer was %lx, outside the stacks of the contexts (running: %d)", sp, W(rcur));
    }
    if (!own_text) p -= 128;
    for (volatile unsigned char * q = lo; q < p; ++q) *q = 0xC3;
    return --rsleft <= 0;
}
#endif
// control arrives in `self`
static __attribute__((noinline)) void rarrive(int self, char const * what) {
    CET_PAUSE;
    if (rcur != self) raw_fail("%s: context %d got control, expected context %d", W(what), W(self), W(rcur));
    RCx & c = RC[self];
    if (c.st != RRun) raw_fail("%s: context %d is not the running one", W(what), W(self));
    if (r_mx() != c.mx) raw_fail("%s: context %d has MXCSR control %lx, expected %lx", W(what), W(self), W(r_mx()), W(c.mx));
    if (r_cw() != c.cw) raw_fail("%s: context %d has x87 control word %lx, expected %lx", W(what), W(self), W(r_cw()), W(c.cw));
    if (RAW_GUARD && r_guard() != c.guard) raw_fail("%s: context %d has stack guard %lx, expected %lx", W(what), W(self), r_guard(), c.guard);
#if RAW_TEB
    for (int i = 0; i < NTEB; ++i) {
        if (i == 4 && !c.entered) { c.teb[4] = teb(4); continue; }       // a new context gets a fresh exception list of its own
        if (teb(i) != c.teb[i]) raw_fail("%s: context %d: %s of the thread block differs (%lx)", W(what), W(self), W(tebn[i]), teb(i));
    }
#endif
    uint32_t df; W fl;
#if defined(__x86_64__)
    __asm__ volatile("pushfq; pop %0" : "=r"(fl));
#else
    __asm__ volatile("pushfl; pop %0" : "=r"(fl));
#endif
    df = uint32_t(fl >> 10) & 1;
    if (df) raw_fail("%s: direction flag set in context %d", W(what), W(self));
    if (self) rcheck_red(self);
}
static void rset_env(RCx & c) {   // random control settings for the running context
    CET_PAUSE;
    unsigned k = raw_draw(8);
    if (k & 1) { c.mx = (raw_draw(4) << 13) | (raw_draw(4) << 15 & 0x8000) | (raw_draw(64) << 7 & 0x1f80) | (raw_draw(2) << 6); w_mx(c.mx); }
    if (k & 2) { c.cw = uint16_t(0x40 | raw_draw(64) | raw_draw(4) << 10 | (raw_draw(3) == 0 ? 0 : raw_draw(2) ? 0x200 : 0x300)); w_cw(c.cw); c.cw = r_cw(); }
    if (k & 4) {
#if RAW_GUARD
        c.guard = rmix(raw_draw(65536) + 17); w_guard(c.guard);
#endif
#if RAW_TEB
        c.teb[3] = rmix(raw_draw(65536) + 29); teb(3) = c.teb[3];
        if (raw_draw(2)) { c.teb[1] = c.teb[1] + 4096 * raw_draw(3); teb(1) = c.teb[1]; }
#endif
    }
    rg.mx = c.mx; rg.cw = c.cw;
}
static void rswitch_env(RCx & c) { if (RAW_TSX) { c.mx = rg.mx; c.cw = rg.cw; } }

static void rloop(int self, int nb);
static CC void rentry(TR t) __attribute__((noinline));
static CC TR rontop(TR t) __attribute__((noinline));

static void rdo_make(int self) {
    int id = rn++;
    RCx & c = RC[id];
    c = RCx();
    {
    CET_PAUSE;
    unsigned char * b = raw_arena + size_t(id) * RAW_SLOT;
    size_t shift = raw_draw(2) ? raw_draw(128) : 16 * raw_draw(16);
    c.hi = b + RAW_SLOT - RAW_RED - shift;
    c.size = 24 * 1024 + raw_draw(8192);
    c.lo = c.hi - c.size;
    for (unsigned char * p = c.lo - RAW_RED; p < c.lo; ++p) *p = 0xA5;
    unsigned fillk = raw_draw(3);
    if (fillk) for (size_t i = 0; i < c.size; i += 4) c.lo[i] = fillk == 1 ? 0xFF : (unsigned char)(i * 7);
    for (unsigned char * p = c.hi; p < b + RAW_SLOT; ++p) *p = 0xA5;
    W before = 0; for (unsigned char * p = c.hi; p < c.hi + 8; ++p) before += *p;
#if RAW_CET
    raw_shadow(c.hi, c.size);
#endif
    }
    RCx & me = RC[self];
#if RAW_TEB && defined(ABI_MS32)
    // a chain of exception records ending in -1; the new context takes over the last handler
    static W chain[8][2]; int len = 1 + int(raw_draw(6));
    for (int i = 0; i < len; ++i) { chain[i][0] = i + 1 < len ? W(&chain[i + 1][0]) : W(-1); chain[i][1] = rmix(W(rtok) + unsigned(i)); }
    W saved = teb(4); teb(4) = W(&chain[0][0]); W lasth = chain[len - 1][1];
#endif
#if RAW_SIG
    { unsigned k = raw_draw(3); if (k) rsburst(200); }
#endif
    void * f = RAW_MAKE(c.hi, c.size, rentry);
#if RAW_SIG
    rsstop();
#endif
#if RAW_TEB && defined(ABI_MS32)
    if (teb(4) != W(&chain[0][0])) raw_fail("make_fcontext changed the exception list");
    teb(4) = saved;
    c.teb[4] = lasth;
#endif
    rarrive(self, "make_fcontext");
    unsigned char * q = static_cast<unsigned char *>(f);
    if (!(q >= c.lo && q < c.hi)) raw_fail("make_fcontext of context %d returned an address outside the stack", W(id));
    if (c.hi - q > 2048) raw_fail("make_fcontext of context %d uses %ld bytes", W(id), W(c.hi - q));
    c.f = f; c.st = RFresh; c.mx = me.mx; c.cw = me.cw; c.guard = me.guard;
#if RAW_TEB
    c.teb[0] = W(c.hi); c.teb[1] = W(c.lo); c.teb[2] = W(c.lo); c.teb[3] = 0;
#endif
    raw_log("[%d] make %d top offset %lx size %lx\n", W(self), W(id), W(c.hi) & 63, c.size);
}
static W rdata() {
    CET_PAUSE;
    switch (raw_draw(6)) { case 0: return 0; case 1: return W(-1); case 2: return W(1) << raw_draw(sizeof(W) * 8); case 3: return W(&RC[raw_draw(RAW_MAXC)]); default: return rmix(raw_draw(65536) + 3); }
}
// what the on-top function is going to return; one pending at a time per arrival
static W rret_f, rret_d; static bool rret_ok;

static __attribute__((noinline)) void rdo_jump(int self, int to, bool ontop) {
    RCx & me = RC[self], & t = RC[to];
    W seed = raw_draw(65536);
    // live memory on this stack
    enum { NB = 12 };
    volatile W buf[NB];
    Regs r;
    {
    CET_PAUSE;
    for (int i = 0; i < NB; ++i) buf[i] = rmix(seed * 100 + unsigned(i));
    for (int i = 0; i < NREG; ++i) r.in[i] = rmix(seed * 64 + unsigned(i) + (W(self) << 20));
#if defined(ABI_MS64)
    for (int i = 0; i < 20; ++i) r.xin[i] = rmix(seed * 128 + unsigned(i) + (W(self) << 22));
    r.pad = 0;
#endif
    r.junk = rmix(seed + 5);
    }
    W data = rdata();
    r.fn = ontop ? W(&RAW_ONTOP) : W(&RAW_JUMP);
    r.a0 = W(t.f); r.a1 = data; r.a2 = W(&rontop);
    raw_log("[%d] %s %d data %lx\n", W(self), W(ontop ? "ontop-jump to" : "jump to"), W(to), data);
    t.from = self; t.data = data; t.ontop = ontop; t.st = RRun; rswitch_env(t);
    me.st = RSusp; me.f = nullptr;
    rcur = to; rret_ok = false;
    ++rjumps; if (ontop) ++rontops;
#if RAW_SIG
    { unsigned k = raw_draw(600); if (k) rsburst(20 + long(k)); }
#endif
    raw_probe(&r);
    // back
    rarrive(self, "return from a jump");
    char probe; rcheck_stack(self, &probe, "a suspended jump");
    for (int i = 0; i < NREG; ++i) if (r.out[i] != r.in[i]) raw_fail("context %d: %s was %lx before the switch and is %lx", W(self), W(regname[i]), r.in[i], r.out[i]);
#if defined(ABI_MS64)
    for (int i = 0; i < 20; ++i) if (r.xin[i] != r.xout[i]) raw_fail("context %d: xmm%d changed across the switch", W(self), W(6 + i / 2));
#endif
#if defined(__i386__)
#ifdef RAW_SRET
    if (r.spout != r.spin + 4) raw_fail("context %d: stack pointer off by %ld after the switch", W(self), r.spout - r.spin - 4);
#else
    if (r.spout != r.spin) raw_fail("context %d: stack pointer off by %ld after the switch", W(self), r.spout - r.spin);
#endif
#endif
    for (int i = 0; i < NB; ++i) if (buf[i] != rmix(seed * 100 + unsigned(i))) raw_fail("context %d: stack memory changed while suspended", W(self));
    if (rret_ok) {
        if (r.rax != rret_f || r.rdx != rret_d) raw_fail("context %d: the suspended jump returned {%lx,%lx} instead of the on-top function's result", W(self), r.rax, r.rdx);
        rret_ok = false;
    } else {
        if (me.ontop) raw_fail("context %d continued without running the on-top function", W(self));
        if (r.rdx != me.data) raw_fail("context %d received data %lx, expected %lx", W(self), r.rdx, me.data);
        RCx & fr = RC[me.from];
        fr.f = reinterpret_cast<void *>(r.rax);
        raw_log("[%d] back, from %d\n", W(self), W(me.from));
    }
}
static void rframe_check(char const * what, int self, W frame) {
    // frame == address of the saved frame pointer: the ABI fixes its alignment
#if defined(__x86_64__)
    if (frame & 15) raw_fail("%s of context %d: stack pointer at entry is not ABI aligned (frame %lx)", W(what), W(self), frame);
#else
    if ((frame + 8) & 15) raw_fail("%s of context %d: stack pointer at entry is not ABI aligned (frame %lx)", W(what), W(self), frame);
#endif
}
static __attribute__((noinline)) W rexit_plan;
static CC void rentry(TR t) {
    W frame = W(__builtin_frame_address(0));
    int self = rcur;
    rarrive(self, "entry");
    RCx & c = RC[self];
#if !defined(NO_ALIGN_CHECK)
    rframe_check("entry", self, frame);
#endif
    if (c.entered) raw_fail("function of context %d entered twice", W(self));
#if RAW_TEB && defined(ABI_MS32)
    { W * rec = reinterpret_cast<W *>(teb(4)); unsigned char * q = reinterpret_cast<unsigned char *>(rec);
      if (!(q >= c.lo && q < c.hi)) raw_fail("exception list of new context %d is outside its stack", W(self));
      if (rec[0] != W(-1)) raw_fail("exception list of new context %d is not terminated", W(self));
      W const * p = &c.teb[4]; (void)p; }
#endif
    c.entered = true;
    rcheck_stack(self, &frame, "entry");
    if (c.ontop) raw_fail("context %d entered its function instead of the on-top function", W(self));
    if (W(t.data) != c.data) raw_fail("new context %d received data %lx, expected %lx", W(self), W(t.data), c.data);
    RC[c.from].f = t.fctx;
    raw_log("  [%d] entry from %d\n", W(self), W(c.from));
#if defined(ABI_MS64)
    // the 32 byte home area above the return address belongs to this function
    { volatile W * home = reinterpret_cast<volatile W *>(frame + 16); for (int i = 0; i < 4; ++i) home[i] = rmix(rtok + unsigned(i)); }
    if (W(t.data) != c.data) raw_fail("the parameter area of context %d overlaps its argument", W(self));
#endif
    rloop(self, 1 << 20);
    if (rexit_plan) { raw_log("  [%d] returns\n", W(self)); return; }
    raw_fail("harness: context %d must not end here", W(self));
}
static CC TR rontop(TR t) {
    W frame = W(__builtin_frame_address(0));
    int self = rcur;
    TR const in = { t.fctx, t.data };
    rarrive(self, "on-top function");
    RCx & c = RC[self];
#if !defined(NO_ALIGN_CHECK)
    rframe_check("on-top function", self, frame);
#endif
    rcheck_stack(self, &frame, "on-top function");
    if (!c.ontop) raw_fail("on-top function ran on context %d without being requested (or twice)", W(self));
    c.ontop = false;
    if (W(in.data) != c.data) raw_fail("on-top function on context %d received data %lx, expected %lx", W(self), W(in.data), c.data);
    RC[c.from].f = in.fctx;
    raw_log("  [%d] on-top function from %d\n", W(self), W(c.from));
    ++c.depth;
    if (c.depth < 5 && !rdrain && raw_draw(3) == 0) { ++rnested; rloop(self, 1 + int(raw_draw(4))); }
    --c.depth;
    TR r;
    if (raw_draw(2)) { r = in; } else { r.fctx = reinterpret_cast<void *>(rdata()); r.data = reinterpret_cast<void *>(rdata()); }
    rret_f = W(r.fctx); rret_d = W(r.data); rret_ok = true;
    return r;
}
static int rlive() { int n = 0; for (int i = 0; i < rn; ++i) n += RC[i].st == RSusp || RC[i].st == RFresh; return n; }
static void rloop(int self, int nb) {
    RCx & c = RC[self];
    for (;;) {
        if (rbudget <= 0) rdrain = true;
        if (rdrain) {
            if (rexit_plan) return;
            if (self == 0) { if (nb > 1000) return; else return; }
            else if (nb < 1000) return;
            // everybody else hands control back to the main context for good
            if (RC[0].st == RSusp) { rdo_jump(self, 0, false); continue; }
            raw_fail("harness: main context not suspended");
        }
        if (nb <= 0) return;
        --rbudget; --nb;
        int lv; unsigned op;
        { CET_PAUSE; lv = rlive(); if (lv > rmaxlive) rmaxlive = lv; op = raw_draw(10); }
        if (op < 2) { if (rn < RAW_MAXC) rdo_make(self); }
        else if (op == 2) { rset_env(c); }
        else if (lv) {
            bool ontop = op >= 7;
            int k = int(raw_draw(unsigned(lv)));
            int to = -1;
            for (int i = 0; i < rn; ++i) if (RC[i].st == RSusp || RC[i].st == RFresh) { if (k-- == 0) { to = i; break; } }
            if (RC[to].st == RFresh) ontop = false;
            rdo_jump(self, to, ontop);
        } else if (rn < RAW_MAXC) rdo_make(self);
    }
}
static void raw_case(int lo, int hi, bool exits) {
    rn = 1; rcur = 0; rdrain = false; rtok = 7; rjumps = rontops = rmaxlive = rnested = 0;
    RC[0] = RCx();
    RC[0].st = RRun; RC[0].entered = true;
    uint32_t mx0 = r_mx(); uint16_t cw0 = r_cw(); W g0 = r_guard();
    RC[0].mx = rg.mx = mx0; RC[0].cw = rg.cw = cw0; RC[0].guard = g0;
#if RAW_TEB
    for (int i = 0; i < NTEB; ++i) { RC[0].teb[i] = rmix(1000 + unsigned(i)); teb(i) = RC[0].teb[i]; }
#endif
    rexit_plan = exits;
    rbudget = lo + int(raw_draw(unsigned(hi - lo + 1)));
    CET_BEGIN();
    rloop(0, 1 << 20);
    if (exits) {      // some context function has to return: start one if need be
        for (;;) {
            int to = -1;
            for (int i = 1; i < rn; ++i) if (RC[i].st == RSusp || RC[i].st == RFresh) to = i;
            if (to < 0) { rdo_make(0); continue; }
            rdo_jump(0, to, false);
        }
    }
    rarrive(0, "end");
#if RAW_CET
    raw_shadow_end();
#endif
    CET_END();
#if RAW_SIG
    rsstop();
#endif
    w_mx(mx0); w_cw(cw0); w_guard(g0);
    for (int i = 1; i < rn; ++i) rcheck_red(i);
}
