// C23: freestanding 32-bit agent around rawcore.h (the sandbox has no 32-bit libc).
// Shares one page block with raw32host.cpp: choices in, verdict out.
#define RAW_MAKE make_fcontext
#define RAW_JUMP jump_fcontext
#define RAW_ONTOP ontop_fcontext
#include "raw32.h"
#include "rawcore.h"

static Box32 * box;
static inline int sys3(int n, W a, W b, W c) {
    int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r;
}
static inline int sys_mmap2(W a, W len, W prot, W flags, int fd) {
    W args[6] = { a, len, prot, flags, W(fd), 0 };      // old mmap: pointer to the arguments
    int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(90), "b"(args) : "memory"); return r;
}
extern "C" {
void * memset(void * p, int c, size_t n) { char * q = static_cast<char *>(p); while (n--) *q++ = char(c); return p; }
void * memcpy(void * d, void const * s, size_t n) { char * q = static_cast<char *>(d); char const * z = static_cast<char const *>(s); while (n--) *q++ = *z++; return d; }
[[noreturn]] void raw_exit(int code) { for (;;) sys3(252, W(code), 0, 0); }
[[noreturn]] void _exit(int code) { raw_exit(code); }
}
unsigned raw_draw(unsigned n) {
    if (n <= 1) return 0;
    unsigned v = box->used < box->n ? box->ch[box->used] % n : 0;
    ++box->used;
    return v;
}
[[noreturn]] void raw_fail(char const * f, W a, W b, W c, W d) {
    w_mx(0x1f80); w_cw(0x37f);
    unsigned i = 0;
    for (; f[i] && i < sizeof box->fmt - 1; ++i) box->fmt[i] = f[i];
    box->fmt[i] = 0;
    box->a[0] = a; box->a[1] = b; box->a[2] = c; box->a[3] = d;
    box->failed = 1;
    raw_exit(99);
}
void raw_log(char const *, W, W, W, W) {}
static W strarg(char const * s) { return W(s); }
struct user_desc32 { unsigned entry, base, limit; unsigned bits; };
static unsigned char tlsblk[0x2000] __attribute__((aligned(4096)));
static void set_seg(bool fs, void * base) {
    user_desc32 u = { unsigned(-1), unsigned(W(base)), 0xfffff, 0 };
    u.bits = 1 | 1 << 4 | 1 << 6;               // 32 bit, limit in pages, usable
    if (sys3(243, W(&u), 0, 0) < 0) raw_exit(97);
    unsigned sel = u.entry * 8 + 3;
    if (fs) __asm__ volatile("mov %0,%%fs" :: "r"(sel)); else __asm__ volatile("mov %0,%%gs" :: "r"(sel));
}
#if RAW_SIG
extern "C" void raw_sigreturn();
__asm__(".text\nraw_sigreturn:\nmov $173,%eax\nint $0x80\n");
static __attribute__((noinline)) void on_trap(int, void *, unsigned * u) {       // u: ucontext; sigcontext at word 5, esp its word 7, eflags its word 16
    if (rsignal(u[5 + 7], true)) u[5 + 16] &= ~0x100u;
}
struct sigact32 { W handler; W flags; W restorer; W mask[2]; };
#endif
extern "C" [[noreturn]] void agent_main() {
    (void)strarg;
#if RAW_SIG
    sigact32 sa = { W(&on_trap), 4 | 0x0c000000, W(&raw_sigreturn), { 0, 0 } };
    static unsigned char alt[65536]; W st[3] = { W(alt), 0, sizeof alt };
    if (sys3(186, W(st), 0, 0)) raw_exit(97);
    { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(174), "b"(5), "c"(&sa), "d"(0), "S"(8) : "memory"); if (r) raw_exit(97); }
#endif
    box = reinterpret_cast<Box32 *>(sys_mmap2(0, sizeof(Box32), 3, 1, 3));
    raw_arena = reinterpret_cast<unsigned char *>(sys_mmap2(0, size_t(RAW_NSLOT + 1) * RAW_SLOT, 3, 0x22, -1));
#if RAW_GUARD
    set_seg(false, tlsblk);
#endif
#if RAW_TEB
    raw_teb = tlsblk;
    *reinterpret_cast<W *>(raw_teb + 0x18) = W(raw_teb);
    set_seg(true, tlsblk);
#endif
    box->strbase = 0;
    for (;;) {
        char c;
        if (sys3(3, 4, W(&c), 1) != 1) raw_exit(0);
        if (c == 'x') raw_case(1, 14, true); else raw_case(8, 60, false);
#if RAW_SIG
        box->sigs = rsigs; rsigs = 0;
#endif
        box->jumps = unsigned(rjumps); box->ontops = unsigned(rontops); box->maxlive = unsigned(rmaxlive); box->nested = unsigned(rnested); box->made = unsigned(rn - 1);
        if (sys3(4, 5, W(&c), 1) != 1) raw_exit(0);
    }
}
__asm__(".text\n.globl _start\n_start:\nxor %ebp,%ebp\nand $-16,%esp\nsub $12,%esp\npush $0\ncall agent_main\n");
