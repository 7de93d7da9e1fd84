// C23: 64-bit host of the 32-bit agent (raw32.cpp); the agent binary is linked in as a blob.
#include "pbt.hpp"
#include "raw32.h"
#include <sys/syscall.h>
extern "C" char agent_begin[], agent_end[];
static Box32 * box; static pid_t agent = -1; static int to_a = -1, from_a = -1; static bool exits; static pid_t owner = -1;
PBT_LABEL(l_j, "jumps"); PBT_LABEL(l_o, "ontop jumps"); PBT_LABEL(l_n, "nested on-top"); PBT_LABEL(l_m, "contexts made"); PBT_LABEL(l_s, "signals delivered"); PBT_LABEL(l_x, "function returns (process exit)");
static void start() {
    if (agent > 0 && owner == getpid()) return;
    owner = getpid();
    int fd = int(syscall(SYS_memfd_create, "box", 0u));
    if (fd < 0 || ftruncate(fd, sizeof(Box32))) pbt::harness_error("memfd");
    box = static_cast<Box32 *>(mmap(nullptr, sizeof(Box32), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    int ex = int(syscall(SYS_memfd_create, "agent", 0u));
    if (ex < 0 || write(ex, agent_begin, size_t(agent_end - agent_begin)) != agent_end - agent_begin) pbt::harness_error("memfd");
    int p[2], q[2];
    if (pipe(p) || pipe(q)) pbt::harness_error("pipe");
    agent = fork();
    if (agent < 0) pbt::harness_error("fork");
    if (agent == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int a = fcntl(fd, F_DUPFD, 20), b = fcntl(p[0], F_DUPFD, 20), c = fcntl(q[1], F_DUPFD, 20), d = fcntl(ex, F_DUPFD_CLOEXEC, 20);
        dup2(a, 3); dup2(b, 4); dup2(c, 5);
        for (int i = 6; i < 64; ++i) if (i != d) close(i);
        char * av[] = { const_cast<char *>("agent"), nullptr }; char * ev[] = { nullptr };
        syscall(SYS_execveat, d, "", av, ev, 0x1000);
        _exit(96);
    }
    close(p[0]); close(q[1]); close(fd); close(ex);
    to_a = p[1]; from_a = q[0];
    signal(SIGPIPE, SIG_IGN);
}
static bool run(pbt::Src & S) {
    start();
    box->failed = 0; box->used = 0; box->jumps = 0;
    uint32_t base = S.pos;
    uint32_t const K = exits ? 200 : 1100;
    for (uint32_t i = 0; i < K; ++i) box->ch[i] = S.draw(65536);
    box->n = K;
    char c = exits ? 'x' : 'r';
    if (write(to_a, &c, 1) != 1) pbt::harness_error("agent gone");
    ssize_t n = read(from_a, &c, 1);
    if (base + box->used < pbt::sh()->n) pbt::sh()->n = base + box->used;      // only what was used is part of the case
    if (n == 1) {
        if (exits) pbt::harness_error("no function returned");
        pbt::hit(l_j, box->jumps); pbt::hit(l_o, box->ontops); pbt::hit(l_n, box->nested); pbt::hit(l_m, box->made); if (box->sigs) pbt::hit(l_s, box->sigs);
        pbt::sh()->worksum = pbt::sh()->worksum + box->jumps;
        return box->jumps >= 6 && box->maxlive >= 2 && box->ontops >= 1;
    }
    int st = 0; waitpid(agent, &st, 0); agent = -1; close(to_a); close(from_a);
    if (box->failed) {
        // string arguments are addresses inside the agent's image (linked at a fixed address)
        char f[320]; size_t j = 0; uint64_t av[4]; int k = 0;
        for (size_t i = 0; box->fmt[i] && j < sizeof f - 4; ++i) {
            f[j++] = box->fmt[i];
            if (box->fmt[i] == '%' && k < 4) {
                av[k] = box->a[k];
                if (box->fmt[i + 1] == 's') {
                    uint64_t v = box->a[k]; char const * s = "?";
                    // ELF32 program headers of the blob
                    unsigned char const * e = reinterpret_cast<unsigned char const *>(agent_begin);
                    uint32_t ph; uint16_t n2; memcpy(&ph, e + 28, 4); memcpy(&n2, e + 44, 2);
                    for (int q = 0; q < n2; ++q) { uint32_t h[8]; memcpy(h, e + ph + 32u * unsigned(q), 32); if (h[0] == 1 && v >= h[2] && v < h[2] + h[4]) s = agent_begin + h[1] + (v - h[2]); }
                    av[k] = uint64_t(s);
                } else if (box->fmt[i + 1] == 'd') { f[j++] = 'l'; av[k] = uint64_t(int64_t(int32_t(box->a[k]))); }
                ++k;
            }
        }
        f[j] = 0;
        char out[700];
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
        for (; k < 4; ++k) av[k] = 0;
        snprintf(out, sizeof out, f, av[0], av[1], av[2], av[3]);
        if (!strncmp(out, "harness:", 8)) pbt::harness_error("%s", out);
        pbt::fail("%s", out);
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96)) pbt::harness_error("agent could not start (%d)", WEXITSTATUS(st));
    if (exits && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pbt::hit(l_x); return true; }
    if (WIFEXITED(st)) pbt::fail("the process of the 32-bit contexts exited with code %d", WEXITSTATUS(st));
    pbt::fail("the process of the 32-bit contexts was killed by signal %d", WTERMSIG(st));
}
static void init(int argc, char ** argv) { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--exits")) exits = true; }
static pbt::Harness const harness = { "raw32", run, init,
    "a script of make / jump / on-top-jump / control-word changes over up to 10 contexts with random stack tops, sizes, register contents and data words; non-trivial: >=6 jumps, >=1 on-top jump, >=2 suspended contexts at once (exit jobs: a context function returned)" };
int main(int argc, char ** argv) { return pbt::main_impl(harness, argc, argv); }
