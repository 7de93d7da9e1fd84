// Minimal property-based-testing engine used by every harness in /verif/h.
//
// A test case is a pure function of a *choice sequence* (vector<uint32_t>): the generator draws
// every random decision through Src::draw(n).  Random search records the sequence, a failure is
// shrunk by editing the sequence (delete / zero / lower), the shrunk sequence is the replay file,
// and with PBT_LIBFUZZER + --fuzz the workers let libFuzzer mutate the sequences (coverage feedback).
//
// Cases run in forked workers: a crash, an abort or a hang of the code under test is an ordinary
// failing case.  Inside a case the oracle calls pbt::fail(), which never returns and never unwinds
// (it may be called on any stack).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

constexpr int MAXCH = 6000;
constexpr int MAXLBL = 160;
constexpr int LOGSZ = 1 << 16;

struct Shared {
    volatile uint64_t cases, nontriv, seq;      // seq: bumped at every case start (hang detection)
    volatile uint32_t failed;                   // 1 oracle, 2 harness error
    char msg[2048];
    volatile uint32_t n;
    uint32_t ch[MAXCH];
    volatile uint64_t lbl[MAXLBL];
    volatile uint64_t worksum;                  // total number of "steps" executed
    volatile uint32_t loglen;
    char log[LOGSZ];
};

inline Shared *& sh() { static Shared * p = nullptr; return p; }
inline bool & verbose() { static bool v = false; return v; }

// ---- labels -------------------------------------------------------------------------------
inline std::vector<std::string> & labels() { static std::vector<std::string> v; return v; }
inline int reg_label(char const * s) {
    auto & v = labels();
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) return int(i);
    v.push_back(s);
    if (v.size() >= MAXLBL) { fprintf(stderr, "too many labels\n"); _exit(3); }
    return int(v.size()) - 1;
}
template<class Tag> struct LabelReg { static int id; };
#define PBT_LABEL(var, text) static int const var = ::pbt::reg_label(text)
inline void hit(int l, uint64_t k = 1) { sh()->lbl[l] = sh()->lbl[l] + k; }

// ---- coverage feedback of the model (only with libFuzzer): situations reached, as extra counters
#ifdef PBT_LIBFUZZER
__attribute__((section("__libfuzzer_extra_counters"))) inline uint8_t extra_counters[1 << 15];
inline void feature(uint32_t f) { f *= 2654435761u; uint8_t & c = extra_counters[f >> 17]; if (c < 255) ++c; }
#else
inline void feature(uint32_t) {}
#endif

// ---- failure ------------------------------------------------------------------------------
inline bool & single_mode() { static bool v = false; return v; }
[[noreturn]] inline void die(int kind, char const * fmt, va_list ap) {
    if (single_mode()) fwrite(sh()->log, 1, sh()->loglen, stdout), fflush(stdout);
    if (!sh()->failed) {
        char tmp[1500];
        vsnprintf(tmp, sizeof tmp, fmt, ap);
        memcpy(sh()->msg, tmp, sizeof tmp);
        sh()->failed = kind;
    }
    _exit(kind == 1 ? 99 : 98);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(char const * fmt, ...) {
    va_list ap; va_start(ap, fmt); die(1, fmt, ap);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void harness_error(char const * fmt, ...) {
    va_list ap; va_start(ap, fmt); die(2, fmt, ap);
}
#define PBT_REQUIRE(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

__attribute__((format(printf, 1, 2))) inline void log(char const * fmt, ...) {
    if (!verbose()) return;
    char tmp[400];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= int(sizeof tmp)) n = sizeof tmp - 1;
    uint32_t at = sh()->loglen;
    if (at + n + 1 < LOGSZ) { memcpy(sh()->log + at, tmp, n + 1); sh()->loglen = at + n; }
}

// ---- choice source ------------------------------------------------------------------------
struct Src {
    uint64_t s[4];
    bool replay = false;
    uint32_t const * in = nullptr; uint32_t nin = 0;
    uint32_t pos = 0;
    static uint64_t splitmix(uint64_t & x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t a, uint64_t b, uint64_t c) {
        uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 1) * 0xc2b2ae3d27d4eb4full ^ (c + 1) * 0x165667b19e3779f9ull;
        for (auto & v : s) v = splitmix(x);
        replay = false; pos = 0;
    }
    void set_replay(uint32_t const * p, uint32_t n) { replay = true; in = p; nin = n; pos = 0; }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t const result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return result;
    }
    // uniform in [0,n); 0 is always the simplest choice
    uint32_t draw(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (replay) v = pos < nin ? in[pos] % n : 0;
        else v = pos < MAXCH ? uint32_t((next() >> 11) % n) : 0;
        if (pos < MAXCH) { sh()->ch[pos] = v; sh()->n = pos + 1; }
        ++pos;
        return v;
    }
    bool exhausted() const { return pos >= MAXCH - 64 || (replay && pos >= nin); }
    bool flip() { return draw(2) != 0; }
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }   // 0 -> false
    int range(int lo, int hi) { return lo + int(draw(uint32_t(hi - lo + 1))); }
    uint64_t u64() { uint64_t a = draw(1u << 16), b = draw(1u << 16), c = draw(1u << 16), d = draw(1u << 16);
                     return a | b << 16 | c << 32 | d << 48; }
    // weighted index
    int pick(int const * w, int n) {
        uint32_t tot = 0;
        for (int i = 0; i < n; ++i) tot += uint32_t(w[i]);
        if (!tot) return -1;
        uint32_t r = draw(tot);
        for (int i = 0; i < n; ++i) { if (r < uint32_t(w[i])) return i; r -= uint32_t(w[i]); }
        return n - 1;
    }
};
inline Src & src() { static Src s; return s; }

// ---- what a harness provides --------------------------------------------------------------
struct Harness {
    char const * name;
    // runs one case; returns true if the case was non-trivial by the rule
    bool (*run)(Src &);
    // called once in each process before the first case
    void (*init)(int argc, char ** argv);
    char const * rule;
};

inline uint64_t fnv(uint32_t const * p, uint32_t n) {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Opt {
    uint64_t seed = 1; long cases = 1000; int workers = 8; std::string replay, out, fail_out, tag;
    double max_wall = 600; double hang_cpu = 10, hang_wall = 60; int shrink_budget = 1500; double shrink_wall = 90;
    bool dump = false, fuzz = false; long single = -1; int singlew = 0;
};

struct Worker { pid_t pid = -1; Shared * s = nullptr; uint64_t lastseq = 0; double lastchange = 0; double lastcpu = 0; bool done = false; };

inline Shared * new_shared() {
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shared *>(p);
}
inline double cpu_of(pid_t pid) {
    char path[64], buf[1024];
    snprintf(path, sizeof path, "/proc/%d/stat", int(pid));
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return 0;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return 0;
    buf[n] = 0;
    char * p = strrchr(buf, ')');
    if (!p) return 0;
    unsigned long ut = 0, st = 0;
    sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return double(ut + st) / double(sysconf(_SC_CLK_TCK));
}
inline void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    static char altstack[65536];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
}

// One evaluation of a choice sequence in a fresh child.  Returns 0 pass, 1 fail, 2 harness error/inconclusive
struct EvalRes { int cls; std::string msg; std::vector<uint32_t> used; std::string log; };
struct Prefix { long lo = -1, hi = -1; int w = 0; };      // a failure that needs the generated cases lo..hi of worker w in one process
inline EvalRes eval(Harness const & h, Opt const & o, int argc, char ** argv, std::vector<uint32_t> const & ch, Shared * s, bool wantlog, Prefix const * px = nullptr) {
    memset(static_cast<void *>(s), 0, sizeof(*s));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        child_setup();
        if (!wantlog) { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); } }
        sh() = s; verbose() = wantlog;
        if (h.init) h.init(argc, argv);
        if (px) {
            for (long i = px->lo; i <= px->hi; ++i) {
                s->n = 0; s->loglen = 0; s->seq = s->seq + 1; verbose() = wantlog && i == px->hi;
                src().seed(o.seed, uint64_t(px->w), uint64_t(i));
                h.run(src());
            }
            _exit(0);
        }
        src().set_replay(ch.data(), uint32_t(ch.size()));
        h.run(src());
        _exit(0);
    }
    double t0 = now(); int st = 0; uint64_t pseq = 0; double pcpu = 0, pwall = t0; EvalRes r{0, "", {}, ""};
    bool hang = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        double el = now() - t0;
        if (el > 0.5) {
            if (px && s->seq != pseq) { pseq = s->seq; pcpu = cpu_of(pid); pwall = now(); }
            if (cpu_of(pid) - pcpu > o.hang_cpu || now() - pwall > o.hang_wall / 2) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            usleep(10000);
        } else usleep(el < 0.005 ? 50 : 300);
    }
    r.used.assign(s->ch, s->ch + std::min<uint32_t>(uint32_t(s->n), uint32_t(MAXCH)));
    r.log.assign(s->log, s->loglen);
    if (hang) { r.cls = 1; r.msg = "no progress (the case did not finish; cpu limit reached)"; return r; }
    if (s->failed == 1) { r.cls = 1; r.msg = s->msg; return r; }
    if (s->failed == 2) { r.cls = 2; r.msg = s->msg; return r; }
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGKILL) { r.cls = 2; r.msg = "killed"; return r; }
        r.cls = 1; r.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)); return r;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
        r.cls = 1; r.msg = "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st)); return r;
    }
    r.cls = 0; return r;
}

inline std::vector<uint32_t> shrink(Harness const & h, Opt const & o, int argc, char ** argv, std::vector<uint32_t> best, Shared * s, std::string & msg, int & evals) {
    double t0 = now();
    auto ok = [&](std::vector<uint32_t> const & c) -> bool {
        if (evals >= o.shrink_budget || now() - t0 > o.shrink_wall) return false;
        ++evals;
        EvalRes r = eval(h, o, argc, argv, c, s, false);
        if (r.cls != 1) return false;
        // what follows the last draw is not needed; one more choice is kept, as exhausted() must not become true earlier than it did
        std::vector<uint32_t> u(c);
        if (r.used.size() + 1 < u.size()) u.resize(r.used.size() + 1);
        best = u; msg = r.msg;
        return true;
    };
    bool hangy = msg.find("no progress") != std::string::npos;
    if (hangy) return best;
    bool progress = true;
    while (progress && evals < o.shrink_budget && now() - t0 < o.shrink_wall) {
        progress = false;
        // truncate
        for (size_t k = best.size() / 2; k >= 1; k /= 2) {
            while (best.size() > k) {
                std::vector<uint32_t> c(best.begin(), best.end() - long(k));
                if (ok(c)) progress = true; else break;
                if (evals >= o.shrink_budget) break;
            }
        }
        // delete chunks
        for (size_t k : {32, 16, 8, 6, 5, 4, 3, 2, 1}) {
            for (size_t i = 0; i + k <= best.size();) {
                std::vector<uint32_t> c(best);
                c.erase(c.begin() + long(i), c.begin() + long(i + k));
                if (ok(c)) progress = true; else i += (k > 8 ? k / 2 : 1);
                if (evals >= o.shrink_budget || now() - t0 > o.shrink_wall) break;
            }
        }
        // zero / lower
        for (size_t i = 0; i < best.size(); ++i) {
            if (!best[i]) continue;
            std::vector<uint32_t> c(best); c[i] = 0;
            if (ok(c)) { progress = true; continue; }
            if (i < best.size() && best[i] > 1) { c = best; c[i] = best[i] / 2; if (ok(c)) progress = true; }
            if (i < best.size() && best[i] > 0) { c = best; c[i] = best[i] - 1; if (ok(c)) progress = true; }
            if (evals >= o.shrink_budget || now() - t0 > o.shrink_wall) break;
        }
    }
    return best;
}

inline std::string json_escape(std::string const & s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline void worker_loop(Harness const & h, Opt const & o, int argc, char ** argv, int w, long n, std::string const & hashfile) {
    child_setup();
    if (h.init) h.init(argc, argv);
    std::unordered_set<uint64_t> seen;
    for (long i = 0; i < n; ++i) {
        sh()->n = 0; sh()->loglen = 0;
        bool vb = (i % 997) == 3 && w == 0 && i < 3000;
        verbose() = vb;
        sh()->seq = sh()->seq + 1;
        src().seed(o.seed, uint64_t(w), uint64_t(i));
        bool nt = h.run(src());
        sh()->cases = sh()->cases + 1;
        if (nt) {
            sh()->nontriv = sh()->nontriv + 1;
            seen.insert(fnv(sh()->ch, std::min<uint32_t>(uint32_t(sh()->n), uint32_t(MAXCH))));
        }
        if (vb && nt) {
            std::string f = hashfile + ".sample" + std::to_string(i);
            FILE * fp = fopen(f.c_str(), "w");
            if (fp) { fwrite(sh()->log, 1, sh()->loglen, fp); fclose(fp); }
        }
        verbose() = false;
    }
    FILE * fp = fopen(hashfile.c_str(), "wb");
    if (fp) { for (uint64_t x : seen) fwrite(&x, 8, 1, fp); fclose(fp); }
    _exit(0);
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerRunDriver(int *, char ***, int (*)(uint8_t const *, size_t));
inline Harness const *& fuzz_h() { static Harness const * p; return p; }
inline std::unordered_set<uint64_t> & fuzz_seen() { static auto * p = new std::unordered_set<uint64_t>; return *p; }
inline std::string & fuzz_hf() { static auto * p = new std::string; return *p; }
// two bytes per choice; the values really drawn are recorded in Shared, as for generated cases
inline int fuzz_one(uint8_t const * data, size_t size) {
    static uint32_t buf[MAXCH];
    uint32_t n = 0;
    for (size_t i = 0; i + 1 < size && n < MAXCH; i += 2) buf[n++] = uint32_t(data[i]) | uint32_t(data[i + 1]) << 8;
    Shared * s = sh();
    bool vb = s->cases == 2000 && fuzz_hf().back() == '0';
    s->n = 0; s->loglen = 0; s->seq = s->seq + 1; verbose() = vb;
    src().set_replay(buf, n);
    bool nt = fuzz_h()->run(src());
    s->cases = s->cases + 1;
    if (nt) { s->nontriv = s->nontriv + 1; fuzz_seen().insert(fnv(s->ch, std::min<uint32_t>(uint32_t(s->n), uint32_t(MAXCH)))); }
    if (vb) { if (FILE * fp = fopen((fuzz_hf() + ".sample3").c_str(), "w")) { fwrite(s->log, 1, s->loglen, fp); fclose(fp); } }
    verbose() = false;
    return 0;
}
inline void fuzz_loop(Harness const & h, Opt const & o, int argc, char ** argv, int w, long n, std::string const & hashfile) {
    child_setup();
    fuzz_h() = &h; fuzz_hf() = hashfile;
    // first corpus: generated cases of this seed
    std::string dir = hashfile + ".corpus";
    mkdir(dir.c_str(), 0700);
    if (h.init) h.init(argc, argv);
    for (int i = 0; i < 200; ++i) {
        sh()->n = 0; sh()->loglen = 0; sh()->seq = sh()->seq + 1;
        src().seed(o.seed, uint64_t(w), uint64_t(i));
        h.run(src());
        if (FILE * fp = fopen((dir + "/" + std::to_string(i)).c_str(), "wb")) {
            for (uint32_t k = 0; k < sh()->n && k < uint32_t(MAXCH); ++k) { uint16_t v = uint16_t(sh()->ch[k]); fwrite(&v, 2, 1, fp); }
            fclose(fp);
        }
    }
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
    std::string seed = "-seed=" + std::to_string(uint32_t(o.seed * 31 + uint64_t(w) + 1)), runs = "-runs=" + std::to_string(n);
    char const * a[] = {"fuzz", seed.c_str(), runs.c_str(), "-max_len=6000", "-len_control=0", "-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-reload=0",
        "-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", "-verbosity=0", dir.c_str(), nullptr};
    int ac = int(sizeof a / sizeof a[0]) - 1; char ** av = const_cast<char **>(a);
    atexit([] {   // libFuzzer ends with exit()
        if (FILE * fp = fopen(fuzz_hf().c_str(), "wb")) { for (uint64_t x : fuzz_seen()) fwrite(&x, 8, 1, fp); fclose(fp); }
        _exit(0);
    });
    LLVMFuzzerRunDriver(&ac, &av, fuzz_one);
    exit(0);
}
#endif

inline int main_impl(Harness const & h, int argc, char ** argv) {
    Opt o;
    std::string tmpdir = "/tmp";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = atol(val().c_str());
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--replay") o.replay = val();
        else if (a == "--out") o.out = val();
        else if (a == "--fail-out") o.fail_out = val();
        else if (a == "--tmp") tmpdir = val();
        else if (a == "--max-wall") o.max_wall = atof(val().c_str());
        else if (a == "--hang-wall") o.hang_wall = atof(val().c_str());
        else if (a == "--hang-cpu") o.hang_cpu = atof(val().c_str());
        else if (a == "--shrink-wall") o.shrink_wall = atof(val().c_str());
        else if (a == "--fuzz") o.fuzz = true;
        else if (a == "--one") o.single = atol(val().c_str());
        else if (a == "--onew") o.singlew = atoi(val().c_str());
    }
    Shared * es = new_shared();
    sh() = es;
    if (o.single >= 0) {   // debugging aid: run one generated case in this process
        sh() = es; verbose() = true; single_mode() = true;
        if (h.init) h.init(argc, argv);
        src().seed(o.seed, uint64_t(o.singlew), uint64_t(o.single));
        bool nt = h.run(src());
        fwrite(es->log, 1, es->loglen, stdout);
        printf("nontrivial=%d\n", nt);
        return 0;
    }
    if (!o.replay.empty()) {
        FILE * fp = fopen(o.replay.c_str(), "r");
        if (!fp) { perror(o.replay.c_str()); return 3; }
        std::vector<uint32_t> c; char line[1 << 16];
        while (fgets(line, sizeof line, fp)) {
            if (strncmp(line, "choices:", 8) == 0) {
                char * p = line + 8; char * e;
                for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; c.push_back(uint32_t(v)); p = e; }
            }
        }
        fclose(fp);
        Prefix px; bool havepx = false;
        if (FILE * f2 = fopen(o.replay.c_str(), "r")) {
            while (fgets(line, sizeof line, f2)) { unsigned long sd; if (sscanf(line, "prefix: %lu %d %ld %ld", &sd, &px.w, &px.lo, &px.hi) == 4) { o.seed = sd; havepx = true; } }
            fclose(f2);
        }
        EvalRes r = eval(h, o, argc, argv, c, es, true, havepx ? &px : nullptr);
        fwrite(r.log.data(), 1, r.log.size(), stdout);
        printf("RESULT %s %s\n", r.cls == 0 ? "pass" : r.cls == 1 ? "FAIL" : "inconclusive", r.msg.c_str());
        return r.cls == 0 ? 0 : r.cls == 1 ? 1 : 2;
    }
    double t0 = now();
    std::vector<Worker> ws(size_t(o.workers));
    for (int w = 0; w < o.workers; ++w) {
        ws[size_t(w)].s = new_shared();
        long n = o.cases / o.workers + (w < o.cases % o.workers ? 1 : 0);
        std::string hf = tmpdir + "/h" + std::to_string(getpid()) + "." + std::to_string(w);
        unlink(hf.c_str());
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            sh() = ws[size_t(w)].s;
#ifdef PBT_LIBFUZZER
            if (o.fuzz) fuzz_loop(h, o, argc, argv, w, n, hf);
#endif
            worker_loop(h, o, argc, argv, w, n, hf);
        }
        ws[size_t(w)].pid = pid; ws[size_t(w)].lastchange = now();
    }
    std::vector<uint32_t> failing; std::string msg; bool failed = false, cut = false; int herr = 0; std::string herrmsg; std::string raw_msg;
    int unreproduced = 0; std::string unrep; bool usepx = false; Prefix fpx;
    auto handle = [&](Worker & w, std::string const & m) {
        std::vector<uint32_t> c(w.s->ch, w.s->ch + std::min<uint32_t>(uint32_t(w.s->n), uint32_t(MAXCH)));
        if (c.size() < size_t(MAXCH)) c.push_back(0);      // the generated case was not exhausted after its last draw
        // confirm: at least 2 of 3 replays must fail
        int bad = 0; std::string mm = m;
        bool hang = m.find("no progress") != std::string::npos;
        for (int i = 0; i < 3; ++i) {
            EvalRes r = eval(h, o, argc, argv, c, es, false);
            if (r.cls == 1) { ++bad; mm = r.msg; }
            if (hang && i == 1 && bad == 2) break;
        }
        if (bad >= 2) { failed = true; failing = c; msg = mm; raw_msg = mm; }
        else {
            // the failure may need state left behind by earlier cases of the same process
            Prefix p; p.w = int(&w - ws.data()); p.lo = 0; p.hi = long(w.s->cases);
            auto bad2 = [&](Prefix const & q) { EvalRes r = eval(h, o, argc, argv, c, es, false, &q); if (r.cls == 1) mm = r.msg; return r.cls == 1; };
            if (!hang && !o.fuzz && bad2(p) && bad2(p)) {
                double t1 = now();
                for (long k = p.hi / 2; k >= 1 && now() - t1 < o.shrink_wall; k = (p.hi - p.lo) / 2) {   // shorter runs of cases
                    Prefix q = p; q.lo = p.lo + k;
                    if (q.lo > q.hi || !bad2(q)) break;
                    p = q;
                }
                failed = true; usepx = true; fpx = p; failing = c; msg = mm; raw_msg = mm;
            } else { ++unreproduced; unrep = m; }
        }
    };
    for (;;) {
        int alive = 0;
        for (auto & w : ws) {
            if (w.done) continue;
            int st;
            pid_t r = waitpid(w.pid, &st, WNOHANG);
            if (r == w.pid) {
                w.done = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !w.s->failed) continue;
                if (cut) continue;
                if (w.s->failed == 2) { ++herr; herrmsg = std::string(w.s->msg) + " (--onew " + std::to_string(&w - ws.data()) + " --one " + std::to_string(w.s->cases) + ")"; continue; }
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++herr; herrmsg = "worker killed"; continue; }
                std::string m = w.s->failed == 1 ? std::string(w.s->msg)
                    : WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                    : "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st));
                if (!failed) handle(w, m);
                continue;
            }
            ++alive;
            double t = now();
            if (w.s->seq != w.lastseq) { w.lastseq = w.s->seq; w.lastchange = t; w.lastcpu = -1; }
            else if (t - w.lastchange > 2) {
                double c = cpu_of(w.pid);
                if (w.lastcpu < 0) w.lastcpu = c;
                if (c - w.lastcpu > o.hang_cpu || t - w.lastchange > o.hang_wall) {
                    kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.done = true; --alive;
                    if (!failed && !cut) handle(w, "no progress (the case did not finish; cpu limit reached)");
                }
            }
        }
        if (failed || alive == 0) break;
        if (now() - t0 > o.max_wall && !cut) { cut = true; for (auto & w : ws) if (!w.done) kill(w.pid, SIGKILL); }
        usleep(alive ? 3000 : 0);
    }
    for (auto & w : ws) if (!w.done) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); w.done = true; }
    // collect
    uint64_t cases = 0, nontriv = 0, work = 0, corpus = 0; std::vector<uint64_t> lbl(MAXLBL, 0); std::unordered_set<uint64_t> all;
    std::vector<std::string> samples;
    for (int w = 0; w < o.workers; ++w) {
        Shared * s = ws[size_t(w)].s;
        cases += s->cases; nontriv += s->nontriv; work += s->worksum;
        for (int i = 0; i < MAXLBL; ++i) lbl[size_t(i)] += s->lbl[i];
        std::string hf = tmpdir + "/h" + std::to_string(getpid()) + "." + std::to_string(w);
        if (FILE * fp = fopen(hf.c_str(), "rb")) { uint64_t x; while (fread(&x, 8, 1, fp) == 1) all.insert(x); fclose(fp); unlink(hf.c_str()); }
        if (o.fuzz) {   // corpus of the worker: the generated files have numbers as names, the others were found by libFuzzer
            if (DIR * d = opendir((hf + ".corpus").c_str())) {
                while (dirent * e = readdir(d)) { if (e->d_name[0] == '.') continue; ++corpus; unlink((hf + ".corpus/" + e->d_name).c_str()); }
                closedir(d); rmdir((hf + ".corpus").c_str());
            }
        }
        for (long i = 3; i < 3000; i += 997) {
            std::string f = hf + ".sample" + std::to_string(i);
            if (FILE * fp = fopen(f.c_str(), "r")) {
                std::string t; char b[4096]; size_t n;
                while ((n = fread(b, 1, sizeof b, fp)) > 0) t.append(b, n);
                fclose(fp); unlink(f.c_str());
                if (t.size() > 3000) { t.resize(3000); t += "..."; }
                samples.push_back(t);
            }
        }
    }
    int evals = 0; std::string flog;
    if (failed) {
        std::string m2 = msg;
        std::vector<uint32_t> small = usepx ? failing : shrink(h, o, argc, argv, failing, es, m2, evals);
        // the shrunk input must fail 3 times, else fall back to the original
        int bad = 0; bool hang = m2.find("no progress") != std::string::npos;
        if (!hang) for (int i = 0; i < 3; ++i) bad += eval(h, o, argc, argv, small, es, false).cls == 1;
        if (hang || bad == 3) { failing = small; msg = m2; }
        if (!hang) { EvalRes r = eval(h, o, argc, argv, failing, es, true); flog = r.log; }
        if (!o.fail_out.empty()) {
            if (FILE * fp = fopen(o.fail_out.c_str(), "w")) {
                fprintf(fp, "harness: %s\nargs:", h.name);
                for (int i = 1; i < argc; ++i) {
                    std::string a = argv[i];
                    if (a == "--fail-out" || a == "--out" || a == "--tmp" || a == "--cases" || a == "--workers" || a == "--max-wall" || a == "--seed" || a == "--shrink-wall") { ++i; continue; }
                    fprintf(fp, " %s", argv[i]);
                }
                fprintf(fp, "\nmessage: %s\nfirst-message: %s\nshrink-evaluations: %d\nchoices:", msg.c_str(), raw_msg.c_str(), evals);
                for (uint32_t c : failing) fprintf(fp, " %u", c);
                if (usepx) fprintf(fp, "\nprefix: %lu %d %ld %ld   (seed, worker, first and last generated case run in one process)", (unsigned long)o.seed, fpx.w, fpx.lo, fpx.hi);
                fprintf(fp, "\nlog:\n%s\n", flog.c_str());
                fclose(fp);
            }
        }
    }
    FILE * fo = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (!fo) { perror("out"); return 3; }
    fprintf(fo, "{\"harness\":\"%s\",\"cases\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%lu,\"steps\":%lu,\"wall\":%.2f,\"cut\":%d,\"harness_errors\":%d,\"harness_error_msg\":\"%s\",\"unreproduced\":%d,\"unreproduced_msg\":\"%s\",\"failed\":%d,\"message\":\"%s\",\"first_message\":\"%s\",\"shrink_evals\":%d,\"rule\":\"%s\",\n\"labels\":{",
        h.name, (unsigned long)cases, (unsigned long)nontriv, (unsigned long)all.size(), (unsigned long)work, now() - t0, int(cut), herr, json_escape(herrmsg).c_str(),
        unreproduced, json_escape(unrep).c_str(), int(failed), json_escape(msg).c_str(), json_escape(raw_msg).c_str(), evals, json_escape(h.rule ? h.rule : "").c_str());
    bool first = true;
    for (size_t i = 0; i < labels().size(); ++i) { if (lbl[i]) { fprintf(fo, "%s\"%s\":%lu", first ? "" : ",", json_escape(labels()[i]).c_str(), (unsigned long)lbl[i]); first = false; } }
    if (o.fuzz) fprintf(fo, "%s\"libFuzzer corpus at the end\":%lu", first ? "" : ",", (unsigned long)corpus);
    fprintf(fo, "},\n\"samples\":[");
    for (size_t i = 0; i < samples.size() && i < 4; ++i) fprintf(fo, "%s\"%s\"", i ? "," : "", json_escape(samples[i]).c_str());
    fprintf(fo, "]}\n");
    if (fo != stdout) fclose(fo);
    if (failed) return 1;
    if (herr) return 4;
    return 0;
}

} // namespace pbt
