// Records the stack registrations of the library instead of telling a valgrind core.
#ifndef MOCKVG_H
#define MOCKVG_H
#include <map>
#include <utility>
struct MockVg {
    std::map<unsigned, std::pair<char *, char *>> live; unsigned next; long regs; char const * bad;
    static MockVg & get() { static MockVg m{ {}, 1, 0, nullptr }; return m; }
    unsigned reg(void const * a, void const * b) {
        char * x = static_cast<char *>(const_cast<void *>(a)), * y = static_cast<char *>(const_cast<void *>(b)); if (y < x) std::swap(x, y);
        for (auto & l : live) if (x < l.second.second && l.second.first < y) bad = "a stack is registered that overlaps a registered one";
        live[next] = { x, y }; ++regs; return next++;
    }
    void dereg(unsigned id) { if (!live.erase(id)) bad = "an unregistered stack id is deregistered"; }
    bool covers(char * lo, char * hi) { for (auto & l : live) if (l.second.first <= lo && l.second.second >= hi - 1) return true; return false; }
};
#define VALGRIND_STACK_REGISTER(a, b) MockVg::get().reg((a), (b))
#define VALGRIND_STACK_DEREGISTER(i) MockVg::get().dereg(i)
#endif
