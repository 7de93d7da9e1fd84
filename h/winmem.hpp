// VirtualAlloc() & co. as documented (memoryapi.h), on top of mmap. The harnesses include this before the library, then
// the Windows variant of the protected allocator and src/windows/stack_traits.cpp are the ones that are tested.
#pragma once
#include "pbt.hpp"
#include <windows.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
namespace winmem {
struct Reg { char * p; size_t n; };
static Reg regs[4096]; static int nregs; static DWORD err_;
static long infos;                        // calls of GetSystemInfo()
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
struct Lock { Lock() { pthread_mutex_lock(&mx); } ~Lock() { pthread_mutex_unlock(&mx); } };
static size_t page() { return size_t(sysconf(_SC_PAGESIZE)); }
static int prot(DWORD p, bool & ok) {
    ok = true;
    if (p & PAGE_GUARD) return PROT_NONE;                     // every access raises an exception
    switch (p) { case PAGE_NOACCESS: return PROT_NONE; case PAGE_READONLY: return PROT_READ; case PAGE_READWRITE: return PROT_READ | PROT_WRITE; }
    ok = false; return 0;
}
}
#ifndef BOOST_USE_WINFIB
extern "C" DWORD GetLastError(void) { return winmem::err_; }
extern "C" VOID SetLastError(DWORD e) { winmem::err_ = e; }
#endif
extern "C" VOID GetSystemInfo(LPSYSTEM_INFO si) { memset(si, 0, sizeof *si); si->dwPageSize = DWORD(winmem::page()); si->dwAllocationGranularity = 65536; si->dwNumberOfProcessors = 1; __atomic_add_fetch(&winmem::infos, 1, __ATOMIC_RELAXED); }
extern "C" VOID GetNativeSystemInfo(LPSYSTEM_INFO si) { GetSystemInfo(si); }
extern "C" LPVOID VirtualAlloc(LPVOID a, SIZE_T n, DWORD type, DWORD p) {
    bool ok; int pr = winmem::prot(p, ok);
    // reserving without committing leaves the memory inaccessible
    if (!ok || !n || a || !(type & (MEM_COMMIT | MEM_RESERVE)) || (type & ~(MEM_COMMIT | MEM_RESERVE | 0x100000u))) { winmem::err_ = ERROR_INVALID_PARAMETER; return nullptr; }
    if (!(type & MEM_COMMIT)) pr = PROT_NONE;
    size_t m = (n + 4095) & ~size_t(4095);
    void * v = m < n || m > (size_t(1) << 46) ? MAP_FAILED : mmap(nullptr, m, pr, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (v == MAP_FAILED) { winmem::err_ = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    winmem::Lock l;
    if (winmem::nregs == 4096) pbt::harness_error("too many regions");
    winmem::regs[winmem::nregs++] = winmem::Reg{ static_cast<char *>(v), m };
    return v;
}
extern "C" BOOL VirtualProtect(LPVOID a, SIZE_T n, DWORD p, PDWORD old) {
    bool ok; int pr = winmem::prot(p, ok);
    if (!ok || !n || !old) { winmem::err_ = ERROR_INVALID_PARAMETER; return FALSE; }
    char * lo = reinterpret_cast<char *>(uintptr_t(a) & ~uintptr_t(4095)), * hi = reinterpret_cast<char *>((uintptr_t(a) + n + 4095) & ~uintptr_t(4095));
    bool in = false; { winmem::Lock l; for (int i = 0; i < winmem::nregs; ++i) in |= lo >= winmem::regs[i].p && hi <= winmem::regs[i].p + winmem::regs[i].n; }
    if (!in) { winmem::err_ = ERROR_INVALID_PARAMETER; return FALSE; }
    if (mprotect(lo, size_t(hi - lo), pr)) { winmem::err_ = ERROR_NOT_ENOUGH_MEMORY; return FALSE; }
    *old = PAGE_READWRITE; return TRUE;
}
extern "C" BOOL VirtualFree(LPVOID a, SIZE_T n, DWORD type) {
    if (type == MEM_RELEASE && n == 0) {
        char * p = nullptr; size_t m = 0;
        { winmem::Lock l; for (int i = 0; i < winmem::nregs; ++i) if (winmem::regs[i].p == a) { p = winmem::regs[i].p; m = winmem::regs[i].n; winmem::regs[i] = winmem::regs[--winmem::nregs]; break; } }
        if (p) { munmap(p, m); return TRUE; }
    }
    winmem::err_ = ERROR_INVALID_PARAMETER; return FALSE;     // nothing is released
}
#include <boost/context/windows/protected_fixedsize_stack.hpp>
