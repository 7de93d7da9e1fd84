// The model of the Windows API as an object file for generated programs.
#define WIN_STANDALONE
#include "winmock.hpp"
__attribute__((destructor)) static void leaks() { if (win::live_fibers()) { printf("%d fibers were never deleted\n", win::live_fibers()); fflush(stdout); _exit(77); } }
