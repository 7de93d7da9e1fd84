#include "valgrind.h"
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) ((void)(p), (void)(n), 0)
