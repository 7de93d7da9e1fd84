// Block shared between raw32.cpp (32-bit agent) and raw32host.cpp.
#pragma once
#include <stdint.h>
struct Box32 {
    uint32_t n, used, failed, jumps, ontops, maxlive, nested, made, strbase, sigs;
    uint32_t a[4];
    char fmt[300];
    uint32_t ch[4096];
};
