// The part of the Windows API that the library uses (BOOST_USE_WINFIB, windows/protected_fixedsize_stack.hpp,
// src/windows/stack_traits.cpp), implemented by winmock.hpp on top of POSIX.
#pragma once
#include <cstddef>
#include <cstdint>
#ifndef _WIN32_WINNT
#define _WIN32_WINNT 0x0A00
#endif
#define WINAPI
#define CALLBACK
#define VOID void
#define TRUE 1
#define FALSE 0
typedef void * PVOID; typedef void * LPVOID;
typedef int BOOL; typedef unsigned int DWORD; typedef unsigned short WORD; typedef DWORD * PDWORD; typedef unsigned long SIZE_T;
typedef VOID (WINAPI * LPFIBER_START_ROUTINE)(LPVOID);
typedef LPFIBER_START_ROUTINE PFIBER_START_ROUTINE;
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_ALREADY_FIBER 1280u
#define ERROR_ALREADY_THREAD 1281u
#define FIBER_FLAG_FLOAT_SWITCH 1u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_DECOMMIT 0x4000u
#define MEM_RELEASE 0x8000u
#define PAGE_NOACCESS 1u
#define PAGE_READONLY 2u
#define PAGE_READWRITE 4u
#define PAGE_GUARD 0x100u
typedef struct _SYSTEM_INFO { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; DWORD * dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; WORD wProcessorLevel, wProcessorRevision; } SYSTEM_INFO, * LPSYSTEM_INFO;
#ifdef __cplusplus
extern "C" {
#endif
LPVOID WINAPI ConvertThreadToFiber(LPVOID); LPVOID WINAPI ConvertThreadToFiberEx(LPVOID, DWORD); BOOL WINAPI ConvertFiberToThread(void);
LPVOID WINAPI CreateFiber(SIZE_T, LPFIBER_START_ROUTINE, LPVOID); LPVOID WINAPI CreateFiberEx(SIZE_T, SIZE_T, DWORD, LPFIBER_START_ROUTINE, LPVOID);
VOID WINAPI DeleteFiber(LPVOID); VOID WINAPI SwitchToFiber(LPVOID); BOOL WINAPI IsThreadAFiber(void); LPVOID GetCurrentFiber(void); LPVOID GetFiberData(void);
DWORD WINAPI GetLastError(void); VOID WINAPI SetLastError(DWORD);
LPVOID WINAPI VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD); BOOL WINAPI VirtualFree(LPVOID, SIZE_T, DWORD); BOOL WINAPI VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD);
VOID WINAPI GetSystemInfo(LPSYSTEM_INFO); VOID WINAPI GetNativeSystemInfo(LPSYSTEM_INFO);
#ifdef __cplusplus
}
#endif
