// The part of the Windows API the library uses, with the documented signatures; behaviour is given by irx/rt.py (symbolic) and vp_native.cpp (native).
#ifndef VP_WINDOWS_H
#define VP_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#define VOID void
#define WINAPI
#define CALLBACK
#define TRUE 1
#define FALSE 0
typedef void* LPVOID; typedef void* PVOID; typedef uint32_t DWORD; typedef int BOOL; typedef size_t SIZE_T; typedef DWORD* PDWORD;
typedef void (*LPFIBER_START_ROUTINE)(LPVOID);
#define ERROR_ALREADY_FIBER 1280L
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define MEM_DECOMMIT 0x4000
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_GUARD 0x100
typedef struct { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; size_t dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; } SYSTEM_INFO;
extern "C" {
LPVOID ConvertThreadToFiber(LPVOID); BOOL ConvertFiberToThread(void); BOOL IsThreadAFiber(void); LPVOID vp_GetCurrentFiber(void);
LPVOID CreateFiber(SIZE_T, LPFIBER_START_ROUTINE, LPVOID); void DeleteFiber(LPVOID); void SwitchToFiber(LPVOID); DWORD GetLastError(void);
LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD); BOOL VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD); BOOL VirtualFree(LPVOID, SIZE_T, DWORD); void GetSystemInfo(SYSTEM_INFO*);
}
static inline LPVOID GetCurrentFiber(void) { return vp_GetCurrentFiber(); }
#endif
