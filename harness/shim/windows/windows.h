/* The part of the Windows API which the library uses, and its neighbourhood. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
typedef uint16_t WCHAR;
#else
#include <stdbool.h>
typedef wchar_t WCHAR; /* compiled with two-byte wchar_t */
#endif
#define CALLBACK
#define WINAPI
#define APIENTRY
#define __int64 long long
typedef int BOOL;
typedef uint8_t BYTE;
typedef uint16_t WORD;
typedef uint32_t DWORD;
typedef uint64_t ULONGLONG;
typedef uint64_t DWORD64;
typedef uint32_t UINT;
typedef int32_t LONG;
typedef uint32_t ULONG; /* 32 bits on Windows */
typedef int32_t LSTATUS;
typedef size_t SIZE_T;
typedef void *PVOID, *LPVOID, *HANDLE, *HMODULE, *HKEY;
typedef const void* LPCVOID;
typedef DWORD *LPDWORD, *PDWORD;
typedef BOOL *LPBOOL;
typedef const WCHAR *LPCWSTR, *LPCWCH;
typedef WCHAR* LPWSTR;
typedef const char *LPCSTR, *LPCCH;
typedef char* LPSTR;
typedef uintptr_t KAFFINITY, ULONG_PTR, DWORD_PTR;
typedef long long (*FARPROC)(void);
#define TRUE 1
#define FALSE 0
#ifndef __cplusplus
#ifndef max
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#ifndef min
#define min(a, b) (((a) < (b)) ? (a) : (b))
#endif
#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
static inline unsigned char _BitScanForward64(unsigned long* index, unsigned __int64 mask) {
	if (mask == 0) return 0;
	*index = (unsigned long)__builtin_ctzll(mask);
	return 1;
}
static inline unsigned char _BitScanForward(unsigned long* index, unsigned long mask) {
	if ((uint32_t)mask == 0) return 0;
	*index = (unsigned long)__builtin_ctz((uint32_t)mask);
	return 1;
}
#define MemoryBarrier() __sync_synchronize()
#define _alloca __builtin_alloca
#endif

typedef union _INIT_ONCE {
	PVOID Ptr;
} INIT_ONCE, *PINIT_ONCE, *LPINIT_ONCE;
#define INIT_ONCE_STATIC_INIT {0}
typedef BOOL (*PINIT_ONCE_FN)(PINIT_ONCE, PVOID, PVOID*);
BOOL InitOnceExecuteOnce(PINIT_ONCE, PINIT_ONCE_FN, PVOID, LPVOID*);

#define HEAP_ZERO_MEMORY 8
HANDLE GetProcessHeap(void);
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T);
BOOL HeapFree(HANDLE, DWORD, LPVOID);

#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
HANDLE GetStdHandle(DWORD);
BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, void*);

#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_MORE_DATA 234
#define ERROR_GEN_FAILURE 31
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_UNSUPPORTED_TYPE 1630
DWORD GetLastError(void);

HMODULE GetModuleHandleW(LPCWSTR);
FARPROC GetProcAddress(HMODULE, LPCSTR);

WORD GetMaximumProcessorGroupCount(void);
WORD GetActiveProcessorGroupCount(void);
DWORD GetMaximumProcessorCount(WORD);
DWORD GetActiveProcessorCount(WORD);
#define ALL_PROCESSOR_GROUPS 0xffff

typedef enum _LOGICAL_PROCESSOR_RELATIONSHIP {
	RelationProcessorCore,
	RelationNumaNode,
	RelationCache,
	RelationProcessorPackage,
	RelationGroup,
	RelationProcessorDie,
	RelationNumaNodeEx,
	RelationProcessorModule,
	RelationAll = 0xffff
} LOGICAL_PROCESSOR_RELATIONSHIP;
typedef struct _GROUP_AFFINITY {
	KAFFINITY Mask;
	WORD Group;
	WORD Reserved[3];
} GROUP_AFFINITY, *PGROUP_AFFINITY;
typedef struct _PROCESSOR_RELATIONSHIP {
	BYTE Flags;
	BYTE EfficiencyClass;
	BYTE Reserved[20];
	WORD GroupCount;
	GROUP_AFFINITY GroupMask[1];
} PROCESSOR_RELATIONSHIP;
typedef enum _PROCESSOR_CACHE_TYPE { CacheUnified, CacheInstruction, CacheData, CacheTrace, CacheUnknown } PROCESSOR_CACHE_TYPE;
typedef struct _CACHE_RELATIONSHIP {
	BYTE Level;
	BYTE Associativity;
	WORD LineSize;
	DWORD CacheSize;
	PROCESSOR_CACHE_TYPE Type;
	BYTE Reserved[18];
	WORD GroupCount;
	union {
		GROUP_AFFINITY GroupMask;
		GROUP_AFFINITY GroupMasks[1];
	};
} CACHE_RELATIONSHIP;
typedef struct _SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX {
	LOGICAL_PROCESSOR_RELATIONSHIP Relationship;
	DWORD Size;
	union {
		PROCESSOR_RELATIONSHIP Processor;
		CACHE_RELATIONSHIP Cache;
	};
} SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, PDWORD);

typedef struct _SYSTEM_INFO {
	WORD wProcessorArchitecture;
	WORD wReserved;
	DWORD dwPageSize;
	LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress;
	DWORD_PTR dwActiveProcessorMask;
	DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity;
	WORD wProcessorLevel, wProcessorRevision;
} SYSTEM_INFO, *LPSYSTEM_INFO;
void GetSystemInfo(LPSYSTEM_INFO);
void GetNativeSystemInfo(LPSYSTEM_INFO);

#define CACHE_FULLY_ASSOCIATIVE 0xFF
#define PF_ARM_V8_INSTRUCTIONS_AVAILABLE 29
#define PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE 30
#define PF_ARM_V8_CRC32_INSTRUCTIONS_AVAILABLE 31
#define PF_ARM_V81_ATOMIC_INSTRUCTIONS_AVAILABLE 34
#define PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE 43
#define PF_ARM_V83_JSCVT_INSTRUCTIONS_AVAILABLE 44
BOOL IsProcessorFeaturePresent(DWORD);

#define HKEY_LOCAL_MACHINE ((HKEY)(uintptr_t)0x80000002)
#define RRF_RT_REG_SZ 0x00000002
#define RRF_RT_REG_DWORD 0x00000010
#define RRF_RT_REG_QWORD 0x00000040
#define REG_SZ 1
#define REG_DWORD 4
#define REG_QWORD 11
LSTATUS RegGetValueW(HKEY, LPCWSTR, LPCWSTR, DWORD, LPDWORD, PVOID, LPDWORD);

#define CP_UTF8 65001
#define WC_ERR_INVALID_CHARS 0x80
int WideCharToMultiByte(UINT, DWORD, LPCWCH, int, LPSTR, int, LPCCH, LPBOOL);
#ifdef __cplusplus
}
#endif
