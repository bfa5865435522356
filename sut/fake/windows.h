// Declarations of the Win32 calls the library uses (as documented, 64-bit Windows: LONG and DWORD have 32 bits).
#ifndef FAKE_WINDOWS_H_
#define FAKE_WINDOWS_H_
#include <stdint.h>
#include <stddef.h>
#ifndef NOMINMAX
#define max(a, b) (((a) > (b)) ? (a) : (b))
#define min(a, b) (((a) < (b)) ? (a) : (b))
#endif
typedef void* HANDLE; typedef void* PVOID; typedef uint32_t DWORD; typedef int32_t LONG; typedef int BOOL; typedef unsigned char BOOLEAN; typedef LONG* LPLONG;
typedef const char* LPCSTR; typedef void VOID;
struct SECURITY_ATTRIBUTES; typedef SECURITY_ATTRIBUTES* LPSECURITY_ATTRIBUTES;
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 ((DWORD)0)
#define WAIT_ABANDONED ((DWORD)0x80)
#define WAIT_TIMEOUT ((DWORD)258)
#define WAIT_FAILED ((DWORD)0xFFFFFFFFu)
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define ERROR_NOT_OWNER 288
#define ERROR_INVALID_HANDLE 6
struct CRITICAL_SECTION { PVOID DebugInfo; LONG LockCount, RecursionCount; HANDLE OwningThread, LockSemaphore; size_t SpinCount; };
typedef CRITICAL_SECTION* LPCRITICAL_SECTION;
struct SRWLOCK { PVOID Ptr; };
typedef SRWLOCK* PSRWLOCK;
#define SRWLOCK_INIT {0}
extern "C" {
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL, LPCSTR);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCSTR);
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL, const wchar_t*);
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG, LONG, const wchar_t*);
BOOL CloseHandle(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD);
DWORD WaitForSingleObjectEx(HANDLE, DWORD, BOOL);
BOOL ReleaseMutex(HANDLE);
BOOL ReleaseSemaphore(HANDLE, LONG, LPLONG);
DWORD GetLastError();
void Sleep(DWORD);
DWORD SleepEx(DWORD, BOOL);
BOOL SwitchToThread();
DWORD GetCurrentThreadId();
uint64_t GetTickCount64();
void InitializeCriticalSection(LPCRITICAL_SECTION);
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void DeleteCriticalSection(LPCRITICAL_SECTION);
void EnterCriticalSection(LPCRITICAL_SECTION);
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION);
void InitializeSRWLock(PSRWLOCK);
void AcquireSRWLockExclusive(PSRWLOCK);
void AcquireSRWLockShared(PSRWLOCK);
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK);
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK);
void ReleaseSRWLockExclusive(PSRWLOCK);
void ReleaseSRWLockShared(PSRWLOCK);
}
#ifdef UNICODE
#define CreateMutex CreateMutexW
#define CreateSemaphore CreateSemaphoreW
#else
#define CreateMutex CreateMutexA
#define CreateSemaphore CreateSemaphoreA
#endif
#endif
