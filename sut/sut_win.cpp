// yamc::win over an emulation of the documented Win32 calls.
#include "adapt.h"
#include <limits>
#include <algorithm>
#include <new>
#include <cstring>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <windows.h>
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#undef max
#undef min

extern "C" { int h_self(); int h_fault(); int h_broken(); long long h_tick(); void h_sleeping(long long); void h_misuse(const char*); void h_made(const void*, const char*); void h_gone(const void*, const char*); }

namespace {
long long mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
timespec ts(long long v) { timespec t; t.tv_sec = v / 1000000000; t.tv_nsec = v % 1000000000; return t; }
// the system timer: a wait of ms begun between two ticks is counted from the last tick and ends at a tick
#if defined YAMC_WIN_ACCURATE_TIMEOUT && !YAMC_WIN_ACCURATE_TIMEOUT
#define h_tick() 1ll     // nothing makes up for early ends of waits then
#endif
long long due(DWORD ms) {
  long long k = h_tick(), d = mono() / k * k + ms * 1000000ll;
  return (d + k - 1) / k * k;
}
enum { MTX = 0x5EED1001, SEM = 0x5EED1002, CS = 0x5EED1003 };
struct Obj { int magic; int self_check; pthread_mutex_t m; pthread_cond_t c; int owner; int count; long long cnt, lim; int refs; char name[24]; };
Obj* named[8];
__thread DWORD last_error;
bool made_none;
Obj* make(int magic, const char* name = nullptr) {
  made_none = false;
  if (name && *name) for (Obj* o : named) if (o && o->magic == magic && !strncmp(o->name, name, 23)) { o->refs++; last_error = 183; return o; }
  if (magic == SEM ? h_broken() : h_fault()) { last_error = 8; made_none = true; return nullptr; }
  Obj* o = new Obj; o->magic = magic; o->self_check = ~magic; o->owner = -1; o->count = 0; o->cnt = o->lim = 0;
  pthread_mutex_init(&o->m, nullptr); pthread_cond_init(&o->c, nullptr);
  o->refs = 1; o->name[0] = 0;
  if (name && *name) { strncpy(o->name, name, 23); o->name[23] = 0; for (Obj*& x : named) if (!x) { x = o; break; } }
  h_made(o, magic == SEM ? "semaphore handle" : "mutex handle");
  return o;
}
Obj* of(HANDLE h, int magic = 0) {
  if (!h || h == INVALID_HANDLE_VALUE) return nullptr;
  Obj* o = (Obj*)h; int a, b;
  memcpy(&a, (char*)h, 4); memcpy(&b, (char*)h + 4, 4);
  if ((a != MTX && a != SEM) || b != ~a || (magic && a != magic)) { h_misuse("a Win32 call gets something that is not the handle of such an object"); return nullptr; }
  return o;
}
bool avail(Obj* o) { return o->magic == SEM ? o->cnt > 0 : o->owner == -1 || o->owner == h_self(); }
void take(Obj* o) { if (o->magic == SEM) o->cnt--; else { o->owner = h_self(); o->count++; } }
}
extern "C" {
static const char* narrow(const wchar_t* w, char* b) { int i = 0; if (w) while (i < 23 && w[i]) { b[i] = (char)w[i]; i++; } b[i] = 0; return b; }
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR name) { Obj* o = make(MTX, name); if (o && own && o->refs == 1) take(o); return o; }
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL own, const wchar_t* w) { char b[24]; return CreateMutexA(nullptr, own, narrow(w, b)); }
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG init, LONG maxc, LPCSTR name) {
  if (maxc <= 0 || init < 0 || init > maxc) { last_error = 87; return nullptr; }
  Obj* o = make(SEM, name); if (o && o->refs == 1) { o->cnt = init; o->lim = maxc; } return o;
}
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG init, LONG maxc, const wchar_t* w) { char b[24]; return CreateSemaphoreA(nullptr, init, maxc, narrow(w, b)); }
BOOL CloseHandle(HANDLE h) {
  Obj* o = of(h); if (!o) return FALSE;
  if (--o->refs) return TRUE;
  for (Obj*& x : named) if (x == o) x = nullptr;
  h_gone(o, o->magic == SEM ? "semaphore handle" : "mutex handle");
  pthread_mutex_destroy(&o->m); pthread_cond_destroy(&o->c);
  o->magic = 0; delete o; return TRUE;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
  Obj* o = of(h); if (!o || h_fault()) { last_error = ERROR_INVALID_HANDLE; return WAIT_FAILED; }
  long long d = ms && ms != INFINITE ? due(ms) : 0; timespec t = ts(d);
  pthread_mutex_lock(&o->m);
  DWORD r = WAIT_OBJECT_0;
  while (!avail(o)) {
    if (!ms || (ms != INFINITE && mono() >= d)) { r = WAIT_TIMEOUT; break; }
    if (ms == INFINITE) pthread_cond_wait(&o->c, &o->m); else pthread_cond_clockwait(&o->c, &o->m, CLOCK_MONOTONIC, &t);
  }
  if (r == WAIT_OBJECT_0) take(o);
  pthread_mutex_unlock(&o->m);
  return r;
}
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return WaitForSingleObject(h, ms); }
BOOL ReleaseMutex(HANDLE h) {
  Obj* o = of(h, MTX); if (!o) return FALSE;
  pthread_mutex_lock(&o->m); BOOL r = FALSE;
  if (o->owner == h_self()) { r = TRUE; if (--o->count == 0) { o->owner = -1; pthread_cond_broadcast(&o->c); } } else last_error = ERROR_NOT_OWNER;
  pthread_mutex_unlock(&o->m); return r;
}
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
  Obj* o = of(h, SEM); if (!o || h_fault()) return FALSE;
  pthread_mutex_lock(&o->m); BOOL r = FALSE;
  if (n > 0 && o->cnt + n <= o->lim) { if (prev) *prev = (LONG)o->cnt; o->cnt += n; pthread_cond_broadcast(&o->c); r = TRUE; } else last_error = 298;
  pthread_mutex_unlock(&o->m); return r;
}
DWORD GetLastError() { return last_error; }
void Sleep(DWORD ms) { if (!ms) { sched_yield(); return; } long long d = due(ms); timespec t = ts(d); h_sleeping(d); clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, nullptr); }
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL SwitchToThread() { sched_yield(); return TRUE; }
DWORD GetCurrentThreadId() { return (DWORD)h_self() + 1; }
uint64_t GetTickCount64() { long long k = h_tick(); return (uint64_t)(mono() / k * k / 1000000); }

void InitializeCriticalSection(LPCRITICAL_SECTION c) {
  Obj* o = new Obj; memset((void*)o, 0, sizeof *o); o->magic = CS; o->self_check = ~CS; o->owner = -1; pthread_mutex_init(&o->m, nullptr); pthread_cond_init(&o->c, nullptr);
  memset((void*)c, 0, sizeof *c); c->DebugInfo = o; h_made(c, "critical section");
}
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return TRUE; }
static Obj* cs(LPCRITICAL_SECTION c) { Obj* o = (Obj*)c->DebugInfo; if (!o || o->magic != CS) { h_misuse("a critical section is used that is not initialised"); return nullptr; } return o; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { Obj* o = cs(c); if (!o) return; h_gone(c, "critical section"); if (o->owner != -1) h_misuse("DeleteCriticalSection on an owned critical section"); pthread_mutex_destroy(&o->m); pthread_cond_destroy(&o->c); o->magic = 0; delete o; c->DebugInfo = nullptr; }
void EnterCriticalSection(LPCRITICAL_SECTION c) {
  Obj* o = cs(c); if (!o) return;
  pthread_mutex_lock(&o->m); while (o->owner != -1 && o->owner != h_self()) pthread_cond_wait(&o->c, &o->m);
  o->owner = h_self(); o->count++; pthread_mutex_unlock(&o->m);
}
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) {
  Obj* o = cs(c); if (!o) return FALSE;
  pthread_mutex_lock(&o->m); BOOL r = o->owner == -1 || o->owner == h_self();
  if (r) { o->owner = h_self(); o->count++; }
  pthread_mutex_unlock(&o->m); return r ? 4 : 0;      // "nonzero"
}
void LeaveCriticalSection(LPCRITICAL_SECTION c) {
  Obj* o = cs(c); if (!o) return;
  pthread_mutex_lock(&o->m);
  if (o->owner != h_self()) h_misuse("LeaveCriticalSection by a thread that does not own it");
  else if (--o->count == 0) { o->owner = -1; pthread_cond_broadcast(&o->c); }
  pthread_mutex_unlock(&o->m);
}
// SRW locks: the state lives in the pointer: 0 free, odd: owner * 2 + 1, even: shared owners * 2
static pthread_mutex_t srw_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t srw_c = PTHREAD_COND_INITIALIZER;
static intptr_t get(PSRWLOCK s) { return (intptr_t)s->Ptr; }
static void set(PSRWLOCK s, intptr_t v) { s->Ptr = (PVOID)v; }
void InitializeSRWLock(PSRWLOCK s) { set(s, 0); }
void AcquireSRWLockExclusive(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m); while (get(s)) pthread_cond_wait(&srw_c, &srw_m);
  set(s, h_self() * 2 + 1); pthread_mutex_unlock(&srw_m);
}
void AcquireSRWLockShared(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m); while (get(s) & 1) pthread_cond_wait(&srw_c, &srw_m);
  set(s, get(s) + 2); pthread_mutex_unlock(&srw_m);
}
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m); BOOLEAN r = !get(s); if (r) set(s, h_self() * 2 + 1);
  pthread_mutex_unlock(&srw_m); return r ? 2 : 0;
}
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m); BOOLEAN r = !(get(s) & 1); if (r) set(s, get(s) + 2);
  pthread_mutex_unlock(&srw_m); return r ? 2 : 0;
}
void ReleaseSRWLockExclusive(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m);
  if (get(s) != h_self() * 2 + 1) h_misuse("ReleaseSRWLockExclusive on a lock that is not held exclusively by the thread");
  else { set(s, 0); pthread_cond_broadcast(&srw_c); }
  pthread_mutex_unlock(&srw_m);
}
void ReleaseSRWLockShared(PSRWLOCK s) {
  pthread_mutex_lock(&srw_m);
  if ((get(s) & 1) || !get(s)) h_misuse("ReleaseSRWLockShared on a lock that is not held shared");
  else { set(s, get(s) - 2); pthread_cond_broadcast(&srw_c); }
  pthread_mutex_unlock(&srw_m);
}
}

namespace {
using namespace yamc::win;
// native calls on native_handle(), mixed with member calls
int nat(native_mutex& m, const OpArg& a) {
  HANDLE h = m.native_handle();
  auto w = [&](DWORD ms, int ok) { DWORD r = WaitForSingleObject(h, ms); return r == WAIT_OBJECT_0 ? ok : r == WAIT_TIMEOUT ? R_FALSE : R_EXC; };
  switch (a.op) {
  case O_LOCK: return w(INFINITE, R_OK);
  case O_TRY: { int r = w(0, R_TRUE); return r == R_EXC ? R_FALSE : r; }
  case O_UNLOCK: return ReleaseMutex(h) ? R_OK : R_EXC;
  }
  return R_NONE;
}
int nat(critical_section& m, const OpArg& a) {
  auto h = m.native_handle();
  switch (a.op) {
  case O_LOCK: EnterCriticalSection(h); return R_OK;
  case O_TRY: return b(TryEnterCriticalSection(h));
  case O_UNLOCK: LeaveCriticalSection(h); return R_OK;
  }
  return R_NONE;
}
int nat(slim_rwlock& m, const OpArg& a) {
  auto h = m.native_handle();
  switch (a.op) {
  case O_LOCK: AcquireSRWLockExclusive(h); return R_OK;
  case O_TRY: return b(TryAcquireSRWLockExclusive(h));
  case O_UNLOCK: ReleaseSRWLockExclusive(h); return R_OK;
  case O_SLOCK: AcquireSRWLockShared(h); return R_OK;
  case O_STRY: return b(TryAcquireSRWLockShared(h));
  case O_SUNLOCK: ReleaseSRWLockShared(h); return R_OK;
  }
  return R_NONE;
}
template <class M, uint32_t TR> struct WReg {
  Adapter a;
  static int op(void* p, const OpArg& x) {
    if (x.aux) { int r = nat(*static_cast<M*>(p), x); if (r != R_NONE) return r; }
    return Mx<M, TR>::op(p, x);
  }
  static void ctor(void* p, long, void*) {
    for (int i = 0; ; i++) {
      made_none = false;
      try { new (p) M; if (made_none) h_misuse("construction succeeds although the system refused to make the object"); return; }
      catch (const std::system_error&) { if (!made_none) h_misuse("construction fails"); if (i > 20) throw; }
    }
  }
  WReg(const char* n) {
    using X = Mx<M, TR>;
    a = {n, X::rw ? K_RW : K_EXCL, TR, sizeof(M), 0, ctor, X::dtor, op, nullptr};
    sut_register(&a);
  }
};
constexpr uint32_t T = T_WIN | T_NATIVE;
WReg<native_mutex, T | T_TIMED | T_REC> w0("win::native_mutex");
WReg<critical_section, T | T_REC> w1("win::critical_section");
WReg<slim_rwlock, T | P_ANY> w2("win::slim_rwlock");
WReg<recursive_timed_mutex, T | T_TIMED | T_REC> w3("win::recursive_timed_mutex");
WReg<recursive_mutex, T | T_REC> w4("win::recursive_mutex");
SReg<counting_semaphore<>, T_WIN> s0("win::counting_semaphore<>");
SReg<counting_semaphore<4>, T_WIN> s1("win::counting_semaphore<4>");
SReg<binary_semaphore, T_WIN> s2("win::binary_semaphore");
WReg<shared_mutex, T | P_ANY> w5("win::shared_mutex");
WReg<mutex, T | T_REC> w6("win::mutex");
WReg<timed_mutex, T | T_TIMED | T_REC> w7("win::timed_mutex");
}
