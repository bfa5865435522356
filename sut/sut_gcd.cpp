// yamc::gcd and yamc::apple over an emulation of the documented libdispatch and os_unfair_lock calls.
#include "adapt.h"
#include <limits>
#include <cstring>
#include <cstdlib>
#include <pthread.h>
#include <time.h>
#include <dispatch/dispatch.h>
#include <os/lock.h>
#define free fake_free
#include "gcd_semaphore.hpp"
#undef free
#include "apple_native_mutex.hpp"
extern "C" { int h_self(); int h_fault(); int h_broken(); void h_misuse(const char*); void h_made(const void*, const char*); void h_gone(const void*, const char*); }
enum { DS = 0x5EED2001 };
struct dispatch_semaphore_s { int magic; pthread_mutex_t m; pthread_cond_t c; long cnt; };
static long long clk(clockid_t k) { timespec t; clock_gettime(k, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static timespec ts(long long v) { timespec t; t.tv_sec = v / 1000000000; t.tv_nsec = v % 1000000000; return t; }
static bool good(dispatch_semaphore_t s) { if (!s || s->magic != DS) { h_misuse("a dispatch call gets something that is not a semaphore"); return false; } return true; }
extern "C" {
dispatch_semaphore_t dispatch_semaphore_create(long v) {
  if (v < 0 || h_broken()) return nullptr;
  auto s = new dispatch_semaphore_s; s->magic = DS; s->cnt = v; pthread_mutex_init(&s->m, nullptr); pthread_cond_init(&s->c, nullptr); h_made(s, "dispatch semaphore"); return s;
}
// > 0: absolute time on the monotonic clock in ns; top bit: minus wall time in ns; 0 now; ~0 forever (libdispatch, time.c)
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta) {
  if (when == DISPATCH_TIME_FOREVER) return when;
  if ((int64_t)when < 0) {
    int64_t w = -(int64_t)when;
    if (delta >= 0) { if (__builtin_add_overflow(w, delta, &w)) return DISPATCH_TIME_FOREVER; return (dispatch_time_t)-w; }
    w += delta; return w < 1 ? (dispatch_time_t)-1ll - 1 : (dispatch_time_t)-w;
  }
  if (!when) when = (dispatch_time_t)clk(CLOCK_MONOTONIC);
  if (delta >= 0) { if ((int64_t)(when += (uint64_t)delta) <= 0) return DISPATCH_TIME_FOREVER; return when; }
  if ((int64_t)(when += (uint64_t)delta) < 1) return 1;
  return when;
}
dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta) {
  uint64_t n = when ? (uint64_t)when->tv_sec * NSEC_PER_SEC + (uint64_t)when->tv_nsec : (uint64_t)clk(CLOCK_REALTIME);
  n += (uint64_t)delta;
  if ((int64_t)n <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;    // -1 would mean forever
  return (dispatch_time_t)-(int64_t)n;
}
long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
  if (!good(s)) return 5;
  pthread_mutex_lock(&s->m);
  long r = 0;
  while (s->cnt <= 0) {
    if (t == DISPATCH_TIME_NOW) { r = KERN_OPERATION_TIMED_OUT; break; }
    if (t == DISPATCH_TIME_FOREVER) { pthread_cond_wait(&s->c, &s->m); continue; }
    bool wall = (int64_t)t < 0; int64_t at = wall ? -(int64_t)t : (int64_t)t; clockid_t k = wall ? CLOCK_REALTIME : CLOCK_MONOTONIC;
    if (clk(k) >= at) { r = KERN_OPERATION_TIMED_OUT; break; }
    timespec x = ts(at); pthread_cond_clockwait(&s->c, &s->m, k, &x);
  }
  if (!r) s->cnt--;
  pthread_mutex_unlock(&s->m);
  return r;
}
long dispatch_semaphore_signal(dispatch_semaphore_t s) {
  if (!good(s)) return 0;
  pthread_mutex_lock(&s->m); s->cnt++; pthread_cond_signal(&s->c); pthread_mutex_unlock(&s->m); return 0;
}
void dispatch_release(dispatch_semaphore_t s) { fake_free(s); }
void fake_free(void* p) {
  auto s = (dispatch_semaphore_t)p; if (!s) return; if (!good(s)) return;
  h_gone(s, "dispatch semaphore");
  pthread_mutex_destroy(&s->m); pthread_cond_destroy(&s->c); s->magic = 0; delete s;
}
static pthread_mutex_t ufm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t ufc = PTHREAD_COND_INITIALIZER;
void os_unfair_lock_lock(os_unfair_lock_t l) {
  pthread_mutex_lock(&ufm);
  if (l->_os_unfair_lock_opaque == (uint32_t)h_self() + 1) h_misuse("os_unfair_lock_lock by the owner");
  while (l->_os_unfair_lock_opaque) pthread_cond_wait(&ufc, &ufm);
  l->_os_unfair_lock_opaque = h_self() + 1; pthread_mutex_unlock(&ufm);
}
bool os_unfair_lock_trylock(os_unfair_lock_t l) {
  pthread_mutex_lock(&ufm); bool r = !l->_os_unfair_lock_opaque; if (r) l->_os_unfair_lock_opaque = h_self() + 1;
  pthread_mutex_unlock(&ufm); return r;
}
void os_unfair_lock_unlock(os_unfair_lock_t l) {
  pthread_mutex_lock(&ufm);
  if (l->_os_unfair_lock_opaque != (uint32_t)h_self() + 1) h_misuse("os_unfair_lock_unlock by a thread that does not own it");
  else { l->_os_unfair_lock_opaque = 0; pthread_cond_broadcast(&ufc); }
  pthread_mutex_unlock(&ufm);
}
void os_unfair_lock_assert_owner(const os_unfair_lock* l) { if (l->_os_unfair_lock_opaque != (uint32_t)h_self() + 1) h_misuse("os_unfair_lock_assert_owner"); }
}
namespace {
struct UReg {
  Adapter a;
  using M = yamc::apple::unfair_lock;
  static constexpr uint32_t TR = T_APPLE | T_NATIVE;
  static int op(void* p, const OpArg& x) {
    if (x.aux) {
      auto h = static_cast<M*>(p)->native_handle();
      switch (x.op) {
      case O_LOCK: os_unfair_lock_lock(h); return R_OK;
      case O_TRY: return b(os_unfair_lock_trylock(h));
      case O_UNLOCK: os_unfair_lock_unlock(h); return R_OK;
      }
    }
    return Mx<M, TR>::op(p, x);
  }
  UReg(const char* n) { using X = Mx<M, TR>; a = {n, K_EXCL, TR, sizeof(M), 0, X::ctor, X::dtor, op, nullptr}; sut_register(&a); }
};
UReg u0("apple::unfair_lock");
SReg<yamc::gcd::counting_semaphore<>, T_GCD> s0("gcd::counting_semaphore<>");
SReg<yamc::gcd::counting_semaphore<4>, T_GCD> s1("gcd::counting_semaphore<4>");
SReg<yamc::gcd::binary_semaphore, T_GCD> s2("gcd::binary_semaphore");
}
