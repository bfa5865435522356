// POSIX wrappers operated through the member functions and through native_handle(), mixed call by call.
#include "adapt.h"
#include "posix_native_mutex.hpp"
#include <cerrno>
#include <time.h>
namespace {
using namespace yamc::posix;
constexpr uint32_t T = T_POSIX | T_SYS | T_NOABSTEADY | T_NATIVE;
timespec ts(long long ns) { long long s = ns / 1000000000, n = ns % 1000000000; if (n < 0) { s--; n += 1000000000; } timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }
long long sysnow() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
int r(int e) { return e == 0 ? R_OK : e == EBUSY || e == ETIMEDOUT ? R_FALSE : R_EXC; }
int rb(int e) { return e == 0 ? R_TRUE : e == EBUSY || e == ETIMEDOUT ? R_FALSE : R_EXC; }
long long deadline(const OpArg& a) {
  long long now = sysnow(), v = a.op == O_FOR || a.op == O_SFOR ? (a.ns > INT64_MAX - now ? INT64_MAX : now + a.ns) : a.ns;
  return v;
}
int nat(pthread_mutex_t* m, const OpArg& a) {
  switch (a.op) {
  case O_LOCK: return r(pthread_mutex_lock(m));
  case O_TRY: return rb(pthread_mutex_trylock(m));
  case O_UNLOCK: return r(pthread_mutex_unlock(m));
  case O_FOR: case O_UNTIL: { timespec t = ts(deadline(a)); return rb(pthread_mutex_timedlock(m, &t)); }
  }
  return R_NONE;
}
int nat(pthread_rwlock_t* m, const OpArg& a) {
  switch (a.op) {
  case O_LOCK: return r(pthread_rwlock_wrlock(m));
  case O_TRY: return rb(pthread_rwlock_trywrlock(m));
  case O_UNLOCK: case O_SUNLOCK: return r(pthread_rwlock_unlock(m));
  case O_SLOCK: return r(pthread_rwlock_rdlock(m));
  case O_STRY: return rb(pthread_rwlock_tryrdlock(m));
  case O_FOR: case O_UNTIL: { timespec t = ts(deadline(a)); return rb(pthread_rwlock_timedwrlock(m, &t)); }
  case O_SFOR: case O_SUNTIL: { timespec t = ts(deadline(a)); return rb(pthread_rwlock_timedrdlock(m, &t)); }
  }
  return R_NONE;
}
int nat(pthread_spinlock_t* m, const OpArg& a) {
  switch (a.op) {
  case O_LOCK: return r(pthread_spin_lock(m));
  case O_TRY: return rb(pthread_spin_trylock(m));
  case O_UNLOCK: return r(pthread_spin_unlock(m));
  }
  return R_NONE;
}
template <class M, uint32_t TR> struct NReg {
  Adapter a;
  static int op(void* p, const OpArg& x) {
    if (x.aux) return nat(static_cast<M*>(p)->native_handle(), x);
    return Mx<M, TR>::op(p, x);
  }
  NReg(const char* n) {
    using X = Mx<M, TR>;
    a = {n, X::rw ? K_RW : K_EXCL, TR, sizeof(M), 0, X::ctor, X::dtor, op, nullptr};
    sut_register(&a);
  }
};
NReg<native_mutex, T | T_TIMED> a0("posix::native_mutex+handle");
NReg<native_recursive_mutex, T | T_TIMED | T_REC> a1("posix::native_recursive_mutex+handle");
NReg<rwlock, T | T_TIMED | P_ANY> a2("posix::rwlock+handle");
NReg<spinlock, T> a3("posix::spinlock+handle");
}
