#pragma once
#include "sut.h"
#include <chrono>
#include <new>
#include <system_error>
#include <type_traits>
#include <ratio>

// A user-defined clock: steady with an offset.
struct UserClock {
  using rep = long long; using period = std::nano; using duration = std::chrono::nanoseconds;
  using time_point = std::chrono::time_point<UserClock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(h_steady_ns() + USER_CLK_OFF)); }
};

template <class F> inline int guarded(F f) {
  try { return f(); }
  catch (const std::system_error& e) {
    if (e.code() == std::errc::resource_deadlock_would_occur) return R_EDEADLK;
    if (e.code() == std::errc::operation_not_permitted) return R_EPERM;
    return R_EXC;
  }
  catch (const std::exception&) { return R_EXC; }
}
inline int b(bool x) { return x ? R_TRUE : R_FALSE; }

// a little less than the ns asked for: rounding down would be too early
inline std::chrono::duration<long long, std::pico> pico(int64_t ns) { return std::chrono::duration<long long, std::pico>(ns > 0 ? ns * 1000 - 999 : ns * 1000); }
// relative time as one of the supported duration types
template <class F> inline int with_for(const OpArg& a, F f) {
  using namespace std::chrono;
  switch (a.dur) {
  case D_NS: return b(f(nanoseconds(a.ns)));
  case D_MS: return b(f(milliseconds(a.ns / 1000000)));
  case D_FLT: return b(f(duration<float>((float)(a.ns / 1e9))));
  case D_PICO: return b(f(pico(a.ns)));
  default: return b(f(duration<double>(a.ns / 1e9)));
  }
}
template <class F> inline int with_until(const OpArg& a, F f) {
  using namespace std::chrono;
  if (a.dur == D_NS) switch (a.clk) {
    case C_STEADY: return b(f(steady_clock::time_point(nanoseconds(a.ns))));
    case C_SYSTEM: return b(f(system_clock::time_point(nanoseconds(a.ns))));
    default: return b(f(UserClock::time_point(nanoseconds(a.ns))));
  }
  if (a.dur == D_DBL) {
    duration<double> s(a.ns / 1e9);
    switch (a.clk) {
    case C_STEADY: return b(f(time_point<steady_clock, duration<double>>(s)));
    case C_SYSTEM: return b(f(time_point<system_clock, duration<double>>(s)));
    default: return b(f(time_point<UserClock, duration<double>>(s)));
    }
  }
  if (a.dur == D_PICO && a.clk != C_SYSTEM) {
    using half = duration<long long, std::ratio<1, 2000000000>>;
    half d(a.ns > 0 ? a.ns * 2 - 1 : a.ns * 2);
    if (a.clk == C_STEADY) return b(f(time_point<steady_clock, half>(d)));
    return b(f(time_point<UserClock, half>(d)));
  }
  milliseconds ms(a.ns / 1000000);
  switch (a.clk) {
    case C_STEADY: return b(f(time_point<steady_clock, milliseconds>(ms)));
    case C_SYSTEM: return b(f(time_point<system_clock, milliseconds>(ms)));
    default: return b(f(time_point<UserClock, milliseconds>(ms)));
  }
}
template <class F> inline int with_until_sys(const OpArg& a, F f) {
  using namespace std::chrono;
  if (a.dur == D_NS) return b(f(system_clock::time_point(nanoseconds(a.ns))));
  if (a.dur == D_DBL) return b(f(time_point<system_clock, duration<double>>(duration<double>(a.ns / 1e9))));
  return b(f(time_point<system_clock, milliseconds>(milliseconds(a.ns / 1000000))));
}

template <class M, uint32_t TR> struct Mx {
  static constexpr bool timed = TR & T_TIMED, rw = TR & (P_READER | P_WRITER | P_TASK | P_PHASE | P_ANY), sys = TR & T_NOABSTEADY;
  static void ctor(void* p, long, void*) { for (int i = 0;; i++) try { new (p) M; return; } catch (const std::bad_alloc&) {} catch (const std::system_error&) { if (i > 30) throw; } }
  static int dtor(void* p) { M* m = static_cast<M*>(p); return guarded([&] { m->~M(); return R_OK; }); }
  static int op(void* p, const OpArg& a) {
    M& m = *static_cast<M*>(p);
    return guarded([&]() -> int {
      switch (a.op) {
      case O_LOCK: m.lock(); return R_OK;
      case O_TRY: return b(m.try_lock());
      case O_UNLOCK: m.unlock(); return R_OK;
      default: break;
      }
      if constexpr (timed) {
        if constexpr (sys) {
          if (a.op == O_FOR) return with_for(a, [&](auto d) { return m.try_lock_for(d); });
          if (a.op == O_UNTIL) return with_until_sys(a, [&](auto d) { return m.try_lock_until(d); });
        } else {
          if (a.op == O_FOR) return with_for(a, [&](auto d) { return m.try_lock_for(d); });
          if (a.op == O_UNTIL) return with_until(a, [&](auto d) { return m.try_lock_until(d); });
        }
      }
      if constexpr (rw) {
        switch (a.op) {
        case O_SLOCK: m.lock_shared(); return R_OK;
        case O_STRY: return b(m.try_lock_shared());
        case O_SUNLOCK: m.unlock_shared(); return R_OK;
        default: break;
        }
        if constexpr (timed) {
          if constexpr (sys) {
            if (a.op == O_SFOR) return with_for(a, [&](auto d) { return m.try_lock_shared_for(d); });
            if (a.op == O_SUNTIL) return with_until_sys(a, [&](auto d) { return m.try_lock_shared_until(d); });
          } else {
            if (a.op == O_SFOR) return with_for(a, [&](auto d) { return m.try_lock_shared_for(d); });
            if (a.op == O_SUNTIL) return with_until(a, [&](auto d) { return m.try_lock_shared_until(d); });
          }
        }
      }
      return R_NONE;
    });
  }
};
template <class M, uint32_t TR> struct MReg {
  Adapter a;
  MReg(const char* n, void* (*nat)(void*) = nullptr) {
    using X = Mx<M, TR>;
    a = {n, X::rw ? K_RW : K_EXCL, TR, sizeof(M), 0, X::ctor, X::dtor, X::op, nat};
    sut_register(&a);
  }
};
template <class M> void* native_of(void* p) { return (void*)static_cast<M*>(p)->native_handle(); }

template <class S, bool SYSONLY = false> struct Sx {
  static void ctor(void* p, long n, void*) { new (p) S(n); }
  static int dtor(void* p) { S* m = static_cast<S*>(p); return guarded([&] { m->~S(); return R_OK; }); }
  static int op(void* p, const OpArg& a) {
    S& m = *static_cast<S*>(p);
    return guarded([&]() -> int {
      switch (a.op) {
      case O_ACQ: m.acquire(); return R_OK;
      case O_TRYACQ: return b(m.try_acquire());
      case O_REL: if (a.dur) m.release(); else m.release(a.n); return R_OK;
      case O_ACQFOR:
        return with_for(a, [&](auto d) { return m.try_acquire_for(d); });
      case O_ACQUNTIL:
        return with_until(a, [&](auto d) { return m.try_acquire_until(d); });
      default: return R_NONE;
      }
    });
  }
};
template <class S, uint32_t TR, bool SYSONLY = false> struct SReg {
  Adapter a;
  SReg(const char* n) {
    using X = Sx<S, SYSONLY>;
    a = {n, K_SEM, TR | T_TIMED, sizeof(S), (long)(S::max)(), X::ctor, X::dtor, X::op, nullptr};
    sut_register(&a);
  }
};
template <class L, uint32_t TR> struct LReg {
  Adapter a;
  static void ctor(void* p, long n, void*) { new (p) L(n); }
  static int dtor(void* p) { static_cast<L*>(p)->~L(); return R_OK; }
  static int op(void* p, const OpArg& a) {
    L& m = *static_cast<L*>(p);
    return guarded([&]() -> int {
      switch (a.op) {
      case O_CD: if (a.dur) m.count_down(); else m.count_down(a.n); return R_OK;
      case O_WAIT: static_cast<const L&>(m).wait(); return R_OK;
      case O_TRYWAIT: return b(static_cast<const L&>(m).try_wait());
      case O_AW: if (a.dur) m.arrive_and_wait(); else m.arrive_and_wait(a.n); return R_OK;
      default: return R_NONE;
      }
    });
  }
  LReg(const char* n) { a = {n, K_LATCH, TR, sizeof(L), (long)(L::max)(), ctor, dtor, op, nullptr}; sut_register(&a); }
};
struct Completion { void* ctl; void operator()() noexcept { h_completion(ctl); } };
template <class B, uint32_t TR, bool CB> struct BReg {
  Adapter a;
  using Tok = typename B::arrival_token;
  static void ctor(void* p, long n, void* ctl) {
    if constexpr (CB) new (p) B(n, Completion{ctl}); else new (p) B(n);
  }
  static int dtor(void* p) { static_cast<B*>(p)->~B(); return R_OK; }
  static int op(void* p, const OpArg& a) {
    B& m = *static_cast<B*>(p);
    return guarded([&]() -> int {
      switch (a.op) {
      case O_ARRIVE: if (a.dur) new (a.aux) Tok(m.arrive()); else new (a.aux) Tok(m.arrive(a.n)); return R_OK;
      case O_BWAIT: { Tok& t = *static_cast<Tok*>(a.aux); static_cast<const B&>(m).wait(std::move(t)); return R_OK; }
      case O_BAW: m.arrive_and_wait(); return R_OK;
      case O_BDROP: m.arrive_and_drop(); return R_OK;
      default: return R_NONE;
      }
    });
  }
  BReg(const char* n) {
    static_assert(sizeof(Tok) <= 64, "token");
    a = {n, K_BARRIER, TR | (CB ? (uint32_t)T_CALLBACK : 0u), sizeof(B), (long)(B::max)(), ctor, dtor, op, nullptr}; sut_register(&a);
  }
};
