// C23: a program over a few mutex types chosen by the generator (c23_inc.inc: headers in some order, c23_types.inc: types).
#include "c23_inc.inc"
#include "pbt.h"
#include <mutex>
#include <thread>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <condition_variable>
#include <type_traits>
#include <utility>
#if __cplusplus >= 201402L
#include <shared_mutex>
#endif
#if __cplusplus >= 202002L
#include <filesystem>
#endif
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"
using namespace std::chrono;
enum { REC = 1, TIMED = 2, RW = 4, SYS = 8 };

// ---- counterpart for shared mutexes before C++14
struct RefShared {
  std::mutex g; std::condition_variable cv; bool w = false; int r = 0;
  void lock() { std::unique_lock<std::mutex> l(g); cv.wait(l, [this] { return !w && !r; }); w = true; }
  bool try_lock() { std::lock_guard<std::mutex> l(g); if (w || r) return false; w = true; return true; }
  void unlock() { std::lock_guard<std::mutex> l(g); w = false; cv.notify_all(); }
  void lock_shared() { std::unique_lock<std::mutex> l(g); cv.wait(l, [this] { return !w; }); r++; }
  bool try_lock_shared() { std::lock_guard<std::mutex> l(g); if (w) return false; r++; return true; }
  void unlock_shared() { std::lock_guard<std::mutex> l(g); r--; cv.notify_all(); }
  template <class D> bool try_lock_for(const D& d) { return try_lock_until(steady_clock::now() + d); }
  template <class C, class D> bool try_lock_until(const time_point<C, D>& t) { for (;;) { if (try_lock()) return true; if (C::now() >= t) return false; std::this_thread::sleep_for(microseconds(50)); } }
  template <class D> bool try_lock_shared_for(const D& d) { return try_lock_shared_until(steady_clock::now() + d); }
  template <class C, class D> bool try_lock_shared_until(const time_point<C, D>& t) { for (;;) { if (try_lock_shared()) return true; if (C::now() >= t) return false; std::this_thread::sleep_for(microseconds(50)); } }
};
#if __cplusplus >= 201402L
using StdSharedTimed = std::shared_timed_mutex;
#else
using StdSharedTimed = RefShared;
#endif
#if __cplusplus >= 201703L
using StdShared = std::shared_mutex;
#else
using StdShared = StdSharedTimed;
#endif
#if __cplusplus >= 201402L
template <class M> using StdSL = std::shared_lock<M>;
#else
template <class M> using StdSL = yamc::shared_lock<M>;
#endif

// ---- clocks of a program
struct ClockD {      // floating-point seconds
  using rep = double; using period = std::ratio<1>; using duration = std::chrono::duration<double>; using time_point = std::chrono::time_point<ClockD>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration_cast<duration>(steady_clock::now().time_since_epoch()) + duration(1e6)); }
};
struct ClockC {      // coarse: milliseconds in 64 bits, its epoch in the future
  using rep = milliseconds::rep; using period = std::milli; using duration = milliseconds; using time_point = std::chrono::time_point<ClockC>;
  static constexpr bool is_steady = false;
  static time_point now() { return time_point(duration_cast<duration>(steady_clock::now().time_since_epoch()) - hours(1000000)); }
};
// v: 0 zero, 1 negative, 2 short (about a millisecond), 3 long
const int NDUR = 14;
static const char* durname[] = {"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours", "duration<double>", "duration<float,milli>", "duration<int,ratio<1,3>>", "duration<short,milli>", "duration<long long,pico>", "duration<double,hours>", "duration<unsigned,milli>", "duration<long double,ratio<86400>>"};
template <class F> int with_dur(int k, int v, F f) {
#define S(...) { using D_ = __VA_ARGS__;
#define E(a, b, c, d) return f(v == 0 ? D_(a) : v == 1 ? D_(b) : v == 2 ? D_(c) : D_(d)); }
  switch (k) {
  case 0: S(nanoseconds) E(0, -5, 900000, 3600000000000ll)
  case 1: S(microseconds) E(0, -7, 900, 3600000000ll)
  case 2: S(milliseconds) E(0, -1, 1, 3600000)
  case 3: S(seconds) E(0, -1, 0, 3600)
  case 4: S(minutes) E(0, -1, 0, 600)
  case 5: S(hours) E(0, -1, 0, 48)
  case 6: S(duration<double>) E(0., -.5, .0009, 1e6)
  case 7: S(duration<float, std::milli>) E(0.f, -1.f, .9f, 1e6f)
  case 8: S(duration<int, std::ratio<1, 3>>) E(0, -1, 0, 30000)
  case 9: S(duration<short, std::milli>) E(0, -1, 1, 30000)
  case 10: S(duration<long long, std::pico>) E(0, -1, 900000000ll, 1000000000000000ll)
  case 11: S(duration<double, std::ratio<3600>>) E(0., -1., .0009 / 3600, 10.)
  case 12: S(duration<unsigned, std::milli>) E(0u, 0u, 1u, 2000000u)
  default: S(duration<long double, std::ratio<86400>>) E(0.l, -1.l, .0009l / 86400, 3.l)
  }
#undef S
#undef E
}
const int NCLK = 6;
static const char* clkname[] = {"steady_clock", "system_clock", "high_resolution_clock", "a floating-point clock", "a millisecond clock", "file_clock"};
// absolute times: a sum in picoseconds overflows, one in float has a resolution of minutes
template <class D> D fit(D d) { return d; }
inline nanoseconds fit(duration<long long, std::pico> d) { return duration_cast<nanoseconds>(d); }
inline duration<double, std::milli> fit(duration<float, std::milli> d) { return d; }
template <class F, bool SYSONLY> struct At {
  F f; int c;
  template <class D> int operator()(D d) {
    switch (c) {
    case 0: return f(steady_clock::now() + fit(d));
    case 2: return f(high_resolution_clock::now() + fit(d));
    case 3: return f(ClockD::now() + fit(d));
    case 4: return f(ClockC::now() + fit(d));
#if __cplusplus >= 202002L
    case 5: return f(file_clock::now() + fit(d));
#endif
    default: return f(system_clock::now() + fit(d));
    }
  }
};
template <class F> struct At<F, true> { F f; int c; template <class D> int operator()(D d) { return c == 2 ? f(time_point_cast<microseconds>(system_clock::now()) + fit(d)) : f(system_clock::now() + fit(d)); } };

// ---- one actor's operation on M (the library's type or its std counterpart)
struct Op { int k, o, o2, d, v, c, var; };
enum { O_LOCK, O_TRY, O_FOR, O_UNTIL, O_UNLOCK, O_UL, O_GUARD, O_STDLOCK, O_STDTRY, O_SCOPED, O_YSCOPED, O_SLOCK, O_STRY, O_SFOR, O_SUNTIL, O_SUNLOCK, O_SL, O_CV, O_CVN, O_BLOCK, O_NOPS };
static const char* opn[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "unlock", "unique_lock", "lock_guard", "std::lock", "std::try_lock", "std::scoped_lock", "yamc::scoped_lock", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "unlock_shared", "shared_lock", "condition_variable_any wait_for", "condition_variable_any wait", "blocking acquisition"};
template <class M> struct FFor { M& m; template <class D> int operator()(D d) { return m.try_lock_for(d); } };
template <class M> struct FUntil { M& m; template <class T> int operator()(T t) { return m.try_lock_until(t); } };
template <class M> struct FSFor { M& m; template <class D> int operator()(D d) { return m.try_lock_shared_for(d); } };
template <class M> struct FSUntil { M& m; template <class T> int operator()(T t) { return m.try_lock_shared_until(t); } };
template <class L, class M> int settle(L& l, M& m, bool keep) { int r = l.owns_lock() + 2 * (l.mutex() == &m) + 4 * !!l; if (keep) l.release(); return r; }
template <class L, class M> struct LFor { M& m; bool keep, ctor; template <class D> int operator()(D d) { if (ctor) { L l(m, d); return settle(l, m, keep); } L l(m, std::defer_lock); int r = l.try_lock_for(d); return 8 * r + settle(l, m, keep); } };
template <class L, class M> struct LUntil { M& m; bool keep, ctor; template <class T> int operator()(T t) { if (ctor) { L l(m, t); return settle(l, m, keep); } L l(m, std::defer_lock); int r = l.try_lock_until(t); return 8 * r + settle(l, m, keep); } };
template <class M, class Mutex2> struct CvFor { std::condition_variable_any& cv; M& l; template <class D> int operator()(D d) { return cv.wait_for(l, d, [] { return false; }); } };

struct Helper {          // actor B
  std::mutex g; std::condition_variable cv; std::function<void()> job; bool has = false, done = false, quit = false; std::thread th;
  std::string err;
  Helper() : th([this] { loop(); }) {}
  ~Helper() { { std::lock_guard<std::mutex> l(g); quit = true; cv.notify_all(); } th.join(); }
  void loop() { for (;;) { std::unique_lock<std::mutex> l(g); cv.wait(l, [this] { return has || quit; }); if (!has) return; has = false; auto j = job; l.unlock(); try { j(); } catch (std::exception& e) { err = e.what(); } l.lock(); done = true; cv.notify_all(); } }
  void start(std::function<void()> f) { std::lock_guard<std::mutex> l(g); job = f; has = true; done = false; cv.notify_all(); }
  void finish() { std::unique_lock<std::mutex> l(g); cv.wait(l, [this] { return done; }); if (!err.empty()) { std::string e = err; err.clear(); pbt::fail("throws %s", e.c_str()); } }
  void run(std::function<void()> f) { start(f); finish(); }
};

template <class M, int F, bool> struct TimedOps { static int run(M*, const Op&) { return -1; } };
template <class M, int F> struct TimedOps<M, F, true> {
  static int run(M* m, const Op& p) {
    M& x = m[p.o];
    switch (p.k) {
    case O_FOR: return with_dur(p.d, p.v, FFor<M>{x});
    case O_UNTIL: return with_dur(p.d, p.v, At<FUntil<M>, (F & SYS) != 0>{FUntil<M>{x}, p.c});
    case O_UL: {
      bool keep = p.var & 1, ctor = p.var & 2;
      using L = std::unique_lock<M>;
      if (p.var & 4) return with_dur(p.d, p.v, LFor<L, M>{x, keep, ctor});
      return with_dur(p.d, p.v, At<LUntil<L, M>, (F & SYS) != 0>{LUntil<L, M>{x, keep, ctor}, p.c});
    }
    }
    return -1;
  }
};
template <class M, class SL, int F, bool> struct STimedOps { static int run(M*, const Op&) { return -1; } };
template <class M, class SL, int F> struct STimedOps<M, SL, F, true> {
  static int run(M* m, const Op& p) {
    M& x = m[p.o];
    switch (p.k) {
    case O_SFOR: return with_dur(p.d, p.v, FSFor<M>{x});
    case O_SUNTIL: return with_dur(p.d, p.v, At<FSUntil<M>, (F & SYS) != 0>{FSUntil<M>{x}, p.c});
    case O_SL: {
      bool keep = p.var & 1, ctor = p.var & 2;
      if (p.var & 4) return with_dur(p.d, p.v, LFor<SL, M>{x, keep, ctor});
      return with_dur(p.d, p.v, At<LUntil<SL, M>, (F & SYS) != 0>{LUntil<SL, M>{x, keep, ctor}, p.c});
    }
    }
    return -1;
  }
};
template <class M, class SL, int F, bool> struct SharedOps { static int run(M*, const Op&) { return -1; } };
template <class M, class SL, int F> struct SharedOps<M, SL, F, true> {
  static int run(M* m, const Op& p) {
    M& x = m[p.o];
    switch (p.k) {
    case O_SLOCK: x.lock_shared(); return 0;
    case O_STRY: return x.try_lock_shared();
    case O_SUNLOCK: x.unlock_shared(); return 0;
    case O_SL: {
      bool keep = p.var & 1;
      switch (p.var >> 1 & 3) {
      case 0: { SL l(x, std::try_to_lock); return settle(l, x, keep); }
      case 1: { SL l(x, std::defer_lock); int r = l.try_lock(); return 8 * r + settle(l, x, keep); }
      default: if (p.var & 32) { SL a(x, std::try_to_lock); SL b(std::move(a)); SL c; c = std::move(b); std::swap(a, c); return settle(a, x, keep); }
        { SL l(x, std::try_to_lock); if (l) { l.unlock(); if (!l.try_lock()) return 99; } return settle(l, x, keep); }
      }
    }
    }
    return STimedOps<M, SL, F, (F & TIMED) != 0>::run(m, p);
  }
};
template <class M, class SL, int F> int exec(M* m, const Op& p, Helper& b) {
  M &x = m[p.o], &y = m[p.o2];
  switch (p.k) {
  case O_LOCK: x.lock(); return 0;
  case O_TRY: return x.try_lock();
  case O_UNLOCK: x.unlock(); return 0;
  case O_UL: {
    bool keep = p.var & 1;
    if ((F & TIMED) && (p.var & 16)) return TimedOps<M, F, (F & TIMED) != 0>::run(m, p);
    switch (p.var >> 1 & 3) {
    case 0: { std::unique_lock<M> l(x, std::try_to_lock); return settle(l, x, keep); }
    case 1: { std::unique_lock<M> l(x, std::defer_lock); int r = l.try_lock(); return 8 * r + settle(l, x, keep); }
    default: { std::unique_lock<M> a(x, std::try_to_lock), e; e = std::move(a); std::unique_lock<M> c(std::move(e)); c.swap(a); if (a) { a.unlock(); a.lock(); } return settle(a, x, keep); }
    }
  }
  case O_GUARD: { std::lock_guard<M> l(x); return 0; }
  case O_STDLOCK: { std::mutex z; switch (p.var % 3) { case 0: std::lock(x, y); break; case 1: std::lock(y, z, x); z.unlock(); break; default: { std::unique_lock<M> a(x, std::defer_lock), c(y, std::defer_lock); std::lock(a, c); int r = a.owns_lock() + 2 * c.owns_lock(); return r; } } x.unlock(); y.unlock(); return 0; }
  case O_STDTRY: { std::mutex z; int r = p.var & 1 ? std::try_lock(x, y) : std::try_lock(z, y, x); if (r == -1) { x.unlock(); y.unlock(); } if (!(p.var & 1) && r == -1) z.unlock(); return r; }
  case O_SCOPED: {
#if __cplusplus >= 201703L
    if (p.var & 1) { std::scoped_lock<M, M> l(x, y); return 0; }
    std::scoped_lock l(y);
#endif
    return 0; }
  case O_YSCOPED: { if (p.var & 1) { yamc::scoped_lock<M, M> l(x, y); return 0; } yamc::scoped_lock<M> l(y); return 0; }
  case O_FOR: case O_UNTIL: return TimedOps<M, F, (F & TIMED) != 0>::run(m, p);
  case O_SLOCK: case O_STRY: case O_SUNLOCK: return SharedOps<M, SL, F, (F & RW) != 0>::run(m, p);
  case O_SFOR: case O_SUNTIL: return STimedOps<M, SL, F, (F & RW) && (F & TIMED)>::run(m, p);
  case O_SL: if ((F & TIMED) && (p.var & 16)) return STimedOps<M, SL, F, (F & RW) && (F & TIMED)>::run(m, p); return SharedOps<M, SL, F, (F & RW) != 0>::run(m, p);
  case O_CV: { std::condition_variable_any cv; std::unique_lock<M> l(x, std::adopt_lock); int r = with_dur(p.d % 8, p.v % 3, CvFor<std::unique_lock<M>, M>{cv, l}); r += 2 * l.owns_lock(); l.release(); return r; }
  case O_CVN: { std::condition_variable_any cv; bool flag = false; std::unique_lock<M> l(x, std::adopt_lock);
    std::function<void()> f = [&] { std::lock_guard<M> g(x); flag = true; cv.notify_all(); };
    b.start(f);
    if (p.var & 1) cv.wait(l, [&] { return flag; }); else while (!flag) cv.wait(l);
    int r = flag + 2 * l.owns_lock(); l.release();
    // let the other thread get past its unlock
    x.unlock(); b.finish(); x.lock();
    return r; }
  }
  return -1;
}
// the caller holds m[o] exclusively once; B acquires in a blocking form meanwhile; then the caller releases
template <class M, class SL, int F> int blocking(M* m, const Op& p, Helper& b) {
  M& x = m[p.o]; std::atomic<int> st{0}; int r = -1;
  b.start([&] {
    st = 1;
    Op q = p; q.v = 3;
    switch (p.var % 4) {
    case 0: q.k = O_LOCK; break;
    case 1: q.k = F & TIMED ? O_FOR : O_LOCK; break;
    case 2: q.k = F & TIMED ? O_UNTIL : O_LOCK; break;
    default: q.k = !(F & RW) ? O_LOCK : !(F & TIMED) || (p.var & 8) ? O_SLOCK : p.var & 4 ? O_SFOR : O_SUNTIL; break;
    }
    r = exec<M, SL, F>(m, q, b);
    st = 2;
    if (q.k == O_FOR || q.k == O_UNTIL || q.k == O_LOCK) { if (r >= 0 && (q.k == O_LOCK || r)) x.unlock(); }
    else if (q.k == O_SLOCK || r > 0) SharedOps<M, SL, F, (F & RW) != 0>::run(m, Op{O_SUNLOCK, p.o, 0, 0, 0, 0, 0});
  });
  while (st == 0) std::this_thread::yield();
  if (p.v) std::this_thread::sleep_for(microseconds(200 * p.v));
  int early = st == 2;
  x.unlock();
  b.finish();
  return r + 16 * early;
}
template <class M, int F> struct Traits {
  static void check() {
    static_assert(std::is_default_constructible<M>::value, "default constructible");
    static_assert(!std::is_copy_constructible<M>::value && !std::is_copy_assignable<M>::value, "not copyable");
    static_assert(!std::is_move_constructible<M>::value && !std::is_move_assignable<M>::value, "not movable");
    static_assert(std::is_same<decltype(std::declval<M&>().lock()), void>::value, "lock()");
    static_assert(std::is_same<decltype(std::declval<M&>().unlock()), void>::value, "unlock()");
    static_assert(std::is_same<decltype(std::declval<M&>().try_lock()), bool>::value, "try_lock()");
  }
};
template <class M, class S, int F> void script(pbt::Gen& g, pbt::Info& inf, const char* name) {
  Traits<M, F>::check();
  using YL = yamc::shared_lock<M>;
  inf.desc = std::string(name) + ":"; inf.classes.push_back(name);
  const int N = 2;
  std::unique_ptr<M[]> m(new M[N]); std::unique_ptr<S[]> s(new S[N]);
  int x[2][N] = {}, sh[2][N] = {};          // depth per actor and object, shared
  Helper b;
  int n = 3 + (int)g.draw(8), waits = 0, refused = 0, timed = 0;
  auto freex = [&](int a, int o) { return !x[1 - a][o] && !sh[0][o] && !sh[1][o]; };
  auto can = [&](int a, int o) { return freex(a, o) && (!x[a][o] || (F & REC)); };       // an exclusive request succeeds
  auto legal = [&](int a, int o) { return !sh[a][o] && (!x[a][o] || (F & REC)); };        // ... may be made
  auto cans = [&](int a, int o) { return !x[1 - a][o] && !x[a][o]; };
  auto legals = [&](int a, int o) { return !x[a][o] && !sh[a][o]; };
  auto both = [&](int a, const Op& p, int want) {
    int r1 = -7, r2 = -7;
    auto f = [&] {
#if __cplusplus >= 201402L
      if (p.var & 64) r1 = exec<M, StdSL<M>, F>(m.get(), p, b); else
#endif
      r1 = exec<M, YL, F>(m.get(), p, b);
    };
    // libstdc++ takes a deadline before the clock's epoch for an acquisition (glibc answers EINVAL): the reference gets an expired one that is not
    Op ps = p; if (ps.v == 1) ps.v = 0;
    auto h = [&] { r2 = exec<S, StdSL<S>, F & ~SYS>(s.get(), ps, b); };
    if (a == 0) { try { f(); } catch (std::exception& e) { pbt::fail("%s throws %s", opn[p.k], e.what()); } h(); } else { b.run(f); b.run(h); }
    char t[200];
    snprintf(t, sizeof t, " %c.%s(#%d%s%s%s%s)=%d", "AB"[a], opn[p.k], p.o, p.d >= 0 ? " " : "", p.d >= 0 ? durname[p.d] : "", p.c >= 0 ? " of " : "", p.c >= 0 ? clkname[p.c] : "", r1);
    inf.desc += t;
    PBT_CHECK(r1 == r2, "%s of %s in actor %c on #%d gives %d, its std counterpart %d (%s, %s, v%d)", opn[p.k], name, "AB"[a], p.o, r1, r2, p.d >= 0 ? durname[p.d] : "", p.c >= 0 ? clkname[p.c] : "", p.v);
    (void)want;
    return r1;
  };
  auto unlock_all = [&](int a, int o) {
    while (x[a][o]) { both(a, Op{O_UNLOCK, o, 0, -1, 0, -1, 0}, 0); x[a][o]--; }
    if (sh[a][o]) { both(a, Op{O_SUNLOCK, o, 0, -1, 0, -1, 0}, 0); sh[a][o] = 0; }
  };
  for (int i = 0; i < n; i++) {
    int a = (int)g.draw(2), o = (int)g.draw(N), k = (int)g.draw(O_NOPS);
    Op p{k, o, 1 - o, -1, (int)g.draw(4), -1, (int)g.draw(128)};
    int d = (int)g.draw(NDUR), c = (int)g.draw(NCLK);
    switch (k) {
    case O_LOCK: if (can(a, o) && !sh[a][o]) { both(a, p, 0); x[a][o]++; } break;
    case O_TRY: if (legal(a, o)) { int r = both(a, p, 0); x[a][o] += r; refused += !r; } break;
    case O_FOR: case O_UNTIL:
      if ((F & TIMED) && legal(a, o)) { if (!can(a, o) && p.v == 3) p.v = 2; p.d = d; if (k == O_UNTIL) p.c = c; int r = both(a, p, 0); x[a][o] += r; refused += !r; timed++; } break;
    case O_UNLOCK: unlock_all(a, o); break;
    case O_UL: if (legal(a, o)) { if (!can(a, o) && p.v == 3) p.v = 2; if (p.var & 16 && (F & TIMED)) { p.d = d; p.c = c; timed++; } int r = both(a, p, 0); refused += !(r & 1); if ((r & 1) && (p.var & 1)) x[a][o]++; } break;
    case O_GUARD: if (can(a, o) && !sh[a][o]) both(a, p, 0); break;
    case O_STDLOCK: case O_SCOPED: case O_YSCOPED: if (can(a, 0) && can(a, 1) && !sh[a][0] && !sh[a][1]) both(a, p, 0); break;
    case O_STDTRY: if (legal(a, 0) && legal(a, 1)) both(a, p, 0); break;
    case O_SLOCK: if ((F & RW) && cans(a, o) && !sh[a][o]) { both(a, p, 0); sh[a][o] = 1; } break;
    case O_STRY: if ((F & RW) && legals(a, o)) { int r = both(a, p, 0); sh[a][o] = r; refused += !r; } break;
    case O_SFOR: case O_SUNTIL:
      if ((F & RW) && (F & TIMED) && legals(a, o)) { if (!cans(a, o) && p.v == 3) p.v = 2; p.d = d; if (k == O_SUNTIL) p.c = c; int r = both(a, p, 0); sh[a][o] = r; refused += !r; timed++; } break;
    case O_SUNLOCK: unlock_all(a, o); break;
    case O_SL: if ((F & RW) && legals(a, o)) { if (!cans(a, o) && p.v == 3) p.v = 2; if (p.var & 16 && (F & TIMED)) { p.d = d; p.c = c; timed++; } int r = both(a, p, 0); refused += !(r & 1); if ((r & 1) && (p.var & 1)) sh[a][o] = 1; } break;
    case O_CV: if (a == 0 && x[0][o] == 1) { p.d = d; both(a, p, 0); waits++; } break;
    case O_CVN: if (a == 0 && x[0][o] == 1) { both(a, p, 0); waits++; } break;
    case O_BLOCK:
      if (x[0][o] == 1) {
        p.d = d; p.c = c;
        int r1;
        try { r1 = blocking<M, YL, F>(m.get(), p, b); } catch (std::exception& e) { pbt::fail("blocking acquisition throws %s", e.what()); }
        int r2 = blocking<S, StdSL<S>, F & ~SYS>(s.get(), p, b);
        x[0][o] = 0; waits++;
        inf.desc += " B blocks on #" + std::to_string(o) + " (" + durname[d] + " of " + clkname[c] + ", form " + std::to_string(p.var % 16) + ")=" + std::to_string(r1);
        PBT_CHECK(r1 == r2, "blocking acquisition of %s while the owner is about to release (form %d, long %s, %s) gives %d, the std counterpart %d", name, p.var % 16, durname[d], clkname[c], r1, r2);
      }
      break;
    }
  }
  for (int a = 0; a < 2; a++) for (int o = 0; o < N; o++) unlock_all(a, o);
  for (int o = 0; o < N; o++) { Op p{O_TRY, o, 0, -1, 0, -1, 0}; int r = both(1, p, 0); PBT_CHECK(r == 1, "%s #%d is not free in the end", name, o); both(1, Op{O_UNLOCK, o, 0, -1, 0, -1, 0}, 0); }
  inf.nontrivial = waits || refused || timed;
}
// ---- semaphores against a count
template <class S> struct SFor { S& s; template <class D> int operator()(D d) { return s.try_acquire_for(d); } };
template <class S> struct SUntil { S& s; template <class T> int operator()(T t) { return s.try_acquire_until(t); } };
template <class S, std::ptrdiff_t LM> void sem_script(pbt::Gen& g, pbt::Info& inf, const char* name) {
  static_assert((S::max)() >= LM, "max()");
  static_assert(std::is_same<typename std::remove_cv<decltype((S::max)())>::type, std::ptrdiff_t>::value, "max() type");
  static_assert(!std::is_copy_constructible<S>::value && !std::is_copy_assignable<S>::value && !std::is_convertible<std::ptrdiff_t, S>::value && !std::is_default_constructible<S>::value, "semaphore");
  static_assert(std::is_same<decltype(std::declval<S&>().try_acquire()), bool>::value && std::is_same<decltype(std::declval<S&>().acquire()), void>::value, "");
  long cnt = (long)g.draw(LM < 4 ? LM + 1 : 4); S s(cnt); int refused = 0, waits = 0;
  inf.desc = std::string(name) + "(" + std::to_string(cnt) + "):"; inf.classes.push_back(name);
  Helper b;
  for (int i = 0, n = 3 + (int)g.draw(8); i < n; i++) {
    int k = (int)g.draw(6), v = (int)g.draw(4), d = (int)g.draw(NDUR), c = (int)g.draw(NCLK); int r = -1;
    if (k == 0 && !cnt) k = 5;
    if (!cnt && v == 3 && k != 5) v = 2;
    switch (k) {
    case 0: s.acquire(); cnt--; inf.desc += " acquire"; break;
    case 1: r = s.try_acquire(); inf.desc += " try"; break;
    case 2: r = with_dur(d, v, SFor<S>{s}); inf.desc += std::string(" for ") + durname[d]; break;
    case 3: r = with_dur(d, v, At<SUntil<S>, false>{SUntil<S>{s}, c}); inf.desc += std::string(" until ") + durname[d] + " of " + clkname[c]; break;
    case 4: { long m = 1 + (long)g.draw(3); if (m > LM - cnt) m = LM - cnt; if (m == 1 && v & 1) s.release(); else if (m > 0) s.release(m); cnt += m > 0 ? m : 0; inf.desc += " release " + std::to_string(m); break; }
    default:
      if (cnt == 0) {
        std::atomic<int> st{0}; int q = -1;
        b.start([&] { st = 1; switch (v) { case 0: s.acquire(); q = 1; break; case 1: q = with_dur(d, 3, SFor<S>{s}); break; default: q = with_dur(d, 3, At<SUntil<S>, false>{SUntil<S>{s}, c}); } st = 2; });
        while (!st) std::this_thread::yield();
        if (v & 1) std::this_thread::sleep_for(microseconds(300));
        bool early = st == 2; s.release(); b.finish(); waits++;
        inf.desc += std::string(" blocking ") + durname[d] + " of " + clkname[c];
        PBT_CHECK(!early && q == 1, "%s: a blocked acquisition (%s) with a long %s of %s %s", name, v == 0 ? "acquire" : v == 1 ? "for" : "until", durname[d], clkname[c], early ? "returns before the release" : "returns false although a permit was released");
      }
      continue;
    }
    if (r >= 0) { PBT_CHECK(r == (cnt > 0), "%s: try (form %d, %s of %s, v%d) returns %d with %ld permits", name, k, durname[d], clkname[c], v, r, cnt); if (r) cnt--; else refused++; }
  }
  while (cnt) { PBT_CHECK(s.try_acquire(), "%s: a permit is missing", name); cnt--; }
  PBT_CHECK(!s.try_acquire(), "%s: a permit too many", name);
  inf.nontrivial = refused || waits;
}
// ---- latches and barriers
template <class L> void latch_script(pbt::Gen& g, pbt::Info& inf, const char* name) {
  static_assert((L::max)() > 1000, "max()");
  static_assert(!std::is_copy_constructible<L>::value && !std::is_copy_assignable<L>::value && !std::is_convertible<std::ptrdiff_t, L>::value && !std::is_default_constructible<L>::value, "latch");
  static_assert(noexcept(std::declval<const L&>().try_wait()), "try_wait is noexcept");
  long n = (long)g.draw(6); L l(n); const L& cl = l; Helper b; inf.desc = std::string(name) + "(" + std::to_string(n) + "):"; inf.classes.push_back(name);
  std::atomic<int> st{0}; bool aw = n && g.p(50);
  if (aw) n--;
  bool waiting = g.p(60) || aw;
  if (waiting) { b.start([&] { if (aw) l.arrive_and_wait(); else cl.wait(); st = 1; }); }
  while (n) {
    if (!aw) PBT_CHECK(!cl.try_wait(), "%s is open at %ld", name, n);
    PBT_CHECK(!st, "%s: wait returned at %ld", name, n);
    long k = 1 + (long)g.draw(n); if (k == 1 && g.p(50)) l.count_down(); else l.count_down(k); n -= k; inf.desc += " count_down " + std::to_string(k);
    if (g.p(20)) l.count_down(0);
  }
  if (waiting) b.finish();
  PBT_CHECK(cl.try_wait(), "%s is closed at 0", name); cl.wait(); l.arrive_and_wait(0);
  inf.nontrivial = waiting;
}
static std::atomic<int> g_comp; static void plain_completion() noexcept { g_comp++; }
struct MoveOnly { std::unique_ptr<int> p{new int(3)}; std::atomic<int>* c; explicit MoveOnly(std::atomic<int>* x) : c(x) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; void operator()() noexcept { *c += *p - 2; } };
template <class B> void barrier_run(pbt::Gen& g, pbt::Info& inf, B& br, std::atomic<int>* comp, int parts) {
  static_assert((B::max)() > 1000, "max()");
  static_assert(!std::is_copy_constructible<B>::value && !std::is_copy_assignable<B>::value, "barrier");
  static_assert(std::is_move_constructible<typename B::arrival_token>::value && std::is_move_assignable<typename B::arrival_token>::value, "arrival_token");
  const B& cb = br; Helper b; int phases = 1 + (int)g.draw(4), c0 = comp ? comp->load() : 0;
  for (int ph = 0; ph < phases; ph++) {
    std::atomic<int> st{0}; int form = (int)g.draw(3); inf.desc += " phase " + std::to_string(form);
    bool drop = ph == phases - 1 && form == 2;
    b.start([&] { if (parts > 1) { auto t = br.arrive(parts - 1); (void)t; } if (drop) br.arrive_and_drop(); else if (form == 1) cb.wait(br.arrive()); else br.arrive_and_wait(); st = 1; });
    if (g.p(40)) std::this_thread::sleep_for(microseconds(100));
    if (!drop) PBT_CHECK(!st, "barrier: released before the last arrival in phase %d", ph);
    if (comp) PBT_CHECK(comp->load() == c0 + ph, "completion function ran %d times in %d phases", comp->load() - c0, ph);
    if (form == 0) { auto t = br.arrive(); auto t2(std::move(t)); cb.wait(std::move(t2)); } else if (form == 1) br.arrive_and_wait(); else cb.wait(br.arrive());
    b.finish();
    if (comp) PBT_CHECK(comp->load() == c0 + ph + 1, "completion function ran %d times in %d phases", comp->load() - c0, ph + 1);
    if (drop && parts == 1) { br.arrive_and_wait(); if (comp) PBT_CHECK(comp->load() == c0 + ph + 2, "the expected count is not lowered by arrive_and_drop"); }
  }
  inf.nontrivial = true;
}
template <int> void barrier_script(pbt::Gen& g, pbt::Info& inf) {
  int parts = 1 + (int)g.draw(3), kind = (int)g.draw(4); inf.desc = "barrier(" + std::to_string(parts + 1) + ") completion " + std::to_string(kind) + ":"; inf.classes.push_back("barrier");
  static_assert(!std::is_convertible<std::ptrdiff_t, yamc::barrier<>>::value, "explicit");
  switch (kind) {
  case 0: { yamc::barrier<> b(parts + 1); barrier_run(g, inf, b, nullptr, parts); break; }
  case 1: { yamc::barrier<void (*)() noexcept> b(parts + 1, plain_completion); barrier_run(g, inf, b, &g_comp, parts); break; }
  case 2: { std::atomic<int> c{0}; auto f = [&c]() noexcept { c++; };
#if __cplusplus >= 201703L
    yamc::barrier b(parts + 1, f);
#else
    yamc::barrier<decltype(f)> b(parts + 1, f);
#endif
    barrier_run(g, inf, b, &c, parts); break; }
  default: { std::atomic<int> c{0}; yamc::barrier<MoveOnly> b(parts + 1, MoveOnly(&c)); barrier_run(g, inf, b, &c, parts); }
  }
}
static void one(pbt::Gen& g, pbt::Info& inf) {
  switch (g.draw(NTYPES)) {
  default: break;
#define X(i, S, F, ...) case i: script<__VA_ARGS__, S, F>(g, inf, #__VA_ARGS__); break;
#define SEM(i, LM, ...) case i: sem_script<__VA_ARGS__, LM>(g, inf, #__VA_ARGS__); break;
#define LAT(i) case i: latch_script<yamc::latch>(g, inf, "latch"); break;
#define BAR(i) case i: barrier_script<0>(g, inf); break;
#include "c23_types.inc"
  }
}
int odr();
int main(int argc, char** argv) {
  if (odr() != 7) return 3;
  return pbt::run(argc, argv, "programs (types, header order, language standard and compiler drawn) that run drawn scripts of direct calls, unique_lock, lock_guard, std::lock, std::try_lock, scoped_lock, shared_lock, condition_variable_any and blocking acquisitions by two threads, with 14 duration types and 6 clocks, on the type and on its std counterpart; every result must be equal; plus every header alone with all templates instantiated; non-trivial: a call waited, was refused or had a timeout; distinct by choices", one, 60);
}
