// yamc::shared_lock next to std::shared_lock over a scripted mutex; yamc::scoped_lock over forwarding lockables.
#include "sut.h"
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"
#include <shared_mutex>
#include <new>
#include "wrap.h"
namespace {
struct UClk {
  using rep = long long; using period = std::ratio<1, 1000>; using duration = std::chrono::milliseconds;
  using time_point = std::chrono::time_point<UClk>; static constexpr bool is_steady = false;
  static time_point now() { return time_point(duration(5)); }
};
struct Custom { int v; };
template <class C> int clkid() { return std::is_same<C, std::chrono::steady_clock>::value ? 1 : std::is_same<C, std::chrono::system_clock>::value ? 2 : 3; }
void tr(long x) { h_trace(x); }
bool may_throw_unlock = false;
int decide(bool thr) { int d = h_script(); if (d >= 2 && thr) { if (d == 2) throw std::system_error(std::make_error_code(std::errc::device_or_resource_busy)); throw Custom{d}; } return d; }
template <class B> struct Mock {
  int id;
  void lock_shared() { tr(1000 + id); decide(true); }
  B try_lock_shared() { tr(1100 + id); int d = decide(true); return (B)(d == 1 ? 0 : sizeof(B) > 1 ? 2 : 1); }
  void unlock_shared() { tr(1200 + id); if (may_throw_unlock) { may_throw_unlock = false; decide(true); } }
  template <class R, class P> B try_lock_shared_for(const std::chrono::duration<R, P>& d) {
    tr(1300 + id); tr(std::is_floating_point<R>::value); tr((long)P::num); tr((long)P::den); tr((long)d.count());
    int x = decide(true); return (B)(x == 1 ? 0 : sizeof(B) > 1 ? 2 : 1);
  }
  template <class C, class D> B try_lock_shared_until(const std::chrono::time_point<C, D>& t) {
    tr(1400 + id); tr(clkid<C>()); tr((long)D::period::den); tr((long)t.time_since_epoch().count());
    int x = decide(true); return (B)(x == 1 ? 0 : sizeof(B) > 1 ? 2 : 1);
  }
  // never used by shared_lock
  void lock() { tr(1500 + id); } bool try_lock() { tr(1600 + id); return true; } void unlock() { tr(1700 + id); }
};
template <class L, class M> void interp(const int* p, int n) {
  using namespace std::chrono;
  static_assert(std::is_same<typename L::mutex_type, M>::value, "mutex_type");
  M m[W_MUT]; for (int i = 0; i < W_MUT; i++) m[i].id = i;
  alignas(L) unsigned char mem[W_SLOTS][sizeof(L)]; bool alive[W_SLOTS] = {};
  auto at = [&](int i) -> L& { return *reinterpret_cast<L*>(mem[i]); };
  auto kill = [&](int i) { if (alive[i]) { alive[i] = false; at(i).~L(); } };
  for (int k = 0; k < n; k++) {
    int op = p[5 * k], a = p[5 * k + 1], b = p[5 * k + 2], x = p[5 * k + 3], v = p[5 * k + 4];
    tr(100 + op); tr(a);
    try {
      if (op <= W_FOR || op == W_MCTOR) {
        if (op == W_MCTOR && (!alive[b] || a == b)) { tr(-3); continue; }
        kill(a); tr(-1);
      } else if (!alive[a]) { tr(-3); continue; }
      switch (op) {
      case W_DEF: new (mem[a]) L(); alive[a] = true; break;
      case W_MTX: new (mem[a]) L(m[x]); alive[a] = true; break;
      case W_DEFER: new (mem[a]) L(m[x], std::defer_lock); alive[a] = true; break;
      case W_TRY: new (mem[a]) L(m[x], std::try_to_lock); alive[a] = true; break;
      case W_ADOPT: new (mem[a]) L(m[x], std::adopt_lock); alive[a] = true; break;
      case W_UNTIL:
        if (v % 3 == 0) new (mem[a]) L(m[x], steady_clock::time_point(nanoseconds(v)));
        else if (v % 3 == 1) new (mem[a]) L(m[x], time_point<system_clock, seconds>(seconds(v)));
        else new (mem[a]) L(m[x], UClk::time_point(milliseconds(v)));
        alive[a] = true; break;
      case W_FOR:
        if (v % 3 == 0) new (mem[a]) L(m[x], nanoseconds(v));
        else if (v % 3 == 1) new (mem[a]) L(m[x], hours(-v));
        else new (mem[a]) L(m[x], duration<double, std::milli>(v + 0.5));
        alive[a] = true; break;
      case W_DTOR: kill(a); break;
      case W_LOCK: at(a).lock(); break;
      case W_TRYLOCK: tr(2000 + (at(a).try_lock() ? 1 : 0)); break;
      case W_TFOR:
        if (v % 3 == 0) tr(2000 + (at(a).try_lock_for(microseconds(v)) ? 1 : 0));
        else if (v % 3 == 1) tr(2000 + (at(a).try_lock_for(minutes(-v)) ? 1 : 0));
        else tr(2000 + (at(a).try_lock_for(duration<float>(v)) ? 1 : 0));
        break;
      case W_TUNTIL:
        if (v % 3 == 0) tr(2000 + (at(a).try_lock_until(steady_clock::time_point(nanoseconds(-v))) ? 1 : 0));
        else if (v % 3 == 1) tr(2000 + (at(a).try_lock_until(system_clock::time_point(nanoseconds(v))) ? 1 : 0));
        else tr(2000 + (at(a).try_lock_until(UClk::time_point(milliseconds(v))) ? 1 : 0));
        break;
      case W_UNLOCK: may_throw_unlock = v % 4 == 3; at(a).unlock(); may_throw_unlock = false; break;
      case W_MCTOR: new (mem[a]) L(std::move(at(b))); alive[a] = true; break;
      case W_MASSIGN: if (!alive[b]) { tr(-3); break; } { L& res = (at(a) = std::move(at(b))); tr(&res == &at(a)); } break;
      case W_SWAP: if (!alive[b]) { tr(-3); break; } at(a).swap(at(b)); break;
      case W_STDSWAP: if (!alive[b]) { tr(-3); break; } if (v & 1) std::swap(at(a), at(b)); else { using std::swap; swap(at(a), at(b)); } break;
      case W_RELEASE: { M* q = at(a).release(); tr(q ? 3000 + q->id : 2999); break; }
      case W_NEST: {   // a temporary, moved from into a slot
        L t(m[x], std::adopt_lock); if (v & 1) t.unlock(); at(a) = std::move(t); tr(t.owns_lock()); tr(t.mutex() == nullptr); break; }
      }
    } catch (const std::system_error& e) { may_throw_unlock = false; tr(4000 + (e.code() == std::errc::operation_not_permitted ? 1 : e.code() == std::errc::resource_deadlock_would_occur ? 2 : 3)); tr(e.code().value()); }
    catch (const Custom& c) { may_throw_unlock = false; tr(4100 + c.v); }
    for (int i = 0; i < W_SLOTS; i++) if (alive[i]) {
      const L& l = at(i);
      tr(5000 + i); tr(l.owns_lock()); tr((bool)l); tr(l.mutex() ? l.mutex()->id : -1);
      if (l) tr(1);
    }
  }
  tr(6000);
  for (int i = 0; i < W_SLOTS; i++) kill(i);
}
// ---- scoped_lock
struct Fw {
  int o;
  void go(int k) { if (h_fw(o, k) == 99) throw Custom{99}; }
  void lock() { go(0); }
  bool try_lock() { int r = h_fw(o, 1); if (r == 99) throw Custom{99}; return r; }
  void unlock() { h_fw(o, 2); }
};
template <int I> struct FwT : Fw {};
template <class SL, class... A> int scope(int body, A&&... a) {
  try { SL l(std::forward<A>(a)...); h_body(body); }
  catch (const Custom& c) { return c.v; }
  return 0;
}
}
extern "C" void wrap_shared(int which, int ret, const int* p, int n) {
  may_throw_unlock = false;
  if (which == 0 && ret == 0) interp<std::shared_lock<Mock<bool>>, Mock<bool>>(p, n);
  if (which == 1 && ret == 0) interp<yamc::shared_lock<Mock<bool>>, Mock<bool>>(p, n);
  if (which == 0 && ret == 1) interp<std::shared_lock<Mock<int>>, Mock<int>>(p, n);
  if (which == 1 && ret == 1) interp<yamc::shared_lock<Mock<int>>, Mock<int>>(p, n);
}
extern "C" int wrap_scoped(int n, int hetero, const int* o, int adopt) {
  Fw f[6]; for (int i = 0; i < n; i++) f[i].o = o[i];
  using yamc::scoped_lock;
  if (hetero) {
    FwT<0> a; FwT<1> b; FwT<2> c; FwT<3> d; a.o = f[0].o; b.o = f[1].o; c.o = f[2].o; d.o = f[3].o;
    switch (n) {
    case 2: return adopt ? scope<scoped_lock<FwT<0>, FwT<1>>>(n, std::adopt_lock, a, b) : scope<scoped_lock<FwT<0>, FwT<1>>>(n, a, b);
    case 3: return adopt ? scope<scoped_lock<FwT<0>, Fw, FwT<2>>>(n, std::adopt_lock, a, f[1], c) : scope<scoped_lock<FwT<0>, Fw, FwT<2>>>(n, a, f[1], c);
    default: break;
    }
    if (n == 4) return adopt ? scope<scoped_lock<FwT<0>, FwT<1>, FwT<2>, FwT<3>>>(n, std::adopt_lock, a, b, c, d) : scope<scoped_lock<FwT<0>, FwT<1>, FwT<2>, FwT<3>>>(n, a, b, c, d);
  }
  switch (n) {
  case 0: return adopt ? scope<scoped_lock<>>(n, std::adopt_lock) : scope<scoped_lock<>>(n);
  case 1: return adopt ? scope<scoped_lock<Fw>>(n, std::adopt_lock, f[0]) : scope<scoped_lock<Fw>>(n, f[0]);
  case 2: return adopt ? scope<scoped_lock<Fw, Fw>>(n, std::adopt_lock, f[0], f[1]) : scope<scoped_lock<Fw, Fw>>(n, f[0], f[1]);
  case 3: return adopt ? scope<scoped_lock<Fw, Fw, Fw>>(n, std::adopt_lock, f[0], f[1], f[2]) : scope<scoped_lock<Fw, Fw, Fw>>(n, f[0], f[1], f[2]);
  case 4: return adopt ? scope<scoped_lock<Fw, Fw, Fw, Fw>>(n, std::adopt_lock, f[0], f[1], f[2], f[3]) : scope<scoped_lock<Fw, Fw, Fw, Fw>>(n, f[0], f[1], f[2], f[3]);
  default: return adopt ? scope<scoped_lock<Fw, Fw, Fw, Fw, Fw>>(5, std::adopt_lock, f[0], f[1], f[2], f[3], f[4]) : scope<scoped_lock<Fw, Fw, Fw, Fw, Fw>>(5, f[0], f[1], f[2], f[3], f[4]);
  }
}
