#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <vector>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <new>
#include <system_error>
#include <thread>
#include <unistd.h>
enum { REC = 1, TIMED = 2, RW = 4, CHK = 8, MTX = 16, OTHER = 32 };
const int NENT = 64, NTYPE = 28;
struct Any {       // 0: done; otherwise the error code thrown
  virtual ~Any() noexcept(false) {}
  virtual const char* name() const = 0; virtual int flags() const = 0;
  virtual int lock() { return 0; } virtual int unlock() { return 0; } virtual int try_lock() { return 0; } virtual int timed(int, bool) { return 0; }
  virtual void lock_shared() {} virtual void unlock_shared() {} virtual int try_lock_shared() { return 0; }
  virtual std::string script(Any*) { return ""; }
};
struct Ent { Any* p; int storage; bool alive; int held; };
extern Ent g_ent[NENT]; extern int g_nent, g_phase;
unsigned draw(unsigned n); void note(const char*, ...); [[noreturn]] void fail(const char*, ...); void phase(int);
void start(std::function<void()>); void finish(); int ask(std::function<int()>); void some_uses(bool);
struct Slot { alignas(64) unsigned char buf[1024]; Any* p; int id; explicit Slot(int); ~Slot(); };
template <class M, bool> struct Tm { static int t(M& m, int ms, bool) { return 0; } };
template <class M> struct Tm<M, true> { static int t(M& m, int ms, bool) { return m.try_lock_for(std::chrono::milliseconds(ms)); } };
template <class M, bool, bool> struct Sh { static void l(M&) {} static void u(M&) {} static int y(M&) { return 0; } static int t(M& m, int) { return 0; } };
template <class M> struct Sh<M, true, false> { static void l(M& m) { m.lock_shared(); } static void u(M& m) { m.unlock_shared(); } static int y(M& m) { return m.try_lock_shared(); } static int t(M&, int) { return 0; } };
template <class M> struct Sh<M, true, true> : Sh<M, true, false> { static int t(M& m, int ms) { return m.try_lock_shared_for(std::chrono::milliseconds(ms)); } };
template <class M, int F> struct Impl : Any {
  M m; const char* n;
  explicit Impl(const char* x) : n(x) {}
  ~Impl() noexcept(noexcept(std::declval<M&>().~M())) {}
  const char* name() const override { return n; } int flags() const override { return F | MTX; }
  template <class G> int guard(G g) { try { g(); return 0; } catch (std::system_error& e) { return e.code().value(); } }
  int lock() override { return guard([&] { m.lock(); }); }
  int unlock() override { return guard([&] { m.unlock(); }); }
  int try_lock() override { return m.try_lock(); }
  int timed(int ms, bool sh) override { return sh ? Sh<M, (F & RW) != 0, (F & TIMED) != 0>::t(m, ms) : Tm<M, (F & TIMED) != 0>::t(m, ms, false); }
  void lock_shared() override { Sh<M, (F & RW) != 0, false>::l(m); } void unlock_shared() override { Sh<M, (F & RW) != 0, false>::u(m); }
  int try_lock_shared() override { return Sh<M, (F & RW) != 0, false>::y(m); }
};
template <class S> struct Sem : Any {
  S s; const char* n; long c = 2; explicit Sem(const char* x) : s(2), n(x) {}
  const char* name() const override { return n; } int flags() const override { return OTHER; }
  std::string script(Any*) override {
    switch (draw(4)) {
    case 0: if (s.try_acquire() != (c > 0)) return "try_acquire is wrong about the count"; if (c) c--; break;
    case 1: { int k = 1 + draw(2); s.release(k); c += k; break; }
    case 2: if (s.try_acquire_for(std::chrono::milliseconds(1)) != (c > 0)) return "try_acquire_for is wrong about the count"; if (c) c--; break;
    default: if (c) { s.acquire(); c--; } else { std::atomic<int> st{0}; start([&] { s.acquire(); st = 1; }); if (draw(2)) usleep(200); if (st) return "acquired without a permit"; s.release(); finish(); }
    }
    return "";
  }
};
