// C21: objects used 2^31 and 2^32 times. One program per type (TYPE), native calls are skipped while ageing.
#include "pbt.h"
#include <dlfcn.h>
#include <pthread.h>
#include <errno.h>
#include <thread>
#include <atomic>
#include <chrono>
#include <memory>
#include <utility>

static bool skip;                // single-threaded: native mutexes and notifications do nothing
#define REAL(name) static decltype(&name) f; if (__builtin_expect(!f, 0)) f = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (skip) return 0; REAL(pthread_mutex_lock); return f(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (skip) return 0; REAL(pthread_mutex_unlock); return f(m); }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (skip) return 0; REAL(pthread_cond_broadcast); return f(c); }
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { if (skip) return 0; REAL(pthread_cond_signal); return f(c); }

#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"

#ifndef CYCLES
#define CYCLES 32
#endif
template <class F> static void in_thread(F f) { std::string e; std::thread([&] { try { f(); } catch (pbt::Fail& x) { e = x.msg; } catch (std::exception& x) { e = x.what(); } }).join(); if (!e.empty()) throw pbt::Fail{e}; }
static const char* at;
static void pause_ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }

// ---- what a fresh object does
enum { REC = 1, RW = 2, TIMED = 4 };
template <class M, bool> struct Tm { static bool x(M&) { return true; } };
template <class M> struct Tm<M, true> { static bool x(M& m) { return m.try_lock_for(std::chrono::milliseconds(1)); } };
template <class M, bool> struct Rw { static void probe(M&) {} static void cycle(M& m) { m.lock(); m.unlock(); } };
template <class M> struct Rw<M, true> {
  static void probe(M& m) {
    m.lock(); in_thread([&] { PBT_CHECK(!m.try_lock_shared(), "%s: shared while held exclusively", at); }); m.unlock();
    m.lock_shared();
    in_thread([&] { PBT_CHECK(m.try_lock_shared(), "%s: no second shared owner", at); m.unlock_shared(); PBT_CHECK(!m.try_lock(), "%s: exclusive while shared", at); });
    m.unlock_shared();
    PBT_CHECK(m.try_lock(), "%s: not free after unlock_shared", at); m.unlock();
    m.lock();
    std::atomic<int> got{0};
    std::thread b([&] { m.lock_shared(); got = 1; m.unlock_shared(); });
    pause_ms(2); PBT_CHECK(got == 0, "%s: lock_shared does not wait for the writer", at);
    m.unlock(); b.join();
  }
  static void cycle(M& m) { m.lock(); m.unlock(); m.lock_shared(); m.unlock_shared(); }
};
template <class M, int F> struct A {
  M m;
  void cycle() { Rw<M, (F & RW) != 0>::cycle(m); }
  void probe() {
    m.lock();
    in_thread([&] { PBT_CHECK(!m.try_lock(), "%s: try_lock of another thread succeeds", at); if (F & TIMED) PBT_CHECK((!Tm<M, (F & TIMED) != 0>::x(m)), "%s: timed lock of another thread succeeds", at); });
    if (F & REC) { m.lock(); PBT_CHECK(m.try_lock(), "%s: no recursion", at); m.unlock(); m.unlock(); in_thread([&] { PBT_CHECK(!m.try_lock(), "%s: released too early", at); }); }
    m.unlock();
    PBT_CHECK(m.try_lock(), "%s: not free after unlock", at);
    std::atomic<int> got{0};
    std::thread b([&] { m.lock(); got = 1; m.unlock(); });
    pause_ms(2); PBT_CHECK(got == 0, "%s: lock does not wait", at);
    m.unlock(); b.join();
    in_thread([&] { PBT_CHECK((Tm<M, (F & TIMED) != 0>::x(m)), "%s: timed lock of a free mutex fails", at); if (F & TIMED) m.unlock(); });
    Rw<M, (F & RW) != 0>::probe(m);
  }
};
template <class S> struct Sem {
  S s{1};
  void cycle() { s.acquire(); s.release(); }
  void probe() {
    s.acquire(); PBT_CHECK(!s.try_acquire(), "%s: a permit too many", at);
    PBT_CHECK(!s.try_acquire_for(std::chrono::milliseconds(1)), "%s: a permit too many (timed)", at);
    std::atomic<int> got{0};
    std::thread b([&] { s.acquire(); got = 1; });
    pause_ms(2); PBT_CHECK(got == 0, "%s: acquire does not wait", at);
    s.release(); b.join();
    s.release(); PBT_CHECK(s.try_acquire_for(std::chrono::seconds(5)), "%s: released permit is lost", at); s.release();
  }
};
struct Lat {
  yamc::latch l{1}, open{0};
  void cycle() { l.count_down(0); (void)l.try_wait(); open.wait(); open.count_down(0); }
  void probe() {
    PBT_CHECK(!l.try_wait(), "%s: closed latch is open", at); PBT_CHECK(open.try_wait(), "%s: open latch is closed", at); open.arrive_and_wait(0);
    yamc::latch x(2); std::atomic<int> got{0};
    std::thread b([&] { x.arrive_and_wait(); got = 1; }); pause_ms(2); PBT_CHECK(got == 0, "%s: does not wait", at); x.count_down(); b.join();
  }
};
struct Cnt { static long& n() { static long v; return v; } void operator()() noexcept { n()++; } };
template <class B, bool CB> struct Bar {
  B b{2};
  void cycle() { (void)b.arrive(2); }
  void probe() {
    long n0 = Cnt::n();
    typename B::arrival_token t = b.arrive(); std::atomic<int> got{0};
    std::thread th([&] { b.wait(std::move(t)); got = 1; });
    pause_ms(2); PBT_CHECK(got == 0, "%s: wait returns before the phase is complete", at);
    typename B::arrival_token t2 = b.arrive();
    th.join();
    if (CB) PBT_CHECK(Cnt::n() == n0 + 1, "%s: completion function ran %ld times", at, Cnt::n() - n0);
    std::thread t3([&] { b.arrive_and_wait(); }); b.arrive_and_wait(); t3.join();
    b.wait(std::move(t2));          // a token of a finished phase
    if (CB) PBT_CHECK(Cnt::n() == n0 + 2, "%s: completion function ran %ld times in two phases", at, Cnt::n() - n0);
  }
};
template <class B> struct Tok {   // a token of phase 0 is waited for much later
  static void probe() {}
};
namespace rw = yamc::rwlock;
template <class O> static void history(pbt::Gen& g, pbt::Info& inf, const char* name) {
  std::unique_ptr<O> o(new O);
  uint64_t d = 2 + g.draw(4); char b[200];
  inf.desc = std::string(name) + ": used ";
  uint64_t done = 0;
  for (int bits : {8, 16, 31, 32}) {
    if (bits > CYCLES) break;
    uint64_t to = (1ull << bits) - d;
    skip = true; for (; done < to; done++) o->cycle(); skip = false;
    for (int k = 0; k < 5 + (int)d; k++) {
      snprintf(b, sizeof b, "%s after %llu uses and %d more", name, (unsigned long long)done, k); at = b;
      o->probe();
    }
    inf.desc += (bits > 8 ? ", 2^" : "2^") + std::to_string(bits) + "-" + std::to_string(d);
  }
  inf.desc += " times, with probes across each of these points";
  inf.nontrivial = true;
  inf.classes.push_back(std::string(name) + ", 2^" + std::to_string(CYCLES));
}
static void one(pbt::Gen& g, pbt::Info& inf) {
#define T(n, name, ...) if (TYPE == n) history<__VA_ARGS__>(g, inf, name)
  T(0, "barrier<>", Bar<yamc::barrier<>, false>);
  T(1, "barrier<F>", Bar<yamc::barrier<Cnt>, true>);
  T(2, "counting_semaphore<>", Sem<yamc::counting_semaphore<>>);
  T(3, "latch", Lat);
  T(4, "alternate::recursive_timed_mutex", A<yamc::alternate::recursive_timed_mutex, REC | TIMED>);
  T(5, "alternate::basic_shared_timed_mutex<WriterPrefer>", A<yamc::alternate::basic_shared_timed_mutex<rw::WriterPrefer>, RW | TIMED>);
  T(6, "fair::recursive_timed_mutex", A<yamc::fair::recursive_timed_mutex, REC | TIMED>);
  T(7, "fair::basic_shared_timed_mutex<PhaseFairness>", A<yamc::fair::basic_shared_timed_mutex<rw::PhaseFairness>, RW | TIMED>);
  T(8, "spin::mutex", A<yamc::spin::mutex, 0>);
  T(9, "spin_ttas::mutex", A<yamc::spin_ttas::mutex, 0>);
  T(10, "checked::recursive_timed_mutex", A<yamc::checked::recursive_timed_mutex, REC | TIMED>);
  T(11, "checked::basic_shared_timed_mutex<ReaderPrefer>", A<yamc::checked::basic_shared_timed_mutex<rw::ReaderPrefer>, RW | TIMED>);
  T(12, "posix::counting_semaphore<>", Sem<yamc::posix::counting_semaphore<>>);
  T(13, "posix::rwlock", A<yamc::posix::rwlock, RW | TIMED>);
  T(14, "fair::mutex", A<yamc::fair::mutex, 0>);
  T(15, "fair::basic_shared_mutex<TaskFairness>", A<yamc::fair::basic_shared_mutex<rw::TaskFairness>, RW>);
  T(16, "alternate::basic_shared_mutex<ReaderPrefer>", A<yamc::alternate::basic_shared_mutex<rw::ReaderPrefer>, RW>);
  T(17, "alternate::mutex", A<yamc::alternate::mutex, 0>);
  T(18, "spin_weak::mutex", A<yamc::spin_weak::mutex, 0>);
  T(19, "posix::native_recursive_mutex", A<yamc::posix::native_recursive_mutex, REC | TIMED>);
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "one object used 2^8, 2^16, 2^31 and 2^32 times (minus a drawn offset), with probes of everything a fresh object does at each of these points; every case counts; distinct by choices", one, 1500);
}
