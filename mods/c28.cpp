// C28: many threads, owners, waiters and objects at a time. Real threads, and (where nothing blocks) simulated ones.
#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <system_error>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>

// a simulated thread: what std::this_thread::get_id() says
static thread_local unsigned long fake_id;
extern "C" pthread_t pthread_self() noexcept {
  static pthread_t (*real)();
  if (__builtin_expect(fake_id != 0, 0)) return (pthread_t)fake_id;
  if (!real) real = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
  return real();
}

// memory in use
static std::atomic<long> live{0};
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }

#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#include "yamc_scoped_lock.hpp"
#include "yamc_shared_lock.hpp"
using pbt::Gen; using pbt::Info;
using ms = std::chrono::milliseconds;

// ---- all mutex types behind one interface
enum { REC = 1, TIMED = 2, RW = 4, CHK = 8, FIFO = 16, PHASE = 32, SPIN = 64, POSIX = 128 };
struct Any {
  virtual ~Any() noexcept(false) {}
  virtual int flags() = 0; virtual const char* name() = 0;
  virtual void lock() = 0; virtual bool try_lock() = 0; virtual bool timed(int) { return false; } virtual void unlock() = 0;
  virtual void lock_shared() {} virtual bool try_lock_shared() { return false; } virtual bool timed_shared(int) { return false; } virtual void unlock_shared() {}
  void lock(bool sh) { if (sh) lock_shared(); else lock(); }
  void unlock(bool sh) { if (sh) unlock_shared(); else unlock(); }
};
#if __cplusplus >= 201703L
#define UNWINDING std::uncaught_exceptions()
#else
#define UNWINDING std::uncaught_exception()
#endif
struct Del { void operator()(Any* p) { if (!UNWINDING) delete p; } };   // a failure leaves locks held
using Ptr = std::unique_ptr<Any, Del>;
template <class M, bool> struct Tm { static bool x(M&, int) { return false; } };
template <class M> struct Tm<M, true> { static bool x(M& m, int t) { return m.try_lock_for(ms(t)); } };
template <class M, bool, bool> struct Sh { static void l(M&) {} static void u(M&) {} static bool y(M&) { return false; } static bool t(M&, int) { return false; } };
template <class M> struct Sh<M, true, false> { static void l(M& m) { m.lock_shared(); } static void u(M& m) { m.unlock_shared(); } static bool y(M& m) { return m.try_lock_shared(); } static bool t(M&, int) { return false; } };
template <class M> struct Sh<M, true, true> : Sh<M, true, false> { static bool t(M& m, int t) { return m.try_lock_shared_for(ms(t)); } };
template <class M, int F> struct Impl : Any {
  M m; const char* n;
  Impl(const char* x) : n(x) {}
  ~Impl() noexcept(noexcept(std::declval<M&>().~M())) {}
  using S = Sh<M, (F & RW) != 0, (F & TIMED) != 0>;
  int flags() override { return F; } const char* name() override { return n; }
  void lock() override { m.lock(); } bool try_lock() override { return m.try_lock(); } void unlock() override { m.unlock(); }
  bool timed(int t) override { return Tm<M, (F & TIMED) != 0>::x(m, t); }
  void lock_shared() override { S::l(m); } bool try_lock_shared() override { return S::y(m); } void unlock_shared() override { S::u(m); }
  bool timed_shared(int t) override { return S::t(m, t); }
};
struct Type { int flags; const char* name; Any* (*make)(); };
#define T(F, ...) { F, #__VA_ARGS__, []() -> Any* { return new Impl<__VA_ARGS__, F>(#__VA_ARGS__); } }
namespace rwl = yamc::rwlock;
static const Type types[] = {
  T(CHK, yamc::checked::mutex), T(CHK | TIMED, yamc::checked::timed_mutex), T(CHK | REC, yamc::checked::recursive_mutex), T(CHK | REC | TIMED, yamc::checked::recursive_timed_mutex),
  T(CHK | RW, yamc::checked::basic_shared_mutex<rwl::ReaderPrefer>), T(CHK | RW, yamc::checked::basic_shared_mutex<rwl::WriterPrefer>),
  T(CHK | RW | TIMED, yamc::checked::basic_shared_timed_mutex<rwl::ReaderPrefer>), T(CHK | RW | TIMED, yamc::checked::basic_shared_timed_mutex<rwl::WriterPrefer>),
  T(FIFO, yamc::fair::mutex), T(FIFO | REC, yamc::fair::recursive_mutex), T(FIFO | TIMED, yamc::fair::timed_mutex), T(FIFO | REC | TIMED, yamc::fair::recursive_timed_mutex),
  T(FIFO | RW, yamc::fair::basic_shared_mutex<rwl::TaskFairness>), T(FIFO | RW | PHASE, yamc::fair::basic_shared_mutex<rwl::PhaseFairness>),
  T(FIFO | RW | TIMED, yamc::fair::basic_shared_timed_mutex<rwl::TaskFairness>), T(FIFO | RW | TIMED | PHASE, yamc::fair::basic_shared_timed_mutex<rwl::PhaseFairness>),
  T(REC, yamc::alternate::recursive_mutex), T(TIMED, yamc::alternate::timed_mutex), T(REC | TIMED, yamc::alternate::recursive_timed_mutex),
  T(RW, yamc::alternate::basic_shared_mutex<rwl::ReaderPrefer>), T(RW, yamc::alternate::basic_shared_mutex<rwl::WriterPrefer>),
  T(RW | TIMED, yamc::alternate::basic_shared_timed_mutex<rwl::ReaderPrefer>), T(RW | TIMED, yamc::alternate::basic_shared_timed_mutex<rwl::WriterPrefer>),
  T(SPIN, yamc::spin::mutex), T(SPIN, yamc::spin_weak::mutex), T(SPIN, yamc::spin_ttas::mutex),
  T(POSIX | TIMED, yamc::posix::native_mutex), T(POSIX | REC | TIMED, yamc::posix::native_recursive_mutex), T(POSIX | RW | TIMED, yamc::posix::rwlock), T(POSIX | SPIN, yamc::posix::spinlock),
};
static const int NT = sizeof types / sizeof *types;
static const Type& pick(Gen& g, int need, int without = 0) {
  int ok[NT], n = 0;
  for (int i = 0; i < NT; i++) if ((types[i].flags & need) == need && !(types[i].flags & without)) ok[n++] = i;
  return types[ok[g.draw(n)]];
}
// sizes: mostly small, around powers of two, rarely the largest
static unsigned size(Gen& g, unsigned max) {
  static const unsigned s[] = {2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300};
  unsigned k = 0; while (k < sizeof s / sizeof *s && s[k] <= max) k++;
  return g.p(45) ? s[g.draw(k)] : s[g.draw(std::min(k, 18u))];
}
static std::vector<unsigned> perm(Gen& g, unsigned n) {
  std::vector<unsigned> v(n); for (unsigned i = 0; i < n; i++) v[i] = i;
  unsigned how = (unsigned)g.draw(3);
  if (how == 1) std::reverse(v.begin(), v.end());
  if (how == 2) { pbt::Rng r{g.draw(1000000)}; for (unsigned i = n; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
  return v;
}
struct Note { std::string s; void operator()(const char* f, ...) __attribute__((format(printf, 2, 3))) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); s += b; } };

// ---- real threads that do what they are told
struct Worker {
  std::mutex m; std::condition_variable cv; std::function<void()> job; bool quit = false;
  std::atomic<int> st{0};            // 0 idle, 1 told, 2 in the call, 3 done
  std::atomic<int> tid{0}; std::string err; std::thread th;
  void loop() {
    tid = (int)syscall(SYS_gettid);
    for (;;) {
      std::function<void()> f;
      { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { return quit || job; }); if (!job) return; f.swap(job); }
      st = 2;
      try { f(); } catch (pbt::Fail& x) { err = x.msg; } catch (std::exception& x) { err = std::string("unexpected exception: ") + x.what(); }
      st = 3;
    }
  }
  bool parked() {                    // sleeps within the call
    if (st != 2) return false;
    char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", (int)tid);
    FILE* f = fopen(p, "r"); if (!f) return false;
    size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
    char* q = strrchr(b, ')');
    return q && q[2] == 'S' && st == 2;
  }
};
struct Crew {
  std::deque<Worker> w; unsigned n = 0;
  explicit Crew(unsigned k) { grow(k); }
  void grow(unsigned k) { while (n < k) { w.emplace_back(); Worker& x = w.back(); x.th = std::thread([&x] { x.loop(); }); n++; } }
  void tell(unsigned i, std::function<void()> f) { Worker& x = w[i]; finish(i); x.st = 1; { std::lock_guard<std::mutex> lk(x.m); x.job = std::move(f); } x.cv.notify_one(); }
  void finish(unsigned i) { Worker& x = w[i]; for (int k = 0; x.st == 1 || x.st == 2; k++) { if (k < 20) std::this_thread::yield(); else usleep(30); } x.st = 0; if (!x.err.empty()) { std::string e; e.swap(x.err); throw pbt::Fail{e}; } }
  void finish_all() { for (unsigned i = 0; i < n; i++) finish(i); }
  void ask(unsigned i, std::function<void()> f) { tell(i, std::move(f)); finish(i); }
  void sleep_in(unsigned i) {          // until it waits (or is done); it may wait a moment for an internal mutex, so look twice
    for (int k = 0, seen = 0; w[i].st == 1 || w[i].st == 2; k++) { if (w[i].parked()) { if (++seen == 2) return; usleep(20); } else { seen = 0; if (k < 10) std::this_thread::yield(); else usleep(30); } }
  }
  ~Crew() {   // after a failure, threads may wait for ever: leave them
    bool stuck = false;
    for (auto& x : w) if (x.st == 1 || x.st == 2) stuck = true;
    if (stuck) { for (auto& x : w) x.th.detach(); new std::deque<Worker>(std::move(w)); return; }
    for (auto& x : w) { { std::lock_guard<std::mutex> lk(x.m); x.quit = true; } x.cv.notify_one(); }
    for (auto& x : w) x.th.join();
  }
};
template <class P> static void until(P p) { for (int k = 0; !p(); k++) { if (k < 20) std::this_thread::yield(); else usleep(40); } }

// ---- A: many readers at a time, simulated threads
static void as(unsigned long id) { fake_id = id ? 0x100000 + id * 8 : 0; }
static void many_readers(Gen& g, Info& inf) {
  const Type& t = pick(g, RW); Ptr m(t.make()); const char* at = t.name;
  unsigned n = size(g, 300);
  if (g.p(30)) n = g.pick<unsigned>({500, 1000, 4095, 4096, 10000, 10001});
  else if (g.p(12) && !(t.flags & CHK)) n = g.pick<unsigned>({16384, 32767, 32768, 65535, 65536, 65537, 70000});
  Note d; d("%u readers of %s", n, at); inf.desc = d.s; inf.nontrivial = n > 8;
  const unsigned long W = 1000001;
  unsigned probe = 1 + (unsigned)g.draw(n), how = (unsigned)g.draw(4);
  auto refused = [&](unsigned k) {
    as(W); PBT_CHECK(!m->try_lock(), "%s: try_lock succeeds while %u readers hold it", at, k);
    if ((t.flags & TIMED) && how == 1) PBT_CHECK(!m->timed(0), "%s: timed lock succeeds while %u readers hold it", at, k);
  };
  for (unsigned i = 1; i <= n; i++) {
    as(i);
    if (how == 0) m->lock_shared();
    else if (how == 2 && (t.flags & TIMED)) PBT_CHECK(m->timed_shared(0), "%s: timed reader %u refused", at, i);
    else PBT_CHECK(m->try_lock_shared(), "%s: reader %u refused", at, i);
    if (i % probe == 0 || i == n || (i & (i - 1)) == 0) refused(i);
  }
  auto ord = perm(g, n);
  for (unsigned k = 0; k < n; k++) {
    unsigned left = n - k;
    if (left % probe == 0 || left == 1 || (left & (left - 1)) == 0) refused(left);
    as(ord[k] + 1); m->unlock_shared();
  }
  as(W); PBT_CHECK(m->try_lock(), "%s: not free after %u readers left", at, n);
  as(1); PBT_CHECK(!m->try_lock_shared(), "%s: reader admitted beside the writer", at);
  as(W); m->unlock(); as(1); PBT_CHECK(m->try_lock_shared(), "%s: not free again", at); m->unlock_shared(); as(0);
  inf.classes.push_back("readers, simulated threads");
}
// ---- B: a crowd waits for one owner
static void crowd(Gen& g, Info& inf) {
  const Type& t = pick(g, 0, SPIN); Ptr m(t.make()); const char* at = t.name;
  unsigned nr = (t.flags & RW) ? size(g, 300) : 0, nw = nr ? (unsigned)g.draw(4) : size(g, 200);
  bool first_r = g.p(50), timed = (t.flags & TIMED) && g.p(40), mixed = g.p(50);
  if ((t.flags & POSIX) && nr) nw = 0;
  Note d; d("%u readers and %u writers wait for %s", nr, nw, at); inf.desc = d.s; inf.nontrivial = nr + nw > 8;
  Crew c(nr + nw);
  std::atomic<unsigned> rin{0}, win{0}, peak{0}; std::atomic<bool> bad{false};
  long plain = 0;
  m->lock();
  auto reader = [&](unsigned i) { c.tell(i, [&] {
    if (timed && mixed) { if (!m->timed_shared(3600000)) pbt::fail("%s: reader timed out within the hour", at); } else m->lock_shared();
    if (win) bad = true;
    rin++; until([&] { return rin >= nr; });              // all of them at the same time
    if (win) bad = true;
    peak++; until([&] { return peak >= nr; });
    m->unlock_shared(); }); };
  auto writer = [&](unsigned i) { c.tell(i, [&] {
    if (timed) { if (!m->timed(3600000)) pbt::fail("%s: timed out within the hour", at); } else m->lock();
    if (++win != 1) bad = true;
    if (rin && peak < nr) bad = true;
    plain++; std::this_thread::yield();
    if (--win != 0) bad = true;
    m->unlock(); }); };
  bool sync = g.p(60);
  for (unsigned k = 0; k < 2; k++) {
    if ((k == 0) == first_r) for (unsigned i = 0; i < nr; i++) { reader(i); if (sync && i % 16 == 0) c.sleep_in(i); }
    else for (unsigned i = 0; i < nw; i++) { writer(nr + i); if (sync && i % 16 == 0) c.sleep_in(nr + i); }
    if (sync || nr) for (unsigned i = 0; i < nr + nw; i++) if (c.w[i].st) c.sleep_in(i);
  }
  PBT_CHECK(rin == 0 && win == 0 && plain == 0, "%s: acquired while another thread holds it", at);
  m->unlock();
  c.finish_all();
  PBT_CHECK(!bad, "%s: two owners that exclude each other", at);
  PBT_CHECK(plain == (long)nw, "%s: %u writers, %ld acquisitions", at, nw, plain);
  PBT_CHECK(m->try_lock(), "%s: not free at the end", at); m->unlock();
  inf.classes.push_back("crowd waiting for one owner");
}
// ---- C: order of a long queue
static void queue(Gen& g, Info& inf) {
  const Type& t = pick(g, FIFO); Ptr m(t.make()); const char* at = t.name;
  unsigned n = size(g, 200);
  unsigned pr = g.pick<unsigned>({0, 10, 50, 90, 100}), pt = (t.flags & TIMED) ? g.pick<unsigned>({0, 30, 60}) : 0;
  struct Req { bool sh, gone; int grp; }; std::vector<Req> q;
  Note d; d("queue of %u for %s:", n, at);
  Crew c(n);
  std::mutex lg; std::vector<unsigned> order; std::atomic<unsigned> inside{0}; std::vector<std::atomic<unsigned>> gin(n + 1); for (auto& x : gin) x = 0;
  std::vector<unsigned> gsize(n + 1, 0); std::atomic<bool> bad{false}; std::atomic<int> cur{-1};
  m->lock();
  std::vector<int> kind(n);
  for (unsigned i = 0; i < n; i++) {
    bool sh = (t.flags & RW) && g.p(pr); int to = g.p(pt) ? (g.p(50) ? 3600000 : 1 + (int)g.draw(8)) : -1;
    q.push_back({sh, to >= 0 && to < 100, 0});
    if (i < 60) d(" %c%s", sh ? 'R' : 'W', to < 0 ? "" : to < 100 ? "x" : "t");
    c.tell(i, [&, i, sh, to] {
      bool ok = true;
      if (to < 0) m->lock(sh); else ok = sh ? m->timed_shared(to) : m->timed(to);
      if (to >= 0 && to < 100) { if (ok) pbt::fail("%s: timed request granted while another thread holds it", at); return; }
      if (!ok) pbt::fail("%s: timed out within the hour", at);
      { std::lock_guard<std::mutex> lk(lg); order.push_back(i); int gr = q[i].grp; if (cur != gr) { if (cur != gr - 1) bad = true; cur = gr; if (inside) bad = true; } }
      inside++; unsigned gi = (unsigned)q[i].grp; gin[gi]++;
      until([&] { return gin[gi] >= gsize[gi]; });
      inside--; m->unlock(sh); });
    c.sleep_in(i);
  }
  inf.desc = d.s; inf.nontrivial = n > 8;
  unsigned gone = 0; for (unsigned i = 0; i < n; i++) if (q[i].gone) { c.finish(i); gone++; }
  // the groups to expect
  std::deque<unsigned> rest; for (unsigned i = 0; i < n; i++) if (!q[i].gone) rest.push_back(i);
  std::vector<int> exp(n, -1); int gr = 0;
  while (!rest.empty()) {
    std::deque<unsigned> next;
    if (!q[rest[0]].sh) { exp[rest[0]] = gr; gsize[gr] = 1; next.assign(rest.begin() + 1, rest.end()); }
    else { bool run = true; for (unsigned i : rest) { if (!q[i].sh) { run = false; next.push_back(i); } else if ((t.flags & PHASE) || run) { exp[i] = gr; gsize[gr]++; } else next.push_back(i); } }
    rest.swap(next); gr++;
  }
  for (unsigned i = 0; i < n; i++) q[i].grp = exp[i];
  PBT_CHECK(order.empty(), "%s: granted while another thread holds it", at);
  m->unlock();
  c.finish_all();
  if (bad || order.size() != n - gone) {
    std::string s; for (unsigned i = 0; i < order.size() && i < 40; i++) s += " " + std::to_string(order[i]);
    pbt::fail("%s: not granted in the order of the requests:%s", at, s.c_str());
  }
  PBT_CHECK(m->try_lock(), "%s: not free at the end", at); m->unlock();
  inf.classes.push_back("long queue");
}
// ---- D: lock-order graphs of checked mutexes
struct Locks { std::vector<Ptr> v; Any& operator[](size_t i) { return *v[i]; } };
static void graph(Gen& g, Info& inf) {
  bool ring = g.p(60); unsigned n = size(g, 129), extra = g.p(40) ? size(g, 130) : 0, wait = g.p(40) ? size(g, 130) : 0, churn = g.p(40) ? (unsigned)g.draw(400) : 0;
  bool seq = g.p(60), onetype = g.p(30);
  Locks l; std::vector<bool> hs(n), rs(n); const Type* t0 = &pick(g, CHK);
  Note d; d("%s of %u checked mutexes", ring ? "ring" : "chain", n);
  for (unsigned i = 0; i < n; i++) {
    const Type& t = onetype ? *t0 : pick(g, CHK); l.v.emplace_back(t.make());
    hs[i] = (t.flags & RW) && g.p(50); rs[i] = (t.flags & RW) && !hs[i] && g.p(50);
    if (i < 12) d(" %s:%c%c", t.name + 15, hs[i] ? 'S' : 'E', rs[i] ? 'S' : 'E');
  }
  d(", %u more owners, %u more waiters, %u other objects", extra, wait, churn);
  inf.desc = d.s; inf.nontrivial = n > 8;
  auto ord = perm(g, n);
  Crew c(n + extra + wait);
  std::atomic<unsigned> thrown{0}, got{0}; std::atomic<bool> go{false};
  std::vector<Ptr> other;
  auto stir = [&](unsigned k) { for (unsigned i = 0; i < k; i++) { if (other.size() > 5 && i % 3 == 0) { size_t x = (i * 7919u) % other.size(); other[x].swap(other.back()); other.pop_back(); } else { other.emplace_back(t0->make()); if (i % 4 == 1) { other.back()->lock(); other.back()->unlock(); } } } };
  std::vector<unsigned> shared; for (unsigned i = 0; i < n; i++) if (hs[i]) shared.push_back(i);
  std::vector<int> xm(extra, -1); bool focus = g.p(50), first = g.p(50); size_t fx = g.draw(64);
  auto extras = [&] { for (unsigned i = 0; i < extra && !shared.empty(); i++) { unsigned x = shared[(focus ? fx : (size_t)g.draw(64)) % shared.size()]; xm[i] = (int)x; c.ask(n + i, [&, x] { l[x].lock_shared(); }); } };
  if (first) extras();
  for (unsigned i = 0; i < n; i++) c.ask(i, [&, i] { l[i].lock(hs[i]); });
  if (!first) extras();
  stir(churn / 2);
  unsigned last = ring ? n : n - 1;            // thread i < last requests mutex i + 1
  auto request = [&](unsigned i) { c.tell(i, [&, i] {
    unsigned x = (i + 1) % n;
    try { l[x].lock(rs[x]); got++; l[x].unlock(rs[x]); }
    catch (std::system_error& e) { if (e.code() != std::errc::resource_deadlock_would_occur) pbt::fail("wrong error code %d", e.code().value()); thrown++; }
    l[i].unlock(hs[i]); }); };
  for (unsigned i = 0; i < wait; i++) { unsigned x = (unsigned)g.draw(std::min(n, 64u)); if (i % 2 == 0) { c.tell(n + extra + i, [&, x] { l[x].lock(); l[x].unlock(); }); if (seq) c.sleep_in(n + extra + i); } }
  for (unsigned k = 0; k < n; k++) { unsigned i = ord[k]; if (i >= last) continue; request(i); if (seq && k + 1 < n) { c.sleep_in(i); if (churn && k % 8 == 0) stir(churn / 16); } }
  for (unsigned i = 0; i < wait; i++) { unsigned x = (unsigned)g.draw(std::min(n, 64u)); if (i % 2) c.tell(n + extra + i, [&, x] { l[x].lock(); l[x].unlock(); }); }
  if (ring) {
    // no lock can be granted and nobody leaves before a report
    for (long k = 0; thrown == 0; k++) { usleep(50); if (k > 200000) pbt::fail("a cycle of %u threads is not reported", n); }
  } else { if (seq) for (unsigned i = 0; i + 1 < n; i++) c.sleep_in(i); PBT_CHECK(thrown == 0, "a deadlock is reported in an open chain of %u", n); }
  stir(churn / 4);
  for (unsigned i = 0; i < extra; i++) if (xm[i] >= 0) { int x = xm[i]; c.ask(n + i, [&, x] { l[x].unlock_shared(); }); }
  if (!ring) c.ask(n - 1, [&] { l[n - 1].unlock(hs[n - 1]); });
  c.finish_all();
  PBT_CHECK(thrown == (ring ? 1u : 0u), "%s of %u: %u deadlocks reported", ring ? "ring" : "open chain", n, (unsigned)thrown);
  PBT_CHECK(got == last - thrown, "%s of %u: %u requests granted", ring ? "ring" : "chain", n, (unsigned)got);
  for (unsigned i = 0; i < n; i++) { PBT_CHECK(l[i].try_lock(), "%s: not free at the end", l[i].name()); l[i].unlock(); }
  inf.classes.push_back(ring ? "deadlock ring" : "open chain");
}
// ---- E: layers of shared owners, each waiting for the layer above: many paths, no cycle (or one)
static void layers(Gen& g, Info& inf) {
  unsigned L = 2 + (unsigned)g.draw(30), w = 2 + (unsigned)g.draw(3); bool cycle = g.p(50);
  if (L * w > 100) L = 100 / w;
  Note d; d("%u layers of %u shared owners%s", L, w, cycle ? ", closed" : ""); inf.desc = d.s; inf.nontrivial = L * w > 8;
  Locks l; for (unsigned i = 0; i <= L + 1; i++) { l.v.emplace_back(pick(g, CHK | RW).make()); }
  // thread 0 holds 0; threads of layer i share lock i and request lock i - 1; thread 0 then requests lock L + 1, held by the last thread
  Crew c(2 + L * w); unsigned q = 1 + L * w; std::atomic<unsigned> thrown{0}, got{0};
  c.ask(0, [&] { l[0].lock(); }); c.ask(q, [&] { l[L + 1].lock(); });
  for (unsigned i = 0; i < L; i++) for (unsigned k = 0; k < w; k++) c.ask(1 + i * w + k, [&, i] { l[i + 1].lock_shared(); });
  for (unsigned i = 0; i < L; i++) for (unsigned k = 0; k < w; k++) { unsigned x = 1 + i * w + k; c.tell(x, [&, i] {
    try { l[i].lock(); got++; l[i].unlock(); } catch (std::system_error&) { thrown++; }
    l[i + 1].unlock_shared(); }); c.sleep_in(x); }
  auto top = [&](unsigned self, unsigned want, unsigned have) { c.tell(self, [&, want, have] { try { l[want].lock(); got++; l[want].unlock(); } catch (std::system_error&) { thrown++; } l[have].unlock(); }); };
  top(0, L + 1, 0); c.sleep_in(0);
  PBT_CHECK(thrown == 0, "a deadlock is reported, there is none");
  if (cycle) { top(q, L, L + 1); until([&] { return thrown > 0; }); }
  else c.ask(q, [&] { l[L + 1].unlock(); });
  c.finish_all();
  PBT_CHECK(thrown == (cycle ? 1u : 0u), "%u deadlocks reported", (unsigned)thrown);
  PBT_CHECK(got == L * w + (cycle ? 1 : 1), "%u requests granted", (unsigned)got);
  inf.classes.push_back("layered wait-for graph");
}
// ---- F: semaphores, latches and barriers with many participants
template <class S> static void sem_case(Gen& g, Info& inf, const char* at) {
  unsigned n = size(g, 300), init = (unsigned)g.draw(4), timed = g.p(40);
  S s(init); Note d; d("%u threads acquire %s", n, at); inf.desc = d.s; inf.nontrivial = n > 8;
  Crew c(n); std::atomic<unsigned> got{0};
  for (unsigned i = 0; i < n; i++) c.tell(i, [&, i] { if (timed && i % 2) { if (!s.try_acquire_for(std::chrono::hours(1))) pbt::fail("%s: timed out within the hour", at); } else s.acquire(); got++; });
  if (g.p(70)) for (unsigned i = 0; i < n; i++) c.sleep_in(i);
  unsigned sum = init;
  PBT_CHECK(got <= sum, "%s: %u acquired, %u permits", at, (unsigned)got, sum);
  while (sum < n) {
    unsigned k = 1 + (unsigned)g.draw(g.p(50) ? n : 4); if (k > n - sum) k = n - sum;
    if (k == 1) s.release(); else s.release(k);
    sum += k;
    if (g.p(50)) { until([&] { return got >= std::min(sum, n); }); PBT_CHECK(got == std::min(sum, n), "%s: %u acquired, %u permits", at, (unsigned)got, sum); }
  }
  c.finish_all();
  PBT_CHECK(got == n, "%s: %u acquired of %u", at, (unsigned)got, n);
  unsigned left = sum - n; for (unsigned i = 0; i < left; i++) PBT_CHECK(s.try_acquire(), "%s: a permit is missing", at);
  PBT_CHECK(!s.try_acquire(), "%s: a permit too many", at);
  inf.classes.push_back("semaphore crowd");
}
static void latch_case(Gen& g, Info& inf) {
  unsigned n = size(g, 300), k = size(g, 200); Note d; d("%u wait, %u count down", n, k); inf.desc = d.s + " yamc::latch"; inf.nontrivial = n > 8 || k > 8;
  bool arrive = g.p(50);
  yamc::latch l(k); Crew c(n + k); std::atomic<unsigned> out{0}, down{0}; std::atomic<bool> bad{false};
  for (unsigned i = 0; i < n; i++) c.tell(i, [&] { l.wait(); if (down < k) bad = true; out++; });
  if (g.p(70)) for (unsigned i = 0; i < n; i++) c.sleep_in(i);
  for (unsigned i = 0; i < k; i++) { c.tell(n + i, [&, i] { down++; if (arrive) { l.arrive_and_wait(); if (down < k) bad = true; } else l.count_down(); }); if (arrive ? false : i + 1 < k && i % 16 == 0) { c.finish(n + i); PBT_CHECK(out == 0, "opened by %u of %u", i + 1, k); } }
  c.finish_all();
  PBT_CHECK(!bad && out == n && l.try_wait(), "opened too early, or not for all");
  inf.classes.push_back("latch crowd");
}
static std::atomic<unsigned> comps{0};
struct Comp { void operator()() noexcept { comps++; } };
static void barrier_case(Gen& g, Info& inf) {
  unsigned n = size(g, 200), ph = 1 + (unsigned)g.draw(4), drop = (unsigned)g.draw(3) * (n / 3);
  Note d; d("barrier of %u, %u phases, %u dropping", n, ph, drop); inf.desc = d.s; inf.nontrivial = n > 8;
  comps = 0; yamc::barrier<Comp> b(n); Crew c(n); std::vector<std::atomic<unsigned>> in(ph + 1); for (auto& x : in) x = 0;
  std::atomic<bool> bad{false};
  std::vector<std::vector<unsigned>> how(n, std::vector<unsigned>(1));
  for (unsigned i = 0; i < n; i++) { unsigned last = i < drop ? i % ph : ph; unsigned h = (unsigned)g.draw(2);
    c.tell(i, [&, i, last, h] { for (unsigned p = 0; p < ph; p++) {
      unsigned need = n; for (unsigned j = 0; j < drop; j++) if (j % ph < p) need--;
      in[p]++;
      if (p == last) { b.arrive_and_drop(); return; }
      if (h) b.arrive_and_wait(); else b.wait(b.arrive());
      if (in[p] < need || comps < p + 1) bad = true; } }); }
  c.finish_all();
  PBT_CHECK(!bad, "released before all had arrived");
  PBT_CHECK(comps == ph || (drop == n && comps <= ph), "%u phases, the completion function ran %u times", ph, (unsigned)comps);
  inf.classes.push_back("barrier crowd");
}
// ---- G: many objects held at once, many short-lived threads
static void objects(Gen& g, Info& inf) {
  const Type* t0 = &pick(g, 0, POSIX); bool one = g.p(50);
  unsigned n = size(g, 300); if (g.p(40)) n *= g.pick<unsigned>({2, 4, 10, 16});
  unsigned ids = g.p(50) ? 1 : size(g, 300);
  Note d; d("%u objects (%s) held by %u threads", n, one ? t0->name : "mixed", ids); inf.desc = d.s; inf.nontrivial = n > 8;
  Locks l; std::vector<unsigned> own(n), cnt(n, 1); std::vector<bool> sh(n);
  for (unsigned i = 0; i < n; i++) {
    const Type& t = one ? *t0 : types[g.draw(NT - 4)]; l.v.emplace_back(t.make());
    own[i] = ids == 1 ? 1 : 1 + i % ids; sh[i] = (t.flags & RW) && (i % 3 == 0);
    as(own[i]); if (i % 2) l[i].lock(sh[i]); else PBT_CHECK(sh[i] ? l[i].try_lock_shared() : l[i].try_lock(), "%s: fresh object refuses", t.name);
    if ((t.flags & REC) && !(t.flags & POSIX) && i % 5 == 0) { l[i].lock(); cnt[i]++; }
  }
  auto ord = perm(g, n);
  for (unsigned k = 0; k < n; k++) {
    unsigned i = ord[k]; Any& m = l[i];
    as(5000); PBT_CHECK(!m.try_lock(), "%s: acquired while held", m.name());
    as(own[i]); for (unsigned x = 0; x < cnt[i]; x++) m.unlock(sh[i]);
    as(5001); PBT_CHECK(m.try_lock(), "%s: not free after unlock", m.name()); m.unlock();
    if (k % 2) l.v[i].reset();
  }
  as(0);
  inf.classes.push_back("many objects");
}
// ---- objects and threads that are gone leave nothing behind
static void residue(Gen& g, Info& inf) {
  const Type* t0 = &pick(g, 0, POSIX); bool one = g.p(50); unsigned n = size(g, 300), ids = size(g, 300), rounds = 2 + (unsigned)g.draw(4), uses = (unsigned)g.draw(300);
  Note d; d("%u rounds of %u objects (%s) used by %u threads", rounds, n, one ? t0->name : "mixed", ids); inf.desc = d.s; inf.nontrivial = n > 8;
  std::vector<Ptr> v, keep; v.reserve(n * rounds); keep.reserve(rounds);
  long base = 0; unsigned long id = 1;
  for (unsigned r = 1; r <= rounds; r++) {
    for (unsigned i = 0; i < n * r; i++) v.emplace_back((one ? *t0 : types[(i * 7 + r) % (NT - 4)]).make());
    for (unsigned k = 0; k < n + uses; k++) {
      Any& m = *v[(k * 31u) % v.size()]; bool sh = (m.flags() & RW) && k % 3 == 0;
      as(id); id = id % (ids * r) + 1;
      if (k % 4 == 0) m.lock(sh); else if (!(sh ? m.try_lock_shared() : m.try_lock())) pbt::fail("%s: refuses although free", m.name());
      as(100000); PBT_CHECK(!m.try_lock(), "%s: acquired while held", m.name());
      if (m.flags() & TIMED) PBT_CHECK(!m.timed(0), "%s: acquired while held", m.name());
      as(id == 1 ? ids * r : id - 1); m.unlock(sh);
    }
    as(0);
    if (g.p(50)) std::reverse(v.begin(), v.end());
    v.clear();
    if (r == 1) base = live;
    else PBT_CHECK(live <= base + 3, "%ld blocks of memory are left behind by objects that are gone (%s)", (long)live - base, one ? t0->name : "mixed");
  }
  inf.classes.push_back("residue of objects that are gone");
}
// ---- H: contention
static void contention(Gen& g, Info& inf) {
  const Type& t = pick(g, 0); Ptr m(t.make()); const char* at = t.name;
  unsigned n = size(g, (t.flags & SPIN) ? 64 : 200), ops = 1 + (unsigned)g.draw(8); unsigned seed = (unsigned)g.draw(1000);
  Note d; d("%u threads x %u on %s", n, ops, at); inf.desc = d.s; inf.nontrivial = n > 8;
  Crew c(n); std::atomic<int> w{0}, r{0}; std::atomic<bool> bad{false}, go{false}; long plain = 0; std::atomic<long> total{0};
  for (unsigned i = 0; i < n; i++) c.tell(i, [&, i] {
    pbt::Rng q{seed * 1000003ull + i}; until([&] { return go.load(); });
    for (unsigned k = 0; k < ops; k++) {
      bool sh = (t.flags & RW) && q.below(2); unsigned how = (unsigned)q.below(4); bool ok = true;
      if (how == 0) ok = sh ? m->try_lock_shared() : m->try_lock();
      else if (how == 1 && (t.flags & TIMED)) ok = sh ? m->timed_shared(1) : m->timed(1);
      else m->lock(sh);
      if (!ok) continue;
      if (sh) { r++; if (w) bad = true; long a = plain; std::this_thread::yield(); if (a != plain || w) bad = true; r--; }
      else { if (w.fetch_add(1) != 0 || r) bad = true; long a = plain; if (q.below(4) == 0) std::this_thread::yield(); plain = a + 1; total++; if (r) bad = true; w--; }
      if ((t.flags & REC) && !sh && q.below(3) == 0) { m->lock(); m->unlock(); }
      m->unlock(sh);
    } });
  go = true;
  c.finish_all();
  PBT_CHECK(!bad, "%s: two owners that exclude each other", at);
  PBT_CHECK(plain == total, "%s: an update made under the lock is lost", at);
  PBT_CHECK(m->try_lock(), "%s: not free at the end", at); m->unlock();
  inf.classes.push_back("contention");
}
// ---- I: many locks at once
template <class M> static void scoped_case(Gen& g, Info& inf, const char* at) {
  unsigned n = size(g, 64), seed = (unsigned)g.draw(1000); Note d; d("scoped_lock of 12 %s by %u threads", at, n); inf.desc = d.s; inf.nontrivial = true;
  std::vector<std::unique_ptr<M>> v; for (int i = 0; i < 12; i++) v.emplace_back(new M);
  Crew c(n); std::atomic<int> in[12]; for (auto& x : in) x = 0; std::atomic<bool> bad{false};
  for (unsigned i = 0; i < n; i++) c.tell(i, [&, i] {
    pbt::Rng q{seed * 77ull + i}; 
    for (int k = 0; k < 3; k++) {
      unsigned o[12]; for (unsigned j = 0; j < 12; j++) o[j] = j; for (unsigned j = 12; j > 1; j--) std::swap(o[j - 1], o[q.below(j)]);
      unsigned used = 12;
#define X(j) *v[o[j]]
      auto body = [&] { for (unsigned j = 0; j < used; j++) if (in[o[j]].fetch_add(1)) bad = true; std::this_thread::yield(); for (unsigned j = 0; j < used; j++) in[o[j]]--; };
      switch (q.below(3)) {
      case 0: { used = 12; yamc::scoped_lock<M, M, M, M, M, M, M, M, M, M, M, M> l(X(0), X(1), X(2), X(3), X(4), X(5), X(6), X(7), X(8), X(9), X(10), X(11)); body(); break; }
      case 1: { used = 9; yamc::scoped_lock<M, M, M, M, M, M, M, M, M> l(X(0), X(1), X(2), X(3), X(4), X(5), X(6), X(7), X(8)); body(); break; }
      default: { used = 3; yamc::scoped_lock<M, M, M> l(X(0), X(1), X(2)); body(); break; }
      }
    } });
  c.finish_all();
  PBT_CHECK(!bad, "scoped_lock of %s does not hold all its locks", at);
  for (auto& x : v) { PBT_CHECK(x->try_lock(), "%s: not free at the end", at); x->unlock(); }
  inf.classes.push_back("many locks at once");
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);      // reports of deadlocks
  return pbt::run(argc, argv, "2 to 300 real threads, up to 70000 simulated owners, up to 4800 objects; non-trivial: more than 8 take part (more than the model-based drivers use); distinct by the choices made",
    [](Gen& g, Info& inf) {
      unsigned k = (unsigned)g.draw(16);
      switch (k) {
      case 0: case 1: return many_readers(g, inf);
      case 2: case 3: return crowd(g, inf);
      case 4: case 5: case 6: return queue(g, inf);
      case 7: case 8: case 9: return graph(g, inf);
      case 10: return layers(g, inf);
      case 11: switch (g.draw(4)) { case 0: return sem_case<yamc::counting_semaphore<>>(g, inf, "yamc::counting_semaphore"); case 1: return sem_case<yamc::posix::counting_semaphore<>>(g, inf, "yamc::posix::counting_semaphore"); case 2: return latch_case(g, inf); default: return barrier_case(g, inf); }
      case 12: return g.draw(2) ? barrier_case(g, inf) : latch_case(g, inf);
      case 13: return g.draw(2) ? residue(g, inf) : objects(g, inf);
      case 14: return contention(g, inf);
      default: switch (g.draw(4)) { case 0: return scoped_case<yamc::fair::mutex>(g, inf, "yamc::fair::mutex"); case 1: return scoped_case<yamc::alternate::timed_mutex>(g, inf, "yamc::alternate::timed_mutex"); case 2: return scoped_case<yamc::spin_ttas::mutex>(g, inf, "yamc::spin_ttas::mutex"); default: return scoped_case<yamc::alternate::shared_mutex>(g, inf, "yamc::alternate::shared_mutex"); }
      }
    }, 60);
}
