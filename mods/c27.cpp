// C27: one process per case. The plan (environment variable C27, numbers) says which objects live where and who uses them when:
// during static initialisation, in main, in threads, in exit handlers, in destructors of thread-local and static objects.
#include "c27.h"
#if TU == 0
#include "checked_mutex.hpp"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "naive_spin_mutex.hpp"
#include "posix_native_mutex.hpp"
#include "yamc_barrier.hpp"
#elif TU == 1
#include "checked_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "yamc_semaphore.hpp"
#include "posix_semaphore.hpp"
#include "yamc_latch.hpp"
#endif
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"

#if TU == 0
static const char* g_at; static char g_log[6000]; static size_t g_loglen; static int g_uses, g_exituses;
Ent g_ent[NENT]; int g_nent; static std::vector<uintptr_t>* g_seen;
unsigned draw(unsigned n) {
  if (!g_at) { g_at = getenv("C27"); if (!g_at) g_at = ""; }
  char* e; unsigned long v = strtoul(g_at, &e, 10); if (e == g_at) return 0; g_at = e; return n ? v % n : 0;
}
void note(const char* f, ...) { va_list a; va_start(a, f); if (g_loglen + 200 < sizeof g_log) g_loglen += vsnprintf(g_log + g_loglen, 180, f, a); va_end(a); }
static void say(const char* t) { size_t n = strlen(t); while (n) { ssize_t k = write(1, t, n); if (k <= 0) break; t += k; n -= k; } }
void fail(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); say("FAIL "); say(b); say(" ["); say(g_log); say("]\n"); _exit(1); }
int g_phase; static const char* phn[] = {"static initialisation", "main", "exit handler", "thread-local destructor", "static destructor"};
void phase(int p) { g_phase = p; note("; %s:", phn[p]); }
struct Last { ~Last() { char b[100]; snprintf(b, sizeof b, "DONE uses=%d exit=%d\n", g_uses, g_exituses); say(b); say(g_log); say("\n"); } } last_;   // first constructed, last destroyed

// a backoff policy that uses another lock of the library
struct Nest { struct state { int n = 0; }; static void wait(state& s) { static yamc::alternate::timed_mutex& m = *new yamc::alternate::timed_mutex; m.lock(); s.n++; m.unlock(); std::this_thread::yield(); } };
// ---- the other thread: started for the job, or one that is never joined and lives on during exit
struct Pool { std::mutex g; std::condition_variable cv; std::function<void()> job; bool has = false, done = false; };
static Pool* pool; static bool use_pool, pool_busy; static std::thread* fresh;
void start(std::function<void()> f) {
  if (use_pool && !pool) { pool = new Pool; std::thread([] { Pool& p = *pool; for (;;) { std::unique_lock<std::mutex> l(p.g); p.cv.wait(l, [&] { return p.has; }); p.has = false; auto j = p.job; l.unlock(); j(); l.lock(); p.done = true; p.cv.notify_all(); } }).detach(); }
  if (use_pool) { std::lock_guard<std::mutex> l(pool->g); pool->job = f; pool->has = true; pool->done = false; pool->cv.notify_all(); pool_busy = true; }
  else fresh = new std::thread(f);
}
void finish() {
  if (pool_busy) { std::unique_lock<std::mutex> l(pool->g); pool->cv.wait(l, [] { return pool->done; }); pool_busy = false; }
  else { fresh->join(); delete fresh; fresh = nullptr; }
}
template <class F> struct Ret { F f; int r = -9; };
int ask(std::function<int()> f) { int r = -9; start([&] { r = f(); }); finish(); return r; }

static int pick(int want) {          // an object that lives now; -1: none
  int n = 0; for (int i = 0; i < g_nent; i++) n += g_ent[i].alive && (g_ent[i].p->flags() & want) == want;
  if (!n) return -1;
  int k = draw(n); for (int i = 0; i < g_nent; i++) if (g_ent[i].alive && (g_ent[i].p->flags() & want) == want && !k--) return i;
  return -1;
}
#define EXPECT(c, what) do { if (!(c)) fail("%s of %s (%s) during %s: %s", opn, o.name(), stn[e.storage], phn[g_phase], what); } while (0)
static const char* stn[] = {"static", "function-local static", "thread_local", "leaked", "heap"};
static void deadlock(int i, int j) {
  Ent &e = g_ent[i], &e2 = g_ent[j]; Any &o = *e.p, &q = *e2.p; const char* opn = "deadlock with another checked mutex";
  note(" deadlock #%d %s, #%d %s", i, o.name(), j, q.name());
  std::atomic<int> st{0}; int r = -1, s = -1;
  start([&] { q.lock(); st = 1; while (st != 2) std::this_thread::yield(); r = o.lock(); if (r == 0) o.unlock(); q.unlock(); });
  while (!st) std::this_thread::yield();
  o.lock(); st = 2; s = q.lock(); if (s == 0) q.unlock(); o.unlock(); finish();
  EXPECT((r == EDEADLK) + (s == EDEADLK) == 1 && (r == 0) + (s == 0) == 1, "is not reported to exactly one of the two");
}
void release_held(int i) { Ent& e = g_ent[i]; while (e.held) { note(" unlock #%d", i); if (e.p->unlock()) fail("unlock of %s held since an earlier phase throws", e.p->name()); e.held--; } }
void use(bool owner) {
  int i = pick(0); use_pool = draw(2);
  if (i < 0) return;
  Ent& e = g_ent[i]; Any& o = *e.p; int f = o.flags(), k = draw(10); g_uses++; if (g_phase >= 2) g_exituses++;
  if (f & OTHER) { const char* opn = "use"; note(" use #%d %s", i, o.name()); int c = pick(MTX); if (c >= 0 && g_ent[c].held) c = -1; std::string m = o.script(c >= 0 ? g_ent[c].p : nullptr); EXPECT(m.empty(), m.c_str()); return; }
  const char* opn = "use";
  if (e.held) {                        // held by the main thread since an earlier phase
    note(" try #%d held", i);
    EXPECT(ask([&] { return o.try_lock(); }) == 0, "acquired although held since an earlier phase");
    if (owner) release_held(i); else return;
    EXPECT(ask([&] { int r = o.try_lock(); if (r) o.unlock(); return r; }) == 1, "not free after the unlock in a later phase");
    return;
  }
  note(" op%d #%d %s", k, i, o.name());
  switch (k) {
  case 0: opn = "lock"; o.lock(); EXPECT(ask([&] { return o.try_lock(); }) == 0, "try_lock succeeds while held"); EXPECT(!o.unlock(), "unlock throws"); EXPECT(ask([&] { int r = o.try_lock(); if (r) o.unlock(); return r; }) == 1, "not free after unlock"); break;
  case 1: { opn = "blocking lock"; std::atomic<int> st{0}; o.lock(); start([&] { st = 1; o.lock(); st = 2; o.unlock(); }); while (!st) std::this_thread::yield(); if (draw(2)) usleep(300); EXPECT(st != 2, "acquired while held"); o.unlock(); finish(); break; }
  case 2: opn = "try_lock"; EXPECT(o.try_lock() == 1, "fails on a free lock"); o.unlock(); break;
  case 3: if (f & TIMED) { opn = "timed lock"; o.lock(); EXPECT(ask([&] { return o.timed(1, false); }) == 0, "acquired while held"); o.unlock(); EXPECT(ask([&] { int r = o.timed(3600000, false); if (r) o.unlock(); return r; }) == 1, "fails on a free lock"); } break;
  case 4: if (f & RW) { opn = "shared lock"; o.lock_shared(); EXPECT(ask([&] { return o.try_lock(); }) == 0, "try_lock succeeds while shared"); EXPECT(ask([&] { int r = o.try_lock_shared(); if (r) o.unlock_shared(); return r; }) == 1, "second reader refused"); if (f & TIMED) EXPECT(ask([&] { return o.timed(1, false); }) == 0, "timed lock succeeds while shared"); o.unlock_shared(); EXPECT(o.try_lock() == 1, "not free after unlock_shared"); if (f & TIMED) EXPECT(ask([&] { return o.timed(1, true); }) == 0, "timed shared lock succeeds while held"); o.unlock(); } break;
  case 5: if (f & REC) { opn = "recursive lock"; o.lock(); EXPECT(o.try_lock() == 1, "re-acquisition refused"); o.unlock(); EXPECT(ask([&] { return o.try_lock(); }) == 0, "free after one of two unlocks"); o.unlock(); EXPECT(ask([&] { int r = o.try_lock(); if (r) o.unlock(); return r; }) == 1, "not free after the last unlock"); } break;
  case 6: if (f & CHK) { opn = "misuse"; EXPECT(o.unlock() == EPERM, "unlock of a free lock is not reported"); o.lock(); EXPECT(ask([&] { return o.unlock(); }) == EPERM, "unlock by another thread is not reported"); if (!(f & REC)) EXPECT(o.lock() == EDEADLK, "re-acquisition is not reported"); EXPECT(!o.unlock(), "unlock throws"); } break;
  case 7: if (f & CHK) { int j = pick(CHK); if (j >= 0 && j != i && !g_ent[j].held) deadlock(i, j); } break;
  case 8: if (owner) { opn = "lock kept over phases"; o.lock(); e.held = 1; } break;
  default: { opn = "free-standing use"; int n = 1 + draw(5); for (int x = 0; x < n; x++) { EXPECT(!o.lock(), "lock throws"); EXPECT(!o.unlock(), "unlock throws"); } break; }
  }
}
void some_uses(bool owner) { for (int n = draw(4); n > 0; n--) use(owner); }
Any* make_b(int type, void* buf);
Any* make(int type, void* buf) {
  switch (type) {
#define T(i, ...) case i: return new (buf) Impl<__VA_ARGS__>(#__VA_ARGS__);
  T(0, yamc::checked::mutex, CHK) T(1, yamc::checked::recursive_timed_mutex, CHK | REC | TIMED) T(2, yamc::alternate::recursive_mutex, REC)
  T(3, yamc::alternate::timed_mutex, TIMED) T(4, yamc::alternate::shared_timed_mutex, RW | TIMED) T(5, yamc::alternate::basic_shared_mutex<yamc::rwlock::WriterPrefer>, RW)
  T(6, yamc::spin::mutex, 0) T(7, yamc::posix::native_mutex, TIMED) T(8, yamc::posix::rwlock, RW | TIMED) T(9, yamc::posix::spinlock, 0) T(10, yamc::posix::native_recursive_mutex, REC | TIMED)
#undef T
  case 26: return new (buf) Impl<yamc::spin_weak::basic_mutex<Nest>, 0>("yamc::spin_weak::basic_mutex<user policy>");
  case 11: { struct B : Any { struct Fn { B* b; void operator()() noexcept { b->comp(); } }; yamc::barrier<Fn> x; Any* other = nullptr; std::atomic<int> n{0};
      B() : x(2, Fn{this}) {} void comp() { n++; if (other) { other->lock(); other->unlock(); } }
      const char* name() const override { return "yamc::barrier"; } int flags() const override { return OTHER; }
      std::string script(Any* o) override { other = o; int k = draw(3), c0 = n; std::atomic<int> st{0}; start([&] { for (int i = 0; i <= k; i++) { x.arrive_and_wait(); st = i + 1; } });
        std::string m; for (int i = 0; i <= k; i++) { if (n != c0 + i || st > i) m = "phase completed early"; if (i & 1) x.wait(x.arrive()); else x.arrive_and_wait(); if (n < c0 + i + 1) m = "released before the completion function ran"; while (st < i + 1) std::this_thread::yield(); } finish(); if (n != c0 + k + 1) m = "completion function did not run once per phase"; return m; } };
    return new (buf) B; }
  default: return make_b(type - 12, buf);
  }
}
Slot::Slot(int storage) {
  int type = draw(NTYPE), fill = draw(4); id = g_nent < NENT ? g_nent++ : -1;
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xa5 : (unsigned char)(i * 37 + 11);
  p = make(type, buf); note(" +#%d %s %s", id, stn[storage], p->name());
  if (id >= 0) { g_ent[id].p = p; g_ent[id].storage = storage; g_ent[id].alive = true; }
}
Slot::~Slot() { if (id >= 0) { release_held(id); g_ent[id].alive = false; } note(" -#%d", id); p->~Any(); memset(buf, 0x5a, sizeof buf); }
#elif TU == 1
Any* make_b(int type, void* buf) {
  switch (type) {
#define T(i, ...) case i: return new (buf) Impl<__VA_ARGS__>(#__VA_ARGS__);
  T(0, yamc::checked::timed_mutex, CHK | TIMED) T(1, yamc::checked::recursive_mutex, CHK | REC) T(2, yamc::checked::shared_timed_mutex, CHK | RW | TIMED) T(3, yamc::checked::basic_shared_mutex<yamc::rwlock::WriterPrefer>, CHK | RW)
  T(4, yamc::fair::mutex, 0) T(5, yamc::fair::recursive_timed_mutex, REC | TIMED) T(6, yamc::fair::shared_timed_mutex, RW | TIMED) T(7, yamc::fair::basic_shared_mutex<yamc::rwlock::TaskFairness>, RW)
  T(8, yamc::spin_ttas::mutex, 0) T(9, yamc::fair::recursive_mutex, REC) T(10, yamc::fair::timed_mutex, TIMED) T(11, yamc::checked::mutex, CHK)
#undef T
  case 12: return new (buf) Sem<yamc::counting_semaphore<>>("yamc::counting_semaphore");
  case 13: return new (buf) Sem<yamc::posix::counting_semaphore<>>("yamc::posix::counting_semaphore");
  default: { struct L : Any { yamc::latch x; long n; L() : x(6), n(6) {} const char* name() const override { return "yamc::latch"; } int flags() const override { return OTHER; }
      std::string script(Any*) override { long k = draw(4); if (k > n) k = n; if (n && x.try_wait()) return "open too early";
        if (n && k == n) { std::atomic<int> st{0}; start([&] { x.wait(); st = 1; }); if (draw(2)) usleep(200); if (st) return "wait returned too early"; x.count_down(k); finish(); } else x.count_down(k);
        n -= k; if (!n) { x.wait(); if (!x.try_wait()) return "closed at zero"; } return ""; } };
    return new (buf) L; }
  }
}
#endif
// ---- every translation unit: objects with static storage, uses between their constructions and their destructions
struct Phase { Phase() { phase(0); some_uses(true); } ~Phase() { phase(4); some_uses(true); } };
static Phase p1_;
static Slot s1_(0);
static Phase p2_;
static Slot s2_(0);
static Phase p3_;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(local_, TU)() { static Slot s(1); static Phase after; }
struct TlPhase { TlPhase() {} ~TlPhase() { phase(3); some_uses(true); } };
struct TlPhase2 { TlPhase2() {} ~TlPhase2() { phase(3); some_uses(false); } };
void CAT(tls_, TU)(bool main) { if (main) { static thread_local TlPhase b; static thread_local Slot s(2); static thread_local TlPhase a; (void)b; (void)a; (void)s.id; } else { static thread_local TlPhase2 b; static thread_local Slot s(2); static thread_local TlPhase2 a; (void)b; (void)a; (void)s.id; } }
#if TU == 2
extern void local_0(); extern void local_1(); extern void tls_0(bool); extern void tls_1(bool);
static void leak() { new Slot(3); }
static struct EarlyLeak { EarlyLeak() { if (draw(2)) leak(); } } early_;
static void handler() { phase(2); some_uses(true); if (draw(3) == 0) leak(); some_uses(true); }
int main() {
  phase(1);
  int n = 2 + draw(8); Slot* heap[16]; int nh = 0;
  for (int i = 0; i < n; i++) {
    switch (draw(9)) {
    case 0: leak(); break;
    case 1: local_0(); break;
    case 2: local_1(); break;
    case 3: tls_0(true); break;
    case 4: tls_1(true); break;
    case 5: atexit(handler); break;
    case 6: if (nh < 16) heap[nh++] = new Slot(4); break;
    case 7: if (nh) delete heap[--nh]; break;
    default: { bool k = draw(2); std::thread([&] { if (k) tls_0(false); else tls_1(false); some_uses(false); }).join(); phase(1); } break;
    }
    some_uses(true);
  }
  while (nh) delete heap[--nh];
  if (draw(3) == 0) { local_2(); }
  if (draw(4) == 0) exit(0);
  return 0;
}
#endif
