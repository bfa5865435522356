// C19: backoff policies and spinlocks with any policy. Built with a generated list of initial counts.
#include "pbt.h"
#include <atomic>
#include <thread>
#include <chrono>
#include <new>
#include <memory>

static thread_local long t_yields;                 // sched_yield calls of this thread
static thread_local void (*t_on_yield)();
extern "C" int sched_yield() noexcept { t_yields++; if (t_on_yield) t_on_yield(); return 0; }

// a user-defined policy around another one: observes every wait
struct Obs {
  long waits; long release_at; void (*release)(void*); void* m;
  std::vector<long> yields_at; long prev_state_waits; bool stale, jump;
};
static Obs g_obs;
static void observe(long nth, long) {
  if (g_obs.waits == 0) { if (nth != 0) g_obs.stale = true; }
  else if (nth != g_obs.prev_state_waits + 1) g_obs.jump = true;
  g_obs.prev_state_waits = nth;
  g_obs.waits++;
  if (g_obs.waits > 60000000) pbt::fail("lock() waited 60000000 times although the lock became free at wait %ld", g_obs.release_at);
}
struct NoBase { struct state {}; static void wait(state&) {} };
template <class Base> struct Hooked {
  struct state {
    typename Base::state s; long n = 0;
    state() {}
    state(const state&) = delete; state& operator=(const state&) = delete;
    ~state() { n = -1000000; }
  };
  static void wait(state& st) {
    observe(st.n++, 0);
    long y = t_yields;
    Base::wait(st.s);
    if (t_yields != y) g_obs.yields_at.push_back(g_obs.waits);
    if (g_obs.waits == g_obs.release_at) g_obs.release(g_obs.m);
  }
};
using UserDefault = Hooked<NoBase>;
#ifdef CFG_HOOK
#define YAMC_BACKOFF_SPIN_DEFAULT UserDefault
#endif
#ifdef CFG_TTAS_FIRST
#include "ttas_spin_mutex.hpp"
#include "naive_spin_mutex.hpp"
#else
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#endif
#ifndef CFG_INIT
#define CFG_INIT 4000
#endif
#ifndef CFG_HUGE
#define CFG_HUGE 0
#endif
namespace bo = yamc::backoff;

struct Policy {
  std::string name; uint64_t n; int kind;          // kind 0 exponential<n>, 1 yield, 2 busy, 3 user
  // yields of `waits` calls on two interleaved states; chunks alternate
  void (*direct)(const std::vector<uint64_t>& chunks, std::vector<uint64_t>* ya, std::vector<uint64_t>* yb);
  struct Fam { void* (*make)(); void (*del)(void*); void (*lock)(void*); bool (*tr)(void*); void (*unlock)(void*); } plain[3], hooked[3];
};
template <class P> void direct(const std::vector<uint64_t>& chunks, std::vector<uint64_t>* ya, std::vector<uint64_t>* yb) {
  typename P::state sa, sb; uint64_t ia = 0, ib = 0; bool a = true;
  for (auto n : chunks) {
    auto& s = a ? sa : sb; auto& i = a ? ia : ib; auto* y = a ? ya : yb;
    for (uint64_t k = 0; k < n; k++) { long y0 = t_yields; P::wait(s); i++; long d = t_yields - y0; if (d > 1) pbt::fail("%ld yields in one wait", d); if (d) y->push_back(i); }
    a = !a;
  }
}
template <class M> Policy::Fam fam() {
  return { [] { return (void*)new M; }, [](void* p) { delete (M*)p; }, [](void* p) { ((M*)p)->lock(); }, [](void* p) { return ((M*)p)->try_lock(); }, [](void* p) { ((M*)p)->unlock(); } };
}
template <class P> Policy mk(std::string name, uint64_t n, int kind) {
  Policy p; p.name = name; p.n = n; p.kind = kind; p.direct = direct<P>;
  p.plain[0] = fam<yamc::spin::basic_mutex<P>>(); p.plain[1] = fam<yamc::spin_weak::basic_mutex<P>>(); p.plain[2] = fam<yamc::spin_ttas::basic_mutex<P>>();
  using H = Hooked<P>;
  p.hooked[0] = fam<yamc::spin::basic_mutex<H>>(); p.hooked[1] = fam<yamc::spin_weak::basic_mutex<H>>(); p.hooked[2] = fam<yamc::spin_ttas::basic_mutex<H>>();
  return p;
}
static std::vector<Policy>& policies() {
  static std::vector<Policy> v;
  if (v.empty()) {
    v.push_back(mk<bo::yield>("yield", 0, 1));
    v.push_back(mk<bo::busy>("busy", 0, 2));
    v.push_back(mk<NoBase>("user-defined", 0, 3));
    v.push_back(mk<bo::exponential<>>("exponential<>", CFG_INIT, 0));
#define X(N) v.push_back(mk<bo::exponential<N>>("exponential<" #N ">", N##ull, 0));
#include "c19_n.inc"
#undef X
  }
  return v;
}
static const char* famname[] = {"spin", "spin_weak", "spin_ttas"};

// first yield after n waits, then at intervals halving down to one; w = waits made
static void check_yields(const Policy& p, const std::vector<uint64_t>& y, uint64_t w, const char* where) {
  if (p.kind == 1) { PBT_CHECK(y.size() == w, "%s %s: %zu yields in %llu waits", where, p.name.c_str(), y.size(), (unsigned long long)w); return; }
  if (p.kind >= 2) { PBT_CHECK(y.empty(), "%s %s: yields at wait %llu", where, p.name.c_str(), (unsigned long long)y[0]); return; }
  uint64_t prev = 0, d = p.n; size_t k = 0; int left = 0;
  for (uint64_t x = p.n; x > 1; x >>= 1) left++;
  left += 2;
  for (uint64_t at : y) {
    uint64_t dd = at - prev;
    if (k == 0) PBT_CHECK(at == p.n + 1, "%s %s: first yield at wait %llu, that is after %llu waits", where, p.name.c_str(), (unsigned long long)at, (unsigned long long)at - 1);
    else {
      int64_t e = (int64_t)(2 * dd) - (int64_t)d;
      PBT_CHECK(e >= -2 && e <= 2, "%s %s: interval %llu (yield %zu) follows interval %llu", where, p.name.c_str(), (unsigned long long)dd, k + 1, (unsigned long long)d);
      PBT_CHECK(dd == 1 || (int)k <= left, "%s %s: interval still %llu at yield %zu", where, p.name.c_str(), (unsigned long long)dd, k + 1);
      d = dd;
    }
    prev = at; k++;
  }
  if (y.empty()) { PBT_CHECK(w <= p.n, "%s %s: no yield in %llu waits", where, p.name.c_str(), (unsigned long long)w); return; }
  uint64_t lim = d / 2 + 1; if (lim < 1) lim = 1;
  PBT_CHECK(w - prev <= lim, "%s %s: no yield during the last %llu waits, the interval was %llu", where, p.name.c_str(), (unsigned long long)(w - prev), (unsigned long long)d);
}

static std::string show(const std::vector<uint64_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(v[i]); if (v.size() > 12) s += ",..."; return s; }

static void one(pbt::Gen& g, pbt::Info& inf) {
  auto& P = policies();
  int kind = (int)g.draw(8);
  t_on_yield = nullptr;
  if (kind <= 2) {            // the policy alone: two states used alternately
    const Policy& p = P[g.draw(P.size())];
    std::vector<uint64_t> ch;
    uint64_t span = p.kind == 0 ? 2 * p.n + 64 : 200;
    bool huge = p.n > 4000000 && !(CFG_HUGE && g.draw(100) == 99);
    int parts = 1 + (int)g.draw(6);
    uint64_t tot[2] = {0, 0};
    for (int i = 0; i < parts; i++) { uint64_t w; switch (g.draw(4)) { case 0: w = span; break; case 1: w = g.draw(span + 1); break; case 2: w = p.n + g.draw(3); break; default: w = g.draw(20); }
      if (p.n > 3000000 && i >= 2) w = 5;
      if (huge && w > 1000) w = 1000 + w % 1000;
      ch.push_back(w); tot[i & 1] += w; }
    std::vector<uint64_t> ya, yb;
    inf.desc = p.name + ": waits on two states alternately " + show(ch);
    p.direct(ch, &ya, &yb);
    inf.desc += " -> yields at " + show(ya) + " / " + show(yb);
    check_yields(p, ya, tot[0], "state of"); check_yields(p, yb, tot[1], "second state of");
    inf.nontrivial = p.kind != 0 || ya.size() > 1 || yb.size() > 1;
    inf.classes.push_back(p.kind == 0 ? p.n > 65535 ? "exponential, N > 65535" : "exponential" : p.name);
  } else if (kind <= 5) {     // a history of lock() calls with the lock freed inside the policy
    const Policy& p = P[g.draw(P.size())];
    int f = (int)g.draw(3); auto& F = p.hooked[f];
    std::unique_ptr<void, void (*)(void*)> m(F.make(), F.del);
    int locks = 1 + (int)g.draw(6);
    inf.desc = std::string("yamc::") + famname[f] + "::basic_mutex<wrapper of " + p.name + ">:";
    uint64_t cap = p.n > 100000 ? 100000 : p.n;
    for (int i = 0; i < locks; i++) {
      uint64_t k; switch (g.draw(4)) { case 0: k = 1 + g.draw(5); break; case 1: k = 0; break; case 2: k = 1 + g.draw(2 * cap + 40); break; default: k = (p.n > 4000000 ? 10 : p.n) + 1 + g.draw(30); }
      g_obs = Obs(); g_obs.release_at = (long)k; g_obs.m = m.get(); g_obs.release = F.unlock;
      if (k) { PBT_CHECK(F.tr(m.get()), "%s lock %d: try_lock fails on a free lock", inf.desc.c_str(), i); }
      long y0 = t_yields;
      F.lock(m.get());
      long yn = t_yields - y0;
      inf.desc += " lock(freed at wait " + std::to_string(k) + ")=" + std::to_string(g_obs.waits) + " waits";
      PBT_CHECK(g_obs.waits >= (long)k && g_obs.waits <= (long)k + 1, "lock() waited %ld times, the lock became free at wait %llu", g_obs.waits, (unsigned long long)k);
      PBT_CHECK(!g_obs.stale, "lock() number %d starts with a used backoff state", i);
      PBT_CHECK(!g_obs.jump, "the backoff state changes within lock() number %d", i);
      PBT_CHECK((uint64_t)yn == g_obs.yields_at.size(), "lock() yields outside of the policy");
      std::vector<uint64_t> y(g_obs.yields_at.begin(), g_obs.yields_at.end());
      check_yields(p, y, g_obs.waits, "lock() with");
      PBT_CHECK(!F.tr(m.get()), "try_lock succeeds on the locked mutex");
      F.unlock(m.get());
      if (k > 0) inf.nontrivial = true;
    }
    PBT_CHECK(F.tr(m.get()), "try_lock fails on the free mutex"); F.unlock(m.get());
    inf.classes.push_back(std::string("lock() history on ") + famname[f]);
  } else if (kind == 6) {     // unwrapped; freed inside a yield, or by another thread if the policy never yields
    const Policy& p = P[g.draw(P.size())];
    int f = (int)g.draw(3);
    static const Policy::Fam* F; F = &p.plain[f];
    static void* m; m = F->make();
    int locks = 1 + (int)g.draw(4);
    inf.desc = std::string("yamc::") + famname[f] + "::basic_mutex<" + p.name + ">:";
    for (int i = 0; i < locks; i++) {
      PBT_CHECK(F->tr(m), "try_lock fails on a free lock");
      if (p.kind <= 1 && p.n <= 2000000) {
        static long left; left = 1 + (long)g.draw(12); long j = left;
        long y0 = t_yields;
        t_on_yield = [] { if (--left == 0) F->unlock(m); };
        F->lock(m); t_on_yield = nullptr;
        PBT_CHECK(t_yields - y0 == j, "lock() yields %ld times, the lock became free in yield %ld", t_yields - y0, j);
        inf.desc += " lock(freed in yield " + std::to_string(j) + ")"; inf.nontrivial = true;
      } else {
        unsigned us = (unsigned)g.draw(300);
        std::thread th([us] { auto e = std::chrono::steady_clock::now() + std::chrono::microseconds(us); while (std::chrono::steady_clock::now() < e) {} F->unlock(m); });
        long y0 = t_yields; F->lock(m); th.join();
        if (p.kind >= 2) PBT_CHECK(t_yields == y0, "%s yields", p.name.c_str());
        inf.desc += " lock(freed by a thread after " + std::to_string(us) + " us)"; inf.nontrivial = true;
      }
      PBT_CHECK(!F->tr(m), "try_lock succeeds on the locked mutex");
      F->unlock(m);
    }
    F->del(m);
    inf.classes.push_back(std::string("unwrapped policy on ") + famname[f]);
  } else {                    // the default mutex types
    static Policy::Fam D[3] = { fam<yamc::spin::mutex>(), fam<yamc::spin_weak::mutex>(), fam<yamc::spin_ttas::mutex>() };
    int f = (int)g.draw(3);
    static const Policy::Fam* F; F = &D[f];
    static void* m; m = F->make();
    inf.desc = std::string("yamc::") + famname[f] + "::mutex";
    PBT_CHECK(F->tr(m), "try_lock fails on a free lock");
    inf.nontrivial = true;
#if defined(CFG_HOOK)
    uint64_t k = 1 + g.draw(200);
    g_obs = Obs(); g_obs.release_at = (long)k; g_obs.m = m; g_obs.release = F->unlock;
    alarm(20);
    F->lock(m);
    PBT_CHECK(g_obs.waits >= (long)k && g_obs.waits <= (long)k + 1, "YAMC_BACKOFF_SPIN_DEFAULT: %ld waits of the user's policy, freed at wait %llu", g_obs.waits, (unsigned long long)k);
    inf.desc += " with YAMC_BACKOFF_SPIN_DEFAULT = user-defined, freed at wait " + std::to_string(k);
#elif CFG_INIT > 1000000000
    unsigned ms = 1 + (unsigned)g.draw(3);
    std::thread th([ms] { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); F->unlock(m); });
    long y0 = t_yields; F->lock(m); th.join();
    PBT_CHECK(t_yields == y0, "the default policy yields after less than %u waits", (unsigned)CFG_INIT);
    inf.desc += " with INITCOUNT " + std::to_string(CFG_INIT) + ", freed after " + std::to_string(ms) + " ms";
#else
    static long left; left = 1 + (long)g.draw(40); long j = left; long y0 = t_yields;
    t_on_yield = [] { if (--left == 0) F->unlock(m); };
    F->lock(m); t_on_yield = nullptr;
    PBT_CHECK(t_yields - y0 == j, "lock() yields %ld times, the lock became free in yield %ld", t_yields - y0, j);
    inf.desc += " with INITCOUNT " + std::to_string(CFG_INIT) + ", freed in yield " + std::to_string(j);
#endif
    PBT_CHECK(!F->tr(m), "try_lock succeeds on the locked mutex");
    F->unlock(m); F->del(m);
    inf.classes.push_back(std::string("default policy of ") + famname[f]);
  }
}
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "backoff policies with generated initial counts: waits on two alternating states, and histories of lock() calls on every spinlock family where the lock is freed at a drawn wait or yield; oracle: documented yield positions (first after N waits, intervals halving to one), fresh state per lock(), return right after the release; non-trivial: at least two yields were observed or lock() had to wait; distinct by choices", one, 60);
}
