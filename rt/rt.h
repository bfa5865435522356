// Deterministic runtime: fibers, virtual time, modelled pthread/sem primitives,
// happens-before tracking. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>

namespace rt {

constexpr int MAXF = 9;            // fiber 0 = main, 1..8 workers
constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;
constexpr int64_t TINF = INT64_MAX;

struct Rng {
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double x) { return unit() < x; }
};

// A case is two lists of choices: the program list (drawn by drivers) and the
// schedule list (drawn by the runtime). In generation mode they come from a biased
// RNG and are recorded; in replay mode from the lists (0 beyond their end).
constexpr int MAXCHOICE = 1 << 16;

enum EvKind : uint8_t { EV_INV, EV_RES, EV_PARK, EV_CLOCK, EV_QUIESCE, EV_NOTE, EV_SWITCH, EV_SYSSTEP };
struct Ev { uint8_t kind; int8_t t; int32_t a; int64_t now, sys, x; };
constexpr int MAXEV = 1 << 15;

enum VioKind { V_NONE, V_EXCLUSION, V_RACE, V_SPEC, V_QUIESCE, V_LIVELOCK, V_CRASH, V_UB, V_UAD, V_HANG, V_ABORT,
  V_DATA, V_TIME, V_OTHER, V_UNDECIDED };
const char* vio_name(int k);

struct CaseCfg {
  int strat = 0;                  // 0 random walk, 1 PCT
  double p_switch = 0.3, p_time = 0.05, p_spur = 0.0, p_cas = 0.0, p_eintr = 0.0;
  int pct_depth = 3;
  int b_time = 0, b_spur = 0, b_cas = 0, b_eintr = 0, b_res = 0;   // budgets; b_res: failing allocations, exhausted lock counts
  double p_res = 0.0;
  int len = 1;                    // factor for the step limits
  int64_t slack = 0;              // timed calls may end this much after their deadline
  int64_t up = 0;                 // uptime at the start (added to both clocks)
  int acc_gap = 0;                // mean distance of preemptions at plain shared accesses, 0 = off
  bool race = false;              // report data races
  bool uad = true;                // report use after destruction / free
  bool native = false;            // report native objects created or destroyed more than once, or left behind
};

struct CaseStats { uint32_t steps, switches, preempts, parks, timeouts, spurious, casfail, eintr, resfail, notifies, quiesces,
  accesses, mblocked, trylock_fail, timeadv, acc_preempts; };

void init();                                   // once per process
void set_gen(uint64_t seed);
void set_replay(const uint32_t* prog, size_t np, const uint32_t* sch, size_t ns);
void recorded(const uint32_t** prog, size_t* np, const uint32_t** sch, size_t* ns);
uint32_t draw(uint32_t n);                     // uniform program choice in [0,n)
uint32_t drawv(uint32_t n, uint32_t v);        // program choice in [0,n) with generated value v
inline bool drawp(double p);
Rng& rng();
bool replaying();
inline bool drawp(double p) { return drawv(2, rng().p(p) ? 1 : 0) != 0; }

void case_begin(const CaseCfg& cfg);
bool case_run(void (*fn)(void*), void* arg);   // true if fiber 0 finished
void case_end();                               // fibers are gone

// ---- callable from fibers
int  spawn(void (*fn)(void*), void* arg);
void join(int fiber);           // blocks
void join_all();
void rendezvous(int n, void (*fn)(void*), void* arg);   // the last of n fibers runs fn, then all go on
int  self();                    // current fiber (or -1)
void sut_enter(); void sut_leave();   // allocation from the arena in between
void yield_point();
bool quiet();
void quiet(bool on);              // no scheduling points in between (calls that need not wait)
void violate(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_case();
void ev(uint8_t kind, int32_t a, int64_t x = 0);
int64_t now();
int64_t sysnow();
void sys_step(int64_t delta);
void advance(int64_t delta);
void sleep_for(int64_t delta);    // the calling fiber is not runnable until then
// clk: -1 none, 0 steady, 1 system; rel >= 0: the deadline is abs or later, at most (first park) + rel
void set_op_deadline(int64_t abs, int clk, int64_t rel = -1);
void* alloc(size_t n);
void poison(void* p, size_t n);
void unpoison(void* p, size_t n);
bool cas_faulted();             // spurious CAS failure injected into current op of this fiber
bool eintr_faulted();
bool native_fault();            // the modelled platform call fails
void native_made(const void* p, const char* what, bool implicit = false);   // life of native objects
void native_gone(const void* p, const char* what, bool made_first);
const char* native_left(const void* lo, size_t n, bool implicit);            // one that is still alive in this memory (n = 0: anywhere)
void native_forget(const void* lo, size_t n);   // this memory is used for something else from now on
int native_count(int which);    // 0 made, 1 destroyed, 2 creation failed
void op_begin();                // resets the per-op fault flags
uint64_t yield_count();         // sched_yield calls of this fiber
void set_yield_hook(void (*)(int));
void cs_write(int* p, int v);   // race-checked access from driver code
int  cs_read(const int* p);
bool in_sut();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void set_notes(bool on);

// ---- results
bool   stuck();
int    vio_kind();
const char* vio_msg();
const Ev* events(size_t* n);
CaseStats& stats();
const char* notes();
void set_crash_cb(void (*)());
} // namespace rt
