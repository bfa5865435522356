// See rt.h and DESIGN.md. Single OS thread; every SUT thread is a fiber.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <new>
#include <initializer_list>

namespace rt {

// ------------------------------------------------------------------ memory map
static char* const ARENA = (char*)0x20000000000;
constexpr size_t ARENA_SZ = 8u << 20;
static char* const STACKS = (char*)0x20100000000;
constexpr size_t STACK_SZ = 256u << 10, STACK_STEP = STACK_SZ + 4096;
static size_t arena_top;
static char *sut_lo, *sut_hi;           // writable data of libsut (without RELRO)
static char* sut_snap;

struct VC { uint32_t c[MAXF]; };
struct Cell {
  uint32_t gen;
  uint8_t poison, wt, wmask; bool wvalid;
  uint32_t wclk;
  uint8_t rmask[MAXF]; uint8_t amask;
  uint32_t r[MAXF];
  uint32_t ar[MAXF], aw[MAXF];
  const void* wpc; const void* rpc;
};
static Cell *sh_arena, *sh_stack, *sh_sut;
static uint32_t gen = 1;

enum St : uint8_t { FREE, READY, B_MUTEX, B_RWR, B_RWW, W_COND, W_SEM, W_SLEEP, W_JOIN, FIN };
enum Woke : uint8_t { WK_NONE, WK_NOTIFY, WK_TIMEOUT, WK_SPUR, WK_EINTR };

struct Fiber {
  St st; Woke woke;
  int id;
  void* sp;
  char* stk;
  void (*fn)(void*); void* arg;
  const void* wobj;
  int64_t dl; int dclk;          // wait deadline
  int64_t opdl, oprel; int opclk; bool in_op;
  VC vc, acqf, relf;
  bool has_relf;
  int in_sut;
  bool spin; const void* spin_addr; uint64_t spin_val; int spin_n;
  uint64_t yields;
  bool casf, eintrf;
  int prio;
  char ehg[16];
  int err;
  struct { void* key; void* mem; } tls[16]; int ntls;
  int joinee;
  int imm;                       // timed waits of this call that had expired at their start
};
static Fiber F[MAXF + 1];       // last one: TLS home of code outside fibers
static Fiber* cur;
static int nf;
static void* main_sp;
static bool in_case, ending;
static sigjmp_buf crash_jmp;

static CaseCfg C;
static CaseStats S;
static bool is_stuck;
static int vkind; static char vmsg[2048];
static Ev evs[MAXEV]; static size_t nev;
static int64_t tnow, sysoff;
static constexpr int64_t T0 = 1000000 * SEC / 1000, SYS0 = 1700000000ll * SEC;
static Rng R;
static bool is_replay;
static uint32_t prog[MAXCHOICE], sch[MAXCHOICE];
static size_t nprog, nsch;
static uint32_t *rprog, *rsch; static size_t nrprog, nrsch;
static int pct_points[16]; static int pct_n; static int pct_low;
static int spin_idle;
static int64_t acc_left;
static void (*yield_hook)(int);
static void (*crash_cb)();
static char notebuf[1 << 16]; static size_t notelen; static bool notes_on;
static volatile int ticks;

const char* vio_name(int k) {
  static const char* n[] = {"none", "exclusion", "data-race", "spec", "blocked", "livelock", "crash", "ub",
    "use-after-destroy", "hang", "abort", "data", "time", "other", "undecided"};
  return n[k];
}
Rng& rng() { return R; }
bool replaying() { return is_replay; }
int self() { return cur ? cur->id : -1; }
int64_t now() { return tnow; }
int64_t sysnow() { return tnow + sysoff; }
bool stuck() { return is_stuck; }
int vio_kind() { return vkind; }
const char* vio_msg() { return vmsg; }
const Ev* events(size_t* n) { *n = nev; return evs; }
CaseStats& stats() { return S; }
const char* notes() { return notebuf; }
void set_notes(bool on) { notes_on = on; }
void set_crash_cb(void (*f)()) { crash_cb = f; }
void set_yield_hook(void (*f)(int)) { yield_hook = f; }
uint64_t yield_count() { return cur ? cur->yields : 0; }
bool in_sut() { return cur && cur->in_sut; }

void note(const char* fmt, ...) {
  if (!notes_on) return;
  if (notelen + 300 > sizeof notebuf) return;
  va_list ap; va_start(ap, fmt);
  notelen += vsnprintf(notebuf + notelen, 290, fmt, ap);
  va_end(ap);
}

void set_gen(uint64_t seed) { R.s = seed; is_replay = false; nprog = nsch = 0; }
void set_replay(const uint32_t* p, size_t np, const uint32_t* s, size_t ns) {
  free(rprog); free(rsch);
  rprog = (uint32_t*)malloc(4 * np + 4); memcpy(rprog, p, 4 * np); nrprog = np;
  rsch = (uint32_t*)malloc(4 * ns + 4); memcpy(rsch, s, 4 * ns); nrsch = ns;
  is_replay = true; nprog = nsch = 0; R.s = 1;
}
void recorded(const uint32_t** p, size_t* np, const uint32_t** s, size_t* ns) { *p = prog; *np = nprog; *s = sch; *ns = nsch; }
static uint32_t take(uint32_t* arr, size_t& n, const uint32_t* r, size_t nr, uint32_t m, uint32_t genv) {
  uint32_t v;
  if (is_replay) v = n < nr ? (m ? r[n] % m : 0) : 0; else v = genv;
  if (n < MAXCHOICE) arr[n] = v;
  if (n < MAXCHOICE - 1) n++;
  return v;
}
uint32_t drawv(uint32_t n, uint32_t v) { return take(prog, nprog, rprog, nrprog, n, v); }
uint32_t draw(uint32_t n) { return drawv(n, R.below(n)); }
static uint32_t schoice(uint32_t n, uint32_t v) { return take(sch, nsch, rsch, nrsch, n, v); }

// ------------------------------------------------------------------ fibers
extern "C" void rt_switch(void** from, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");
extern "C" void* __cxa_get_globals();
extern "C++" {}

static void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

void ev(uint8_t k, int32_t a, int64_t x) {
  if (nev >= MAXEV) { if (!vkind) { vkind = V_UNDECIDED; snprintf(vmsg, sizeof vmsg, "history too long"); } end_case(); }
  evs[nev++] = {k, (int8_t)self(), a, tnow, tnow + sysoff, x};
}

void end_case() {
  ending = true;
  Fiber* f = cur;
  if (f) {
    cur = nullptr;
    void* d;
    if (f->id == MAXF) abort();
    rt_switch(&d, main_sp);
  }
  fprintf(stderr, "rt: end_case outside a fiber: %s\n", vmsg);
  _exit(99);
}

void violate(int kind, const char* fmt, ...) {
  if (!vkind) {
    vkind = kind;
    va_list ap; va_start(ap, fmt); vsnprintf(vmsg, sizeof vmsg, fmt, ap); va_end(ap);
  }
  if (cur) end_case();
}

static void switch_to(Fiber* g) {
  Fiber* f = cur;
  if (f == g) return;
  S.switches++;
  if (f->st == READY && !f->spin) S.preempts++;
  if (notes_on) note("      -> t%d\n", g->id);
  memcpy(f->ehg, __cxa_get_globals(), 16);
  f->err = errno;
  memcpy(__cxa_get_globals(), g->ehg, 16);
  errno = g->err;
  cur = g;
  rt_switch(&f->sp, g->sp);
}

static int64_t st_of(int64_t dl, int clk) {   // deadline as steady time
  if (dl == TINF) return TINF;
  if (clk == 0) return dl;
  __int128 v = (__int128)dl - sysoff;
  if (v > TINF / 2) return TINF;
  if (v < INT64_MIN / 2) return INT64_MIN / 2;
  return (int64_t)v;
}
static bool expired(const Fiber& f) {
  return (f.st == W_COND || f.st == W_SEM || f.st == W_SLEEP || f.st == B_MUTEX || f.st == B_RWR || f.st == B_RWW) &&
         f.dl != TINF && st_of(f.dl, f.dclk) <= tnow;
}
static bool enabled(const Fiber& f) { return f.st == READY || expired(f); }

static void clear_spins() { for (int i = 0; i < nf; i++) { F[i].spin = false; F[i].spin_n = 0; } spin_idle = 0; }
static void progress() {   // a state-changing synchronisation step by cur
  clear_spins();
}

static constexpr int64_t TMAX = (int64_t)2e18;      // virtual time ends here
static int64_t next_timer() {
  int64_t t = TINF;
  for (int i = 0; i < nf; i++) {
    Fiber& f = F[i];
    if ((f.st == W_COND || f.st == W_SEM || f.st == W_SLEEP || f.st == B_MUTEX || f.st == B_RWR || f.st == B_RWW) && f.dl != TINF) {
      int64_t d = st_of(f.dl, f.dclk);
      if (d > tnow && d < t && d < TMAX) t = d;
    }
  }
  return t;
}
static void set_now(int64_t t) {
  if (t <= tnow) return;
  tnow = t; S.timeadv++;
  if (notes_on) note("      time %lld\n", (long long)(tnow - T0));
  ev(EV_CLOCK, 0, 0);
}
static constexpr int STEP1 = 20000, STEP2 = 60000, SPINMAX = 2500;

static void idle() {          // nobody can run, or only spinners do
  S.quiesces++;
  ev(EV_QUIESCE, 0, 0);
  int64_t t = next_timer();
  for (int i = 0; i < nf; i++) if (F[i].in_op && F[i].opclk >= 0 && F[i].opdl != TINF) {
    int64_t d = st_of(F[i].opdl, F[i].opclk);
    if (d != TINF && d + 2000 > tnow && d + 2000 < t) t = d + 2000;
    if (d != TINF && C.slack && d + C.slack > tnow && d + C.slack < t) t = d + C.slack;
  }
  if (t >= TMAX) { is_stuck = true; end_case(); }
  set_now(t);
  spin_idle = 0;
}

static void wake_expired(Fiber* g) {
  if (g->st != READY) { g->woke = WK_TIMEOUT; g->st = READY; S.timeouts++; }
}

static uint32_t fair_step;     // steps at the last advance of the time in fair completion
static void resched() {
  Fiber* opt[MAXF]; 
  for (;;) {
    int n = 0, nspin = 0;
    Fiber* me = cur;
    bool me_en = enabled(*me);
    if (me_en && !me->spin) opt[n++] = me;
    for (int k = 1; k <= nf; k++) { Fiber* g = &F[(me->id + k) % nf]; if (g != me && enabled(*g) && !g->spin) opt[n++] = g; }
    int nreal = n;
    for (int k = 1; k <= nf; k++) { Fiber* g = &F[(me->id + k) % nf]; if (enabled(*g) && g->spin) { opt[n++] = g; nspin++; } }
    if (n == 0) { idle(); continue; }
    if (nreal == 0) {
      if (++spin_idle > SPINMAX) { idle(); continue; }
      switch_to(opt[0]);      // round robin among spinners
      if (enabled(*cur)) { wake_expired(cur); }
      return;
    }
    if (S.steps > (uint32_t)STEP1 * C.len) {    // fair completion
      int64_t t = next_timer();                 // time passes for those who wait for it
      if (t < TMAX && S.steps > fair_step + 100) { fair_step = S.steps; set_now(t); continue; }
      Fiber* g = me;                            // turns of irregular length, or symmetric retries would never end
      if (!me_en || me->spin || !((S.steps * 2654435761u) >> 28))
        for (int k = 1; k <= nf; k++) { g = &F[(me->id + k) % nf]; if (enabled(*g)) break; }
      switch_to(g); wake_expired(cur); return;
    }
    int tm = (S.timeadv < (uint32_t)C.b_time && next_timer() != TINF) ? 3 : 0;
    Fiber* sp[MAXF]; int nsp = 0;
    if (S.spurious < (uint32_t)C.b_spur) for (int i = 0; i < nf; i++) if (F[i].st == W_COND && !expired(F[i])) sp[nsp++] = &F[i];
    int tot = n + tm + nsp;
    if (tot == 1) { switch_to(opt[0]); wake_expired(cur); return; }
    uint32_t v = 0;
    if (!is_replay) {
      if (tm && R.p(C.p_time)) v = n + R.below(tm);
      else if (nsp && R.p(C.p_spur)) v = n + tm + R.below(nsp);
      else if (C.strat == 0) {
        if (me_en && !me->spin && !R.p(C.p_switch)) v = 0;
        else if (nspin && R.p(0.1)) v = R.below(n);
        else v = R.below(nreal);
      } else {
        for (int i = 0; i < pct_n; i++) if (pct_points[i] == (int)S.steps) me->prio = pct_low--;
        int best = 0;
        for (int i = 1; i < nreal; i++) if (opt[i]->prio > opt[best]->prio) best = i;
        v = best;
      }
    }
    v = schoice(tot, v);
    if (v < (uint32_t)n) { switch_to(opt[v]); wake_expired(cur); return; }
    v -= n;
    if (v < (uint32_t)tm) {
      int64_t nt = next_timer();
      if (v == 0) set_now(nt);
      else if (v == 1) set_now(nt + 3 * MS);
      else { int64_t d = nt - tnow > 2 * US ? (nt - tnow) / 2 : nt - tnow; if (d > SEC) d = SEC; set_now(tnow + d); }
      continue;
    }
    v -= tm;
    Fiber* g = sp[v]; S.spurious++; g->woke = WK_SPUR; g->st = READY;
    if (notes_on) note("      spurious wake-up of t%d\n", g->id);
  }
}

static void count_step() {
  if (++S.steps > (uint32_t)STEP2 * C.len) violate(V_LIVELOCK, "no progress within %d steps", STEP2 * C.len);
}
static bool is_quiet;
bool quiet() { return is_quiet; }
void quiet(bool on) { is_quiet = on; }
static void point() {
  if (!cur || ending || is_quiet) return;
  count_step();
  resched();
}
void yield_point() { point(); }

static Woke block(St st, const void* obj, int64_t dl = TINF, int clk = 0) {
  Fiber* f = cur;
  f->st = st; f->wobj = obj; f->dl = dl; f->dclk = clk; f->woke = WK_NONE;
  if (++S.steps > (uint32_t)STEP2 * C.len) violate(V_LIVELOCK, "no progress within %d steps", STEP2 * C.len);
  resched();
  f->st = READY; f->dl = TINF;
  return f->woke;
}

static void fiber_main() {
  Fiber* f = cur;
  f->fn(f->arg);
  f = cur;
  f->vc.c[f->id]++;
  f->st = FIN;
  clear_spins();
  if (f->id == 0) end_case();
  for (int i = 0; i < nf; i++) if (F[i].st == W_JOIN) F[i].st = READY;
  resched();
  __builtin_unreachable();
}

static unsigned char alloc_fill;
static int mkfiber(void (*fn)(void*), void* arg) {
  int id = nf++;
  if (id >= MAXF) { fprintf(stderr, "rt: too many fibers\n"); _exit(98); }
  Fiber& f = F[id];
  char* stk = STACKS + id * STACK_STEP + 4096;
  memset(stk + STACK_SZ - 6144, alloc_fill, 6144);
  memset((void*)&f, 0, sizeof f);
  f.id = id; f.stk = stk; f.fn = fn; f.arg = arg; f.st = READY; f.dl = TINF; f.opclk = -1; f.opdl = TINF;
  if (cur) { f.vc = cur->vc; cur->vc.c[cur->id]++; }
  f.vc.c[id]++;
  uint64_t* sp = (uint64_t*)(stk + STACK_SZ);
  *--sp = 0; *--sp = 0; *--sp = 0;          // alignment + fake return
  *--sp = (uint64_t)(void*)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  f.prio = is_replay ? 0 : 1000 + (int)R.below(1000000);
  return id;
}
int spawn(void (*fn)(void*), void* arg) { int id = mkfiber(fn, arg); return id; }
void join(int j) {
  while (F[j].st != FIN) block(W_JOIN, &F[j]);
  vjoin(cur->vc, F[j].vc);
}
static int rv_n; static uint32_t rv_gen; static VC rv_vc;
void rendezvous(int n, void (*fn)(void*), void* arg) {
  point();
  vjoin(rv_vc, cur->vc); cur->vc.c[cur->id]++;
  if (++rv_n >= n) {
    rv_n = 0;
    vjoin(cur->vc, rv_vc);
    fn(arg);
    rv_vc = cur->vc; cur->vc.c[cur->id]++;
    rv_gen++;
    clear_spins();
    for (int i = 0; i < nf; i++) if (F[i].st == W_JOIN) F[i].st = READY;
    return;
  }
  uint32_t g = rv_gen;
  while (rv_gen == g) block(W_JOIN, &rv_gen);
  vjoin(cur->vc, rv_vc);
}
void join_all() { for (int i = 1; i < nf; i++) join(i); }
void sut_enter() { cur->in_sut++; }
void sut_leave() { cur->in_sut--; }

struct Nat { const void* p; const char* what; bool live, implicit, failed; };
static Nat nat[512]; static int nnat, nat_n[3];
void case_begin(const CaseCfg& cfg) {
  C = cfg; memset((void*)&S, 0, sizeof S);
  gen++;
  arena_top = 0; nf = 0; cur = nullptr; ending = false; is_stuck = false; vkind = V_NONE; vmsg[0] = 0; nev = 0;
  nnat = 0; nat_n[0] = nat_n[1] = nat_n[2] = 0;
  tnow = T0 + C.up; sysoff = SYS0 - T0; spin_idle = 0; fair_step = 0; notelen = 0; notebuf[0] = 0;
  if (sut_snap) memcpy(sut_lo, sut_snap, sut_hi - sut_lo);
  is_quiet = false; rv_n = 0; memset((void*)&rv_vc, 0, sizeof rv_vc);
  pct_n = C.pct_depth; if (pct_n > 16) pct_n = 16; pct_low = -1;
  if (!is_replay) for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + (int)R.below(R.p(0.5) ? 60 : 300);
  acc_left = -1;
  ticks = 0;
  F[MAXF].ntls = 0; F[MAXF].id = MAXF;
  static const unsigned char fills[4] = {0, 0xff, 0xa5, 0x01};
  alloc_fill = fills[schoice(4, is_replay ? 0 : R.below(4))];      // what memory contains before an object is constructed in it
  if (cfg.acc_gap) { acc_left = schoice(1 << 16, is_replay ? 0 : 1 + R.below(2 * cfg.acc_gap)); if (!acc_left) acc_left = -1; }
}
bool case_run(void (*fn)(void*), void* arg) {
  mkfiber(fn, arg);
  in_case = true;
  char ehg[16]; memcpy(ehg, __cxa_get_globals(), 16);
  if (sigsetjmp(crash_jmp, 1) == 0) {
    cur = &F[0];
    memset(__cxa_get_globals(), 0, 16);
    rt_switch(&main_sp, F[0].sp);
  }
  cur = nullptr;
  memcpy(__cxa_get_globals(), ehg, 16);
  in_case = false;
  return F[0].st == FIN;
}
void case_end() {}

void sys_step(int64_t d) {
  sysoff += d; ev(EV_SYSSTEP, 0, d);
  if (notes_on) note("      system clock stepped by %lld\n", (long long)d);
}
void advance(int64_t d) { if (d > 0) set_now(tnow + d); }
void sleep_for(int64_t d) { block(W_SLEEP, nullptr, tnow + d, 0); }
void set_op_deadline(int64_t a, int clk, int64_t rel) { cur->in_op = true; cur->opdl = clk < 0 ? TINF : a; cur->opclk = clk; cur->oprel = rel; }
static void parked(bool timed) {
  S.parks++;
  if (notes_on) note("   t%d parks\n", cur->id);
  if (cur->oprel >= 0) { if (cur->opclk >= 0) cur->opdl = (cur->opclk ? tnow + sysoff : tnow) + cur->oprel; cur->oprel = -1; }
  ev(EV_PARK, timed ? 1 : 0, 0);
}
void op_begin() { cur->imm = 0; cur->casf = cur->eintrf = false; cur->in_op = false; cur->oprel = -1; cur->opclk = -1; cur->opdl = TINF; }
bool cas_faulted() { return cur->casf; }
bool eintr_faulted() { return cur->eintrf; }
bool native_fault() {
  if (!cur || ending || S.eintr >= (uint32_t)C.b_eintr || !schoice(2, R.p(C.p_eintr) ? 1 : 0)) return false;
  S.eintr++; cur->eintrf = true;
  if (notes_on) note("      t%d: the platform call fails\n", cur->id);
  return true;
}

// a resource is exhausted (memory, the depth of a native recursive mutex, the readers of a native rwlock)
static bool res_fault(const char* what) {
  if (!cur || ending || is_quiet || !cur->in_sut || S.resfail >= (uint32_t)C.b_res || !schoice(2, R.p(C.p_res) ? 1 : 0)) return false;
  S.resfail++;
  if (notes_on) note("      t%d: %s\n", cur->id, what);
  ev(EV_NOTE, 0, -5);
  return true;
}

// native objects of the platform, by address
static Nat* nat_of(const void* p) { for (int i = nnat; i--;) if (nat[i].p == p) return &nat[i]; return nullptr; }
static Nat* nat_add(const void* p, const char* what) {
  Nat* x = nat_of(p);
  if (!x) { if (nnat == 512) return nullptr; x = &nat[nnat++]; }
  *x = {p, what, true, false, false}; return x;
}
void native_made(const void* p, const char* what, bool implicit) {
  if (!C.native || !cur || ending) return;
  Nat* x = nat_of(p);
  if (implicit && x && x->live) return;
  if (x && x->live) { if (!x->implicit) violate(V_OTHER, "t%d initialises a %s that is in use already", cur->id, what); }
  if ((x = nat_add(p, what))) x->implicit = implicit;
  if (!implicit) nat_n[0]++;
}
void native_gone(const void* p, const char* what, bool made_first) {
  if (!C.native || !cur || ending) return;
  Nat* x = nat_of(p);
  if (x && x->failed) violate(V_OTHER, "t%d destroys a %s whose initialisation failed", cur->id, what);
  if (x && !x->live) violate(V_OTHER, "t%d destroys a %s twice", cur->id, what);
  if (!x && made_first) violate(V_OTHER, "t%d destroys a %s that was never initialised", cur->id, what);
  if (!x) x = nat_add(p, what);
  if (x) x->live = false;
  nat_n[1]++;
}
static void native_failed(const void* p, const char* what) {
  nat_n[2]++;
  Nat* x = nat_add(p, what); if (x) { x->live = false; x->failed = true; }
}
static void native_used(const void* p, const char* what) {
  if (!cur || ending) return;
  Nat* x = nnat ? nat_of(p) : nullptr;
  if (x && x->failed) violate(V_UB, "t%d uses a %s whose initialisation failed", cur->id, what);
  if (C.native && x && !x->live && !x->failed) violate(V_UB, "t%d uses a %s that was destroyed", cur->id, what);
  if (C.native && !x) native_made(p, what, true);
}
const char* native_left(const void* lo, size_t n, bool implicit) {
  for (int i = nnat; i--;) if (nat[i].live && (implicit || !nat[i].implicit) && (!n || (uintptr_t)nat[i].p - (uintptr_t)lo < n)) return nat[i].what;
  return nullptr;
}
void native_forget(const void* lo, size_t n) {
  for (int i = nnat; i--;) if (!nat[i].live && (uintptr_t)nat[i].p - (uintptr_t)lo < n) nat[i] = nat[--nnat];
}
int native_count(int w) { return nat_n[w]; }

void* alloc(size_t n) {
  n = (n + 15) & ~15ul;
  if (arena_top + n + 16 > ARENA_SZ) { violate(V_UNDECIDED, "arena exhausted"); _exit(97); }
  char* p = ARENA + arena_top; *(size_t*)p = n;
  arena_top += n + 16;
  if (cur) memset(p + 16, alloc_fill, n);
  return p + 16;
}

// ------------------------------------------------------------------ shadow memory
static inline Cell* cell_of(uintptr_t a) {
  Cell* c;
  if (a - (uintptr_t)ARENA < ARENA_SZ) c = &sh_arena[(a - (uintptr_t)ARENA) >> 2];
  else if (a - (uintptr_t)STACKS < STACK_STEP * MAXF) c = &sh_stack[(a - (uintptr_t)STACKS) >> 2];
  else if (a - (uintptr_t)sut_lo < (uintptr_t)(sut_hi - sut_lo)) c = &sh_sut[(a - (uintptr_t)sut_lo) >> 2];
  else return nullptr;
  if (c->gen != gen) { memset((void*)c, 0, sizeof *c); c->gen = gen; }
  return c;
}
static bool known(const void* p) {
  uintptr_t a = (uintptr_t)p;
  return a - (uintptr_t)ARENA < ARENA_SZ || a - (uintptr_t)STACKS < STACK_STEP * MAXF ||
         a - (uintptr_t)sut_lo < (uintptr_t)(sut_hi - sut_lo);
}
static const char* pcname(const void* pc) {
  static char b[4][160]; static int k; char* o = b[k++ & 3];
  Dl_info di;
  if (pc && dladdr(pc, &di)) {
    const char* fn = di.dli_fname ? strrchr(di.dli_fname, '/') : nullptr;
    snprintf(o, 160, "%s+0x%lx", fn ? fn + 1 : "?", (long)((char*)pc - (char*)di.dli_fbase));
  } else snprintf(o, 160, "?");
  return o;
}
static void dangling(uintptr_t a, const char* what, const void* pc) {
  if (a - (uintptr_t)STACKS >= STACK_STEP * MAXF) return;
  int i = (a - (uintptr_t)STACKS) / STACK_STEP;
  if (i >= nf || &F[i] == cur) return;
  if (F[i].st == FIN || a < (uintptr_t)F[i].sp)
    if (C.uad) violate(V_UAD, "t%d: %s of a dead stack frame of t%d at %s", cur->id, what, i, pcname(pc));
}
static void bad_free(uintptr_t a, const char* what, const void* pc) {
  if (C.uad) violate(V_UAD, "t%d: %s of destroyed or freed memory at %s", cur->id, what, pcname(pc));
  (void)a;
}
static void race(const char* w1, int t2, const char* w2, uintptr_t a, const void* pc, const void* pc2) {
  violate(V_RACE, "%s by t%d at %s races with %s by t%d at %s (address %s+0x%lx)", w1, cur->id, pcname(pc), w2, t2, pcname(pc2),
          a - (uintptr_t)ARENA < ARENA_SZ ? "heap" : a - (uintptr_t)STACKS < STACK_STEP * MAXF ? "stack" : "static", (long)(a & 0xfff));
}
static inline void access1(Cell* c, uint8_t mask, bool w, uintptr_t a, const void* pc) {
  Fiber* f = cur; int t = f->id;
  if (c->poison & mask) bad_free(a, w ? "write" : "read", pc);
  if (!C.race) return;
  if (!w) {
    if (c->r[t] == f->vc.c[t] && (c->rmask[t] & mask) == mask) return;
  } else if (c->wvalid && c->wt == t && c->wclk == f->vc.c[t] && (c->wmask & mask) == mask) return;
  if (c->wvalid && c->wt != t && (c->wmask & mask) && c->wclk > f->vc.c[c->wt]) race(w ? "write" : "read", c->wt, "write", a, pc, c->wpc);
  for (int u = 0; u < nf; u++) if (u != t) {
    if (c->amask & mask) {
      if (c->aw[u] > f->vc.c[u]) race(w ? "write" : "read", u, "atomic write", a, pc, nullptr);
      if (w && c->ar[u] > f->vc.c[u]) race("write", u, "atomic read", a, pc, nullptr);
    }
    if (w && (c->rmask[u] & mask) && c->r[u] > f->vc.c[u]) race("write", u, "read", a, pc, c->rpc);
  }
  if (w) { c->wvalid = true; c->wt = t; c->wclk = f->vc.c[t]; c->wmask = mask; c->wpc = pc; }
  else { if (c->r[t] != f->vc.c[t]) { c->r[t] = f->vc.c[t]; c->rmask[t] = mask; } else c->rmask[t] |= mask; c->rpc = pc; }
}
static inline void access_range(const void* p, size_t n, bool w, const void* pc) {
  if (!cur || ending) return;
  if (!is_quiet) S.accesses++;
  if (S.accesses > 20000000u) violate(V_HANG, "t%d: endless loop near %s", cur->id, pcname(pc));
  uintptr_t a = (uintptr_t)p;
  if (a - (uintptr_t)STACKS < STACK_STEP * MAXF) dangling(a, w ? "write" : "read", pc);
  else if (acc_left > 0 && !is_quiet && known(p) && --acc_left == 0) {
    S.acc_preempts++;
    acc_left = schoice(1 << 16, is_replay ? 0 : 1 + R.below(2 * C.acc_gap)); if (!acc_left) acc_left = -1;
    count_step();
    // force a switch if possible
    Fiber* g = nullptr;
    Fiber* o[MAXF]; int n2 = 0;
    for (int k = 1; k < nf; k++) { g = &F[(cur->id + k) % nf]; if (enabled(*g)) o[n2++] = g; }
    if (n2) { uint32_t v = schoice(n2, is_replay ? 0 : R.below(n2)); switch_to(o[v]); wake_expired(cur); }
  }
  Cell* c = cell_of(a);
  if (!c) return;
  while (n) {
    unsigned off = a & 3; unsigned k = 4 - off; if (k > n) k = n;
    c = cell_of(a); if (!c) return;
    access1(c, ((1u << k) - 1) << off, w, a, pc);
    a += k; n -= k;
  }
}
void poison(void* p, size_t n) {
  access_range(p, n, true, __builtin_return_address(0));
  for (uintptr_t a = (uintptr_t)p & ~3ul; a < (uintptr_t)p + n; a += 4) { Cell* c = cell_of(a); if (c) c->poison = 15; }
}
void unpoison(void* p, size_t n) {
  for (uintptr_t a = (uintptr_t)p & ~3ul; a < (uintptr_t)p + n; a += 4) { Cell* c = cell_of(a); if (c) c->poison = 0; }
}
void cs_write(int* p, int v) { access_range(p, 4, true, __builtin_return_address(0)); *p = v; }
int cs_read(const int* p) { access_range(p, 4, false, __builtin_return_address(0)); return *p; }

// ------------------------------------------------------------------ sync clocks by address
struct SMeta { const void* a; uint32_t gen; VC v, r; };
constexpr int NMETA = 8192;
static SMeta* metas;
static SMeta& meta(const void* a) {
  size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 51;
  for (;; h = (h + 1) & (NMETA - 1)) {
    SMeta& m = metas[h];
    if (m.gen != gen) { memset((void*)&m, 0, sizeof m); m.gen = gen; m.a = a; return m; }
    if (m.a == a) return m;
  }
}
static void acquire_from(const VC& v) { vjoin(cur->vc, v); }
static void release_to(VC& v) { vjoin(v, cur->vc); cur->vc.c[cur->id]++; }

static void touch(const void* p, const char* what, const void* pc) {    // pthread object use
  uintptr_t a = (uintptr_t)p;
  dangling(a, what, pc);
  Cell* c = cell_of(a);
  if (c && c->poison) bad_free(a, what, pc);
}

// ------------------------------------------------------------------ atomics
enum { MO_RLX, MO_CNS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static void at_access(const void* p, size_t n, bool w, const void* pc) {
  uintptr_t a = (uintptr_t)p;
  dangling(a, "atomic access", pc);
  for (size_t k = 0; k < n; ) {
    Cell* c = cell_of(a + k); if (!c) return;
    unsigned off = (a + k) & 3; unsigned m = 4 - off; if (m > n - k) m = n - k;
    uint8_t mask = ((1u << m) - 1) << off;
    if (c->poison & mask) bad_free(a, "atomic access", pc);
    if (C.race) {
      Fiber* f = cur; int t = f->id;
      if (c->wvalid && c->wt != t && (c->wmask & mask) && c->wclk > f->vc.c[c->wt]) race(w ? "atomic write" : "atomic read", c->wt, "write", a, pc, c->wpc);
      if (w) for (int u = 0; u < nf; u++) if (u != t && (c->rmask[u] & mask) && c->r[u] > f->vc.c[u]) race("atomic write", u, "read", a, pc, c->rpc);
      c->amask |= mask;
      (w ? c->aw : c->ar)[t] = f->vc.c[t];
    }
    k += m;
  }
}
static void at_load_hb(const void* p, int mo) {
  SMeta& m = meta(p);
  if (mo == MO_ACQ || mo == MO_AR || mo == MO_SC || mo == MO_CNS) acquire_from(m.v);
  else vjoin(cur->acqf, m.v);
}
static void at_store_hb(const void* p, int mo, bool rmw) {
  SMeta& m = meta(p);
  if (!rmw) memset((void*)&m.v, 0, sizeof m.v);
  if (mo == MO_REL || mo == MO_AR || mo == MO_SC) release_to(m.v);
  else if (cur->has_relf) vjoin(m.v, cur->relf);
}
static void spin_obs(const void* p, uint64_t v) {     // an observation that changed nothing
  Fiber* f = cur;
  if (f->spin_addr == p && f->spin_val == v) { if (++f->spin_n >= 8) f->spin = true; }
  else { f->spin_addr = p; f->spin_val = v; f->spin_n = 1; }
}
static bool at_begin() { if (!cur || ending) return false; point(); return true; }

#define RA __builtin_return_address(0)
template <class T> static T a_load(const volatile T* p, int mo, const void* pc) {
  bool m = at_begin();
  if (m) { at_access((const void*)p, sizeof(T), false, pc); at_load_hb((const void*)p, mo); }
  T v = *p;
  if (m) spin_obs((const void*)p, (uint64_t)v);
  return v;
}
template <class T> static void a_store(volatile T* p, T v, int mo, const void* pc) {
  bool m = at_begin();
  if (m) { at_access((const void*)p, sizeof(T), true, pc); at_store_hb((const void*)p, mo, false); progress(); }
  *p = v;
}
template <class T, class Op> static T a_rmw(volatile T* p, Op op, int mo, const void* pc) {
  bool m = at_begin();
  T o = *p, n = op(o);
  if (m) {
    at_access((const void*)p, sizeof(T), true, pc);
    at_load_hb((const void*)p, mo); at_store_hb((const void*)p, mo, true);
    if (n != o) progress(); else spin_obs((const void*)p, (uint64_t)o);
  }
  *p = n;
  return o;
}
template <class T> static int a_cas(volatile T* p, T* e, T n, int mo, int fmo, bool weak, const void* pc) {
  bool m = at_begin();
  T o = *p;
  if (m && weak && o == *e && S.casfail < (uint32_t)C.b_cas) {
    if (schoice(2, R.p(C.p_cas) ? 1 : 0)) {
      S.casfail++; cur->casf = true;
      at_access((const void*)p, sizeof(T), false, pc); at_load_hb((const void*)p, fmo);
      if (notes_on) note("      t%d: spurious CAS failure\n", cur->id);
      return 0;
    }
  }
  if (o == *e) {
    if (m) {
      at_access((const void*)p, sizeof(T), true, pc);
      at_load_hb((const void*)p, mo); at_store_hb((const void*)p, mo, true);
      if (n != o) progress(); else spin_obs((const void*)p, (uint64_t)o);
    }
    *p = n; return 1;
  }
  if (m) { at_access((const void*)p, sizeof(T), false, pc); at_load_hb((const void*)p, fmo); spin_obs((const void*)p, (uint64_t)o); }
  *e = o;
  return 0;
}
} // namespace rt
using namespace rt;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access_range(p, n, false, RA); } \
  void __tsan_write##n(void* p) { access_range(p, n, true, RA); } \
  void __tsan_unaligned_read##n(void* p) { access_range(p, n, false, RA); } \
  void __tsan_unaligned_write##n(void* p) { access_range(p, n, true, RA); } \
  void __tsan_volatile_read##n(void* p) { access_range(p, n, false, RA); } \
  void __tsan_volatile_write##n(void* p) { access_range(p, n, true, RA); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access_range(p, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access_range(p, n, true, RA); } \
  void __tsan_read_write##n(void* p) { access_range(p, n, false, RA); access_range(p, n, true, RA); } \
  void __tsan_unaligned_read_write##n(void* p) { access_range(p, n, false, RA); access_range(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_range(p, n, false, RA); }
void __tsan_write_range(void* p, unsigned long n) { access_range(p, n, true, RA); }
void __tsan_vptr_update(void** p, void*) { access_range(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access_range(p, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access_range(s, n, false, RA); access_range(d, n, true, RA); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access_range(s, n, false, RA); access_range(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access_range(d, n, true, RA); return memset(d, c, n); }

#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, RA); } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, RA); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T) { return v; }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)(o + v); }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)(o - v); }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)(o & v); }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)(o | v); }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)(o ^ v); }, mo, RA); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, [=](T o) { return (T)~(o & v); }, mo, RA); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T n, int mo, int fmo) { return a_cas<T>(p, e, n, mo, fmo, false, RA); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T n, int mo, int fmo) { return a_cas<T>(p, e, n, mo, fmo, true, RA); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T n, int mo, int fmo) { T x = e; a_cas<T>(p, &x, n, mo, fmo, false, RA); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
  if (!cur || ending) return;
  if (mo == MO_ACQ || mo == MO_AR || mo == MO_SC || mo == MO_CNS) vjoin(cur->vc, cur->acqf);
  if (mo == MO_REL || mo == MO_AR || mo == MO_SC) { cur->relf = cur->vc; cur->has_relf = true; cur->vc.c[cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- guards, TLS, atexit
int __cxa_guard_acquire(uint64_t* g) {
  char* c = (char*)g;
  if (!cur) { if (c[0]) return 0; return 1; }
  point();
  while (!c[0] && c[1]) { spin_obs(g, 1); cur->spin = true; point(); }
  acquire_from(meta(g).v);
  if (c[0]) return 0;
  c[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) {
  char* c = (char*)g; c[0] = 1; c[1] = 0;
  if (cur) { at_access(g, 1, true, RA); release_to(meta(g).v); progress(); }
}
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; if (cur) progress(); }
int __cxa_atexit(void (*f)(void*), void* a, void* d) {
  if (cur) return 0;
  static int (*real)(void (*)(void*), void*, void*);
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real ? real(f, a, d) : 0;
}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
struct emutls_obj { size_t size, align; void* loc; void* templ; };
void* __emutls_get_address(emutls_obj* o) {
  Fiber& f = cur ? *cur : F[MAXF];
  for (int i = 0; i < f.ntls; i++) if (f.tls[i].key == o) return f.tls[i].mem;
  void* m = cur ? rt::alloc(o->size) : malloc(o->size);
  if (o->templ) memcpy(m, o->templ, o->size); else memset(m, 0, o->size);
  if (f.ntls < 16) { f.tls[f.ntls].key = o; f.tls[f.ntls++].mem = m; }
  return m;
}

// ---------------------------------------------------------------- pthread
pthread_t pthread_self() noexcept {
  if (!cur) return (pthread_t)0x7000;
  return (pthread_t)(0x7100 + 0x100 * cur->id);
}
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

struct PM { int owner; int count; int pad[2]; int kind; };   // within pthread_mutex_t (kind at 16)
static bool modelled(const void* p) { return cur && !ending && known(p); }
static int64_t ts2ns(const timespec* t) {
  __int128 v = (__int128)t->tv_sec * SEC + t->tv_nsec;
  if (v > TINF / 2) return TINF;
  if (v < INT64_MIN / 2) return INT64_MIN / 2;
  return (int64_t)v;
}
static int clkof(clockid_t c) { return (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW) ? 0 : 1; }
static bool past(int64_t dl, int clk) { return dl != TINF && st_of(dl, clk) <= tnow; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) noexcept {
  memset((void*)m, 0, sizeof *m);
  int ty = 0; if (at) pthread_mutexattr_gettype(at, &ty);
  ((PM*)m)->kind = ty;
  if (modelled(m)) {
    if (C.native && res_fault("no more native mutexes")) { memset((void*)m, 0x5a, sizeof *m); native_failed(m, "native mutex"); return ENOMEM; }
    native_made(m, "native mutex");
  }
  return 0;
}
int pthread_mutexattr_init(pthread_mutexattr_t* a) noexcept {
  *(int*)a = 0;
  if (cur && !ending && C.native) {
    if (res_fault("no memory for attributes")) { native_failed(a, "mutex attributes object"); return ENOMEM; }
    native_made(a, "mutex attributes object");
  }
  return 0;
}
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) noexcept { native_gone(a, "mutex attributes object", true); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (!modelled(m)) return 0;
  touch(m, "mutex destroy", RA);
  native_gone(m, "native mutex", false);
  if (((PM*)m)->owner) { if (C.uad) violate(V_UAD, "t%d destroys a locked native mutex", cur->id); return EBUSY; }
  return 0;
}
static int m_lock(pthread_mutex_t* mm, bool timed, int64_t dl, int clk, bool badns, const void* pc) {
  PM* m = (PM*)mm;
  if (!modelled(mm)) return 0;
  point();
  touch(mm, "mutex lock", pc); native_used(mm, "native mutex");
  int me = cur->id + 1;
  int kind = m->kind & 3;
  if (m->owner == me) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { if (res_fault("maximum depth of the native mutex reached")) return EAGAIN; m->count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (!timed) { S.mblocked++; for (;;) { block(B_MUTEX, m); } }
  }
  bool first = true;
  while (m->owner) {
    if (timed && badns) return EINVAL;
    if (timed && past(dl, clk)) { return ETIMEDOUT; }
    if (first) { S.mblocked++; first = false; }
    if (timed) parked(true);
    Woke w = block(B_MUTEX, m, timed ? dl : TINF, clk);
    touch(mm, "mutex lock", pc);
    if (w == WK_TIMEOUT && m->owner) return ETIMEDOUT;
  }
  m->owner = me; m->count = 1;
  acquire_from(meta(m).v);
  progress();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return m_lock(m, false, 0, 0, false, RA); }
int pthread_mutex_trylock(pthread_mutex_t* mm) noexcept {
  PM* m = (PM*)mm;
  if (!modelled(mm)) return 0;
  point();
  touch(mm, "mutex trylock", RA); native_used(mm, "native mutex");
  if (m->owner == cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { if (res_fault("maximum depth of the native mutex reached")) return EAGAIN; m->count++; return 0; }
  if (m->owner) { S.trylock_fail++; spin_obs(m, m->owner); return EBUSY; }
  m->owner = cur->id + 1; m->count = 1;
  acquire_from(meta(m).v); progress();
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept {
  return m_lock(m, true, ts2ns(t), 1, t->tv_nsec < 0 || t->tv_nsec > 999999999, RA);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept {
  return m_lock(m, true, ts2ns(t), clkof(c), t->tv_nsec < 0 || t->tv_nsec > 999999999, RA);
}
static void m_release(PM* m) {
  release_to(meta(m).v);
  m->owner = 0; m->count = 0;
  for (int i = 0; i < nf; i++) if (F[i].st == B_MUTEX && F[i].wobj == m) { F[i].st = READY; F[i].woke = WK_NOTIFY; }
  progress();
}
int pthread_mutex_unlock(pthread_mutex_t* mm) noexcept {
  PM* m = (PM*)mm;
  if (!modelled(mm)) return 0;
  point();
  touch(mm, "mutex unlock", RA);
  if (m->owner != cur->id + 1) {
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE || (m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    violate(V_UB, "t%d unlocks a native mutex it does not own", cur->id);
  }
  if (--m->count > 0) return 0;
  m_release(m);
  return 0;
}

// condition variables: the object itself stays untouched except for the clock flag
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) noexcept {
  memset((void*)c, 0, sizeof *c);
  clockid_t k = CLOCK_REALTIME; if (at) pthread_condattr_getclock(at, &k);
  ((int*)c)[1] = clkof(k) == 0 ? 1 : 0;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  touch(c, "cond destroy", RA);
  for (int i = 0; i < nf; i++) if (F[i].st == W_COND && F[i].wobj == c && C.uad)
    violate(V_UAD, "t%d destroys a condition variable t%d is blocked on", cur->id, i);
  return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* mm, bool timed, int64_t dl, int clk, const void* pc) {
  if (!modelled(c)) return 0;
  point();
  touch(c, "cond wait", pc);
  PM* m = (PM*)mm;
  if (m->owner != cur->id + 1) violate(V_UB, "t%d waits on a condition variable without owning the mutex", cur->id);
  int cnt = m->count;
  bool imm = timed && st_of(dl, clk) <= tnow;
  m_release(m);
  parked(timed);
  Woke w = block(W_COND, c, timed ? dl : TINF, clk);
  m_lock(mm, false, 0, 0, false, pc);
  m->count = cnt;
  if (w == WK_TIMEOUT && imm && ++cur->imm > 3) set_now(tnow + 1000);   // time goes on for a caller that polls
  return w == WK_TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, false, 0, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999) return EINVAL;
  return c_wait(c, m, true, ts2ns(t), ((int*)c)[1] ? 0 : 1, RA);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999) return EINVAL;
  return c_wait(c, m, true, ts2ns(t), clkof(k), RA);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  point();
  touch(c, "cond signal", RA);
  Fiber* w[MAXF]; int n = 0;
  for (int i = 0; i < nf; i++) if (F[i].st == W_COND && F[i].wobj == c) w[n++] = &F[i];
  S.notifies++;
  if (!n) return 0;
  uint32_t k = n > 1 ? schoice(n, R.below(n)) : 0;
  w[k]->st = READY; w[k]->woke = WK_NOTIFY;
  if (past(w[k]->dl, w[k]->dclk) && schoice(2, R.p(0.5))) w[k]->woke = WK_TIMEOUT;   // a timeout may consume the signal
  progress();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  point();
  touch(c, "cond broadcast", RA);
  S.notifies++;
  bool any = false;
  for (int i = 0; i < nf; i++) if (F[i].st == W_COND && F[i].wobj == c) { F[i].st = READY; F[i].woke = WK_NOTIFY; any = true; }
  if (any) progress();
  return 0;
}

struct PR { int writer; int nr; int rd[2]; };   // within pthread_rwlock_t
static int rwkind(pthread_rwlock_t* r) { return r->__data.__flags; }
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t* at) noexcept {
  memset((void*)r, 0, sizeof *r);
  int k = 0; if (at) pthread_rwlockattr_getkind_np(at, &k);
  r->__data.__flags = k;
  if (modelled(r)) native_made(r, "native rwlock");
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* r) noexcept {
  if (!modelled(r)) return 0;
  touch(r, "rwlock destroy", RA);
  native_gone(r, "native rwlock", false);
  PR* p = (PR*)r;
  if ((p->writer || p->nr) && C.uad) violate(V_UAD, "t%d destroys a locked native rwlock", cur->id);
  return 0;
}
static bool rw_ok(pthread_rwlock_t* r, bool w) {
  PR* p = (PR*)r;
  if (w) return !p->writer && !p->nr;
  if (p->writer) return false;
  if (rwkind(r) == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP)
    for (int i = 0; i < nf; i++) if (&F[i] != cur && F[i].st == B_RWW && F[i].wobj == r) return false;
  return true;
}
static void rw_take(pthread_rwlock_t* r, bool w) {
  PR* p = (PR*)r; SMeta& m = meta(r);
  if (w) { p->writer = cur->id + 1; acquire_from(m.r); } else p->nr++;
  acquire_from(m.v);
  progress();
}
static int rw_lock(pthread_rwlock_t* r, bool w, bool timed, int64_t dl, int clk, bool badns, const void* pc) {
  if (!modelled(r)) return 0;
  point();
  touch(r, "rwlock lock", pc); native_used(r, "native rwlock");
  PR* p = (PR*)r;
  if (badns) return EINVAL;
  if (p->writer == cur->id + 1) return EDEADLK;
  if (!w && res_fault("maximum number of readers reached")) return EAGAIN;
  while (!rw_ok(r, w)) {
    if (timed && past(dl, clk)) return ETIMEDOUT;
    if (timed) parked(true);
    Woke k = block(w ? B_RWW : B_RWR, r, timed ? dl : TINF, clk);
    touch(r, "rwlock lock", pc);
    if (k == WK_TIMEOUT && !rw_ok(r, w)) return ETIMEDOUT;
  }
  rw_take(r, w);
  return 0;
}
static int rw_try(pthread_rwlock_t* r, bool w, const void* pc) {
  if (!modelled(r)) return 0;
  point();
  touch(r, "rwlock trylock", pc); native_used(r, "native rwlock");
  if (!w && res_fault("maximum number of readers reached")) return EAGAIN;
  if (!rw_ok(r, w)) { S.trylock_fail++; spin_obs(r, 1); return EBUSY; }
  rw_take(r, w);
  return 0;
}
#define BADNS(t) ((t)->tv_nsec < 0 || (t)->tv_nsec > 999999999)
int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept { return rw_lock(r, false, false, 0, 0, false, RA); }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept { return rw_lock(r, true, false, 0, 0, false, RA); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) noexcept { return rw_try(r, false, RA); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) noexcept { return rw_try(r, true, RA); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* r, const timespec* t) noexcept { return rw_lock(r, false, true, ts2ns(t), 1, BADNS(t), RA); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* r, const timespec* t) noexcept { return rw_lock(r, true, true, ts2ns(t), 1, BADNS(t), RA); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* r, clockid_t c, const timespec* t) noexcept { return rw_lock(r, false, true, ts2ns(t), clkof(c), BADNS(t), RA); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* r, clockid_t c, const timespec* t) noexcept { return rw_lock(r, true, true, ts2ns(t), clkof(c), BADNS(t), RA); }
int pthread_rwlock_unlock(pthread_rwlock_t* r) noexcept {
  if (!modelled(r)) return 0;
  point();
  touch(r, "rwlock unlock", RA);
  PR* p = (PR*)r; SMeta& m = meta(r);
  if (p->writer == cur->id + 1) { release_to(m.v); p->writer = 0; }
  else if (p->nr > 0) { release_to(m.r); p->nr--; }
  else violate(V_UB, "t%d unlocks a native rwlock nobody holds", cur->id);
  for (int i = 0; i < nf; i++) if ((F[i].st == B_RWR || F[i].st == B_RWW) && F[i].wobj == r) { F[i].st = READY; F[i].woke = WK_NOTIFY; }
  progress();
  return 0;
}

int pthread_spin_init(pthread_spinlock_t* s, int) noexcept { *s = 0; if (modelled((void*)s)) native_made((void*)s, "native spinlock"); return 0; }
int pthread_spin_destroy(pthread_spinlock_t* s) noexcept {
  if (!modelled((void*)s)) return 0;
  touch((void*)s, "spin destroy", RA);
  native_gone((void*)s, "native spinlock", true);
  if (*s && C.uad) violate(V_UAD, "t%d destroys a locked native spinlock", cur->id);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* s) noexcept {
  if (!modelled((void*)s)) return 0;
  point();
  touch((void*)s, "spin lock", RA); native_used((void*)s, "native spinlock");
  while (*s) { block(B_MUTEX, (void*)s); touch((void*)s, "spin lock", RA); }
  *s = cur->id + 1;
  acquire_from(meta((void*)s).v); progress();
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* s) noexcept {
  if (!modelled((void*)s)) return 0;
  point();
  touch((void*)s, "spin trylock", RA);
  if (*s) { S.trylock_fail++; spin_obs((void*)s, *s); return EBUSY; }
  *s = cur->id + 1;
  acquire_from(meta((void*)s).v); progress();
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* s) noexcept {
  if (!modelled((void*)s)) return 0;
  point();
  touch((void*)s, "spin unlock", RA);
  if (*s != cur->id + 1) violate(V_UB, "t%d unlocks a native spinlock it does not hold", cur->id);
  release_to(meta((void*)s).v);
  *s = 0;
  for (int i = 0; i < nf; i++) if (F[i].st == B_MUTEX && F[i].wobj == (void*)s) { F[i].st = READY; F[i].woke = WK_NOTIFY; }
  progress();
  return 0;
}

struct PS { unsigned val; };
int sem_init(sem_t* s, int, unsigned v) noexcept {
  if (v > SEM_VALUE_MAX) { errno = EINVAL; return -1; }
  memset((void*)s, 0, sizeof *s); ((PS*)s)->val = v; if (modelled(s)) native_made(s, "native semaphore"); return 0;
}
int sem_destroy(sem_t* s) noexcept {
  if (!modelled(s)) return 0;
  touch(s, "sem destroy", RA);
  native_gone(s, "native semaphore", true);
  for (int i = 0; i < nf; i++) if (F[i].st == W_SEM && F[i].wobj == s && C.uad) violate(V_UAD, "t%d destroys a semaphore t%d is blocked on", cur->id, i);
  return 0;
}
int sem_getvalue(sem_t* s, int* v) noexcept { *v = (int)((PS*)s)->val; return 0; }
int sem_post(sem_t* s) noexcept {
  if (!modelled(s)) return 0;
  point();
  touch(s, "sem post", RA);
  PS* p = (PS*)s;
  if (p->val >= SEM_VALUE_MAX) { errno = EOVERFLOW; return -1; }
  release_to(meta(s).v);
  p->val++;
  for (int i = 0; i < nf; i++) if (F[i].st == W_SEM && F[i].wobj == s) { F[i].st = READY; F[i].woke = WK_NOTIFY; }
  progress();
  return 0;
}
int sem_trywait(sem_t* s) noexcept {
  if (!modelled(s)) return 0;
  point();
  touch(s, "sem trywait", RA);
  PS* p = (PS*)s;
  if (!p->val) { spin_obs(s, 0); errno = EAGAIN; return -1; }
  p->val--; acquire_from(meta(s).v); progress();
  return 0;
}
static int s_wait(sem_t* s, bool timed, int64_t dl, int clk, bool badns, const void* pc) {
  if (!modelled(s)) return 0;
  point();
  touch(s, "sem wait", pc);
  if (badns) { errno = EINVAL; return -1; }
  PS* p = (PS*)s;
  for (;;) {
    if (p->val) { p->val--; acquire_from(meta(s).v); progress(); return 0; }
    if (timed && past(dl, clk)) { errno = ETIMEDOUT; return -1; }
    if (S.eintr < (uint32_t)C.b_eintr && schoice(2, R.p(C.p_eintr) ? 1 : 0)) {
      S.eintr++; cur->eintrf = true;
      if (notes_on) note("      t%d: interrupted by a signal\n", cur->id);
      errno = EINTR; return -1;
    }
    parked(timed);
    Woke w = block(W_SEM, s, timed ? dl : TINF, clk);
    touch(s, "sem wait", pc);
    if (w == WK_TIMEOUT && !p->val) { errno = ETIMEDOUT; return -1; }
  }
}
int sem_wait(sem_t* s) { return s_wait(s, false, 0, 0, false, RA); }
int sem_timedwait(sem_t* s, const timespec* t) { return s_wait(s, true, ts2ns(t), 1, BADNS(t), RA); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { return s_wait(s, true, ts2ns(t), clkof(c), BADNS(t), RA); }

// ---------------------------------------------------------------- time, scheduling
int sched_yield() noexcept {
  if (!cur || ending) return 0;
  cur->yields++;
  if (yield_hook) yield_hook(cur->id);
  cur->spin = true; if (!cur->spin_n) cur->spin_n = 1;
  point();
  return 0;
}
int clock_gettime(clockid_t c, timespec* t) noexcept {
  if (!cur) {
    static int (*real)(clockid_t, timespec*);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, t);
  }
  int64_t v = clkof(c) == 0 ? tnow : tnow + sysoff;
  int64_t s = v / SEC, n = v % SEC; if (n < 0) { n += SEC; s--; }
  t->tv_sec = s; t->tv_nsec = n;
  spin_obs((void*)1, v);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (!cur) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  int64_t v = sysnow(); tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / 1000; return 0;
}
time_t time(time_t* p) noexcept {
  time_t v; if (!cur) { timespec t; clock_gettime(CLOCK_REALTIME, &t); v = t.tv_sec; } else v = sysnow() / SEC;
  if (p) *p = v;
  return v;
}
static int do_sleep(int64_t dl, int clk) {
  if (!is_quiet) count_step();
  block(W_SLEEP, nullptr, dl, clk);
  return 0;
}
int nanosleep(const timespec* t, timespec*) {
  if (!cur) return 0;
  int64_t d = ts2ns(t);
  return do_sleep(d > TINF / 2 ? TINF : tnow + d, 0);
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec*) {
  if (!cur) return 0;
  int64_t d = ts2ns(t);
  return do_sleep(d > TINF / 2 ? TINF : (fl & TIMER_ABSTIME) ? d : (clkof(c) == 0 ? tnow : sysnow()) + d, clkof(c));
}
int usleep(useconds_t u) { if (!cur) return 0; return do_sleep(tnow + (int64_t)u * 1000, 0); }

void abort() noexcept {
  if (cur) {
    violate(V_ABORT, "t%d: abort()", cur->id);
  }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  if (cur) {
    const char* b = strrchr(f, '/');
    violate(V_ABORT, "t%d: assertion failed: %s (%s:%u)", cur->id, e, b ? b + 1 : f, l);
  }
  fprintf(stderr, "%s:%u: %s: assertion %s failed\n", f, l, fn, e);
  _exit(134);
}
} // extern "C"

static bool in_arena(void* p) { return (uintptr_t)p - (uintptr_t)ARENA < ARENA_SZ; }
void* operator new(size_t n) {
  if (cur && cur->in_sut) { if (res_fault("memory is exhausted")) throw std::bad_alloc(); return rt::alloc(n); }
  void* p = malloc(n ? n : 1); if (!p) _exit(96); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t al) {
  size_t a = (size_t)al;
  if (cur && cur->in_sut) { char* p = (char*)rt::alloc(n + a); return (void*)(((uintptr_t)p + a - 1) & ~(a - 1)); }
  void* p = nullptr; if (posix_memalign(&p, a < 8 ? 8 : a, n)) _exit(96); return p;
}
static void del(void* p) {
  if (!p) return;
  if (!in_arena(p)) { free(p); return; }
  if (cur && !ending) {
    size_t n = ((size_t*)p)[-2];
    if (n <= ARENA_SZ) poison(p, n);
  }
}
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete(void* p, std::align_val_t) noexcept { if (!in_arena(p)) free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (!in_arena(p)) free(p); }

namespace rt {
static void on_sig(int sig, siginfo_t* si, void*) {
  if (sig == SIGVTALRM) {
    if (in_case && ++ticks >= 15) {
      if (!vkind) { vkind = V_HANG; snprintf(vmsg, sizeof vmsg, "t%d: endless loop (15 s of CPU time in one case)", cur ? cur->id : -1); }
      ending = true; siglongjmp(crash_jmp, 1);
    }
    return;
  }
  if (!in_case) {
    fprintf(stderr, "rt: signal %d outside a case at %p\n", sig, si->si_addr);
    signal(sig, SIG_DFL); raise(sig); return;
  }
  if (!vkind) {
    vkind = V_CRASH;
    uintptr_t a = (uintptr_t)si->si_addr;
    const char* w = "";
    if (cur && a >= (uintptr_t)cur->stk - 4096 && a < (uintptr_t)cur->stk) w = " (stack overflow: unbounded recursion)";
    snprintf(vmsg, sizeof vmsg, "t%d: signal %d%s", cur ? cur->id : -1, sig, w);
  }
  ending = true;
  if (crash_cb) crash_cb();
  siglongjmp(crash_jmp, 1);
}
static int find_sut(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut")) return 0;
  char *lo = nullptr, *hi = nullptr, *rlo = nullptr, *rhi = nullptr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    char* b = (char*)i->dlpi_addr + p.p_vaddr;
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { lo = b; hi = b + p.p_memsz; }
    if (p.p_type == PT_GNU_RELRO) { rlo = b; rhi = b + p.p_memsz; rhi = (char*)(((uintptr_t)rhi) & ~4095ul); }
  }
  if (lo && rlo && rhi > lo && rlo <= lo) lo = rhi;
  if (lo < hi) { sut_lo = lo; sut_hi = hi; }
  return 1;
}
void init() {
  auto mm = [](void* a, size_t n) {
    void* p = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (a && p != a)) { perror("rt: mmap"); _exit(95); }
    return p;
  };
  mm(ARENA, ARENA_SZ);
  mm(STACKS, STACK_STEP * MAXF);
  for (int i = 0; i < MAXF; i++) mprotect(STACKS + i * STACK_STEP, 4096, PROT_NONE);
  sh_arena = (Cell*)mm(nullptr, ARENA_SZ / 4 * sizeof(Cell));
  sh_stack = (Cell*)mm(nullptr, STACK_STEP * MAXF / 4 * sizeof(Cell));
  dl_iterate_phdr(find_sut, nullptr);
  size_t sn = sut_hi - sut_lo;
  sh_sut = (Cell*)mm(nullptr, (sn / 4 + 1) * sizeof(Cell));
  if (sn) { sut_snap = (char*)malloc(sn); memcpy(sut_snap, sut_lo, sn); }
  metas = (SMeta*)mm(nullptr, NMETA * sizeof(SMeta));
  static char alt[65536];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
  itimerval it{}; it.it_interval.tv_sec = 1; it.it_value.tv_sec = 1;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
} // namespace rt
