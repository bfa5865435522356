// Random programs over semaphores, latches and barriers.
#include "drv.h"
namespace drv {
void (*completion_hook)(int) = nullptr;
namespace {
struct SProf {
  const char* name; const char* rule; unsigned kinds;   // bit per Kind
  bool race = false, spur = true, eintr = true; int timed = 2; bool sysstep = true;
  int access_gap = 10; uint32_t need = 0, ban = T_STD | T_WIN | T_GCD; int eintr_all = 0; int age = 0; bool limits = false, natives = false;
  enum NT { CONT, TIMEOUT, FAULT } nt = CONT;
};
struct SOp { int act, n, rel, clk, dur, def; };
struct SProg { std::vector<SOp> ops; long w; int end; };
struct {
  const SProf* pf; const Adapter* ad; long init; int mode; std::vector<SProg> th; bool far_ok; bool lim, plat; long age; unsigned forms; int again;
} P;
constexpr int NT = 8;
int* cell[2][rt::MAXF]; int cellval[2][rt::MAXF]; int* cbcell; int cbval;
bool fin[rt::MAXF];
int nthreads;

void cells_init() {
  for (int p = 0; p < 2; p++) for (int i = 0; i < rt::MAXF; i++) { cell[p][i] = (int*)rt::alloc(8); *cell[p][i] = 0; cellval[p][i] = 0; }
  cbcell = (int*)rt::alloc(8); *cbcell = 0; cbval = 0;
  memset(fin, 0, sizeof fin);
}
void cwrite(int p, int i) { int v = ++cellval[p][i]; rt::cs_write(cell[p][i], v); }
void cread(int p, int i, const char* why) {
  int v = rt::cs_read(cell[p][i]);
  if (v != cellval[p][i]) rt::violate(rt::V_DATA, "t%d reads %d written by t%d before %s, expected %d", rt::self(), v, i, why, cellval[p][i]);
}
bool all_done() { for (int i = 1; i <= nthreads; i++) if (!fin[i]) return false; return true; }
const int64_t SLEEPS[] = {3 * MS, 12 * MS, 7200 * SEC, 1 * MS, 40 * MS};
void time_act(const SOp& p) {
  switch (p.rel % 8) {
  case 0: if (P.pf->sysstep) rt::sys_step(p.n & 1 ? 30 * MS : -40 * MS); break;
  case 1: case 2: rt::advance(p.n * 1 * MS); break;
  default: rt::sleep_for(SLEEPS[(p.rel + p.n) % 5]);
  }
}

// ---------------------------------------------------------------- semaphore
// modes: 0 free, 1 binary semaphore used as a mutex, 2 channel (writers release, readers acquire), 3 counting with data
long upper;       // permits possibly present
int prodn;
long semmax() { return P.ad->max; }
bool acq(int k, const SOp& p) {
  int r = do_op(0, k, 1, DL{p.rel, p.clk, p.dur});
  if (P.plat && k == O_ACQ) for (int i = 0; r == R_EXC && !cx.m.objs[0].broken && i < 20; i++) r = do_op(0, k);
  bool ok = r == R_OK || r == R_TRUE;
  if (ok) upper--;
  return ok;
}
void rel(long n, bool def) {
  upper += n;
  int r = do_op(0, O_REL, n, {}, 0, def);
  if (P.plat && !cx.m.objs[0].broken) for (int i = 0; r == R_EXC && i < 20; i++) r = do_op(0, O_REL, n);
}
static const int ACQS[] = {O_ACQ, O_TRYACQ, O_ACQFOR, O_ACQUNTIL};
void sem_thread(void* a) {
  SProg& pr = *(SProg*)a; int t = rt::self(); bool have = false;
  for (auto& p : pr.ops) {
    if (P.mode == 2) {
      if (t <= prodn) { if (!have) { cwrite(0, t); have = true; rel(pr.w, p.def); } else time_act(p); }
      else if (p.act < 4) { if (p.act != 0) acq(ACQS[p.act], p); }
      else if (p.act == 5) time_act(p);
      continue;
    }
    switch (p.act) {
    case 0: case 1: case 2: case 3:
      if (P.mode == 1) {
        if (have) { touch_data(0, true); have = false; rel(1, p.def); }
        else if (acq(ACQS[p.act], p)) { have = true; touch_data(0, true); }
      } else acq(ACQS[p.act], p);
      break;
    case 4:
      if (P.mode == 1) { if (have) { touch_data(0, true); have = false; rel(1, p.def); } }
      else { long n = P.lim && p.n == 3 && !(P.ad->traits & (T_POSIX | T_GCD)) ? semmax() - upper : p.n; if (n > semmax() - upper) n = semmax() - upper; if (n > 0 || p.n == 0) rel(n, p.def); }
      break;
    case 5: if (have) touch_data(0, true); time_act(p); break;
    }
  }
  if (P.mode == 1 && have) { touch_data(0, true); rel(1, true); }
  fin[t] = true;
}
void sem_main(void*) {
  cells_init(); nthreads = (int)P.th.size();
  add_object(P.ad, P.init); upper = P.init; if (P.age) age(0, P.age, P.forms);
  for (int i = 0; i < P.again && !cx.m.objs[0].broken; i++) { do_op(0, O_TRYACQ); rebirth(0); }
  for (auto& th : P.th) rt::spawn(sem_thread, &th);
  if (P.mode == 2) {
    // the reader acquires everything, then every writer's data is visible
    long need = P.init; for (int i = 0; i < prodn; i++) need += P.th[i].w;
    long got = 0;
    SOp z{0, 0, 0, 0, 0, 0};
    // others may have taken some; they report through upper: permits left for us is the total minus theirs
    for (int guard = 0; guard < 200; guard++) {
      long taken = 0; for (auto& o : cx.m.ops) if (o.t && o.a.op != O_REL && (o.res == R_OK || o.res == R_TRUE)) taken++;
      if (got + taken >= need) break;
      if (all_done()) { acq(O_ACQ, z); got++; }
      else if (acq(O_ACQFOR, SOp{2, 0, 10, 0, 0, 0})) got++;
    }
    if (got == need) for (int i = 1; i <= prodn; i++) cread(0, i, "release()");
  } else {
    for (int r = 0; r < 100 && !all_done(); r++) {
      rt::sleep_for(8000 * SEC);
      if (all_done()) break;
      if (P.mode == 0 && upper < semmax()) rel(r & 1 && upper <= semmax() - 2 ? 2 : 1, true);
    }
  }
  rt::join_all();
  for (int i = 0; i < 60; i++) { int r = do_op(0, O_TRYACQ); if (r != R_TRUE) break; upper--; }
  if (P.mode != 2 && upper == 0) { rel(1, true); do_op(0, O_ACQ); upper--; }
  destroy(0);
  natives_done();
}
void sem_plan() {
  auto& R = rt::rng();
  static const int wm[] = {5, 3, 2};
  P.mode = weighted(wm, 3);
  long mx = P.ad->max;
  if (P.mode == 1) P.init = 1;
  else if (P.mode == 2) P.init = 0;
  else { P.init = rt::draw(4); if (P.init == 3) P.init = rt::draw(8); if (P.lim) P.init = mx - (P.init < mx ? P.init : 0); if (P.init > mx) P.init = mx; }
  int nt = range(2, 4);
  auto sw = [&](int w) { return rt::drawv(2, R.p(0.8)) ? w : 0; };
  int wa = sw(4), wt = sw(2), wf = sw(P.pf->timed), wu = sw(P.pf->timed), wtime = sw(1);
  if (wa + wt + wf + wu == 0) wa = 1;
  if (P.mode == 2) {
    prodn = range(1, nt);
    if (mx < prodn) prodn = (int)mx;     // all permits may be there at once
  }
  long left = mx > 1000 ? 1000 : mx;
  int relmode = rt::draw(3);
  for (int i = 0; i < nt; i++) {
    SProg pr; pr.end = 0; pr.w = 1;
    if (P.mode == 2 && i < prodn) { pr.w = 1 + rt::draw(3); long rest = left - (prodn - 1 - i); if (pr.w > rest) pr.w = (int)rest; left -= pr.w; }
    int n = range(1, 5);
    for (int k = 0; k < n; k++) {
      SOp p;
      p.act = weighted({wa, wt, wf, wu, 4, wtime});
      p.n = rt::draw(4); if (p.n == 0 && rt::draw(4)) p.n = 1;
      p.rel = relmode == 2 ? rt::draw(NREL) : rt::draw(8);
      p.clk = rt::draw(C_N); p.dur = rt::draw(D_N); p.def = rt::draw(2);
      pr.ops.push_back(p);
    }
    P.th.push_back(pr);
  }
}
// ---------------------------------------------------------------- latch
long lleft;          // not yet counted down (at invocation)
uint32_t contributed;
bool wrote[rt::MAXF];
void latch_open_seen() {
  if (lleft) rt::violate(rt::V_SPEC, "t%d sees the latch open although %ld of %ld were never counted down", rt::self(), lleft, P.init);
  for (int i = 0; i <= nthreads; i++) if (contributed >> i & 1) cread(0, i, "count_down()");
}
void cd(int op, long n, bool def) {
  int t = rt::self();
  if (P.lim && n == 3 && lleft > 0) n = lleft - 1;
  if (P.lim && n == 2) n = lleft / 2;
  if (n > lleft) n = lleft;
  if (def && n != 1) def = false;
  lleft -= n;
  if (n > 0 && !(contributed >> t & 1) ) { if (!wrote[t]) { cwrite(0, t); wrote[t] = true; } contributed |= 1u << t; }
  do_op(0, op, n, {}, 0, def);
  if (op == O_AW) latch_open_seen();
}
void latch_thread(void* a) {
  SProg& pr = *(SProg*)a; int t = rt::self();
  for (auto& p : pr.ops) switch (p.act) {
    case 0: cd(O_CD, p.n, p.def); break;
    case 1: do_op(0, O_WAIT); latch_open_seen(); break;
    case 2: if (do_op(0, O_TRYWAIT) == R_TRUE) latch_open_seen(); break;
    case 3: cd(O_AW, p.n, p.def); break;
    case 4: time_act(p); break;
  }
  fin[t] = true;
}
void latch_main(void*) {
  cells_init(); nthreads = (int)P.th.size(); contributed = 0; lleft = P.init; memset(wrote, 0, sizeof wrote);
  add_object(P.ad, P.init); if (P.age) age(0, P.age, P.forms);
  for (auto& th : P.th) rt::spawn(latch_thread, &th);
  for (int r = 0; r < 20 && !all_done(); r++) {
    rt::sleep_for(9000 * SEC);
    if (lleft && !all_done()) cd(O_CD, r < 3 ? 1 : lleft, true);
  }
  rt::join_all();
  if (do_op(0, O_TRYWAIT) == R_TRUE) {
    latch_open_seen(); do_op(0, O_WAIT); do_op(0, O_CD, 0); do_op(0, O_AW, 0); do_op(0, O_WAIT);
  } else {
    do_op(0, O_CD, 0); do_op(0, O_TRYWAIT);
    cd(O_CD, lleft, false); do_op(0, O_TRYWAIT); do_op(0, O_WAIT);
  }
  destroy(0);
}
void latch_plan() {
  auto& R = rt::rng();
  static const int wi[] = {1, 4, 4, 3, 2};
  P.init = weighted(wi, 5); if (P.init == 4) P.init = 4 + rt::draw(6);
  if (P.lim) P.init = P.ad->max - P.init;
  int nt = range(2, 5);
  auto sw = [&](int w) { return rt::drawv(2, R.p(0.8)) ? w : 0; };
  int ww = sw(3), wt = sw(3), wa = sw(3), wtime = sw(1);
  for (int i = 0; i < nt; i++) {
    SProg pr; pr.end = 0; pr.w = 0;
    int n = range(1, 4);
    for (int k = 0; k < n; k++) {
      SOp p; p.act = weighted({4, ww, wt, wa, wtime});
      p.n = rt::draw(4); if (p.n == 0 && rt::draw(3)) p.n = 1;
      p.rel = rt::draw(8); p.clk = p.dur = 0; p.def = rt::draw(2);
      pr.ops.push_back(p);
    }
    P.th.push_back(pr);
  }
}
// ---------------------------------------------------------------- barrier
long phase_done;                 // phases whose completion function ran
void on_completion(int) {
  int v = rt::cs_read(cbcell);
  if (v != cbval) rt::violate(rt::V_DATA, "the completion function reads %d, the previous one wrote %d", v, cbval);
  int par = (int)(phase_done & 1);
  for (int i = 1; i <= nthreads; i++) cread(par, i, "arriving");
  phase_done++;
  rt::cs_write(cbcell, ++cbval);
}
void phase_over(int ph, bool mine) {
  // waits for phase ph have returned: everybody's writes before arriving are visible
  int par = ph & 1;
  if (mine) for (int i = 1; i <= nthreads; i++) cread(par, i, "arriving");
  if (P.ad->traits & T_CALLBACK) {
    if (phase_done <= ph) rt::violate(rt::V_SPEC, "t%d is released from phase %d before its completion function ran", rt::self(), ph);
    if (mine) { int v = rt::cs_read(cbcell); if (v != cbval && v <= ph) rt::violate(rt::V_DATA, "t%d does not see the completion function's write", rt::self()); }
  }
}
void barrier_thread(void* a) {
  SProg& pr = *(SProg*)a; int t = rt::self(); long w = pr.w; int ph = 0; bool old = false;
  size_t k = 0;
  while (w > 0) {
    SOp p = k < pr.ops.size() ? pr.ops[k] : SOp{pr.end ? 3 : 9, 0, 0, 0, 0, 0};
    k++;
    if (p.act == 9) break;         // leaves without arriving: later phases never complete
    if (p.rel == 7) time_act(p);
    cwrite(ph & 1, t);
    switch (p.act) {
    case 0:                        // everything in one arrive
      do_op(0, O_ARRIVE, w, {}, 1, p.def);
      if (p.rel == 6) time_act(p);
      do_op(0, O_BWAIT, 1, {}, 1);
      break;
    case 1:                        // unit by unit, one token kept for later
      for (int i = 0; i < w - 1; i++) { int s = !old && p.def ? 2 : 1; do_op(0, O_ARRIVE, 1, {}, s, true); if (s == 2) old = true; }
      do_op(0, O_ARRIVE, 1, {}, 1); rt::yield_point();
      do_op(0, O_BWAIT, 1, {}, 1);
      break;
    case 2:
      if (w > 1) do_op(0, O_ARRIVE, w - 1, {}, 1);
      do_op(0, O_BAW);
      break;
    case 3:
      if (w > 1) { do_op(0, O_ARRIVE, w - 1, {}, 1); }
      do_op(0, O_BDROP);
      if (w > 1) do_op(0, O_BWAIT, 1, {}, 1);
      w--;
      if (w == 0) { if (old) { /* its phase may not be over unless a wait proved it */ } fin[t] = true; return; }
      break;
    }
    phase_over(ph, true);
    ph++;
    if (old && p.n >= 2) { do_op(0, O_BWAIT, 1, {}, 2); old = false; }   // a token of a finished phase
  }
  fin[t] = true;
}
void barrier_main(void*) {
  cells_init(); nthreads = (int)P.th.size(); phase_done = 0; completion_hook = on_completion;
  add_object(P.ad, P.init); if (P.age) age(0, P.age, P.forms, P.init);
  for (auto& th : P.th) rt::spawn(barrier_thread, &th);
  rt::join_all();
  destroy(0);
}
void barrier_plan() {
  auto& R = rt::rng();
  int nt = range(1, 4); if (nt == 1 && rt::draw(3)) nt = 2;
  P.init = 0; bool allend = rt::drawv(2, R.p(0.8));
  auto sw = [&](int w) { return rt::drawv(2, R.p(0.8)) ? w : 0; };
  int w0 = sw(3), w1 = sw(2), w2 = sw(3), w3 = sw(1);
  if (w0 + w1 + w2 + w3 == 0) w2 = 1;
  int n = range(1, 4);
  for (int i = 0; i < nt; i++) {
    SProg pr; static const int ww[] = {6, 2, 1}; pr.w = 1 + weighted(ww, 3);
    pr.end = allend || rt::draw(3);
    bool huge = P.lim && i == nt - 1;
    if (huge) { pr.w = P.ad->max - P.init - rt::draw(4); pr.end = 0; }
    P.init += pr.w;
    for (int k = 0; k < n; k++) {
      SOp p; p.act = weighted({w0, w1, w2, w3}); if (huge && p.act == 1) p.act = 0; p.n = rt::draw(4); p.rel = rt::draw(8); p.clk = p.dur = 0; p.def = rt::draw(2);
      pr.ops.push_back(p);
    }
    P.th.push_back(pr);
  }
}
void run_case(const SProf& pf, Outcome& out) {
  cx.reset(); completion_hook = nullptr; cx.may_break = false;
  P.pf = &pf; P.th.clear(); P.mode = 0; P.init = 0; P.lim = false; P.age = 0; P.plat = false; P.again = 0;
  static std::map<std::string, std::vector<const Adapter*>> cache;
  auto& pool = cache[pf.name];
  if (pool.empty()) pool = pick([&](const Adapter& a) { return !(a.traits & pf.ban) && (!pf.need || (a.traits & pf.need)) && (pf.kinds >> a.kind & 1); });
  if (pool.empty()) { fprintf(stderr, "no adapter for %s\n", pf.name); exit(3); }
  P.ad = choose(pool);
  void (*mainf)(void*) = nullptr;
  if (pf.age) {
    static const long ages[] = {65536, 256, 255, 65535, 65537, 257, 254, 65534};
    if (rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.age)) { P.age = ages[rt::drawv(8, rt::rng().p(0.8) ? 1 + 4 * rt::rng().below(2) : rt::rng().below(8))] + rt::draw(6); P.forms = rt::draw(65536); }
    P.lim = rt::drawv(2, rt::rng().p(0.4));
  }
  P.plat = P.ad->traits & (T_WIN | T_GCD);
  if (P.plat) { cx.salt = rt::draw(3); P.lim = rt::drawv(2, rt::rng().p(0.1)); }
  switch (P.ad->kind) {
  case K_SEM: sem_plan(); mainf = sem_main; break;
  case K_LATCH: latch_plan(); mainf = latch_main; break;
  default: barrier_plan(); mainf = barrier_main; break;
  }
  rt::CaseCfg c = gen_cfg(P.ad->kind == K_SEM, pf.spur, false, pf.eintr && P.ad->kind == K_SEM && (P.ad->traits & (T_POSIX | T_WIN | T_GCD)));
  cx.may_break = P.plat && P.mode == 0;
  if (P.plat) c.slack = 45 * MS;
  if ((c.native = cx.natives = pf.natives)) P.again = rt::draw(3);
  c.race = pf.race;
  if (pf.eintr_all) { c.b_eintr = 2 + rt::draw(8); }
  if (pf.access_gap && rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.access_gap)) c.acc_gap = 3 + rt::rng().below(40);
  rt::case_begin(c);
  bool finished = rt::case_run(mainf, nullptr);
  completion_hook = nullptr;
  auto& s = rt::stats();
  int nfalse = 0, ntmo = 0; uint32_t seen = 0;
  for (auto& o : cx.m.ops) { if (o.res == R_FALSE) { if (o.timed) ntmo++; else nfalse++; } if (o.t) seen |= 1u << o.t; }
  if (s.parks) cx.cls["waited"]++;
  if (s.timeouts) cx.cls["a timer fired"]++;
  if (ntmo) cx.cls["timed call returned false"]++;
  if (nfalse) cx.cls["try returned false"]++;
  if (s.spurious) cx.cls["spurious wake-up"]++;
  if (s.eintr) cx.cls["interrupted by a signal"]++;
  if (s.acc_preempts) cx.cls["preempted at plain accesses"]++;
  if (!finished) cx.cls["ends blocked"]++;
  if (P.ad->kind == K_BARRIER) { int nd = 0; for (auto& o : cx.m.ops) if (o.a.op == O_BDROP) nd++; if (nd) cx.cls["with arrive_and_drop"]++; }
  cx.cls[std::string("type ") + P.ad->name]++;
  judge(out, finished);
  out.nontrivial = (seen & (seen - 1)) && (s.parks || s.mblocked || nfalse || ntmo);
  if (pf.nt == SProf::TIMEOUT) out.nontrivial = (seen & (seen - 1)) && ntmo;
  if (pf.nt == SProf::FAULT) out.nontrivial = out.nontrivial && (s.spurious || s.eintr);
}
std::vector<SProf> profs;
} // namespace

void init_sync() {
  auto& v = profs; v.reserve(32);
  auto add = [&](SProf p) { v.push_back(p); };
  { SProf p; p.name = "C14"; p.kinds = 1u << K_SEM;
    p.rule = "2-4 threads on a semaphore (portable and POSIX, least_max 1, 5, default; initial 0-7): free mixes of every acquire form and release(0-3) within max(), a binary semaphore as a mutex, and channels; the main thread rescues blocked threads, then drains and probes the count; judged by a permit-counting model at every event; non-trivial: two threads took part and some call waited, was refused or timed out; distinct by history";
    add(p); }
  { SProf p; p.name = "C15"; p.kinds = 1u << K_LATCH;
    p.rule = "2-5 threads calling count_down(0-3), wait, try_wait, arrive_and_wait(0-3) on a latch of 0-9; the main thread completes the count late; after opening every call is tried again; judged by a counting model; non-trivial: two threads took part and some call waited or saw the latch closed; distinct by history";
    add(p); }
  { SProf p; p.name = "C16"; p.kinds = 1u << K_BARRIER;
    p.rule = "1-4 participants of weight 1-3 over several phases using arrive(n)+wait, unit-wise arrivals with tokens kept for later phases, arrive_and_wait and arrive_and_drop, with and without completion function; judged by a phase model (completion once, after all arrivals, before releases) and per-phase data; non-trivial: two threads took part and some call waited; distinct by history";
    add(p); }
  { SProf p; p.name = "C02s"; p.kinds = 1u << K_SEM | 1u << K_LATCH | 1u << K_BARRIER; p.race = true; p.access_gap = 0;
    p.rule = "semaphore, latch and barrier programs in which threads write data before release / count_down / arrive and read it after the acquisition it enables, under the happens-before oracle; non-trivial: two threads took part and some call waited or was refused; distinct by history";
    add(p); }
  { SProf p; p.name = "C05s"; p.kinds = 1u << K_SEM; p.timed = 6; p.nt = SProf::TIMEOUT;
    p.rule = "semaphore programs dominated by timed acquisitions under virtual time with system-clock steps; non-trivial: a timed call returned false; distinct by history";
    add(p); }
  { SProf p; p.name = "C25s"; p.kinds = 1u << K_SEM | 1u << K_LATCH | 1u << K_BARRIER; p.nt = SProf::FAULT;
    p.rule = "semaphore, latch and barrier programs with injected spurious wake-ups (and EINTR for POSIX semaphores); non-trivial: such a fault was injected; distinct by history";
    add(p); }
  { SProf p; p.name = "C22s"; p.kinds = 1u << K_SEM; p.need = T_POSIX; p.eintr_all = 1; p.timed = 4; p.nt = SProf::FAULT; p.spur = false;
    p.rule = "POSIX semaphore programs in which blocked calls are interrupted by signals up to 9 times, with deadlines of every clock, also before the epoch and at the end of time; non-trivial: a call was interrupted; distinct by history";
    add(p); }
  { SProf p; p.name = "C24s"; p.kinds = 1u << K_SEM; p.need = T_WIN | T_GCD; p.ban = T_STD; p.timed = 4; p.sysstep = false;
    p.rule = "win:: and gcd::counting_semaphore programs over modelled platform calls; judged by the permit-counting model; non-trivial: two threads took part and some call waited, was refused or timed out; distinct by history";
    add(p); }
  { SProf p; p.name = "C29s"; p.kinds = 1u << K_SEM; p.need = T_POSIX | T_WIN | T_GCD; p.ban = T_STD; p.natives = true; p.sysstep = false;
    p.rule = "programs on posix::, win:: and gcd::counting_semaphore that are constructed, used and destroyed up to three times at the same place, also when the platform refuses to make the native object; every native object made is destroyed exactly once and none is used outside its life; non-trivial: two threads took part and some call waited, was refused or timed out; distinct by history";
    add(p); }
  { SProf p; p.name = "C21s"; p.kinds = 1u << K_SEM | 1u << K_LATCH | 1u << K_BARRIER; p.age = 60;
    p.rule = "semaphores, latches and barriers aged by 254-262 or 65534-65542 uncontended uses or phases, and with counts at the limits of max() (initial value, releases, amounts, expected count); then the programs of C14-C16 under the same models; non-trivial: two threads took part and some call waited, was refused or timed out; distinct by history";
    add(p); }
  for (auto& p : profs) { SProf* q = &p; reg({q->name, "sync", 0, 0, q->rule, [q](Outcome& o) { run_case(*q, o); }}); }
}
} // namespace drv
