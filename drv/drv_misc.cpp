// Destruction (C20), shared_lock (C17), scoped_lock (C18).
#include "drv.h"
#include "../sut/wrap.h"
#include <dlfcn.h>
namespace drv {
namespace {
// ---------------------------------------------------------------- C20
struct DOp { int act, rel, sh; };
struct DProg { std::vector<DOp> ops; int fin, finsh, w; };
struct { const Adapter* ad; std::vector<DProg> th; int destroyer, dacq, dsh; long init; } D;
bool dn[rt::MAXF]; bool gone; int nthr; long total;
bool can_shared() { return D.ad->kind == K_RW; }
int acq_any(int kind, bool sh) {
  uint32_t tr = D.ad->traits; sh = sh && can_shared();
  if (!(tr & T_TIMED) && kind >= 2) kind -= 2;
  DL far{10, 0, 0};                  // 1 s
  return do_op(0, (sh ? O_SLOCK : O_LOCK) + kind, 1, far);
}
void rel_any() { if (holds_x(rt::self(), 0)) do_op(0, O_UNLOCK); else do_op(0, O_SUNLOCK); }
bool others_done(int t) { for (int i = 1; i <= nthr; i++) if (i != t && !dn[i]) return false; return true; }
void mutex_thread(void* a) {
  DProg& p = *(DProg*)a; int t = rt::self();
  for (auto& o : p.ops) {
    int r = acq_any(o.act, o.sh);
    if (r == R_OK || r == R_TRUE) { touch_data(0, holds_x(t, 0)); if (o.rel == 0) rt::advance(2 * MS); rel_any(); }
  }
  if (t != D.destroyer) {
    // the last use
    for (int g = 0;; g++) {
      int r = acq_any(g > 20 ? 0 : p.fin, p.finsh);
      if (r == R_OK || r == R_TRUE) break;
      if (p.fin == 1) rt::sleep_for(1 * MS);
    }
    touch_data(0, holds_x(t, 0));
    dn[t] = true;
    rel_any();
    return;
  }
  for (int g = 0; g < 400; g++) {
    // shared only if every other thread's last acquisition is exclusive
    bool sh = D.dsh && can_shared();
    for (int i = 1; i <= nthr; i++) if (i != t && D.th[i - 1].finsh && can_shared()) sh = false;
    int r = acq_any(g > 100 ? 0 : D.dacq, sh);
    if (r != R_OK && r != R_TRUE) { rt::sleep_for(1 * MS); continue; }
    touch_data(0, holds_x(t, 0));
    bool last = others_done(t);
    rel_any();
    if (last) { destroy(0); gone = true; return; }
    if (D.th[t - 1].w == 2) rt::sleep_for(1 * MS); else rt::yield_point();
  }
}
void sync_thread(void* a) {
  DProg& p = *(DProg*)a; int t = rt::self();
  switch (D.ad->kind) {
  case K_SEM:
    if (t != D.destroyer && p.w == 0) return;
    if (t != D.destroyer) { if (p.finsh) { for (int i = 0; i < p.w; i++) do_op(0, O_REL, 1, {}, 0, true); } else do_op(0, O_REL, p.w); return; }
    for (long got = 0; got < total;) {
      DL far{10, 0, 0}; static const int k[] = {O_ACQ, O_TRYACQ, O_ACQFOR, O_ACQUNTIL};
      int kk = k[(D.dacq + (D.dsh ? got : 0)) % 4];
      int r = do_op(0, kk, 1, far);
      if (r == R_OK || r == R_TRUE) got++; else rt::sleep_for(1 * MS);
    }
    break;
  case K_LATCH:
    if (t != D.destroyer) { if (p.finsh) { for (int i = 0; i < p.w; i++) do_op(0, O_CD, 1, {}, 0, true); } else do_op(0, O_CD, p.w); return; }
    if (D.dacq == 0) do_op(0, O_AW, p.w);
    else { do_op(0, O_CD, p.w); if (D.dacq == 1) { for (int g = 0; g < 500 && do_op(0, O_TRYWAIT) != R_TRUE; g++) rt::sleep_for(1 * MS); } else do_op(0, O_WAIT); }
    break;
  default:
    if (t != D.destroyer) {
      // a thread that waits out the earlier phases and only arrives in the last one
      for (int i = 0; i < D.dsh; i++) { do_op(0, O_ARRIVE, p.w, {}, 1); do_op(0, O_BWAIT, 1, {}, 1); }
      if (p.finsh) { for (int i = 0; i < p.w; i++) do_op(0, O_ARRIVE, 1, {}, 1, true); } else do_op(0, O_ARRIVE, p.w, {}, 1);
      return;
    }
    for (int i = 0; i < D.dsh; i++) { do_op(0, O_ARRIVE, p.w, {}, 1); do_op(0, O_BWAIT, 1, {}, 1); }
    if (D.dacq & 1) { if (p.w > 1) do_op(0, O_ARRIVE, p.w - 1, {}, 1); do_op(0, O_BAW); }
    else { do_op(0, O_ARRIVE, p.w, {}, 1); do_op(0, O_BWAIT, 1, {}, 1); }
  }
  destroy(0); gone = true;
}
void d_main(void*) {
  memset(dn, 0, sizeof dn); gone = false; nthr = (int)D.th.size();
  add_object(D.ad, D.init);
  for (auto& t : D.th) rt::spawn(D.ad->kind <= K_RW ? mutex_thread : sync_thread, &t);
  rt::join_all();
}
void run_c20(Outcome& out) {
  cx.reset(); D.th.clear();
  static std::vector<const Adapter*> pool;
  if (pool.empty()) pool = pick([](const Adapter& a) { return !(a.traits & (T_STD | T_NATIVE | T_WIN | T_GCD | T_APPLE)); });
  D.ad = choose(pool);
  int nt = range(2, 4);
  D.destroyer = 1 + rt::draw(nt); D.dacq = rt::draw(4); D.dsh = rt::draw(2); D.init = 0; total = 0;
  if (D.ad->kind == K_BARRIER) D.dsh = rt::draw(3);
  long cap = D.ad->max > 100 ? 100 : D.ad->max;
  for (int i = 0; i < nt; i++) {
    DProg p; p.fin = rt::draw(4); p.finsh = rt::draw(2); p.w = 1 + rt::draw(2);
    if (D.ad->kind == K_SEM && i + 1 != D.destroyer) {
      if (cap <= 0) p.w = 0; else if (p.w > cap) p.w = (int)cap;
      cap -= p.w; total += p.w;
    }
    int n = D.ad->kind <= K_RW ? rt::draw(3) : 0;
    for (int k = 0; k < n; k++) { DOp o; o.act = rt::draw(4); o.rel = rt::draw(5); o.sh = rt::draw(2); p.ops.push_back(o); }
    if (D.ad->kind == K_LATCH || D.ad->kind == K_BARRIER) D.init += p.w;
    D.th.push_back(p);
  }
  rt::CaseCfg c = gen_cfg(true, true, true, true);
  if (rt::drawv(2, rt::rng().p(0.3))) c.acc_gap = 3 + rt::rng().below(40);
  rt::case_begin(c);
  bool fin = rt::case_run(d_main, nullptr);
  cx.cls[std::string("type ") + D.ad->name]++;
  auto& s = rt::stats();
  // was the object destroyed while another call was still returning?
  size_t n; auto e = rt::events(&n); int inflight = 0, open = 0; bool early = false;
  for (size_t i = 0; i < n; i++) {
    if (e[i].kind == rt::EV_INV) { if (cx.m.ops[e[i].a].a.op == O_DTOR) { inflight = open; early = inflight > 0; } else open++; }
    if (e[i].kind == rt::EV_RES && cx.m.ops[e[i].a].a.op != O_DTOR) open--;
  }
  if (early) cx.cls["destroyed while another call was returning"]++;
  judge(out, fin);
  if (!fin && !out.kind && !out.undecided) { out.kind = rt::V_HANG; out.msg = std::string("the program does not finish on ") + D.ad->name; out.history = history_text(); }
  out.nontrivial = early || s.parks || s.mblocked;
}
// ---------------------------------------------------------------- C17
std::vector<long> trace_; std::vector<int> script_; size_t scriptpos;
std::vector<int> wprog; int wret;
wrap_shared_t wrap_shared_f; wrap_scoped_t wrap_scoped_f;
std::vector<long> traces[2];
const char* wname[] = {"shared_lock()", "shared_lock(m)", "shared_lock(m, defer_lock)", "shared_lock(m, try_to_lock)", "shared_lock(m, adopt_lock)",
  "shared_lock(m, time_point)", "shared_lock(m, duration)", "~shared_lock()", "lock()", "try_lock()", "try_lock_for()", "try_lock_until()", "unlock()",
  "move construction", "move assignment", "swap()", "std::swap()", "release()", "move assignment of a temporary"};
void w_main(void*) {
  for (int which = 0; which < 2; which++) {
    trace_.clear(); scriptpos = 0;
    wrap_shared_f(which, wret, wprog.data(), (int)wprog.size() / 5);
    traces[which] = trace_;
  }
}
std::string wtext() {
  std::string s; char b[200];
  for (size_t i = 0; i + 4 < wprog.size(); i += 5) { snprintf(b, sizeof b, "slot %d: %s%s  other slot %d, mutex %d, value %d\n", wprog[i + 1], wname[wprog[i]], "", wprog[i + 2], wprog[i + 3], wprog[i + 4]); s += b; }
  s += "mutex calls answer:"; for (size_t i = 0; i < script_.size() && i < 16; i++) s += " " + std::to_string(script_[i]);
  return s + " (0,1: success, failure of a try; 2: system_error; 3: exception)\n";
}
void run_c17(Outcome& out) {
  cx.reset(); wprog.clear(); script_.clear();
  if (!wrap_shared_f) wrap_shared_f = (wrap_shared_t)dlsym(RTLD_DEFAULT, "wrap_shared");
  if (!wrap_shared_f) { fprintf(stderr, "no wrap_shared\n"); exit(3); }
  auto& R = rt::rng();
  wret = rt::draw(2);
  int n = range(2, 12);
  bool simple = rt::draw(3) == 0;
  for (int i = 0; i < n; i++) {
    static const int w1[] = {2, 2, 4, 2, 2, 1, 1, 1, 5, 5, 2, 2, 6, 3, 5, 3, 2, 2, 2};
    wprog.push_back(weighted(w1, W_N));
    wprog.push_back(rt::draw(simple ? 2 : W_SLOTS)); wprog.push_back(rt::draw(simple ? 2 : W_SLOTS)); wprog.push_back(rt::draw(W_MUT)); wprog.push_back(rt::draw(24));
  }
  double pf = 0.3 * R.unit(), pt = 0.15 * R.unit();
  for (int i = 0; i < 24; i++) { int v = R.p(pf) ? 1 : R.p(pt) ? 2 + (int)R.below(2) : 0; script_.push_back(rt::drawv(4, v)); }
  rt::CaseCfg c; rt::case_begin(c);
  bool fin = rt::case_run(w_main, nullptr);
  out.sample = wtext();
  int k = rt::vio_kind();
  out.kind = k; out.msg = rt::vio_msg();
  (void)fin;
  if (!k && traces[0] != traces[1]) {
    size_t i = 0; while (i < traces[0].size() && i < traces[1].size() && traces[0][i] == traces[1][i]) i++;
    int opi = -1, op = -1; for (size_t j = 0; j <= i && j < traces[0].size(); j++) if (traces[0][j] >= 100 && traces[0][j] < 100 + W_N && j + 1 < traces[0].size()) { opi++; op = (int)traces[0][j] - 100; }
    char b[300]; snprintf(b, sizeof b, "yamc::shared_lock differs from std::shared_lock in %s (observation %zu: %ld instead of %ld)", op >= 0 ? wname[op] : "?", i,
      i < traces[1].size() ? traces[1][i] : -99, i < traces[0].size() ? traces[0][i] : -99);
    out.kind = rt::V_SPEC; out.msg = b;
  }
  uint64_t h = 5; bool ex = false, own = false, tryf = false;
  for (auto x : traces[0]) { h = mix(h, x); if (x / 100 == 40 || x / 100 == 41) ex = true; if (x == 2000) tryf = true; if (x / 100 == 10 || x / 100 == 12) own = true; }
  if (ex) out.classes["an exception was thrown"]++;
  if (tryf) out.classes["a try failed"]++;
  out.sig = h; out.nontrivial = own && traces[0].size() > 12;
  if (out.kind) out.history = out.sample;
}
// ---------------------------------------------------------------- C18
struct SlOp { int objs[6]; int n, hetero, adopt, thr, other; };
std::vector<std::vector<SlOp>> slth; std::vector<const Adapter*> slads;
int throw_at[rt::MAXF]; int fwcalls[rt::MAXF]; bool in_scope[rt::MAXF]; const SlOp* curop[rt::MAXF]; bool holding_phase[rt::MAXF];
void check_none(const char* when) {
  int t = rt::self();
  for (size_t o = 0; o < cx.m.objs.size(); o++) if (holds_x(t, o)) rt::violate(rt::V_SPEC, "t%d still holds #%zu %s", t, o, when);
}
void sl_thread(void* a) {
  auto& ops = *(std::vector<SlOp>*)a; int t = rt::self();
  for (auto& p : ops) {
    if (p.other) {     // a plain user of one of the mutexes
      int o = p.objs[0];
      int r = do_op(o, p.other == 1 ? O_LOCK : O_TRY);
      if (r == R_OK || r == R_TRUE) { touch_data(o, true); if (p.thr & 1) rt::sleep_for(2 * MS); do_op(o, O_UNLOCK); }
      continue;
    }
    curop[t] = &p; throw_at[t] = 0; fwcalls[t] = 0;
    if (p.adopt) for (int i = 0; i < p.n; i++) {}
    if (p.adopt) {   // lock them in ascending order first
      std::vector<int> s(p.objs, p.objs + p.n); std::sort(s.begin(), s.end());
      for (int o : s) do_op(o, O_LOCK);
    } else throw_at[t] = p.thr;
    in_scope[t] = true; holding_phase[t] = false;
    int r = wrap_scoped_f(p.n, p.hetero, p.objs, p.adopt);
    in_scope[t] = false;
    if (r == 0 && !holding_phase[t]) rt::violate(rt::V_SPEC, "t%d: the scope was not entered", t);
    if (r != 0 && holding_phase[t]) rt::violate(rt::V_SPEC, "t%d: exception after construction", t);
    if (r != 0) cx.cls["constructor threw"]++;
    check_none(r ? "after the constructor threw" : "after destruction");
  }
}
void sl_main(void*) {
  for (auto ad : slads) add_object(ad, 0);
  for (auto& t : slth) rt::spawn(sl_thread, &t);
  rt::join_all();
  for (size_t o = 0; o < cx.m.objs.size(); o++) { do_op(o, O_TRY); if (holds_x(0, o)) do_op(o, O_UNLOCK); destroy(o); }
}
void run_c18(Outcome& out) {
  cx.reset(); slth.clear(); slads.clear();
  if (!wrap_scoped_f) wrap_scoped_f = (wrap_scoped_t)dlsym(RTLD_DEFAULT, "wrap_scoped");
  if (!wrap_scoped_f) { fprintf(stderr, "no wrap_scoped\n"); exit(3); }
  static std::vector<const Adapter*> pool;
  if (pool.empty()) pool = pick([](const Adapter& a) { return (a.kind == K_EXCL || a.kind == K_RW) && !(a.traits & (T_NATIVE | T_WIN | T_GCD | T_APPLE | T_SPIN)); });
  if (pool.empty()) { fprintf(stderr, "no adapter for C18\n"); exit(3); }
  int no = range(1, 5);
  const Adapter* first = choose(pool);
  for (int i = 0; i < no; i++) slads.push_back(rt::draw(3) ? first : choose(pool));
  int nt = range(1, 4);
  bool thrm = rt::draw(3) == 0;
  for (int i = 0; i < nt; i++) {
    std::vector<SlOp> v; int n = range(1, 4);
    for (int k = 0; k < n; k++) {
      SlOp p; memset((void*)&p, 0, sizeof p);
      p.other = rt::draw(5) == 4 ? 1 + rt::draw(2) : 0;
      p.n = rt::draw(no + 1); if (p.n == 0 && rt::draw(4)) p.n = no;
      int perm[6] = {0, 1, 2, 3, 4, 5};
      for (int j = 0; j < no - 1; j++) { int x = j + rt::draw(no - j); std::swap(perm[j], perm[x]); }
      memcpy(p.objs, perm, sizeof perm);
      p.hetero = rt::draw(3) == 2; p.adopt = rt::draw(5) == 4;
      p.thr = thrm && rt::draw(2) ? 1 + rt::draw(6) : 0;
      v.push_back(p);
    }
    slth.push_back(v);
  }
  rt::CaseCfg c = gen_cfg(false, true, true, false);
  rt::case_begin(c);
  bool fin = rt::case_run(sl_main, nullptr);
  auto& s = rt::stats();
  int nf = 0; for (auto& o : cx.m.ops) if (o.res == R_FALSE) nf++;
  if (nf) cx.cls["a try_lock was refused"]++;
  if (s.parks || s.mblocked) cx.cls["waited"]++;
  judge(out, fin);
  if (!fin && !out.kind && !out.undecided) { out.kind = rt::V_HANG; out.msg = "threads locking through scoped_lock make no progress"; out.history = history_text(); }
  out.nontrivial = nf || s.parks || s.mblocked || cx.cls.count("constructor threw");
}
// ---------------------------------------------------------------- C16k: does arrive_and_drop wait for the other arrivals?
bool dropret;
void drop_thread(void*) { do_op(0, O_BDROP, 1, {}, 1); dropret = true; }
void drop_main(void*) {
  dropret = false; add_object(D.ad, D.init);
  for (long i = 1; i < D.init - 1; i++) do_op(0, O_ARRIVE, 1, {}, 1);
  rt::spawn(drop_thread, nullptr);
  rt::sleep_for(5 * MS);
  bool ret = dropret;
  do_op(0, O_ARRIVE, 1, {}, 1);
  rt::join_all();
  if (!ret) rt::violate(rt::V_QUIESCE, "arrive_and_drop() does not return before the other threads have arrived at the phase");
}
void run_c16k(Outcome& out) {
  cx.reset();
  static std::vector<const Adapter*> pool;
  if (pool.empty()) pool = pick([](const Adapter& a) { return a.kind == K_BARRIER && !(a.traits & T_STD); });
  D.ad = choose(pool); D.init = range(2, 5);
  rt::CaseCfg c; rt::case_begin(c);
  bool fin = rt::case_run(drop_main, nullptr);
  judge(out, fin);
  out.nontrivial = true;
}
} // namespace

void init_misc() {
  reg({"C16k", "drop", 0, 0, "a barrier of 2-5 threads: one calls arrive_and_drop before the last arrival; it must return without it; every case non-trivial", run_c16k});
  reg({"C20", "destroy", 0, 0, "2-4 threads use an object of any type; the thread that sees everybody's last acquisition (mutexes: exclusive or shared, any call form) or returns from the last wait/acquire (semaphore, latch, barrier) destroys it at once, the memory is poisoned; any later access by a call still returning is a violation; non-trivial: destroyed while another call was in progress, or some call waited; distinct by history", run_c20});
  reg({"C17", "shared_lock", 0, 0, "2-12 random operations on three yamc::shared_lock slots over three scripted mutexes (tries that fail, lock operations that throw, bool and int results) and the same on std::shared_lock; the sequences of mutex calls with arguments, results, exceptions, owns_lock/mutex must be equal; non-trivial: a mutex was locked or unlocked; distinct by observation sequence", run_c17});
  reg({"C18", "scoped_lock", 0, 0, "1-4 threads open scopes of scoped_lock over random permutations of subsets of 1-5 mutexes of all types (0-5 of equal or different lockable types, adopting or locking, the n-th lock call throwing) beside plain users; inside the scope each is held exactly once, outside none, and all threads finish; non-trivial: a call waited, was refused or threw; distinct by history", run_c18});
}
} // namespace drv
using namespace drv;
extern "C" {
void h_trace(long x) { if (trace_.size() < 4000) trace_.push_back(x); }
int h_script() { return scriptpos < script_.size() ? script_[scriptpos++] : 0; }
int h_fw(int o, int op) {
  int t = rt::self();
  if (op == 2) {
    if (!holds_x(t, o)) rt::violate(rt::V_SPEC, "t%d: scoped_lock unlocks #%d, which is not held", t, o);
    touch_data(o, true); do_op(o, O_UNLOCK); return 0;
  }
  if (curop[t]->adopt) rt::violate(rt::V_SPEC, "t%d: adopting scoped_lock locks #%d", t, o);
  if (holding_phase[t]) rt::violate(rt::V_SPEC, "t%d: scoped_lock locks #%d after construction", t, o);
  if (holds_x(t, o)) rt::violate(rt::V_SPEC, "t%d: scoped_lock locks #%d twice", t, o);
  if (throw_at[t] && ++fwcalls[t] == throw_at[t]) return 99;
  int r = do_op(o, op == 0 ? O_LOCK : O_TRY);
  return r == R_OK || r == R_TRUE;
}
void h_body(int n) {
  int t = rt::self(); const SlOp* p = curop[t];
  holding_phase[t] = true;
  if (n != p->n) rt::violate(rt::V_OTHER, "harness: %d", n);
  for (int i = 0; i < n; i++) {
    if (!holds_x(t, p->objs[i])) rt::violate(rt::V_SPEC, "t%d: #%d is not held in the scope of scoped_lock", t, p->objs[i]);
    touch_data(p->objs[i], true);
  }
  for (size_t o = 0; o < cx.m.objs.size(); o++) if (holds_x(t, o)) { bool in = false; for (int i = 0; i < n; i++) in |= p->objs[i] == (int)o; if (!in) rt::violate(rt::V_SPEC, "t%d: #%zu is held, too", t, o); }
  rt::yield_point();
}
}
