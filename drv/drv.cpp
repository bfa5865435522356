#include "drv.h"
#include <algorithm>
namespace drv {
std::vector<const Adapter*>& adapters() { static std::vector<const Adapter*> v; return v; }
std::vector<Driver>& drivers() { static std::vector<Driver> v; return v; }
void reg(const Driver& d) { drivers().push_back(d); }
Ctx cx; Opts opts;
static void* token_mem[rt::MAXF][3];

std::vector<const Adapter*> pick(std::function<bool(const Adapter&)> f) {
  std::vector<const Adapter*> v;
  for (auto a : adapters()) if (f(*a)) v.push_back(a);
  std::sort(v.begin(), v.end(), [](const Adapter* a, const Adapter* b) { return strcmp(a->name, b->name) < 0; });
  return v;
}
int weighted(const int* w, int n) {
  int tot = 0; for (int i = 0; i < n; i++) tot += w[i];
  int v = 0;
  if (!rt::replaying()) { int r = rt::rng().below(tot); for (v = 0; v < n - 1 && r >= w[v]; v++) r -= w[v]; }
  v = rt::drawv(n, v);
  if (w[v] == 0) for (v = 0; v < n - 1 && !w[v]; v++);   // a replayed list may select a disabled entry
  return v;
}
rt::CaseCfg gen_cfg(bool time, bool spur, bool cas, bool eintr) {
  rt::CaseCfg c; auto& R = rt::rng();
  c.strat = R.p(0.4) ? 1 : 0;
  static const double ps[] = {0.05, 0.15, 0.3, 0.5, 0.8};
  c.p_switch = ps[R.below(5)];
  c.pct_depth = 1 + R.below(5);
  c.b_time = rt::drawv(2, time && R.p(0.7)) ? 6 : 0;
  c.p_time = 0.02 + 0.15 * R.unit();
  c.b_spur = rt::drawv(2, spur && R.p(0.5)) ? 4 : 0;
  c.p_spur = 0.02 + 0.2 * R.unit();
  c.b_cas = rt::drawv(2, cas && R.p(0.5)) ? 4 : 0;
  c.p_cas = 0.1 + 0.5 * R.unit();
  c.b_eintr = rt::drawv(2, eintr && R.p(0.6)) ? 3 : 0;
  c.p_eintr = 0.2 + 0.5 * R.unit();
  static const int64_t ups[] = {0, 5 * 86400 * SEC, 200 * 86400 * SEC, 12ll * 365 * 86400 * SEC};
  c.up = ups[rt::drawv(4, R.p(0.3) ? 1 + R.below(3) : 0)];
  return c;
}
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xBF58476D1CE4E5B9ull; }

// the last two: absolute deadlines before the clock's epoch and at the end of time
static const int64_t FAR = 6000000000ll * SEC;
static const int64_t REL_EPOCH = INT64_MIN, REL_MAX = INT64_MAX;
const int64_t REL[] = { 0, 5 * MS, 1 * MS, 20 * MS, -1, 2 * MS, 1, 1 * US, -3 * MS, 10 * MS, 1 * SEC, 3600 * SEC,
  -5 * SEC, 500 * US, 1500 * US, 86400ll * 365 * 50 * SEC, REL_EPOCH, REL_MAX };
const int NREL = sizeof REL / sizeof *REL;

int add_object(const Adapter* ad, long init) {
  int o = (int)cx.mem.size();
  bool broken = ad->kind == K_SEM && ad->traits & (T_WIN | T_GCD) && cx.may_break && rt::drawp(0.04);
  cx.m.objs.push_back({ad, ad->traits, ad->kind, init, broken});
  void* p = rt::alloc(ad->size);
  memset(p, 0xA5, ad->size);
  cx.mem.push_back(p);
  cx.ex.push_back({});
  int* d = (int*)rt::alloc(8); *d = 0;
  cx.data.push_back(d); cx.dataval.push_back(0);
  cx.making = broken;
  rt::sut_enter(); ad->ctor(p, init, (void*)(intptr_t)(o + 1)); rt::sut_leave();
  cx.making = false; cx.alive++;
  if (rt::self() >= 0 && o == 0) for (auto& a : token_mem) for (auto& b : a) b = nullptr;
  return o;
}
bool holds_x(int t, int o) { return cx.xdepth[t][o] > 0; }
bool holds_s(int t, int o) { return cx.sheld[t][o]; }

void touch_data(int o, bool write) {
  if (!cx.race_data) return;
  int v = rt::cs_read(cx.data[o]);
  if (v != cx.dataval[o]) rt::violate(rt::V_DATA, "t%d reads %d from data protected by #%d, last written was %d", rt::self(), v, o, cx.dataval[o]);
  if (write) { rt::cs_write(cx.data[o], v + 1); cx.dataval[o] = v + 1; }
}

int do_op(int o, int op, long n, DL dl, int tok, bool defarg) {
  const int t = rt::self();
  const Adapter* ad = cx.m.objs[o].ad;
  rt::yield_point();
  mdl::OpRec r; memset((void*)&r, 0, sizeof r);
  r.t = t; r.obj = o; r.a.op = op; r.a.n = n; r.a.dur = dl.dur; r.a.clk = dl.clk; r.tok = tok;
  if (!mdl::is_timed(op)) { r.a.clk = 0; r.a.dur = defarg && n == 1 ? 1 : 0; }
  rt::op_begin();
  if (mdl::is_timed(op)) {
    r.timed = true;
    r.rel = op == O_FOR || op == O_SFOR || op == O_ACQFOR;
    int64_t rel = REL[dl.rel_idx % NREL];
    uint32_t tr = ad->traits;
    if (r.rel) {
      if (rel == REL_EPOCH) rel = -5 * SEC - 1;
      bool endless = rel == REL_MAX;         // nanoseconds::max() and the like
      r.a.clk = 0;
      if (r.a.dur == D_MS) rel = rel / MS * MS;
      if (r.a.dur == D_PICO && (rel > 100 * 86400 * SEC || rel < -100 * 86400 * SEC)) r.a.dur = D_NS;
      r.a.ns = rel; r.clk = tr & T_SYS ? 1 : 0;
      if (r.a.dur == D_FLT) { rel = (int64_t)((double)(float)(rel / 1e9) * 1e9); r.tol = 2 * US + (int64_t)(std::abs((double)rel) * 2e-7); }
      if (endless) rel = FAR - (tr & T_SYS ? rt::sysnow() : rt::now());
      r.rel_ns = rel;
      if (r.a.dur == D_DBL) r.tol = rel > 3600 * SEC ? 10 * SEC : 2 * US;
      r.lb = (r.clk ? rt::sysnow() : rt::now()) + rel;
      r.ub = r.lb;
      rt::set_op_deadline(r.lb, r.clk, rel);
    } else {
      if (r.a.dur == D_FLT || (r.a.dur == D_DBL && rel == REL_MAX)) r.a.dur = D_NS;
      if (tr & T_NOABSTEADY) r.a.clk = C_SYSTEM;
      int64_t base = r.a.clk == C_SYSTEM ? rt::sysnow() : rt::now() + (r.a.clk == C_USER ? USER_CLK_OFF : 0);
      int64_t abs = rel == REL_EPOCH ? -1500 * MS - 7 : rel == REL_MAX ? INT64_MAX : base + rel;
      if (r.a.dur == D_MS) abs = abs / MS * MS;
      if (r.a.dur == D_PICO && (r.a.clk == C_SYSTEM || abs > 1000000000 * SEC || abs < -1000000000 * SEC)) r.a.dur = D_NS;
      if (r.a.dur == D_DBL) r.tol = 2 * US;
      r.rel_ns = std::min(abs, FAR) - base;
      r.a.ns = abs;
      r.clk = r.a.clk == C_SYSTEM ? 1 : 0;
      r.lb = r.ub = abs - (r.a.clk == C_USER ? USER_CLK_OFF : 0);
      if (r.lb > FAR) r.lb = r.ub = FAR;
      if (ad->kind == K_SEM && (tr & T_SYS) && r.a.clk != C_SYSTEM) {   // converted to the system clock
        r.lenient_sys = true; r.lb2 = r.ub2 = rt::sysnow() + r.rel_ns;
      }
      rt::set_op_deadline(r.lb, r.clk);
    }
  }
  if (op == O_ARRIVE || op == O_BWAIT) {
    if (!token_mem[t][tok]) token_mem[t][tok] = rt::alloc(64);
    r.a.aux = token_mem[t][tok];
  }
  r.res = R_NONE;
  int idx = (int)cx.m.ops.size();
  if (ad->traits & T_NATIVE && (mix(cx.salt, idx) >> 20 & 1)) r.a.aux = (void*)1;
  cx.m.ops.push_back(r);
  Excl& e = cx.ex[o];
  if (op == O_UNLOCK && cx.xdepth[t][o] > 0) { if ((cx.xdepth[t][o] -= (int)n) == 0) { e.owner = -1; e.depth = 0; } }
  if (op == O_SUNLOCK && cx.sheld[t][o]) { cx.sheld[t][o] = false; e.shared &= ~(1u << t); }
  rt::ev(rt::EV_INV, idx);
  if (opts.verbose) rt::note("   t%d: %s\n", t, mdl::Model::fmt_op(r, cx.m.objs).c_str());
  rt::sut_enter();
  int res;
  if (n > 1 && (mdl::is_xacq(op) || op == O_UNLOCK)) {       // n calls in a row by the owner
    rt::quiet(true);
    OpArg a1 = r.a; a1.n = 1;
    long k = 0; do res = ad->op(cx.mem[o], a1); while ((res == R_OK || res == R_TRUE) && ++k < n);
    rt::quiet(false);
    cx.ops_bulk += k;
  } else res = ad->op(cx.mem[o], r.a);
  rt::sut_leave();
  cx.m.ops[idx].res = res;
  rt::ev(rt::EV_RES, idx, (rt::cas_faulted() ? 1 : 0) | (rt::eintr_faulted() ? 2 : 0));
  rt::op_begin();
  if (opts.verbose) rt::note("   t%d: %s #%d -> %s\n", t, mdl::opname(op), o, mdl::resname(res));
  if (mdl::is_xacq(op) && (res == R_OK || res == R_TRUE)) {
    if (cx.excl_check && ((e.owner != -1 && e.owner != t) || (e.shared & ~(1u << t)) || (cx.xdepth[t][o] && !(ad->traits & T_REC))))
      rt::violate(rt::V_EXCLUSION, "t%d acquired %s #%d by %s while %s hold(s) it", t, ad->name, o, mdl::opname(op),
                  e.owner == t ? "it already" : e.owner != -1 ? "another thread" : "shared owners");
    e.owner = t; cx.xdepth[t][o] += (int)n;
  }
  if (mdl::is_sacq(op) && (res == R_OK || res == R_TRUE)) {
    if (cx.excl_check && e.owner != -1)
      rt::violate(rt::V_EXCLUSION, "t%d acquired %s #%d by %s while t%d holds it exclusively", t, ad->name, o, mdl::opname(op), e.owner);
    e.shared |= 1u << t; cx.sheld[t][o] = true;
  }
  return res;
}
void destroy(int o) {
  const int t = rt::self();
  const Adapter* ad = cx.m.objs[o].ad;
  rt::yield_point();
  mdl::OpRec r; memset((void*)&r, 0, sizeof r);
  r.t = t; r.obj = o; r.a.op = O_DTOR;
  int idx = (int)cx.m.ops.size();
  cx.m.ops.push_back(r);
  rt::op_begin();
  rt::ev(rt::EV_INV, idx);
  if (opts.verbose) rt::note("   t%d: destroy #%d\n", t, o);
  rt::sut_enter(); int res = ad->dtor(cx.mem[o]); rt::sut_leave();
  cx.m.ops[idx].res = res;
  rt::ev(rt::EV_RES, idx, 0);
  if (opts.verbose) rt::note("   t%d: destroy #%d -> %s\n", t, o, mdl::resname(res));
  cx.alive--;
  if (cx.natives) if (const char* w = rt::native_left(cx.mem[o], ad->size, ad->traits & T_POSIX))
    rt::violate(rt::V_OTHER, "%s #%d is destroyed without destroying its %s", ad->name, o, w);
  rt::poison(cx.mem[o], ad->size);
}
void natives_done() {
  if (!cx.natives || cx.alive) return;
  if (const char* w = rt::native_left(nullptr, 0, false)) rt::violate(rt::V_OTHER, "all objects are destroyed and a %s is left", w);
  cx.cls["all objects destroyed"]++;
  if (rt::native_count(0)) cx.cls["native objects made"]++;
  if (rt::native_count(2)) cx.cls["creation of a native object failed"]++;
}
void age(int o, long cycles, unsigned forms, long n) {
  const Adapter* ad = cx.m.objs[o].ad; uint32_t tr = ad->traits;
  bool rw = ad->kind == K_RW, tm = tr & T_TIMED;
  struct Cyc { int a, b; int64_t ns; long n; } cyc[12]; int nc = 0;
  auto add = [&](int a, int b, int64_t ns = 0, long k = 1) { if (forms >> nc % 16 & 1 || nc == 0) cyc[nc] = {a, b, ns, k}; else cyc[nc] = cyc[0]; nc++; };
  switch (ad->kind) {
  case K_EXCL: case K_RW:
    add(O_LOCK, O_UNLOCK); add(O_TRY, O_UNLOCK);
    if (tm) { add(O_FOR, O_UNLOCK, 5 * MS); add(O_FOR, O_UNLOCK, 0); }
    if (rw) { add(O_SLOCK, O_SUNLOCK); add(O_STRY, O_SUNLOCK); if (tm) add(O_SFOR, O_SUNLOCK, 5 * MS); }
    break;
  case K_SEM: add(O_REL, O_ACQ); add(O_REL, O_TRYACQ); add(O_REL, O_ACQFOR, 5 * MS); break;
  case K_LATCH: add(O_CD, O_TRYWAIT, 0, 0); add(O_TRYWAIT, O_TRYWAIT); break;
  case K_BARRIER: add(O_ARRIVE, O_BWAIT, 0, n); break;
  }
  void* tok = ad->kind == K_BARRIER ? rt::alloc(64) : nullptr;
  rt::op_begin(); rt::sut_enter(); rt::quiet(true);
  for (long k = 0; k < cycles; k++) {
    const Cyc& c = cyc[k % nc];
    if (c.a == O_REL && cx.m.objs[o].init >= ad->max) { OpArg x{}; x.op = c.b; x.n = 1; x.ns = c.ns; ad->op(cx.mem[o], x); x = OpArg{}; x.op = c.a; x.n = 1; x.dur = 1; ad->op(cx.mem[o], x); continue; }
    OpArg x{}; x.op = c.a; x.n = c.n; x.ns = c.ns; x.clk = C_STEADY; x.dur = D_NS; x.aux = tok;
    int r = ad->op(cx.mem[o], x);
    if (r == R_FALSE && rt::cas_faulted()) { k--; continue; }
    if (r != R_OK && r != R_TRUE && ad->kind != K_LATCH) { rt::quiet(false); rt::violate(rt::V_SPEC, "uncontended %s number %ld on %s returns %s", mdl::opname(c.a), k, ad->name, mdl::resname(r)); }
    x.op = c.b; x.n = 1; x.ns = c.ns;
    r = ad->op(cx.mem[o], x);
    if (r != R_OK && r != R_TRUE && ad->kind != K_LATCH) { rt::quiet(false); rt::violate(rt::V_SPEC, "uncontended %s number %ld on %s returns %s", mdl::opname(c.b), k, ad->name, mdl::resname(r)); }
  }
  rt::quiet(false); rt::sut_leave(); rt::op_begin();
  cx.cls[cycles > 60000 ? "used 65000 and more times before" : "used up to 60000 times before"]++;
  char b[64]; snprintf(b, sizeof b, "#%d was used %ld times before\n", o, cycles); cx.prehist += b;
}
void rebirth(int o) {
  destroy(o);
  const int t = rt::self();
  const Adapter* ad = cx.m.objs[o].ad;
  rt::unpoison(cx.mem[o], ad->size);
  rt::native_forget(cx.mem[o], ad->size);
  memset(cx.mem[o], 0xA5, ad->size);
  mdl::OpRec r; memset((void*)&r, 0, sizeof r);
  r.t = t; r.obj = o; r.a.op = O_CTOR;
  int idx = (int)cx.m.ops.size();
  cx.m.ops.push_back(r);
  rt::op_begin();
  rt::ev(rt::EV_INV, idx);
  if (opts.verbose) rt::note("   t%d: construct #%d anew\n", t, o);
  rt::sut_enter(); ad->ctor(cx.mem[o], cx.m.objs[o].init, (void*)(intptr_t)(o + 1)); rt::sut_leave();
  cx.m.ops[idx].res = R_OK; cx.alive++;
  rt::ev(rt::EV_RES, idx, 0);
  cx.ex[o] = Excl();
  for (int i = 0; i < rt::MAXF; i++) { cx.xdepth[i][o] = 0; cx.sheld[i][o] = false; }
}
std::string history_text() {
  std::string s; char b[400];
  size_t n; auto e = rt::events(&n);
  int64_t t0 = n ? e[0].now : 0;
  for (size_t i = 0; i < cx.m.objs.size(); i++) { snprintf(b, sizeof b, "#%zu = %s(%ld)\n", i, cx.m.objs[i].ad->name, cx.m.objs[i].init); s += b; }
  s += cx.prehist;
  for (size_t i = 0; i < n; i++) {
    if (cx.m.fail_ev >= 0 && (long)i > cx.m.fail_ev) { snprintf(b, sizeof b, "(%zu further events)\n", n - i); s += b; break; }
    switch (e[i].kind) {
    case rt::EV_INV: s += mdl::Model::fmt_op(cx.m.ops[e[i].a], cx.m.objs) + " ...\n"; break;
    case rt::EV_RES: snprintf(b, sizeof b, "t%d %s #%d -> %s%s\n", e[i].t, mdl::opname(cx.m.ops[e[i].a].a.op), cx.m.ops[e[i].a].obj, mdl::resname(cx.m.ops[e[i].a].res), e[i].x & 1 ? " (CAS failed spuriously)" : ""); s += b; break;
    case rt::EV_PARK: snprintf(b, sizeof b, "t%d waits\n", e[i].t); s += b; break;
    case rt::EV_CLOCK: snprintf(b, sizeof b, "time +%lld ns\n", (long long)(e[i].now - t0)); s += b; break;
    case rt::EV_SYSSTEP: snprintf(b, sizeof b, "system clock stepped by %lld ns\n", (long long)e[i].x); s += b; break;
    case rt::EV_QUIESCE: s += "(all threads idle)\n"; break;
    case rt::EV_NOTE: snprintf(b, sizeof b, "t%d %s #%d\n", e[i].t, e[i].x == 77 ? "runs completion function of" : e[i].x == -5 ? "runs out of a resource, object" : "note", e[i].a); s += b; break;
    }
  }
  return s;
}
void judge(Outcome& out, bool finished) {
  size_t n; auto e = rt::events(&n);
  auto& st = rt::stats();
  uint64_t h = 7;
  for (auto& o : cx.m.objs) h = mix(h, std::hash<std::string>()(o.ad->name) + o.init);
  for (size_t i = 0; i < n; i++) {
    h = mix(h, e[i].kind * 131 + e[i].t);
    if (e[i].kind == rt::EV_INV || e[i].kind == rt::EV_RES) { auto& p = cx.m.ops[e[i].a]; h = mix(h, p.a.op * 64 + p.obj * 8 + (e[i].kind == rt::EV_RES ? p.res + 2 : 0)); }
  }
  out.sig = h;
  for (auto& kv : cx.cls) out.classes[kv.first] += kv.second;
  int k = rt::vio_kind();
  if (k == rt::V_UNDECIDED) { out.undecided = true; return; }
  out.kind = k; out.msg = rt::vio_msg();
  // the history up to a violation must be explained, too; the earlier finding wins for display
  bool ok = cx.m.run(e, n);
  if (cx.m.undecided) out.undecided = true;
  if (!k && !ok) {
    out.kind = cx.m.fail_class == mdl::Model::F_QUIESCE ? rt::V_QUIESCE : rt::V_SPEC;
    out.msg = cx.m.fail;
  }
  (void)finished; (void)st;
  if (out.kind) out.history = history_text();
}
} // namespace drv

namespace drv { extern void (*completion_hook)(int); }
extern "C" {
void sut_register(const Adapter* a) { drv::adapters().push_back(a); }
void h_completion(void* ctl) {
  if (rt::quiet()) return;
  int o = (int)(intptr_t)ctl - 1;
  if (drv::opts.verbose) rt::note("   t%d: completion function of #%d\n", rt::self(), o);
  rt::yield_point();
  if (drv::completion_hook) drv::completion_hook(o);
  rt::ev(rt::EV_NOTE, o, 77);
  rt::yield_point();
}
static long g_backoff_calls;
void h_backoff(int) { g_backoff_calls++; }
long long h_steady_ns() { return rt::now(); }
// the emulated platform (sut_win, sut_gcd)
int h_self() { return rt::self(); }
int h_fault() { return rt::native_fault(); }
int h_broken() { return drv::cx.making; }
long long h_tick() { static const long long k[] = {1, 1000000, 15625000}; return k[drv::cx.salt % 3]; }
void h_sleeping(long long until) { rt::ev(rt::EV_NOTE, 0, until); }
void h_made(const void* p, const char* what) { rt::native_made(p, what); }
void h_gone(const void* p, const char* what) { rt::native_gone(p, what, true); }
void h_misuse(const char* s) { rt::violate(rt::V_UB, "t%d: %s", rt::self(), s); }
}
