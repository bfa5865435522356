// Reference model: a history of invocations, responses, parks, clock changes and
// quiescent points is accepted iff some placement of the operations' effects explains it.
// The set of all states consistent with the history so far is simulated.
#pragma once
#include "../rt/rt.h"
#include "../sut/sut.h"
#include <algorithm>
#include <vector>
#include <string>
#include <unordered_set>
#include <cstring>

namespace mdl {
constexpr int MAXO = 6, MAXT = rt::MAXF;

struct ObjInfo { const Adapter* ad; uint32_t tr; Kind kind; long init; bool broken; };   // broken: the native object could not be made

struct OpRec {
  int8_t t; int8_t obj; OpArg a;
  bool rel, timed; int clk;            // clk: 0 steady 1 system (deadline's clock)
  int64_t lb, ub;                      // deadline bounds on clk
  int64_t rel_ns; int64_t tol;
  bool may, must;                      // has the deadline passed (possibly / certainly)
  int64_t asleep;                      // in a Sleep() until then
  bool lenient_sys;                    // either clock may be used
  int64_t lb2, ub2;                    // ... on the system clock
  bool casf, eintr, nores, parked;       // nores: an allocation or a native call failed for want of resources
  int tok;                             // barrier token slot
  int res; bool done;
};

enum St : uint8_t { IDLE, INV, REQ, DONE };
struct O {
  int8_t owner; uint8_t completing; uint16_t shared; uint32_t depth; uint16_t ww;
  uint8_t nq; uint8_t q[MAXT];         // thread | 0x80 for shared
  int64_t cnt;                         // semaphore permits / latch count
  int64_t rem, exp; int32_t phase; int32_t dead;
};
struct T { uint8_t st; int8_t res; int16_t aux; int32_t tok[3]; };
struct World {
  O o[MAXO]; T t[MAXT];
  bool operator==(const World& b) const { return memcmp(this, &b, sizeof *this) == 0; }
};
struct WH {
  size_t operator()(const World& w) const {
    const uint64_t* p = (const uint64_t*)&w; uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < sizeof(World) / 8; i++) { h ^= p[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    return h;
  }
};
static_assert(sizeof(World) % 8 == 0, "");

inline const char* opname(int op) {
  static const char* n[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "unlock", "lock_shared", "try_lock_shared",
    "try_lock_shared_for", "try_lock_shared_until", "unlock_shared", "destroy", "acquire", "try_acquire", "try_acquire_for",
    "try_acquire_until", "release", "count_down", "wait", "try_wait", "arrive_and_wait(latch)", "arrive", "wait(token)",
    "arrive_and_wait", "arrive_and_drop", "construct anew"};
  return n[op];
}
inline const char* resname(int r) { static const char* n[] = {"ok", "true", "false", "EDEADLK", "EPERM", "exception"}; return r < 0 ? "?" : n[r]; }
inline bool is_try(int op) { return op == O_TRY || op == O_STRY || op == O_TRYACQ || op == O_TRYWAIT; }
inline bool is_timed(int op) { return op == O_FOR || op == O_UNTIL || op == O_SFOR || op == O_SUNTIL || op == O_ACQFOR || op == O_ACQUNTIL; }
inline bool is_xacq(int op) { return op <= O_UNTIL; }
inline bool is_sacq(int op) { return op >= O_SLOCK && op <= O_SUNTIL; }

class Model {
public:
  std::vector<ObjInfo> objs;
  std::vector<OpRec> ops;              // filled by the driver
  bool detect_deadlock = true;
  bool drop_may_block = true;
  size_t max_set = 0, limit = 6000;
  std::string fail; int fail_kind = 0; bool undecided = false;
  long n_states = 0;

  // failing event class
  enum { F_NONE, F_RES, F_PARK, F_QUIESCE };
  int fail_class = 0, fail_op = -1; long fail_ev = -1;

private:
  std::vector<World> S;
  int pend[MAXT];                      // pending op per thread or -1
  int64_t now_, sys_;

  bool rec(int o) const { return objs[o].tr & T_REC; }
  bool chk(int o) const { return objs[o].tr & T_CHECKED; }
  bool plat(int o) const { return objs[o].tr & (T_WIN | T_GCD); }
  bool fifo(int o) const { return objs[o].tr & T_FIFO; }
  bool fairrw(int o) const { return objs[o].tr & (P_TASK | P_PHASE); }
  bool queued(int o) const { return fifo(o) || fairrw(o); }

  static bool inq(const O& x, int t) { for (int i = 0; i < x.nq; i++) if ((x.q[i] & 0x7f) == t) return true; return false; }
  static void deq(O& x, int t) {
    int j = 0; for (int i = 0; i < x.nq; i++) if ((x.q[i] & 0x7f) != t) x.q[j++] = x.q[i];
    for (int i = j; i < x.nq; i++) x.q[i] = 0; x.nq = j;
  }
  bool enabled_x(const World& w, int o, int t, bool tryop) const {
    const O& x = w.o[o];
    if (x.owner != -1 || x.shared) return false;
    if (queued(o)) {
      if (tryop) return x.nq == 0;
      if (inq(x, t)) return (x.q[0] & 0x7f) == t;
      return x.nq == 0;
    }
    return true;
  }
  bool enabled_s(const World& w, int o, int t) const {
    const O& x = w.o[o];
    if (x.owner != -1) return false;
    if (objs[o].tr & P_WRITER) return x.ww == 0;
    if (fairrw(o)) return x.nq == 0;
    return true;
  }
  int okres(int op) const { return is_try(op) || is_timed(op) ? R_TRUE : R_OK; }
  // grants to queued shared requests
  void normalise(World& w, int o, bool xrelease) const {
    if (!fairrw(o)) return;
    O& x = w.o[o];
    if (x.owner != -1 || !x.nq) return;
    if (!(x.q[0] & 0x80)) return;
    auto grant = [&](int i) { int t = x.q[i] & 0x7f; x.shared |= 1 << t; w.t[t].st = DONE; w.t[t].res = okres(ops[pend[t]].a.op); };
    if ((objs[o].tr & P_PHASE) && xrelease) {
      uint8_t rest[MAXT]; int n = 0;
      for (int i = 0; i < x.nq; i++) if (x.q[i] & 0x80) grant(i); else rest[n++] = x.q[i];
      memset(x.q, 0, sizeof x.q); memcpy(x.q, rest, n); x.nq = n;
    } else {
      int k = 0; while (k < x.nq && (x.q[k] & 0x80)) grant(k++);
      for (int i = 0; i < x.nq; i++) x.q[i] = i + k < x.nq ? x.q[i + k] : 0;
      x.nq -= k;
    }
  }
  uint32_t holders(const World& w, int o) const { return w.o[o].shared | (w.o[o].owner >= 0 ? 1u << w.o[o].owner : 0); }
  bool waits_untimed(const World& w, int t) const {     // queued, blocked, in a tracked call
    if (w.t[t].st != REQ) return false;
    const OpRec& p = ops[pend[t]];
    if (!chk(p.obj)) return false;
    if (p.a.op == O_LOCK) return !enabled_x(w, p.obj, t, false);
    if (p.a.op == O_SLOCK) return !enabled_s(w, p.obj, t);
    return false;
  }
  bool cycle(const World& w, int t) const {             // would t, blocked on its object, close a cycle
    uint32_t seen = 0, todo = holders(w, ops[pend[t]].obj);
    while (todo) {
      int u = __builtin_ctz(todo); todo &= todo - 1;
      if (seen >> u & 1) continue;
      seen |= 1u << u;
      if (u == t) return true;
      if (waits_untimed(w, u)) todo |= holders(w, ops[pend[u]].obj) & ~seen;
    }
    return false;
  }
  static void done(World& w, int t, int res) { w.t[t].st = DONE; w.t[t].res = res; }
  void complete_phase(World& w, int o) const {
    O& x = w.o[o];
    if (objs[o].tr & T_CALLBACK) x.completing = 1;
    else { x.phase++; x.rem = x.exp; }
  }

  // all successor states by one internal step of thread t
  template <class F> void steps(const World& w, int t, F emit) const {
    const OpRec& p = ops[pend[t]];
    const int op = p.a.op, o = p.obj;
    const O& x = w.o[o];
    const bool inv = w.t[t].st == INV;
    World n;
    const bool gone = objs[o].broken && op >= O_ACQ && op <= O_REL;
    if ((p.eintr && plat(o) && (w.t[t].st == INV || w.t[t].st == REQ)) || gone) {      // the platform call failed
      const bool ref = op == O_TRY || op == O_TRYACQ;
      n = w; done(n, t, ref ? R_FALSE : R_EXC); emit(n); return;
    }
    if (p.nores) {                       // such a call may fail, without any effect
      const bool acq = is_xacq(op) || is_sacq(op);
      if (acq || (op == O_UNLOCK && x.owner != t) || (op == O_SUNLOCK && !(x.shared >> t & 1)) || (op == O_DTOR && holders(w, o))) {
        n = w; O& y = n.o[o]; y.ww &= ~(1 << t); deq(y, t);
        if (op == O_DTOR) y.dead = 1;
        done(n, t, R_EXC); normalise(n, o, false); emit(n);
        if ((objs[o].tr & T_POSIX) && acq && (is_try(op) || is_timed(op))) { n.t[t].res = R_FALSE; emit(n); }
      }
    }
    if (is_xacq(op) || is_sacq(op)) {
      const bool sh = is_sacq(op), tr = is_try(op), tm = is_timed(op);
      if (!sh && rec(o) && x.owner == t) { n = w; n.o[o].depth += p.a.n; done(n, t, okres(op)); emit(n); return; }
      if (chk(o) && (x.owner == t || (x.shared >> t & 1))) { n = w; done(n, t, R_EDEADLK); emit(n); return; }
      const bool en = sh ? enabled_s(w, o, t) : enabled_x(w, o, t, tr);
      if (en) {
        n = w; O& y = n.o[o];
        if (sh) y.shared |= 1 << t; else { y.owner = t; y.depth = 1; }
        y.ww &= ~(1 << t); deq(y, t);
        done(n, t, okres(op));
        emit(n);
        if (tr && p.casf && (objs[o].tr & T_CAS)) { n = w; done(n, t, R_FALSE); emit(n); }
        return;
      }
      if (tr) { n = w; done(n, t, R_FALSE); emit(n); return; }
      if (tm && p.may) {
        n = w; O& y = n.o[o]; y.ww &= ~(1 << t); deq(y, t);
        done(n, t, R_FALSE);
        normalise(n, o, false);
        emit(n);
      }
      if (inv) {
        n = w; O& y = n.o[o];
        n.t[t].st = REQ;
        if (queued(o)) y.q[y.nq++] = t | (sh ? 0x80 : 0);
        if (!sh && (objs[o].tr & P_WRITER)) y.ww |= 1 << t;
        emit(n);
      }
      if (!tm && chk(o) && detect_deadlock && cycle(w, t)) {
        n = w; O& y = n.o[o]; y.ww &= ~(1 << t); deq(y, t);
        done(n, t, R_EDEADLK); emit(n);
      }
      return;
    }
    switch (op) {
    case O_UNLOCK:
      n = w;
      if (x.owner != t) { if (chk(o)) { done(n, t, R_EPERM); emit(n); } return; }
      if ((n.o[o].depth -= p.a.n) == 0) { n.o[o].owner = -1; done(n, t, R_OK); normalise(n, o, true); }
      else done(n, t, R_OK);
      emit(n); return;
    case O_SUNLOCK:
      n = w;
      if (!(x.shared >> t & 1)) { if (chk(o)) { done(n, t, R_EPERM); emit(n); } return; }
      n.o[o].shared &= ~(1 << t); done(n, t, R_OK); normalise(n, o, false); emit(n); return;
    case O_DTOR:
      n = w; n.o[o].dead = 1;
      done(n, t, chk(o) && holders(w, o) ? R_EDEADLK : R_OK); emit(n); return;
    case O_CTOR:
      n = w; memset((void*)&n.o[o], 0, sizeof n.o[o]); init_obj(n, o); done(n, t, R_OK); emit(n); return;
    case O_ACQ: case O_ACQFOR: case O_ACQUNTIL: case O_TRYACQ:
      if (x.cnt > 0) { n = w; n.o[o].cnt--; done(n, t, okres(op)); emit(n); return; }
      if (op == O_TRYACQ || (op != O_ACQ && p.may)) { n = w; done(n, t, R_FALSE); emit(n); }
      return;
    case O_REL:
      n = w;
      if (objs[o].tr & (T_POSIX | T_GCD)) {        // one post at a time
        int left = inv ? (p.a.dur ? 1 : p.a.n) : w.t[t].aux;
        if (left <= 0) { n.t[t].aux = 0; done(n, t, R_OK); emit(n); return; }
        n.o[o].cnt++; n.t[t].st = REQ; n.t[t].aux = left - 1;
        if (left == 1) { n.t[t].aux = 0; done(n, t, R_OK); }
        emit(n); return;
      }
      n.o[o].cnt += p.a.dur ? 1 : p.a.n; done(n, t, R_OK); emit(n); return;
    case O_CD: n = w; n.o[o].cnt -= p.a.dur ? 1 : p.a.n; done(n, t, R_OK); emit(n); return;
    case O_WAIT: if (x.cnt == 0) { n = w; done(n, t, R_OK); emit(n); } return;
    case O_TRYWAIT: n = w; done(n, t, x.cnt == 0 ? R_TRUE : R_FALSE); emit(n); return;
    case O_AW:
      n = w;
      if (inv) { n.o[o].cnt -= p.a.dur ? 1 : p.a.n; n.t[t].st = REQ; emit(n); return; }
      if (x.cnt == 0) { done(n, t, R_OK); emit(n); }
      return;
    case O_ARRIVE: case O_BAW: case O_BDROP:
      n = w;
      if (inv) {
        n.t[t].tok[p.tok] = x.phase;
        n.o[o].rem -= op == O_ARRIVE ? (p.a.dur ? 1 : p.a.n) : 1;
        if (op == O_BDROP) n.o[o].exp--;
        n.t[t].st = REQ;
        if (n.o[o].rem == 0) complete_phase(n, o);
        if (op == O_ARRIVE && !n.o[o].completing) done(n, t, R_OK);
        emit(n); return;
      }
      if (op == O_ARRIVE || op == O_BDROP) {      // may return once a completion it runs is over
        if (x.completing) return;
        done(n, t, R_OK); emit(n); return;
      }
      if (x.phase > w.t[t].tok[p.tok]) { done(n, t, R_OK); emit(n); }
      return;
    case O_BWAIT:
      if (x.phase > w.t[t].tok[p.tok]) { n = w; done(n, t, R_OK); emit(n); }
      return;
    }
  }
  void init_obj(World& w, int i) const {
    w.o[i].owner = -1;
    if (objs[i].kind == K_SEM || objs[i].kind == K_LATCH) w.o[i].cnt = objs[i].init;
    if (objs[i].kind == K_BARRIER) w.o[i].rem = w.o[i].exp = objs[i].init;
  }
  bool pending(const World& w, int t) const { return pend[t] >= 0 && (w.t[t].st == INV || w.t[t].st == REQ); }

  bool closure() {
    std::unordered_set<World, WH> seen(S.begin(), S.end());
    std::vector<World> work(S);
    while (!work.empty()) {
      World w = work.back(); work.pop_back();
      for (int t = 0; t < MAXT; t++) if (pending(w, t))
        steps(w, t, [&](const World& n) { if (seen.insert(n).second) work.push_back(n); });
      if (seen.size() > limit) { undecided = true; return false; }
    }
    S.assign(seen.begin(), seen.end());
    n_states += S.size();
    if (S.size() > max_set) max_set = S.size();
    return true;
  }
  bool must_req(const OpRec& p) const {
    if (is_try(p.a.op)) return false;
    if (!(is_xacq(p.a.op) || is_sacq(p.a.op))) return false;
    if (queued(p.obj)) return true;
    if ((objs[p.obj].tr & P_WRITER) && is_xacq(p.a.op)) return true;
    if (chk(p.obj) && detect_deadlock && !is_timed(p.a.op)) return true;
    return false;
  }
  void expire() {
    for (int t = 0; t < MAXT; t++) if (pend[t] >= 0) {
      OpRec& p = ops[pend[t]];
      if (!p.timed) continue;
      if (!p.parked) {      // the deadline may not have been computed yet
        const int64_t late = std::max<int64_t>(p.rel_ns, 0);   // a timeout below zero may be taken as zero
        if (p.rel) { p.lb = std::min(p.lb, (p.clk ? sys_ : now_) + p.rel_ns); p.ub = std::max(p.ub, (p.clk ? sys_ : now_) + late); }
        if (plat(p.obj) && !p.rel) p.ub = std::max(p.ub, (p.clk ? sys_ : now_) + late);
        if (p.lenient_sys) { p.lb2 = std::min(p.lb2, sys_ + p.rel_ns); p.ub2 = std::max(p.ub2, sys_ + late); }
      }
      if ((p.clk ? sys_ : now_) >= p.lb - p.tol - (objs[p.obj].tr & T_WIN ? 16 * rt::MS : 0)) p.may = true;   // a Win32 wait may end a tick early, the call then sleeps
      if (p.lenient_sys && sys_ >= p.lb2 - p.tol) p.may = true;
      p.must = !(objs[p.obj].tr & T_WIN && (p.rel_ns > 45ll * 86400 * rt::SEC || now_ < p.asleep)) && (p.parked || !(p.rel || p.lenient_sys)) && (p.clk ? sys_ : now_) >= p.ub + p.tol + (objs[p.obj].tr & T_WIN ? 40 * rt::MS : 1000) && (!p.lenient_sys || sys_ >= p.ub2 + p.tol + 1000);
    }
  }
  bool can_finish(const World& w, int t) const {   // some step of t is possible that it must take
    const OpRec& p = ops[pend[t]];
    if (w.t[t].st == DONE) {
      return !(p.a.op == O_BDROP && drop_may_block && w.o[p.obj].phase <= w.t[t].tok[p.tok]);
    }
    if (w.t[t].st == INV && p.timed && (objs[p.obj].tr & T_WIN) && now_ < p.asleep) return false;   // sleeps a last tick
    bool r = false;
    steps(w, t, [&](const World& n) {
      if (n.t[t].st == DONE || n.o[p.obj].cnt != w.o[p.obj].cnt || n.o[p.obj].rem != w.o[p.obj].rem) {
        if (p.nores && (n.t[t].res == R_EXC || n.t[t].res == R_FALSE) && n.t[t].st == DONE) return;
        if (n.t[t].res == R_FALSE && n.t[t].st == DONE && p.timed && !p.must) return;
        if (p.a.op == O_BDROP && drop_may_block && w.t[t].st == REQ && w.o[p.obj].phase <= w.t[t].tok[p.tok]) return;
        r = true;
      }
    });
    return r;
  }

public:
  static std::string fmt_op(const OpRec& p, const std::vector<ObjInfo>& objs) {
    char b[256];
    std::string s = "t" + std::to_string(p.t) + " " + opname(p.a.op) + " #" + std::to_string(p.obj);
    if (p.timed) { snprintf(b, sizeof b, " [%s %+lld ns%s%s]", p.rel ? "for" : "until now", (long long)p.rel_ns,
      p.a.clk == C_SYSTEM ? " system" : p.a.clk == C_USER ? " user" : "", p.a.dur == D_MS ? " ms" : p.a.dur == D_DBL ? " double" : p.a.dur == D_FLT ? " float" : p.a.dur == D_PICO ? " pico" : ""); s += b; }
    if (p.a.op == O_REL || p.a.op == O_CD || p.a.op == O_AW || p.a.op == O_ARRIVE || p.a.n > 1) { snprintf(b, sizeof b, " n=%ld", p.a.dur ? 1 : p.a.n); s += b; }
    if (p.a.aux && (objs[p.obj].tr & T_NATIVE)) s += " (native handle)";
    return s;
  }
  void init_world() {
    World w; memset((void*)&w, 0, sizeof w);
    for (int i = 0; i < MAXO; i++) w.o[i].owner = -1;
    for (size_t i = 0; i < objs.size(); i++) init_obj(w, (int)i);
    S.assign(1, w);
    for (int t = 0; t < MAXT; t++) pend[t] = -1;
    fail.clear(); fail_class = 0; fail_op = -1; undecided = false; n_states = 0; max_set = 0;
  }
  // returns false if the history is not explained
  bool run(const rt::Ev* ev, size_t nev) {
    init_world();
    for (size_t i = 0; i < nev; i++) {
      const rt::Ev& e = ev[i]; fail_ev = (long)i;
      now_ = e.now; sys_ = e.sys;
      switch (e.kind) {
      case rt::EV_INV: {
        OpRec& p = ops[e.a];
        p.asleep = 0; p.eintr = p.nores = false; p.may = p.must = false; p.done = false; p.parked = false;
        pend[(int)e.t] = e.a;
        for (auto& w : S) { w.t[(int)e.t].st = INV; w.t[(int)e.t].res = 0; w.t[(int)e.t].aux = 0; }
        expire();
        break; }
      case rt::EV_RES: {
        OpRec& p = ops[e.a];
        p.casf = e.x & 1; p.eintr = e.x >> 1 & 1;
        expire();
        if (!closure()) return true;
        std::vector<World> n;
        for (auto& w : S) if (w.t[(int)e.t].st == DONE && w.t[(int)e.t].res == p.res) { n.push_back(w); n.back().t[(int)e.t].st = IDLE; n.back().t[(int)e.t].res = 0; }
        if ((objs[p.obj].tr & T_WIN) && p.timed && p.res == R_FALSE && (p.clk ? sys_ : now_) < p.lb - p.tol) n.clear();
        if (n.empty()) { failed(F_RES, e.a, "returned %s, which nothing explains", resname(p.res)); return false; }
        S.swap(n);
        pend[(int)e.t] = -1; p.done = true;
        break; }
      case rt::EV_PARK: {
        int k = pend[(int)e.t];
        if (k < 0) break;
        OpRec& p = ops[k];
        if (is_try(p.a.op)) { failed(F_PARK, k, "blocks%s", ""); return false; }
        expire();
        p.parked = true;
        expire();
        if (!must_req(p)) break;
        if (!closure()) return true;
        std::vector<World> n;
        for (auto& w : S) if (w.t[(int)e.t].st == REQ || w.t[(int)e.t].st == DONE) n.push_back(w);
        if (n.empty()) { failed(F_PARK, k, "starts to wait although %s", "it could proceed in every explanation"); return false; }
        S.swap(n);
        break; }
      case rt::EV_CLOCK: case rt::EV_SYSSTEP: expire(); break;
      case rt::EV_NOTE: {     // completion function of barrier e.a runs
        if (e.x == -5) { if (pend[(int)e.t] >= 0) ops[pend[(int)e.t]].nores = true; break; }
        if (e.x != 77) { if (pend[(int)e.t] >= 0) ops[pend[(int)e.t]].asleep = e.x; break; }
        if (!closure()) return true;
        std::vector<World> n;
        for (auto& w : S) if (w.o[e.a].completing) {
          n.push_back(w); O& y = n.back().o[e.a]; y.completing = 0; y.phase++; y.rem = y.exp;
        }
        if (n.empty()) { failed(F_RES, pend[(int)e.t], "ran the completion function although the phase %s", "is not complete"); return false; }
        S.swap(n);
        break; }
      case rt::EV_QUIESCE: {
        expire();
        if (!closure()) return true;
        bool ok = false; int culprit = -1;
        for (auto& w : S) {
          bool good = true;
          for (int t = 0; t < MAXT && good; t++) if (pend[t] >= 0 && can_finish(w, t)) { good = false; culprit = pend[t]; }
          for (size_t o = 0; o < objs.size() && good; o++) if (w.o[o].completing) { good = false; }
          if (good) { ok = true; break; }
        }
        if (!ok) { failed(F_QUIESCE, culprit, "stays blocked (all threads idle) although %s", "it could proceed"); return false; }
        break; }
      default: break;
      }
    }
    fail_ev = -1;
    return true;
  }
  void failed(int cls, int op, const char* f, const char* arg) {
    fail_class = cls; fail_op = op;
    char b[256]; snprintf(b, sizeof b, f, arg);
    fail = (op >= 0 ? fmt_op(ops[op], objs) + " on " + objs[ops[op].obj].ad->name : std::string("?")) + " " + b;
  }
};
} // namespace mdl
