// Random programs over mutexes of every kind, judged against the reference model.
#include "drv.h"
namespace drv {
namespace {
struct Prof {
  const char* prop; const char* rule; long quick, thorough;
  std::function<bool(const Adapter&)> filter;
  int omin = 1, omax = 1, tmin = 2, tmax = 4, nmin = 2, nmax = 6;
  int wlock = 4, wtry = 2, wtimed = 2, wshared = 50;     // weights; wshared: percent of shared requests on rw types
  int wacq = 5, wrel = 3, wdata = 1, wtime = 1, wmis = 0;
  bool spur = true, cas = true, race = false;
  int access_gap = 0;                                    // percent of cases with preemptions at plain accesses
  int rounds2 = 15;                                      // percent of cases with a second set of threads
  int reborn = 10;                                       // percent of cases that destroy and construct objects in the middle
  int deep = 0;                                          // per mille of cases with runs of many thousand nested acquisitions
  int age = 0, longp = 0;                                // percent of cases with much used objects / with long programs
  int leave = 0;                                         // percent of threads that end without releasing (checked types)
  int unordered = 0;                                     // percent of cases with unordered lock() (checked types always)
  int dlvar = 100;                                       // percent of cases with all deadline kinds
  bool sysstep = true, plat = false, nores = false, natives = false;
  bool destroyed = true;
  bool nodetect = false, aborting = false;
  std::function<bool(const rt::CaseStats&)> nontrivial;
};
struct POp { int act, obj, kind, sh, rel, clk, dur; };
struct Prog { std::vector<POp> ops; bool leave; };
struct Plan {
  const Prof* pf; std::vector<const Adapter*> ads; std::vector<Prog> th[2]; int rounds; bool unordered; int relkinds; bool allow_sys; int reborn; bool deep, longp; long age; unsigned forms;
} P;
enum Act { A_ACQ, A_REL, A_DATA, A_TIME, A_MIS };
enum K { KLOCK, KTRY, KFOR, KUNTIL };

void do_acq(int t, const POp& p) {
  int o = p.obj; uint32_t tr = cx.m.objs[o].tr;
  bool rw = cx.m.objs[o].kind == K_RW, rec = tr & T_REC, chk = tr & T_CHECKED;
  bool sh = rw && p.sh;
  int k = p.kind;
  if (!(tr & T_TIMED) && (k == KFOR || k == KUNTIL)) k = KLOCK;
  if (holds_x(t, o) && !rec) { do_op(o, O_UNLOCK); return; }
  if (holds_s(t, o)) { do_op(o, O_SUNLOCK); return; }
  if (k == KLOCK && !chk && !P.unordered && !holds_x(t, o))
    for (size_t h = 0; h < cx.m.objs.size(); h++) if ((int)h >= o && (holds_x(t, h) || holds_s(t, h))) { k = KTRY; break; }
  DL dl{p.rel, p.clk, p.dur};
  int r; long bulk = 1;
  if (P.deep && holds_x(t, o) && !sh && cx.xdepth[t][o] < 400) {
    static const long ns[] = {65536, 256, 65535, 255, 65530, 65537, 254, 250};
    bulk = ns[p.rel % 8]; cx.cls["many nested acquisitions"]++;
  }
  if (!sh) r = do_op(o, k == KLOCK ? O_LOCK : k == KTRY ? O_TRY : k == KFOR ? O_FOR : O_UNTIL, bulk, dl);
  else r = do_op(o, k == KLOCK ? O_SLOCK : k == KTRY ? O_STRY : k == KFOR ? O_SFOR : O_SUNTIL, 1, dl);
  if (r == R_OK || r == R_TRUE) { touch_data(o, !sh); }
}
void do_rel(int t, int o) {
  int n = (int)cx.m.objs.size();
  for (int k = 0; k < n; k++) {
    int x = (o + k) % n;
    if (holds_x(t, x)) { touch_data(x, true); int d = cx.xdepth[t][x]; do_op(x, O_UNLOCK, P.deep && d > 200 ? d - 1 - (d % 3) : 1); return; }
    if (holds_s(t, x)) { touch_data(x, false); do_op(x, O_SUNLOCK); return; }
  }
}
bool holds_any(int t) { for (size_t o = 0; o < cx.m.objs.size(); o++) if (holds_x(t, o) || holds_s(t, o)) return true; return false; }
void misuse(int t, const POp& p) {
  int o = p.obj; uint32_t tr = cx.m.objs[o].tr; bool rw = cx.m.objs[o].kind == K_RW;
  if (!(tr & T_CHECKED)) return;
  bool hx = holds_x(t, o), hs = holds_s(t, o);
  int k = p.kind; DL dl{p.rel, p.clk, p.dur};
  if (!(tr & T_TIMED) && k >= KFOR) k -= 2;
  if ((hx && !(tr & T_REC)) || hs) {
    if (p.sh && rw && hx && p.rel % 3 == 0) { do_op(o, O_SUNLOCK); return; }
    if (hs && p.rel % 3 == 0) { do_op(o, O_UNLOCK); return; }
    bool sh = rw && p.sh;
    do_op(o, (sh ? O_SLOCK : O_LOCK) + k, 1, dl);
  } else if (!hx) do_op(o, rw && p.sh ? O_SUNLOCK : O_UNLOCK);
}
const int64_t SLEEPS[] = {3 * MS, 12 * MS, 7200 * SEC, 1 * MS, 40 * MS};
void middle(void*) {
  for (size_t o = 0; o < cx.m.objs.size(); o++) if (P.reborn >> o & 1) {
    bool held = cx.ex[o].owner != -1 || cx.ex[o].shared;
    if (!held || cx.m.objs[o].tr & T_CHECKED) { rebirth((int)o); cx.cls[held ? "constructed anew after destruction while owned" : "constructed anew"]++; }
  }
}
void thread_main(void* a) {
  Prog& pr = *(Prog*)a;
  int t = rt::self(); size_t at = 0;
  for (auto& p : pr.ops) {
    if (P.reborn && at++ == (pr.ops.size() + 1) / 2) { if (P.pf->natives) while (holds_any(t)) do_rel(t, 0); rt::rendezvous((int)P.th[0].size(), middle, nullptr); }
    switch (p.act) {
    case A_ACQ: do_acq(t, p); break;
    case A_REL: if (holds_any(t)) do_rel(t, p.obj); else do_acq(t, p); break;
    case A_DATA:
      if (holds_x(t, p.obj)) touch_data(p.obj, true); else if (holds_s(t, p.obj)) touch_data(p.obj, false);
      rt::yield_point(); break;
    case A_TIME:
      if (p.kind == 0 && P.allow_sys) rt::sys_step(p.sh ? 30 * MS : -40 * MS);
      else if (p.kind <= 1) rt::advance(3 * MS);
      else if (p.kind >= 3) rt::sleep_for(SLEEPS[p.rel % 5]);
      else rt::advance(p.rel * 100 * US);
      break;
    case A_MIS: misuse(t, p); break;
    }
  }
  if (!pr.leave) while (holds_any(t)) do_rel(t, 0);
}
void main_fiber(void*) {
  for (auto ad : P.ads) { int o = add_object(ad, 0); if (P.age) age(o, P.age, P.forms); }
  for (int r = 0; r < P.rounds; r++) {
    int first = 0; std::vector<int> ids;
    for (auto& th : P.th[r]) ids.push_back(rt::spawn(thread_main, &th));
    for (int id : ids) rt::join(id);
    (void)first;
  }
  for (size_t o = 0; o < cx.m.objs.size(); o++) {
    bool left = cx.ex[o].owner != -1 || cx.ex[o].shared;
    if (!left) {
      // free again: everything must be available at once
      do_op(o, O_TRY); if (holds_x(0, o)) { touch_data(o, true); do_op(o, O_UNLOCK); }
      if (cx.m.objs[o].kind == K_RW) { do_op(o, O_STRY); if (holds_s(0, o)) { touch_data(o, false); do_op(o, O_SUNLOCK); } }
      do_op(o, O_LOCK); if (holds_x(0, o)) { touch_data(o, true); do_op(o, O_UNLOCK); }
    }
    if (!left || cx.m.objs[o].tr & T_CHECKED) destroy(o);
  }
  natives_done();
}
void plan(const Prof& pf) {
  P = Plan(); P.pf = &pf;
  static std::map<std::string, std::vector<const Adapter*>> cache;
  auto& pool = cache[pf.prop];
  if (pool.empty()) pool = pick(pf.filter);
  if (pool.empty()) { fprintf(stderr, "no adapter for %s\n", pf.prop); exit(3); }
  int no = range(pf.omin, pf.omax);
  const Adapter* first = choose(pool);
  P.ads.push_back(first);
  for (int i = 1; i < no; i++) P.ads.push_back(rt::draw(2) ? first : choose(pool));
  int nth = range(pf.tmin, pf.tmax);
  P.rounds = rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.rounds2) ? 2 : 1;
  if (P.rounds == 2 && nth > 4) nth = 4;
  P.unordered = rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.unordered);
  static const long ages[] = {65536, 256, 255, 65535, 65537, 257, 254, 65534};
  if (rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.age)) { P.age = ages[rt::drawv(8, rt::rng().p(0.8) ? 1 + 4 * rt::rng().below(2) : rt::rng().below(8))] + rt::draw(6); P.forms = rt::draw(65536); }
  bool longp = rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.longp);
  P.longp = longp;
  if (longp && nth > 3) nth = 3;
  P.deep = rt::drawv(2, rt::rng().below(1000) < (uint32_t)pf.deep);
  if (rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.reborn)) { P.reborn = 1 + rt::draw((1 << no) - 1); P.rounds = 1; }
  bool anysys = false; for (auto a : P.ads) if (a->traits & T_SYS) anysys = true;
  P.allow_sys = pf.sysstep; (void)anysys;
  // swarm: leave out some kinds of calls
  auto sw = [&](int w) { return rt::drawv(2, rt::rng().p(0.75)) ? w : 0; };
  int wl = sw(pf.wlock), wt = sw(pf.wtry), wf = sw(pf.wtimed), wu = sw(pf.wtimed);
  if (wl + wt + wf + wu == 0) wl = 1;
  int wtime = sw(pf.wtime), wdata = sw(pf.wdata);
  static const int shp[] = {0, 20, 50, 80, 100};
  int psh = pf.wshared ? shp[1 + rt::draw(3)] : 0;
  int relmode = rt::draw(4);       // 0,1 short, 2 mixed, 3 few
  for (int r = 0; r < P.rounds; r++) for (int i = 0; i < nth; i++) {
    Prog pr;
    pr.leave = pf.leave ? rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.leave) : false;
    int n = std::max(P.reborn ? 2 : 1, longp ? range(40, 110) : range(pf.nmin, pf.nmax));
    for (int k = 0; k < n; k++) {
      POp p;
      p.act = weighted({pf.wacq, pf.wrel, wdata, wtime, pf.wmis});
      p.obj = rt::draw(no);
      p.kind = weighted({wl, wt, wf, wu});
      p.sh = rt::drawv(2, rt::rng().below(100) < (uint32_t)psh);
      p.rel = relmode == 2 ? rt::draw(NREL) : relmode == 3 ? rt::draw(4) : rt::draw(8);
      p.clk = rt::draw(C_N); p.dur = rt::draw(D_N);
      if (p.act == A_TIME) p.kind = rt::draw(7);
      pr.ops.push_back(p);
    }
    P.th[r].push_back(pr);
  }
}
void run_case(const Prof& pf, Outcome& out) {
  cx.reset();
  plan(pf);
  rt::CaseCfg c = gen_cfg(true, pf.spur, pf.cas, pf.plat);
  if (pf.plat) c.slack = 45 * MS;
  if (pf.nores && !(P.ads[0]->traits & (T_WIN | T_GCD | T_APPLE))) { c.b_res = 1 + rt::draw(6); c.p_res = 0.05 + 0.4 * rt::rng().unit(); }
  c.native = cx.natives = pf.natives;
  c.race = pf.race; c.len = P.longp ? 20 : 1;
  cx.race_data = true; cx.salt = rt::draw(1 << 16);
  if (pf.access_gap && rt::drawv(2, rt::rng().below(100) < (uint32_t)pf.access_gap)) c.acc_gap = 3 + rt::rng().below(40);
  cx.m.detect_deadlock = !pf.nodetect;
  rt::case_begin(c);
  bool fin = rt::case_run(main_fiber, nullptr);
  if (pf.aborting && rt::vio_kind() == rt::V_ABORT && strstr(rt::vio_msg(), "abort()")) {
    // the aborting call must be one that reports in the default configuration
    size_t n; auto e = rt::events(&n);
    std::vector<rt::Ev> ev(e, e + n);
    int t = atoi(rt::vio_msg() + 1);
    int idx = -1; for (auto& x : ev) if (x.t == t) { if (x.kind == rt::EV_INV) idx = x.a; if (x.kind == rt::EV_RES) idx = -1; }
    bool ok = false;
    if (idx >= 0) for (int r : {R_EDEADLK, R_EPERM}) {
      cx.m.ops[idx].res = r;
      auto ev2 = ev; rt::Ev x = ev.back(); x.kind = rt::EV_RES; x.t = t; x.a = idx; x.x = 0; ev2.push_back(x);
      if (cx.m.run(ev2.data(), ev2.size())) { ok = true; break; }
    }
    cx.cls["aborted"]++;
    uint64_t h = 3; for (auto& x : ev) h = mix(h, x.kind * 131 + x.t * 7 + x.a);
    out.sig = h; out.nontrivial = true;
    if (!ok) { out.kind = rt::V_SPEC; out.msg = idx < 0 ? "abort() outside of a call" : mdl::Model::fmt_op(cx.m.ops[idx], cx.m.objs) + " on " + cx.m.objs[cx.m.ops[idx].obj].ad->name + ": " + rt::vio_msg() + " in a correct call"; out.history = history_text(); }
    return;
  }
  auto& s = rt::stats();
  // classification
  int ndl = 0, neperm = 0, nfalse = 0, ntmo = 0;
  for (auto& o : cx.m.ops) { if (o.res == R_EDEADLK) ndl++; if (o.res == R_EPERM) neperm++; if (o.res == R_FALSE) { if (o.timed) ntmo++; else nfalse++; } }
  if (s.parks) cx.cls["waited"]++;
  if (s.mblocked) cx.cls["contended internally"]++;
  if (s.timeouts) cx.cls["a timer fired"]++;
  if (ntmo) cx.cls["timed call returned false"]++;
  if (nfalse) cx.cls["try returned false"]++;
  if (ndl) cx.cls["EDEADLK"]++;
  if (neperm) cx.cls["EPERM"]++;
  if (s.spurious) cx.cls["spurious wake-up"]++;
  if (s.eintr) cx.cls["a platform call failed"]++;
  if (s.resfail) cx.cls["memory or native counts exhausted"]++;
  if (s.casfail) cx.cls["spurious CAS failure"]++;
  if (s.acc_preempts) cx.cls["preempted at plain accesses"]++;
  if (!fin) cx.cls["ends blocked"]++;
  cx.cls[std::string("type ") + P.ads[0]->name]++;
  judge(out, fin);
  bool multi = false; { int seen = 0; for (auto& o : cx.m.ops) if (o.t && (o.res == R_OK || o.res == R_TRUE) && (mdl::is_xacq(o.a.op) || mdl::is_sacq(o.a.op))) seen |= 1 << o.t; multi = seen & (seen - 1); }
  out.nontrivial = multi && (s.parks || s.mblocked || nfalse || s.trylock_fail || ndl || neperm || s.preempts > 2) && (!pf.nontrivial || pf.nontrivial(s));
  if (!strcmp(pf.prop, "C12") || !strcmp(pf.prop, "C13")) out.nontrivial = out.nontrivial && ndl > 0;
  if (!strcmp(pf.prop, "C10")) out.nontrivial = out.nontrivial && (ndl || neperm);
  if (!strcmp(pf.prop, "C05")) out.nontrivial = multi && ntmo;
}
std::vector<Prof> profs;
bool ours(const Adapter& a) { return !(a.traits & (T_STD | T_NATIVE | T_WIN | T_GCD | T_APPLE | T_DEFAULT)) && (a.kind == K_EXCL || a.kind == K_RW); }
} // namespace

void init_mutex() {
  auto& v = profs; v.reserve(64);
  auto add = [&](Prof p) { v.push_back(p); };
  { Prof p; p.prop = "C01"; p.filter = ours; p.quick = 260000; p.thorough = 6000000; p.access_gap = 30;
    p.wtry = 3;
    p.rule = "random programs (2-4 threads, 2-6 calls each, 1 object of every mutex type) under random/PCT schedules with time advances, spurious wake-ups, weak-CAS failures and preemptions at plain accesses; non-trivial: at least two threads acquired and some call waited, was refused or was preempted; distinct by history";
    add(p); }
  { Prof p; p.prop = "C02"; p.filter = ours; p.quick = 220000; p.thorough = 5000000; p.race = true; p.wdata = 3; p.access_gap = 0;
    p.rule = "as C01 with happens-before race detection (vector clocks, release/acquire by declared memory order) on the object's memory, on library statics and on data accessed while holding the lock; non-trivial: at least two threads acquired with contention; distinct by history";
    add(p); }
  { Prof p; p.prop = "C03"; p.filter = ours; p.quick = 260000; p.thorough = 6000000; p.tmin = 3; p.tmax = 5; p.wlock = 6; p.wtimed = 3; p.wtry = 1;
    p.rule = "programs with 3-5 threads, mostly blocking calls; at every point where no thread can run the model must have a state in which no pending call can proceed; non-trivial: some thread waited; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.parks || s.mblocked; };
    add(p); }
  { Prof p; p.prop = "C04"; p.filter = ours; p.quick = 260000; p.thorough = 6000000; p.wtry = 8; p.wlock = 3; p.wtimed = 1;
    p.rule = "programs dominated by try_lock/try_lock_shared mixed with blocking and timed calls; a try must not wait, true must be an acquisition and false explained by unavailability at some moment of the call, later calls unaffected; non-trivial: contention or refusal; distinct by history";
    add(p); }
  { Prof p; p.prop = "C05"; p.filter = [](const Adapter& a) { return ours(a) && (a.traits & T_TIMED); }; p.quick = 260000; p.thorough = 6000000; p.wtimed = 6; p.wlock = 2; p.wtry = 1; p.wtime = 2; p.wdata = 2;
    p.rule = "programs dominated by timed calls (relative and absolute, steady, system and user clocks, integral and floating durations, past, zero, negative and far deadlines) under virtual time with system-clock steps; non-trivial: a timed call returned false; distinct by history";
    add(p); }
  { Prof p; p.prop = "C06"; p.deep = 4; p.filter = [](const Adapter& a) { return ours(a) && (a.traits & T_REC); }; p.quick = 260000; p.thorough = 6000000; p.nmin = 3; p.nmax = 10; p.wacq = 5; p.wrel = 4;
    p.rule = "programs of nested acquisitions by every call mix on recursive types of every family; non-trivial: two threads acquired with contention; distinct by history";
    add(p); }
  { Prof p; p.prop = "C07"; p.filter = [](const Adapter& a) { return ours(a) && (a.traits & T_FIFO); }; p.quick = 260000; p.thorough = 6000000; p.tmin = 3; p.tmax = 5; p.wlock = 5; p.wtry = 2; p.wtimed = 3;
    p.rule = "programs with 3-5 threads on fair mutexes against a FIFO-queue model (a parked call holds its place); non-trivial: some thread waited; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.parks; };
    add(p); }
  { Prof p; p.prop = "C08"; p.filter = [](const Adapter& a) { return ours(a) && (a.traits & (P_TASK | P_PHASE)); }; p.quick = 280000; p.thorough = 6000000; p.tmin = 3; p.tmax = 6; p.nmin = 2; p.nmax = 5; p.wlock = 5; p.wtry = 2; p.wtimed = 4;
    p.rule = "programs with 3-6 threads on fair shared mutexes (Task, Phase) against a queue model with batched reader grants; non-trivial: some thread waited; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.parks; };
    add(p); }
  { Prof p; p.prop = "C09"; p.filter = [](const Adapter& a) { return ours(a) && (a.traits & (P_READER | P_WRITER)); }; p.quick = 280000; p.thorough = 6000000; p.tmin = 3; p.tmax = 5; p.wlock = 4; p.wtry = 3; p.wtimed = 4;
    p.rule = "programs with 3-5 threads on alternate and checked shared mutexes (ReaderPrefer, WriterPrefer) against an admission model with the set of waiting writers; non-trivial: some thread waited; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.parks; };
    add(p); }
  auto checked = [](const Adapter& a) { return ours(a) && (a.traits & T_CHECKED); };
  { Prof p; p.prop = "C10"; p.filter = checked; p.quick = 240000; p.thorough = 5000000; p.wmis = 3; p.omax = 2; p.leave = 12; p.tmin = 1; p.reborn = 25;
    p.rule = "programs with 25% misuses (foreign unlock, re-lock by the owner in every call form, destruction while owned) on all checked types; each must throw the right code, correct calls must not throw; non-trivial: a misuse was reported; distinct by history";
    add(p); }
  { Prof p; p.prop = "C12"; p.filter = checked; p.quick = 260000; p.thorough = 6000000; p.omin = 2; p.omax = 4; p.tmin = 2; p.tmax = 5; p.nmin = 2; p.nmax = 6; p.wlock = 8; p.wtry = 1; p.wtimed = 1; p.wacq = 7; p.wrel = 2; p.wmis = 0; p.wtime = 0; p.rounds2 = 30; p.wdata = 1; p.reborn = 20;
    p.rule = "programs locking 2-4 checked mutexes of mixed types in random orders; at every all-idle point the model must contain no unreported cycle, and throws must be on a cycle; non-trivial: a deadlock was reported; distinct by history";
    add(p); }
  { Prof p; p.prop = "C13"; p.filter = checked; p.quick = 260000; p.thorough = 6000000; p.omin = 2; p.omax = 3; p.tmin = 2; p.tmax = 5; p.nmin = 3; p.nmax = 8; p.wlock = 6; p.wtry = 2; p.wtimed = 3; p.wacq = 6; p.wrel = 4; p.wmis = 1; p.rounds2 = 40; p.reborn = 35;
    p.rule = "longer programs over 2-3 checked mutexes of mixed types with releases, timeouts, misuses and second sets of threads after reported deadlocks; every throw must be explained by a cycle of waiting threads, and nothing may remain of a refused request; non-trivial: a deadlock was reported; distinct by history";
    add(p); }
  { Prof p; p.prop = "C11"; p.filter = checked; p.quick = 60000; p.thorough = 1500000; p.wmis = 2; p.omin = 1; p.omax = 3; p.wlock = 6; p.leave = 10; p.aborting = true;
    p.rule = "programs with misuses and deadlocks in the ABORT / no-detection configurations, against the model of the default configuration (an abort counts as the throw); non-trivial: aborted or contended; distinct by history";
    add(p); p.prop = "C11n"; p.nodetect = true; p.aborting = false; add(p); p.prop = "C11an"; p.aborting = true; add(p); p.prop = "C11d"; p.nodetect = false; p.aborting = false; add(p); }
  { Prof p; p.prop = "C25"; p.filter = ours; p.quick = 200000; p.thorough = 5000000; p.wtime = 1; p.omax = 2; p.tmax = 5;
    p.rule = "programs over every type in which condition variables wake spuriously and weak CAS fail spuriously many times, against the full model; non-trivial: at least one such fault was injected; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.spurious || s.casfail; };
    add(p); }
  { Prof p; p.prop = "C26"; p.filter = checked; p.nores = true; p.quick = 1; p.thorough = 1; p.omax = 3; p.wmis = 1; p.tmax = 5; p.reborn = 20; p.rounds2 = 25;
    p.rule = "programs over 1-3 checked mutexes of mixed types in which drawn allocations inside the library throw bad_alloc (also in constructors and while a misuse or deadlock is reported); such a call must have no effect at all, and correct unlocks never fail; non-trivial: at least two threads acquired with contention and an allocation failed; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.resfail; };
    add(p); p.prop = "C26p"; p.filter = [](const Adapter& a) { return (a.traits & T_POSIX) && (a.kind == K_EXCL || a.kind == K_RW) && (a.traits & T_REC || a.kind == K_RW); }; p.wmis = 0; p.reborn = 10; p.nmin = 3; p.nmax = 8;
    p.rule = "programs on POSIX recursive mutexes and rwlocks in which native calls report an exhausted depth or number of readers (EAGAIN); a lock call must then throw, a try or timed call throw or return false, and ownership stay as it was; non-trivial: at least two threads acquired with contention and a call failed so; distinct by history";
    add(p); }
  { Prof p; p.prop = "C22n"; p.filter = [](const Adapter& a) { return (a.traits & T_NATIVE) && !(a.traits & (T_WIN | T_GCD | T_APPLE)); }; p.quick = 1; p.thorough = 1; p.race = true;
    p.rule = "programs on POSIX mutexes, rwlocks and spinlocks whose calls go randomly through the member function or the native handle, with every kind of deadline (also before the epoch and at the end of time); one lock model for both; non-trivial: two threads acquired with contention; distinct by history";
    add(p); }
  { Prof p; p.prop = "C24m"; p.filter = [](const Adapter& a) { return (a.traits & (T_WIN | T_GCD | T_APPLE)) && (a.kind == K_EXCL || a.kind == K_RW); }; p.quick = 1; p.thorough = 1; p.race = true; p.wtimed = 4; p.plat = true; p.sysstep = false;
    p.rule = "programs on win::native_mutex, critical_section, slim_rwlock and apple::unfair_lock over modelled platform calls (timeouts in ms as documented, early timeouts, sporadic failures); judged by the model of the standard counterpart; non-trivial: two threads acquired with contention; distinct by history";
    add(p); }
  { Prof p; p.prop = "C29m"; p.filter = [](const Adapter& a) { return (a.traits & (T_WIN | T_GCD | T_APPLE | T_POSIX)) && (a.kind == K_EXCL || a.kind == K_RW) && !(a.traits & (T_STD | T_DEFAULT)); }; p.quick = 1; p.thorough = 1; p.natives = true; p.nores = true; p.plat = true; p.sysstep = false; p.reborn = 70; p.omax = 3; p.rounds2 = 20; p.nmax = 5;
    p.rule = "programs on the POSIX, Win32 and apple types that construct, use, destroy and construct objects anew while creating native objects fails now and then; every native object made is destroyed exactly once, none is used outside its life, a constructor whose native object cannot be made throws; non-trivial: every object was destroyed and native objects were used by two threads or constructed anew; distinct by history";
    add(p); }
  { Prof p; p.prop = "C21m"; p.filter = ours; p.quick = 1; p.thorough = 1; p.age = 70; p.longp = 25;
    p.rule = "objects of every mutex type aged by 254-258, 65534-65541 (or so) uncontended uses of drawn forms, and programs of 40-110 calls per thread; then random programs judged by the same model as a fresh object; non-trivial: at least two threads acquired and some call waited, was refused or was preempted; distinct by history";
    add(p); }
  { Prof p; p.prop = "C23d"; p.filter = [](const Adapter& a) { return (a.traits & T_DEFAULT) != 0; }; p.quick = 1; p.thorough = 1; p.tmin = 3; p.tmax = 5;
    p.rule = "shared mutexes of the default policies (YAMC_RWLOCK_SCHED_DEFAULT, YAMC_RWLOCK_FAIRNESS_DEFAULT: undefined, or set by the program) against the model of the policy they are documented to select; non-trivial: at least two threads acquired and some thread waited; distinct by history";
    p.nontrivial = [](const rt::CaseStats& s) { return s.parks; };
    add(p); }
  { Prof p; p.prop = "STD"; p.filter = [](const Adapter& a) { return (a.traits & T_STD) != 0; }; p.quick = 50000; p.thorough = 500000; p.race = true;
    p.rule = "control: std types"; add(p); }
  for (auto& p : profs) {
    Prof* q = &p;
    reg({q->prop, "mutex", q->quick, q->thorough, q->rule, [q](Outcome& o) { run_case(*q, o); }});
  }
}
} // namespace drv
