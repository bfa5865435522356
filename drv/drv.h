// Shared driver infrastructure: adapters, executing operations, histories, exclusion counters.
#pragma once
#include "../rt/rt.h"
#include "../sut/sut.h"
#include "model.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>

namespace drv {
using rt::US; using rt::MS; using rt::SEC;
extern std::vector<const Adapter*>& adapters();

struct Outcome {
  int kind = 0;               // rt::VioKind
  std::string msg;
  std::string history;        // printable
  std::string sample;         // instead of the history of events
  uint64_t sig = 0;           // signature of the case
  bool nontrivial = false;
  bool undecided = false;
  std::map<std::string, long> classes;   // classification counters
};

struct Opts {
  std::string prop, profile;
  bool verbose = false;
};
extern Opts opts;

// ------------------------------------------------------------------ one world of objects under test
struct Excl { int owner = -1; int depth = 0; uint32_t shared = 0; };
struct Ctx {
  mdl::Model m;
  std::vector<void*> mem;
  std::vector<Excl> ex;
  std::vector<int*> data;
  std::vector<int> dataval;
  bool race_data = true;
  bool excl_check = true;
  long ops_bulk = 0;
  bool may_break = false, making = false, natives = false; int alive = 0;
  uint64_t salt = 0;          // chooses between member function and native handle
  // per thread
  int xdepth[rt::MAXF][mdl::MAXO]; bool sheld[rt::MAXF][mdl::MAXO];
  std::map<std::string, long> cls;
  std::string prehist;
  void reset() {
    prehist.clear(); natives = false; alive = 0;
    m.objs.clear(); m.ops.clear(); m.ops.reserve(512); mem.clear(); ex.clear(); data.clear(); dataval.clear(); cls.clear();
    m.detect_deadlock = true; m.drop_may_block = true;
    memset(xdepth, 0, sizeof xdepth); memset(sheld, 0, sizeof sheld);
  }
};
extern Ctx cx;

int add_object(const Adapter* ad, long init);      // on fiber 0
struct DL { int rel_idx = 0; int clk = 0, dur = 0; };
extern const int64_t REL[]; extern const int NREL;
// run one operation on object o as the current fiber; returns its result
int do_op(int o, int op, long n = 1, DL dl = {}, int tok = 0, bool defarg = false);
void destroy(int o);                               // O_DTOR + poison
void natives_done();                               // all objects are gone: no native object may be left
void age(int o, long cycles, unsigned forms, long n = 1);   // many uncontended uses by the calling fiber, not part of the history
void rebirth(int o);                               // destroy and construct at the same address
bool holds_x(int t, int o); bool holds_s(int t, int o);
void touch_data(int o, bool write);
// after case_run: judge the history; fills out
void judge(Outcome& out, bool finished);
std::string history_text();
uint64_t mix(uint64_t h, uint64_t v);

// ------------------------------------------------------------------ drivers
struct Driver {
  const char* prop;
  const char* profile;
  long quick_cases, thorough_cases;
  const char* rule;
  std::function<void(Outcome&)> run;              // generate + run + judge one case
};
void reg(const Driver& d);
std::vector<Driver>& drivers();
std::vector<const Adapter*> pick(std::function<bool(const Adapter&)> f);

template <class T> const T& choose(const std::vector<T>& v) { return v[rt::draw((uint32_t)v.size())]; }
inline int range(int lo, int hi) { return lo + (int)rt::draw(hi - lo + 1); }
// weighted program choice
int weighted(const int* w, int n);
inline int weighted(std::initializer_list<int> w) { return weighted(w.begin(), (int)w.size()); }
rt::CaseCfg gen_cfg(bool time, bool spur, bool cas, bool eintr);
}
