// worker: runs, replays and shrinks cases.
#include "drv.h"
#include <dlfcn.h>
#include <iostream>
#include <streambuf>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
namespace drv { void init_mutex(); void init_sync(); void init_misc(); }
using namespace drv;

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;

static std::string esc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static uint64_t case_seed(uint64_t seed, const std::string& prop, uint64_t i) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull + 12345;
  for (char c : prop) h = (h ^ (unsigned char)c) * 0x100000001b3ull;
  h = mix(h, i); return mix(h, 77);
}
typedef std::vector<uint32_t> L;
static void save_replay(const std::string& path, const std::string& prop, const std::string& drvprop, const std::string& cfg, const L& p, const L& s, const std::string& msg) {
  std::ofstream f(path);
  f << "property " << prop << "\ndriver " << drvprop << "\nconfig " << cfg << "\nmessage " << [&] { std::string m = msg; std::replace(m.begin(), m.end(), '\n', ' '); return m; }() << "\nprogram " << p.size();
  for (auto x : p) f << ' ' << x;
  f << "\nschedule " << s.size();
  for (auto x : s) f << ' ' << x;
  f << "\n";
}
static bool load_replay(const std::string& path, std::string& drvprop, L& p, L& s) {
  std::ifstream f(path); std::string line;
  if (!f) return false;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "driver") is >> drvprop;
    else if (k == "program" || k == "schedule") { size_t n; is >> n; L& v = k == "program" ? p : s; v.resize(n); for (auto& x : v) is >> x; }
  }
  return true;
}
static Driver* find(const std::string& p) { for (auto& d : drivers()) if (p == d.prop) return &d; return nullptr; }

struct RunRes { int kind; char msg[1500]; size_t np, ns; };
// run one replay in a child; the choices actually used come back through shared memory
#include <sys/mman.h>
struct Shared { int kind; char msg[2000]; uint32_t np, ns; uint32_t p[rt::MAXCHOICE], s[rt::MAXCHOICE]; };
static Shared* shm;
static int run_forked(Driver* d, const L& p, const L& s) {
  shm->kind = -1; shm->msg[0] = 0;
  pid_t c = fork();
  if (c == 0) {
    alarm(60);
    rt::set_replay(p.data(), p.size(), s.data(), s.size());
    Outcome o; d->run(o);
    const uint32_t *rp, *rs; size_t np, ns; rt::recorded(&rp, &np, &rs, &ns);
    memcpy(shm->p, rp, 4 * np); memcpy(shm->s, rs, 4 * ns); shm->np = np; shm->ns = ns;
    snprintf(shm->msg, sizeof shm->msg, "%s", o.msg.c_str());
    shm->kind = o.kind;
    _exit(0);
  }
  int st; waitpid(c, &st, 0);
  if (shm->kind < 0) return WIFSIGNALED(st) ? 900 + WTERMSIG(st) : 999;
  return shm->kind;
}
static void shrink(Driver* d, L& p, L& s, int kind, long budget) {
  long tries = 0;
  auto test = [&](L np, L ns) -> bool {
    if (++tries > budget) return false;
    while (!ns.empty() && ns.back() == 0) ns.pop_back();
    while (!np.empty() && np.back() == 0) np.pop_back();
    if (np.size() == p.size() && ns.size() == s.size() && np == p && ns == s) return false;
    if (run_forked(d, np, ns) == kind) { p.swap(np); s.swap(ns); return true; }
    return false;
  };
  auto pass = [&](bool sched) {
    bool any = false;
    L& v0 = sched ? s : p;
    for (size_t len = v0.size(); len >= 1; len /= 2) {
      for (size_t i = 0; i < (sched ? s : p).size() && tries < budget;) {
        L& v = sched ? s : p;
        size_t e = std::min(v.size(), i + len);
        L n(v); n.erase(n.begin() + i, n.begin() + e);
        if (test(sched ? p : n, sched ? n : s)) { any = true; continue; }
        L z(v); bool nz = false; for (size_t k = i; k < e; k++) { if (z[k]) nz = true; z[k] = 0; }
        if (nz && test(sched ? p : z, sched ? z : s)) { any = true; }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < (sched ? s : p).size() && tries < budget; i++) {
      L& v = sched ? s : p;
      if (v[i] > 1) { L n(v); n[i] = 1; if (test(sched ? p : n, sched ? n : s)) { any = true; continue; } L m(sched ? s : p); m[i]--; if (test(sched ? p : m, sched ? m : s)) any = true; }
    }
    return any;
  };
  for (int r = 0; r < 6 && tries < budget; r++) { bool a = pass(false); bool b = pass(true); if (!a && !b) break; }
}
int main(int argc, char** argv) {
  std::string mode, prop, out, replay, cfg; std::vector<std::string> libs; uint64_t seed = 1; long from = 0, step = 1, cases = 1000, budget = 3000;
  bool verbose = false; double maxsec = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "run" || a == "replay" || a == "shrink" || a == "list") mode = a;
    else if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--lib") libs.push_back(nx());
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = atol(nx().c_str());
    else if (a == "--step") step = atol(nx().c_str()); else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--file") replay = nx(); else if (a == "-v") verbose = true; else if (a == "--budget") budget = atol(nx().c_str());
    else if (a == "--cfg") cfg = nx(); else if (a == "--maxsec") maxsec = atof(nx().c_str());
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  for (auto& l : libs) if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
  std::cout.rdbuf(&nullbuf);
  std::cout << std::hex << 1 << 2.5 << std::dec; std::cout.flush();
  { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
  rt::init();
  init_mutex(); init_sync(); init_misc();
  if (mode == "list") { for (auto& d : drivers()) fprintf(stdout, "%s\t%s\t%ld\t%ld\n", d.prop, d.profile, d.quick_cases, d.thorough_cases); return 0; }
  opts.prop = prop;
  if (mode == "replay") {
    L p, s; std::string dp;
    if (!load_replay(replay, dp, p, s)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    Driver* d = find(dp); if (!d) { fprintf(stderr, "no driver %s\n", dp.c_str()); return 2; }
    opts.verbose = verbose; rt::set_notes(verbose);
    rt::set_replay(p.data(), p.size(), s.data(), s.size());
    Outcome o; d->run(o);
    if (verbose) fputs(rt::notes(), stdout);
    fprintf(stdout, "%s\n", o.history.c_str());
    fprintf(stdout, "result: %s %s\n", rt::vio_name(o.kind), o.msg.c_str());
    fflush(stdout);
    _exit(o.kind ? 1 : 0);
  }
  if (mode == "shrink") {
    shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    L p, s; std::string dp;
    if (!load_replay(replay, dp, p, s)) return 2;
    Driver* d = find(dp); if (!d) return 2;
    int k = run_forked(d, p, s);
    if (k == 0) { fprintf(stdout, "{\"reproduced\":0}\n"); return 0; }
    size_t p0 = p.size(), s0 = s.size();
    shrink(d, p, s, k, budget);
    int same = 0; std::string msg;
    for (int i = 0; i < 3; i++) if (run_forked(d, p, s) == k) { same++; msg = shm->msg; }
    save_replay(out, prop, dp, cfg, p, s, msg);
    fprintf(stdout, "{\"reproduced\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"from\":[%zu,%zu],\"to\":[%zu,%zu]}\n", same, k < 900 ? rt::vio_name(k) : "crash", esc(msg).c_str(), p0, s0, p.size(), s.size());
    fflush(stdout); _exit(0);
  }
  // run
  Driver* d = find(prop); if (!d) { fprintf(stderr, "no driver for %s\n", prop.c_str()); return 2; }
  std::map<std::string, long> cls; std::vector<uint64_t> sigs; std::set<uint64_t> seen; long ran = 0, und = 0, nontriv = 0;
  std::vector<std::string> samples; long steps = 0;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  bool vio = false; std::string vmsg, vhist; int vkind = 0; long vcase = -1;
  bool timeup = false;
  volatile long* curcase = nullptr;      // survives a crash of this process
  { FILE* f = fopen((out + ".cur").c_str(), "w+"); if (f) { if (ftruncate(fileno(f), 8) == 0) { void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0); if (m != MAP_FAILED) curcase = (long*)m; } fclose(f); } }
  for (long i = from; i < cases; i += step) {
    if (curcase) *curcase = i;
    uint64_t sd = case_seed(seed, prop, i);
    rt::set_gen(sd);
    Outcome o; d->run(o);
    ran++; steps += rt::stats().steps;
    if (o.undecided) und++;
    for (auto& kv : o.classes) cls[kv.first] += kv.second;
    if (o.nontrivial) { nontriv++; if (seen.size() < 4000000) seen.insert(o.sig); if (samples.size() < 3 && (nontriv % 97) == 1 && o.kind == 0) samples.push_back(o.sample.empty() ? history_text() : o.sample); }
    if (o.kind) {
      const uint32_t *rp, *rs; size_t np, ns; rt::recorded(&rp, &np, &rs, &ns);
      save_replay(out + ".replay", prop, prop, cfg, L(rp, rp + np), L(rs, rs + ns), o.msg);
      vio = true; vmsg = o.msg; vkind = o.kind; vhist = o.history; vcase = i;
      break;
    }
    if (maxsec > 0 && (ran & 255) == 0) { struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > maxsec) { timeup = true; break; } }
  }
  std::ofstream f(out);
  f << "{\"ran\":" << ran << ",\"undecided\":" << und << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << seen.size() << ",\"steps\":" << steps << ",\"timeup\":" << (timeup ? 1 : 0);
  f << ",\"rule\":\"" << esc(d->rule) << "\"";
  f << ",\"classes\":{"; bool first = true; for (auto& kv : cls) { f << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; first = false; } f << "}";
  f << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << "\"" << esc(samples[i]) << "\""; f << "]";
  if (vio) f << ",\"violation\":{\"case\":" << vcase << ",\"kind\":\"" << rt::vio_name(vkind) << "\",\"msg\":\"" << esc(vmsg) << "\",\"history\":\"" << esc(vhist) << "\"}";
  f << "}\n"; f.close();
  std::ofstream g(out + ".sig", std::ios::binary);
  std::vector<uint64_t> vs(seen.begin(), seen.end());
  g.write((const char*)vs.data(), vs.size() * 8); g.close();
  fflush(stdout);
  _exit(vio ? 1 : 0);
}
