// Small property-based testing harness for stand-alone programs: a case is a list of choices,
// failures are shrunk on that list (each candidate in a child process) and replayed from it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>

namespace pbt {
struct Rng {
  uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
struct Fail { std::string msg; };
struct Gen {
  Rng r; bool replay = false; std::vector<uint64_t> in, rec; size_t at = 0;
  uint64_t draw(uint64_t n) {                   // choice in [0,n); 0 is the simplest
    uint64_t v = replay ? (at < in.size() ? in[at] % (n ? n : 1) : 0) : r.below(n);
    at++; rec.push_back(v); return v;
  }
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size())]; }
  bool p(unsigned percent) {                    // biased; 0 = no
    uint64_t v = !percent ? 0 : replay ? (at < in.size() ? in[at] % 2 : 0) : r.below(100) < percent;
    at++; rec.push_back(v); return v;
  }
};
// what a case reports about itself
struct Info { bool nontrivial = false; std::string desc; std::vector<std::string> classes; uint64_t sig = 0; };
using Case = std::function<void(Gen&, Info&)>;   // throws Fail

inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char* f, ...) { char b[1000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b}; }
#define PBT_CHECK(c, ...) do { if (!(c)) pbt::fail(__VA_ARGS__); } while (0)

struct Shared { volatile uint64_t n; uint64_t ch[4096]; char msg[1200]; };
inline Shared*& shm() { static Shared* s; return s; }
inline std::string esc(const std::string& s) {
  std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}
inline std::string join(const std::vector<uint64_t>& v) { std::string s; for (auto x : v) { if (!s.empty()) s += ' '; s += std::to_string(x); } return s; }

// one case in a child; "" if it passes
inline std::string child(const Case& cs, const std::vector<uint64_t>& in, int limit, std::vector<uint64_t>* used, std::string* desc) {
  shm()->msg[0] = 0; shm()->n = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    alarm(limit);
    Gen g; g.replay = true; g.in = in; Info inf; int rc = 0;
    try { cs(g, inf); } catch (Fail& f) { snprintf(shm()->msg, sizeof shm()->msg, "%s", f.msg.c_str()); rc = 1; }
    shm()->n = g.rec.size() < 4096 ? g.rec.size() : 4096;
    for (size_t i = 0; i < shm()->n; i++) shm()->ch[i] = g.rec[i];
    if (rc == 1) { std::string m = shm()->msg; if (!inf.desc.empty()) m += " [" + inf.desc + "]"; snprintf(shm()->msg, sizeof shm()->msg, "%s", m.c_str()); }
    _exit(rc);
  }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (used) used->assign(shm()->ch, shm()->ch + shm()->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return shm()->msg[0] ? shm()->msg : "failed";
  if (used) *used = in;
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "does not finish" : "the process dies of signal " + std::to_string(WTERMSIG(st));
  return "the process ends with status " + std::to_string(WEXITSTATUS(st));
}

inline int run(int argc, char** argv, const char* rule, const Case& cs, int limit = 60) {
  uint64_t seed = 1; long cases = 1000; std::string out, rep; bool replay = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    if (a == "--cases") cases = atol(argv[i + 1]);
    if (a == "--out") out = argv[i + 1];
    if (a == "--show") { Gen g; Rng x{seed * 0x9E3779B97F4A7C15ull + (uint64_t)atol(argv[i + 1]) * 0xD1B54A32D192ED03ull}; x.next(); g.r.s = x.next(); Info inf; cs(g, inf); fprintf(stderr, "%s\n", inf.desc.c_str()); return 0; }
    if (a == "--replay") { replay = true; rep = argv[i + 1]; }
  }
  shm() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto parse = [](const std::string& s) { std::vector<uint64_t> v; const char* p = s.c_str(); char* e; for (;;) { uint64_t x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; } return v; };
  if (replay) {
    std::string m = child(cs, parse(rep), limit, nullptr, nullptr);
    printf("%s\n", m.empty() ? "holds" : m.c_str());
    return m.empty() ? 0 : 1;
  }
  // cases run in children, in batches; a failing batch is searched for its case
  long done = 0, nt = 0; std::set<uint64_t> sigs; std::map<std::string, long> cls; std::vector<std::string> samples;
  std::string vio; std::vector<uint64_t> vch; long vcase = -1;
  const long B = 500;
  auto emit = [&]() {
    FILE* f = fopen(out.empty() ? "/dev/stdout" : out.c_str(), "w");
    fprintf(f, "{\"ran\":%ld,\"nontrivial\":%ld,\"distinct\":%zu,\"rule\":\"%s\",\"classes\":{", done, nt, sigs.size(), esc(rule).c_str());
    bool c = false; for (auto& k : cls) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", esc(k.first).c_str(), k.second); c = true; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "]");
    if (!vio.empty()) fprintf(f, ",\"violation\":{\"case\":%ld,\"msg\":\"%s\",\"choices\":\"%s\"}", vcase, esc(vio).c_str(), join(vch).c_str());
    fprintf(f, "}\n"); fclose(f);
  };
  auto gseed = [&](long i) { Rng x{seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull}; x.next(); return x.next(); };
  for (long b = 0; b < cases && vio.empty(); b += B) {
    long e = b + B < cases ? b + B : cases;
    int pp[2]; if (pipe(pp)) return 3;
    fflush(nullptr);
    shm()->n = (uint64_t)-1; shm()->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      close(pp[0]); FILE* w = fdopen(pp[1], "w"); int rc = 0;
      for (long i = b; i < e; i++) {
        alarm(limit);
        shm()->n = (uint64_t)i;
        Gen g; g.r.s = gseed(i); Info inf;
        try { cs(g, inf); } catch (Fail& f) { snprintf(shm()->msg, sizeof shm()->msg, "%s", f.msg.c_str()); rc = 1; break; }
        uint64_t h = 7; for (auto x : g.rec) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; }
        if (inf.sig) h = inf.sig;
        fprintf(w, "C %d %llu\n", inf.nontrivial, (unsigned long long)h);
        for (auto& k : inf.classes) fprintf(w, "K %s\n", k.c_str());
        if (i < 3 || (i % 997 == 0)) { std::string d = inf.desc; for (auto& ch : d) if (ch == '\n') ch = ';'; fprintf(w, "S %s\n", d.c_str()); }
      }
      fflush(w); _exit(rc);
    }
    close(pp[1]);
    FILE* r = fdopen(pp[0], "r"); char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, r)) > 0) {
      if (line[n - 1] == '\n') line[n - 1] = 0;
      if (line[0] == 'C') { int x; unsigned long long h; if (sscanf(line, "C %d %llu", &x, &h) == 2) { done++; if (x) { nt++; sigs.insert(h); } } }
      else if (line[0] == 'K') cls[line + 2]++;
      else if (line[0] == 'S' && samples.size() < 4) samples.push_back(line + 2);
    }
    free(line); fclose(r);
    int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      vcase = (long)shm()->n; std::string first = shm()->msg;
      Gen g; g.r.s = gseed(vcase);
      // regenerate the choices of the case: in a child, recording as far as it gets
      std::vector<uint64_t> ch; 
      { int q[2]; if (pipe(q)) return 3; pid_t c2 = fork();
        if (c2 == 0) { close(q[0]); alarm(limit); Info inf; struct RecGen : Gen {} ; 
          // draws are independent of the outcome of the calls under test up to the failure
          g.rec.reserve(1 << 16);
          static Gen* gp; gp = &g; static int fd; fd = q[1];
          auto flush = [](int) { size_t m = gp->rec.size() * 8; ssize_t z = write(fd, gp->rec.data(), m); (void)z; _exit(0); };
          for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, flush);
          try { cs(g, inf); } catch (Fail&) {}
          flush(0); }
        close(q[1]); uint64_t x; while (read(q[0], &x, 8) == 8) ch.push_back(x); close(q[0]); int s2; waitpid(c2, &s2, 0); }
      std::vector<uint64_t> used; int ok = 0; std::string m, lm;
      for (int k = 0; k < 3; k++) { m = child(cs, ch, limit, &used, nullptr); if (!m.empty()) { ok++; lm = m; } }
      if (ok < 3) { cls["case that failed only once (ignored)"]++; fprintf(stderr, "note: case %ld failed once (status %x), did not reproduce: %s [%s]\n", vcase, st, first.c_str(), join(ch).c_str()); continue; }
      // shrink
      std::vector<uint64_t> best = used.empty() ? ch : used; long budget = 400; time_t t0 = time(nullptr);
      bool again = true;
      int lim2 = lm == "does not finish" ? 10 : limit;
      auto attempt = [&](std::vector<uint64_t> c) { if (budget-- <= 0 || time(nullptr) - t0 > 90) return false; std::vector<uint64_t> u; std::string x = child(cs, c, lim2, &u, nullptr); if (x.empty()) return false; best = c; lm = x; return true; };
      while (again && budget > 0 && time(nullptr) - t0 < 90) {
        again = false;
        for (size_t len = best.size() / 2; len >= 1; len /= 2)
          for (size_t i = 0; i + len <= best.size();) { auto c = best; c.erase(c.begin() + i, c.begin() + i + len); if (attempt(c)) again = true; else i += len; }
        for (size_t i = 0; i < best.size(); i++) {
          for (uint64_t v : {(uint64_t)0, best[i] / 2, best[i] - 1}) if (v < best[i]) { auto c = best; c[i] = v; if (attempt(c)) { again = true; break; } }
        }
      }
      for (int k = 0; k < 1; k++) { m = child(cs, best, limit, &used, nullptr); if (!m.empty()) lm = m; }
      vio = lm; vch = best;
      break;
    }
  }
  emit();
  return vio.empty() ? 0 : 1;
}
} // namespace pbt
