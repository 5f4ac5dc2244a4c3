// Case runner shared by the C++ monitors.  A driver declares FAMILYs; each
// family function is run for case indices 0..N-1 with its own random stream
// derived from (seed, family, index), so that one case can be replayed alone.
#ifndef VERIF_HARNESS_HH
#define VERIF_HARNESS_HH
#include <dynamic-graph/standin-feed.hh>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <cxxabi.h>

namespace vh {
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t u64() { return mix(s += 0x9e3779b97f4a7c15ULL); }
  int range(int lo, int hi) {  // inclusive
    return lo + (int)(u64() % (uint64_t)(hi - lo + 1));
  }
  double uni(double lo = 0., double hi = 1.) {
    return lo + (hi - lo) * ((u64() >> 11) * (1.0 / 9007199254740992.0));
  }
  bool coin(double p = .5) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    while (u <= 0) u = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  // magnitudes spread over several decades, with exact zeros and integers
  double val(double scale = 1.) {
    switch (range(0, 9)) {
      case 0: return 0.;
      case 1: return scale * range(-4, 4);
      case 2: return scale * uni(-1, 1) * 1e-3;
      case 3: return scale * uni(-1, 1) * 1e2;
      default: return scale * gauss();
    }
  }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[u64() % i]);
  }
};

struct Stop {};

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

struct FamilyStats {
  uint64_t evals = 0, checks = 0;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
};

struct Case {
  Rng rng;
  std::string family;
  int index;
  uint64_t seed;
  bool thorough;
  FamilyStats &st;
  std::ostringstream log_;
  FILE *out;
  bool failed = false;
  std::string sample_;
  Case(const std::string &f, int i, uint64_t sd, bool th, FamilyStats &s, FILE *o)
      : rng(mix(sd * 1000003ULL + hashStr(f)) ^ mix((uint64_t)i * 7919ULL + 17)),
        family(f), index(i), seed(sd), thorough(th), st(s), out(o) {}
  std::ostream &log() { log_ << "\n"; return log_; }
  void ev(const std::string &k, uint64_t n = 1) { st.events[k] += n; }
  // one distinct, non-trivial observation
  void state(uint64_t h) { if (st.states.size() < 200000) st.states.insert(mix(h ^ hashStr(family))); }
  void state(const std::string &s) { state(hashStr(s)); }
  void sample(const std::string &s) { sample_ = s; }
  void report(const std::string &key, const std::string &msg) {
    failed = true;
    std::string l = log_.str();
    if (l.size() > 6000) l = "..." + l.substr(l.size() - 6000);
    fprintf(out, "{\"t\":\"viol\",\"family\":\"%s\",\"case\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"log\":\"%s\"}\n",
            family.c_str(), index, esc(key).c_str(), esc(msg).c_str(), esc(l).c_str());
    fflush(out);
  }
  [[noreturn]] void fail(const std::string &key, const std::string &msg = "") {
    report(key, msg);
    throw Stop();
  }
  void check(bool ok, const char *key) { ++st.checks; if (!ok) fail(key); }
  template <class F>
  void check(bool ok, const char *key, F msg) {
    ++st.checks;
    if (!ok) { std::ostringstream o; o.precision(17); msg(o); fail(key, o.str()); }
  }
  void same(double a, double b, const char *key) {  // bitwise-equal or both NaN
    ++st.checks;
    if (!(a == b || (a != a && b != b))) {
      std::ostringstream o; o.precision(17); o << "got " << a << " expected " << b; fail(key, o.str());
    }
  }
  void near(double got, double want, double tol, const char *key) {
    ++st.checks;
    if (got == want) return;
    if (!(std::fabs(got - want) <= tol)) {
      std::ostringstream o; o.precision(17);
      o << "got " << got << " expected " << want << " tol " << tol;
      fail(key, o.str());
    }
  }
  template <class A, class B>
  void eq(const A &got, const B &want, const char *key) {
    ++st.checks;
    if (!(got == want)) {
      std::ostringstream o; o.precision(17);
      o << "got [" << got << "] expected [" << want << "]";
      fail(key, o.str());
    }
  }
  // run f; it must throw (anything derived from E)
  template <class E, class F>
  void throws(F f, const char *key) {
    ++st.checks;
    bool ok = false;
    try { f(); } catch (const E &) { ok = true; }
    if (!ok) fail(key, "no exception of the expected kind");
  }
};

typedef void (*FamFn)(Case &);
struct Family { std::string name; int quick, thorough; FamFn fn; };
inline std::vector<Family> &families() { static std::vector<Family> f; return f; }
struct Reg {
  Reg(const char *n, int q, int t, FamFn f) { families().push_back(Family{n, q, t, f}); }
};
#define FAMILY(name, quick, thorough)                                   \
  static void fam_##name(vh::Case &c);                                  \
  static vh::Reg reg_##name(#name, quick, thorough, fam_##name);        \
  static void fam_##name(vh::Case &c)

inline std::string typeName(const std::exception &e) {
  int st; char *d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
  std::string r = d ? d : typeid(e).name(); free(d); return r;
}

inline void emit(FILE *out, const std::string &name, FamilyStats &st) {
  fprintf(out, "{\"t\":\"sum\",\"family\":\"%s\",\"evals\":%llu,\"checks\":%llu,\"events\":{", name.c_str(),
          (unsigned long long)st.evals, (unsigned long long)st.checks);
  bool first = true;
  for (auto &e : st.events) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(out, "},\"states\":[");
  first = true;
  for (uint64_t h : st.states) { fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(out, "],\"samples\":[");
  first = true;
  for (auto &s : st.samples) { fprintf(out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
  fprintf(out, "]}\n");
  fflush(out);
  st = FamilyStats();
}

inline int run(int argc, char **argv) {
  uint64_t seed = 1; bool thorough = false; int shard = 0, shards = 1, only = -1;
  std::string outp, prog, fam, resumeFam; int resumeCase = -1; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--shard") shard = atoi(nx().c_str());
    else if (a == "--shards") shards = atoi(nx().c_str());
    else if (a == "--out") outp = nx();
    else if (a == "--progress") prog = nx();
    else if (a == "--family") fam = nx();
    else if (a == "--case") only = atoi(nx().c_str());
    else if (a == "--resume") { resumeFam = nx(); resumeCase = atoi(nx().c_str()); }
    else if (a == "--list") list = true;
  }
  if (list) { for (auto &f : families()) printf("%s\n", f.name.c_str()); return 0; }
  FILE *out = outp.empty() ? stdout : fopen(outp.c_str(), "a");
  int pfd = prog.empty() ? -1 : open(prog.c_str(), O_WRONLY | O_CREAT, 0644);
  bool skipping = !resumeFam.empty();
  int viols = 0;
  for (auto &f : families()) {
    if (!fam.empty() && f.name != fam) continue;
    int from = 0;
    if (skipping) {
      if (f.name != resumeFam) continue;
      skipping = false; from = resumeCase + 1;
    }
    FamilyStats st;
    int n = thorough ? f.thorough : f.quick;
    for (int i = from; i < n; ++i) {
      if (only >= 0 ? i != only : (i % shards != (int)((shard + hashStr(f.name)) % shards))) continue;
      if (pfd >= 0) {
        char b[128]; int l = snprintf(b, sizeof b, "%-100s %10d\n", f.name.c_str(), i);
        if (pwrite(pfd, b, l, 0) < 0) return 4;
      }
      Case c(f.name, i, seed, thorough, st, out);
      c.log_.precision(17);
      standin::feedThroughSignals() = (mix(hashStr(f.name) + i * 31ULL + seed) >> 7) & 1;
      try { f.fn(c); }
      catch (const Stop &) {}
      catch (const std::exception &e) { c.report("exception:" + f.name + ":" + typeName(e), e.what()); }
      catch (...) { c.report("exception:" + f.name + ":unknown", "non-standard exception"); }
      ++st.evals;
      if (!c.sample_.empty() && st.samples.size() < 2) st.samples.push_back(f.name + "#" + std::to_string(i) + ": " + c.sample_.substr(0, 400));
      if (c.failed && ++viols >= 12) { emit(out, f.name, st); goto done; }
    }
    emit(out, f.name, st);
  }
done:
  fprintf(out, "{\"t\":\"end\"}\n");
  if (out != stdout) fclose(out);
  fflush(stdout);
  _exit(0);
}
}  // namespace vh

#ifndef VERIF_NO_MAIN
int main(int argc, char **argv) { return vh::run(argc, argv); }
#endif
#endif
