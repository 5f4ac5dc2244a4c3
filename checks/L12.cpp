// @dgfree
// @sources src/debug/debug.cpp src/exception/exception-abstract.cpp src/exception/exception-factory.cpp
// @extra L12_off.cc
// @rule each case interleaves trace calls at random levels with file opening and closing and level changes, on the library's own trace object and on private ones, and compares the bytes written with the expected ones; distinct = distinct written texts
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
static int g_level = 0, g_tlevel = 0;
#define VP_DEBUG
#define VP_DEBUG_MODE g_level
#define VP_TEMPLATE_DEBUG_MODE g_tlevel
#include <sot/core/debug.hh>
#include "harness.hh"
using namespace vh;
using dynamicgraph::sot::DebugTrace;
int off_calls(int level, const std::string &s);  // code compiled with traces off

static std::string rstr(Rng &r, int maxLen) {
  int n = r.coin(.3) ? r.pick(std::vector<int>{0, 1, 509, 510, 511, 512, 513, 800}) : r.range(0, maxLen);
  std::string s;
  for (int i = 0; i < n; ++i) s += (char)r.range(33, 126);
  return s;
}
static std::string slurp(const std::string &f) {
  std::ifstream i(f.c_str()); std::ostringstream o; o << i.rdbuf(); return o.str();
}
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "."; }

// a private trace object on a private stream
FAMILY(object, 3000, 60000) {
  Rng &r = c.rng;
  std::ostringstream os;
  DebugTrace t(os);
  t.traceLevel = r.range(-1, 20); t.traceLevelTemplate = r.range(-1, 20);
  std::string want;
  char buf[DebugTrace::SIZE];
  int n = r.range(1, 20);
  for (int k = 0; k < n; ++k) {
    std::string pre = r.coin(.5) ? rstr(r, 20) : "";
    std::string s = rstr(r, 80); int i = (int)r.u64(); double d = r.gauss();
    t.tmpbuffer << pre;
    int lv = r.range(-1, 20);
    snprintf(buf, sizeof buf, "%d <%s> %.3f", i, s.c_str(), d);
    c.log() << "op level " << lv << " at " << t.traceLevel << "/" << t.traceLevelTemplate;
    switch (r.range(0, 6)) {
      case 0: t.trace(lv, "%d <%s> %.3f", i, s.c_str(), d); if (lv <= t.traceLevel) want += pre + buf + "\n"; break;
      case 1: t.trace("%d <%s> %.3f", i, s.c_str(), d); want += pre + buf + "\n"; break;
      case 2: t.trace(lv); if (lv <= t.traceLevel) want += pre; break;
      case 3: t.traceTemplate(lv, "%d <%s> %.3f", i, s.c_str(), d); if (lv <= t.traceLevelTemplate) want += pre + buf + "\n"; break;
      case 4: t.traceTemplate("%d <%s> %.3f", i, s.c_str(), d); want += pre + buf + "\n"; break;
      case 5: t.pre(os, lv).trace(lv + r.range(-1, 1) * 0, "%s", s.c_str()); snprintf(buf, sizeof buf, "%s", s.c_str()); want += pre + buf + "\n"; c.eq(t.traceLevel, lv, "level-set-by-prefix"); break;
      default: { int keep = t.traceLevel; c.check(&t.pre(os) == &t, "prefix-returns-trace"); c.eq(t.traceLevel, keep, "level-kept"); t.trace(); if (-1 <= t.traceLevel) want += pre; }
    }
    c.ev("call");
    c.eq(os.str(), want, "written-text");
    c.check(t.tmpbuffer.str().empty(), "prefix-used-once");
  }
  c.state(want);
}

static std::string prefix(int line, bool err) {
  std::ostringstream o;
  if (err) o << "\t!! ";
  o << __FILE__ << ": traceAll(#" << line << ") :";
  return o.str();
}
struct Exp { std::string text; int evals = 0; };
static int g_evals;
static std::string arg(const std::string &s) { ++g_evals; return s; }

// the library's trace macros; returns the text they must have written
static std::string traceAll(Rng &r, const std::string &s, bool open, int &wantEvals) {
  std::string want; int L = r.range(-2, 60);
  char buf[DebugTrace::SIZE];
  snprintf(buf, sizeof buf, "%s=%d", s.c_str(), L);
  bool on = open && L <= g_level, ton = open && L <= g_tlevel;
  switch (r.range(0, 7)) {
    case 0: sotDEBUG(L) << arg(s) << std::endl; if (on) { want = prefix(__LINE__, false) + s + "\n"; ++wantEvals; } break;
    case 1: sotDEBUGMUTE(L) << arg(s) << std::endl; if (on) { want = s + "\n"; ++wantEvals; } break;
    case 2: sotERROR << arg(s) << std::endl; if (open) { want = prefix(__LINE__, true) + s + "\n"; ++wantEvals; } break;
    case 3: sotDEBUGF(L, "%s=%d", s.c_str(), L); if (on) want = prefix(__LINE__, false) + buf + "\n"; break;
    case 4: sotTDEBUG(L) << arg(s) << std::endl; if (ton) { want = prefix(__LINE__, false) + s + "\n"; ++wantEvals; } break;
    case 5: sotDEBUGIN(L); if (on) want = prefix(__LINE__, false) + "# In {\n"; break;
    case 6: sotDEBUGOUT(L); if (on) want = prefix(__LINE__, false) + "# Out }\n"; break;
    default: sotDEBUGINOUT(L); if (on) want = prefix(__LINE__, false) + "# In/Out { }\n"; break;
  }
  return want;
}

FAMILY(library, 1500, 30000) {
  Rng &r = c.rng;
  std::string f[2] = {scratch() + "/t0", scratch() + "/t1"};
  int cur = -1; std::string want[2];
  unlink(f[0].c_str()); unlink(f[1].c_str());
  DebugTrace::closeFile();
  g_level = r.range(0, 50); g_tlevel = r.range(0, 50);
  int n = r.range(2, 40), evals = 0; g_evals = 0;
  for (int k = 0; k < n; ++k) {
    switch (r.range(0, 11)) {
      case 0: { int w = r.range(0, 1); DebugTrace::openFile(f[w].c_str()); cur = w; want[w] = ""; c.log() << "open " << w; c.ev("open"); break; }
      case 1: DebugTrace::closeFile(); if (cur >= 0) c.eq(slurp(f[cur]), want[cur], "file-complete-after-close"); cur = -1; c.log() << "close"; c.ev("close"); break;
      case 2: g_level = r.range(0, 50); g_tlevel = r.range(0, 50); break;
      case 3: c.eq(off_calls(r.range(-2, 50), "x"), 0, "switched-off-traces-do-not-evaluate"); break;
      default: {
        int before = g_evals, we = 0;
        std::string w = traceAll(r, rstr(r, 60), cur >= 0, we);
        if (cur >= 0) { want[cur] += w; c.ev(w.empty() ? "filtered" : "traced"); } else { c.eq(w, std::string(), "model"); c.ev("closed"); }
        c.eq(g_evals - before, we, "arguments-evaluated-only-when-traced");
        int lv = r.range(-3, 60);
        c.eq(dynamicgraph::sot::sotDEBUG_ENABLE(lv), lv <= g_level, "enabled-test");
        c.eq(dynamicgraph::sot::sotTDEBUG_ENABLE(lv), lv <= g_tlevel, "enabled-test");
      }
    }
    if (cur >= 0 && r.coin(.3)) { dynamicgraph::sot::sotDEBUGFLOW.outputbuffer.flush(); c.eq(slurp(f[cur]), want[cur], "file-content"); }
  }
  DebugTrace::closeFile();
  if (cur >= 0) c.eq(slurp(f[cur]), want[cur], "file-complete-after-close");
  c.state(want[0] + "|" + want[1]);
  c.sample("calls=" + std::to_string(n) + " bytes=" + std::to_string(want[0].size() + want[1].size()));
}
