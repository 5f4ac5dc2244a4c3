// @sources src/traces/reader.cpp src/debug/debug.cpp src/sot/flags.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp
// @rule each case writes random data files (own writer), drives the real reader through load, read, rewind, clear and resize, and compares each output with the row due; distinct = distinct output histories
#include <sot/core/reader.hh>
#include <fstream>
#include <unistd.h>
#include "E_common.hh"
typedef std::vector<double> VD; typedef sot::Flags Flags;
static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
static std::string token(Rng &r, double &v) {
  char b[400]; double x = r.coin(.1) ? 0 : r.coin(.2) ? r.range(-50, 50) : r.coin(.1) ? r.gauss() * 1e300 : r.coin(.1) ? r.gauss() * 1e-300 : r.gauss() * std::pow(10., r.range(-8, 8)); static const char *f[] = {"%.17g", "%.6g", "%.3e", "%.10f", "%+.4g"};
  snprintf(b, sizeof b, f[std::abs(x) > 1e15 ? r.range(0, 2) : r.range(0, 4)], x); v = strtod(b, 0); return b;
}
// writes one file, adds its rows
static std::string file(Case &c, std::list<VD> &rows, bool wide) {
  Rng &r = c.rng; std::string p = scratch() + "/reader." + std::to_string(r.range(0, 3)) + ".dat"; std::ofstream f(p); bool crlf = r.coin(.1); int n = r.coin(.05) ? 0 : r.range(1, 8), w = wide ? r.range(60, 400) : r.range(1, 9);
  for (int i = 0; i < n; ++i) {
    if (r.coin(.1)) f << (r.coin() ? "" : "  \t") << (crlf ? "\r\n" : "\n"); int k = r.coin(.85) ? w : r.range(1, w); VD row; std::string l; if (r.coin(.2)) l += r.coin() ? "  " : "\t";
    for (int j = 0; j < k; ++j) { double v; if (j) l += r.coin(.8) ? " " : r.coin() ? "\t" : "   "; l += token(r, v); row.push_back(v); }
    if (r.coin(.15)) l += "  "; else if (r.coin(.1)) l += r.coin() ? " # remark 7" : " end"; rows.push_back(row); f << l; if (i + 1 < n || r.coin(.7)) f << (crlf ? "\r\n" : "\n"); if (l.size() >= 1023) c.ev("long-line"); c.ev("row-written");
  }
  return p;
}
struct Rig {
  EP e; std::list<VD> rows; std::list<VD>::const_iterator cur; bool set = false, have = false; int t = 1, R = 0, C = 0; VD v; Eigen::MatrixXd m; bool mh = false; std::function<bool(int)> sel = [](int) { return true; }; uint64_t h = 0, delivered = 0, held = 0;
  Rig() : e(make("Reader")) {}
  bool ended() const { return set && cur == rows.end(); }
  void step() { if (!set) { cur = rows.begin(); set = true; } else if (cur != rows.end()) ++cur; if (cur == rows.end()) { ++held; return; } ++delivered; have = true; v.clear(); for (size_t i = 0; i < cur->size(); ++i) if (sel(i)) v.push_back((*cur)[i]); }
  void read(Case &c, bool matrix) {
    auto show = [&](std::ostream &o) { o << "at " << t << " after " << delivered << " rows and " << held << " holds"; };
    if (!have) { if (!matrix) c.check(out<dg::Vector>(*e, "vector")(t).size() == 0, "nothing-loaded", show); return; }
    if (!matrix) { const dg::Vector &g = out<dg::Vector>(*e, "vector")(t); bool ok = g.size() == (int)v.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = g(i) == v[i]; c.check(ok, "row", [&](std::ostream &o) { show(o); o << ": got (" << g.size() << ") " << g.transpose() << " wanted (" << v.size() << ")"; for (double x : v) o << " " << x; }); h = hashBytes(g.data(), g.size() * 8, h); }
    else {
      if ((int)v.size() >= R * C) { m.resize(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = v[i * C + j]; mh = true; }
      const dg::Matrix &g = out<dg::Matrix>(*e, "matrix")(t); if (mh) c.check(g.rows() == m.rows() && g.cols() == m.cols() && (g.size() == 0 || g == m), "matrix", [&](std::ostream &o) { show(o); o << ": got\n" << g << "\nwanted\n" << m; });
    }
  }
};
static void body(Case &c, bool wide) {
  Rng &r = c.rng; Rig g; uint64_t nread = 0;
  auto load = [&] { std::string p = file(c, g.rows, wide); cmd(*g.e, "load", {Value(p)}); unlink(p.c_str()); c.ev("load"); c.log() << "load " << g.rows.size(); };
  auto resize = [&] { g.R = r.range(0, 3); g.C = r.range(0, 4); cmd(*g.e, "resize", {Value(g.R), Value(g.C)}); };
  for (int i = 0, n = r.coin(.9) ? 1 : r.range(0, 3); i < n; ++i) load(); if (r.coin(.7)) resize();
  for (int s = 0, S = r.range(3, 40); s < S; ++s) {
    int op = r.range(0, 19);
    if (op == 0) { cmd(*g.e, "rewind"); g.set = false; c.ev("rewind"); c.log() << "rewind"; }
    else if (op == 1 && r.coin(.5)) { cmd(*g.e, "clear"); g.rows.clear(); g.set = false; c.ev("clear"); c.log() << "clear"; if (r.coin(.7)) load(); }
    else if (op == 2 && r.coin()) { bool e = g.ended(); load(); if (e) { cmd(*g.e, "rewind"); g.set = false; } else if (g.set) c.ev("load-while-playing"); }
    else if (op == 3) { cmd(*g.e, "load", {Value(scratch() + "/absent.dat")}); c.ev("absent-file"); c.log() << "absent"; }
    else if (op == 4) { resize(); ++g.t; g.step(); g.read(c, false); g.read(c, true); ++nread; ++g.t; continue; }
    else if (op <= 6) {
      auto &s2 = in<Flags>(*g.e, "selec"); if (r.coin(.3)) { bool b = r.coin(.8); s2 = Flags(b); g.sel = [b](int) { return b; }; }
      else { bool inv = r.coin(.4); Flags f(inv); std::vector<bool> k; for (int i = 0, n = r.range(0, wide ? 300 : 10); i < n; ++i) { k.push_back(r.coin()); f.add(k.back()); } s2 = f; g.sel = [k, inv](int i) { return i < (int)k.size() ? (bool)k[i] : inv; }; }
      c.ev("select");
    } else { g.step(); bool a = r.coin(); g.read(c, a); if (r.coin(.7)) g.read(c, !a); if (r.coin(.2)) g.read(c, a); ++nread; c.log() << "read at " << g.t; g.t += r.coin(.9) ? 1 : r.range(1, 7); }
  }
  c.ev("read", nread); c.ev("row", g.delivered); c.ev("hold", g.held); c.state(g.h);
}
FAMILY(narrow, 3000, 100000) { body(c, false); }
FAMILY(wide, 250, 6000) { body(c, true); }
