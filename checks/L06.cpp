// @sources src/tools/trajectory.cpp src/debug/debug.cpp
// @libs -lboost_regex
// @timeout 90
// @rule each case spells a random trajectory as text (own writer), reads it back with the real parser and compares every field; distinct = distinct texts
#include <sot/core/trajectory.hh>
#include "harness_eigen.hh"
namespace sot = dynamicgraph::sot; using namespace vh;
typedef std::vector<double> VD;
struct Model { unsigned seq; unsigned long s, ns; std::string frame; std::vector<std::string> names; std::vector<std::array<VD, 4>> pts; };
static std::string ident(Rng &r, int lo, int hi) { static const char *a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; std::string s; for (int n = r.range(lo, hi); n > 0; --n) s += a[r.range(0, 62)]; return s; }
static std::string num(Rng &r, double &v) {
  char b[400]; double x = r.coin(.1) ? 0 : r.coin(.1) ? r.range(-3, 3) : r.gauss() * std::pow(10., r.range(-6, 6)); snprintf(b, sizeof b, "%.*f", (int)r.range(0, 17), x);
  std::string s = b; if (s.find('.') == std::string::npos) s += r.coin() ? "." : ".0"; v = strtod(s.c_str(), 0); return s;
}
static std::string spell(Rng &r, Model &m, bool big) {
  m.seq = r.coin(.1) ? 4294967295u : r.coin() ? r.range(0, 5) : (unsigned)r.range(0, 2000000000); m.s = r.coin(.2) ? 0 : r.range(0, 2000000000); m.ns = r.coin(.2) ? 0 : r.range(0, 999999999); m.frame = ident(r, r.coin(.1) ? 0 : 1, 12);
  std::string t = "(" + std::to_string(m.seq) + ",(" + std::to_string(m.s) + (r.coin() ? "." : ".0") + "," + std::to_string(m.ns) + (r.coin() ? "." : ".0") + ")," + m.frame + "),(";
  int nj = big ? r.range(10, 60) : r.range(1, 6), np = r.coin(.1) ? 0 : big ? r.range(5, 40) : r.range(1, 5);
  for (int i = 0; i < nj; ++i) { m.names.push_back(ident(r, 1, 12)); t += (i ? "," : "") + m.names.back(); }
  t += "),(";
  for (int i = 0; i < np; ++i) {
    t += i ? ",(" : "("; m.pts.emplace_back();
    for (int k = 0; k < 4; ++k) { t += k ? ",(" : "("; int n = r.coin(.2) ? 0 : r.coin(.9) ? nj : r.range(0, nj + 5); for (int j = 0; j < n; ++j) { double v; t += (j ? "," : "") + num(r, v); m.pts.back()[k].push_back(v); } t += ")"; }
    t += ")";
  }
  return t + ")";
}
static const VD &part(const sot::JointTrajectoryPoint &p, int k) { return k == 0 ? p.positions_ : k == 1 ? p.velocities_ : k == 2 ? p.accelerations_ : p.efforts_; }
static void same(Case &c, const sot::Trajectory &t, const Model &m, const std::string &text, const std::string &how) {
  auto show = [&](std::ostream &o) { o << "from " << text.substr(0, 300) << " got seq " << t.header_.seq_ << " stamp " << t.header_.stamp_.secs_ << "," << t.header_.stamp_.nsecs_ << " frame " << t.header_.frame_id_ << " names " << t.joint_names_.size() << " points " << t.points_.size(); };
  c.check(t.header_.seq_ == m.seq, (how + "-sequence-number").c_str(), show); c.check(t.header_.stamp_.secs_ == m.s && t.header_.stamp_.nsecs_ == m.ns, (how + "-time-stamp").c_str(), show);
  c.check(t.header_.stamp_ == sot::timestamp(m.s, m.ns), (how + "-time-stamp-comparison").c_str(), show);
  c.check(!(t.header_.stamp_ == sot::timestamp(m.s + 1, m.ns)) && !(t.header_.stamp_ == sot::timestamp(m.s, m.ns + 1)), (how + "-time-stamp-comparison").c_str(), show);
  c.check(t.header_.frame_id_ == m.frame, (how + "-frame").c_str(), show); c.check(t.joint_names_ == m.names, (how + "-joint-names").c_str(), show);
  c.check(t.points_.size() == m.pts.size(), (how + "-number-of-points").c_str(), show);
  static const char *nm[4] = {"positions", "velocities", "accelerations", "efforts"};
  for (size_t i = 0; i < std::min(t.points_.size(), m.pts.size()); ++i) for (int k = 0; k < 4; ++k) c.check(part(t.points_[i], k) == m.pts[i][k], (how + "-" + nm[k]).c_str(), [&](std::ostream &o) { o << "point " << i << " of " << text.substr(0, 300); });
}
static void shown(Case &c, const sot::Trajectory &t, const Model &m) {
  std::ostringstream o; o.precision(17); t.display(o); std::istringstream in(o.str()); std::string l; std::vector<std::string> names; size_t np = 999999; std::vector<std::array<VD, 4>> pts; int k = -1; static const char *nm[4] = {"Positions", "Velocities", "Accelerations", "Effort"};
  while (std::getline(in, l)) {
    bool head = false; for (int i = 0; i < 4; ++i) if (l == nm[i]) { head = true; k = i; if (!i) pts.emplace_back(); }
    if (head || l == "---------" || l == "-- Trajectory --") continue;
    if (l.compare(0, 6, "Joint(") == 0) { c.check(l.compare(0, 8 + std::to_string(names.size()).size(), "Joint(" + std::to_string(names.size()) + ")=") == 0, "display-rank", [&](std::ostream &s) { s << l; }); names.push_back(l.substr(l.find('=') + 1)); }
    else if (l.find("Number of points: ") != std::string::npos) np = atoi(l.substr(l.find(':') + 1).c_str());
    else if (k >= 0 && !pts.empty()) pts.back()[k].push_back(strtod(l.c_str(), 0)); else c.fail("display-line", l);
  }
  c.check(names == m.names, "display-joint-names", [&](std::ostream &s) { s << o.str().substr(0, 500); }); c.check(np == m.pts.size(), "display-number-of-points", [&](std::ostream &s) { s << o.str().substr(0, 500); });
  c.check(pts == m.pts, "display-values", [&](std::ostream &s) { s << o.str().substr(0, 800); });
}
static void body(Case &c, bool big) {
  Rng &r = c.rng; Model m; std::string text = spell(r, m, big); sot::Trajectory t; std::istringstream is(text); t.deserialize(is); same(c, t, m, text, "read");
  sot::Trajectory u(t); same(c, u, m, text, "copy"); sot::Trajectory v; v = t; same(c, v, m, text, "assign"); shown(c, t, m); shown(c, u, m);
  { Model m2; std::string t2 = spell(r, m2, false); sot::Trajectory w; if (r.coin()) w = t; std::istringstream is2(t2); w.deserialize(is2); same(c, w, m2, t2, "second"); same(c, t, m, text, "kept"); }
  c.ev("trajectory"); c.ev("point", m.pts.size()); for (auto &p : m.pts) for (auto &k : p) c.ev("value", k.size()); c.state(hashBytes(text.data(), text.size())); c.sample(text.substr(0, 200));
}
FAMILY(small, 2000, 60000) { body(c, false); }
FAMILY(large, 60, 1500) { body(c, true); }
// part-by-part construction
FAMILY(transfer, 500, 20000) {
  Rng &r = c.rng; sot::JointTrajectoryPoint p; std::array<VD, 4> w; for (int s = 0, n = r.range(1, 12); s < n; ++s) { int k = r.range(0, 3); VD v(r.range(0, 6)); for (auto &x : v) x = r.val(); p.transfer(v, k); w[k] = v; for (int j = 0; j < 4; ++j) c.check(part(p, j) == w[j], "transfer", [&](std::ostream &o) { o << "part " << j << " after writing part " << k; }); c.ev("transfer"); }
  { alignas(sot::Trajectory) unsigned char mem[sizeof(sot::Trajectory)]; memset(mem, r.range(0, 255), sizeof mem); sot::Trajectory *f = new (mem) sot::Trajectory(); c.check(f->time_from_start_ == 0 && f->points_.empty() && f->joint_names_.empty() && f->header_.seq_ == 0, "fresh-trajectory", [&](std::ostream &o) { o << "time from start " << f->time_from_start_; }); f->~Trajectory(); }
  sot::Header h; c.check(h.seq_ == 0 && h.stamp_ == sot::timestamp(0, 0), "fresh-header", [](std::ostream &) {}); c.state(hashBytes(w[0].data(), w[0].size() * 8));
}
// text that is not a trajectory: the reading ends, within memory
FAMILY(malformed, 1500, 40000) {
  Rng &r = c.rng; Model m; std::string t = spell(r, m, false); static const char *a = "(),.-0a _";
  int k = r.range(0, 4);
  if (k == 0) t.resize(r.range(0, t.size())); else if (k == 1) for (int n = r.range(1, 4); n; --n) t[r.range(0, t.size() - 1)] = a[r.range(0, 8)]; else if (k == 2) for (int n = r.range(1, 4); n; --n) t.erase(r.range(0, t.size() - 1), 1); else if (k == 3) { t = ""; for (int n = r.range(0, 30); n; --n) t += a[r.range(0, 8)]; } else t = t.substr(r.range(0, t.size()));
  sot::Trajectory w; std::istringstream is(t); w.deserialize(is); sot::Trajectory x(w); std::ostringstream o; x.display(o); c.ev("malformed"); c.state(hashBytes(t.data(), t.size()));
}
