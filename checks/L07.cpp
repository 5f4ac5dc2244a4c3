// @sources src/tools/joint-trajectory-entity.cpp src/tools/trajectory.cpp src/debug/debug.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp
// @libs -lboost_regex
// @rule each case feeds random trajectories (initial text and input signal) and steps, reading the outputs in random order, and compares every output with the flat queue of points; distinct = distinct output histories
#include <sot/core/joint-trajectory-entity.hh>
#include <deque>
#include "E_common.hh"
typedef sot::Trajectory T; typedef std::vector<double> VD;
struct Item { bool empty; unsigned seq; VD p; };
struct Queue {  // points to play, in order
  std::deque<Item> todo; bool any = false; unsigned long ls = 0, lns = 0; bool have = false; VD cur; unsigned seq = 0; uint64_t queued = 0, played = 0, held = 0;
  void step(const T &t) {
    bool zero = t.header_.stamp_ == sot::timestamp(0, 0), last = any && ls == t.header_.stamp_.secs_ && lns == t.header_.stamp_.nsecs_;
    if (!any || (!zero && !last)) { any = true; ls = t.header_.stamp_.secs_; lns = t.header_.stamp_.nsecs_; ++queued; if (t.points_.empty()) todo.push_back({true, 0, {}}); for (auto &p : t.points_) todo.push_back({false, t.header_.seq_, p.positions_}); }
    if (todo.empty()) { ++held; return; }
    Item i = todo.front(); todo.pop_front(); ++played; if (i.empty) return; seq = i.seq; if (i.p.size() >= 5) { cur = i.p; have = true; }
  }
};
static std::string spell(const T &t) {
  std::ostringstream o; o.precision(17); o << std::fixed << "(" << t.header_.seq_ << ",(" << t.header_.stamp_.secs_ << ".0," << t.header_.stamp_.nsecs_ << ".0)," << t.header_.frame_id_ << "),("; for (size_t i = 0; i < t.joint_names_.size(); ++i) o << (i ? "," : "") << t.joint_names_[i]; o << "),(";
  for (size_t i = 0; i < t.points_.size(); ++i) { o << (i ? ",((" : "(("); for (size_t j = 0; j < t.points_[i].positions_.size(); ++j) o << (j ? "," : "") << t.points_[i].positions_[j]; o << "),(),(),())"; }
  o << ")"; return o.str();
}
static T gen(Rng &r, int n, bool odd) {
  T t; t.header_.seq_ = r.range(0, 1000000); t.header_.frame_id_ = "f" + std::to_string(r.range(0, 9)); t.header_.stamp_ = r.coin(.1) ? sot::timestamp(0, 0) : sot::timestamp(r.range(0, 3), r.range(0, 3)); t.joint_names_ = {"a", "b"};
  int np = odd && r.coin(.15) ? 0 : r.range(1, 7); for (int i = 0; i < np; ++i) { sot::JointTrajectoryPoint p; int k = odd && r.coin(.1) ? r.range(0, 4) : r.coin(.9) ? n : r.range(5, 12); for (int j = 0; j < k; ++j) p.positions_.push_back(r.range(-2000000, 2000000) / 1024.); t.points_.push_back(p); }
  return t;
}
struct Rig {
  EP e; sot::SotJointTrajectoryEntity &j; dg::Signal<T, int> src; Queue q; int t = 1; uint64_t h = 0;
  Rig() : e(make("SotJointTrajectoryEntity")), j(dynamic_cast<sot::SotJointTrajectoryEntity &>(*e)), src("src") { j.trajectorySIN.plug(&src); }
  template <class U> const U &get(const std::string &n) { return out<U>(*e, n)(t); }
  void read(Case &c, int k) {
    if (!q.have && k < 4) { if (k == 0) get<dg::Vector>("position"); else if (k == 1) get<dg::Vector>("com"); else if (k == 2) get<dg::Vector>("zmp"); else get<MH>("waist"); return; }
    auto show = [&](std::ostream &o) { o << "at " << t << ", output " << k << "; played " << q.played << " held " << q.held; }; int n = q.cur.size();
    if (k == 0) { const dg::Vector &v = get<dg::Vector>("position"); bool ok = v.size() == n - 5; for (int i = 0; ok && i < n - 5; ++i) ok = v(i) == q.cur[i]; c.check(ok, "position", show); h = hashBytes(v.data(), v.size() * 8, h); }
    else if (k == 1) { const dg::Vector &v = get<dg::Vector>("com"); bool ok = v.size() == 3; for (int i = 0; ok && i < 3; ++i) ok = v(i) == q.cur[n - 5 + i]; c.check(ok, "com", show); h = hashBytes(v.data(), v.size() * 8, h); }
    else if (k == 2) { const dg::Vector &v = get<dg::Vector>("zmp"); c.check(v.size() == 3 && v(0) == q.cur[n - 2] && v(1) == q.cur[n - 1] && v(2) == -.055, "zmp", show); }
    else if (k == 3) { const MH &m = get<MH>("waist"); double x = q.cur[n - 5], y = q.cur[n - 4], a = q.cur[n - 3]; M4 w = M4::Identity(); w(0, 0) = w(1, 1) = std::cos(a); w(0, 1) = -std::sin(a); w(1, 0) = -w(0, 1); w(0, 3) = x; w(1, 3) = y; w(2, 3) = .65; c.check((m.matrix() - w).cwiseAbs().maxCoeff() <= 1e-12 * (1 + std::abs(x) + std::abs(y) + std::abs(a)), "waist", [&](std::ostream &o) { show(o); o << "\n" << m.matrix() << "\nwanted\n" << w; }); }
    else { unsigned v = get<unsigned>("seqid"); c.check(v == q.seq, "seqid", [&](std::ostream &o) { show(o); o << " got " << v << " wanted " << q.seq; }); }
  }
};
static void play(Case &c, bool odd, bool text) {
  Rng &r = c.rng; Rig g; int n = r.range(5, 14), S = r.range(5, 60); T cur = gen(r, n, odd); if (!text && r.coin(.3)) { T z; cur = z; } g.src.setConstant(cur);
  if (text) { T t = gen(r, n, odd); cmd(*g.e, "initTraj", {Value(spell(t))}); g.q.step(t); c.ev("initial"); }
  for (int s = 0; s < S; ++s, g.t += r.coin(.9) ? 1 : r.range(1, 9)) {
    if (r.coin(.25)) { cur = gen(r, n, odd); g.src.setConstant(cur); c.ev("new-input"); }
    if (text && odd && r.coin(.04)) { T t = gen(r, n, odd); cmd(*g.e, "initTraj", {Value(spell(t))}); g.q.step(t); c.ev("initial"); }
    g.q.step(cur); std::vector<int> o = {0, 1, 2, 3, 4}; r.shuffle(o); o.resize(r.coin(.2) ? r.range(1, 5) : 5); for (int k : o) g.read(c, k); if (r.coin(.2)) g.read(c, o[0]); c.ev("step");
  }
  c.ev("trajectory-played", g.q.queued); c.ev("point-played", g.q.played); c.ev("held", g.q.held); c.state(g.h);
}
FAMILY(initial, 2500, 80000) { play(c, false, true); }
FAMILY(input_only, 1500, 50000) { play(c, false, false); }
FAMILY(degenerate, 1500, 50000) { play(c, true, c.rng.coin()); }
FAMILY(unplugged, 300, 5000) {
  Rng &r = c.rng; Rig g; T a = gen(r, 6, false); if (r.coin()) { cmd(*g.e, "initTraj", {Value(spell(a))}); g.q.step(a); } g.j.trajectorySIN.unplug();
  for (int i = 0, n = r.range(1, 3); i < n; ++i, ++g.t) c.throws<std::exception>([&] { g.read(c, 4); }, "step-without-input");
  T b = gen(r, 6, false); g.src.setConstant(b); g.j.trajectorySIN.plug(&g.src); for (int i = 0; i < 6; ++i, ++g.t) { g.q.step(b); for (int k = 0; k < 5; ++k) g.read(c, k); } c.ev("replugged"); c.state(g.h);
}
