// @sources src/debug/debug.cpp src/tools/robot-utils.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-factory.cpp
// @rule each case applies a history of settings to a robot description and queries names, identifiers, limits, sensors and both joint orders after each, against a table of what was recorded; distinct = distinct query results
#include <pinocchio/fwd.hpp>
#include <sot/core/robot-utils.hh>
#include "E_common.hh"
using sot::Index; using sot::RobotUtil;
static Index rid(Rng &r) { return r.coin(.8) ? r.range(0, 12) : r.pick(std::vector<Index>{-1, -5, 1000000, 99}); }
static std::string rname(Rng &r) { static const char *n[] = {"rf", "lf", "lh", "rh", "a", "b", "arm_left_1_joint", "x y", "", "Z", "leg/1", "c", "d", "e"}; if (r.coin(.08)) return std::string(n[r.range(0, 4)]) + (r.coin() ? "oot" : std::string(r.range(1, 80), 'n')); return n[r.range(0, 13)]; }
// names to identifiers, as given
struct Names { std::map<std::string, Index> id; bool unknown(Index i) { for (auto &p : id) if (p.second == i) return false; return true; } };
FAMILY(names, 3000, 100000) {
  Rng &r = c.rng; RobotUtil u; sot::ForceUtil &f = u.m_force_util; Names j, s; std::map<Index, std::pair<double, double>> lim; std::map<Index, std::pair<Vec, Vec>> flim; uint64_t h = 3; Index side[4] = {-1, -1, -1, -1}; static const char *sn[4] = {"lh", "rh", "lf", "rf"};
  u.setLoggerVerbosityLevel(dg::VERBOSITY_NONE);
  for (int k = 0, K = r.range(1, 25); k < K; ++k) {
    switch (r.range(0, 4)) {
      case 0: case 1: { std::string n = rname(r); Index i = rid(r); if (j.id.count(n) && j.id[n] != i) c.ev("renumbered"); if (!j.unknown(i) && !(j.id.count(n) && j.id[n] == i)) { if (r.coin(.7)) break; c.ev("shared-identifier"); } u.set_name_to_id(n, i); j.id[n] = i; c.ev("joint-named"); break; }
      case 2: { std::string n = rname(r); Index i = rid(r); if (!s.unknown(i) && !(s.id.count(n) && s.id[n] == i) && r.coin(.7)) break; f.set_name_to_force_id(n, i); s.id[n] = i; for (int q = 0; q < 4; ++q) if (n == sn[q]) side[q] = i; c.ev("sensor-named"); break; }
      case 3: { Index i = rid(r); double l = r.val(), v = r.val(); u.set_joint_limits_for_id(i, l, v); lim[i] = {l, v}; c.ev("joint-limits"); break; }
      default: if (r.coin(.7)) { Index i = rid(r); Vec l = rvec(r, r.coin(.9) ? 6 : r.range(0, 7)), v = rvec(r, l.size()); f.set_force_id_to_limits(i, l, v); flim[i] = {l, v}; c.ev("sensor-limits"); } else { int q = r.range(0, 3); Index i = rid(r); side[q] = i; switch (q) { case 0: f.set_force_id_left_hand(i); break; case 1: f.set_force_id_right_hand(i); break; case 2: f.set_force_id_left_foot(i); break; default: f.set_force_id_right_foot(i); } c.ev("side-set"); }
    }
    for (int q = 0; q < 4; ++q) {
      std::string n = r.coin(.5) && !j.id.empty() ? std::next(j.id.begin(), r.range(0, j.id.size() - 1))->first : rname(r); Index i = r.coin(.6) && !j.id.empty() ? std::next(j.id.begin(), r.range(0, j.id.size() - 1))->second : rid(r);
      Index g = u.get_id_from_name(n); Index w = j.id.count(n) ? j.id[n] : -1; c.check(g == w, j.id.count(n) ? "joint-identifier" : "unknown-joint-name", [&](std::ostream &o) { o << "'" << n << "' got " << g << " expected " << w; });
      std::string gn = u.get_name_from_id(i); if (j.unknown(i)) { c.check(gn == "Joint name not found", "unknown-joint-identifier", [&](std::ostream &o) { o << i << " gave '" << gn << "'"; }); c.ev("unknown-identifier"); } else c.check(j.id.count(gn) && j.id[gn] == i, "joint-name", [&](std::ostream &o) { o << i << " gave '" << gn << "'"; });
      auto gl = r.coin() ? sot::JointLimits(u.get_joint_limits_from_id(i)) : u.cp_get_joint_limits_from_id(i); auto wl = lim.count(i) ? lim[i] : std::make_pair(0., 0.); c.check(gl.lower == wl.first && gl.upper == wl.second, "joint-limits", [&](std::ostream &o) { o << "joint " << i << " got " << gl.lower << " " << gl.upper; });
      std::string m = r.coin(.5) && !s.id.empty() ? std::next(s.id.begin(), r.range(0, s.id.size() - 1))->first : rname(r); Index a = r.coin(.6) && !s.id.empty() ? std::next(s.id.begin(), r.range(0, s.id.size() - 1))->second : rid(r);
      c.check(f.get_id_from_name(m) == (s.id.count(m) ? s.id[m] : -1), "sensor-identifier"); std::string gm = r.coin() ? f.get_name_from_id(a) : f.cp_get_name_from_id(a); if (s.unknown(a)) c.check(gm == "Force name not found", "unknown-sensor-identifier", [&](std::ostream &o) { o << a << " gave '" << gm << "'"; }); else c.check(s.id.count(gm) && s.id[gm] == a, "sensor-name", [&](std::ostream &o) { o << a << " gave '" << gm << "'"; });
      sot::ForceLimits fl = r.coin() ? sot::ForceLimits(f.get_limits_from_id(a)) : f.cp_get_limits_from_id(a); Vec zl = Vec::Zero(6), zu = zl; if (flim.count(a)) zl = flim[a].first, zu = flim[a].second; c.check(fl.lower.size() == zl.size() && fl.lower == zl && fl.upper.size() == zu.size() && fl.upper == zu, "sensor-limits", [&](std::ostream &o) { o << "sensor " << a; });
      h = h * 31 + g + hashStr(gn) + hashStr(gm);
    }
    Index gs[4] = {f.get_force_id_left_hand(), f.get_force_id_right_hand(), f.get_force_id_left_foot(), f.get_force_id_right_foot()}; for (int q = 0; q < 4; ++q) c.check(gs[q] == side[q], "side-of-sensor", [&](std::ostream &o) { o << sn[q] << " got " << gs[q] << " expected " << side[q]; });
  }
  std::ostringstream os; u.display(os); for (auto &p : j.id) c.check(os.str().find("(" + p.first + "," + std::to_string(p.second) + ")") != std::string::npos, "display-names"); c.state(h);
}
static Vec quat(Rng &r, Eigen::Matrix3d *Ro = nullptr) {  // x y z w
  Vec q(4); if (r.coin(.25)) { double p = (r.coin() ? 1 : -1) * (M_PI / 2 + r.pick(std::vector<double>{0, 1e-9, 1e-5, -9e-4, .0011, -.002})); Eigen::Quaterniond e(Eigen::AngleAxisd(r.uni(-3, 3), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r.uni(-3, 3), Eigen::Vector3d::UnitX())); q = e.coeffs(); } else if (r.coin(.1)) { q.setZero(); q(r.range(0, 3)) = r.coin() ? 1 : -1; } else { for (int i = 0; i < 4; ++i) q(i) = r.gauss(); q.normalize(); }
  q.normalize(); if (Ro) *Ro = Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix(); return q;
}
static L3 rotq(const Vec &q) { R x = q(0), y = q(1), z = q(2), w = q(3); L3 m; m << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y); return m; }
static L3 rpy(R a, R b, R g) { return rexp(LV(0, 0, g)) * rexp(LV(0, b, 0)) * rexp(LV(a, 0, 0)); }
FAMILY(joint_orders, 3000, 100000) {
  Rng &r = c.rng; RobotUtil u; u.setLoggerVerbosityLevel(dg::VERBOSITY_NONE); uint64_t h = 1;
  if (r.coin(.3)) { int n = r.range(1, 5); Vec a = rvec(r, n), b = Vec::Constant(n, 7), v = rvec(r, n + 6), w = Vec::Constant(n + 6, 7), q = rvec(r, n + 7); Vec b0 = b, w0 = w; c.check(!u.joints_urdf_to_sot(a, b) && !u.joints_sot_to_urdf(a, b) && !u.velocity_urdf_to_sot(q, v, w) && !u.velocity_sot_to_urdf(q, v, w), "use-before-setting-is-reported"); c.check(b == b0 && w == w0, "use-before-setting-changes-nothing"); c.ev("before-setting"); }
  for (int rep = 0, N = r.range(1, 3); rep < N; ++rep) {
    int n = r.coin(.1) ? r.range(15, 60) : r.range(1, 14); std::vector<Index> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); if (r.coin()) { u.set_urdf_to_sot(p); c.ev("map-of-indices"); } else { Vec v(n); for (int i = 0; i < n; ++i) v(i) = p[i]; u.set_urdf_to_sot(v); c.ev("map-of-numbers"); }
    c.eq((long)u.m_nbJoints, (long)n, "number-of-joints"); c.check(u.m_urdf_to_sot == p, "map-recorded"); for (int i = 0; i < n; ++i) c.check(u.m_dgv_urdf_to_sot.size() == n && u.m_dgv_urdf_to_sot(i) == p[i], "map-recorded-as-vector");
    Vec a(n), b(n), d(n); for (int i = 0; i < n; ++i) a(i) = r.val() + i * 1e3; b.setConstant(-1); d.setConstant(-1); c.check(u.joints_urdf_to_sot(a, b), "accepted"); for (int i = 0; i < n; ++i) c.check(b(p[i]) == a(i), "joint-order", [&](std::ostream &o) { o << "joint " << i << " of " << n; }); c.check(u.joints_sot_to_urdf(b, d) && d == a, "joint-order-round-trip"); d.setConstant(-1); c.check(u.joints_sot_to_urdf(a, d), "accepted"); for (int i = 0; i < n; ++i) c.check(d(i) == a(p[i]), "inverse-joint-order"); h = h * 31 + hashM(b);
    Vec q = quat(r), qu(n + 7), v(n + 6), vs = Vec::Constant(n + 6, -1), vb = vs; for (int i = 0; i < 3; ++i) qu(i) = r.val(); qu.segment(3, 4) = q; qu.tail(n) = a; v = rvec(r, n + 6); L3 Rm = rotq(q);
    c.check(u.velocity_urdf_to_sot(qu, v, vs), "accepted"); for (int k = 0; k < 2; ++k) { LV x = v.segment<3>(3 * k).cast<R>(), w = Rm * x; for (int i = 0; i < 3; ++i) c.check(std::fabs(vs(3 * k + i) - w(i)) <= 1e-14L * (x.norm() + 1e-3L), "base-velocity-in-world"); } for (int i = 0; i < n; ++i) c.check(vs(6 + p[i]) == v(6 + i), "joint-velocity-order");
    c.check(u.velocity_sot_to_urdf(qu, vs, vb), "accepted"); for (int i = 0; i < 6; ++i) c.check(std::fabs(vb(i) - v(i)) <= 1e-13 * (v.head(6).norm() + 1e-3), "base-velocity-round-trip"); for (int i = 0; i < n; ++i) c.check(vb(6 + i) == v(6 + i), "joint-velocity-round-trip");
    Vec cs = Vec::Constant(n + 6, -1), cu = Vec::Constant(n + 7, -1); c.check(u.config_urdf_to_sot(qu, cs), "accepted"); for (int i = 0; i < 3; ++i) c.check(cs(i) == qu(i), "base-position"); L3 Rr = rpy(cs(3), cs(4), cs(5)); bool sing = std::fabs(std::fabs((R)cs(4)) - 1.57079632679489662L) < .0011L; closeM(c, Mat(Rr.cast<double>()), Mat(Rm.cast<double>()), sing ? 4.5e-3 : 1e-9, sing ? "base-angles-near-singularity" : "base-angles"); c.ev(sing ? "near-singular" : "regular"); c.check(cs(4) >= -M_PI / 2 - 1e-9 && cs(4) <= M_PI / 2 + 1e-9, "pitch-range"); for (int i = 0; i < n; ++i) c.check(cs(6 + p[i]) == a(i), "configuration-joint-order");
    c.check(u.config_sot_to_urdf(cs, cu), "accepted"); for (int i = 0; i < 3; ++i) c.check(cu(i) == qu(i), "base-position-round-trip"); for (int i = 0; i < n; ++i) c.check(cu(7 + i) == a(i), "configuration-round-trip"); closeM(c, Mat(rotq(cu.segment(3, 4)).cast<double>()), Mat(Rr.cast<double>()), 1e-14 * 4, "base-quaternion"); c.near(cu.segment(3, 4).norm(), 1, 1e-14, "unit-quaternion");
    Vec s6(6), u7(7), s6b(6); for (int i = 0; i < 3; ++i) s6(i) = r.val(); s6(3) = r.uni(-3, 3); s6(4) = r.uni(-1.5, 1.5); s6(5) = r.uni(-3, 3); u.base_sot_to_urdf(s6, u7); u.base_urdf_to_sot(u7, s6b); closeM(c, Mat(s6b), Mat(s6), 1e-12, "base-angle-round-trip"); Mat R33 = rotq(u7.segment(3, 4)).cast<double>(); Vec s6c(6); sot::base_se3_to_sot(u7.head(3), R33, s6c); closeM(c, Mat(s6c), Mat(s6), 1e-12, "base-from-matrix"); h = h * 31 + hashM(cs); c.ev("order");
  }
  c.state(h);
}
// robot models with mimic joints
FAMILY(mimics, 1200, 40000) {
  Rng &r = c.rng; std::vector<std::string> want; std::ostringstream x; auto ws = [&] { static const char *w[] = {"", "\n", "  ", "\n\t"}; return w[r.range(0, 3)]; }; auto note = [&] { if (r.coin(.15)) x << "<!-- " << (r.coin() ? "<mimic joint=\"n\"/>" : "joint") << " -->"; };
  if (r.coin()) x << "<?xml version=\"1.0\"?>"; x << "<robot name=\"r\">" << ws(); int n = r.range(0, 10);
  for (int i = 0; i < n; ++i) {
    int k = r.range(0, 6); std::string nm = std::string(r.coin() ? "j_" : r.coin(.1) ? std::string(r.range(20, 120), 'a') : "arm_") + std::to_string(i); note();
    if (k == 0) { x << "<link name=\"" << nm << "\"><inertial><mass value=\"1\"/></inertial></link>" << ws(); c.ev("link"); continue; }
    if (k == 1) { x << "<transmission name=\"t" << i << "\"><type>T</type><joint name=\"" << nm << "\">" << (r.coin() ? "<hardwareInterface>E</hardwareInterface>" : "<x/>") << "</joint></transmission>" << ws(); c.ev("transmission"); continue; }
    bool mim = r.coin(.4), shortest = !mim && r.coin(.2); x << "<joint " << (r.coin() ? "name=\"" + nm + "\" type=\"revolute\"" : "type=\"revolute\" name=\"" + nm + "\"") << (shortest ? "/>" : ">") << ws(); if (shortest) { c.ev("bare-joint"); continue; }
    std::vector<std::string> ch{"<parent link=\"a\"/>", "<child link=\"b\"/>", "<origin xyz=\"0 0 0\" rpy=\"0 0 0\"/>", "<limit effort=\"1\" lower=\"0\" upper=\"1\" velocity=\"1\"/>"}; if (r.coin(.3)) ch.pop_back(); if (r.coin(.2)) ch.push_back("<dynamics damping=\"1\"/>"); if (mim) { std::string o = "j_" + std::to_string(r.range(0, 9)); ch.push_back(r.coin() ? "<mimic joint=\"" + o + "\" multiplier=\"-1\" offset=\"0\"/>" : r.coin() ? "<mimic multiplier=\"2\" joint=\"" + o + "\"/>" : "<mimic joint=\"" + o + "\"></mimic>"); want.push_back(nm); } r.shuffle(ch); for (auto &s : ch) { note(); x << s << ws(); } x << "</joint>" << ws(); c.ev(mim ? "mimic-joint" : "joint");
  }
  x << "</robot>"; std::string s = x.str(); sot::ExtractJointMimics e(s); auto g = e.get_mimic_joints(); std::string gs, w; for (auto &a : g) gs += a + ","; for (auto &a : want) w += a + ","; c.check(g == want, "mimic-joints", [&](std::ostream &o) { o << "got " << gs << " expected " << w << " in " << s; }); c.state(hashStr(w) + n);
}
