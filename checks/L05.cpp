// @sources src/debug/debug.cpp src/tools/parameter-server.cpp src/tools/robot-utils.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-tools.cpp src/exception/exception-factory.cpp
// @rule each case sends a history of commands to one or several parameter servers, before and after initialisation, and compares the shared robot descriptions and what the servers report with a table of what was set; distinct = distinct final tables
#include <sys/wait.h>
#include <unistd.h>
#include <pinocchio/fwd.hpp>
#include <sot/core/parameter-server.hh>
#include <sot/core/exception-tools.hh>
#include "E_common.hh"
using sot::Index;
static std::shared_ptr<sot::RobotUtil> robot(std::string n) { return sot::getRobotUtil(n); }
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Open : sot::ParameterServer { Open(const std::string &n) : sot::ParameterServer(n) {} using sot::ParameterServer::convertJointNameToJointId; using sot::ParameterServer::isJointInRange; };
// what a robot description should hold
struct P { int type; bool b; int i; double d; std::string s; };
struct Rob { std::map<std::string, Index> joint, force; std::map<Index, std::pair<double, double>> jl; std::map<Index, std::pair<Vec, Vec>> fl; std::string file, left, right, hl, hr, imu; Vec map, sole, sensor; std::map<std::string, P> par; };
static std::string word(Rng &r) { static const char *w[] = {"a", "robot", "left leg", "Z_9", "0", "true", "1.5x", "\n", "<x>&\"", "-3", "é"}; return r.coin(.1) ? "" : w[r.range(0, 10)]; }
static std::string path(Rng &r) { static const char *w[] = {"gain", "a", "b", "robot name", "9"}; std::string p = w[r.range(0, 4)]; for (int k = r.pick(std::vector<int>{0, 0, 1, 2}); k; --k) p += std::string("/") + w[r.range(0, 4)]; return p; }
static void compare(Case &c, const std::string &n, const Rob &w) {
  auto u = robot(n); c.check((bool)u, "robot-exists"); Rob &m = const_cast<Rob &>(w);
  c.eq(u->m_urdf_filename, w.file, "model-file"); c.eq(u->m_imu_joint_name, w.imu, "imu-joint"); c.eq(u->m_foot_util.m_Left_Foot_Frame_Name, w.left, "left-foot"); c.eq(u->m_foot_util.m_Right_Foot_Frame_Name, w.right, "right-foot"); c.eq(u->m_hand_util.m_Left_Hand_Frame_Name, w.hl, "left-hand"); c.eq(u->m_hand_util.m_Right_Hand_Frame_Name, w.hr, "right-hand");
  c.check(u->m_foot_util.m_Right_Foot_Sole_XYZ.size() == w.sole.size() && u->m_foot_util.m_Right_Foot_Sole_XYZ == w.sole, "foot-sole"); c.check(u->m_foot_util.m_Right_Foot_Force_Sensor_XYZ.size() == w.sensor.size() && u->m_foot_util.m_Right_Foot_Force_Sensor_XYZ == w.sensor, "foot-sensor");
  c.check(u->m_dgv_urdf_to_sot.size() == w.map.size() && u->m_dgv_urdf_to_sot == w.map, "joint-map"); c.eq(u->m_urdf_to_sot.size(), (size_t)w.map.size(), "joint-map-size"); for (int i = 0; i < w.map.size(); ++i) c.check(u->m_urdf_to_sot[i] == (Index)w.map(i), "joint-map-index");
  for (auto &p : w.joint) c.check(u->get_id_from_name(p.first) == p.second, "joint-identifier"); c.eq(u->m_name_to_id.size(), w.joint.size(), "no-other-joint"); for (auto &p : w.force) c.check(u->m_force_util.get_id_from_name(p.first) == p.second, "sensor-identifier"); c.eq(u->m_force_util.m_name_to_force_id.size(), w.force.size(), "no-other-sensor");
  for (auto &p : w.jl) { auto l = u->get_joint_limits_from_id(p.first); c.check(l.lower == p.second.first && l.upper == p.second.second, "joint-limits"); } c.eq(u->m_limits_map.size(), w.jl.size(), "no-other-limits");
  for (auto &p : w.fl) { auto &l = u->m_force_util.get_limits_from_id(p.first); c.check(l.lower.size() == p.second.first.size() && l.lower == p.second.first && l.upper.size() == p.second.second.size() && l.upper == p.second.second, "sensor-limits"); } (void)m;
}
// the effect of a setter, common to all families
static const int NSET = 16;
static void setter(Case &c, Rng &r, dg::Entity &e, Rob *w) {  // w null: not initialised, must change nothing
  Rob dummy; Rob &q = w ? *w : dummy; int k = r.range(0, NSET - 1);
  switch (k) {
    case 0: { std::string n = word(r); Index i = r.coin(.1) ? r.pick(std::vector<Index>{40000, 70000, 1000003}) : r.range(-1, 30); q.joint[n] = i; cmd(e, "setNameToId", {Value(n), Value((double)i)}); break; }
    case 1: { std::string n = r.coin() ? "rf" : word(r); Index i = r.range(-1, 5); q.force[n] = i; cmd(e, "setForceNameToForceId", {Value(n), Value((double)i)}); break; }
    case 2: { Index i = r.coin(.1) ? r.pick(std::vector<Index>{40000, 70000, 1000003}) : r.range(0, 30); double l = r.val(), u = r.val(); q.jl[i] = {l, u}; cmd(e, "setJointLimitsFromId", {Value((double)i), Value(l), Value(u)}); break; }
    case 3: { Index i = r.range(0, 5); Vec l = rvec(r, 6), u = rvec(r, 6); q.fl[i] = {l, u}; cmd(e, "setForceLimitsFromId", {Value((double)i), Value(l), Value(u)}); break; }
    case 4: { int n = r.range(1, 10); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); Vec v(n); for (int i = 0; i < n; ++i) v(i) = p[i]; q.map = v; cmd(e, "setJointsUrdfToSot", {Value(v)}); break; }
    case 5: { Vec v = rvec(r, 3); q.sole = v; cmd(e, "setRightFootSoleXYZ", {Value(v)}); break; }
    case 6: { Vec v = rvec(r, 3); q.sensor = v; cmd(e, "setRightFootForceSensorXYZ", {Value(v)}); break; }
    case 7: { std::string s = r.coin(.4) ? "Left" : r.coin(.7) ? "Right" : r.pick(std::vector<std::string>{"left", "RIGHT", "", "Left "}), f = word(r); if (s == "Left") q.left = f; else if (s == "Right") q.right = f; else c.ev("unknown-side"); cmd(e, "setFootFrameName", {Value(s), Value(f)}); break; }
    case 8: { std::string s = r.coin(.4) ? "Left" : r.coin(.7) ? "Right" : r.pick(std::vector<std::string>{"left", "RIGHT", "", "Left "}), f = word(r); if (s == "Left") q.hl = f; else if (s == "Right") q.hr = f; else c.ev("unknown-side"); cmd(e, "setHandFrameName", {Value(s), Value(f)}); break; }
    case 9: { std::string s = word(r); q.imu = s; cmd(e, "setImuJointName", {Value(s)}); break; }
    case 10: case 11: { std::string n = path(r), s = word(r); q.par[n] = P{3, false, 0, 0, s}; cmd(e, "setParameter", {Value(n), Value(s)}); break; }
    case 12: { std::string n = path(r); bool b = r.coin(); q.par[n] = P{0, b, 0, 0, ""}; cmd(e, "setParameterBool", {Value(n), Value(b)}); break; }
    case 13: { std::string n = path(r); int i = r.pick(std::vector<int>{0, 1, -1, INT_MAX, INT_MIN, r.range(-1000, 1000)}); q.par[n] = P{1, false, i, 0, ""}; cmd(e, "setParameterInt", {Value(n), Value(i)}); break; }
    default: { std::string n = path(r); double d = r.coin(.2) ? r.pick(std::vector<double>{1e300, 1e-300, .1, -0., 1. / 3}) : r.val(); q.par[n] = P{2, false, 0, d, ""}; cmd(e, "setParameterDbl", {Value(n), Value(d)}); }
  }
  c.ev(w ? "set" : "set-before-initialisation");
}
// what controllers ask the server: the identifier of a joint, and whether an angle respects its limits (the limits do)
static void joints(Case &c, Rng &r, Open &e, const Rob &w) {
  std::string n = r.coin(.7) && !w.joint.empty() ? std::next(w.joint.begin(), r.range(0, w.joint.size() - 1))->first : word(r); auto it = w.joint.find(n); bool has = it != w.joint.end() && it->second >= 0; unsigned id = 12345, was = id;
  bool got = e.convertJointNameToJointId(n, id); c.check(got == has && id == (has ? (unsigned)it->second : was), "joint-of-a-name", [&](std::ostream &o) { o << "'" << n << "' gives " << got << " " << id; }); c.ev(has ? "joint-known" : "joint-unknown");
  if (w.jl.empty()) return; auto l = std::next(w.jl.begin(), r.range(0, w.jl.size() - 1)); double a = l->second.first, b = l->second.second, q = r.pick(std::vector<double>{a, b, (a + b) / 2, std::nextafter(a, -HUGE_VAL), std::nextafter(b, HUGE_VAL), std::nextafter(a, HUGE_VAL), r.gauss(), 2 * a - b}); bool in = q >= a && q <= b;
  c.check(e.isJointInRange((unsigned)l->first, q) == in, "angle-within-limits", [&](std::ostream &o) { o.precision(17); o << q << " in [" << a << ", " << b << "]"; }); c.ev(in ? "angle-within" : "angle-outside");
}
static void getter(Case &c, Rng &r, dg::Entity &e, const Rob &w) {
  std::string n = r.coin(.75) && !w.par.empty() ? std::next(w.par.begin(), r.range(0, w.par.size() - 1))->first : path(r); auto it = w.par.find(n); std::exception *x = nullptr; (void)x;
  if (it == w.par.end()) {  // never set: an error, unless it is the inner part of a longer path
    for (auto &p : w.par) if (p.first.compare(0, n.size() + 1, n + "/") == 0) return;
    int k = r.range(0, 3); static const char *g[] = {"getParameter", "getParameterInt", "getParameterDbl", "getParameterBool"}; c.throws<std::exception>([&] { cmd(e, g[k], {Value(n)}); }, "unknown-parameter"); c.ev("unknown-parameter"); return;
  }
  const P &p = it->second; c.ev("parameter-read"); auto who = [&](std::ostream &o) { o << "parameter '" << n << "' of type " << p.type; };
  switch (p.type) {
    case 0: { bool b = cmd(e, "getParameterBool", {Value(n)}).value(); c.check(b == p.b, "boolean-parameter", who); break; }
    case 1: { int i = cmd(e, "getParameterInt", {Value(n)}).value(); c.check(i == p.i, "integer-parameter", who); double d = cmd(e, "getParameterDbl", {Value(n)}).value(); c.check(d == p.i, "integer-parameter-as-number", who); break; }
    case 2: { double d = cmd(e, "getParameterDbl", {Value(n)}).value(); c.check(d == p.d, "number-parameter", [&](std::ostream &o) { who(o); o << " got " << d << " expected " << p.d; }); if (p.d != std::floor(p.d)) { c.throws<std::exception>([&] { cmd(e, "getParameterInt", {Value(n)}); }, "number-read-as-integer"); c.ev("wrong-type"); } break; }
    default: { std::string s = cmd(e, "getParameter", {Value(n)}).value(); c.check(s == p.s, "text-parameter", [&](std::ostream &o) { who(o); o << " got '" << s << "' expected '" << p.s << "'"; }); if (s == "a" || s == "robot" || s == "left leg" || s == "") { c.throws<std::exception>([&] { int i = cmd(e, "getParameterInt", {Value(n)}).value(); (void)i; }, "text-read-as-integer"); c.throws<std::exception>([&] { double d = cmd(e, "getParameterDbl", {Value(n)}).value(); (void)d; }, "text-read-as-number"); c.ev("wrong-type"); } }
  }
}
// init_simple looks at every robot known to the process: each case runs in a process of its own
FAMILY(sole_robot, 300, 6000) {
  fflush(nullptr); pid_t pid = fork();
  if (!pid) {
    int rc = 0;
    try {
      Quiet qt; Rng &r = c.rng; int n = r.pick(std::vector<int>{0, 1, 1, 1, 2, 3}); std::string nm; Rob w; auto known = [&] { return (int)sot::getListOfRobots()->size(); };
      for (int i = 0; i < n; ++i) { nm = "r" + std::to_string(i); c.check(!sot::isNameInRobotUtil(nm), "robot-unknown-before"); auto u = sot::createRobotUtil(nm); c.check(u && sot::isNameInRobotUtil(nm) && robot(nm) == u && !sot::createRobotUtil(nm), "robot-created-once"); c.eq(known(), i + 1, "list-of-robots"); }
      EP e = make("ParameterServer"); double dt = r.coin(.8) ? r.uni(.0001, .01) : r.pick(std::vector<double>{0., -1.}); bool good = dt > 0 && n == 1;
      for (int k = r.range(0, 3); k; --k) setter(c, r, *e, nullptr);
      if (dt <= 0) cmd(*e, "init_simple", {Value(dt)}); else if (n != 1) c.throws<sot::ExceptionTools>([&] { cmd(*e, "init_simple", {Value(dt)}); }, "no-single-robot"); else { cmd(*e, "init_simple", {Value(dt)}); }
      c.eq(known(), n, "no-robot-made"); for (int k = r.range(0, 8); k; --k) setter(c, r, *e, good ? &w : nullptr);
      if (good) { compare(c, nm, w); for (int k = 0; k < 4; ++k) getter(c, r, *e, w); Vec m = cmd(*e, "getJointsUrdfToSot").value(); c.check(m.size() == w.map.size() && m == w.map, "joint-map-reported"); }
      else { for (int i = 0; i < n; ++i) compare(c, "r" + std::to_string(i), Rob()); c.throws<std::exception>([&] { cmd(*e, "getParameter", {Value(std::string("a"))}); }, "get-before-initialisation"); cmd(*e, "displayRobotUtil"); cmd(*e, "init", {Value(.001), Value(std::string("f.urdf")), Value(std::string("late"))}); Rob l; l.file = "f.urdf"; for (int k = r.range(0, 8); k; --k) setter(c, r, *e, &l); compare(c, "late", l); }
    } catch (const Stop &) { rc = 3; } catch (const std::exception &x) { c.report("exception:sole_robot:" + typeName(x), x.what()); rc = 3; }
    fflush(nullptr); _exit(rc);
  }
  int st = 0; waitpid(pid, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { c.failed = true; return; } c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "ended-abnormally", [&](std::ostream &o) { o << "status " << st; }); c.ev("own-process");
}
FAMILY(servers, 2500, 80000) {
  Quiet qt; Rng &r = c.rng; int n = r.range(1, 3), ns = r.range(1, 3); std::vector<std::string> rn; std::map<std::string, Rob> rob; for (int i = 0; i < n; ++i) rn.push_back(uname("robot")); std::vector<EP> sv; std::vector<int> of(ns, -1); for (int i = 0; i < ns; ++i) sv.push_back(r.coin() ? EP(new Open(uname("server"))) : make("ParameterServer")); uint64_t h = 1;
  for (int s = 0, S = r.range(3, 40); s < S; ++s) {
    int i = r.range(0, ns - 1); dg::Entity &e = *sv[i]; Rob *w = of[i] < 0 ? nullptr : &rob[rn[of[i]]];
    switch (r.range(0, 9)) {
      case 0: { int k = r.range(0, n - 1); std::string f = word(r); double dt = r.coin(.8) ? r.uni(.0001, .1) : r.pick(std::vector<double>{0., -.001, -5.}); cmd(e, "init", {Value(dt), Value(f), Value(rn[k])}); if (dt > 0) { if (rob.count(rn[k])) c.ev("shared-robot"); of[i] = k; rob[rn[k]].file = f; c.ev("init"); } else c.ev("init-refused"); break; }
      case 1: case 2: if (w) getter(c, r, e, *w); else { static const char *g[] = {"getParameter", "getParameterInt", "getParameterDbl", "getParameterBool"}; int k = r.range(0, 3); c.throws<std::runtime_error>([&] { cmd(e, g[k], {Value(path(r))}); }, "get-before-initialisation"); c.ev("get-before-initialisation"); } break;
      case 3: if (r.coin(.2)) { qt.s.str(""); cmd(e, "displayRobotUtil"); if (w) c.check(qt.s.str().find("Joint name to joint id") != std::string::npos, "display"); c.ev("display"); } break;
      case 4: if (auto *o = dynamic_cast<Open *>(&e)) { if (w) { joints(c, r, *o, *w); break; } } /* fall through */
      default: setter(c, r, e, w);
    }
    for (auto &k : rn) { if (rob.count(k)) compare(c, k, rob[k]); else { std::string q = k; c.check(!sot::isNameInRobotUtil(q) && !sot::getRobotUtil(q), "unknown-robot"); } }
  }
  for (auto &p : rob) for (auto &x : p.second.par) h = h * 31 + hashStr(x.first) + x.second.type; c.state(h);
}
