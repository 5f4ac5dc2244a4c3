// @sources src/debug/debug.cpp src/control/admittance-control-op-point.cpp src/control/control-gr.cpp src/control/control-pd.cpp src/debug/contiifstream.cpp src/exception/exception-abstract.cpp src/exception/exception-dynamic.cpp src/exception/exception-factory.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-task.cpp src/exception/exception-tools.cpp src/factory/pool.cpp src/feature/feature-1d.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-joint-limits.cpp src/feature/feature-line-distance.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-point6d.cpp src/feature/feature-pose.cpp src/feature/feature-posture.cpp src/feature/feature-task.cpp src/feature/feature-vector3.cpp src/feature/feature-visual-point.cpp src/feature/visual-point-projecter.cpp src/filters/causal-filter.cpp src/filters/filter-differentiator.cpp src/filters/madgwickahrs.cpp src/math/op-point-modifier.cpp src/matrix/derivator.cpp src/matrix/double-constant.cpp src/matrix/fir-filter.cpp src/matrix/matrix-constant.cpp src/matrix/matrix-svd.cpp src/matrix/operator.cpp src/matrix/vector-constant.cpp src/matrix/vector-to-rotation.cpp src/sot/flags.cpp src/sot/memory-task-sot.cpp src/sot/sot.cpp src/task/gain-adaptive.cpp src/task/gain-hyperbolic.cpp src/task/multi-bound.cpp src/task/task-abstract.cpp src/task/task-conti.cpp src/task/task-pd.cpp src/task/task-unilateral.cpp src/task/task.cpp src/tools/binary-int-to-uint.cpp src/tools/clamp-workspace.cpp src/tools/com-freezer.cpp src/tools/device.cpp src/tools/event.cpp src/tools/exp-moving-avg.cpp src/tools/gradient-ascent.cpp src/tools/gripper-control.cpp src/tools/joint-limitator.cpp src/tools/joint-trajectory-entity.cpp src/tools/kalman.cpp src/tools/latch.cpp src/tools/mailbox-vector.cpp src/tools/motion-period.cpp src/tools/neck-limitation.cpp src/tools/parameter-server.cpp src/tools/periodic-call-entity.cpp src/tools/periodic-call.cpp src/tools/robot-simu.cpp src/tools/robot-utils.cpp src/tools/sequencer.cpp src/tools/smooth-reach.cpp src/tools/switch.cpp src/tools/time-stamp.cpp src/tools/timer.cpp src/tools/trajectory.cpp src/traces/reader.cpp src/utils/stop-watch.cpp
// @rule each case takes one block class: it compares what the block offers with the table of its signals and commands, or drives two instances, whose memory starts with different bytes, through the same random reads, commands, displays and connections before the block is configured; distinct = distinct (class, history)
// @assume arguments of commands are in their documented range (rates in [0,1], non-negative counts, quaternions of four numbers); pose features are read only once their poses are connected (their assertions say so)
#include <sanitizer/allocator_interface.h>
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>
#include "E_common.hh"
#include "L21_table.hh"
static unsigned char g_fill = 0x5a;
static void onMalloc(const volatile void *p, size_t n) { if (n && n < 65536) memset((void *)p, g_fill, n); }
static void onFree(const volatile void *) {}
static int g_hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
static const std::vector<Row> &rows() { static std::vector<Row> v(std::begin(TABLE), std::end(TABLE)); return v; }
static const std::vector<std::string> &words(const std::string &s) {
  static std::map<std::string, std::vector<std::string>> m; auto it = m.find(s);
  if (it == m.end()) { std::istringstream is(s); std::vector<std::string> v; std::string w; while (is >> w) v.push_back(w); it = m.emplace(s, v).first; }
  return it->second;
}
static bool pose_feature(const std::string &n) { return n == "FeaturePose" || n == "FeaturePoseSE3"; }
static dg::Entity *create(const std::string &cls, const std::string &nm) { return dg::FactoryStorage::getInstance()->newEntity(cls, nm); }

FAMILY(offered, 262, 5240) {
  const Row &row = rows()[c.index % rows().size()]; std::string n = row.cls, nm = uname("block");
  c.check(dg::FactoryStorage::getInstance()->existEntity(n), "class-is-known", [&](std::ostream &o) { o << "no class " << n; });
  if (!dg::FactoryStorage::getInstance()->existEntity(n)) return;
  EP e(create(n, nm));
  c.eq(e->getClassName(), n, "class-name"); c.eq(e->getName(), nm, "instance-name");
  c.check(dg::PoolStorage::getInstance()->existEntity(nm) && &dg::PoolStorage::getInstance()->getEntity(nm) == e.get(), "registered");
  for (auto &w : words(row.signals)) { c.check(e->hasSignal(w), "signal-offered", [&](std::ostream &o) { o << n << " has no signal " << w; }); c.ev("signal"); }
  for (auto &w : words(row.commands)) {
    size_t k = w.find('/'); std::string cn = w.substr(0, k), ty = w.substr(k + 1), got; auto it = e->getNewStyleCommandMap().find(cn);
    c.check(it != e->getNewStyleCommandMap().end(), "command-offered", [&](std::ostream &o) { o << n << " has no command " << cn; });
    if (it == e->getNewStyleCommandMap().end()) continue;
    for (auto t : it->second->valueTypes()) got += "-buifdsvmhl......"[t]; c.eq(got, ty, "command-parameters"); c.ev("command");
    c.check(!it->second->getDocstring().empty(), "command-documented", [&](std::ostream &o) { o << n << "." << cn; });
  }
  // a name in use is refused and the block that has it is not disturbed
  const Row &other = rows()[c.rng.range(0, (int)rows().size() - 1)];
  c.throws<std::exception>([&] { delete create(other.cls, nm); }, "name-in-use-refused");
  c.check(dg::PoolStorage::getInstance()->existEntity(nm) && &dg::PoolStorage::getInstance()->getEntity(nm) == e.get(), "holder-not-disturbed", [&](std::ostream &o) { o << n << " against " << other.cls; });
  e.reset(); c.check(!dg::PoolStorage::getInstance()->existEntity(nm), "name-is-free-again", [&](std::ostream &o) { o << n; });
  c.state(hashStr(n));
}

static Value arg(Rng &r, Value::Type t, const std::string &cls, const std::string &cmd) {
  switch (t) {
    case Value::BOOL: return Value(r.coin());
    case Value::UNSIGNED: return Value((unsigned)(cls == "RobotSimu" ? r.range(6, 12) : r.range(cmd == "setSize" ? 1 : 0, 6)));
    case Value::INT: return Value(r.range(cmd == "setSignalNumber" || cmd == "resize" || cmd == "init" ? 1 : -1, 6));
    case Value::FLOAT: return Value((float)r.gauss());
    case Value::DOUBLE: return Value(cmd == "setAlpha" ? r.uni(0, 1) : cmd == "init" || cmd == "setBeta" || cmd == "setTimeStep" ? r.uni(1e-4, 1) : r.gauss());
    case Value::STRING: return Value(std::string(r.pick(std::vector<const char *>{"s1", "1101", "no such thing", "signal.other", ""})));
    case Value::VECTOR: if (cmd == "setJointsUrdfToSot") { Vec v(r.range(0, 5)); std::vector<int> o; for (int i = 0; i < v.size(); ++i) o.push_back(i); r.shuffle(o); for (int i = 0; i < v.size(); ++i) v(i) = o[i]; return Value(v); }
      return Value(Vec(gvec(r, cmd == "set_imu_quat" ? 4 : cls == "FilterDifferentiator" ? r.range(1, 4) : cls == "RobotSimu" ? r.range(6, 12) : r.range(0, 7))));
    case Value::MATRIX: { int k = r.range(0, 6); return Value(cmd == "setRoot" || cmd == "setTransformation" ? Mat(pose(r).matrix()) : Mat(gmat(r, k, r.coin() ? k : r.range(0, 6)))); }
    case Value::MATRIX4D: return Value(M4(pose(r).matrix()));
    default: return Value(std::vector<Value>{Value(1.), Value(2.)});
  }
}
template <class T> static bool plugAs(dg::SignalBase<int> *s, const T &v) { auto *p = dynamic_cast<dg::SignalPtr<T, int> *>(s); if (p) *p = v; return p; }
static bool plug(dg::SignalBase<int> *s, Rng &r, int k) {
  MH m = pose(r); V3 w = gvec(r, 3); sot::VectorQuaternion q(m.linear()); sot::MatrixTwist x; sot::buildFrom(m, x); sot::VectorUTheta ut(m.linear()); sot::VectorRollPitchYaw y(w);
  Vec v = gvec(r, k); Mat a = gmat(r, k, k); double d = r.gauss(); bool b = r.coin(); int i = r.range(0, 2);
  return plugAs<dg::Vector>(s, v) || plugAs<dg::Matrix>(s, a) || plugAs<double>(s, d) || plugAs<bool>(s, b) || plugAs<int>(s, i) || plugAs<unsigned>(s, (unsigned)i) || plugAs<MH>(s, m) ||
         plugAs<sot::MatrixRotation>(s, sot::MatrixRotation(m.linear())) || plugAs<sot::MatrixTwist>(s, x) || plugAs<sot::VectorQuaternion>(s, q) || plugAs<sot::VectorUTheta>(s, ut) || plugAs<sot::VectorRollPitchYaw>(s, y);
}
template <class T> static bool is(dg::SignalBase<int> *s) { return dynamic_cast<dg::SignalPtr<T, int> *>(s); }
static bool isInput(dg::SignalBase<int> *s) {
  return is<dg::Vector>(s) || is<dg::Matrix>(s) || is<double>(s) || is<bool>(s) || is<int>(s) || is<unsigned>(s) || is<MH>(s) || is<sot::MatrixRotation>(s) || is<sot::MatrixTwist>(s) || is<sot::VectorQuaternion>(s) || is<sot::VectorUTheta>(s) || is<sot::VectorRollPitchYaw>(s) || is<sot::Flags>(s) || is<sot::VectorMultiBound>(s) || is<std::string>(s);
}
// What a read of a signal gives: its text, or the refusal.
static std::string readSignal(dg::SignalBase<int> &s, int t) {
  if (isInput(&s)) { try { s.recompute(t); } catch (const std::exception &) { return "not connected"; } return "input"; }
  try { s.recompute(t); } catch (const std::exception &) { return "refused"; }
  std::ostringstream o; o.precision(17);
  try { s.get(o); } catch (const std::exception &) { return "no text"; }
  return o.str();
}
static bool clock(const std::string &n) { return n.compare(0, 4, "Time") == 0 || n == "ParameterServer"; }  // the time, and a store shared by all its blocks
struct Twin {
  EP e;
  Twin(const std::string &n, const std::string &nm, unsigned char f) { g_fill = f; e.reset(create(n, nm)); }
};
FAMILY(early, 15720, 400000) {
  Rng &r = c.rng; const Row &row = rows()[c.index % rows().size()]; std::string n = row.cls, nm = uname("early");
  if (!dg::FactoryStorage::getInstance()->existEntity(n)) return;
  bool poseF = pose_feature(n);
  std::vector<std::string> sg = words(row.signals), cm = words(row.commands), res[2], ops; std::string trail = n;
  int N = r.range(1, 10); Rng seed = r; uint64_t h = hashStr(n);
  for (int k = 0; k < 2; ++k) {
    Rng q = seed; int t = 0; g_fill = k ? 0xc3 : 0x5a;
    EP e(create(n, nm));
    for (int i = 0; i < N; ++i) {
      std::string out, what; t += q.range(0, 2);
      int op = q.range(0, 9);
      if (op < 5 && !sg.empty()) {
        std::string w = q.pick(sg); what = "read " + w;
        if (poseF && w != "dim" && w != "selec") continue;
        if (!e->hasSignal(w)) continue;
        out = readSignal(e->getSignal(w), t); c.ev(out == "refused" ? "read-refused" : "read");
      } else if (op < 8 && !cm.empty()) {
        std::string w = q.pick(cm); w = w.substr(0, w.find('/')); what = "command " + w;
        if ((poseF && w == "keep") || w == "increment") continue;
        auto it = e->getNewStyleCommandMap().find(w); if (it == e->getNewStyleCommandMap().end()) continue;
        std::vector<Value> v; for (auto ty : it->second->valueTypes()) v.push_back(arg(q, ty, n, w));
        if (n == "Reader" && w == "resize") v = {Value(1u), Value(1u)};
        try { it->second->setParameterValues(v); it->second->execute(); out = "done"; c.ev("command"); } catch (const std::exception &x) { out = "refused"; c.ev("command-refused"); }
      } else {
        what = "display"; std::ostringstream o;
        if (poseF) continue;
        try { e->display(o); e->writeGraph(o); e->displaySignalList(o); o << e->getDocString(); } catch (const std::exception &) { o << "refused"; }
        out = o.str(); for (size_t z; (z = out.find("0x")) != std::string::npos;) { size_t y = z + 2; while (y < out.size() && isxdigit(out[y])) ++y; out.replace(z, y - z, "address"); } c.ev("display");
      }
      res[k].push_back(out); if (!k) { ops.push_back(what); trail += "; " + what; h = mix(h ^ hashStr(what)); }
    }
    e.reset();
    c.check(!dg::PoolStorage::getInstance()->existEntity(nm), "name-is-free-again", [&](std::ostream &o) { o << n; });
  }
  c.log() << trail; g_fill = 0;
  if (!clock(n)) for (size_t i = 0; i < ops.size(); ++i)
    c.check(res[0][i] == res[1][i], "independent-of-old-memory", [&](std::ostream &o) { o << n << " " << ops[i] << ": " << res[0][i] << " and " << res[1][i]; });
  c.state(h); c.sample(trail);
}
FAMILY(recover, 7860, 200000) {
  Rng &r = c.rng; const Row &row = rows()[c.index % rows().size()]; std::string n = row.cls;
  if (!row.size || !*row.signals || pose_feature(n) || !dg::FactoryStorage::getInstance()->existEntity(n)) return;
  std::vector<std::string> sg = words(row.signals), res[2]; std::string trail = n;
  bool partial = r.coin(.3); double part = r.uni(0, .6); Rng seed = r, seed2 = Rng(mix(r.range(0, 1 << 30))); int reads = r.range(1, 6), N = r.range(1, 3);
  for (int k = 0; k < 2; ++k) {
    g_fill = k ? 0xc3 : 0x5a; EP e = make(n); Rng q = seed2;
    if (k) for (int i = 0; i < reads; ++i) { std::string w = q.pick(sg); if (!e->hasSignal(w)) continue; trail += "; read " + w; std::string o = readSignal(e->getSignal(w), q.range(1, 5)); c.ev(o == "refused" ? "read-refused" : "read"); if (o != "refused" && o != "not connected" && o != "input") res[0].clear(), n = ""; }
    if (n.empty()) return;  // something answered: the block may have advanced
    Rng p = seed; int t = 10;
    for (int i = 0; i < N; ++i) {
      for (auto &w : sg) { if (partial && p.coin(part)) continue; if (e->hasSignal(w)) plug(&e->getSignal(w), p, row.size); }
      t += p.range(1, 3);
      for (auto &w : sg) if (e->hasSignal(w)) res[k].push_back(readSignal(e->getSignal(w), t));
    }
  }
  c.log() << trail; g_fill = 0; c.ev("recovered");
  if (!clock(n)) for (size_t i = 0; i < res[0].size(); ++i) {
    c.check(res[0][i] == res[1][i], "works-after-refused-reads", [&](std::ostream &o) { o << n << " " << sg[i % sg.size()] << ": " << res[0][i] << " fresh, " << res[1][i] << " after refused reads"; });
    if (res[0][i] != "refused") c.ev("value");
  }
  c.state(mix(hashStr(trail) ^ r.range(0, 1 << 30)));
}
// Everything a block takes while it is used is given back when it is destroyed.
FAMILY(returned, 3930, 80000) {
  Rng &r = c.rng; const Row &row = rows()[c.index % rows().size()]; std::string n = row.cls;
  if (pose_feature(n) || !dg::FactoryStorage::getInstance()->existEntity(n)) return;
  std::vector<std::string> sg = words(row.signals), cm = words(row.commands); Rng seed = r; long d[5]; int N = r.range(0, 6);
  for (int k = 0; k < 5; ++k) {
    std::string nm = "same_name_every_time_of_a_block"; long a;
    { Rng q = seed; a = (long)__sanitizer_get_current_allocated_bytes(); EP e(create(n, nm)); std::ostringstream tr;
      for (int i = 0; i < N; ++i) {
        if (q.coin() && !cm.empty()) {
          std::string w = q.pick(cm); w = w.substr(0, w.find('/')); if (w == "increment") continue;
          auto it = e->getNewStyleCommandMap().find(w); if (it == e->getNewStyleCommandMap().end()) continue;
          std::vector<Value> v; for (auto ty : it->second->valueTypes()) v.push_back(arg(q, ty, n, w));
          if (n == "Reader" && w == "resize") v = {Value(1u), Value(1u)};
          try { it->second->setParameterValues(v); it->second->execute(); } catch (const std::exception &) {}
        } else if (!sg.empty()) { std::string w = q.pick(sg); if (e->hasSignal(w)) readSignal(e->getSignal(w), i + 1); }
      } }
    d[k] = (long)__sanitizer_get_current_allocated_bytes() - a;
  }
  c.check(!(d[4] > 0 && d[3] > 0 && d[2] > 0), "memory-returned", [&](std::ostream &o) { o << n << " keeps " << d[2] << ", " << d[3] << ", " << d[4] << " bytes after it is destroyed"; });
  c.ev("lifetimes", 5); c.state(mix(hashStr(n) ^ N));
}
#define regFunction_double_double regFunction_integrator_double_double
#define regFunction_Vector_double regFunction_integrator_Vector_double
#include "../src/matrix/integrator-euler.cpp"
