// @sources src/debug/debug.cpp src/control/admittance-control-op-point.cpp src/control/control-gr.cpp src/control/control-pd.cpp src/debug/contiifstream.cpp src/exception/exception-abstract.cpp src/exception/exception-dynamic.cpp src/exception/exception-factory.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-task.cpp src/exception/exception-tools.cpp src/factory/pool.cpp src/feature/feature-1d.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-joint-limits.cpp src/feature/feature-line-distance.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-point6d.cpp src/feature/feature-pose.cpp src/feature/feature-posture.cpp src/feature/feature-task.cpp src/feature/feature-vector3.cpp src/feature/feature-visual-point.cpp src/feature/visual-point-projecter.cpp src/filters/causal-filter.cpp src/filters/filter-differentiator.cpp src/filters/madgwickahrs.cpp src/math/op-point-modifier.cpp src/matrix/derivator.cpp src/matrix/double-constant.cpp src/matrix/fir-filter.cpp src/matrix/matrix-constant.cpp src/matrix/matrix-svd.cpp src/matrix/operator.cpp src/matrix/vector-constant.cpp src/matrix/vector-to-rotation.cpp src/sot/flags.cpp src/sot/memory-task-sot.cpp src/sot/sot.cpp src/task/gain-adaptive.cpp src/task/gain-hyperbolic.cpp src/task/multi-bound.cpp src/task/task-abstract.cpp src/task/task-conti.cpp src/task/task-pd.cpp src/task/task-unilateral.cpp src/task/task.cpp src/tools/binary-int-to-uint.cpp src/tools/clamp-workspace.cpp src/tools/com-freezer.cpp src/tools/device.cpp src/tools/event.cpp src/tools/exp-moving-avg.cpp src/tools/gradient-ascent.cpp src/tools/gripper-control.cpp src/tools/joint-limitator.cpp src/tools/joint-trajectory-entity.cpp src/tools/kalman.cpp src/tools/latch.cpp src/tools/mailbox-vector.cpp src/tools/motion-period.cpp src/tools/neck-limitation.cpp src/tools/parameter-server.cpp src/tools/periodic-call-entity.cpp src/tools/periodic-call.cpp src/tools/robot-simu.cpp src/tools/robot-utils.cpp src/tools/sequencer.cpp src/tools/smooth-reach.cpp src/tools/switch.cpp src/tools/time-stamp.cpp src/tools/timer.cpp src/tools/trajectory.cpp src/traces/reader.cpp src/utils/stop-watch.cpp
// @rule each case builds one block (with the other blocks it needs), connects all its inputs, and at each new time changes some of them (mostly one) and reads some outputs in random order; what it answers is compared with a fresh instance given the same current inputs, or, for blocks with a history, with a twin whose inputs were all given again; distinct = distinct (class, input changed, outputs read)
// @assume the two instances' memory starts with different bytes; inputs have compatible sizes; blocks that make up their output from the clock alone are left to L19
#include <sanitizer/allocator_interface.h>
#include <sot/core/flags.hh>
#include <sot/core/gain-hyperbolic.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/variadic-op.hh>
#include "E_common.hh"
#include "L21_table.hh"
// the memory of the block and of the instance it is compared with starts with different bytes
static unsigned char g_fill = 0x5a;
static void onMalloc(const volatile void *p, size_t n) { if (n && n < 65536) memset((void *)p, g_fill, n); }
static void onFree(const volatile void *) {}
static int g_hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
template <class T> static bool plugAs(dg::SignalBase<int> *s, const T &v) { auto *p = dynamic_cast<dg::SignalPtr<T, int> *>(s); if (p) *p = v; return p; }
struct In { dg::SignalBase<int> *s; std::string name; int rows, cols; };
static bool isIn(dg::SignalBase<int> *s) {
#define IS(T) dynamic_cast<dg::SignalPtr<T, int> *>(s) ||
  return IS(dg::Vector) IS(dg::Matrix) IS(double) IS(bool) IS(int) IS(unsigned) IS(MH) IS(sot::MatrixRotation) IS(sot::MatrixTwist) IS(sot::VectorQuaternion) IS(sot::VectorUTheta) IS(sot::VectorRollPitchYaw) IS(sot::Flags) false;
}
static void give(const In &i, uint64_t seed) {
  Rng r(mix(seed)); for (int k = 0; k < 3; ++k) r.uni(0, 1);
  auto *s = i.s; MH m = pose(r, false); V3 w = gvec(r, 3); sot::VectorQuaternion q(m.linear()); sot::MatrixTwist x; sot::buildFrom(m, x); sot::VectorUTheta ut(m.linear()); sot::VectorRollPitchYaw y(w);
  bool four = i.rows < 0; int rows = four ? 6 : i.rows;
  Vec v = gvec(r, rows); Mat a = gmat(r, rows, i.cols); double d = r.gauss(); bool b = r.coin(); int k = r.range(0, 2); if (i.name == "sin") k -= 1;
  if (i.name == "Z" || i.name == "dt" || i.name == "damping") d = .05 + fabs(d);
  if (i.name == "learningRate") d = r.uni(.01, .5);
  if (i.name == "upperJl") v = v.cwiseAbs().array() + 1;
  if (i.name == "lowerJl") v = -(v.cwiseAbs().array() + 1);
  if (i.name == "dqSaturation") v = v.cwiseAbs();
  if (i.name == "referenceSup") v = v.cwiseAbs();
  if (i.name == "referenceInf") v = -v.cwiseAbs();
  if (i.name == "Q" || i.name == "R" || i.name == "P") a = Mat(a * a.transpose());
  if (i.name == "point3D") v(2) = 3 + fabs(v(2));
  if (i.name == "transfo") { m.setIdentity(); m.translation() = .2 * w; }
  std::vector<bool> fl(std::max(rows, 6), false); if (four) { std::vector<int> o{0, 1, 2, 3, 4, 5}; r.shuffle(o); for (int z = 0; z < 4; ++z) fl[o[z]] = true; } else for (size_t z = 0; z < fl.size(); ++z) fl[z] = r.coin(.8);
  sot::Flags f(fl);
  plugAs<dg::Vector>(s, v) || plugAs<dg::Matrix>(s, a) || plugAs<double>(s, d) || plugAs<bool>(s, b) || plugAs<int>(s, k) || plugAs<unsigned>(s, (unsigned)k) || plugAs<MH>(s, m) ||
      plugAs<sot::MatrixRotation>(s, sot::MatrixRotation(m.linear())) || plugAs<sot::MatrixTwist>(s, x) || plugAs<sot::VectorQuaternion>(s, q) || plugAs<sot::VectorUTheta>(s, ut) || plugAs<sot::VectorRollPitchYaw>(s, y) || plugAs<sot::Flags>(s, f);
}
static std::string readOut(dg::SignalBase<int> &s, int t) {
  try { s.recompute(t); } catch (const std::exception &) { return "refused"; }
  std::ostringstream o; o.precision(17);
  try { s.get(o); } catch (const std::exception &) { return "no text"; }
  return o.str();
}
// A block, the blocks it needs, and their inputs and outputs.
struct Rig {
  std::vector<EP> e; std::vector<In> in; std::vector<dg::SignalBase<int> *> out; bool history = false;
  dg::Entity &add(const std::string &cls) { e.push_back(make(cls)); return *e.back(); }
  void ins(dg::Entity &x, int rows, int cols, const std::map<std::string, int> &over = {}, const std::string &skip = "") {
    for (auto &p : x.getSignalMap()) { auto *s = p.second; auto *z = isIn(s) ? s : nullptr; if (!z || (" " + skip + " ").find(" " + p.first + " ") != std::string::npos) continue; auto it = over.find(p.first); int rr = it == over.end() ? rows : it->second; in.push_back(In{s, p.first, rr, cols}); }
  }
  void outs(dg::Entity &x) { for (auto &p : x.getSignalMap()) if (!isIn(p.second)) out.push_back(p.second); }
};
template <class T> static void number(dg::Entity &e, int n) { if (auto *v = dynamic_cast<sot::VariadicAbstract<T, T, int> *>(&e)) v->setSignalNumber(n); }
static int feature(Rig &g, dg::Entity &task, int dim, int nc, bool selec = true) {
  dg::Entity &f = g.add("FeatureGeneric"), &d = g.add("FeatureGeneric"); in<Vec>(d, "errorIN"); cmd(f, "setReference", {Value(d.getName())}); cmd(task, "add", {Value(f.getName())});
  g.ins(f, dim, nc, {}, selec ? "" : "selec"); g.ins(d, dim, nc, {}, "jacobianIN selec"); return dim;
}
static const char *HISTORY = " AdmittanceControlOpPoint CoMFreezer ClampWorkspace Derivator_of_Matrix Derivator_of_Vector Derivator_of_VectorQuaternion Derivator_of_double Event ExpMovingAvg FIRFilter_Vector_Matrix FIRFilter_Vector_double FIRFilter_double_double FilterDifferentiator GradientAscent GripperControl IntegratorEulerDoubleDouble IntegratorEulerVectorDouble IntegratorEulerVectorMatrix Kalman Latch MadgwickAHRS SmoothReach TaskPD TaskConti ";
static const char *SKIP = " Device RobotSimu TimeStamp TimerDouble TimerMatrix TimerMatrixHomo TimerVector MotionPeriod Sequencer ParameterServer PeriodicCallEntity Mailbox<Vector> Reader SotJointTrajectoryEntity ConvolutionTemporal FeatureTask ";
static bool listed(const char *l, const std::string &n) { return strstr(l, (" " + n + " ").c_str()); }
static void build(Rig &g, const Row &row, Rng &r) {
  std::string n = row.cls; dg::Entity &e = g.add(n); g.history = listed(HISTORY, n); int S = row.size;
  auto V = [&](double x) { return Value(x); }; auto I = [&](int x) { return Value(x); };
  if (n == "FilterDifferentiator") { Vec num(2), den(2); num << .4, .3; den << 1, -.5; cmd(e, "init", {V(.01), I(6), Value(num), Value(den)}); }
  if (n == "MadgwickAHRS") { cmd(e, "init", {V(.01)}); }
  if (n == "ExpMovingAvg") cmd(e, "setAlpha", {V(r.uni(.1, .9))});
  if (n == "GainHyperbolic") dynamic_cast<sot::GainHyperbolic &>(e).init(3, .5, -2, .3);
  if (n == "GainAdaptive") cmd(e, "set", {V(2), V(.5), V(3)});
  if (n.compare(0, 10, "FIRFilter_") == 0) { cmd(e, "setSize", {Value(3u)}); for (unsigned k = 0; k < 3; ++k) if (n == "FIRFilter_Vector_Matrix") cmd(e, "setElement", {Value(k), Value(gmat(r, 6, 6))}); else cmd(e, "setElement", {Value(k), V(r.gauss())}); }
  if (n.compare(0, 15, "IntegratorEuler") == 0) {
    for (int k = 0; k < 3; ++k) { if (n == "IntegratorEulerVectorMatrix") { if (k < 1) cmd(e, "pushNumCoef", {Value(Mat(Mat::Identity(6, 6)))}); if (k < 2) cmd(e, "pushDenomCoef", {Value(gmat(r, 6, 6))}); } else { if (k < 1) cmd(e, "pushNumCoef", {V(1)}); if (k < 2) cmd(e, "pushDenomCoef", {V(k ? 1 : r.gauss())}); } }
    cmd(e, "setSamplingPeriod", {V(.1)});
  }
  if (n == "Selec_of_vector") { cmd(e, "selec", {I(1), I(3)}); cmd(e, "addSelec", {I(4), I(6)}); }
  if (n == "Component_of_vector") cmd(e, "setIndex", {I(2)});
  if (n == "Selec_of_matrix") { cmd(e, "selecRows", {I(1), I(4)}); cmd(e, "selecCols", {I(0), I(5)}); }
  if (n == "Selec_column_of_matrix") { cmd(e, "selecRows", {I(1), I(4)}); cmd(e, "selecCols", {I(2)}); }
  if (n == "Stack_of_vector") { cmd(e, "selec1", {I(0), I(3)}); cmd(e, "selec2", {I(2), I(6)}); }
  if (n == "MatrixDiagonal") cmd(e, "resize", {I(6), I(6)});
  if (n.compare(0, 10, "WeightAdd_") == 0) { cmd(e, "setGain1", {V(.3)}); cmd(e, "setGain2", {V(-2)}); }
  if (n == "And" || n == "Or") number<bool>(e, 3);
  if (n.compare(0, 6, "Switch") == 0) cmd(e, "setSignalNumber", {I(3)});
  if (n == "Add_of_vector" || n == "Multiply_of_vector") number<Vec>(e, 3);
  if (n == "Add_of_double" || n == "Multiply_of_double") number<double>(e, 3);
  if (n == "Add_of_matrix" || n == "Multiply_of_matrix") number<Mat>(e, 3);
  if (n == "Mix_of_vector") { number<Vec>(e, 3); cmd(e, "addSelec", {I(1), I(0), I(2)}); cmd(e, "addSelec", {I(2), I(3), I(2)}); g.ins(e, 2, 0, {{"default", 6}}); g.outs(e); return; }
  if (n == "OpPointModifier") { cmd(e, "setTransformation", {Value(M4(pose(r, false).matrix()))}); cmd(e, "setEndEffector", {Value(r.coin())}); }
  if (n == "FeaturePoint6d") cmd(e, "frame", {Value(std::string(r.coin() ? "current" : "desired"))});
  if (n == "CompareVector") { cmd(e, "setTrueIfAny", {Value(r.coin())}); cmd(e, "setEqual", {Value(r.coin())}); }
  if (n.compare(0, 4, "Task") == 0) cmd(e, "setWithDerivative", {Value(r.coin())});
  if (n == "SmoothReach") { cmd(e, "set", {Value(gvec(r, 3)), I(5)}); g.ins(e, 3, 0); }
  else if (n == "NeckLimitation") g.ins(e, 20, 0);
  else if (n == "SE3VectorToMatrixHomo") g.ins(e, 12, 0);
  else if (n == "VisualPointProjecter") g.ins(e, 3, 0);
  else if (n == "Kalman") { cmd(e, "setInitialState", {Value(gvec(r, 4))}); Mat v = gmat(r, 4, 4); cmd(e, "setInitialVariance", {Value(Mat(v * v.transpose()))}); g.ins(e, 4, 4); }
  else if (n.compare(0, 7, "Feature") == 0) {
    bool two = n != "FeaturePose" && n != "FeaturePoseSE3" && n != "FeaturePosture" && n != "FeatureLineDistance" && n != "FeatureJointLimits" && n != "Feature1D" && n != "FeatureVisualPoint" ? r.coin(.7) : n == "FeatureVisualPoint" && r.coin(.7);
    std::map<std::string, int> o; if (n == "FeatureVector3" || n == "FeatureLineDistance") { o["vector"] = 3; o["positionRef"] = n == "FeatureVector3" ? 3 : 6; } if (n == "FeatureVisualPoint") { o["xy"] = 2; }
    g.ins(e, n == "FeatureLineDistance" || n == "FeatureVector3" || n == "FeatureVisualPoint" ? 6 : 6, 6, o);
    if (two) { dg::Entity &f = g.add(n); cmd(e, "setReference", {Value(f.getName())}); g.ins(f, 6, 6, o, "Jq JqRef jacobianIN selec"); }
  } else if (n.compare(0, 4, "Task") == 0) {
    bool fixed = n == "TaskPD" || n == "TaskUnilateral"; int d = feature(g, e, 3, 6, !fixed); if (r.coin()) d += feature(g, e, 2, 6, !fixed);
    g.ins(e, fixed ? d : n == "TaskConti" ? 0 : 6, 6);
  } else if (n == "SOT") {
    cmd(e, "setSize", {Value(6u)}); for (int k = 0; k < 2; ++k) { dg::Entity &t = g.add("Task"); feature(g, t, 2, 6); g.ins(t, 6, 6, {}, "controlSelec"); cmd(e, "push", {Value(t.getName())}); }
    g.ins(e, 6, 6, {}, "proj0");
  } else g.ins(e, S, S, n == "GripperControl" ? std::map<std::string, int>{{"positionDes", 4}, {"selec", -4}} : std::map<std::string, int>(), n == "GripperControl" ? "position torque torqueLimit" : "");
  if (n == "AdmittanceControlOpPoint") { for (auto &i : g.in) give(i, 77); cmd(e, "init", {V(.01)}); }  // refuses to start without its inputs
  if (n == "FeaturePosture") { for (auto &i : g.in) { give(i, 77); i.s->recompute(-1); } for (unsigned d = 0; d < 6; ++d) if (d == 0 || r.coin()) cmd(e, "selectDof", {Value(d), Value(true)}); }
  if (n.compare(0, 15, "IntegratorEuler") == 0) { give(g.in[0], 77); cmd(e, "initialize"); }
  g.outs(e);
}
FAMILY(current, 26200, 900000) {
  Rng &r = c.rng; const Row &row = TABLE[c.index % (sizeof TABLE / sizeof *TABLE)]; std::string n = row.cls;
  if (listed(SKIP, n) || !dg::FactoryStorage::getInstance()->existEntity(n)) return;
  static const unsigned char FILLS[] = {0x00, 0x3f, 0x5a, 0xc3, 0xff}; unsigned char fa = FILLS[c.index / 131 % 5], fb = FILLS[(c.index / 131 + 1 + c.index / 655 % 4) % 5]; g_fill = fa;
  Rng seed = r; Rig a, b; { Rng q = seed; build(a, row, q); } if (a.in.empty() || a.out.empty()) return;
  if (a.history) { g_fill = fb; Rng q = seed; build(b, row, q); g_fill = fa; }
  r.uni(0, 1);
  std::vector<uint64_t> val(a.in.size()); for (auto &v : val) v = r.range(0, 1 << 30);
  int t = n == "Kalman" || r.coin(.2) ? -1 : 10, N = r.range(2, 6); std::string trail = n; bool warm = n != "Kalman" && n != "TaskPD" && r.coin(.6);
  for (size_t k = 0; k < a.in.size(); ++k) give(a.in[k], val[k]);
  for (int i = 0; i < N; ++i) {
    const char *gate = n == "Kalman" ? " F H Q R " : n == "TaskPD" ? " errorIN " : "  "; bool noise = !i || gate[1] == ' ';
    if (i) { int m = r.coin(.75) ? 1 : r.range(1, (int)a.in.size());
      for (int k = 0; k < m; ++k) { size_t j = r.range(0, (int)a.in.size() - 1); val[j] = r.range(0, 1 << 30); give(a.in[j], val[j]); trail += "; change " + a.in[j].name; if (listed(gate, a.in[j].name)) noise = true; } }
    t += t < 0 ? 1 : r.range(1, 2); std::vector<size_t> o; for (size_t k = 0; k < a.out.size(); ++k) o.push_back(k);
    r.shuffle(o); if (i && r.coin(.5)) o.resize(r.range(1, (int)o.size()));
    Rig f; Rig *w = &b; g_fill = fb; if (!a.history) { Rng q = seed; build(f, row, q); w = &f; }
    for (size_t k = 0; k < w->in.size(); ++k) if (noise || !listed(gate, w->in[k].name)) give(w->in[k], val[k]);  // the variance of a Kalman filter advances when its model is refreshed, the derivative of a task when its error is
    g_fill = fa; std::map<size_t, std::string> first;
    for (size_t k : o) {
      if (!first.empty() && r.coin(.3)) {  // read again at the same time: same answer, and nothing advances
        auto it = first.begin(); std::advance(it, r.range(0, (int)first.size() - 1)); std::string z = readOut(*a.out[it->first], t);
        c.check(z == it->second, "same-time-same-answer", [&](std::ostream &s) { s << trail << ": " << a.out[it->first]->shortName() << " at " << t << ": " << it->second << ", read again " << z; }); c.ev("read-again");
      }
      trail += "; read " + a.out[k]->shortName();
      std::string x = readOut(*a.out[k], t), y = readOut(*w->out[k], t);
      first[k] = x;
      c.check(x == y, "follows-current-inputs", [&](std::ostream &s) { s << trail << " at " << t << ": " << x << ", with all inputs given anew " << y; });
      c.ev(x == "refused" ? "refused" : "value"); c.ev(a.history ? "block-with-history" : "stateless-block");
    }
    if (warm) for (auto &i : a.in) i.s->recompute(t);  // an input nobody reads would otherwise ask for updates for ever
    trail += ";";
  }
  g_fill = 0; c.state(hashStr(trail)); c.sample(trail);
}
