// @sources src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp src/task/task-pd.cpp src/task/task-conti.cpp src/task/task-unilateral.cpp
// @rule each case drives a derived task over a random sequence of evaluations with random gains, errors, rates, times and limits, and compares its command with the documented law applied to the recorded inputs; distinct = distinct recorded inputs
#include <sot/core/task-pd.hh>
#include <sot/core/task-conti.hh>
#include <sot/core/task-unilateral.hh>
#include <sot/core/feature-generic.hh>
#include "harness_eigen.hh"
namespace dg = dynamicgraph; namespace sot = dynamicgraph::sot;
using namespace vh; using dg::command::Value;
static std::string uname(const char *p) { static int k = 0; return p + std::to_string(++k); }
static Value cmd(dg::Entity &e, const std::string &n, const std::vector<Value> &v = {}) { auto *c = e.getNewStyleCommand(n); c->setParameterValues(v); return c->execute(); }
static Vec single(Case &c, const sot::VectorMultiBound &v) {
  Vec o(v.size());
  for (size_t i = 0; i < v.size(); ++i) { c.check(v[i].getMode() == sot::MultiBound::MODE_SINGLE, "entry-kind"); o(i) = v[i].getSingleBound(); }
  return o;
}
FAMILY(pd, 2000, 50000) {
  Rng &r = c.rng;
  sot::TaskPD task(uname("pd")); sot::FeatureGeneric f(uname("f")), ref(uname("r"));
  int d = r.range(1, 5), n = r.range(1, 4);
  double beta = 1, gain = r.gauss(); bool ff = r.coin(.3);
  bool setBeta = r.coin(.8), own = r.coin(.6), hasRef = r.coin(.6);
  if (setBeta) { beta = r.val(); cmd(task, "setBeta", {Value(beta)}); }
  task.controlGainSIN = gain; if (ff) task.setWithDerivative(true);
  task.addFeature(f);
  Vec prev(0); int t = 0;
  if (hasRef) f.setReference(&ref);
  uint64_t h = 0;
  dg::Signal<Vec, int> ext("ext");
  int steps = r.range(1, 8);
  for (int k = 0; k < steps; ++k) {
    if (k && r.coin(.15)) { d = r.range(1, 5); f.selectionSIN = sot::Flags(true); c.ev("resized"); }
    t += r.range(1, 3);
    Vec e = rvec(r, d), edes = gvec(r, d), edot = gvec(r, d);
    f.errorSIN = e; f.jacobianSIN = gmat(r, d, n); f.selectionSIN = sot::Flags(true);
    if (hasRef) { ref.errorSIN = edes; ref.errordotSIN = edot; }
    Vec E = hasRef ? Vec(e - edes) : e;
    Vec rate;
    if (own) { rate = prev.size() == d ? Vec(E - prev) : Vec(Vec::Zero(d)); }
    else { rate = gvec(r, d); task.errorDotSIN = rate; }
    Vec want = -gain * E - beta * rate;
    if (ff && hasRef) want += edot;
    double sc = 1 + std::fabs(gain) * E.norm() + std::fabs(beta) * (rate.norm() + E.norm() + prev.norm()) + edot.norm();
    closeM(c, single(c, task.taskSOUT(t)), want, 1e-13 * sc, "pd-command");
    if (own) closeM(c, task.errorDotSOUT(t), rate, 1e-14 * sc, "finite-difference");
    closeM(c, single(c, task.taskSOUT(t)), want, 1e-13 * sc, "pd-command-read-again");
    prev = E; h = mix(h ^ hashM(want));
    c.ev(own ? "own-rate" : "given-rate"); if (ff) c.ev("feed-forward");
  }
  c.state(h); c.sample("beta " + std::to_string(beta) + " steps " + std::to_string(steps));
}
// the transition is configured by derived classes
struct Conti : public sot::TaskConti {
  Conti(const std::string &n) : sot::TaskConti(n) {}
  void start(const Vec &q, double m) { q0 = q; mu = m; }
  void arm() { timeRef = TIME_REF_TO_BE_SET; }
  void disarm() { timeRef = TIME_REF_UNSIGNIFICANT; }
};
FAMILY(continuity, 2000, 50000) {
  Rng &r = c.rng;
  Conti task(uname("conti")); sot::FeatureGeneric f(uname("f"));
  int d = r.range(1, 5), n = r.range(6, 12), t = r.coin(.1) ? 0 : r.range(1, 100);
  double gain = r.uni(.1, 3), mu = r.uni(.1, 20);
  task.controlGainSIN = gain; task.addFeature(f);
  int mode = r.range(0, 3);  // 0 no transition, 1 armed, 2 reference time given, 3 previous control of the wrong size
  Vec q = gvec(r, n - 6);
  if (mode == 3) { if (r.coin()) q = gvec(r, n - 6 + r.pick(std::vector<int>{1, 2, 7})); else q = Vec(0); if (q.size() == n - 6) mode = 0; }
  if (mode) task.start(q, mu);
  int ref = -1;
  if (mode == 1) task.arm(); else if (mode == 2) { ref = r.range(0, t); task.referenceTime((unsigned)ref); } else if (mode == 3) { if (r.coin()) task.arm(); else task.referenceTime((unsigned)r.range(0, 9)); } else task.disarm();
  int steps = r.range(1, 8); uint64_t h = mode; double lastTransition = 1e300;
  for (int k = 0; k < steps; ++k) {
    Vec E = rvec(r, d); Mat J = gmat(r, d, n);
    f.errorSIN = E; f.jacobianSIN = J; f.selectionSIN = sot::Flags(true);
    Vec want = -gain * E, got;
    if (mode == 1 && ref < 0) ref = t;
    if (mode == 1 || mode == 2) {
      double x = std::exp(-mu * (t - ref) / 200.);
      Vec prev = J.rightCols(n - 6) * q;
      want = (x - 1) * gain * E + x * prev;
      got = single(c, task.taskSOUT(t));
      if (t == ref) { closeM(c, got, prev, 1e-12 * (1 + prev.norm() + E.norm() * gain), "starts-at-previous-control"); c.ev("start"); }
      // what remains of the transition only shrinks
      c.check(x <= lastTransition, "model"); lastTransition = x;
      c.eq(task.referenceTime(), ref, "reference-time"); c.ev("transition");
    } else { got = single(c, task.taskSOUT(t)); c.ev("basic-law"); }
    closeM(c, got, want, 1e-12 * (1 + want.norm() + E.norm() * gain), "continuity-command");
    h = mix(h ^ hashM(want)); t += r.range(1, 60);
  }
  c.state(h);
}
FAMILY(unilateral, 1500, 40000) {
  Rng &r = c.rng;
  sot::TaskUnilateral task(uname("uni")); sot::FeatureGeneric f(uname("f"));
  int t = 0, steps = r.range(1, 6); uint64_t h = 0;
  int d = r.range(1, 6);
  for (int k = 0; k < steps; ++k) {
    if (r.coin(.2)) d = r.range(0, 6);
    t += r.range(1, 3);
    Vec p = rvec(r, d), lo = rvec(r, d), hi = rvec(r, d); double dt = r.pick(std::vector<double>{1e-3, 5e-3, 1., .1, r.uni(.01, 2)});
    task.positionSIN = p; task.referenceInfSIN = lo; task.referenceSupSIN = hi; task.dtSIN = dt;
    const sot::VectorMultiBound &v = task.taskSOUT(t);
    c.eq(v.size(), (size_t)d, "rows");
    for (int i = 0; i < d; ++i) {
      c.check(v[i].getMode() == sot::MultiBound::MODE_DOUBLE && v[i].getDoubleBoundSetup(sot::MultiBound::BOUND_INF) && v[i].getDoubleBoundSetup(sot::MultiBound::BOUND_SUP), "both-bounds");
      double a = (lo(i) - p(i)) / dt, b = (hi(i) - p(i)) / dt;
      c.near(v[i].getDoubleBound(sot::MultiBound::BOUND_INF), a, 1e-13 * (1 + std::fabs(a)), "lower-limit");
      c.near(v[i].getDoubleBound(sot::MultiBound::BOUND_SUP), b, 1e-13 * (1 + std::fabs(b)), "upper-limit");
      c.ev("row");
    }
    h = mix(h ^ hashM(p)) + hashM(hi);
  }
  c.state(h);
  // its Jacobian is the basic task's
  Mat J = gmat(r, 3, 4); f.errorSIN = gvec(r, 3); f.jacobianSIN = J; sot::Task &base = task; base.addFeature(f);
  closeM(c, task.jacobianSOUT(t + 1), J, 0, "jacobian");
}
