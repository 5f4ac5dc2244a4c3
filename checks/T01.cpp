// @sources src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives one task through random sequences of adding and clearing features, changing their values, Jacobians, selections, references and error rates, gains and feed-forward, and compares every output with the stacked model; distinct = distinct (history, values)
#include <sot/core/task.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/exception-task.hh>
#include "harness_eigen.hh"
namespace dg = dynamicgraph; namespace sot = dynamicgraph::sot;
using namespace vh; using dg::command::Value;
static std::string uname(const char *p) { static int k = 0; return p + std::to_string(++k); }
static Value cmd(dg::Entity &e, const std::string &n, const std::vector<Value> &v = {}) { auto *c = e.getNewStyleCommand(n); c->setParameterValues(v); return c->execute(); }

struct Feat {
  sot::FeatureGeneric f, ref;
  int dim, nc; Vec e, edes, edot; Mat J; std::vector<bool> sel; bool hasRef = false;
  Feat(Rng &r, int n) : f(uname("f")), ref(uname("r")), dim(r.range(1, 5)), nc(n), sel(dim, true) { values(r); select(r); }
  void values(Rng &r) { e = gvec(r, dim); J = gmat(r, dim, nc); f.errorSIN = e; f.jacobianSIN = J; }
  void select(Rng &r) { for (int i = 0; i < dim; ++i) sel[i] = r.coin(.8); f.selectionSIN = sot::Flags(sel); }
  void reference(Rng &r) {
    edes = gvec(r, dim); edot = gvec(r, dim); ref.errorSIN = edes; ref.errordotSIN = edot;
    if (!hasRef) f.setReference(&ref);
    hasRef = true;
  }
  Vec E() const { return pick(hasRef ? Vec(e - edes) : e); }
  Vec D() const { return pick(hasRef ? Vec(-edot) : Vec(Vec::Zero(dim))); }
  Mat JJ() const { Mat m(0, nc); for (int i = 0; i < dim; ++i) if (sel[i]) { Mat k(m.rows() + 1, nc); k << m, J.row(i); m = k; } return m; }
  Vec pick(const Vec &v) const { Vec o(0); for (int i = 0; i < dim; ++i) if (sel[i]) { o.conservativeResize(o.size() + 1); o(o.size() - 1) = v(i); } return o; }
};
static Vec single(Case &c, const sot::VectorMultiBound &v) {
  Vec o(v.size());
  for (size_t i = 0; i < v.size(); ++i) { c.check(v[i].getMode() == sot::MultiBound::MODE_SINGLE, "entry-kind"); o(i) = v[i].getSingleBound(); }
  return o;
}
FAMILY(stacking, 3000, 80000) {
  Rng &r = c.rng;
  sot::Task task(uname("task"));
  int n = r.range(1, 6), t = 0, steps = r.range(2, 14);
  std::vector<std::unique_ptr<Feat>> all;
  int m = r.range(1, 5);
  for (int i = 0; i < m; ++i) all.emplace_back(new Feat(r, n));
  std::vector<int> list; double gain = r.gauss(); bool ff = false, listOnly = true;
  task.controlGainSIN = gain;
  for (const char *n : {"controlGain", "damping", "controlSelec", "error", "errorTimeDerivative", "task", "jacobian"})
    c.check(task.hasSignal(n), "signal-exposed", [&](std::ostream &o) { o << "no signal " << n; });
  uint64_t hist = n; std::string trail;
  for (int k = 0; k < steps; ++k) {
    int op = k == 0 ? 0 : r.range(0, 12), i = r.range(0, m - 1);
    hist = mix(hist ^ (op * 32 + i)); trail += " " + std::to_string(op);
    c.log() << "op " << op << " feature " << i;
    switch (op) {
      case 0: case 1: {
        int cnt = k == 0 ? r.range(0, m) : 1;
        std::vector<int> ids; for (int j = 0; j < m; ++j) ids.push_back(j); r.shuffle(ids);
        if (k) ids[0] = i;
        for (int j = 0; j < cnt; ++j) {
          if (std::find(list.begin(), list.end(), ids[j]) != list.end()) continue;
          if (r.coin()) task.addFeature(all[ids[j]]->f); else cmd(task, "add", {Value(all[ids[j]]->f.getName())});
          list.push_back(ids[j]); c.ev("add");
        }
        break; }
      case 2: if (r.coin(.5)) { if (r.coin()) task.clearFeatureList(); else cmd(task, "clear"); list.clear(); c.ev("clear"); } break;
      case 3: case 4: all[i]->values(r); c.ev("values"); break;
      case 5: all[i]->select(r); c.ev("select"); break;
      case 6: all[i]->reference(r); c.ev("reference"); break;
      case 7: gain = r.val(); task.controlGainSIN = gain; c.ev("gain"); break;
      case 8: ff = r.coin(); if (r.coin()) task.setWithDerivative(ff); else cmd(task, "setWithDerivative", {Value(ff)}); task.taskSOUT.setReady(); c.ev("feed-forward"); break;
      case 10: if (all[i]->hasRef) { all[i]->edot = gvec(r, all[i]->dim); all[i]->ref.errordotSIN = all[i]->edot; c.ev("error-rate-only"); } break;
      case 11: {  // a feature that is in no list any more can be destroyed, and replaced by another
        if (std::find(list.begin(), list.end(), i) != list.end()) { if (r.coin(.5)) break; cmd(task, "clear"); list.clear(); }
        all[i].reset(); all[i].reset(new Feat(r, n)); if (r.coin(.3)) { task.addFeature(all[i]->f); list.push_back(i); }
        c.ev("destroyed"); break; }
      case 12: {  // the selection signal of the task takes what the selection operations give it
        std::vector<bool> x(3); for (int q = 0; q < 3; ++q) x[q] = r.coin();
        sot::Flags fx(x); task.setControlSelection(fx);
        auto now = [&] { return sot::Flags(task.controlSelectionSIN(t)); };
        for (int q = 0; q < 3; ++q) c.eq((bool)now()(q), (bool)x[q], "selection-set");
        for (int k = r.range(0, 2); k > 0; --k) {  // adding keeps what is selected already
          std::vector<bool> y(3); for (int q = 0; q < 3; ++q) { y[q] = r.coin(.4); x[q] = x[q] || y[q]; }
          task.addControlSelection(sot::Flags(y));
          for (int q = 0; q < 3; ++q) c.eq((bool)now()(q), (bool)x[q], "selection-added");
          c.ev("selection-added");
        }
        task.clearControlSelection();
        for (int q = 0; q < 3; ++q) c.eq((bool)now()(q), false, "selection-cleared");
        c.ev("selection"); break; }
      default: n = r.range(1, 6); for (auto &f : all) { f->nc = n; f->values(r); } c.ev("width");
    }
    std::string want = "["; for (int x : list) want += "'" + all[x]->f.getName() + "',"; want += "]";
    std::string got = cmd(task, "list").value(); c.eq(got, want, "feature-list");
    bool gotff = cmd(task, "getWithDerivative").value(); c.eq(gotff, ff, "feed-forward-flag"); c.eq(task.getWithDerivative(), ff, "feed-forward-flag");
    if (r.coin(.25)) { listOnly = listOnly && op <= 2; continue; }
    // after a change of the list alone, the outputs read at the same time show the new list
    bool same = t > 0 && listOnly && op <= 2 && r.coin(.7);
    if (!same) ++t;
    listOnly = true;
    if (list.empty()) {
      c.throws<std::exception>([&] { task.errorSOUT(t); }, "empty-list-error");
      c.throws<std::exception>([&] { task.jacobianSOUT(t); }, "empty-list-jacobian");
      task.errorSOUT.setReady(); task.jacobianSOUT.setReady(); task.taskSOUT.setReady(); task.errorTimeDerivativeSOUT.setReady(); listOnly = false;
      c.ev("empty"); continue;
    }
    Vec E(0), D(0); Mat J(0, n);
    for (int x : list) {
      Vec e = all[x]->E(), d = all[x]->D(); Mat j = all[x]->JJ();
      Vec a(E.size() + e.size()); a << E, e; E = a; Vec b(D.size() + d.size()); b << D, d; D = b;
      Mat q(J.rows() + j.rows(), n); q << J, j; J = q;
    }
    Vec T = -gain * E; if (ff) T -= D;
    std::vector<int> order{0, 1, 2, 3}; r.shuffle(order);  // outputs may be read in any order
    for (int o : order) switch (o) {
      case 0: closeM(c, task.errorSOUT(t), E, 0, "error"); break;
      case 1: closeM(c, task.jacobianSOUT(t), J, 0, "jacobian"); break;
      case 2: closeM(c, task.errorTimeDerivativeSOUT(t), D, 0, "error-rate"); break;
      default: if (same) c.ev("same-time");
        closeM(c, single(c, task.taskSOUT(t)), T, 1e-13 * (1 + T.norm() + E.norm() * std::fabs(gain)), "desired-velocity");
    }
    c.ev("evaluated"); c.ev("rows", E.size());
    c.state(mix(hist ^ hashM(E)));
  }
  c.sample(trail);
}
FAMILY(incompatible, 400, 4000) {
  Rng &r = c.rng;
  sot::Task task(uname("task"));
  Feat a(r, r.range(1, 5)), b(r, 0 + r.range(6, 9));
  task.addFeature(a.f); if (r.coin()) task.jacobianSOUT(1);
  task.addFeature(b.f); task.controlGainSIN = 1.;
  c.throws<std::exception>([&] { task.jacobianSOUT(2); }, "different-widths-refused");
  // an unknown feature name is refused and adds nothing
  c.throws<std::exception>([&] { cmd(task, "add", {Value(uname("nobody"))}); }, "unknown-feature");
  c.eq(task.getFeatureList().size(), (size_t)2, "list-unchanged");
  task.clearFeatureList(); task.addFeature(b.f);
  closeM(c, task.jacobianSOUT(3), b.JJ(), 0, "usable-after-error");
  std::ostringstream os; task.writeGraph(os);
  c.eq(os.str(), "\t\"" + b.f.getName() + "\" -> \"" + task.getName() + "\"\n", "graph");
  c.ev("refused"); c.state(hashM(a.J));
}
