// Shared by S01-S04: random stacks of tasks, their realisation with the real
// classes, and a reference solver in extended precision.
#pragma once
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/pool.hh>
#include <memory>
#include "harness_eigen.hh"
#include "reflin.hh"
namespace dg = dynamicgraph;
namespace sot = dynamicgraph::sot;
using namespace vh;
inline ref::M toL(const Mat &m) { return ref::M::fromDoubles(m.data(), (int)m.rows(), (int)m.cols()); }
inline Mat fromL(const ref::M &m) { Mat o(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) o(i, j) = (double)m(i, j); return o; }

inline std::string uname(const char *p) { static int k = 0; return p + std::to_string(++k); }
inline dg::command::Value cmd(dg::Entity &e, const std::string &n, const std::vector<dg::command::Value> &v = {}) {
  dg::command::Command *c = e.getNewStyleCommand(n);
  c->setParameterValues(v);
  return c->execute();
}

// what a task asks for
struct TSpec {
  Mat J; Vec e;          // Jacobian and desired value of the task
  int kind = 0;          // 0 abstract task, 1 task made of generic features, 2 posture task
  bool active = true;    // control selection (kinds 1, 2)
  std::vector<bool> cols;  // joints selected one by one, when not empty
  bool tail = true;        // selection of the joints beyond
  std::vector<int> split;  // kind 1: rows of each feature
  double gain = 1.;
  std::vector<int> dofs;   // kind 2
  Vec state, posture;
  int xrows = -1;          // kind 2: rows of a second feature, if there is one
  bool xfirst = false;     // ... which comes before the posture
  int at() const { return xfirst && xrows > 0 ? xrows : 0; }  // first row of the posture
};
// control selection as flags, and the Jacobian the solver must use
inline sot::Flags flagsOf(const TSpec &t) {
  if (!t.active) return sot::Flags(false);
  if (t.cols.empty()) return sot::Flags(true);
  std::vector<bool> v = t.cols;
  if (!t.tail) return sot::Flags(v);
  v.flip();
  return !sot::Flags(v);
}
inline bool allOn(const TSpec &t) {
  for (bool b : t.cols) if (!b) return false;
  return t.active && (t.cols.empty() || t.tail);
}
inline Mat effJ(const TSpec &t) {
  Mat J = t.J;
  if (t.kind == 0) return J;
  for (int i = 0; i < J.cols(); ++i)
    if (!t.active || (!t.cols.empty() && !(i < (int)t.cols.size() ? t.cols[i] : t.tail))) J.col(i).setZero();
  return J;
}
inline void randCols(Rng &r, int n, TSpec &t) {
  t.cols.clear();
  if (!r.coin(.25)) return;
  int k = r.range(1, n + 2);
  double p = r.pick(std::vector<double>{.3, .7, 1.});
  for (int i = 0; i < k; ++i) t.cols.push_back(r.coin(p));
  t.tail = r.coin();
}
struct SSpec {
  int n = 0;
  bool hasTh = false; double th = 1e-4;
  bool hasQ0 = false; Vec q0;
  bool hasK = false; Mat K;
  double maxSq = std::numeric_limits<double>::max();
  bool accel = false;
  std::vector<TSpec> tasks;
};

inline Mat randJ(Rng &r, int d, int n, const std::vector<TSpec> &above) {
  double sc = r.pick(std::vector<double>{1, 1, 1, 1e-2, 30});
  Mat J;
  if (!d) return Mat(0, n);
  switch (r.range(0, 8)) {
    case 0: J = Mat::Zero(d, n); break;
    case 1: { int k = r.range(1, std::max(1, std::min(d, n) - 1)); J = gmat(r, d, k) * gmat(r, k, n) * sc; break; }
    case 2: J = Mat::Zero(d, n); for (int i = 0; i < d; ++i) J(i, r.range(0, n - 1)) = r.coin() ? 1 : -sc; break;
    case 3: if (!above.empty()) {  // in conflict with a task above
        const Mat &A = above[r.range(0, (int)above.size() - 1)].J;
        J = gmat(r, d, (int)A.rows()) * A; if (r.coin()) J.row(r.range(0, d - 1)) = gmat(r, 1, n); break; }
    // fallthrough
    default: J = gmat(r, d, n) * sc;
  }
  if (d && r.coin(.1)) J.row(r.range(0, d - 1)).setZero();
  if (d > 1 && r.coin(.1)) J.row(0) = J.row(1);
  return J;
}
inline TSpec randTask(Rng &r, int n, const std::vector<TSpec> &above, bool posture = false) {
  TSpec t;
  t.kind = posture ? 2 : r.pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2});
  if (t.kind == 2 && n < 7) t.kind = 1;
  if (t.kind == 2) {
    bool full = posture || r.coin(.6);
    for (int i = 6; i < n; ++i) if (full || r.coin()) t.dofs.push_back(i);
    if (t.dofs.empty()) t.dofs.push_back(n - 1);
    t.state = gvec(r, n); t.posture = gvec(r, n); t.gain = r.uni(.1, 3);
    t.J = Mat::Zero(t.dofs.size(), n); t.e = Vec(t.dofs.size());
    for (size_t i = 0; i < t.dofs.size(); ++i) { t.J(i, t.dofs[i]) = 1; t.e(i) = -(t.state(t.dofs[i]) - t.posture(t.dofs[i])) * t.gain; }
    if (r.coin(posture ? .2 : .1)) {
      t.xrows = r.range(0, 3); t.xfirst = r.coin();
      Mat xJ = randJ(r, t.xrows, n, above); Vec xe = gvec(r, t.xrows);
      xe = -(-xe / t.gain) * t.gain;
      Mat J(t.J.rows() + t.xrows, n); Vec e(J.rows());
      if (t.xfirst) { J << xJ, t.J; e << xe, t.e; } else { J << t.J, xJ; e << t.e, xe; }
      t.J = J; t.e = e;
    }
    t.active = r.coin(.9); randCols(r, n, t);
    return t;
  }
  int d = r.coin(.04) ? 0 : r.coin(.1) ? r.range(1, n + 3) : r.range(1, std::max(1, std::min(n, 5)));
  t.J = randJ(r, d, n, above);
  t.e = r.coin(.1) ? Vec(Vec::Zero(d)) : r.coin(.2) ? rvec(r, d) : gvec(r, d);
  if (t.kind == 1) {
    t.gain = r.pick(std::vector<double>{1, .5, 2, .1}); t.active = r.coin(.85); randCols(r, n, t);
    int left = d; if (!d) t.split.push_back(0); while (left) { int k = r.range(1, left); t.split.push_back(k); left -= k; }
    t.e = -(-t.e / t.gain) * t.gain;
  }
  return t;
}
inline Mat randK(Rng &r, int n) { return fromL(ref::cols(ref::svd(toL(gmat(r, n, n))).U, 0, r.coin(.05) ? 0 : r.range(1, n))); }
inline SSpec randStack(Rng &r, int maxTasks = 5, int nForced = 0) {
  SSpec s;
  s.n = nForced ? nForced : r.coin(.5) ? r.range(7, 12) : r.range(1, 9);
  int m = r.range(0, maxTasks);
  for (int i = 0; i < m; ++i) s.tasks.push_back(randTask(r, s.n, s.tasks));
  s.hasQ0 = m == 0 || r.coin(.3);
  if (s.hasQ0) s.q0 = r.coin(.1) ? Vec(Vec::Zero(s.n)) : Vec(gvec(r, s.n) * (r.coin(.3) ? std::pow(10., r.uni(-6, 1)) : 1.));
  s.hasK = r.coin(.25);
  if (s.hasK) s.K = randK(r, s.n);
  s.hasTh = r.coin(.5);
  if (s.hasTh) s.th = r.pick(std::vector<double>{1e-4, 1e-2, .3, 1., 1e-8});
  s.accel = r.coin(.4);
  if (s.accel && m && s.n > 6 && r.coin(.6)) s.tasks.back() = randTask(r, s.n, s.tasks, true);
  if (r.coin(.25)) s.maxSq = r.pick(std::vector<double>{.1, 1., 10., 100.});
  return s;
}

// the reference: projectors instead of kernel bases, extended precision
struct Sol {
  Vec u; Vec base; std::vector<bool> skipped; std::vector<int> rank;
  std::vector<int> retainedDim;   // dimension of the null space left after each level
  ref::M P;
  double amp = 1;     // how much the problem amplifies rounding
  bool unsure = false;  // a decision (rank, skip) hangs on rounding
  int skips = 0; bool accelerated = false;
};
inline Sol reference(const SSpec &s) {
  using namespace ref;
  Sol o;
  M u = s.hasQ0 ? toL(s.q0) : M(s.n, 1);
  M P = identity(s.n);
  int left = s.n;
  if (s.hasK && s.K.rows() == s.n) { M K = toL(s.K); P = mul(K, tr(K)); left = (int)s.K.cols(); }
  for (size_t i = 0; i < s.tasks.size(); ++i) {
    const TSpec &t = s.tasks[i];
    if (left == 0) break;
    if (!t.J.rows()) { o.rank.push_back(0); o.skipped.push_back(false); o.retainedDim.push_back(left); continue; }
    M J = toL(effJ(t));
    bool full = i + 1 == s.tasks.size() && s.accel && t.kind == 2 && t.xrows < 0 && allOn(t) && (int)t.dofs.size() == s.n - 6;
    M res = add(toL(t.e), mul(J, u), -1);
    if (full) {
      u = add(u, mul(P, mul(tr(J), res)));
      o.accelerated = true; o.skipped.push_back(false); o.rank.push_back(-1); o.retainedDim.push_back(-1);
      continue;
    }
    Svd d = svd(mul(J, P));
    int rk = 0;
    while (rk < (int)d.s.size() && d.s[rk] > (L)s.th) ++rk;
    double nj = 1 + (double)norm(J);
    double smin = rk ? (double)d.s[rk - 1] : 1., next = rk < (int)d.s.size() ? (double)d.s[rk] : 0.;
    if (rk > left) o.unsure = true;
    if (rk && smin - s.th < 1e-7 * nj * o.amp) o.unsure = true;
    if (rk < (int)d.s.size() && s.th - next < 1e-11 * nj * o.amp) o.unsure = true;
    M V = cols(d.V, 0, rk), step(s.n, 1);
    if (rk) {
      M y = mul(tr(cols(d.U, 0, rk)), res);
      for (int k = 0; k < rk; ++k) y(k, 0) /= d.s[k];
      step = mul(V, y);
      o.amp *= 1 + nj / std::min(smin, std::max(smin - next, 1e-300));
    }
    double sq = (double)(norm(step) * norm(step));
    if (std::fabs(sq - s.maxSq) < 1e-6 * s.maxSq) o.unsure = true;
    o.rank.push_back(rk);
    bool skip = sq > s.maxSq;
    o.skipped.push_back(skip);
    if (skip) { ++o.skips; o.retainedDim.push_back(left); continue; }
    u = add(u, step);
    if (rk) P = add(P, mul(V, tr(V)), -1);
    left -= rk;
    o.retainedDim.push_back(left);
  }
  o.u = fromL(u); o.P = P;
  if (!(o.amp < 3e6)) o.unsure = true;
  if (!(o.u.norm() < 1e7)) o.unsure = true;
  return o;
}
inline double tolOf(const Sol &o, const SSpec &s) {
  double sc = 1 + o.u.norm();
  for (auto &t : s.tasks) sc += t.e.norm();
  return 2e-13 * o.amp * sc + 1e-12 * sc;
}

// an abstract task with settable outputs
struct PlainTask : public sot::TaskAbstract {
  Mat J; Vec e;
  PlainTask(const std::string &n) : sot::TaskAbstract(n) {
    taskSOUT.setFunction([this](sot::VectorMultiBound &v, int) -> sot::VectorMultiBound & {
      v.resize(e.size()); for (int i = 0; i < e.size(); ++i) v[i] = e(i); return v; });
    jacobianSOUT.setFunction([this](Mat &m, int) -> Mat & { m = J; return m; });
  }
  void set(const TSpec &t) { J = t.J; e = t.e; taskSOUT.setReady(); jacobianSOUT.setReady(); }
};
// one realised task; can be given another specification of the same kind
struct RTask {
  int kind;
  std::string name;
  std::unique_ptr<PlainTask> plain;
  std::unique_ptr<sot::Task> task;
  std::vector<std::unique_ptr<sot::FeatureGeneric>> feats;
  std::unique_ptr<sot::FeaturePosture> post;
  bool first = false;
  RTask(const TSpec &t) : kind(t.kind), name(uname("task")) {
    if (kind == 0) plain.reset(new PlainTask(name));
    else task.reset(new sot::Task(name));
    set(t);
  }
  sot::TaskAbstract &get() { return plain ? (sot::TaskAbstract &)*plain : (sot::TaskAbstract &)*task; }
  void set(const TSpec &t) {
    if (kind == 0) { plain->set(t); return; }
    task->controlGainSIN = t.gain;
    task->controlSelectionSIN = flagsOf(t);
    if (kind == 1) {
      bool same = feats.size() == t.split.size();
      for (size_t i = 0; same && i < feats.size(); ++i) same = feats[i]->errorSIN.accessCopy().size() == t.split[i];
      if (!same) {
        task->clearFeatureList(); feats.clear();
        for (size_t i = 0; i < t.split.size(); ++i) feats.emplace_back(new sot::FeatureGeneric(uname("feat")));
      }
      int row = 0;
      for (size_t i = 0; i < feats.size(); ++i) {
        feats[i]->errorSIN = Vec(-t.e.segment(row, t.split[i]) / t.gain);
        feats[i]->jacobianSIN = Mat(t.J.middleRows(row, t.split[i]));
        if (!same) task->addFeature(*feats[i]);
        row += t.split[i];
      }
      return;
    }
    bool fresh = !post;
    if (fresh) {
      post.reset(new sot::FeaturePosture(uname("posture")));
    }
    if (fresh || (t.xrows >= 0) != !feats.empty() || t.xfirst != first) {
      task->clearFeatureList();
      if (t.xrows < 0) feats.clear(); else if (feats.empty()) feats.emplace_back(new sot::FeatureGeneric(uname("feat")));
      first = t.xfirst;
      if (t.xrows >= 0 && first) task->addFeature(*feats[0]);
      task->addFeature(*post);
      if (t.xrows >= 0 && !first) task->addFeature(*feats[0]);
    }
    if (t.xrows >= 0) {
      int row = t.xfirst ? 0 : (int)t.dofs.size();
      feats[0]->errorSIN = Vec(-t.e.segment(row, t.xrows) / t.gain);
      feats[0]->jacobianSIN = Mat(t.J.middleRows(row, t.xrows));
    }
    static_cast<dg::SignalPtr<Vec, int> &>(post->getSignal("state")).setConstant(t.state);
    static_cast<dg::SignalPtr<Vec, int> &>(post->getSignal("posture")).setConstant(t.posture);
    for (int i = 0; i < t.state.size(); ++i)
      post->selectDof(i, std::find(t.dofs.begin(), t.dofs.end(), i) != t.dofs.end());
    post->errorSOUT.setReady(); post->dimensionSOUT.setReady();
  }
};
struct Real {
  sot::Sot s;
  std::vector<std::unique_ptr<RTask>> tasks;
  Real() : s(uname("sot")) {}
  void options(const SSpec &p) {
    s.defineNbDof(p.n);
    if (p.hasQ0) s.q0SIN = p.q0; else { s.q0SIN.unplug(); s.controlSOUT.setReady(); }
    if (p.hasK) s.proj0SIN = p.K; else { s.proj0SIN.unplug(); s.controlSOUT.setReady(); }
    s.inversionThresholdSIN = p.hasTh ? p.th : 1e-4;
    cmd(s, "setMaxControlIncrementSquaredNorm", {dg::command::Value(p.maxSq)});
    cmd(s, "enablePostureTaskAcceleration", {dg::command::Value(p.accel)});
  }
  explicit Real(const SSpec &p) : s(uname("sot")) {
    s.defineNbDof(p.n);
    if (p.hasQ0) s.q0SIN = p.q0;
    if (p.hasK) s.proj0SIN = p.K;
    if (p.hasTh) s.inversionThresholdSIN = p.th;
    if (p.maxSq != std::numeric_limits<double>::max()) cmd(s, "setMaxControlIncrementSquaredNorm", {dg::command::Value(p.maxSq)});
    if (p.accel) cmd(s, "enablePostureTaskAcceleration", {dg::command::Value(true)});
    for (auto &t : p.tasks) { tasks.emplace_back(new RTask(t)); s.push(tasks.back()->get()); }
  }
  Vec control(int t) { return s.controlSOUT(t); }
};
inline void logSpec(Case &c, const SSpec &s) {
  c.log() << "n " << s.n << " th " << s.th << " max " << s.maxSq << " accel " << s.accel;
  if (s.hasQ0) c.log() << "q0 " << str(s.q0);
  if (s.hasK) c.log() << "K " << str(s.K);
  for (auto &t : s.tasks) c.log() << "task kind " << t.kind << " selection " << flagsOf(t) << (t.active && t.tail ? "1.." : "0..") << " gain " << t.gain << " J " << str(t.J) << " e " << str(t.e.transpose());
}
inline uint64_t hashSpec(const SSpec &s) {
  uint64_t h = s.n;
  for (auto &t : s.tasks) h = mix(h ^ hashM(t.J)) ^ mix(hashM(t.e) + t.kind);
  return h;
}
