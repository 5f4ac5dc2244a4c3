// @sources src/filters/causal-filter.cpp src/filters/filter-differentiator.cpp src/utils/stop-watch.cpp src/debug/debug.cpp
// @rule each case draws filter orders 1..8, coefficients, size, period and a sample history (with filter switches) and checks every sample's residual of the difference equation against the outputs actually reported; distinct = distinct (orders, coefficients, output) observations
// @assume the caller passes vectors of the documented sizes, a0 != 0 and denominators with a non-zero sum (a steady state exists)
#include <sot/core/causal-filter.hh>
#include <sot/core/filter-differentiator.hh>
#include "harness_eigen.hh"
using namespace vh;
using dynamicgraph::sot::CausalFilter;

struct Coefs { Vec b, a; };
static Coefs coefs(Rng &r, int m, int n) {
  Coefs k;
  k.b = gvec(r, m);
  k.a = gvec(r, n);
  switch (r.range(0, 3)) {
    case 0:  // product of stable poles
    case 1: {
      Vec p = Vec::Zero(n); p(0) = 1;
      for (int i = 1; i < n; ++i) {
        double root = r.uni(-.9, .9);
        for (int j = i; j > 0; --j) p(j) -= root * p(j - 1);
      }
      k.a = p * (r.coin() ? 1. : r.uni(.2, 4.) * (r.coin() ? 1 : -1));
      break;
    }
    case 2:  // sparse, distinct integers: any index slip is visible
      for (int i = 0; i < m; ++i) k.b(i) = r.coin(.3) ? 0 : i + 1;
      for (int i = 0; i < n; ++i) k.a(i) = i ? (r.coin(.3) ? 0 : .1 * i) : 2;
      break;
    default: break;
  }
  if (std::fabs(k.a(0)) < .1) k.a(0) = 1.;
  if (std::fabs(k.a.sum()) < .05) k.a(0) += (k.a(0) > 0 ? 1. : -1.);
  return k;
}

struct Model {
  Coefs k; int xs; double dt; bool first = true;
  std::vector<Vec> x, y;  // newest last
  void steady(const Vec &cur) {
    x.assign(16, cur);
    y.assign(16, Vec(cur * (k.b.sum() / k.a.sum())));
  }
  // checks one reported sample and appends it to the history
  void sample(Case &c, const Vec &in, const Vec &out) {
    if (first) { steady(in); first = false; }
    x.push_back(in);
    int m = k.b.size(), n = k.a.size();
    for (int i = 0; i < xs; ++i) {
      double acc = 0, mag = 0;
      for (int j = 0; j < m; ++j) { double t = k.b(j) * x[x.size() - 1 - j](i); acc += t; mag += std::fabs(t); }
      for (int j = 1; j < n; ++j) { double t = -k.a(j) * y[y.size() - j](i); acc += t; mag += std::fabs(t); }
      acc /= k.a(0); mag /= std::fabs(k.a(0));
      c.near(out(i), acc, 1e-10 * (mag + 1e-9), "difference-equation");
      double y1 = y[y.size() - 1](i), y2 = y[y.size() - 2](i), s = std::fabs(out(i)) + std::fabs(y1) + std::fabs(y2) + 1e-9;
      c.near(out(xs + i), (out(i) - y1) / dt, 1e-10 * s / dt, "first-derivative");
      c.near(out(2 * xs + i), (out(i) - 2 * y1 + y2) / dt / dt, 1e-10 * s / dt / dt, "second-derivative");
    }
    y.push_back(out.head(xs));
    c.ev("sample");
  }
};
static bool wild(const Vec &v) { return !(v.cwiseAbs().maxCoeff() < 1e60); }

FAMILY(direct, 6000, 200000) {
  Rng &r = c.rng;
  int xs = r.range(1, 6), m = r.range(1, 8), n = r.range(1, 8);
  if (c.index < 64) { m = 1 + c.index % 8; n = 1 + c.index / 8; }
  double dt = r.pick(std::vector<double>{1., .001, .01, .005, 2.5});
  Model mo; mo.k = coefs(r, m, n); mo.xs = xs; mo.dt = dt;
  c.log() << "m=" << m << " n=" << n << " xs=" << xs << " dt=" << dt << " b=" << str(mo.k.b.transpose()) << " a=" << str(mo.k.a.transpose());
  CausalFilter f(dt, xs, mo.k.b, mo.k.a);
  Vec out = Vec::Constant(3 * xs, NAN);
  int steps = r.range(1, 40);
  Vec cur = gvec(r, xs); int mode = r.range(0, 3);
  for (int t = 0; t < steps; ++t) {
    if (r.coin(.06)) {
      int m2 = r.range(1, 8), n2 = r.range(1, 8);
      if (r.coin(.3)) { m2 = mo.k.b.size(); n2 = mo.k.a.size(); }
      Coefs k2 = coefs(r, m2, n2);
      c.log() << "t=" << t << " switch b=" << str(k2.b.transpose()) << " a=" << str(k2.a.transpose());
      f.switch_filter(k2.b, k2.a);
      mo.k = k2;
      if (!mo.first) mo.steady(Vec(mo.x.back()));
      c.ev("switch");
    }
    if (mode == 0) cur = gvec(r, xs);
    else if (mode == 1 && t == 0) cur = rvec(r, xs);
    else if (mode == 2) { cur = Vec::Zero(xs); if (t == 3) cur(r.range(0, xs - 1)) = 1; }
    else if (mode == 3) cur = rvec(r, xs, 10.);
    c.log() << "t=" << t << " x=" << str(cur.transpose());
    f.get_x_dx_ddx(cur, out);
    mo.sample(c, cur, out);
    if (wild(out)) { c.ev("stopped-unstable"); break; }
  }
  c.state(hashM(out) ^ hashM(mo.k.b) ^ hashM(mo.k.a));
  std::ostringstream o; o << "m=" << m << " n=" << n << " size=" << xs << " steps=" << steps; c.sample(o.str());
}

// a constant input leaves the filter at its steady state from the first sample
FAMILY(steady, 400, 4000) {
  Rng &r = c.rng;
  int xs = r.range(1, 4), m = r.range(1, 8), n = r.range(1, 8);
  Coefs k = coefs(r, m, n);
  Vec x = rvec(r, xs), out(3 * xs);
  CausalFilter f(.5, xs, k.b, k.a);
  Vec want = x * (k.b.sum() / k.a.sum());
  double sc = (k.b.cwiseAbs().sum() + k.a.cwiseAbs().sum()) / std::fabs(k.a(0)) * (x.norm() + want.norm() + 1e-6);
  f.get_x_dx_ddx(x, out);
  c.log() << "b=" << str(k.b.transpose()) << " a=" << str(k.a.transpose()) << " x=" << str(x.transpose());
  closeM(c, out.head(xs), want, 1e-10 * sc, "steady-state");
  closeM(c, out.segment(xs, xs), Vec::Zero(xs), 1e-9 * sc, "steady-state-derivative");
  closeM(c, out.tail(xs), Vec::Zero(xs), 1e-9 * sc, "steady-state-second-derivative");
  c.state(hashM(out) ^ hashM(k.b));
}

// components do not influence each other; two filters do not share anything
FAMILY(independent, 400, 4000) {
  Rng &r = c.rng;
  int xs = r.range(2, 5), m = r.range(1, 6), n = r.range(1, 6);
  Coefs k = coefs(r, m, n);
  CausalFilter f(.1, xs, k.b, k.a);
  std::vector<CausalFilter *> one;
  for (int i = 0; i < xs; ++i) one.push_back(new CausalFilter(.1, 1, k.b, k.a));
  Vec out(3 * xs), o1(3);
  for (int t = 0; t < 15; ++t) {
    Vec x = gvec(r, xs);
    f.get_x_dx_ddx(x, out);
    if (wild(out)) break;
    for (int i = 0; i < xs; ++i) {
      one[i]->get_x_dx_ddx(x.segment(i, 1), o1);
      for (int d = 0; d < 3; ++d) c.near(out(d * xs + i), o1(d), 1e-9 * (std::fabs(o1(d)) + out.head(xs).norm() * std::pow(10., d) + 1e-9), "component-independence");
    }
  }
  for (auto p : one) delete p;
  c.state(hashM(out));
}

FAMILY(differentiator, 300, 6000) {
  Rng &r = c.rng;
  int xs = r.range(1, 5), m = r.range(1, 6), n = r.range(1, 6);
  Model mo; mo.k = coefs(r, m, n); mo.xs = xs; mo.dt = r.pick(std::vector<double>{.001, .1, 1.});
  dynamicgraph::sot::FilterDifferentiator e("fd");
  e.init(mo.dt, xs, mo.k.b, mo.k.a);
  Vec last;
  for (int t = 1; t < 25; ++t) {
    if (r.coin(.05)) {  // configured anew, for another input
      xs = r.range(1, 5); mo = Model(); mo.k = coefs(r, r.range(1, 6), r.range(1, 6)); mo.xs = xs; mo.dt = r.pick(std::vector<double>{.001, .1, 1.});
      e.init(mo.dt, xs, mo.k.b, mo.k.a); c.ev("entity-reinit");
      dynamicgraph::command::Command *g = e.getNewStyleCommand("getTimestep"); double d = g->execute().value(); c.eq(d, mo.dt, "timestep-read-back");
      int z = e.getNewStyleCommand("getSize")->execute().value(); c.eq(z, xs, "size-read-back");
    }
    Vec x = gvec(r, xs);
    if (r.coin(.1)) {
      Coefs k2 = coefs(r, r.range(1, 6), r.range(1, 6));
      e.switch_filter(k2.b, k2.a);
      mo.k = k2;
      if (!mo.first) mo.steady(Vec(mo.x.back()));
      c.ev("entity-switch");
    }
    e.m_xSIN.setConstant(x);
    Vec out(3 * xs);
    int perm = r.range(0, 5);
    for (int q = 0; q < 3; ++q) switch ((q + perm) % 3) {  // any reading order, some signals twice
      case 0: out.head(xs) = e.m_x_filteredSOUT(t); break;
      case 1: out.segment(xs, xs) = e.m_dxSOUT(t); if (perm > 2) c.check(out.segment(xs, xs) == e.m_dxSOUT(t), "reread"); break;
      default: out.tail(xs) = e.m_ddxSOUT(t); break;
    }
    mo.sample(c, x, out);
    last = out;
    if (wild(out)) break;
  }
  c.state(hashM(last));
}
