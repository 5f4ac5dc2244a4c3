// @sources src/task/gain-adaptive.cpp src/task/gain-hyperbolic.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/debug/debug.cpp
// @rule each case configures one gain block through a random history of its settings and evaluates it on errors of random size and norm, comparing every gain with the documented curve and with the gains of smaller and larger errors; distinct = distinct (settings, error)
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>
#include "harness_eigen.hh"
namespace dg = dynamicgraph; namespace sot = dynamicgraph::sot;
using namespace vh; using dg::command::Value;
static std::string uname(const char *p) { static int k = 0; return p + std::to_string(++k); }
static Value cmd(dg::Entity &e, const std::string &n, const std::vector<Value> &v = {}) { auto *c = e.getNewStyleCommand(n); c->setParameterValues(v); return c->execute(); }
static double val(Rng &r) { return r.pick(std::vector<double>{.1, 1., 4.9, 0., 3., r.uni(0, 10), r.uni(0, 1e-2), r.gauss(), 150.}); }
static Vec ofNorm(Rng &r, double x) {
  Vec v = gvec(r, r.range(1, 7));
  if (r.coin(.3)) { v.setZero(); v(r.range(0, (int)v.size() - 1)) = r.coin() ? 1 : -1; }
  while (v.norm() < 1e-3) v = gvec(r, (int)v.size());
  return v * (x / v.norm());
}
FAMILY(adaptive, 6000, 200000) {
  Rng &r = c.rng;
  double z = .1, inf = .1, slope = 1, at = 0, frac = 0; bool point = false, byFactory = false;
  std::unique_ptr<sot::GainAdaptive> g;
  switch (r.range(0, 3)) {
    case 0: z = inf = val(r); slope = 1; g.reset(new sot::GainAdaptive(uname("g"), z)); break;
    case 1: z = val(r); inf = val(r); slope = r.uni(0, 20) * (z < inf ? -1 : 1); g.reset(new sot::GainAdaptive(uname("g"), z, inf, slope)); break;
    default: g.reset(new sot::GainAdaptive(uname("g"))); byFactory = true; break;
  }
  c.check(g->hasSignal("gain") && &g->getSignal("gain") == &g->gainSOUT, "gain-signal-exposed");
  if (byFactory) c.check(g->hasSignal("error") && &g->getSignal("error") == &g->errorSIN, "error-signal-exposed");
  int t = 0, steps = r.range(1, 5);
  for (int k = 0; k < steps; ++k) {
    int op = r.range(0, 5);
    switch (op) {
      case 0: z = inf = val(r); slope = 1; point = false; if (r.coin()) cmd(*g, "setConstant", {Value(z)}); else g->init(z); c.ev("constant"); break;
      case 1: case 2: z = val(r); inf = r.coin(.1) ? z : val(r); slope = r.uni(0, 50) * (z < inf ? -1 : 1); point = false;
        if (r.coin()) cmd(*g, "set", {Value(z), Value(inf), Value(slope)}); else g->init(z, inf, slope); c.ev("limits"); break;
      case 3: case 4: z = val(r); inf = r.coin(.1) ? z : val(r); at = r.pick(std::vector<double>{.01, .1, 1., r.uni(1e-3, 3)}); frac = r.uni(.01, 1); point = true;
        if (r.coin()) cmd(*g, "setByPoint", {Value(z), Value(inf), Value(at), Value(frac)}); else g->initFromPassingPoint(z, inf, at, frac); c.ev("point"); break;
      default: break;
    }
    double a = z - inf, sc = std::fabs(z) + std::fabs(inf) + 1e-3;
    c.log() << "op " << op << " zero " << z << " inf " << inf << " slope " << slope << " point " << point << " at " << at << " frac " << frac;
    auto gain = [&](double x) { g->errorSIN = ofNorm(r, x); c.ev("gain"); return (double)g->gainSOUT(++t); };
    auto curve = [&](double x) { return point ? (a == 0 ? inf : a * std::pow(frac, x / at) + inf) : (a == 0 ? inf : a * std::exp(-slope / a * x) + inf); };
    c.near(gain(0), z, 1e-13 * sc, "gain-at-zero-error");
    std::vector<double> xs{r.uni(0, 1e-3), r.uni(0, .1), r.uni(0, 1), r.uni(0, 10), r.uni(0, 1000)};
    std::sort(xs.begin(), xs.end());
    double last = gain(0);
    for (double x : xs) {
      double y = gain(x);
      c.near(y, curve(x), 1e-10 * sc, "curve");
      c.check(y <= std::max(z, inf) + 1e-12 * sc && y >= std::min(z, inf) - 1e-12 * sc, "between-the-limits", [&](std::ostream &o) { o << y << " not in " << z << " .. " << inf; });
      c.check((z >= inf ? y <= last : y >= last) || std::fabs(y - last) < 1e-12 * sc, "monotone", [&](std::ostream &o) { o << last << " then " << y << " at error " << x; });
      last = y; c.state(hashBytes(&y, 8));
    }
    if (point) { c.near(gain(at), frac * a + inf, 1e-10 * sc, "passes-through-point"); if (frac < .9) c.near(gain(at * 1000), inf, 1e-8 * sc, "far-gain"); }
    else if (a != 0 && slope / a > 0) {
      c.near(gain(60 * a / slope), inf, 1e-12 * sc, "far-gain");
      double h = 1e-5 * a / slope; c.near((gain(h) - gain(0)) / h, -slope, 1e-4 * std::fabs(slope) + 1e-9 * sc / h * 1e-3, "slope-at-zero");
    }
  }
  if (r.coin(.2)) { g->forceConstant(); double y = (g->errorSIN = ofNorm(r, r.uni(0, 3)), g->gainSOUT(++t)); c.near(y, inf, 0, "forced-constant"); c.ev("forced"); }
  // an error that did not change gives the same gain
  double y0 = g->gainSOUT(t), y1 = g->gainSOUT(t); c.same(y0, y1, "repeatable");
}
FAMILY(hyperbolic, 4000, 120000) {
  Rng &r = c.rng;
  double z = .1, inf = .1, slope = 1, dec = 0; int kind = r.range(0, 2);
  std::unique_ptr<sot::GainHyperbolic> g;
  if (kind == 0) g.reset(new sot::GainHyperbolic(uname("h")));
  else if (kind == 1) { z = inf = val(r); g.reset(new sot::GainHyperbolic(uname("h"), z)); }
  else { z = val(r); inf = r.coin(.1) ? z : val(r); slope = r.uni(0, 30) * (z < inf ? -1 : 1); dec = r.coin(.3) ? 0 : r.uni(0, 2); g.reset(new sot::GainHyperbolic(uname("h"), z, inf, slope, dec)); }
  c.check(g->hasSignal("gain") && &g->getSignal("gain") == &g->gainSOUT, "gain-signal-exposed");
  if (kind == 0) c.check(g->hasSignal("error") && &g->getSignal("error") == &g->errorSIN, "error-signal-exposed");
  int t = 0, steps = r.range(1, 4);
  for (int k = 0; k < steps; ++k) {
    if (k) { if (r.coin(.2)) { z = inf = val(r); slope = 1; dec = 0; g->init(z); } else { z = val(r); inf = val(r); slope = r.uni(0, 30) * (z < inf ? -1 : 1); dec = r.uni(0, 2); g->init(z, inf, slope, dec); } }
    double a = z - inf, b = a == 0 ? 0 : slope / a / 2, sc = std::fabs(z) + std::fabs(inf) + 1e-3;
    c.log() << "zero " << z << " inf " << inf << " slope " << slope << " offset " << dec;
    auto gain = [&](double x) { g->errorSIN = ofNorm(r, x); c.ev("gain"); return (double)g->gainSOUT(++t); };
    auto curve = [&](double x) { return a * .5 * (std::tanh(-b * (x - dec)) + 1) + inf; };
    std::vector<double> xs{0, r.uni(0, 1e-2), r.uni(0, 1), r.uni(0, 3), r.uni(0, 100), dec};
    std::sort(xs.begin(), xs.end());
    double last = z;
    for (double x : xs) {
      double y = gain(x);
      c.near(y, curve(x), 1e-10 * sc, "curve");
      c.check(y <= std::max(z, inf) + 1e-12 * sc && y >= std::min(z, inf) - 1e-12 * sc, "between-the-limits");
      c.check((z >= inf ? y <= last : y >= last) || std::fabs(y - last) < 1e-12 * sc, "monotone");
      last = y; c.state(hashBytes(&y, 8));
    }
    c.near(gain(dec), (z + inf) / 2, 1e-10 * sc, "middle-at-offset");
    if (b > 1e-3) c.near(gain(dec + 40 / b), inf, 1e-12 * sc, "far-gain");
  }
  if (r.coin(.2)) { g->forceConstant(); g->errorSIN = ofNorm(r, r.uni(0, 3)); c.near(g->gainSOUT(++t), inf, 0, "forced-constant"); }
}
