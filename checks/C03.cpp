// @sources src/matrix/integrator-euler.cpp src/matrix/integrator-abstract.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives an integrator entity (scalar, vector, matrix coefficients) through initialisation, samples, period and coefficient changes, and compares the state and its derivative at every step with an independent recurrence; distinct = distinct (kind, order, output)
#include <sot/core/exception-signal.hh>
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, 1> LX; typedef Eigen::Matrix<R, -1, -1> LM;
template <class S> struct Sg;
template <> struct Sg<double> { static double get(Rng &r, int) { return r.val(); } static LX l(double x) { LX v(1); v(0) = x; return v; } };
template <> struct Sg<Vec> { static Vec get(Rng &r, int n) { return rvec(r, n); } static LX l(const Vec &x) { return x.cast<R>(); } };
template <class C> struct K;
template <> struct K<double> { static double get(Rng &r, int) { return r.val(); } static double one(int) { return 1; } static LM l(double k, int n) { return R(k) * LM::Identity(n, n); } };
template <> struct K<Mat> { static Mat get(Rng &r, int n) { return gmat(r, n, n); } static Mat one(int n) { return Mat::Identity(n, n); } static LM l(const Mat &k, int) { return k.cast<R>(); } };
// a value and the size of the terms it was computed from, for the rounding bound
struct V { LX v, m; };
static V acc(const V &a, const LM &k, const V &b, R s) { return {a.v + s * (k * b.v), a.m + std::fabs(s) * (k.cwiseAbs() * b.m)}; }
template <class S, class C> static void euler(Case &c, const char *cls) {
  Rng &r = c.rng; EP e = make(cls); int n = std::is_same<S, double>::value ? 1 : r.range(1, 5), t = 0; std::vector<C> num, den; std::vector<V> X, Y; double dt = .005; bool ready = false;
  c.same(cmd(*e, "getSamplingPeriod").value(), dt, "default-period");
  LM I = LM::Identity(n, n); int dim = 0;
  auto sizes = [&] { return num.size() == X.size() && den.size() == Y.size(); };
  auto pushN = [&] { C k = K<C>::get(r, n); cmd(*e, "pushNumCoef", {Value(k)}); num.push_back(k); };
  auto pushD = [&](bool one) { C k = one ? K<C>::one(n) : K<C>::get(r, n); cmd(*e, "pushDenomCoef", {Value(k)}); den.push_back(k); };
  auto init = [&] {
    bool id = !den.empty() && K<C>::l(den.back(), n) == I;
    if (num.empty() || den.empty() || !id) { c.throws<dg::ExceptionSignal>([&] { cmd(*e, "initialize"); }, "ill-formed-refused"); c.ev("ill-formed"); return; }
    S x = Sg<S>::get(r, n); in<S>(*e, "sin").setConstant(x); cmd(*e, "initialize"); V x0{Sg<S>::l(x), Sg<S>::l(x).cwiseAbs()}; X.assign(num.size(), x0); Y.assign(den.size(), x0); ready = true; dim = den.size(); c.ev("initialize"); c.log() << "initialize order " << num.size() << "/" << den.size();
  };
  if (r.coin(.1)) init();
  for (int i = r.range(1, 4); i > 0; --i) pushN();
  for (int i = r.range(0, 3); i > 0; --i) pushD(false);
  if (r.coin(.15)) { c.throws<dg::ExceptionSignal>([&] { in<S>(*e, "sin") = Sg<S>::get(r, n); out<S>(*e, r.coin() ? "sout" : "derivativesout")(++t); }, "uninitialised-read"); c.ev("uninitialised"); }
  if (r.coin(.2)) { pushD(false); init(); cmd(*e, "popDenomCoef"); den.pop_back(); if (r.coin()) { pushN(); cmd(*e, "popNumCoef"); num.pop_back(); } }
  ready = false; pushD(true); if (r.coin(.8)) { dt = r.pick(std::vector<double>{.001, .005, .1, 1., .5, r.uni(.001, 2)}); cmd(*e, "setSamplingPeriod", {Value(dt)}); c.same(cmd(*e, "getSamplingPeriod").value(), dt, "period-read-back"); }
  init(); if (!ready) return;
  for (int s = 0, T = r.coin(.05) ? 40 : r.range(1, 12); s < T; ++s) {
    if (r.coin(.04)) { dt = r.uni(.01, 1); cmd(*e, "setSamplingPeriod", {Value(dt)}); c.ev("period"); }
    if (r.coin(.04)) { num.back() = K<C>::get(r, n); cmd(*e, "popNumCoef"); cmd(*e, "pushNumCoef", {Value(num.back())}); c.ev("coefficient"); }
    if (r.coin(.03)) { if (r.coin(.5)) pushN(); else { cmd(*e, "popDenomCoef"); den.pop_back(); if (r.coin()) pushD(false); pushD(true); } 
      if (!sizes()) { in<S>(*e, "sin") = Sg<S>::get(r, n); t += 1; if (r.coin()) { c.throws<dg::ExceptionSignal>([&] { out<S>(*e)(t); }, "order-changed-without-initialisation"); c.ev("order-changed"); } init(); if (!sizes()) return; } }
    S x = Sg<S>::get(r, n); t += r.range(1, 3); in<S>(*e, "sin") = x;
    // X_0 = x, X_i the finite difference of X_{i-1};  Y_n = sum b_i X_i - sum a_i Y_i;  then Y_i += dt Y_{i+1} from the top
    V u{Sg<S>::l(x), Sg<S>::l(x).cwiseAbs()}, old = X[0]; X[0] = u; V z{LX::Zero(n), LX::Zero(n)}; V sum = acc(z, K<C>::l(num[0], n), X[0], 1);
    for (size_t i = 1; i < num.size(); ++i) { V d{(X[i - 1].v - old.v) / (R)dt, (X[i - 1].m + old.m) / (R)dt}; old = X[i]; X[i] = d; sum = acc(sum, K<C>::l(num[i], n), d, 1); }
    int N = den.size() - 1; for (int i = 0; i < N; ++i) sum = acc(sum, K<C>::l(den[i], n), Y[i], -1);
    Y[N] = sum; for (int i = N - 1; i >= 0; --i) Y[i] = acc(Y[i], I, Y[i + 1], dt);
    int order = r.range(0, 3);  // which output is read first, and how often
    auto cmp = [&](const char *sig, const V &w, const char *key) { LX g = Sg<S>::l(out<S>(*e, sig)(t)); c.eq(g.size(), (long)n, "output-size");
      for (int i = 0; i < n; ++i) c.check(std::fabs(g(i) - w.v(i)) <= 1e-12L * (1e-3L + w.m(i)), key, [&](std::ostream &o) { o << cls << " step " << s << " component " << i << " got " << (double)g(i) << " expected " << (double)w.v(i) << " (magnitude " << (double)w.m(i) << ")"; }); };
    auto deriv = [&] { if (N >= 1) cmp("derivativesout", Y[1], "derivative"); else c.throws<dg::ExceptionSignal>([&] { out<S>(*e, "derivativesout")(t); }, "no-derivative"); };
    if (order == 1) deriv(); cmp("sout", Y[0], "state"); if (order >= 2) deriv(); if (order == 3) cmp("sout", Y[0], "state-read-again");
    if (Y[0].m.maxCoeff() > 1e60L) return;
    c.ev("step"); c.state(hashM(Y[0].v.template cast<double>().eval()) ^ (num.size() * 16 + den.size()));
  }
}
FAMILY(scalar, 1500, 60000) { euler<double, double>(c, "IntegratorEulerDoubleDouble"); }
FAMILY(vector, 900, 40000) { euler<Vec, double>(c, "IntegratorEulerVectorDouble"); }
FAMILY(matrix, 600, 20000) { euler<Vec, Mat>(c, "IntegratorEulerVectorMatrix"); }
// closed forms: a single integrator sums its samples; a first-order lag with constant input follows (1-a dt)^k
FAMILY(closed_forms, 300, 10000) {
  Rng &r = c.rng; double dt = r.uni(.001, .5); { EP e = make("IntegratorEulerDoubleDouble"); cmd(*e, "pushNumCoef", {Value(1.)}); cmd(*e, "pushDenomCoef", {Value(0.)}); cmd(*e, "pushDenomCoef", {Value(1.)}); cmd(*e, "setSamplingPeriod", {Value(dt)}); double x = r.gauss(); in<double>(*e, "sin").setConstant(x); cmd(*e, "initialize"); R y = x, m = std::fabs(x);
    for (int t = 1; t <= 100; ++t) { x = r.gauss(); in<double>(*e, "sin") = x; y += dt * x; m += std::fabs(dt * x); c.near(out<double>(*e)(t), y, 1e-13 * (double)m * 10, "pure-integrator"); if (t % 7 == 0) c.near(out<double>(*e, "derivativesout")(t), x, 0, "pure-integrator-derivative"); c.ev("step"); } c.state(hashBytes(&y, 10)); }
  { EP e = make("IntegratorEulerVectorDouble"); double a = r.uni(.1, 1 / dt), x = r.gauss(); cmd(*e, "pushNumCoef", {Value(a)}); cmd(*e, "pushDenomCoef", {Value(a)}); cmd(*e, "pushDenomCoef", {Value(1.)}); cmd(*e, "setSamplingPeriod", {Value(dt)}); in<Vec>(*e, "sin").setConstant(Vec::Constant(2, 0.)); cmd(*e, "initialize");
    for (int t = 1; t <= 60; ++t) { in<Vec>(*e, "sin") = Vec::Constant(2, x); double w = x * (1 - std::pow(1 - a * dt, t)); closeM(c, out<Vec>(*e)(t), Vec::Constant(2, w), 1e-11 * (1 + std::fabs(x)), "first-order-lag"); c.ev("step"); } c.state(hashBytes(&a, 8)); }
}
