// @sources src/matrix/derivator.cpp src/tools/exp-moving-avg.cpp src/tools/gradient-ascent.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives a derivator, averaging or gradient entity through a history of samples, times and parameter changes, reading some outputs twice, and compares every output with the recurrence; distinct = distinct (kind, output)
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, 1> LX; typedef sot::VectorQuaternion Q;
template <class S> struct Sg;
static LX flat(const Mat &m) { LX v(m.size()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v(i * m.cols() + j) = m(i, j); return v; }
template <> struct Sg<double> { static double get(Rng &r, int, int) { return r.val(); } static LX l(double x) { LX v(1); v(0) = x; return v; } };
template <> struct Sg<Vec> { static Vec get(Rng &r, int n, int) { return rvec(r, n); } static LX l(const Vec &x) { return x.cast<R>(); } };
template <> struct Sg<Mat> { static Mat get(Rng &r, int n, int m) { Mat x(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x(i, j) = r.val(); return x; } static LX l(const Mat &x) { return flat(x); } };
template <> struct Sg<Q> { static Q get(Rng &r, int, int) { return Q(Eigen::Quaterniond(M3(grot(r)))); } static LX l(const Q &q) { LX v(4); v << q.w(), q.x(), q.y(), q.z(); return v; } };
static void cmp(Case &c, const LX &g, const LX &w, const LX &m, const char *key) {
  c.eq(g.size(), w.size(), "output-size");
  for (int i = 0; i < g.size(); ++i) c.check(std::fabs(g(i) - w(i)) <= 1e-13L * m(i), key, [&](std::ostream &o) { o << "component " << i << " got " << (double)g(i) << " expected " << (double)w(i); });
}
template <class S> static void deriv(Case &c, const char *cls) {
  Rng &r = c.rng; EP e = make(cls); int n = r.range(1, 6), m = r.range(1, 4), t = 0; double dt = 1; LX last; auto &sd = out<double>(*e, "dt"); c.same(sd.access(t), 1., "default-time-step");
  for (int s = 0, T = r.range(1, 15); s < T; ++s) {
    if (r.coin(s ? .1 : .8)) { dt = r.coin(.2) ? 1 : r.pick(std::vector<double>{.005, .001, 2, .5, r.uni(.0005, 3)}); sd = dt; c.same(sd.access(t), dt, "time-step-read-back"); c.ev("time-step"); }
    S x = Sg<S>::get(r, n, m); in<S>(*e, "sin") = x; t += r.range(1, 3); LX u = Sg<S>::l(x), w, a;
    if (s) { w = (u - last) / (R)dt; a = (u.cwiseAbs() + last.cwiseAbs()) / (R)dt; } else { w = LX::Zero(u.size()); a = w; } last = u;
    for (int again = r.range(1, 2); again; --again) cmp(c, Sg<S>::l(out<S>(*e)(t)), w, a, s ? "difference-over-time-step" : "first-output-null");
    c.ev("sample"); c.state(hashM(w.cast<double>().eval()));
  }
}
FAMILY(derivator_double, 700, 30000) { deriv<double>(c, "Derivator_of_double"); }
FAMILY(derivator_vector, 700, 30000) { deriv<Vec>(c, "Derivator_of_Vector"); }
FAMILY(derivator_matrix, 500, 20000) { deriv<Mat>(c, "Derivator_of_Matrix"); }
FAMILY(derivator_quaternion, 500, 20000) { deriv<Q>(c, "Derivator_of_VectorQuaternion"); }
// a block that advances once per time at which it is read, whether its input was refreshed or not
FAMILY(moving_average, 1000, 40000) {
  Rng &r = c.rng; EP e = make("ExpMovingAvg"); int n = r.range(1, 6), t = 0; double al = 0; LX av = LX::Zero(n), mag = av; Vec x;
  for (int s = 0, T = r.range(1, 25); s < T; ++s) {
    if (r.coin(s ? .15 : .85)) for (int twice = r.coin(.3) + 1; twice; --twice) { al = r.pick(std::vector<double>{0, 1, .5, .9, .99, r.uni(), r.uni()}); cmd(*e, "setAlpha", {Value(al)}); c.ev("alpha"); }
    if (!s || r.coin(.7)) { x = rvec(r, n); in<Vec>(*e, "update") = x; c.ev("refreshed"); } else c.ev("held");
    t += r.range(1, 3); av = (R)al * av + (1 - (R)al) * x.cast<R>(); mag = (R)al * mag + (1 - (R)al) * x.cwiseAbs().cast<R>() + LX::Constant(n, 1e-12L);
    for (int again = r.range(1, 2); again; --again) cmp(c, out<Vec>(*e, "average")(t).cast<R>(), av, 30 * mag, "average");
    if (r.coin(.1)) { out<Vec>(*e, "average")(t); c.ev("read-again"); }
    c.ev("sample"); c.state(hashM(av.cast<double>().eval()));
  }
}
FAMILY(gradient, 1000, 40000) {
  Rng &r = c.rng; EP e = make("GradientAscent"); int n = r.range(1, 6), t = 0; LX v = LX::Zero(n), mag = v; Vec g; double k = 0;
  for (int s = 0, T = r.range(1, 25); s < T; ++s) {
    if (!s || r.coin(.7)) { g = rvec(r, n); in<Vec>(*e, "gradient") = g; c.ev("refreshed"); } else c.ev("held");
    if (!s || r.coin(.4)) { k = r.val(); in<double>(*e, "learningRate") = k; }
    t += r.range(1, 3); v += (R)k * g.cast<R>(); mag += std::fabs((R)k) * g.cwiseAbs().cast<R>() + LX::Constant(n, 1e-12L);
    for (int again = r.range(1, 2); again; --again) cmp(c, out<Vec>(*e, "value")(t).cast<R>(), v, 30 * mag, "ascent");
    c.ev("sample"); c.state(hashM(v.cast<double>().eval()));
  }
}
