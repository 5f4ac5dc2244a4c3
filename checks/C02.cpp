// @sources src/matrix/fir-filter.cpp src/matrix/operator.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case feeds a filter entity a history of samples, coefficient and size changes, and compares every output with the convolution sum over a list of the samples seen; distinct = distinct (kind, output)
#include "E_common.hh"
template <class C> struct K;
template <> struct K<double> { static double get(Rng &r, int) { return r.val(); } static bool same(double a, double b) { return a == b; } };
template <> struct K<Mat> { static Mat get(Rng &r, int n) { return gmat(r, n, n); } static bool same(const Mat &a, const Mat &b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; } };
template <class S> struct Sg;
template <> struct Sg<double> { static double get(Rng &r, int) { return r.val(); } static Eigen::Matrix<R, -1, 1> l(double x) { Eigen::Matrix<R, -1, 1> v(1); v(0) = x; return v; } };
template <> struct Sg<Vec> { static Vec get(Rng &r, int n) { return rvec(r, n); } static Eigen::Matrix<R, -1, 1> l(const Vec &x) { return x.cast<R>(); } };
typedef Eigen::Matrix<R, -1, 1> LX;
static LX mul(double k, const LX &x) { return R(k) * x; }
static LX mul(const Mat &k, const LX &x) { return k.cast<R>() * x; }
static LX amul(double k, const LX &x) { return std::fabs((R)k) * x.cwiseAbs(); }
static LX amul(const Mat &k, const LX &x) { return k.cwiseAbs().cast<R>() * x.cwiseAbs(); }
template <class S, class C> static void fir(Case &c, const char *cls) {
  Rng &r = c.rng; EP e = make(cls); int n = r.coin(.1) ? 0 : r.range(1, 6), T = r.coin(.1) ? 60 : r.range(1, 18), t = 0; size_t size = 0; std::vector<C> k; std::vector<S> past;  // newest first
  bool sized = false;
  for (int s = 0; s < T; ++s) {
    if (!sized || r.coin(.08)) {  // new size: the samples are forgotten, the kept coefficients are not
      if (sized || r.coin(.9)) { size = r.coin(.15) ? r.range(7, 20) : r.range(1, 6); cmd(*e, "setSize", {Value((unsigned)size)}); past.clear(); c.log() << "size " << size; c.ev("resize");
        std::vector<int> todo; for (size_t i = 0; i < size; ++i) if (i >= k.size() || r.coin()) todo.push_back(i);
        k.resize(size); r.shuffle(todo); for (int i : todo) { k[i] = K<C>::get(r, n); cmd(*e, "setElement", {Value((unsigned)i), Value(k[i])}); } c.ev("elements", todo.size()); }
      sized = true;
    } else if (size && r.coin(.15)) { int i = r.range(0, size - 1); k[i] = K<C>::get(r, n); cmd(*e, "setElement", {Value((unsigned)i), Value(k[i])}); c.log() << "element " << i; c.ev("element"); }
    if (r.coin(.05)) { unsigned i = size + (r.coin() ? 0 : r.range(0, 5)); c.throws<std::out_of_range>([&] { cmd(*e, "setElement", {Value(i), Value(K<C>::get(r, n))}); }, "element-beyond-the-size"); unsigned z = cmd(*e, "getSize").value(); c.eq((size_t)z, size, "size-kept"); c.ev("refused"); }
    if (size && r.coin(.3)) { int i = r.range(0, size - 1); C v = cmd(*e, "getElement", {Value((unsigned)i)}).value(); c.check(K<C>::same(v, k[i]), "coefficient-read-back"); unsigned z = cmd(*e, "getSize").value(); c.eq((size_t)z, size, "size-read-back"); }
    S x = Sg<S>::get(r, n); t += r.range(1, 3); in<S>(*e, "sin") = x; past.insert(past.begin(), x);
    LX w = LX::Zero(Sg<S>::l(x).size()), a = w; for (size_t i = 0; i < k.size() && i < past.size(); ++i) { w += mul(k[i], Sg<S>::l(past[i])); a += amul(k[i], Sg<S>::l(past[i])); }
    for (int again = r.range(1, 2); again; --again) {  // a second reading at the same time is the same output
      LX g = Sg<S>::l(out<S>(*e)(t)); c.eq(g.size(), w.size(), "output-size");
      for (int i = 0; i < g.size(); ++i) c.check(std::fabs(g(i) - w(i)) <= 1e-13L * (1e-3L + a(i)), "convolution-sum", [&](std::ostream &o) { o << cls << " sample " << s << " component " << i << " got " << (double)g(i) << " expected " << (double)w(i) << " with " << size << " coefficients and " << past.size() << " samples"; });
    }
    c.ev("sample"); c.state(hashM(w.cast<double>().eval()));
  }
}
FAMILY(fir_scalar, 1500, 60000) { fir<double, double>(c, "FIRFilter_double_double"); }
FAMILY(fir_vector, 1000, 40000) { fir<Vec, double>(c, "FIRFilter_Vector_double"); }
FAMILY(fir_matrix, 600, 20000) { fir<Vec, Mat>(c, "FIRFilter_Vector_Matrix"); }
// two filters with the same coefficients, set one by one in any order, one of them after a detour, agree
FAMILY(linear, 500, 20000) {
  Rng &r = c.rng; EP a = make("FIRFilter_Vector_double"), b = make("FIRFilter_Vector_double"), d = make("FIRFilter_Vector_double"); int n = r.range(1, 4); unsigned z = r.range(1, 7); Vec k = rvec(r, z);
  for (auto *e : {a.get(), b.get(), d.get()}) cmd(*e, "setSize", {Value(e == b.get() ? 9u : z)});
  in<Vec>(*b, "sin") = rvec(r, n); for (unsigned i = 0; i < 9; ++i) cmd(*b, "setElement", {Value(i), Value(r.val())}); out<Vec>(*b)(1); cmd(*b, "setSize", {Value(z)});
  std::vector<unsigned> o; for (unsigned i = 0; i < z; ++i) o.push_back(i);
  for (auto *e : {a.get(), b.get(), d.get()}) { r.shuffle(o); for (unsigned i : o) cmd(*e, "setElement", {Value(i), Value(k(i))}); }
  double s = r.gauss(), q = r.gauss();
  for (int t = 2; t < 14; ++t) { Vec x = gvec(r, n), y = gvec(r, n); in<Vec>(*a, "sin") = x; in<Vec>(*b, "sin") = y; in<Vec>(*d, "sin") = s * x + q * y; Vec ga = out<Vec>(*a)(t), gb = out<Vec>(*b)(t), gd = out<Vec>(*d)(t);
    closeM(c, gd, Vec(s * ga + q * gb), 1e-11 * (1 + 100 * k.cwiseAbs().maxCoeff()), "linearity"); c.ev("sample"); c.state(hashM(gd)); }
}
FAMILY(convolution, 1200, 40000) {
  Rng &r = c.rng; EP e = make("ConvolutionTemporal"); int n = r.range(1, 6), m = r.coin(.2) ? r.range(8, 25) : r.range(1, 7); std::vector<Vec> past; Mat k = gmat(r, n, m);
  for (int t = 1, T = r.range(2, 20); t <= T; ++t) {
    if (r.coin(.2)) { if (r.coin(.4)) m = r.range(1, 8); k = gmat(r, n, m); c.ev("coefficients"); } in<Mat>(*e, "sin2") = k;
    Vec x = rvec(r, n); in<Vec>(*e, "sin1") = x; past.insert(past.begin(), x); if ((int)past.size() > m) past.resize(m);  // forgotten ones do not come back
    LX w = LX::Zero(n), a = w; for (int i = 0; i < n; ++i) for (size_t j = 0; j < past.size(); ++j) { w(i) += (R)k(i, j) * past[j](i); a(i) += std::fabs((R)k(i, j) * past[j](i)); }
    Vec g = out<Vec>(*e)(t); c.eq(g.size(), (long)n, "output-size");
    for (int i = 0; i < n; ++i) c.check(std::fabs(g(i) - w(i)) <= 1e-13L * (1e-3L + a(i)), "temporal-convolution", [&](std::ostream &o) { o << "sample " << t << " row " << i << " got " << g(i) << " expected " << (double)w(i); });
    c.ev("sample"); c.state(hashM(g));
  }
}
