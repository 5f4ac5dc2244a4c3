// @sources src/matrix/operator.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives an arithmetic, comparison or boolean entity through a history of inputs, parameters and numbers of inputs, and compares each output with the definition evaluated in long double; distinct = distinct (operator, output)
#include "E_common.hh"
#include "matrix/operator.hh"
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> LM;
template <class T> struct Tr;
template <> struct Tr<Vec> { static const char *suf() { return "vector"; } static Vec draw(Rng &r, int n, int) { return rvec(r, n); } static LM l(const Vec &v) { return v.cast<R>(); } };
template <> struct Tr<Mat> { static const char *suf() { return "matrix"; } static Mat draw(Rng &r, int n, int m) { return gmat(r, n, m); } static LM l(const Mat &v) { return v.cast<R>(); } };
template <> struct Tr<double> { static const char *suf() { return "double"; } static double draw(Rng &r, int, int) { return r.val(); } static LM l(double v) { LM m(1, 1); m(0, 0) = v; return m; } };
static void close(Case &c, const LM &g, const LM &w, R scale, const std::string &key) {
  ++c.st.checks; bool ok = g.rows() == w.rows() && g.cols() == w.cols(); for (int i = 0; ok && i < g.size(); ++i) ok = (double)std::fabs(g.data()[i] - w.data()[i]) <= 1e-13 * (double)scale;
  if (!ok) c.fail(key, "got " + str(g.cast<double>()) + " expected " + str(w.cast<double>()));
}
static R mx(const LM &m) { return m.size() ? m.cwiseAbs().maxCoeff() : (R)0; }
// ---- operators with any number of inputs
template <class T> using VA = sot::VariadicAbstract<T, T, int>;
// change the number of inputs in one of the ways offered; names: where each input is found
template <class T> static bool change(Case &c, VA<T> &o, std::vector<std::string> &names) {
  Rng &r = c.rng;
  switch (r.range(0, 5)) {
    case 0: { int n = r.range(0, 6); o.setSignalNumber(n); size_t old = names.size(); names.resize(n); for (int i = old; i < n; ++i) names[i] = "sin" + std::to_string(i); c.log() << "setSignalNumber " << n; c.ev("setSignalNumber"); break; }
    case 1: if (names.size() < 7) { c.eq(o.addSignal(), names.size(), "index-of-new-input"); names.push_back("sin" + std::to_string(names.size())); c.log() << "addSignal"; c.ev("addSignal"); } break;
    case 2: if (names.size() < 7) { std::string n = uname("mine"); c.eq(o.addSignal(n), names.size(), "index-of-new-input"); names.push_back(n); c.log() << "addSignal " << n; c.ev("addSignal-named"); } break;
    case 3: if (!names.empty()) { o.removeSignal(); names.pop_back(); c.log() << "removeSignal"; c.ev("removeSignal"); } break;
    default: c.ev("no-change"); return false;
  }
  c.eq(o.getSignalNumber(), (int)names.size(), "number-of-inputs");
  for (size_t i = 0; i < names.size(); ++i) c.check(dynamic_cast<dg::SignalBase<int> *>(o.getSignalIn(i)) == &o.getSignal(names[i]), "input-found-by-name");
  c.throws<std::exception>([&] { o.getSignalIn(names.size()); }, "input-out-of-range");
  return true;
}
template <class T> static void sums(Case &c) {
  Rng &r = c.rng; dg::Signal<T, int> src(uname("src")); EP e = make(std::string("Add_of_") + Tr<T>::suf()); auto &o = dynamic_cast<VA<T> &>(*e); typedef sot::VariadicOp<sot::AdderVariadic<T>> Op; auto &op = dynamic_cast<Op &>(*e).op;
  std::vector<std::string> names = {"sin0", "sin1"}; int n = r.range(1, 6), m = r.range(1, 4), T_ = r.range(2, 8); std::vector<T> x; Vec k = Vec::Ones(2); x.resize(2);
  for (int i = 0; i < 2; ++i) { x[i] = Tr<T>::draw(r, n, m); in<T>(*e, names[i]) = x[i]; }
  T old0 = Tr<T>::draw(r, n, m); src.setConstant(old0); src.access(1);
  for (int t = 1; t <= T_; ++t) {
    bool fresh = r.coin(.5);
    bool set = r.coin(.4), reset = false;
    if (r.coin(.6)) {
      std::vector<std::string> old = names; bool ch = change(c, o, names);
      if (names.size() != old.size()) { k = Vec::Ones(names.size()); reset = true; } else if (ch) set = true;  // the same number again: not said what becomes of the coefficients
      size_t keep = std::min(old.size(), names.size()); x.resize(names.size()); bool old1 = r.coin(.4);  // an added input may follow a value known for long
      for (size_t i = keep; i < x.size(); ++i) { if (old1) { x[i] = old0; in<T>(*e, names[i]).plug(&src); c.ev("added-on-known-value"); } else { x[i] = Tr<T>::draw(r, n, m); in<T>(*e, names[i]) = x[i]; } }
    }
    // commands that only change coefficients refresh nothing: give fresh inputs with them
    if (set) { k = rvec(r, names.size()); op.setCoeffs(k); c.ev("setCoeffs"); fresh = true; } else if (reset) c.ev("coefficients-reset");
    if (r.coin(.2)) { int bad = names.empty() || r.coin() ? (int)names.size() + 1 : (int)names.size() - 1; c.throws<std::exception>([&] { op.setCoeffs(Vec::Constant(bad, 3.)); }, "wrong-number-of-coefficients"); c.ev("wrong-coefficients"); }
    if (fresh || r.coin(.3)) for (size_t i = 0; i < names.size(); ++i) { x[i] = Tr<T>::draw(r, n, m); in<T>(*e, names[i]) = x[i]; }
    if (names.empty()) continue;
    LM w = Tr<T>::l(x[0]) * (R)k(0); R sc = mx(w); for (size_t i = 1; i < x.size(); ++i) { LM q = Tr<T>::l(x[i]) * (R)k(i); w += q; sc += mx(q); }
    c.log() << "t=" << t << " " << names.size() << " inputs, coefficients " << str(k);
    close(c, Tr<T>::l(out<T>(*e)(t)), w, 1e-300L + sc, "sum"); c.ev("sum"); c.state(hashM(w.cast<double>()));
  }
}
FAMILY(sum_vector, 800, 30000) { sums<Vec>(c); }
FAMILY(sum_matrix, 500, 20000) { sums<Mat>(c); }
FAMILY(sum_double, 500, 20000) { sums<double>(c); }
template <class T> static void products(Case &c) {
  Rng &r = c.rng; EP e = make(std::string("Multiply_of_") + Tr<T>::suf()); auto &o = dynamic_cast<VA<T> &>(*e); std::vector<std::string> names = {"sin0", "sin1"}; int n = r.range(1, 6), T_ = r.range(2, 8);
  for (int t = 1; t <= T_; ++t) {
    if (r.coin(.6)) change(c, o, names);
    std::vector<T> x; for (size_t i = 0; i < names.size(); ++i) { x.push_back(Tr<T>::draw(r, n, 1)); in<T>(*e, names[i]) = x[i]; }
    LM w = x.empty() ? (std::is_same<T, double>::value ? LM(LM::Ones(1, 1)) : LM(0, 1)) : LM(Tr<T>::l(x[0])); for (size_t i = 1; i < x.size(); ++i) w = LM(w.cwiseProduct(Tr<T>::l(x[i])));
    close(c, Tr<T>::l(out<T>(*e)(t)), w, 10 * mx(w), "product"); c.ev("product"); c.state(hashM(w.cast<double>()));
  }
}
FAMILY(product_vector, 500, 20000) { products<Vec>(c); }
FAMILY(product_double, 400, 20000) { products<double>(c); }
FAMILY(booleans, 1200, 40000) {
  Rng &r = c.rng; bool isAnd = r.coin(); EP e = make(isAnd ? "And" : "Or"); auto &o = dynamic_cast<VA<bool> &>(*e); std::vector<std::string> names; std::vector<bool> x; int T_ = r.range(2, 9); double p = r.uni(.1, .9);
  for (int t = 1; t <= T_; ++t) {
    if (t == 1 || r.coin(.5)) { size_t k = names.size(); change(c, o, names); for (size_t i = std::min(k, names.size()); i < names.size(); ++i) in<bool>(*e, names[i]) = false; x.resize(names.size()); for (size_t i = k; i < x.size(); ++i) x[i] = false; }
    if (names.empty()) continue;
    for (size_t i = 0; i < names.size(); ++i) if (r.coin(.7)) { x[i] = r.coin(p); in<bool>(*e, names[i]) = (bool)x[i]; }
    bool w = isAnd; for (bool b : x) w = isAnd ? (w && b) : (w || b);
    c.eq((bool)out<bool>(*e)(t), w, isAnd ? "and" : "or"); c.ev(isAnd ? "and" : "or"); c.state(hashStr(std::string(x.begin(), x.end())) ^ isAnd);
  }
}
// ---- operators with two inputs
template <class T> static void pairs(Case &c) {
  Rng &r = c.rng; EP s = make(std::string("Substract_of_") + Tr<T>::suf()), w = make(std::string("WeightAdd_of_") + Tr<T>::suf()); double g1 = 1, g2 = 1;
  for (int t = 1; t <= 4; ++t) {
    int n = r.range(1, 6), m = r.range(1, 4); T a = Tr<T>::draw(r, n, m), b = r.coin(.1) ? a : Tr<T>::draw(r, n, m); LM la = Tr<T>::l(a), lb = Tr<T>::l(b);
    if (r.coin(.4)) { g1 = r.val(); cmd(*w, "setGain1", {Value(g1)}); } if (r.coin(.4)) { g2 = r.val(); cmd(*w, "setGain2", {Value(g2)}); }
    c.same(cmd(*w, "getGain1").doubleValue(), g1, "getGain1"); c.same(cmd(*w, "getGain2").doubleValue(), g2, "getGain2");
    in<T>(*s, "sin1") = a; in<T>(*s, "sin2") = b; in<T>(*w, "sin1") = a; in<T>(*w, "sin2") = b;
    close(c, Tr<T>::l(out<T>(*s)(t)), la - lb, mx(la) + mx(lb), "difference");
    close(c, Tr<T>::l(out<T>(*w)(t)), la * (R)g1 + lb * (R)g2, mx(la) * std::fabs(g1) + mx(lb) * std::fabs(g2), "weighted-sum"); c.ev("pair"); c.state(hashM(la.template cast<double>()));
  }
}
FAMILY(pair_vector, 300, 10000) { pairs<Vec>(c); }
FAMILY(pair_matrix, 300, 10000) { pairs<Mat>(c); }
FAMILY(pair_double, 300, 10000) { pairs<double>(c); }
FAMILY(comparisons, 1500, 50000) {
  Rng &r = c.rng; EP d = make("CompareDouble"), v = make("CompareVector"), nm = make("Norm_of_vector"); bool any = true, eq = false;
  for (int t = 1; t <= 5; ++t) {
    double a = r.range(-2, 2), b = r.range(-2, 2); in<double>(*d, "sin1") = a; in<double>(*d, "sin2") = b; c.eq((bool)out<bool>(*d)(t), a < b, "compare-doubles");
    if (r.coin(.4)) { any = r.coin(); cmd(*v, "setTrueIfAny", {Value(any)}); } if (r.coin(.4)) { eq = r.coin(); cmd(*v, "setEqual", {Value(eq)}); }
    c.eq(cmd(*v, "getTrueIfAny").boolValue(), any, "getTrueIfAny"); c.eq(cmd(*v, "getEqual").boolValue(), eq, "getEqual");
    int n = r.range(1, 5); Vec x(n), y(n); for (int i = 0; i < n; ++i) { x(i) = r.range(-1, 1); y(i) = r.coin(.3) ? x(i) + (r.coin() ? 1 : 0) : r.range(-1, 1); }
    in<Vec>(*v, "sin1") = x; in<Vec>(*v, "sin2") = y; int k = 0; for (int i = 0; i < n; ++i) k += eq ? x(i) <= y(i) : x(i) < y(i);
    c.eq((bool)out<bool>(*v)(t), any ? k > 0 : k == n, "compare-vectors");
    Vec z = rvec(r, r.range(0, 6)); in<Vec>(*nm, "sin") = z; R s = 0; for (int i = 0; i < z.size(); ++i) s += (R)z(i) * z(i); c.near(out<double>(*nm)(t), std::sqrt(s), 1e-13 * (1 + z.norm()), "norm");
    c.ev(std::string("compare-") + (any ? "any" : "all") + (eq ? "-equal" : "")); c.state(hashM(x) ^ hashM(y) ^ (any * 2 + eq));
  }
}
