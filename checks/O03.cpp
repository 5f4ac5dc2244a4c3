// @sources src/matrix/operator.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp src/matrix/matrix-constant.cpp src/matrix/vector-constant.cpp src/matrix/double-constant.cpp
// @rule each case drives a selector, stack, mix or constant entity through a history of commands and inputs, and compares its output bit for bit with a list model of the elements asked for; distinct = distinct (kind, output)
#include "E_common.hh"
#include "matrix/operator.hh"
static void exact(Case &c, const Mat &g, const Mat &w, const char *k) { closeM(c, g, w, 0, k); }
static Vec tagged(Rng &r, int n, int id) { Vec v(n); for (int i = 0; i < n; ++i) v(i) = id * 1000 + i + (r.coin(.2) ? r.uni() : 0); return v; }
FAMILY(vector_selec, 2500, 80000) {
  Rng &r = c.rng; EP e = make("Selec_of_vector"); int n = r.range(0, 12), T = r.range(1, 6); std::vector<std::pair<int, int>> s;
  for (int t = 1; t <= T; ++t) {
    int k = t == 1 && r.coin(.2) ? 0 : r.range(0, 3);
    for (int i = 0; i < k; ++i) { int a = r.range(0, n), b = r.range(a, n); if (r.coin(.6)) { cmd(*e, "addSelec", {Value(a), Value(b)}); c.ev("addSelec"); } else { cmd(*e, "selec", {Value(a), Value(b)}); s.clear(); c.ev("selec"); } s.push_back({a, b}); c.log() << "segment " << a << " " << b << " of " << s.size(); }
    Vec v = tagged(r, n, t); in<Vec>(*e, "sin") = v; std::vector<double> w; for (auto &p : s) for (int i = p.first; i < p.second; ++i) w.push_back(v(i));
    exact(c, out<Vec>(*e)(t), Eigen::Map<Vec>(w.data(), w.size()), "selected-vector"); c.state(hashM(out<Vec>(*e)(t)));
  }
}
FAMILY(component, 500, 20000) {
  Rng &r = c.rng; EP e = make("Component_of_vector"); int n = r.range(1, 9), k = 0;
  for (int t = 1; t <= 4; ++t) { if (r.coin(.6)) { k = r.range(0, n - 1); cmd(*e, "setIndex", {Value(k)}); } Vec v = tagged(r, n, t); in<Vec>(*e, "sin") = v; c.same(out<double>(*e)(t), v(k), "component"); c.ev("component"); c.state(k * 100 + n); }
}
FAMILY(matrix_selec, 1200, 40000) {
  Rng &r = c.rng; EP e = make("Selec_of_matrix"), k = make("Selec_column_of_matrix"), tr = make("MatrixTranspose"), dg_ = make("MatrixDiagonal"); int n = r.range(0, 6), m = r.range(0, 6), a = 0, b = 0, p = 0, q = 0, a2 = 0, b2 = 0, j = 0;
  for (int t = 1; t <= 5; ++t) {
    if (r.coin(.5)) { a = r.range(0, n); b = r.range(a, n); cmd(*e, "selecRows", {Value(a), Value(b)}); }
    if (r.coin(.5)) { p = r.range(0, m); q = r.range(p, m); cmd(*e, "selecCols", {Value(p), Value(q)}); }
    if (r.coin(.5)) { a2 = r.range(0, n); b2 = r.range(a2, n); cmd(*k, "selecRows", {Value(a2), Value(b2)}); }
    if (m && r.coin(.5)) { j = r.range(0, m - 1); cmd(*k, "selecCols", {Value(j)}); }
    Mat x(n, m); for (int i = 0; i < n; ++i) for (int l = 0; l < m; ++l) x(i, l) = t * 10000 + i * 100 + l;
    in<Mat>(*e, "sin") = x; in<Mat>(*k, "sin") = x; in<Mat>(*tr, "sin") = x;
    exact(c, out<Mat>(*e)(t), x.block(a, p, b - a, q - p), "selected-matrix");
    if (m) exact(c, out<Vec>(*k)(t), x.block(a2, j, b2 - a2, 1), "selected-column");
    Mat xt(m, n); for (int i = 0; i < n; ++i) for (int l = 0; l < m; ++l) xt(l, i) = x(i, l); exact(c, out<Mat>(*tr)(t), xt, "transpose");
    Vec d = tagged(r, r.range(0, 5), t); Mat D = Mat::Zero(d.size(), d.size()); for (int i = 0; i < d.size(); ++i) D(i, i) = d(i); in<Vec>(*dg_, "sin") = d; exact(c, out<Mat>(*dg_)(t), D, "diagonal");
    c.ev("matrix"); c.state(hashM(out<Mat>(*e)(t)));
  }
}
// stack of parts, and its inverse: complementary selections of the stack give the parts back
FAMILY(stack, 1200, 40000) {
  Rng &r = c.rng; EP e = make("Stack_of_vector"), s1 = make("Selec_of_vector"), s2 = make("Selec_of_vector"); s1->getSignal("sin").plug(&e->getSignal("sout")); s2->getSignal("sin").plug(&e->getSignal("sout"));
  int n = r.range(0, 7), m = r.range(0, 7), a = 0, b = 0, p = 0, q = 0;
  for (int t = 1; t <= 5; ++t) {
    if (r.coin(.6)) { a = r.range(0, n); b = r.range(a, n); cmd(*e, "selec1", {Value(a), Value(b)}); }
    if (r.coin(.6)) { p = r.range(0, m); q = r.range(p, m); cmd(*e, "selec2", {Value(p), Value(q)}); }
    Vec x = tagged(r, n, 1), y = tagged(r, m, 2), w(b - a + q - p); w << x.segment(a, b - a), y.segment(p, q - p);
    in<Vec>(*e, "sin1") = x; in<Vec>(*e, "sin2") = y; int l = b - a;
    cmd(*s1, "selec", {Value(0), Value(l)}); cmd(*s2, "selec", {Value(l), Value((int)w.size())});
    exact(c, out<Vec>(*s2)(t), w.tail(q - p), "unstack-second"); exact(c, out<Vec>(*s1)(t), w.head(l), "unstack-first"); exact(c, out<Vec>(*e)(t), w, "stack");
    c.ev("stack"); c.state(hashM(w));
  }
}
FAMILY(mix, 1500, 50000) {
  Rng &r = c.rng; EP e = make("Mix_of_vector"); auto &o = dynamic_cast<sot::VariadicAbstract<Vec, Vec, int> &>(*e); int n = r.range(0, 10); struct G { int sig, i, s; }; std::vector<G> g; std::vector<int> sz(1, n);
  int T = r.range(1, 6);
  for (int t = 1; t <= T; ++t) {
    for (int k = r.range(0, 2); k > 0; --k) { int s = r.range(0, n), i = r.range(0, n - s), sig; 
      std::vector<int> fit; for (size_t q = 1; q < sz.size(); ++q) if (sz[q] == s) fit.push_back(q);
      if (!fit.empty() && r.coin()) sig = r.pick(fit); else { if (r.coin()) o.addSignal(); else o.addSignal(uname("mine")); sig = sz.size(); sz.push_back(s); c.ev("addSignal"); }
      cmd(*e, "addSelec", {Value(sig), Value(i), Value(s)}); g.push_back({sig, i, s}); c.log() << "claim " << sig << " at " << i << " size " << s; c.ev("addSelec"); }
    std::vector<Vec> v; for (size_t q = 0; q < sz.size(); ++q) { v.push_back(tagged(r, sz[q], q)); *o.getSignalIn(q) = v.back(); }
    Vec w = v[0]; for (int x = 0; x < n; ++x) for (auto &k : g) if (x >= k.i && x < k.i + k.s) w(x) = v[k.sig](x - k.i);
    exact(c, out<Vec>(*e)(t), w, "mix"); c.state(hashM(w));
  }
  c.check(&e->getSignal("default") == o.getSignalIn(0), "default-signal");
  if (r.coin(.3)) { cmd(*e, "addSelec", {Value((int)sz.size() + r.range(0, 3)), Value(0), Value(0)}); *o.getSignalIn(0) = tagged(r, n, 9); for (size_t q = 1; q < sz.size(); ++q) *o.getSignalIn(q) = tagged(r, sz[q], q); c.throws<std::exception>([&] { out<Vec>(*e)(T + 1); }, "claim-of-missing-source"); c.ev("missing-source"); }
}
// constants hold what they were last told, and tell those plugged on them
FAMILY(constants, 600, 20000) {
  Rng &r = c.rng; EP v = make("VectorConstant"), m = make("MatrixConstant"), d = make("DoubleConstant"), tr = make("MatrixTranspose"), st = make("Multiply_double_vector");
  tr->getSignal("sin").plug(&m->getSignal("sout")); st->getSignal("sin1").plug(&d->getSignal("sout")); st->getSignal("sin2").plug(&v->getSignal("sout"));
  Vec a; Mat b; double k = 0;
  for (int t = 1; t <= 6; ++t) {
    if (t == 1 || r.coin()) { if (r.coin(.4)) { unsigned n = r.range(0, 5); cmd(*v, "resize", {Value(n)}); a = Vec::Zero(n); c.ev("resize"); } else { a = rvec(r, r.range(0, 5)); cmd(*v, "set", {Value(a)}); c.ev("set"); } }
    if (t == 1 || r.coin()) { if (r.coin(.4)) { unsigned n = r.range(0, 4), q = r.range(0, 4); cmd(*m, "resize", {Value(n), Value(q)}); b = Mat::Zero(n, q); c.ev("resize"); } else { b = gmat(r, r.range(0, 4), r.range(0, 4)); cmd(*m, "set", {Value(b)}); c.ev("set"); } }
    if (t == 1 || r.coin()) { k = r.val(); cmd(*d, "set", {Value(k)}); }
    if (r.coin()) { exact(c, out<Vec>(*v)(t), a, "vector-constant"); exact(c, out<Mat>(*m)(t), b, "matrix-constant"); c.same(out<double>(*d)(t), k, "double-constant"); }
    exact(c, out<Mat>(*tr)(t), b.transpose(), "matrix-constant-plugged"); exact(c, out<Vec>(*st)(t), k * a, "constant-plugged"); c.state(hashM(a) ^ hashM(b));
  }
}
