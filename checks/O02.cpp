// @sources src/matrix/operator.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case builds a network of composition, inversion and twist entities over random group elements and compares every output with an independent long double product, or two networks that must agree; distinct = distinct elements
#include "E_common.hh"
#include "matrix/operator.hh"
template <class T> static sot::VariadicAbstract<T, T, int> &var(dg::Entity &e) { return dynamic_cast<sot::VariadicAbstract<T, T, int> &>(e); }
typedef Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> LM;
static LM lm(const Mat &m) { return m.cast<R>(); }
static LM twist(const L4 &m) { LM x = LM::Zero(6, 6); L3 r = m.topLeftCorner<3, 3>(); x.topLeftCorner(3, 3) = r; x.bottomRightCorner(3, 3) = r; x.topRightCorner(3, 3) = hat(m.topRightCorner<3, 1>()) * r; return x; }
// one group: how to draw an element, view it as a matrix, and which entities multiply and invert it
struct HomoG { typedef MH T; static const char *mul() { return "Multiply_of_matrixHomo"; } static const char *inv() { return "Inverse_of_matrixHomo"; }
  static T draw(Rng &r, int) { return pose(r); } static LM mat(const T &m) { return lm(m.matrix()); } };
struct RotG { typedef sot::MatrixRotation T; static const char *mul() { return "Multiply_of_matrixrotation"; } static const char *inv() { return "Inverse_of_matrixrotation"; }
  static T draw(Rng &r, int) { return rrot(r); } static LM mat(const T &m) { return lm(m); } };
struct TwistG { typedef sot::MatrixTwist T; static const char *mul() { return "Multiply_of_matrixtwist"; } static const char *inv() { return "Inverse_of_matrixtwist"; }
  static T draw(Rng &r, int) { return twist(L(pose(r))).cast<double>(); } static LM mat(const T &m) { return lm(m); } };
struct MatG { typedef dg::Matrix T; static const char *mul() { return "Multiply_of_matrix"; } static const char *inv() { return "Inverse_of_matrix"; }
  static T draw(Rng &r, int n) { Mat q = Eigen::HouseholderQR<Mat>(gmat(r, n, n)).householderQ(), p = Eigen::HouseholderQR<Mat>(gmat(r, n, n)).householderQ(); Vec d(n); for (int i = 0; i < n; ++i) d(i) = std::exp(r.uni(-1.5, 1.5)) * (r.coin() ? 1 : -1); return q * d.asDiagonal() * p; }
  static LM mat(const T &m) { return lm(m); } };
// the quaternion is compared through its left-multiplication matrix: sign included
struct QuatG { typedef sot::VectorQuaternion T; static const char *mul() { return "Multiply_of_quaternion"; } static const char *inv() { return "Inverse_of_unitquat"; }
  static T draw(Rng &r, int) { T q(rrot(r)); if (r.coin()) q.coeffs() *= -1; return q; }
  static LM mat(const T &q) { R x = q.x(), y = q.y(), z = q.z(), w = q.w(); LM m(4, 4); m << w, -z, y, x, z, w, -x, y, -y, x, w, z, -x, -y, -z, w; return m; } };
static void close(Case &c, const LM &g, const LM &w, const std::string &key) {
  ++c.st.checks; if (g.rows() != w.rows() || g.cols() != w.cols() || !((double)(g - w).cwiseAbs().maxCoeff() <= 1e-9 * (1 + (double)w.cwiseAbs().maxCoeff()))) c.fail(key, "got " + str(g.cast<double>()) + " expected " + str(w.cast<double>()));
}
template <class G> static void group(Case &c) {
  typedef typename G::T T; Rng &r = c.rng; int n = r.range(1, 6);
  std::vector<std::unique_ptr<dg::Signal<T, int>>> el; for (int i = 0; i < 3; ++i) el.emplace_back(new dg::Signal<T, int>("e"));
  LM A[3]; auto draw = [&](int i) { T x = G::draw(r, n); el[i]->setConstant(x); A[i] = G::mat(x); };
  for (int i = 0; i < 3; ++i) draw(i);
  // (a b) c, a (b c), a b c in one go, products with inverses on either side, inverse of a product
  auto node = [&](const std::vector<dg::SignalBase<int> *> &v) { EP e = make(G::mul()); auto &o = var<T>(*e); o.setSignalNumber((int)v.size()); for (size_t i = 0; i < v.size(); ++i) e->getSignal("sin" + std::to_string(i)).plug(v[i]); return e; };
  auto S = [](EP &e) { return &e->getSignal("sout"); };
  auto inv = [&](dg::SignalBase<int> *s) { EP e = make(G::inv()); e->getSignal("sin").plug(s); return e; };
  EP ab = node({el[0].get(), el[1].get()}), abc1 = node({S(ab), el[2].get()}), bc = node({el[1].get(), el[2].get()}), abc2 = node({el[0].get(), S(bc)});
  EP abc3 = node({el[0].get(), el[1].get(), el[2].get()}), ia = inv(el[0].get()), aia = node({el[0].get(), S(ia)}), iaa = node({S(ia), el[0].get()});
  EP iab = inv(S(ab)), ib = inv(el[1].get()), ibia = node({S(ib), S(ia)}), iia = inv(S(ia)), none = node({}), one = node({el[2].get()});
  int T_ = r.range(1, 4);
  for (int t = 1; t <= T_; ++t) {
    if (t > 1) { for (int i = 0; i < 3; ++i) if (r.coin(.6)) draw(i); }
    auto get = [&](EP &e) { return G::mat(out<T>(*e)(t)); };
    LM I = LM::Identity(A[0].rows(), A[0].cols());
    std::vector<std::function<void()>> q = {
        [&] { close(c, get(ab), A[0] * A[1], "product"); }, [&] { close(c, get(abc1), A[0] * A[1] * A[2], "associative-left"); },
        [&] { close(c, get(abc2), A[0] * A[1] * A[2], "associative-right"); }, [&] { close(c, get(abc3), A[0] * A[1] * A[2], "product-of-three"); },
        [&] { close(c, get(aia), I, "right-inverse"); }, [&] { close(c, get(iaa), I, "left-inverse"); },
        [&] { close(c, get(iab) * (A[0] * A[1]), I, "inverse-of-product"); }, [&] { close(c, get(ibia) * (A[0] * A[1]), I, "product-of-inverses"); },
        [&] { close(c, get(iia), A[0], "inverse-of-inverse"); }, [&] { close(c, get(one), A[2], "product-of-one"); },
        [&] { if (!std::is_same<T, dg::Matrix>::value) close(c, get(none), I, "empty-product"); }};
    r.shuffle(q); for (auto &f : q) f();
    c.ev(G::mul()); c.state(hashM(A[0].template cast<double>()) ^ hashM(A[1].template cast<double>()));
  }
}
FAMILY(homogeneous, 500, 20000) { group<HomoG>(c); }
FAMILY(rotation, 300, 15000) { group<RotG>(c); }
FAMILY(twist, 300, 15000) { group<TwistG>(c); }
FAMILY(matrix, 300, 15000) { group<MatG>(c); }
FAMILY(quaternion, 500, 20000) { group<QuatG>(c); }
// products of any number of elements, the number changing between evaluations
FAMILY(many, 400, 20000) {
  Rng &r = c.rng; EP e = make("Multiply_of_matrixHomo"); auto &o = var<MH>(*e); int T = r.range(2, 6);
  for (int t = 1; t <= T; ++t) {
    int n = r.range(0, 7); o.setSignalNumber(n); LM w = LM::Identity(4, 4);
    for (int i = 0; i < n; ++i) { MH m = pose(r); in<MH>(*e, "sin" + std::to_string(i)) = m; w = w * lm(m.matrix()); }
    o.SOUT.setReady();
    close(c, lm(out<MH>(*e)(t).matrix()), w, "product-of-any-number"); c.ev("count-" + std::to_string(n)); c.state(hashM(w.cast<double>()));
  }
}
// a pose acting on points, a twist matrix acting on velocities, and the maps between them
FAMILY(actions, 900, 40000) {
  Rng &r = c.rng; dg::Signal<MH, int> a("a"), b("b"); dg::Signal<Vec, int> p("p"), xi("xi");
  EP ab = make("Multiply_of_matrixHomo"); ab->getSignal("sin0").plug(&a); ab->getSignal("sin1").plug(&b);
  auto mv = [&](const char *cls, dg::SignalBase<int> *m, dg::SignalBase<int> *v) { EP e = make(cls); e->getSignal("sin1").plug(m); e->getSignal("sin2").plug(v); return e; };
  auto un = [&](const char *cls, dg::SignalBase<int> *m) { EP e = make(cls); e->getSignal("sin").plug(m); return e; };
  EP bp = mv("Multiply_matrixHomo_vector", &b, &p), abp1 = mv("Multiply_matrixHomo_vector", &a, &bp->getSignal("sout")), abp2 = mv("Multiply_matrixHomo_vector", &ab->getSignal("sout"), &p);
  EP Xa = un("HomoToTwist", &a), Xb = un("HomoToTwist", &b), Xab = un("HomoToTwist", &ab->getSignal("sout")), XaXb = make("Multiply_of_matrixtwist");
  XaXb->getSignal("sin0").plug(&Xa->getSignal("sout")); XaXb->getSignal("sin1").plug(&Xb->getSignal("sout"));
  EP v = mv("Multiply_matrixTwist_vector", &Xa->getSignal("sout"), &xi), gen = make("Multiply_matrix_vector"), dbl = make("Multiply_double_vector");
  EP rot = un("HomoToRotation", &a), pos = un("MatrixHomoToPose", &a), cmp = make("Compose_R_and_T"); cmp->getSignal("sin2").plug(&pos->getSignal("sout"));
  int T = r.range(1, 4);
  for (int t = 1; t <= T; ++t) {
    MH A = pose(r), B = pose(r); a = A; b = B; Vec P(4); P << rvec(r, 3), r.coin(.8) ? 1. : 0.; p = P; Vec x = gvec(r, 6); xi = x; LM la = lm(A.matrix()), lb = lm(B.matrix());
    close(c, lm(out<Vec>(*abp2)(t)), la * lb * lm(P), "composed-action"); close(c, lm(out<Vec>(*abp1)(t)), la * lb * lm(P), "successive-actions");
    close(c, lm(out<sot::MatrixTwist>(*XaXb)(t)), twist(L(A) * L(B)), "product-of-twists"); close(c, lm(out<sot::MatrixTwist>(*Xab)(t)), twist(L(A) * L(B)), "twist-of-product");
    sot::MatrixTwist X; X.setConstant(7); sot::buildFrom(A, X); close(c, lm(X), twist(L(A)), "buildFrom");
    // conjugation: hat(X xi) = A hat(xi) A^-1
    Vec y = out<Vec>(*v)(t); L4 H = L4::Zero(), K = L4::Zero(); H.topLeftCorner<3, 3>() = hat(x.tail<3>().cast<R>()); H.topRightCorner<3, 1>() = x.head<3>().cast<R>(); c.eq((int)y.size(), 6, "size");
    K.topLeftCorner<3, 3>() = hat(y.tail<3>().cast<R>()); K.topRightCorner<3, 1>() = y.head<3>().cast<R>(); close(c, K, L(A) * H * linv(L(A)), "twist-is-conjugation");
    M3 Rr = rrot(r); in<Mat>(*cmp, "sin1") = Mat(Rr); LM w = LM::Identity(4, 4); w.topLeftCorner(3, 3) = lm(Rr); w.topRightCorner(3, 1) = lm(A.translation()); close(c, lm(out<MH>(*cmp)(t).matrix()), w, "compose");
    close(c, lm(out<sot::MatrixRotation>(*rot)(t)), la.topLeftCorner(3, 3), "rotation-of-pose");
    int n = r.range(0, 6), m = r.range(0, 6); Mat G = gmat(r, n, m); Vec g = gvec(r, m); double k = r.val(); in<Mat>(*gen, "sin1") = G; in<Vec>(*gen, "sin2") = g; in<double>(*dbl, "sin1") = k; in<Vec>(*dbl, "sin2") = g;
    if (n && m) close(c, lm(out<Vec>(*gen)(t)), lm(G) * lm(g), "matrix-vector"); else c.eq((int)out<Vec>(*gen)(t).size(), n, "matrix-vector-size");
    closeM(c, out<Vec>(*dbl)(t), k * g, 0, "scaled-vector");
    c.ev("action"); c.state(hashM(A.matrix()) ^ hashM(B.matrix()));
  }
}
