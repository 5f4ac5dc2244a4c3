// @sources src/matrix/operator.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case walks a random chain of conversion entities plugged one into the next, feeds it poses or rotations in a random parametrisation, and compares what every link of the chain denotes (an independent long double reading of each representation) with the source; distinct = distinct (chain, pose)
#include "E_common.hh"
// ---- representations
enum Kind { HOMO, PUT, PQ, PRPY, SE3V, MAT4, ROT, RPY, QUAT, UT, NK };
static const char *KN[] = {"homogeneous", "pose+utheta", "pose+quaternion", "pose+rpy", "se3vector", "matrix", "rotation", "rpy", "quaternion", "utheta"};
struct Edge { Kind a, b; const char *cls; };
static const std::vector<Edge> EDGES = {
    {HOMO, PUT, "MatrixHomoToPoseUTheta"}, {PUT, HOMO, "PoseUThetaToMatrixHomo"}, {HOMO, SE3V, "MatrixHomoToSE3Vector"}, {SE3V, HOMO, "SE3VectorToMatrixHomo"},
    {HOMO, PQ, "MatrixHomoToPoseQuaternion"}, {PQ, HOMO, "PoseQuaternionToMatrixHomo"}, {HOMO, PRPY, "MatrixHomoToPoseRollPitchYaw"}, {PRPY, HOMO, "PoseRollPitchYawToMatrixHomo"},
    {PRPY, PUT, "PoseRollPitchYawToPoseUTheta"}, {HOMO, MAT4, "HomoToMatrix"}, {MAT4, HOMO, "MatrixToHomo"}, {HOMO, ROT, "HomoToRotation"},
    {ROT, RPY, "MatrixToRPY"}, {RPY, ROT, "RPYToMatrix"}, {RPY, QUAT, "RPYToQuaternion"}, {QUAT, RPY, "QuaternionToRPY"}, {QUAT, ROT, "QuaternionToMatrix"}, {ROT, QUAT, "MatrixToQuaternion"},
    {ROT, UT, "MatrixToUTheta"}, {UT, QUAT, "UThetaToQuaternion"}};
static L3 axrot(int k, R a) { LV w = LV::Zero(); w(k) = 1; return L3::Identity() + hat(w) * std::sin(a) + hat(w) * hat(w) * (1 - std::cos(a)); }
static L3 rpy2r(R r, R p, R y) { return axrot(2, y) * axrot(1, p) * axrot(0, r); }
static L3 q2r(R x, R y, R z, R w) { L3 m; m << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y); return m; }
static L4 mk(const L3 &r, const Vec &t) { L4 m = L4::Identity(); m.topLeftCorner<3, 3>() = r; m.topRightCorner<3, 1>() = t.head<3>().cast<R>(); return m; }
static const Vec Z3 = Vec::Zero(3);
// what a value of each representation denotes
static L4 denV(Case &c, Kind k, const Vec &v) {
  static const int n[] = {0, 6, 7, 6, 12, 0, 0, 3}; c.eq((int)v.size(), n[k], "size");
  switch (k) {
    case PUT: return mk(rexp(v.tail<3>().cast<R>()), v);
    case PQ: c.near(v.tail<4>().norm(), 1, 1e-9, "unit-quaternion"); return mk(q2r(v(3), v(4), v(5), v(6)), v);
    case PRPY: return mk(rpy2r(v(3), v(4), v(5)), v);
    case RPY: return mk(rpy2r(v(0), v(1), v(2)), Z3);
    default: { L3 r; for (int i = 0; i < 9; ++i) r(i / 3, i % 3) = v(3 + i); return mk(r, v); }
  }
}
static L4 den(Case &c, Kind k, dg::SignalBase<int> &s, int t) {
  switch (k) {
    case HOMO: return L(dynamic_cast<dg::Signal<MH, int> &>(s)(t));
    case MAT4: { const Mat &m = dynamic_cast<dg::Signal<Mat, int> &>(s)(t); c.check(m.rows() == 4 && m.cols() == 4, "size"); return m.cast<R>(); }
    case ROT: { const M3 &m = dynamic_cast<dg::Signal<sot::MatrixRotation, int> &>(s)(t); return mk(m.cast<R>(), Z3); }
    case RPY: return denV(c, k, dynamic_cast<dg::Signal<sot::VectorRollPitchYaw, int> &>(s)(t));
    case QUAT: { const auto &q = dynamic_cast<dg::Signal<sot::VectorQuaternion, int> &>(s)(t); c.near(q.norm(), 1, 1e-9, "unit-quaternion"); return mk(q2r(q.x(), q.y(), q.z(), q.w()), Z3); }
    case UT: { const auto &u = dynamic_cast<dg::Signal<sot::VectorUTheta, int> &>(s)(t); c.near(u.axis().norm(), 1, 1e-9, "unit-axis"); c.check(std::fabs(u.angle()) <= M_PI + 1e-9, "shortest-angle"); return mk(rexp(u.axis().cast<R>() * (R)u.angle()), Z3); }
    default: return denV(c, k, dynamic_cast<dg::Signal<Vec, int> &>(s)(t));
  }
}
// ---- sources: a signal of the representation, valued with a random parametrisation
struct Src {
  Kind k; std::unique_ptr<dg::SignalBase<int>> s; L4 want;
  template <class T> void put(const T &v) { if (!s) s.reset(new dg::Signal<T, int>("src")); static_cast<dg::Signal<T, int> &>(*s).setConstant(v); }
  static double angle(Rng &r) { switch (r.range(0, 7)) { case 0: return 0; case 1: return r.range(-4, 4) * M_PI / 2; case 2: return r.uni(-1, 1) * 1e-7; case 3: return r.range(-2, 2) * M_PI / 2 + r.uni(-1, 1) * 1e-7; default: return r.uni(-4, 4); } }
  void draw(Rng &r) {
    Vec t = rvec(r, 3); L3 m; Vec v;
    switch (k) {
      case PUT: case UT: {
        double th = angle(r); V3 ax = r.coin(.2) ? V3(V3::Unit(r.range(0, 2))) : V3(gvec(r, 3).normalized());
        if (k == UT) { put(sot::VectorUTheta(th, ax)); want = mk(rexp(ax.cast<R>() * (R)th), Z3); }
        else { v.resize(6); v << t, ax * th; put(v); want = mk(rexp(v.tail<3>().cast<R>()), t); }
        break; }
      case PQ: case QUAT: {
        Eigen::Quaterniond q(rrot(r)); if (r.coin()) q.coeffs() *= -1; if (r.coin(.3)) { q = Eigen::Quaterniond(r.gauss(), r.gauss(), r.gauss(), r.gauss()); q.normalize(); }
        m = q2r(q.x(), q.y(), q.z(), q.w());
        if (k == QUAT) { put(sot::VectorQuaternion(q)); want = mk(m, Z3); } else { v.resize(7); v << t, q.x(), q.y(), q.z(), q.w(); put(v); want = mk(m, t); }
        break; }
      case PRPY: case RPY: {
        V3 a(angle(r), angle(r), angle(r)); m = rpy2r(a(0), a(1), a(2));
        if (k == RPY) { put(sot::VectorRollPitchYaw(a)); want = mk(m, Z3); } else { v.resize(6); v << t, a; put(v); want = mk(m, t); }
        break; }
      default: {
        M3 Rm = rrot(r);
        if (r.coin(.15)) Rm = Eigen::AngleAxisd(M_PI + (r.coin() ? 0 : r.uni(-1, 1) * 1e-7), V3(gvec(r, 3).normalized())).toRotationMatrix();
        if (r.coin(.15)) Rm = (Eigen::AngleAxisd(r.uni(-4, 4), V3::UnitZ()) * Eigen::AngleAxisd((r.coin() ? 1 : -1) * M_PI / 2 + (r.coin() ? 0 : r.uni(-1, 1) * 1e-6), V3::UnitY()) * Eigen::AngleAxisd(r.uni(-4, 4), V3::UnitX())).toRotationMatrix();
        want = mk(Rm.cast<R>(), k == ROT ? Z3 : t);
        if (k == ROT) put(sot::MatrixRotation(Rm)); else if (k == HOMO) put(toMH(want)); else if (k == MAT4) put(Mat(want.cast<double>()));
        else { v.resize(12); v << t, Rm.row(0).transpose(), Rm.row(1).transpose(), Rm.row(2).transpose(); put(v); }
      }
    }
  }
};
static void compare(Case &c, const L4 &got, const L4 &want, double tol, const std::string &key) {
  ++c.st.checks; R e = (got - want).cwiseAbs().maxCoeff();
  if (!(e <= tol)) c.fail(key, "got " + str(got.cast<double>()) + " expected " + str(want.cast<double>()));
}
FAMILY(chains, 6000, 150000) {
  Rng &r = c.rng; std::vector<EP> es; std::vector<Edge> path; Src s; s.k = (Kind)r.range(0, NK - 1);
  s.draw(r); dg::SignalBase<int> *cur = s.s.get(); Kind k = s.k; int len = r.range(1, 6); std::string txt = KN[k];
  for (int i = 0; i < len; ++i) {
    std::vector<Edge> o; for (auto &e : EDGES) if (e.a == k) o.push_back(e);
    if (o.empty()) break;
    Edge e = r.pick(o); es.push_back(make(e.cls)); es.back()->getSignal("sin").plug(cur); cur = &es.back()->getSignal("sout"); k = e.b; path.push_back(e); txt += std::string(" -> ") + e.cls;
  }
  c.log() << txt; int T = r.range(1, 5);
  for (int t = 1; t <= T; ++t) {
    if (t > 1) s.draw(r);
    c.log() << "t=" << t << " source " << str(s.want.cast<double>());
    L4 want = s.want; bool deep = r.coin();
    for (size_t j = 0; j < path.size(); ++j) {
      size_t i = deep ? path.size() - 1 - j : j;  // read the end first: the whole chain is pulled by it
      L4 w = want; for (size_t q = 0; q <= i; ++q) if (path[q].b == ROT || path[q].b == RPY || path[q].b == QUAT || path[q].b == UT) w.topRightCorner<3, 1>().setZero();
      L4 g = den(c, path[i].b, es[i]->getSignal("sout"), t);
      if (path[i].b == PUT) { double th = out<Vec>(*es[i])(t).tail<3>().norm(); c.check(th <= M_PI + 1e-9, "shortest-angle", [&](std::ostream &o) { o << path[i].cls << " turns by " << th; }); }
      compare(c, g, w, 2e-9 * (1 + (double)w.topRightCorner<3, 1>().norm()) * (i + 1), path[i].cls);
      L3 m = g.topLeftCorner<3, 3>();
      c.check((double)(m * m.transpose() - L3::Identity()).norm() < 1e-8 && std::fabs((double)m.determinant() - 1) < 1e-8, "orthonormal");
      c.ev(path[i].cls);
    }
    c.state(hashM(want.cast<double>()) ^ hashStr(txt));
  }
  c.sample(txt);
}
FAMILY(skew_and_position, 600, 20000) {
  Rng &r = c.rng; EP s = make("SkewSymToVector"), p = make("MatrixHomoToPose"); int T = r.range(1, 5);
  for (int t = 1; t <= T; ++t) {
    Vec v = rvec(r, 3); Mat m = hat(v.cast<R>()).cast<double>(); in<Mat>(*s, "sin") = m; closeM(c, out<Vec>(*s)(t), v, 0, "SkewSymToVector");
    MH h = pose(r); in<MH>(*p, "sin") = h; closeM(c, out<Vec>(*p)(t), h.translation(), 0, "MatrixHomoToPose"); c.ev("skew"); c.state(hashM(v));
  }
}
