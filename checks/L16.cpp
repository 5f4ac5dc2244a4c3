// @sources src/math/op-point-modifier.cpp src/feature/visual-point-projecter.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case shifts a moving frame by a constant transformation and compares pose and Jacobian with rigid-body motion (columns and finite displacements), or projects points into a camera; distinct = distinct outputs
#include <sot/core/op-point-modifier.hh>
#include "E_common.hh"
typedef Eigen::Matrix<R, 6, -1> LJ;
FAMILY(op_point, 2500, 80000) {
  Rng &r = c.rng; EP e = make("OpPointModifier"); int n = r.coin(.1) ? r.range(9, 60) : r.range(1, 8), t = 0; bool ee = true; MH T, M; T.setIdentity(); Mat J; c.check((bool)cmd(*e, "getEndEffector").value(), "default-mode");
  for (int s = 0, S = r.range(1, 6); s < S; ++s) {
    bool all = !s || r.coin(.6); int one = r.range(0, 1);
    if (!s && r.coin(.2)) { M4 g = cmd(*e, "getTransformation").value(); c.check(g == M4(M4::Identity()), "no-shift-at-first"); c.ev("unset"); } else if (!s || (all && r.coin(.3))) { T = pose(r); auto &om = dynamic_cast<sot::OpPointModifier &>(*e); if (r.coin()) cmd(*e, "setTransformation", {Value(M4(T.matrix()))}); else om.setTransformation(T.matrix()); M4 g = om.getTransformation(); if (r.coin()) { M4 x = cmd(*e, "getTransformation").value(); g = x; } c.check(g == M4(T.matrix()), "transformation-read-back"); c.ev("transformation"); }
    if (all && r.coin(.4)) { ee = r.coin(); cmd(*e, "setEndEffector", {Value(ee)}); c.check((bool)cmd(*e, "getEndEffector").value() == ee, "mode-read-back"); }
    if (all && s && r.coin(.2)) n = r.range(0, 8);
    if (all || one == 0) { M = pose(r); in<MH>(*e, "positionIN") = M; } if (all || one == 1) { J = gmat(r, 6, n); if (r.coin(.2) && n) J.col(r.range(0, n - 1)).setZero(); in<Mat>(*e, "jacobianIN") = J; }
    if (!all) c.ev(one ? "only-jacobian" : "only-position"); t += r.range(1, 2);
    L4 A = L(M), B = L(T); L3 Rt = B.topLeftCorner<3, 3>(); LV p = B.topRightCorner<3, 1>(); L3 Ra = A.topLeftCorner<3, 3>(); LV q = Ra * p; LJ w(6, n);
    for (int j = 0; j < n; ++j) { LV v = J.col(j).head<3>().cast<R>(), o = J.col(j).tail<3>().cast<R>(); if (ee) { w.col(j).head<3>() = Rt.transpose() * (v + o.cross(p)); w.col(j).tail<3>() = Rt.transpose() * o; } else { w.col(j).head<3>() = v + o.cross(q); w.col(j).tail<3>() = o; } }
    L4 P = A * B; double tol = 1e-13 * (1 + (double)p.norm()) * (1 + J.norm());
    int ord = r.range(0, 2);
    for (int k = 0; k < 3; ++k) if ((k + ord) % 2) closeM(c, Mat(out<MH>(*e, "position")(t).matrix()), Mat(P.cast<double>()), 1e-13 * (1 + (double)A.norm()) * (1 + (double)p.norm()), "composed-pose");
      else closeM(c, out<Mat>(*e, "jacobian")(t), Mat(w.cast<double>()), tol, ee ? "end-effector-jacobian" : "world-jacobian");
    if (n) {  // a small displacement of the frame moves the shifted frame as the Jacobian says
      Vec qd = gvec(r, n); R h = 1e-6L; L6 tw = (J * qd).cast<R>() , ts = (out<Mat>(*e, "jacobian")(t) * qd).cast<R>(); L6 got; L4 D = L4::Identity();
      if (ee) { L4 A2 = A * se3exp(L6(h * tw)); got = se3log(L4(linv(P) * (A2 * B))) / h; } else { L4 A2 = A; A2.topLeftCorner<3, 3>() = rexp(LV(h * tw.tail<3>())) * Ra; A2.topRightCorner<3, 1>() += h * tw.head<3>(); D = A2 * B; got.head<3>() = (D.topRightCorner<3, 1>() - P.topRightCorner<3, 1>()) / h; got.tail<3>() = rlog(L3(D.topLeftCorner<3, 3>() * P.topLeftCorner<3, 3>().transpose())) / h; }
      c.check((got - ts).norm() <= 1e-5L * (1 + tw.squaredNorm()) * (1 + p.norm()), "jacobian-is-velocity-of-shifted-point", [&](std::ostream &o) { o << "off by " << (double)(got - ts).norm(); });
    }
    c.ev("step"); c.state(hashM(out<Mat>(*e, "jacobian")(t)) ^ (uint64_t)ee);
  }
}
FAMILY(chained, 400, 15000) {  // two shifts in a row are the shift by the product
  Rng &r = c.rng; EP a = make("OpPointModifier"), b = make("OpPointModifier"), d = make("OpPointModifier"); bool ee = r.coin(); MH T1 = pose(r), T2 = pose(r); cmd(*a, "setTransformation", {Value(M4(T1.matrix()))}); cmd(*b, "setTransformation", {Value(M4(T2.matrix()))}); cmd(*d, "setTransformation", {Value(M4((L(T1) * L(T2)).cast<double>()))});
  for (auto *e : {a.get(), b.get(), d.get()}) cmd(*e, "setEndEffector", {Value(ee)}); b->getSignal("positionIN").plug(&a->getSignal("position")); b->getSignal("jacobianIN").plug(&a->getSignal("jacobian"));
  for (int t = 1; t < 5; ++t) { MH M = pose(r); Mat J = gmat(r, 6, r.range(1, 5)); for (auto *e : {a.get(), d.get()}) { in<MH>(*e, "positionIN") = M; in<Mat>(*e, "jacobianIN") = J; }
    double k = 1e-12 * (1 + T1.matrix().norm()) * (1 + T2.matrix().norm()) * (1 + M.matrix().norm()) * (1 + J.norm()); closeM(c, out<Mat>(*b, "jacobian")(t), out<Mat>(*d, "jacobian")(t), k, "chained-jacobian"); closeM(c, Mat(out<MH>(*b, "position")(t).matrix()), Mat(out<MH>(*d, "position")(t).matrix()), k, "chained-pose"); c.ev("step"); c.state(hashM(out<Mat>(*d, "jacobian")(t))); }
}
FAMILY(projection, 2500, 80000) {
  Rng &r = c.rng; EP e = make("VisualPointProjecter"); int t = 0; MH M; LV x;
  for (int s = 0, S = r.range(1, 6); s < S; ++s) {
    bool all = !s || r.coin(.6); int one = r.range(0, 1); Vec p(3); LV z;
    for (int k = 0;; ++k) {  // a point in front of the camera
      MH M2 = (all || one == 0) ? pose(r) : M; LV x2 = x; if (all || one == 1) { LV l(r.gauss(), r.gauss(), r.pick(std::vector<double>{.01, 1, 1, 30}) * r.uni(.1, 2)); L4 A = L(M2); x2 = A.topLeftCorner<3, 3>() * l + A.topRightCorner<3, 1>(); x2 = x2.cast<double>().cast<R>(); }
      L4 A = linv(L(M2)); z = A.topLeftCorner<3, 3>() * x2 + A.topRightCorner<3, 1>(); if (z(2) > 1e-3L) { M = M2; x = x2; break; } if (k > 20) all = true;
    }
    p = x.cast<double>(); in<MH>(*e, "transfo") = M; if (all || one == 1) in<Vec>(*e, "point3D") = p; if (!all) c.ev(one ? "only-point" : "only-camera"); t += r.range(1, 2); double m = 1e-13 * (1 + p.norm() + M.translation().norm());
    std::vector<int> o{0, 1, 2, r.range(0, 2)}; r.shuffle(o);
    for (int k : o) { if (k == 0) closeM(c, out<Vec>(*e, "point3Dgaze")(t), Vec(z.cast<double>()), m, "point-in-camera"); else if (k == 1) c.near(out<double>(*e, "depth")(t), z(2), m, "depth"); else { Vec w(2); w << z(0) / z(2), z(1) / z(2); closeM(c, out<Vec>(*e, "point2D")(t), w, m / (double)z(2) * (2 + w.norm()), "image-point"); } }
    c.ev("step"); c.state(hashM(out<Vec>(*e, "point2D")(t)));
  }
}
