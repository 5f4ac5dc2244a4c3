// @sources src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-point6d.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-pose.cpp src/feature/feature-visual-point.cpp src/feature/feature-joint-limits.cpp src/feature/feature-posture.cpp src/feature/feature-1d.cpp src/feature/feature-vector3.cpp src/feature/feature-line-distance.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case moves the reference of one feature at a random velocity while the feature stays in place and compares the error rate with a fourth-order central difference of an independently computed error; distinct = distinct (configuration, velocity)
#include "F_common.hh"
static const R H = 1e-4L;
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> LX;
template <class F> static Vec deriv(F f) {
  LX a = f(-2 * H), b = f(-H), d = f(H), e = f(2 * H);
  return ((a - e) / 12 + (d - b) * 2 / 3).eval().template cast<double>() / (double)H;
}
static LX pose6(const L4 &h) { LX o(6); o.head<3>() = h.topRightCorner<3, 1>(); o.tail<3>() = rlog(h.topLeftCorner<3, 3>()); return o; }
static std::vector<int> pickSel(Rng &r, Inst &i, int n) {
  std::vector<bool> b(n, true); if (r.coin()) for (int k = 0; k < n; ++k) b[k] = r.coin();
  i.f->selectionSIN = sot::Flags(b); std::vector<int> o; for (int k = 0; k < n; ++k) if (b[k]) o.push_back(k); return o;
}
static Vec pick(const Vec &v, const std::vector<int> &s) { Vec o(s.size()); for (size_t k = 0; k < s.size(); ++k) o(k) = v(s[k]); return o; }
// 6D point: the reference moves with linear velocity v of its origin and angular velocity w, both in the world
FAMILY(point6d, 2500, 60000) {
  Rng &r = c.rng; Point6d p; p.nc = 3; for (int k = 0; k < 5; ++k) p.draw(r, k); p.hasRef = true;
  int mode = r.range(0, 9);
  if (mode == 0) p.Md = p.M;                                                             // no error
  if (mode == 1) { L6 x = gvec(r, 6).cast<R>() * std::pow(10.L, -(R)r.range(5, 8)); p.Md = toMH(L(p.M) * se3exp(x)); }  // hardly any
  if (mode == 2 || mode == 3) { L6 x = gvec(r, 6).cast<R>(); LV w = x.tail<3>(); x.tail<3>() = w / w.norm() * std::pow(10.L, -(R)r.uni(1, 3.9)); p.Md = toMH(L(p.M) * se3exp(x)); c.ev("point6d-small-turn"); }
  Inst i = p.make(); p.all(i); i.f->setReference(i.ref.get());
  std::vector<int> s = pickSel(r, i, 6);
  int steps = r.range(1, 4);
  for (int t = 1; t <= steps; ++t) {
    if (t > 1) { int k = r.range(0, 4); if (mode <= 1 && k != 3) k = 3; p.draw(r, k); p.feed(i, k); if (r.coin(.3)) { p.draw(r, 3); p.feed(i, 3); } }
    if (!p.sane()) continue;
    LV v = p.v.head<3>().cast<R>(), w = p.v.tail<3>().cast<R>(); L4 m = L(p.M), d0 = L(p.Md);
    auto err = [&](R h) { L4 d = d0; d.topLeftCorner(3, 3) = rexp(w * h) * d0.topLeftCorner(3, 3); d.topRightCorner(3, 1) += v * h; return pose6(p.frame ? L4(linv(d) * m) : L4(linv(m) * d)); };
    Vec want = deriv(err), e = err(0).cast<double>();
    c.log() << "t=" << t << " frame " << p.frame << " mode " << mode << " |theta| " << e.tail(3).norm();
    double th = e.tail(3).norm();
    // the feature itself leaves out second-order terms below |theta|^2 = 1e-8
    double tol = (th < 1.2e-4 ? 2e-4 : th > 2.7 ? 1e-4 : 1e-6 + 1e-10 / (th * th)) * (1 + p.v.norm() * (1 + (p.M.translation() - p.Md.translation()).norm()));
    closeM(c, i.f->errordotSOUT(t), pick(want, s), tol, p.frame ? "point6d-desired" : "point6d-current");
    c.ev("point6d"); if (mode <= 1) c.ev("point6d-near-zero"); c.state(hashM(want));
  }
  if (r.coin(.2)) {  // without a reference nothing moves
    i.f->setReference(NULL);
    closeM(c, i.f->errordotSOUT(steps + 1), Vec::Zero(s.size()), 0, "point6d-no-reference"); c.ev("no-reference");
  }
}
// relative pose: desired pose moving with the spatial twist nu seen from frame A
FAMILY(pose_se3, 1200, 30000) {
  Rng &r = c.rng; Pose<sot::SE3Representation> p; p.nc = 2; for (int k = 0; k < 8; ++k) p.draw(r, k);
  if (r.coin(.2)) p.Des = toMH(p.cur());
  Inst i = p.make(); p.all(i); std::vector<int> s = pickSel(r, i, 6); int steps = r.range(1, 4);
  for (int t = 1; t <= steps; ++t) {
    if (t > 1) { int k = r.range(0, 5); p.draw(r, k); p.feed(i, k); }
    if (!p.sane()) continue;
    L6 nu = p.nu.cast<R>();
    Vec want = deriv([&](R h) { return LX(p.diff(se3exp(nu * h) * L(p.Des), p.cur())); });
    c.log() << "t=" << t; double th = p.error().tail(3).norm();
    closeM(c, i.f->errordotSOUT(t), pick(want, s), (th > 2.7 ? 1e-4 : 1e-6) * (1 + want.norm() + p.nu.norm()), "pose-se3");
    c.ev("pose-se3"); c.state(hashM(want));
  }
}
FAMILY(pose_r3xso3, 1200, 30000) {
  Rng &r = c.rng; Pose<sot::R3xSO3Representation> p; p.nc = 2; for (int k = 0; k < 8; ++k) p.draw(r, k);
  if (r.coin(.4)) p.Des = toMH(p.cur());
  Inst i = p.make(); p.all(i); std::vector<int> s = pickSel(r, i, 6); int steps = r.range(1, 4);
  for (int t = 1; t <= steps; ++t) {
    if (t > 1) { int k = r.range(0, 5); p.draw(r, k); p.feed(i, k); }
    if (!p.sane()) continue;
    LV w = p.nu.tail<3>().cast<R>(), v = p.nu.head<3>().cast<R>(), tc = p.cur().topRightCorner(3, 1);
    // rotation: the desired orientation turns at w; translation: rate, seen at the current position, of the desired frame's motion
    Vec want = deriv([&](R h) { LX o(6); o.head<3>() = -(v + w.cross(tc)) * h; L3 Rd = rexp(w * h) * L(p.Des).topLeftCorner(3, 3); o.tail<3>() = rlog(L3(Rd.transpose() * L4(p.cur()).topLeftCorner(3, 3))); return o; });
    c.log() << "t=" << t; double th = p.error().tail(3).norm();
    closeM(c, i.f->errordotSOUT(t), pick(want, s), (th > 2.7 ? 1e-4 : 1e-6) * (1 + want.norm() + p.nu.norm()), "pose-r3xso3");
    c.ev("pose-r3xso3"); c.state(hashM(want));
  }
}
// vector features: minus the rate of the reference, zero without one
FAMILY(vectors, 1500, 40000) {
  Rng &r = c.rng; bool vis = r.coin(.3);
  std::unique_ptr<Rig> p = rig(r, vis ? 6 : 0); Inst i = p->make(); p->all(i); std::vector<int> s = pickSel(r, i, p->full());
  int rate = vis ? 4 : 3; bool has = vis; int steps = r.range(1, 6);
  for (int t = 1; t <= steps; ++t) {
    if (r.coin(.6)) { p->draw(r, rate); p->feed(i, rate); }
    if (r.coin(.4)) { has = r.coin(.7); i.f->setReference(has ? i.ref.get() : NULL); }
    Vec d = vis ? static_cast<Visual &>(*p).ed : static_cast<Generic &>(*p).edot;
    Vec want = has ? Vec(-pick(d, s)) : Vec(Vec::Zero(s.size()));
    c.log() << p->kind() << " t=" << t << " ref " << has;
    closeM(c, i.f->errordotSOUT(t), want, 0, "vector-rate"); c.ev(has ? "vector" : "no-reference"); c.state(hashM(d) + has);
  }
  // a reference that has no rate is one that does not move
  if (!vis) {
    Generic g; for (int k = 0; k < 3; ++k) g.draw(r, k); Inst n = g.make(); for (int k = 0; k < 3; ++k) g.feed(n, k); n.f->setReference(n.ref.get());
    closeM(c, n.f->errordotSOUT(1), Vec::Zero(g.n), 0, "reference-without-rate"); c.ev("no-rate");
  }
  if (r.coin(.3)) { Inst q = p->make(); p->all(q); if (!vis) { closeM(c, q.f->errordotSOUT(1), Vec::Zero(p->full()), 0, "no-reference"); } }
}
FAMILY(posture, 500, 15000) {
  Rng &r = c.rng; int n = r.range(1, 9); sot::FeaturePosture f(uname("posture"));
  in<Vec>(f, "state").setConstant(gvec(r, n)); in<Vec>(f, "posture").setConstant(gvec(r, n)); Vec d = gvec(r, n); in<Vec>(f, "postureDot") = d;
  std::vector<int> s; for (int k = 0; k < n; ++k) if (k == n - 1 || r.coin()) { s.push_back(k); cmd(f, "selectDof", {Value((unsigned)k), Value(true)}); }
  for (int t = 1; t < 4; ++t) { closeM(c, f.errordotSOUT(t), -pick(d, s), 0, "posture-rate"); d = gvec(r, n); in<Vec>(f, "postureDot") = d; c.ev("posture"); c.state(hashM(d)); }
}
