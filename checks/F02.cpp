// @sources src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-point6d.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-pose.cpp src/feature/feature-visual-point.cpp src/feature/feature-joint-limits.cpp src/feature/feature-posture.cpp src/feature/feature-1d.cpp src/feature/feature-vector3.cpp src/feature/feature-line-distance.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case takes one feature at a random configuration, moves its body (and what else the feature measures) along the velocity J q', and compares Jacobian times q' with a fourth-order central difference of an independently computed error, and of the feature's own error; distinct = distinct configurations
#include "F_common.hh"
static const R H = 1e-4L;
// fourth-order central difference in extended precision
template <class F> static Vec deriv(F f) {
  typedef Eigen::Matrix<R, Eigen::Dynamic, 1> X;
  X a = f(-2 * H), b = f(-H), d = f(H), e = f(2 * H);
  return ((a - e) / 12 + (d - b) * 2 / 3).eval().template cast<double>() / (double)H;
}
typedef Eigen::Matrix<R, Eigen::Dynamic, 1> LX;
static L4 moved(const MH &m, const Vec &xi, R t) { return L(m) * se3exp(L6(xi.cast<R>() * t)); }  // body velocity
static LX pose6(const L4 &h) { LX o(6); o.head<3>() = h.topRightCorner<3, 1>(); o.tail<3>() = rlog(h.topLeftCorner<3, 3>()); return o; }
static Vec norm2(const LX &v) { return v.cast<double>(); }
static void near(Case &c, const Mat &J, const Vec &qd, const Vec &want, const char *key, double extra = 0) {
  Vec got = J * qd; closeM(c, got, want, 2e-7 * (1 + want.norm() + J.norm() * qd.norm()) + extra, key);
}
FAMILY(point6d, 1200, 40000) {
  Rng &r = c.rng; Point6d p; p.nc = r.range(1, 7); for (int k = 0; k < 5; ++k) p.draw(r, k);
  p.hasRef = r.coin(.8); bool zero = r.coin(.25);
  if (zero) { p.M = pose(r); if (p.hasRef) p.Md.linear() = p.M.linear(); else p.M.linear().setIdentity(); }
  if (!p.sane()) return;
  Inst i = p.make(); p.all(i); if (p.hasRef) i.f->setReference(i.ref.get());
  Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc), xi = p.J * qd;
  L4 d = p.hasRef ? L(p.Md) : L4(L4::Identity());
  auto err = [&](R t) { L4 m = moved(p.M, xi, t); return pose6(p.frame ? L4(linv(d) * m) : L4(linv(m) * d)); };
  c.log() << "frame " << p.frame << " ref " << p.hasRef << " zero " << zero;
  near(c, J.topRows(3), qd, deriv([&](R t) { return LX(err(t).head(3)); }), "translation"); c.ev("translation");
  // rotation rows: angular velocity of the point relative to the reference, in the reference frame
  L3 Rr = (linv(d) * L(p.M)).topLeftCorner<3, 3>(); Vec w = (Rr * xi.tail<3>().cast<R>()).cast<double>() * (p.frame ? 1 : -1);
  closeM(c, J.bottomRows(3) * qd, w, 1e-10 * (1 + J.norm() * qd.norm()), "relative-angular-velocity");
  // ... which is the rate of the rotation error where that error is zero, and always changes its norm as the motion does
  if (zero) { near(c, J.bottomRows(3), qd, deriv([&](R t) { return LX(err(t).tail(3)); }), "rotation-at-zero"); c.ev("rotation-at-zero"); }
  Vec e = norm2(err(0)).tail(3);
  if (e.norm() < 2.8 && e.norm() > .01) { Vec half = deriv([&](R t) { LX v = err(t).tail(3); LX o(1); o(0) = v.squaredNorm() / 2; return o; });
  closeM(c, e.transpose() * (J.bottomRows(3) * qd), half, 3e-6 * (1 + half.norm() + e.norm() * J.norm() * qd.norm()), "rotation-norm"); c.ev("rotation-norm"); }
  c.state(hashM(J));
}
FAMILY(relative, 900, 30000) {
  Rng &r = c.rng; Relative p(r.coin(.3)); p.nc = r.range(1, 7); for (int k = 0; k < 6; ++k) p.draw(r, k);
  p.hasRef = r.coin(.8); bool zero = r.coin(.3);
  if (zero && p.hasRef) { L4 rel = linv(L(p.P)) * L(p.Q); if (p.plain) p.Pd = toMH(rel); else p.Qd = toMH(L(p.Pd) * rel); }
  if (!p.sane()) return;
  Inst i = p.make(); p.all(i); if (p.hasRef) i.f->setReference(i.ref.get());
  Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc), xp = p.JP * qd, xq = p.JQ * qd;
  auto merr = [&](R t) { L4 m = linv(moved(p.P, xp, t)) * moved(p.Q, xq, t); if (!p.hasRef) return m; return p.plain ? L4(m * linv(L(p.Pd))) : L4(m * linv(linv(L(p.Pd)) * L(p.Qd))); };
  // the relative pose turns and moves with the twist J q' seen from the point: dE/dt = twist^ E
  L4 E0i = linv(merr(0));
  Vec tw = deriv([&](R t) { return LX(se3log(merr(t) * E0i)); });
  near(c, J, qd, tw, "relative-twist"); c.ev("relative");
  if (zero && p.hasRef) { near(c, J, qd, deriv([&](R t) { return pose6(merr(t)); }), "relative-at-zero"); c.ev("relative-at-zero"); }
  Vec e = norm2(pose6(merr(0)));
  Vec ht = deriv([&](R t) { LX o(1); o(0) = pose6(merr(t)).head(3).squaredNorm() / 2; return o; });
  closeM(c, e.head(3).transpose() * (J.topRows(3) * qd), ht, 3e-6 * (1 + ht.norm() + e.norm() * J.norm() * qd.norm()), "relative-distance");
  c.state(hashM(J));
}
template <sot::Representation_t rep> static void posef(Case &c) {
  Rng &r = c.rng; Pose<rep> p; p.nc = r.range(1, 7); for (int k = 0; k < 8; ++k) p.draw(r, k);
  if (r.coin(.2)) p.Des = toMH(p.cur());
  if (!p.sane()) return;
  Inst i = p.make(); p.all(i);
  Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc), xb = p.JB * qd, xa = p.plugA ? Vec(p.JA * qd) : Vec(Vec::Zero(6));
  auto err = [&](R t) { L4 m = linv(moved(p.A, xa, t) * L(p.a)) * moved(p.B, xb, t) * L(p.b); return LX(Pose<rep>::diff(L(p.Des), m)); };
  Vec want = deriv(err);
  near(c, J, qd, want, rep == sot::SE3Representation ? "pose-se3" : "pose-r3xso3", 1e-5 * (norm2(err(0)).tail(3).norm() > 2.9));
  c.ev(p.plugA ? "pose-two-bodies" : "pose-one-body"); c.state(hashM(J));
}
FAMILY(pose_r3xso3, 900, 30000) { posef<sot::R3xSO3Representation>(c); }
FAMILY(pose_se3, 900, 30000) { posef<sot::SE3Representation>(c); }
FAMILY(vector3, 700, 20000) {
  Rng &r = c.rng; Vector3 p; p.nc = r.range(1, 7); for (int k = 0; k < 4; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc), xi = p.J * qd;
  near(c, J, qd, deriv([&](R t) { return LX(moved(p.M, xi, t).topLeftCorner(3, 3) * p.v.cast<R>() - p.vd.cast<R>()); }), "vector"); c.ev("vector"); c.state(hashM(J));
}
FAMILY(line, 700, 20000) {
  Rng &r = c.rng; Line p; p.nc = r.range(1, 7); for (int k = 0; k < 4; ++k) p.draw(r, k);
  if (!p.sane()) return;
  Inst i = p.make(); p.all(i); Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc), xi = p.J * qd;
  Vec want = deriv([&](R t) { L4 m = moved(p.M, xi, t); LV d0 = m.topLeftCorner(3, 3) * p.v.cast<R>(), p0 = m.topRightCorner(3, 1), d1 = p.l.tail<3>().cast<R>(), x = d0.cross(d1); LX o(1); o(0) = -x.dot(p0 - LV(p.l.head<3>().cast<R>())) / x.squaredNorm(); return o; });
  near(c, J, qd, want, "line", 1e-6 * J.norm() * qd.norm()); c.ev("line"); c.state(hashM(J));
}
FAMILY(visual, 700, 20000) {
  // the camera moves with body velocity J q', the observed 3D point stays in place
  Rng &r = c.rng; Visual p; p.nc = r.range(1, 7); for (int k = 0; k < 5; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.nc, .3), xi = p.J * qd;
  LV X(p.xy(0) * (R)p.Z, p.xy(1) * (R)p.Z, (R)p.Z);
  R s = std::min<R>(1, p.Z / (1 + (R)xi.norm()));  // keep the point in front of the camera
  xi *= (double)s; qd *= (double)s;
  near(c, J, qd, deriv([&](R t) { L4 g = linv(se3exp(L6(xi.cast<R>() * t))); LV y = g.topLeftCorner(3, 3) * X + g.topRightCorner(3, 1); LX o(2); o(0) = y(0) / y(2) - p.xyd(0); o(1) = y(1) / y(2) - p.xyd(1); return o; }), "visual"); c.ev("visual"); c.state(hashM(J));
  // a point behind the camera, or in its plane, is refused
  auto &f = AS(sot::FeatureVisualPoint, i.f); f.ZSIN = r.coin() ? -r.uni(1e-5, 3) : r.uni(-1, 1) * 1e-7;
  c.throws<sot::ExceptionFeature>([&] { f.jacobianSOUT(2); }, "behind-camera");
}
FAMILY(joints, 700, 20000) {
  // vector features: joint limits, generic, posture, and the half square norm
  Rng &r = c.rng; Limits p(r); for (int k = 0; k < 3; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); Mat J = i.f->jacobianSOUT(1); Vec qd = gvec(r, p.n);
  Vec q0 = p.q; auto at = [&](double t) { p.q = q0 + t * qd; Vec e = p.error(); p.q = q0; return e; };
  Vec w = (at(.5) - at(-.5)); near(c, J, qd, w, "joint-limits", 1e-9 * w.norm());
  OneD o; o.nc = r.range(1, 6); o.n = r.range(1, 5); o.draw(r, 0); o.draw(r, 1); Inst k = o.make(); o.all(k);
  Vec xd = gvec(r, o.nc), ed = o.J * xd; near(c, k.f->jacobianSOUT(1), xd, Vec::Constant(1, o.e.dot(ed)), "half-square-norm");
  Generic g; g.nc = r.range(1, 6); g.n = r.range(1, 6); for (int z = 0; z < 4; ++z) g.draw(r, z); Inst gi = g.make(); g.all(gi); if (r.coin()) gi.f->setReference(gi.ref.get());
  closeM(c, gi.f->jacobianSOUT(1), g.J, 0, "generic");
  sot::FeaturePosture f(uname("posture")); int n = r.range(1, 8); Vec s = gvec(r, n), sd = gvec(r, n), ps = gvec(r, n);
  in<Vec>(f, "state").setConstant(s); in<Vec>(f, "posture").setConstant(ps); for (int d = 0; d < n; ++d) if (d == 0 || r.coin()) cmd(f, "selectDof", {Value((unsigned)d), Value(true)});
  Vec e0 = f.errorSOUT(1); Mat Jp = f.jacobianSOUT(1); in<Vec>(f, "state") = Vec(s + sd); Vec e1 = f.errorSOUT(2);
  closeM(c, Jp * sd, e1 - e0, 1e-11 * (1 + sd.norm() + s.norm()), "posture");
  c.ev("vector-features"); c.state(hashM(J) ^ hashM(o.J));
}
