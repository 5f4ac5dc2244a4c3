// @sources src/filters/madgwickahrs.cpp src/utils/stop-watch.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case feeds the attitude filter a measurement history with commands valid and not, comparing every estimate with one long-double gradient-descent step from the previous one, its norm with 1 and, for a resting sensor, the gravity direction with the measurement; distinct = distinct estimates
#include "E_common.hh"
typedef Eigen::Matrix<R, 4, 1> Q4;
static Q4 step(const Q4 &q, const Vec &gy, const Vec &ac, R beta, R dt, R &sn) {
  R a = q(0), b = q(1), d = q(2), e = q(3), x = gy(0), y = gy(1), z = gy(2); Q4 qd;
  qd << -b * x - d * y - e * z, a * x + d * z - e * y, a * y - b * z + e * x, a * z + b * y - d * x; qd *= .5L; sn = 1;
  LV u = ac.cast<R>(); R un = u.norm();
  if (un > 0) {
    u /= un; LV f(2 * (b * e - a * d) - u(0), 2 * (a * b + d * e) - u(1), 2 * (.5L - b * b - d * d) - u(2));
    Eigen::Matrix<R, 3, 4> J; J << -2 * d, 2 * e, -2 * a, 2 * b, 2 * b, 2 * a, 2 * e, 2 * d, 0, -4 * b, -4 * d, 0;
    Q4 s = J.transpose() * f; sn = s.norm(); if (sn > 0) qd -= beta * s / sn;
  }
  Q4 o = q + qd * dt; return o / o.norm();
}
static Vec quat(Rng &r) { Eigen::Quaterniond q(M3(r.coin(.3) ? rrot(r) : M3(grot(r)))); Vec v(4); v << q.w(), q.x(), q.y(), q.z(); if (r.coin(.3)) v = -v; return v; }
static LV gravity(const Q4 &q) { return LV(2 * (q(1) * q(3) - q(0) * q(2)), 2 * (q(0) * q(1) + q(2) * q(3)), 1 - 2 * (q(1) * q(1) + q(2) * q(2))) / q.squaredNorm(); }
FAMILY(updates, 2500, 100000) {
  Rng &r = c.rng; EP e = make("MadgwickAHRS"); double beta = cmd(*e, "getBeta").value(), dt = 0; Q4 q(1, 0, 0, 0); int t = 0; bool init = false; c.check(beta >= 0 && beta <= 1, "default-gain"); auto &o = out<Vec>(*e, "imu_quat");
  for (int s = 0, T = r.range(1, 14); s < T; ++s) {
    if (r.coin(s ? .1 : .85)) { double d = r.pick(std::vector<double>{.001, .005, .01, .002, r.uni(.0005, .1), 0., -.001, -1.}); cmd(*e, "init", {Value(d)}); if (d > 0) { dt = d; init = true; c.ev("init"); } else c.ev("invalid-period"); c.log() << "init " << d; }
    if (r.coin(.2)) { double b = r.pick(std::vector<double>{0, 1, .01, .1, r.uni(), -.1, 1.5, -1e-9, 1.0000001}); cmd(*e, "setBeta", {Value(b)}); if (b >= 0 && b <= 1) { beta = b; c.ev("gain"); } else c.ev("invalid-gain"); c.log() << "beta " << b; c.same(cmd(*e, "getBeta").value(), beta, "gain-read-back"); }
    if (r.coin(.15)) { Vec v = quat(r); if (r.coin(.2)) v *= r.uni(.5, 2); cmd(*e, "set_imu_quat", {Value(v)}); q = v.cast<R>(); c.log() << "set quaternion " << str(v); c.ev("set-quaternion"); }
    Vec ac = r.coin(.1) ? Vec(Vec::Zero(3)) : Vec(r.pick(std::vector<double>{1, 9.81, 1e-3, 50}) * gvec(r, 3)), gy = r.coin(.15) ? Vec(Vec::Zero(3)) : Vec(r.pick(std::vector<double>{1, .01, 20}) * gvec(r, 3));
    if (r.coin(.15)) { double p = r.pick(std::vector<double>{9.81, -9.81}); ac = p * Vec::Unit(3, r.range(0, 2)); }
    if (r.coin(.1)) ac(r.range(0, 2)) = 0;
    in<Vec>(*e, "accelerometer") = ac; in<Vec>(*e, "gyroscope") = gy; t += r.range(1, 2);
    if (!init) { o(t); c.ev("not-initialised"); continue; }  // leaves the estimate alone: seen at the next valid update
    R sn; Q4 w = step(q, gy, ac, beta, dt, sn); Vec g; for (int again = r.range(1, 2); again; --again) { g = o(t); c.eq(g.size(), 4l, "size");
      c.near(g.norm(), 1, 1e-14 * 10, "unit-norm"); R tol = 1e-13L + (sn < 1e-4L ? std::min<R>(2.5L * beta * dt, 1e-13L / std::max<R>(sn, 1e-30L) * beta * dt) : 0);
      if (q.norm() < .9L || q.norm() > 1.1L) tol *= 10;
      for (int i = 0; i < 4; ++i) c.check(std::fabs(g(i) - w(i)) <= tol, "gradient-descent-step", [&](std::ostream &s2) { s2 << "component " << i << " got " << g(i) << " expected " << (double)w(i) << " beta " << beta << " dt " << dt << " acc " << str(ac) << " gyro " << str(gy); }); }
    q = g.cast<R>(); c.ev("update"); c.state(hashM(g));
  }
}
FAMILY(converges, 250, 4000) {
  Rng &r = c.rng; EP e = make("MadgwickAHRS"); double beta = r.uni(.05, 1), dt = r.uni(.001, .02); cmd(*e, "init", {Value(dt)}); cmd(*e, "setBeta", {Value(beta)}); Vec q0 = quat(r); cmd(*e, "set_imu_quat", {Value(q0)}); auto &o = out<Vec>(*e, "imu_quat");
  LV u; do { Vec v = gvec(r, 3); u = v.cast<R>(); u.normalize(); } while ((gravity(q0.cast<R>()) + u).norm() < .1L); Vec ac = (r.uni(.5, 20) * u).cast<double>(); int N = (int)(6 / (beta * dt)) + 100; if (N > 4000) N = 4000; R err = 0;
  for (int t = 1; t <= N; ++t) { in<Vec>(*e, "accelerometer") = ac; in<Vec>(*e, "gyroscope") = Vec::Zero(3); const Vec &g = o(t); c.near(g.norm(), 1, 1e-13, "unit-norm"); c.ev("update"); if (t == N) err = (gravity(g.cast<R>()) - u).norm(); }
  if (N * beta * dt < 5.9) { c.ev("too-slow"); return; }
  c.check(err <= 6 * beta * dt, "gravity-vertical", [&](std::ostream &s) { s << "after " << N << " steps the estimated gravity direction is off by " << (double)err << " with beta " << beta << " dt " << dt; }); c.state(hashM(q0)); c.ev("converged");
}
// no gain: pure integration of the gyroscope keeps the norm and turns by rate times time
FAMILY(pure_gyroscope, 200, 5000) {
  Rng &r = c.rng; EP e = make("MadgwickAHRS"); double dt = 1e-3, w = r.uni(-2, 2); int ax = r.range(0, 2); cmd(*e, "init", {Value(dt)}); cmd(*e, "setBeta", {Value(0.)}); auto &o = out<Vec>(*e, "imu_quat"); Vec gy = w * Vec::Unit(3, ax);
  for (int t = 1; t <= 200; ++t) { in<Vec>(*e, "accelerometer") = gvec(r, 3); in<Vec>(*e, "gyroscope") = gy; const Vec &g = o(t); double h = t * std::atan(w * dt / 2); c.near(g(0), std::cos(h), 1e-12, "turned-by-rate"); c.near(g(1 + ax), std::sin(h), 1e-12, "turned-by-rate"); c.ev("update"); } c.state(hashM(gy));
}
