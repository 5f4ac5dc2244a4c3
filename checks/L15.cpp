// @sources src/debug/debug.cpp src/control/control-pd.cpp src/control/control-gr.cpp src/control/admittance-control-op-point.cpp src/utils/stop-watch.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp
// @rule each case drives a control law with inputs refreshed all together or one at a time, reading its outputs in random order, and compares them with the law in long double; distinct = distinct outputs
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, 1> LX;
static void cmp(Case &c, const Vec &g, const LX &w, const LX &m, const char *key) {
  c.eq(g.size(), w.size(), "output-size");
  for (int i = 0; i < g.size(); ++i) c.check(std::fabs(g(i) - w(i)) <= 1e-13L * (m(i) + 1e-6L), key, [&](std::ostream &o) { o << "component " << i << " got " << g(i) << " expected " << (double)w(i); });
}
FAMILY(pd, 2500, 80000) {
  Rng &r = c.rng; EP e = make("ControlPD"); int n = r.range(1, 8), t = 0; static const char *names[] = {"Kp", "Kd", "position", "desired_position", "velocity", "desired_velocity"}; Vec v[6];
  for (int s = 0, T = r.range(1, 8); s < T; ++s) {
    int one = s && r.coin() ? r.range(0, 5) : -1; if (one < 0 && s && r.coin(.1)) n = r.range(1, 8), c.ev("resized");
    for (int i = 0; i < 6; ++i) if (one < 0 || i == one) { v[i] = rvec(r, n); in<Vec>(*e, names[i]) = v[i]; }
    if (one >= 0) c.ev(std::string("only-") + names[one]); t += r.range(1, 2);
    LX a[6]; for (int i = 0; i < 6; ++i) a[i] = v[i].cast<R>(); LX pe = a[3] - a[2], ve = a[5] - a[4], u = a[0].cwiseProduct(pe) + a[1].cwiseProduct(ve), pm = a[3].cwiseAbs() + a[2].cwiseAbs(), vm = a[5].cwiseAbs() + a[4].cwiseAbs(), um = a[0].cwiseAbs().cwiseProduct(pm) + a[1].cwiseAbs().cwiseProduct(vm);
    std::vector<int> o{0, 1, 2, 0}; r.shuffle(o);
    for (int k : o) { if (k == 0) cmp(c, out<Vec>(*e, "control")(t), u, um, "control-law"); else if (k == 1) cmp(c, out<Vec>(*e, "position_error")(t), pe, pm, "position-error"); else cmp(c, out<Vec>(*e, "velocity_error")(t), ve, vm, "velocity-error"); }
    c.ev("step"); c.state(hashM(out<Vec>(*e, "control")(t)));
  }
}
FAMILY(computed_torque, 1500, 50000) {
  Rng &r = c.rng; EP e = make("ControlGR"); int n = r.range(1, 7), t = 0; Mat A; Vec a, g;
  for (int s = 0, T = r.range(1, 8); s < T; ++s) {
    int one = s && r.coin() ? r.range(0, 2) : -1; if (one < 0 && r.coin(.2)) n = r.range(1, 7);
    if (one < 0 || one == 0) { A = gmat(r, n, n); if (r.coin(.3)) A = (A + A.transpose()).eval(); in<Mat>(*e, "matrixA") = A; } if (one < 0 || one == 1) { a = rvec(r, n); in<Vec>(*e, "acceleration") = a; } if (one < 0 || one == 2) { g = rvec(r, n); in<Vec>(*e, "gravity") = g; }
    t += r.range(1, 2); LX w = A.cast<R>() * a.cast<R>() + g.cast<R>(), m = A.cwiseAbs().cast<R>() * a.cwiseAbs().cast<R>() + g.cwiseAbs().cast<R>(); for (int k = r.range(1, 2); k; --k) cmp(c, out<Vec>(*e, "control")(t), w, m, "computed-torque"); c.ev("step"); c.state(hashM(out<Vec>(*e, "control")(t)));
  }
}
FAMILY(admittance, 2000, 60000) {
  Rng &r = c.rng; EP e = make("AdmittanceControlOpPoint"); int t = 0; Vec kp, kd, sat, f, fd; MH op, se; bool init = false; LX wdq = LX::Zero(6); double dt = 0;
  auto gains = [&](double hi) { Vec v(6); for (int i = 0; i < 6; ++i) v(i) = r.coin(.2) ? 0 : r.uni(0, hi); return v; };
  static const char *names[] = {"Kp", "Kd", "dqSaturation", "force", "w_forceDes", "opPose", "sensorPose"};
  auto draw = [&](int i) {
    switch (i) {
      case 0: kp = gains(r.coin() ? 1 : 500); in<Vec>(*e, "Kp") = kp; break; case 1: kd = gains(r.coin() ? .05 : 1); in<Vec>(*e, "Kd") = kd; break; case 2: sat = gains(2); in<Vec>(*e, "dqSaturation") = sat; break;
      case 3: f = r.coin(.15) ? Vec(Vec::Zero(6)) : rvec(r, 6); in<Vec>(*e, "force") = f; break; case 4: fd = r.coin(.15) ? Vec(Vec::Zero(6)) : rvec(r, 6); in<Vec>(*e, "w_forceDes") = fd; break; case 5: op = pose(r); in<MH>(*e, "opPose") = op; break; default: se = pose(r); in<MH>(*e, "sensorPose") = se; }
  };
  if (r.coin(.1)) { cmd(*e, "resetDq"); c.ev("reset-before-init"); }
  std::vector<int> ord{0, 1, 2, 3, 4, 5, 6}; r.shuffle(ord); int missing = r.coin(.2) ? r.range(0, 6) : 7;
  for (int i = 0; i < missing && i < 7; ++i) draw(ord[i]);
  if (missing < 7) {  // refused: the velocity reference does not come out
    cmd(*e, "init", {Value(.005)}); Vec before = out<Vec>(*e, "dq").accessCopy(); Vec g = out<Vec>(*e, "dq")(++t); c.check(g.size() == before.size() && g == before, "no-output-before-initialisation"); c.ev(std::string("missing-") + names[ord[missing]]); for (int i = missing; i < 7; ++i) draw(ord[i]);
  }
  for (int s = 0, T = r.range(1, 10); s < T; ++s) {
    if (!init || r.coin(.05)) { dt = r.pick(std::vector<double>{.001, .005, .1, r.uni(.0005, .2)}); cmd(*e, "init", {Value(dt)}); init = true; wdq.setZero(); c.ev("init"); } else if (r.coin(.1)) { cmd(*e, "resetDq"); wdq.setZero(); c.ev("reset"); }
    if (r.coin()) for (int i = 0; i < 7; ++i) draw(i); else { int i = r.range(0, 6); draw(i); c.ev(std::string("only-") + names[i]); }
    t += r.range(1, 2); L3 Rs = L(se).topLeftCorner<3, 3>(); LV ps = L(se).topRightCorner<3, 1>(); LX wf(6); LV fl = f.cast<R>().head<3>(), ft = f.cast<R>().tail<3>(); wf << Rs * fl, Rs * ft + ps.cross(LV(Rs * fl));
    R mag = 1 + (1 + ps.norm()) * f.cast<R>().norm() + fd.norm(); LX nx(6); for (int i = 0; i < 6; ++i) { R x = wdq(i) + (R)dt * kp(i) * (fd(i) - wf(i)) - (R)kd(i) * wdq(i); nx(i) = std::max(-(R)sat(i), std::min((R)sat(i), x)); if (nx(i) != x) c.ev("saturated"); }
    L3 Ro = L(op).topLeftCorner<3, 3>(); LV po = L(op).topRightCorner<3, 1>(), w = nx.tail<3>(); LX dq(6); dq << Ro.transpose() * (LV(nx.head<3>()) - po.cross(w)), Ro.transpose() * w;
    std::vector<int> o{0, 1, 2, 0}; r.shuffle(o); LX m6 = LX::Constant(6, mag), mq = LX::Constant(6, (1 + po.norm()) * (2 + (R)dt * kp.norm()) * mag * 10), mw = LX::Constant(6, (2 + (R)dt * kp.norm()) * mag * 10);
    for (int k : o) { if (k == 0) cmp(c, out<Vec>(*e, "dq")(t), dq, mq, "velocity-reference"); else if (k == 1) cmp(c, out<Vec>(*e, "w_dq")(t), nx, mw, "world-velocity"); else cmp(c, out<Vec>(*e, "w_force")(t), wf, 10 * m6, "world-force"); }
    Vec g = out<Vec>(*e, "w_dq")(t); for (int i = 0; i < 6; ++i) c.check(std::fabs(g(i)) <= sat(i), "within-saturation");
    wdq = g.cast<R>(); c.ev("step"); c.state(hashM(g));
  }
}
