// @sources src/tools/device.cpp src/tools/robot-simu.cpp src/tools/periodic-call.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives one device through a history of configuration commands and steps, next to an independent long double model of position, velocity and acceleration control; distinct = distinct states reached
#include "D_common.hh"
static void history(Case &c, bool small) {
  Rng &r = c.rng; std::unique_ptr<sot::Device> dp; bool simu = r.coin(.3); if (simu) dp.reset(new sot::RobotSimu(uname("simu"))); else dp.reset(new sot::Device(uname("dev"))); sot::Device &d = *dp; Model m;
  int steps = 0, T = r.range(1, small ? 12 : 25); std::vector<int> asked; Vec u;
  dg::Signal<Vec, int> ctl("ctl"); ctl.setFunction([&](Vec &o, int t) -> Vec & { asked.push_back(t); o = u; return o; }); d.controlSIN.plug(&ctl);
  closeM(c, d.stateSOUT(0), Vec::Zero(6), 0, "initial-state");
  auto published = [&] { closeM(c, d.stateSOUT(d.stateSOUT.getTime()), m.q, 0, "state-after-command"); closeM(c, d.motorcontrolSOUT(0), m.q, 0, "motor-control-after-command"); };
  if (r.coin(.8)) { unsigned n = small ? r.range(1, 5) : r.range(6, 14); if (r.coin()) cmd(d, "resize", {Value(n)}); else d.setStateSize(n); m.q = m.v = Vec::Zero(n); c.log() << "resize " << n; published(); closeM(c, d.velocitySOUT(0), m.v, 0, "velocity-after-resize"); }
  if (r.coin(.8)) { cmd(d, "setSanityCheck", {Value(false)}); m.sanity = false; }
  for (int k = 0; k < T; ++k) {
    int N = m.q.size(), what = r.range(0, 19);
    if (what == 0) { int a = r.range(0, 2); m.mode = a; c.log() << modeName(a); if (a == TWO && r.coin()) { cmd(d, "setSecondOrderIntegration"); m.v.setZero(N); closeM(c, d.velocitySOUT(0), m.v, 0, "velocity-reset"); } else if (a == NOI && r.coin()) { d.setNoIntegration(); m.v.setZero(N); } else cmd(d, "setControlInputType", {Value(modeName(a))}); if (r.coin(.2)) { cmd(d, "setControlInputType", {Value(std::string("nothing"))}); c.ev("unknown-type"); } c.ev("switch-" + modeName(a)); continue; }
    if (what == 1) { Vec q = rvec(r, N); for (int i = 3; i < std::min(6, N); ++i) q(i) = r.uni(-1.2, 1.2); c.log() << "set " << str(q.transpose());
      if (m.sanity && m.mode != NOI) { c.throws<std::invalid_argument>([&] { cmd(d, "set", {Value(q)}); }, "set-without-bounds"); closeM(c, d.stateSOUT(0), m.q, 0, "refused-set"); c.ev("refused-set"); continue; }
      cmd(d, "set", {Value(q)}); m.q = q; published(); c.ev("set"); continue; }
    if (what == 2) { m.v = rvec(r, N); cmd(d, "setVelocity", {Value(m.v)}); closeM(c, d.velocitySOUT(0), m.v, 0, "velocity-after-command"); c.ev("setVelocity"); continue; }
    if (what == 3 && N >= 6) { MH M = pose(r); cmd(d, "setRoot", {Value(Mat(M.matrix()))}); Vec q = d.stateSOUT(0); closeM(c, basePose(q).cast<double>(), M.matrix(), 1e-9 * (1 + M.translation().norm()), "root"); closeM(c, q.tail(N - 6), m.q.tail(N - 6), 0, "joints-after-root"); m.q = q; published(); c.ev("setRoot"); continue; }
    if (what == 4) { unsigned n = small ? r.range(1, 5) : r.range(6, 14); cmd(d, "resize", {Value(n)}); m.q = m.v = Vec::Zero(n); c.log() << "resize " << n; published(); closeM(c, d.velocitySOUT(0), m.v, 0, "velocity-after-resize"); c.ev("resize"); continue; }
    // one step
    int n = N >= 6 && r.coin(.5) ? (r.coin(.6) ? N : N - 6) : r.range(0, N < 6 ? N - 1 : N); u = r.coin(.8) ? gvec(r, n) : rvec(r, n); double dt = r.coin(.1) ? 0 : r.coin() ? r.uni(1e-4, .1) : r.uni(0, r.coin(.2) ? 5 : 1);
    if (n == N) for (int i = 3; i < 6; ++i) u(i) = r.coin(.1) ? 0 : r.gauss() * 2;
    if (r.coin(.05)) u.setZero();
    int t0 = d.stateSOUT.getTime(); L4 base; bool sat; Vec before = m.q; bool ff = m.step(u, dt, base, sat); asked.clear();
    c.log() << "step " << modeName(m.mode) << " dt " << dt << " u " << str(u.transpose()) << " from " << str(before.transpose());
    if (simu && r.coin()) { cmd(d, "increment", {Value(dt)}); c.ev("increment-command"); } else d.increment(dt);
    c.eq(d.stateSOUT.getTime(), t0 + 1, "time-advances-by-one"); c.check(asked.size() == 1 && asked[0] == t0, "control-read-once-per-step"); ++steps;
    follow(c, d, m, ff, base, before.norm() + u.norm(), modeName(m.mode).c_str());
    closeM(c, d.motorcontrolSOUT(t0 + 1), m.q, 0, "motor-control");
    if (m.mode != NOI) c.eq(d.velocitySOUT.getTime(), t0 + 1, "velocity-stamp");
    if (m.mode == TWO) { closeM(c, d.velocitySOUT(t0 + 1), m.v, 1e-12 * (1 + m.v.norm()), "velocity"); m.v = d.velocitySOUT(t0 + 1); }
    if (m.mode == ONE) closeM(c, d.velocitySOUT(t0 + 1), u, 0, "velocity-control");
    for (int i = 0; i < 4; ++i) closeM(c, (*d.forcesSOUT[i])(t0 + 1), Vec::Zero(6), 0, "simulated-force"); closeM(c, d.ZMPPreviousControllerSOUT(t0 + 1), Vec::Zero(3), 0, "simulated-zmp");
    c.ev("step-" + modeName(m.mode) + (ff ? "-base" : "")); c.state(hashM(m.q) ^ hashM(m.v));
  }
  c.sample(c.log_.str());
}
FAMILY(floating_base, 2500, 80000) { history(c, false); }
FAMILY(fixed_base, 1000, 30000) { history(c, true); }
// many small steps at a constant base twist follow one screw motion
FAMILY(long_run, 60, 1000) {
  Rng &r = c.rng; sot::Device d(uname("dev")); cmd(d, "setSanityCheck", {Value(false)}); unsigned N = r.range(6, 9); cmd(d, "resize", {Value(N)}); Vec q = gvec(r, N); for (int i = 3; i < 6; ++i) q(i) = r.uni(-1, 1); cmd(d, "set", {Value(q)});
  Vec u = gvec(r, N); d.controlSIN.setConstant(u); double dt = r.uni(1e-3, 1e-2); int K = r.range(200, 1000); for (int k = 0; k < K; ++k) d.increment(dt);
  L6 x = u.head<6>().cast<R>() * (R)dt * (R)K; L4 w = basePose(q) * se3exp(x); Vec g = d.stateSOUT(K); c.eq(d.stateSOUT.getTime(), K, "time");
  closeM(c, basePose(g).cast<double>(), w.cast<double>(), 1e-8 * (1 + u.norm() * dt * K), "screw-motion"); closeM(c, g.tail(N - 6), q.tail(N - 6) + u.tail(N - 6) * dt * K, 1e-8 * (1 + u.norm() * dt * K), "joints"); c.ev("long-run-steps", K); c.state(hashM(g));
}
