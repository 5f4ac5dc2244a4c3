// @sources src/tools/device.cpp src/tools/robot-simu.cpp src/tools/periodic-call.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives a device with bounds and sanity checks through controls that push against the bounds, hold not-a-numbers or stay inside, next to an independent model; distinct = distinct states reached
#include "D_common.hh"
static Vec lowB(Rng &r, int n, double s) { Vec v(n); for (int i = 0; i < n; ++i) v(i) = r.coin(.15) ? -std::numeric_limits<double>::infinity() : r.coin(.1) ? 0 : -r.uni(0, s); return v; }
static Vec uppB(Rng &r, const Vec &l, double s) { Vec v(l.size()); for (int i = 0; i < v.size(); ++i) v(i) = r.coin(.15) ? std::numeric_limits<double>::infinity() : r.coin(.1) ? (std::isfinite(l(i)) ? l(i) : 0) : std::max(0., std::isfinite(l(i)) ? l(i) : 0.) + r.uni(0, s); return v; }
FAMILY(bounds, 3000, 100000) {
  Rng &r = c.rng; sot::Device d(uname("dev")); Model m; int N = r.coin(.7) ? r.range(6, 12) : r.range(1, 5); bool freeRot = false;
  cmd(d, "resize", {Value((unsigned)N)}); m.q = m.v = Vec::Zero(N); int tn = -1;
  if (r.coin()) { cmd(d, "setSanityCheck", {Value(false)}); m.sanity = false; }
  Vec u; d.controlSIN.setConstant(Vec::Zero(1)); int T = r.range(4, 25); double wide = r.coin(.2) ? 50 : 2;
  for (int k = 0; k < T; ++k) {
    int what = r.range(0, 15);
    if (what == 0 || (k < 3 && what < 9)) {
      int b = k < 3 ? k : r.range(0, 2); const char *nm[] = {"setPositionBounds", "setVelocityBounds", "setTorqueBounds"}; Vec l = lowB(r, N, wide), h = uppB(r, l, wide);
      if (b == 0 && N >= 6 && r.coin(.7)) { for (int i = 3; i < 6; ++i) { l(i) = -10; h(i) = 10; } freeRot = false; } else if (b == 0) freeRot = true;
      if (r.coin(.25)) { int s = std::max(0, r.pick(std::vector<int>{0, N - 1, N + 1, N + 6})); if (s != N) { bool lowbad = r.coin(); Vec x = Vec::Zero(s); c.throws<std::invalid_argument>([&] { cmd(d, nm[b], {Value(lowbad ? x : l), Value(lowbad ? h : x)}); }, "bounds-of-wrong-size"); c.ev("refused-bounds"); if (b == 0 && m.lp.size() == N) freeRot = freeRot || N < 6 || m.lp.segment(3, 3).maxCoeff() != -10 || m.up.segment(3, 3).minCoeff() != 10; continue; } }
      cmd(d, nm[b], {Value(l), Value(h)}); c.log() << nm[b] << " " << str(l.transpose()) << " " << str(h.transpose()); if (b == 0) { m.lp = l; m.up = h; } if (b == 1) { m.lv = l; m.uv = h; } if (b == 2) tn = N; c.ev(nm[b]); continue;
    }
    if (what == 1) {
      bool on = r.coin(.8), ok = !on || (m.lp.size() == N && (m.mode == NOI || m.lv.size() == N) && (m.mode != TWO || tn == N));
      if (ok) { cmd(d, "setSanityCheck", {Value(on)}); m.sanity = on; c.ev(on ? "enabled" : "disabled"); } else { c.throws<std::invalid_argument>([&] { cmd(d, "setSanityCheck", {Value(true)}); }, "enabled-without-bounds"); c.ev("refused-enabling"); } continue;
    }
    if (what == 2) { m.mode = r.range(0, 2); cmd(d, "setControlInputType", {Value(modeName(m.mode))}); continue; }
    if (what == 3) { Vec q = rvec(r, N); for (int i = 3; i < std::min(6, N); ++i) q(i) = r.uni(-1.2, 1.2); bool ok = !m.sanity || ((m.mode == NOI || m.lv.size() == N) && (m.mode != TWO || tn == N)); if (ok) { cmd(d, "set", {Value(q)}); m.q = q; } else c.throws<std::invalid_argument>([&] { cmd(d, "set", {Value(q)}); }, "set-without-bounds"); continue; }
    if (what == 5 && r.coin(.4)) {  // another size: the bounds of the former size do not apply to it
      N = r.coin() ? std::max(1, N + r.range(-2, 2)) : r.coin(.7) ? r.range(6, 12) : r.range(1, 5); cmd(d, "resize", {Value((unsigned)N)}); m.q = m.v = Vec::Zero(N); c.log() << "resize " << N; c.ev("resized");
      freeRot = m.lp.size() == N && (N < 6 || m.lp.segment(3, 3).maxCoeff() != -10 || m.up.segment(3, 3).minCoeff() != 10); continue;
    }
    if (what == 4) { m.v = gvec(r, N); cmd(d, "setVelocity", {Value(m.v)}); continue; }
    int n = N >= 6 && r.coin() ? (r.coin(.6) ? N : N - 6) : r.range(0, N < 6 ? N - 1 : N); double dt = r.uni(1e-3, .5); u = gvec(r, n, r.coin(.3) ? .05 : 4); if (n && r.coin(.15)) { int i = r.range(0, n - 1); u(i) = r.coin() ? NAN : -NAN; if (!m.sanity) continue; }
    double un = u.hasNaN() ? 0 : u.norm();
    if (n && m.sanity && !u.hasNaN() && r.coin(.15)) {  // an infinite command is brought back to the bound
      for (int times = r.range(1, 2); times; --times) { int i = r.range(0, n - 1), j = N - n + i; const Vec &l = m.mode == NOI ? m.lp : m.lv, &h = m.mode == NOI ? m.up : m.uv;
      if ((m.mode == NOI && m.checkP()) || (m.mode == ONE && m.checkV())) if (std::isfinite(l(j)) && std::isfinite(h(j))) { u(i) = r.coin() ? INFINITY : -INFINITY; c.ev("infinite"); } }
    }
    L4 base; bool sat; Vec q0 = m.q, v0 = m.v; bool ff = m.step(u, dt, base, sat); int t0 = d.stateSOUT.getTime(); d.controlSIN.setConstant(u); d.increment(dt); Vec q = d.stateSOUT(t0 + 1);
    c.log() << "step " << modeName(m.mode) << " sanity " << m.sanity << " dt " << dt << " u " << str(u.transpose()) << " from " << str(q0.transpose()) << " to " << str(q.transpose());
    c.eq(d.stateSOUT.getTime(), t0 + 1, "time-advances-by-one");
    if (m.sanity && u.hasNaN()) { closeM(c, q, q0, 0, "state-after-not-a-number"); if (m.mode == TWO) closeM(c, d.velocitySOUT(0), v0, 0, "velocity-after-not-a-number"); c.ev("not-a-number"); continue; }
    if (m.checkP()) for (int i = 0; i < N; ++i) c.check(q(i) >= m.lp(i) && q(i) <= m.up(i), "position-within-bounds");
    if (m.mode == TWO) { Vec v = d.velocitySOUT(0); if (m.checkV()) for (int i = 0; i < N; ++i) c.check(v(i) >= m.lv(i) && v(i) <= m.uv(i), "velocity-within-bounds"); closeM(c, v, m.v, 1e-12 * (1 + m.v.norm()), "velocity"); m.v = v; }
    follow(c, d, m, ff, base, q0.norm() + un + v0.norm(), "bounded-step", freeRot && m.checkP()); closeM(c, d.motorcontrolSOUT(0), m.q, 0, "motor-control");
    c.ev("step-" + modeName(m.mode) + (m.sanity ? sat ? "-saturated" : "-inside" : "-unchecked")); c.state(hashM(m.q));
  }
}
