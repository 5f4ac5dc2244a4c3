// @sources src/debug/debug.cpp src/tools/smooth-reach.cpp src/tools/motion-period.cpp src/tools/com-freezer.cpp src/tools/binary-int-to-uint.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp
// @rule each case steps a reference shaper through a history of inputs, settings and times, and compares every output with its profile; distinct = distinct output histories
#include <sot/core/motion-period.hh>
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, 1> LX;
FAMILY(reach, 3000, 100000) {
  Rng &r = c.rng; EP e = make("SmoothReach"); auto &o = out<Vec>(*e, "goal"); int n = r.range(1, 6), mode = 2, t = r.range(-5, 20), t0 = 0, len = 1; double beta = 1.2; Vec start, goal, from; bool pending = false; uint64_t h = n;
  for (int leg = 0, legs = r.range(1, 4); leg < legs; ++leg) {
    if (r.coin(.3)) n = r.range(1, 6); goal = rvec(r, n); len = r.pick(std::vector<int>{1, 2, 3, r.range(4, 50), r.range(50, 3000)}); cmd(*e, "set", {Value(goal), Value(len)}); pending = true;
    if (leg == 0 || r.coin()) { mode = r.range(0, 2); beta = r.pick(std::vector<double>{1.2, .45, 1.5, r.uni(.01, 5), r.uni(.001, .1)}); cmd(*e, "param", {Value(mode), Value(beta)}); c.ev("mode-" + std::to_string(mode)); }
    start = rvec(r, n); in<Vec>(*e, "start") = start; int steps = r.range(1, 25), stride = std::max(1, (int)(len * r.uni(.2, 2.5) / steps)); R px = -1;
    for (int s = 0; s < steps; ++s) {
      t += r.coin(.2) ? 1 : r.coin(.2) ? r.range(1, 1 + len / 30) : stride; if (r.coin(.3)) { start = rvec(r, n); in<Vec>(*e, "start") = start; if (!pending) c.ev("start-moved-during-motion"); }
      if (pending) { from = start; t0 = t; pending = false; c.ev("leg"); }
      R x = (R)(t - t0) / len, y; if (x > 1) x = 1; if (mode == 0) y = x; else if (x <= 0) y = 0; else if (x >= 1) y = 1; else { R z = -beta / x + beta / (1 - x); y = mode == 1 ? std::tanh(z) / 2 + .5L : std::atan(z) / 3.14159265358979323846264338327950288L + .5L; }
      for (int rep = r.range(1, 2); rep; --rep) {
        const Vec &g = o(t); c.eq(g.size(), n, "size");
        for (int i = 0; i < n; ++i) { R w = from(i) * (1 - y) + goal(i) * y, m = 1e-13L * (std::fabs(from(i)) + std::fabs(goal(i))); c.check(std::fabs(g(i) - w) <= m, x <= 0 ? "starts-at-the-start" : x >= 1 ? "stays-at-the-goal" : "profile", [&](std::ostream &os) { os << "mode " << mode << " beta " << beta << " step " << t - t0 << " of " << len << " got " << g(i) << " expected " << (double)w << " from " << from(i) << " to " << goal(i); }); c.check(g(i) <= std::max(from(i), goal(i)) + m && g(i) >= std::min(from(i), goal(i)) - m, "stays-between-start-and-goal"); }
        h = h * 31 + hashM(g);
      }
      c.ev(x <= 0 ? "at-start" : x >= 1 ? "at-goal" : "moving"); c.check(px <= y + 1e-15L, "progress"); px = y;
    }
  }
  c.state(h);
}
struct MP : sot::MotionPeriod {
  MP(const std::string &n) : MotionPeriod(n) {}
  void sz(unsigned n) { resize(n); }
  void set(int i, int ty, unsigned per, unsigned init, double a, double a0) { auto &p = motionParams[i]; p.motionType = ty == 0 ? MOTION_CONSTANT : ty == 1 ? MOTION_SIN : MOTION_COS; p.period = per; p.initPeriod = init; p.amplitude = a; p.initAmplitude = a0; }
};
FAMILY(periodic, 2500, 80000) {
  Rng &r = c.rng; MP m(uname("period")); int n = r.range(0, 6); m.sz(n); struct P { int ty; unsigned per, init; double a, a0; }; std::vector<P> p(n, P{0, 1, 0, 0, 0}); int t = r.range(0, 10); uint64_t h = n;
  auto draw = [&](int i) { p[i] = P{r.range(0, 2), (unsigned)r.pick(std::vector<int>{1, 2, 3, 4, 5, r.range(6, 400)}), (unsigned)(r.coin(.3) ? 0 : r.range(0, 60)), r.val(), r.coin(.3) ? 0 : r.val()}; m.set(i, p[i].ty, p[i].per, p[i].init, p[i].a, p[i].a0); };
  for (int i = 0; i < n; ++i) if (r.coin(.9)) draw(i);
  std::vector<std::map<int, double>> seen(n);
  for (int s = 0, S = r.range(1, 25); s < S; ++s) {
    if (r.coin(.05)) { n = r.range(0, 6); m.sz(n); p.assign(n, P{0, 1, 0, 0, 0}); seen.assign(n, {}); c.ev("resized"); for (int i = 0; i < n; ++i) if (r.coin(.8)) draw(i); } if (n && r.coin(.05)) { int i = r.range(0, n - 1); draw(i); seen[i].clear(); }
    t += n && r.coin(.4) ? (int)p[r.range(0, n - 1)].per : r.range(1, 30);
    for (int rep = r.range(1, 2); rep; --rep) {
      const Vec &g = m.motionSOUT(t); c.eq(g.size(), n, "size");
      for (int i = 0; i < n; ++i) {
        long el = (long)t - (long)p[i].init, ph = ((el % (long)p[i].per) + p[i].per) % p[i].per; R x = (R)ph / p[i].per, w = p[i].a0, k = 2 * 3.14159265358979323846264338327950288L * x; w += p[i].ty == 0 ? (R)p[i].a : p[i].ty == 1 ? p[i].a * std::sin(k) : p[i].a * std::cos(k);
        c.check(std::fabs(g(i) - w) <= 4e-15L * (std::fabs(p[i].a) * 4 + std::fabs(p[i].a0)), "profile", [&](std::ostream &o) { o << "type " << p[i].ty << " period " << p[i].per << " from " << p[i].init << " at " << t << " got " << g(i) << " expected " << (double)w; });
        auto it = seen[i].find(ph); if (it != seen[i].end()) { c.check(std::fabs(it->second - g(i)) <= 1e-14 * (std::fabs(p[i].a) + std::fabs(p[i].a0)), "repeats-with-its-period"); c.ev("same-phase"); } else seen[i][ph] = g(i);
        c.ev(el < 0 ? "before-initial-time" : p[i].ty == 0 ? "constant" : p[i].ty == 1 ? "sine" : "cosine");
      }
      h = h * 31 + hashM(g);
    }
  }
  c.state(h);
}
FAMILY(freezer, 2500, 80000) {
  Rng &r = c.rng; EP e = make("CoMFreezer"); auto &o = out<Vec>(*e, "freezedCoM"); int t = r.pick(std::vector<int>{0, 1, 150, 500}); bool prev = false, first = true, pg = false; long stop = -1000; Vec com, held; uint64_t h = 1; double stay = r.uni(.5, .97);
  for (int s = 0, S = r.range(2, 60); s < S; ++s) {
    bool both = first || r.coin(); if (both || r.coin()) { com = Vec(3); for (int i = 0; i < 3; ++i) com(i) = r.val(); in<Vec>(*e, "CoMRef") = com; } if (first || r.coin(.8)) { if (first ? r.coin() : !r.coin(stay)) pg = !pg; in<unsigned>(*e, "PGInProcess") = pg ? (unsigned)r.range(1, 3) : 0u; }
    t += r.coin(.6) ? r.range(1, 5) : r.coin() ? r.range(30, 120) : r.range(190, 210); if (r.coin(.1) && !pg && stop + 199 > t) t = stop + r.range(199, 200);
    if (!first || true) { com = Vec(com); in<Vec>(*e, "CoMRef") = com; }
    bool follow = true; if (first) { stop = t; c.ev("first"); } else if (pg) c.ev("running"); else if (prev) { stop = t; c.ev("just-stopped"); } else if (t < stop + 200) c.ev("still-following"); else { follow = false; c.ev("frozen"); }
    first = false; prev = pg; if (follow) held = com;
    for (int rep = r.range(1, 2); rep; --rep) { const Vec &g = o(t); c.check(g.size() == 3 && g == held, follow ? "follows-its-input" : "holds-the-last-followed", [&](std::ostream &x) { x << "time " << t << " stopped at " << stop << " running " << pg << " got " << g.transpose() << " expected " << held.transpose(); }); }
    h = h * 3 + follow + 2 * pg;
  }
  c.state(h);
}
FAMILY(binary, 1500, 40000) {
  Rng &r = c.rng; EP e = make("BinaryIntToUint"); int t = 0;
  for (int s = 0, S = r.range(1, 10); s < S; ++s) { int v = r.pick(std::vector<int>{-1, 0, 1, INT_MIN, INT_MAX, r.range(-100, 100), -2, 2}); in<int>(*e, "sin") = v; t += r.range(1, 2); for (int k = r.range(1, 2); k; --k) c.check(out<unsigned>(*e, "sout")(t) == (v >= 0 ? 1u : 0u), "sign", [&](std::ostream &o) { o << v; }); c.ev(v < 0 ? "negative" : v ? "positive" : "zero"); c.state(v); }
}
