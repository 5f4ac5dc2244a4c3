// @sources src/debug/debug.cpp src/tools/joint-limitator.cpp src/tools/gripper-control.cpp src/tools/clamp-workspace.cpp src/tools/neck-limitation.cpp src/sot/flags.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp
// @rule each case drives a limiter with inputs refreshed all together or one at a time, at and around its limits, and compares its outputs with the limit law; distinct = distinct outputs
#include <sot/core/flags.hh>
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, 1> LX;
FAMILY(joints, 3000, 100000) {
  Rng &r = c.rng; EP e = make("JointLimitator"); int t = 0, n = 0, off = 0; Vec q, u, lo, up; static const char *names[] = {"joint", "upperJl", "lowerJl", "controlIN"};
  for (int s = 0, S = r.range(1, 8); s < S; ++s) {
    int one = s && r.coin() ? r.range(0, 3) : -1;
    if (one < 0 && (!s || r.coin(.2))) { n = r.range(1, 12); off = r.pick(std::vector<int>{0, 0, 6, 1, 3}); }
    auto draw = [&](int i) {
      switch (i) {
        case 0: if (q.size() != n + off || r.coin()) q = rvec(r, n + off); for (int k = 0; k < q.size(); ++k) if (r.coin(.5)) q(k) = r.uni(-1, 1); in<Vec>(*e, "joint") = q; break;
        case 1: up = Vec(n + off); for (int k = 0; k < up.size(); ++k) up(k) = r.coin(.5) ? r.uni(0, 1) : r.coin(.3) ? q.size() == n + off ? q(k) : 0 : std::fabs(r.val()); in<Vec>(*e, "upperJl") = up; break;
        case 2: lo = Vec(n + off); for (int k = 0; k < lo.size(); ++k) lo(k) = r.coin(.5) ? r.uni(-1, 0) : r.coin(.3) ? q.size() == n + off ? q(k) : 0 : -std::fabs(r.val()); in<Vec>(*e, "lowerJl") = lo; break;
        default: u = Vec(n); for (int k = 0; k < n; ++k) { u(k) = r.coin(.1) ? 0 : r.coin() ? r.gauss() * 200 : r.val(); if (r.coin(.2) && up.size() == n + off && q.size() == n + off) u(k) = ((r.coin() ? up(k + off) : lo(k + off)) - q(k + off)) / .005; } in<Vec>(*e, "controlIN") = u;
      }
    };
    if (one < 0) for (int i = 0; i < 4; ++i) draw(i); else draw(one), c.ev(std::string("only-") + names[one]);
    t += r.range(1, 2); bool wFirst = r.coin();
    auto width = [&] { const Vec &w = out<Vec>(*e, "widthJl")(t); c.eq(w.size(), up.size(), "width-size"); for (int k = 0; k < w.size(); ++k) c.check(w(k) == up(k) - lo(k), "width"); };
    if (wFirst) width();
    for (int rep = r.range(1, 2); rep; --rep) {
      const Vec &g = out<Vec>(*e, "control")(t); c.eq(g.size(), u.size(), "control-size");
      for (int i = 0; i < n; ++i) {
        int k = i + off; R nx = (R)q(k) + .005L * u(i), m = 1e-15L * (std::fabs(q(k)) + std::fabs(u(i)) + std::fabs(up(k)) + std::fabs(lo(k)));
        bool must = k < 6 || (nx < up(k) - m && nx > lo(k) + m), must0 = k >= 6 && (nx > up(k) + m || nx < lo(k) - m);
        if (must) { c.check(g(i) == u(i), k < 6 ? "free-flyer-passes" : "allowed-control-passes", [&](std::ostream &o) { o << "joint " << k << " at " << q(k) << " control " << u(i) << " in " << lo(k) << ".." << up(k) << " got " << g(i); }); c.ev(k < 6 ? "free-flyer" : "passed"); }
        else if (must0) { c.check(g(i) == 0, "control-beyond-limit-zeroed", [&](std::ostream &o) { o << "joint " << k << " at " << q(k) << " control " << u(i) << " in " << lo(k) << ".." << up(k) << " got " << g(i); }); c.ev(nx > up(k) ? "above" : "below"); }
        else { c.check(g(i) == 0 || g(i) == u(i), "control-at-limit"); c.ev("at-limit"); }
        // the guarantee itself: a joint inside its bounds stays inside
        if (k >= 6 && q(k) < up(k) && q(k) > lo(k)) c.check((R)q(k) + .005L * g(i) <= up(k) + m && (R)q(k) + .005L * g(i) >= lo(k) - m, "stays-within-bounds");
      }
      c.state(hashM(g));
    }
    if (!wFirst) width();
  }
}
FAMILY(joints_exactly_at_limit, 600, 20000) {  // numbers for which the next position is exact: reaching the bound is refused, stopping short of it is not
  Rng &r = c.rng; EP e = make("JointLimitator"); int n = r.range(7, 12); Vec q(n), u(n), up(n), lo(n); std::vector<int> w(n);
  for (int t = 1, T = r.range(1, 4); t <= T; ++t) {
    for (int k = 0; k < n; ++k) {
      int d = r.range(1, 4) * (r.coin() ? 1 : -1); q(k) = r.range(-8, 8) * .25; u(k) = 200. * d; 
      w[k] = r.range(0, 1); double room = w[k] ? r.range(1, 3) * .125 : 0; up(k) = d > 0 ? q(k) + d + room : q(k) + 5; lo(k) = d < 0 ? q(k) + d - room : q(k) - 5;
    }
    in<Vec>(*e, "joint") = q; in<Vec>(*e, "upperJl") = up; in<Vec>(*e, "lowerJl") = lo; in<Vec>(*e, "controlIN") = u; const Vec &g = out<Vec>(*e, "control")(t);
    for (int k = 6; k < n; ++k) { c.check(g(k) == (w[k] ? u(k) : 0), w[k] ? "short-of-limit-passes" : "reaching-limit-zeroed", [&](std::ostream &o) { o << "joint " << k << " at " << q(k) << " control " << u(k) << " in " << lo(k) << ".." << up(k) << " got " << g(k); }); c.ev(w[k] ? "short" : "reached"); }
    c.state(hashM(g));
  }
}
FAMILY(gripper, 3000, 100000) {
  Rng &r = c.rng; EP e = make("GripperControl"); double off = .9; int t = 0; bool direct = r.coin(.4); LX fac; Vec pos, des, tq, lim, fpos, ftq, flim; std::vector<bool> sel;
  static const char *nd[] = {"position", "torque", "torqueLimit"}, *nf[] = {"positionFullIN", "torqueFullIN", "torqueLimitFullIN"};
  int n = 0, full = 0;
  auto reduce = [&](const Vec &f) { std::vector<double> v; for (int i = 0; i < f.size(); ++i) if (i < (int)sel.size() && sel[i]) v.push_back(f(i)); Vec o(v.size()); for (size_t i = 0; i < v.size(); ++i) o(i) = v[i]; return o; };
  for (int s = 0, S = r.range(1, 25); s < S; ++s) {
    if (r.coin(.1)) { double o = r.pick(std::vector<double>{.5, .9, .99, .01, r.uni(.001, .999)}); cmd(*e, "offset", {Value(o)}); off = o; c.ev("offset"); }
    if (r.coin(.1)) { double o = r.pick(std::vector<double>{0., 1., -.5, 2., 1e9}); c.throws<std::invalid_argument>([&] { cmd(*e, "offset", {Value(o)}); }, "offset-out-of-range"); c.ev("offset-refused"); }
    int one = s && r.coin(.6) ? r.range(0, 3) : -1;
    if (one < 0 && (!s || r.coin(.15))) {
      full = r.coin(.05) ? r.range(20, 90) : r.range(1, 10); sel.assign(full, false); n = 0; for (int i = 0; i < full; ++i) if (r.coin(.6)) { sel[i] = true; ++n; } if (!n) { sel[0] = true; n = 1; } if (direct) n = full, sel.assign(full, true);
      if (!direct) { sot::Flags f; for (int i = 0; i < full; ++i) f.add(sel[i]); in<sot::Flags>(*e, "selec") = f; } if (s) c.ev("resized");
    }
    auto give = [&](int k, Vec &f, Vec &v) { if (direct) { v = f; in<Vec>(*e, nd[k]) = v; } else { in<Vec>(*e, nf[k]) = f; v = reduce(f); } };
    auto draw = [&](int i) {
      switch (i) {
        case 0: fpos = Vec(full); for (int k = 0; k < full; ++k) fpos(k) = r.uni(-2, 2); give(0, fpos, pos); break;
        case 1: des = Vec(n); for (int k = 0; k < n; ++k) des(k) = pos.size() == n && r.coin(.2) ? pos(k) + (r.coin() ? 0 : r.uni(-1, 1) * std::pow(10., -r.range(2, 9))) : r.uni(-2, 2); in<Vec>(*e, "positionDes") = des; break;
        case 2: if (direct && r.coin(.15)) { tq = Vec(0); in<Vec>(*e, "torque") = tq; ftq = tq; } else { ftq = Vec(full); for (int k = 0; k < full; ++k) ftq(k) = r.coin(.15) && flim.size() == full ? (r.coin() ? 1 : -1) * flim(k) : r.uni(-20, 20); give(1, ftq, tq); } break;
        default: flim = Vec(full); for (int k = 0; k < full; ++k) flim(k) = r.coin(.1) ? 0 : r.uni(0, 15); give(2, flim, lim);
      }
    };
    if (one < 0) for (int i = 0; i < 4; ++i) draw(i); else draw(one); t += r.range(1, 2);
    if (fac.size() != n) fac = LX::Ones(n);
    for (int i = 0; i < n && tq.size(); ++i) { bool push = (tq(i) > lim(i) && des(i) > pos(i)) || (tq(i) < -lim(i) && des(i) < pos(i)); fac(i) = push ? fac(i) * off : fac(i) / off; if (fac(i) > 1) fac(i) = 1; c.ev(push ? "held-back" : fac(i) < 1 ? "releasing" : "free"); } if (!tq.size()) c.ev("no-torque");
    for (int rep = r.range(1, 2); rep; --rep) {
      const Vec &g = out<Vec>(*e, "reference")(t); c.eq(g.size(), n, "reference-size");
      for (int i = 0; i < n; ++i) { R w = pos(i) + fac(i) * ((R)des(i) - pos(i)); c.check(std::fabs(g(i) - w) <= 1e-13L * (std::fabs(pos(i)) + std::fabs(des(i)) + 1e-3L), "reference", [&](std::ostream &o) { o << "joint " << i << " of " << n << " position " << pos(i) << " wanted " << des(i) << " factor " << (double)fac(i) << " got " << g(i) << " expected " << (double)w; }); }
      c.state(hashM(g));
    }
  }
}
FAMILY(grip_until_stall, 400, 15000) {  // a blocked joint whose torque exceeds its limit is asked to move less and less, and is released afterwards
  Rng &r = c.rng; EP e = make("GripperControl"); int n = r.range(1, 4), t = 0; double off = r.uni(.3, .95); cmd(*e, "offset", {Value(off)}); Vec pos(n), des(n), lim(n), tq(n); for (int i = 0; i < n; ++i) { pos(i) = r.uni(-1, 1); des(i) = pos(i) + (r.coin() ? 1 : -1) * r.uni(.1, 1); lim(i) = r.uni(.5, 5); tq(i) = (des(i) > pos(i) ? 1 : -1) * (lim(i) + .1); }
  in<Vec>(*e, "position") = pos; in<Vec>(*e, "positionDes") = des; in<Vec>(*e, "torqueLimit") = lim; R prev = 1; int N = r.range(3, 60);
  for (int k = 0; k < N; ++k) { in<Vec>(*e, "torque") = tq; const Vec &g = out<Vec>(*e, "reference")(++t); for (int i = 0; i < n; ++i) { R d = (g(i) - pos(i)) / (R)(des(i) - pos(i)); c.check(d <= prev * off + 1e-12L && d >= -1e-12L, "motion-shrinks-while-overloaded"); } prev = (g(0) - pos(0)) / (R)(des(0) - pos(0)); c.ev("overloaded"); }
  for (int k = 0; k < N; ++k) { Vec z = Vec::Zero(n); in<Vec>(*e, "torque") = z; out<Vec>(*e, "reference")(++t); }
  const Vec &g = out<Vec>(*e, "reference").accessCopy(); for (int i = 0; i < n; ++i) c.check(std::fabs(g(i) - des(i)) < 1e-9, "released-after-overload"); c.ev("released"); c.state(hashM(g));
}
FAMILY(workspace, 1500, 50000) {
  Rng &r = c.rng; EP e = make("ClampWorkspace"); int t = 0; MH ref, pos; const R th0 = -30.L * 3.14159L / 180, th1 = 5.L * 3.14159L / 180;
  for (int s = 0, S = r.range(1, 6); s < S; ++s) {
    int one = s && r.coin() ? r.range(0, 1) : -1; if (one != 1) { ref = pose(r); in<MH>(*e, "positionref") = ref; } if (one != 0) { pos = pose(r); if (r.coin(.6)) { L4 m = L(pos); for (int i = 0; i < 3; ++i) m(i, 3) = r.uni(-.6, .7); pos = toMH(L4(L(ref) * m)); c.ev("near-workspace"); } in<MH>(*e, "position") = pos; }
    t += r.range(1, 2); L4 x = linv(L(ref)) * L(pos); std::vector<int> o{0, 1, 2, 0}; r.shuffle(o);
    for (int k : o) {
      if (k < 2) { const Mat &a = out<Mat>(*e, k ? "alphabar" : "alpha")(t); c.check(a.rows() == 6 && a.cols() == 6, "projector-size"); Mat w = Mat::Zero(6, 6); for (int i = 0; i < 6; ++i) w(i, i) = (i < 3) != (k == 1); closeM(c, a, w, 1e-13, k ? "complementary-projector" : "projector"); c.state(hashM(a)); c.ev("projector"); }
      else { const MH &h = out<MH>(*e, "ref")(t); static const R ctr[3] = {.325L, -.325L, .35L}; for (int i = 0; i < 3; ++i) c.check(std::fabs(h(i, 3) - ctr[i]) < 1e-14L, "reference-at-the-workspace-centre"); R yaw = th0 + (th1 - th0) * (x(1, 3) + .4L) / .15L, p = -3.14159256L / 2; L3 z, y; z = rexp(LV(0, 0, yaw)); y = rexp(LV(0, p, 0)); L3 w = z * y; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check(std::fabs(h(i, j) - w(i, j)) < 1e-13L * (1 + std::fabs(yaw) + 4 * std::fabs(x(1, 3)) + 30), "reference-orientation", [&](std::ostream &o2) { o2 << i << "," << j << " got " << h(i, j) << " expected " << (double)w(i, j) << " yaw " << (double)yaw; }); c.state(hashM(h.matrix())); c.ev("reference"); }
    }
  }
}
FAMILY(neck, 2500, 80000) {
  Rng &r = c.rng; EP e = make("NeckLimitation"); int t = 0; const R A = -25.0L / 42, B = .6981L;
  for (int s = 0, S = r.range(1, 8); s < S; ++s) {
    Vec q = rvec(r, r.range(16, 24)); double pan = r.coin(.15) ? r.uni(-.0015, .0015) : r.coin(.05) ? 0 : r.uni(-1.5, 1.5), edge = (std::fabs(pan) < 1e-3 ? 0 : std::fabs(pan) * (double)A) + (double)B; q(14) = pan; q(15) = r.coin(.3) ? edge + r.uni(-1e-3, 1e-3) : r.coin(.1) ? r.val() : r.uni(-1.5, 1.5); in<Vec>(*e, "joint") = q; t += r.range(1, 2);
    for (int rep = r.range(1, 2); rep; --rep) {
      const Vec &g = out<Vec>(*e, "jointLimited")(t); c.eq(g.size(), q.size(), "size"); for (int i = 0; i < q.size(); ++i) if (i != 15) c.check(g(i) == q(i), "other-joints-untouched", [&](std::ostream &o) { o << "joint " << i; });
      R lim = B + (std::fabs(pan) < 1e-3 ? 0 : A * std::fabs((R)pan)), m = 1e-15L; c.check(g(15) <= lim + m, "tilt-within-limit", [&](std::ostream &o) { o << "pan " << pan << " tilt " << q(15) << " got " << g(15) << " limit " << (double)lim; });
      if (q(15) < lim - m) { c.check(g(15) == q(15), "tilt-inside-passes"); c.ev("inside"); } else { c.check(std::fabs(g(15) - lim) <= m, "tilt-clamped-to-limit"); c.ev(pan < -1e-3 ? "clamped-left" : pan > 1e-3 ? "clamped-right" : "clamped-centre"); } c.state(hashM(g));
    }
  }
}
