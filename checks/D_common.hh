// A device next to an independent model of it.
#ifndef D_COMMON_HH
#define D_COMMON_HH
#include <sot/core/device.hh>
#include <sot/core/robot-simu.hh>
#include <dynamic-graph/pool.h>
#include "E_common.hh"
static L3 axrot(int k, R a) { LV w = LV::Zero(); w(k) = 1; return L3::Identity() + hat(w) * std::sin(a) + hat(w) * hat(w) * (1 - std::cos(a)); }
static L4 basePose(const Vec &q) { L4 m = L4::Identity(); m.topLeftCorner<3, 3>() = axrot(2, q(5)) * axrot(1, q(4)) * axrot(0, q(3)); m.topRightCorner<3, 1>() = q.head<3>().cast<R>(); return m; }
enum { NOI = 0, ONE = 1, TWO = 2 };
struct Model {
  Vec q = Vec::Zero(6), v = Vec::Zero(6), lp, up, lv, uv; int mode = ONE; bool sanity = true;
  bool checkP() const { return sanity && lp.size() == q.size(); }
  bool checkV() const { return sanity && lv.size() == v.size(); }
  static double cl(double x, double a, double b) { return x < a ? a : x > b ? b : x; }
  // returns the pose of the base if it was moved as a pose
  bool step(const Vec &u, double dt, L4 &base, bool &saturated) {
    saturated = false; int n = u.size(), N = q.size(), o = N - n; bool ff = false;
    auto sat = [&](double &x, double a, double b) { double y = cl(x, a, b); if (y != x) { x = y; saturated = true; } };
    if (sanity && u.hasNaN()) return false;
    if (mode == NOI) { for (int i = 0; i < n; ++i) q(o + i) = u(i); }
    else {
      std::vector<R> w(n); for (int i = 0; i < n; ++i) w[i] = mode == TWO ? (R)v(o + i) + (R)u(i) * dt / 2 : (R)u(i);
      if (mode == TWO) for (int i = 0; i < n; ++i) v(o + i) = (double)((R)v(o + i) + (R)u(i) * dt);
      if (checkV()) { if (mode == TWO) for (int i = 0; i < N; ++i) sat(v(i), lv(i), uv(i)); else for (int i = 0; i < n; ++i) { double x = w[i]; sat(x, lv(o + i), uv(o + i)); w[i] = x; } }
      int from = 0;
      if (n == N) { ff = true; from = 6; L6 x; for (int i = 0; i < 6; ++i) x(i) = w[i] * dt; base = basePose(q) * se3exp(x); q.head<3>() = base.topRightCorner<3, 1>().cast<double>(); }
      for (int i = from; i < n; ++i) q(o + i) = (double)((R)q(o + i) + w[i] * dt);
    }
    if (checkP()) for (int i = 0; i < N; ++i) { if (ff && i >= 3 && i < 6) continue; sat(q(i), lp(i), up(i)); }
    return ff;
  }
};
static inline std::string modeName(int m) { return m == NOI ? "noInteg" : m == ONE ? "oneInteg" : "twoInteg"; }
// compare the device with the model after a step; the representation of the base's orientation is the device's
static void follow(Case &c, sot::Device &d, Model &m, bool ff, const L4 &base, double scale, const char *key, bool freeRot = false) {
  int t = d.stateSOUT.getTime(); Vec q = d.stateSOUT(t); c.eq((int)q.size(), (int)m.q.size(), "state-size");
  if (ff) {
    if (!freeRot) { L4 g = basePose(q); closeM(c, g.topLeftCorner<3, 3>().cast<double>(), base.topLeftCorner<3, 3>().cast<double>(), 1e-9, key); }
    m.q.segment<3>(3) = q.segment<3>(3);
  }
  closeM(c, q, m.q, 1e-9 * (ff ? 1 + scale : 1e-3 * (1 + scale)), key);
  m.q = q;
}
#endif
