// Shared by the monitors of entities: entities by factory name, signals by name, long-double SE(3) algebra.
#ifndef E_COMMON_HH
#define E_COMMON_HH
#include <dynamic-graph/all-commands.h>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <sot/core/matrix-geometry.hh>
#include <memory>
#include "harness_eigen.hh"
namespace dg = dynamicgraph; namespace sot = dynamicgraph::sot;
using namespace vh; using dg::command::Value;
typedef Eigen::Matrix4d M4; typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3;
typedef sot::MatrixHomogeneous MH;
typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;
static inline std::string uname(const char *p) { static int k = 0; return p + std::to_string(++k); }
static inline Value cmd(dg::Entity &e, const std::string &n, const std::vector<Value> &v = {}) { auto *c = e.getNewStyleCommand(n); c->setParameterValues(v); return c->execute(); }
// ---- independent SE(3) algebra (long double)
typedef long double R; typedef Eigen::Matrix<R, 3, 3> L3; typedef Eigen::Matrix<R, 3, 1> LV; typedef Eigen::Matrix<R, 4, 4> L4; typedef Eigen::Matrix<R, 6, 1> L6;
static inline L3 hat(const LV &w) { L3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
static inline LV rlog(const L3 &m) {  // rotation vector, angle in [0, pi)
  LV s((m(2, 1) - m(1, 2)) / 2, (m(0, 2) - m(2, 0)) / 2, (m(1, 0) - m(0, 1)) / 2);
  R sn = s.norm(), cs = (m.trace() - 1) / 2, th = std::atan2(sn, cs);
  if (sn < 1e-12L) return s;
  return s * (th / sn);
}
static inline L3 rexp(const LV &w) {
  R th = w.norm(); L3 k = hat(w);
  if (th < 1e-8L) return L3::Identity() + k + k * k / 2;
  return L3::Identity() + k * (std::sin(th) / th) + k * k * ((1 - std::cos(th)) / (th * th));
}
static inline L4 se3exp(const L6 &x) {
  LV v = x.head<3>(), w = x.tail<3>(); R th = w.norm(); L3 k = hat(w), V;
  if (th < 1e-8L) V = L3::Identity() + k / 2 + k * k / 6;
  else V = L3::Identity() + k * ((1 - std::cos(th)) / (th * th)) + k * k * ((th - std::sin(th)) / (th * th * th));
  L4 m = L4::Identity(); m.topLeftCorner<3, 3>() = rexp(w); m.topRightCorner<3, 1>() = V * v; return m;
}
static inline L6 se3log(const L4 &m) {
  L3 Rm = m.topLeftCorner<3, 3>(); LV w = rlog(Rm), t = m.topRightCorner<3, 1>(); R th = w.norm(); L3 k = hat(w), Vi;
  if (th < 1e-6L) Vi = L3::Identity() - k / 2 + k * k / 12;
  else Vi = L3::Identity() - k / 2 + k * k * ((1 - th * std::sin(th) / (2 * (1 - std::cos(th)))) / (th * th));
  L6 o; o.head<3>() = Vi * t; o.tail<3>() = w; return o;
}
static inline L4 linv(const L4 &m) { L4 o = L4::Identity(); L3 t = m.topLeftCorner<3, 3>().transpose(); o.topLeftCorner<3, 3>() = t; o.topRightCorner<3, 1>() = -(t * m.topRightCorner<3, 1>()); return o; }
static inline L4 L(const MH &m) { return m.matrix().cast<R>(); }
static inline MH toMH(const L4 &m) { MH o; o.matrix() = m.cast<double>(); return o; }
static inline MH pose(Rng &r, bool special = true) {
  MH m; m.setIdentity(); m.linear() = special ? rrot(r) : M3(grot(r));
  if (!(special && r.coin(.1))) for (int i = 0; i < 3; ++i) m.translation()(i) = special && r.coin(.1) ? 0 : 2 * r.gauss();
  return m;
}
template <class T> static inline dg::SignalPtr<T, int> &in(dg::Entity &e, const std::string &n) {
  return dynamic_cast<dg::SignalPtr<T, int> &>(e.getSignal(n));
}
template <class T> static inline dg::Signal<T, int> &out(dg::Entity &e, const std::string &n = "sout") {
  return dynamic_cast<dg::Signal<T, int> &>(e.getSignal(n));
}
typedef std::unique_ptr<dg::Entity> EP;
static inline EP make(const std::string &cls) { return EP(dg::FactoryStorage::getInstance()->newEntity(cls, uname(cls.c_str()))); }
#endif
