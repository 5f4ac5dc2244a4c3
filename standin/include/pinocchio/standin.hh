// Stand-in for the few pinocchio Lie-group operations used by sot-core
// (pinocchio is not installed in this sandbox).  Conventions are pinocchio's:
// configurations are [translation, quaternion(x,y,z,w)], tangent vectors are
// [linear, angular] and expressed in the local (right) frame.
#ifndef VERIF_PINOCCHIO_STANDIN_HH
#define VERIF_PINOCCHIO_STANDIN_HH
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <boost/type_traits.hpp>
#include <boost/type_traits/is_same.hpp>
#include <boost/mpl/if.hpp>
#include <cmath>

namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1 };

namespace standin {
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
inline M3 skew(const V3 &v) {
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
inline V3 log3(const M3 &R) {
  Eigen::Quaterniond q(R);
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  const double n = q.vec().norm();
  if (n < 1e-12) return 2 * q.vec();
  return (2 * std::atan2(n, q.w()) / n) * q.vec();
}
inline M3 exp3(const V3 &w) {
  const double t = w.norm();
  if (t < 1e-300) return M3::Identity();
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
}
inline M3 Jexp3(const V3 &w) {  // right Jacobian
  M3 a = -skew(w), term = M3::Identity(), s = M3::Identity();
  const double t = w.norm();
  if (t > 1) return s + ((1 - std::cos(t)) / (t * t)) * a + ((t - std::sin(t)) / (t * t * t)) * a * a;
  for (int k = 1; k < 60; ++k) {
    term = term * a / (k + 1.);
    s += term;
  }
  return s;
}
inline M3 Jlog3(const V3 &w) { return Jexp3(w).inverse(); }
inline M6 adj(const V6 &x) {
  M6 a;
  a.setZero();
  a.topLeftCorner<3, 3>() = skew(x.tail<3>());
  a.topRightCorner<3, 3>() = skew(x.head<3>());
  a.bottomRightCorner<3, 3>() = skew(x.tail<3>());
  return a;
}
inline M6 Jexp6(const V6 &x) {
  M6 a = -adj(x), term = M6::Identity(), s = M6::Identity();
  for (int k = 1; k < 60; ++k) {
    term = term * a / (k + 1.);
    s += term;
  }
  return s;
}
inline M6 Jlog6(const V6 &x) { return Jexp6(x).inverse(); }
inline V6 log6(const M3 &R, const V3 &t) {
  V6 r;
  const V3 w = log3(R);
  r.tail<3>() = w;
  // t = V v with V the left Jacobian of SO(3)
  r.head<3>() = Jexp3(-w).inverse() * t;
  return r;
}
inline void exp6(const V6 &x, M3 &R, V3 &t) {
  R = exp3(x.tail<3>());
  t = Jexp3(-x.tail<3>()) * x.head<3>();
}
inline M6 Ad(const M3 &R, const V3 &t) {
  M6 a;
  a.setZero();
  a.topLeftCorner<3, 3>() = R;
  a.topRightCorner<3, 3>() = skew(t) * R;
  a.bottomRightCorner<3, 3>() = R;
  return a;
}
template <class Q>
void split(const Q &q, M3 &R, V3 &t) {
  t = V3(q[0], q[1], q[2]);
  Eigen::Quaterniond u(q[6], q[3], q[4], q[5]);
  R = u.toRotationMatrix();
}
}  // namespace standin

template <int N, typename S, int O = 0>
struct VectorSpaceOperationTpl {};
template <int N, typename S, int O = 0>
struct SpecialOrthogonalOperationTpl {};

template <int N, typename S, int O = 0>
struct SpecialEuclideanOperationTpl {
  template <class A, class B, class V>
  void difference(const A &q0, const B &q1,
                  const Eigen::MatrixBase<V> &v) const {
    standin::M3 R0, R1;
    standin::V3 t0, t1;
    standin::split(q0, R0, t0);
    standin::split(q1, R1, t1);
    const_cast<Eigen::MatrixBase<V> &>(v) = standin::log6(
        R0.transpose() * R1, standin::V3(R0.transpose() * (t1 - t0)));
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const A &q0, const B &q1,
                   const Eigen::MatrixBase<J> &Jo) const {
    standin::M3 R0, R1;
    standin::V3 t0, t1;
    standin::split(q0, R0, t0);
    standin::split(q1, R1, t1);
    const standin::M3 R = R0.transpose() * R1;
    const standin::V3 t = R0.transpose() * (t1 - t0);
    const standin::M6 Jl = standin::Jlog6(standin::log6(R, t));
    if (arg == ARG1)
      const_cast<Eigen::MatrixBase<J> &>(Jo) = Jl;
    else
      const_cast<Eigen::MatrixBase<J> &>(Jo) =
          -Jl * standin::Ad(R.transpose(), -R.transpose() * t);
  }
  template <class A, class V, class B>
  void integrate(const A &q, const V &v, const Eigen::MatrixBase<B> &out) const {
    standin::M3 R, dR;
    standin::V3 t, dt;
    standin::split(q, R, t);
    standin::V6 x = v;
    standin::exp6(x, dR, dt);
    Eigen::MatrixBase<B> &o = const_cast<Eigen::MatrixBase<B> &>(out);
    o.template head<3>() = t + R * dt;
    Eigen::Quaterniond u(standin::M3(R * dR));
    u.normalize();
    o.template tail<4>() = u.coeffs();
  }
};

template <class A, class B>
struct CartesianProductOperation {  // only R^3 x SO(3)
  template <class Q0, class Q1, class V>
  void difference(const Q0 &q0, const Q1 &q1,
                  const Eigen::MatrixBase<V> &v) const {
    standin::M3 R0, R1;
    standin::V3 t0, t1;
    standin::split(q0, R0, t0);
    standin::split(q1, R1, t1);
    Eigen::MatrixBase<V> &o = const_cast<Eigen::MatrixBase<V> &>(v);
    o.template head<3>() = t1 - t0;
    o.template tail<3>() = standin::log3(R0.transpose() * R1);
  }
  template <ArgumentPosition arg, class Q0, class Q1, class J>
  void dDifference(const Q0 &q0, const Q1 &q1,
                   const Eigen::MatrixBase<J> &Jo) const {
    standin::M3 R0, R1;
    standin::V3 t0, t1;
    standin::split(q0, R0, t0);
    standin::split(q1, R1, t1);
    const standin::M3 R = R0.transpose() * R1;
    const standin::M3 Jl = standin::Jlog3(standin::log3(R));
    standin::M6 r = standin::M6::Zero();
    if (arg == ARG1) {
      r.topLeftCorner<3, 3>().setIdentity();
      r.bottomRightCorner<3, 3>() = Jl;
    } else {
      r.topLeftCorner<3, 3>() = -standin::M3::Identity();
      r.bottomRightCorner<3, 3>() = -Jl * R.transpose();
    }
    const_cast<Eigen::MatrixBase<J> &>(Jo) = r;
  }
};

class Motion {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  standin::V6 v;
  template <class D>
  explicit Motion(const Eigen::MatrixBase<D> &x) : v(x) {}
  standin::V6 toVector() const { return v; }
};
class Force {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  standin::V6 v;
  template <class D>
  explicit Force(const Eigen::MatrixBase<D> &x) : v(x) {}
  standin::V6 toVector() const { return v; }
};
class SE3 {
 public:
  standin::M3 R;
  standin::V3 t;
  template <class D>
  explicit SE3(const Eigen::MatrixBase<D> &m)
      : R(m.template topLeftCorner<3, 3>()),
        t(m.template topRightCorner<3, 1>()) {}
  template <class D, class E>
  SE3(const Eigen::MatrixBase<D> &r, const Eigen::MatrixBase<E> &p)
      : R(r), t(p) {}
  Force act(const Force &f) const {
    standin::V6 r;
    r.head<3>() = R * f.v.head<3>();
    r.tail<3>() = R * f.v.tail<3>() + t.cross(r.head<3>());
    return Force(r);
  }
  Motion actInv(const Motion &m) const {
    standin::V6 r;
    r.tail<3>() = R.transpose() * m.v.tail<3>();
    r.head<3>() =
        R.transpose() * (m.v.head<3>() - t.cross(standin::V3(m.v.tail<3>())));
    return Motion(r);
  }
};
}  // namespace pinocchio
#endif
