#ifndef VERIF_HARNESS_EIGEN_HH
#define VERIF_HARNESS_EIGEN_HH
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include "harness.hh"
namespace vh {
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
inline Vec rvec(Rng &r, int n, double scale = 1.) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v(i) = r.val(scale);
  return v;
}
inline Vec gvec(Rng &r, int n, double scale = 1.) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v(i) = scale * r.gauss();
  return v;
}
inline Mat gmat(Rng &r, int n, int m, double scale = 1.) {
  Mat v(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = scale * r.gauss();
  return v;
}
inline Eigen::Matrix3d rrot(Rng &r) {
  switch (r.range(0, 11)) {
    case 0: return Eigen::Matrix3d::Identity();
    case 1: {  // multiples of a quarter turn
      Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
      for (int k = 0; k < 3; ++k)
        m = m * Eigen::AngleAxisd(r.range(-2, 2) * M_PI / 2, Eigen::Vector3d::Unit(k)).toRotationMatrix();
      for (int i = 0; i < 9; ++i) m(i) = std::round(m(i));
      return m;
    }
    case 2: {  // tiny rotation
      Eigen::Vector3d a(r.gauss(), r.gauss(), r.gauss());
      return Eigen::AngleAxisd(r.uni(-1, 1) * 1e-5, a.normalized()).toRotationMatrix();
    }
    default: {
      Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
      q.normalize();
      return q.toRotationMatrix();
    }
  }
}
inline Eigen::Matrix3d grot(Rng &r) {
  Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  q.normalize();
  return q.toRotationMatrix();
}
inline std::string str(const Mat &m) {
  std::ostringstream o;
  o.precision(9);
  o << "(" << m.rows() << "x" << m.cols() << ")[";
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) o << (j ? " " : "") << m(i, j);
    if (i + 1 < m.rows()) o << "; ";
  }
  o << "]";
  return o.str();
}
inline void closeM(Case &c, const Mat &got, const Mat &want, double tol, const char *key) {
  ++c.st.checks;
  bool ok = got.rows() == want.rows() && got.cols() == want.cols();
  for (int i = 0; ok && i < got.size(); ++i) {
    double a = got.data()[i], b = want.data()[i];
    if (a == b) continue;
    if (!(std::fabs(a - b) <= tol)) ok = false;
  }
  if (!ok) {
    std::ostringstream o;
    o << "got " << str(got) << " expected " << str(want) << " tol " << tol;
    c.fail(key, o.str());
  }
}
inline uint64_t hashM(const Mat &m, double q = 1e-6) {
  uint64_t h = mix(m.rows() * 131 + m.cols());
  for (int i = 0; i < m.size(); ++i) {
    long long k = std::isfinite(m.data()[i]) ? (long long)std::llround(std::fmin(std::fmax(m.data()[i] / q, -1e17), 1e17)) : 0x7fffffffffffffffLL;
    h = mix(h ^ (uint64_t)k);
  }
  return h;
}
}  // namespace vh
#endif
