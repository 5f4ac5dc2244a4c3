// Feature rigs: each rig holds the values of a feature's inputs, can feed them to any instance, and knows
// (independently of the code) the error those inputs mean.
#ifndef F_COMMON_HH
#define F_COMMON_HH
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-point6d-relative.hh>
#include <sot/core/feature-pose.hh>
#include <sot/core/feature-visual-point.hh>
#include <sot/core/feature-joint-limits.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-vector3.hh>
#include <sot/core/feature-line-distance.hh>
#include <sot/core/exception-feature.hh>
#include "E_common.hh"
// rotation vector between poses, rejecting half turns
static long double minTrace = -0.9L;  // a check that does not differentiate goes closer
static inline bool farFromPi(const L3 &m) { return m.trace() > minTrace; }
static inline Vec D(const L6 &x) { return x.cast<double>(); }
static inline Mat eye6(Rng &r, int nc) { return gmat(r, 6, nc); }

struct Inst { std::unique_ptr<sot::FeatureAbstract> f, ref; };
struct Rig {
  int nc = 4; bool hasRef = false;
  virtual ~Rig() {}
  virtual const char *kind() const = 0;
  virtual int inputs() const = 0;                       // number of inputs of the feature (and its reference)
  virtual Inst make() = 0;                              // bare instance (+ reference feature)
  virtual void draw(Rng &, int k) = 0;                  // new value for input k
  virtual void feed(Inst &, int k) = 0;                 // give input k to an instance
  virtual int full() const = 0;                         // dimension with everything selected
  virtual bool selectable() const { return true; }
  virtual bool usesRef() const { return false; }
  virtual bool rate() const { return true; }            // is the error rate part of its interface?
  virtual Vec error() const { return Vec(); }           // independent error, everything selected
  virtual bool sane() const { return true; }            // away from singularities
  virtual void coupled(Rng &r, int k) { (void)r; (void)k; }
  void all(Inst &i) { for (int k = 0; k < inputs(); ++k) feed(i, k); }
};
#define AS(T, p) (static_cast<T &>(*(p)))
struct Generic : Rig {
  int n = 3; Vec e, edes, edot; Mat J;
  const char *kind() const { return "Generic"; } int inputs() const { return 4; } bool usesRef() const { return true; }
  Inst make() { Inst i; i.f.reset(new sot::FeatureGeneric(uname("g"))); i.ref.reset(new sot::FeatureGeneric(uname("gr"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) e = rvec(r, n); if (k == 1) J = gmat(r, n, nc); if (k == 2) edes = rvec(r, n); if (k == 3) edot = gvec(r, n); }
  void feed(Inst &i, int k) {
    auto &f = AS(sot::FeatureGeneric, i.f), &g = AS(sot::FeatureGeneric, i.ref);
    if (k == 0) f.errorSIN = e; if (k == 1) f.jacobianSIN = J; if (k == 2) g.errorSIN = edes; if (k == 3) g.errordotSIN = edot;
  }
  int full() const { return n; }
  Vec error() const { return hasRef ? Vec(e - edes) : e; }
};
struct Point6d : Rig {
  MH M, Md; Vec v; Mat J; int frame = 1;  // 0 current, 1 desired (the default)
  const char *kind() const { return "Point6d"; } int inputs() const { return 5; } bool usesRef() const { return true; }
  Inst make() { Inst i; i.f.reset(new sot::FeaturePoint6d(uname("p"))); i.ref.reset(new sot::FeaturePoint6d(uname("pr"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) M = pose(r); if (k == 1) J = gmat(r, 6, nc); if (k == 2) Md = r.coin(.05) ? M : pose(r); if (k == 3) v = gvec(r, 6); if (k == 4) frame = r.range(0, 1); }
  void feed(Inst &i, int k) {
    auto &f = AS(sot::FeaturePoint6d, i.f), &g = AS(sot::FeaturePoint6d, i.ref);
    if (k == 0) f.positionSIN = M; if (k == 1) f.articularJacobianSIN = J; if (k == 2) g.positionSIN = Md; if (k == 3) g.velocitySIN = v;
    if (k == 4) cmd(f, "frame", {Value(std::string(frame ? "desired" : "current"))});
  }
  int full() const { return 6; }
  L4 rel() const { L4 d = hasRef ? L(Md) : L4(L4::Identity()); return frame ? L4(linv(d) * L(M)) : L4(linv(L(M)) * d); }
  Vec error() const { L4 h = rel(); L6 o; o.head<3>() = h.topRightCorner<3, 1>(); o.tail<3>() = rlog(h.topLeftCorner<3, 3>()); return D(o); }
  bool sane() const { return farFromPi(rel().topLeftCorner<3, 3>()); }
};
struct Relative : Rig {
  MH P, Q, Pd, Qd; Mat JP, JQ; bool plain;  // plain: the reference is a plain 6D point giving the desired relative pose
  explicit Relative(bool p) : plain(p) {}
  const char *kind() const { return plain ? "Relative (plain reference)" : "Relative"; } int inputs() const { return 6; } bool usesRef() const { return true; } bool rate() const { return false; }
  Inst make() {
    Inst i; i.f.reset(new sot::FeaturePoint6dRelative(uname("rel")));
    if (plain) i.ref.reset(new sot::FeaturePoint6d(uname("relr"))); else i.ref.reset(new sot::FeaturePoint6dRelative(uname("relr")));
    return i;
  }
  void draw(Rng &r, int k) { if (k == 0) P = pose(r); if (k == 1) Q = pose(r); if (k == 2) JP = r.coin(.1) ? Mat(Mat::Zero(6, nc)) : gmat(r, 6, nc); if (k == 3) JQ = r.coin(.1) ? Mat(Mat::Zero(6, nc)) : gmat(r, 6, nc); if (k == 4) Pd = pose(r); if (k == 5) Qd = pose(r); }
  void feed(Inst &i, int k) {
    auto &f = AS(sot::FeaturePoint6dRelative, i.f); auto &g = AS(sot::FeaturePoint6d, i.ref);
    if (k == 0) f.positionSIN = P; if (k == 1) f.positionReferenceSIN = Q; if (k == 2) f.articularJacobianSIN = JP; if (k == 3) f.articularJacobianReferenceSIN = JQ;
    if (k == 4) g.positionSIN = Pd; if (k == 5 && !plain) AS(sot::FeaturePoint6dRelative, i.ref).positionReferenceSIN = Qd;
  }
  int full() const { return 6; }
  L4 err() const { L4 m = linv(L(P)) * L(Q); if (!hasRef) return m; return plain ? L4(m * linv(L(Pd))) : L4(m * linv(linv(L(Pd)) * L(Qd))); }
  Vec error() const { L4 h = err(); L6 o; o.head<3>() = h.topRightCorner<3, 1>(); o.tail<3>() = rlog(h.topLeftCorner<3, 3>()); return D(o); }
  bool sane() const { return farFromPi(err().topLeftCorner<3, 3>()); }
};
template <sot::Representation_t rep> struct Pose : Rig {
  MH A, a, B, b, Des; Vec nu; Mat JA, JB; bool plugA = true;
  typedef sot::FeaturePose<rep> F;
  const char *kind() const { return rep == sot::SE3Representation ? "Pose SE3" : "Pose R3xSO3"; } int inputs() const { return 8; }
  Inst make() { Inst i; i.f.reset(new F(uname("pose"))); return i; }
  void draw(Rng &r, int k) { switch (k) { case 0: A = pose(r); break; case 1: a = pose(r); break; case 2: B = pose(r); break; case 3: b = pose(r); break; case 4: Des = pose(r); break; case 5: nu = gvec(r, 6); break; case 6: JA = gmat(r, 6, nc); plugA = r.coin(.7); break; default: JB = gmat(r, 6, nc); } }
  void feed(Inst &i, int k) {
    auto &f = AS(F, i.f);
    switch (k) { case 0: f.oMja = A; break; case 1: f.jaMfa = a; break; case 2: f.oMjb = B; break; case 3: f.jbMfb = b; break; case 4: f.faMfbDes = Des; break; case 5: f.faNufafbDes = nu; break;
      case 6: if (plugA) f.jaJja = JA; else if (f.jaJja.isPlugged()) { f.jaJja = Mat(Mat::Zero(6, nc)); } break; default: f.jbJjb = JB; }
  }
  int full() const { return 6; }
  L4 cur() const { return linv(L(A) * L(a)) * L(B) * L(b); }
  static L6 diff(const L4 &d, const L4 &m) {
    if (rep == sot::SE3Representation) return se3log(linv(d) * m);
    L6 o; o.head<3>() = m.topRightCorner<3, 1>() - d.topRightCorner<3, 1>(); o.tail<3>() = rlog(L3(d.topLeftCorner<3, 3>().transpose() * m.topLeftCorner<3, 3>())); return o;
  }
  Vec error() const { return D(diff(L(Des), cur())); }
  bool sane() const { return farFromPi(L3(L(Des).topLeftCorner(3, 3).transpose() * L4(cur()).topLeftCorner(3, 3))); }
};
struct Visual : Rig {
  Vec xy, xyd, ed; double Z; Mat J;
  Visual() { hasRef = true; }
  const char *kind() const { return "VisualPoint"; } int inputs() const { return 5; } bool usesRef() const { return true; }
  Inst make() { Inst i; i.f.reset(new sot::FeatureVisualPoint(uname("vp"))); i.ref.reset(new sot::FeatureVisualPoint(uname("vpr"))); i.f->setReference(i.ref.get()); return i; }
  void draw(Rng &r, int k) { if (k == 0) xy = gvec(r, 2); if (k == 1) Z = r.uni(.05, 5); if (k == 2) J = gmat(r, 6, nc); if (k == 3) xyd = gvec(r, 2); if (k == 4) ed = gvec(r, 2); }
  void feed(Inst &i, int k) {
    auto &f = AS(sot::FeatureVisualPoint, i.f), &g = AS(sot::FeatureVisualPoint, i.ref);
    if (k == 0) f.xySIN = xy; if (k == 1) f.ZSIN = Z; if (k == 2) f.articularJacobianSIN = J; if (k == 3) g.xySIN = xyd; if (k == 4) g.errordotSIN = ed;
  }
  int full() const { return 2; } Vec error() const { return xy - xyd; }
};
struct Limits : Rig {
  int n; Vec q, lo, hi;
  explicit Limits(Rng &r) : n(r.range(1, 9)) { nc = n; }
  const char *kind() const { return "JointLimits"; } int inputs() const { return 3; }
  Inst make() { Inst i; i.f.reset(new sot::FeatureJointLimits(uname("jl"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) q = rvec(r, n); if (k == 1 || lo.size() != n) lo = gvec(r, n); if (k != 0 || hi.size() != n) { hi = lo; for (int i = 0; i < n; ++i) hi(i) += r.uni(.01, 3); } }
  void feed(Inst &i, int k) { auto &f = AS(sot::FeatureJointLimits, i.f); if (k == 0) f.jointSIN = q; if (k == 1) { f.lowerJlSIN = lo; f.upperJlSIN = hi; } if (k == 2) f.upperJlSIN = hi; }
  int full() const { return n; }
  Vec error() const { Vec o(n); for (int i = 0; i < n; ++i) o(i) = 2 * (q(i) - lo(i)) / (hi(i) - lo(i)) - 1; return o; }
};
struct OneD : Rig {
  int n = 3; Vec e; Mat J;
  const char *kind() const { return "1D"; } int inputs() const { return 2; } bool selectable() const { return false; }
  Inst make() { Inst i; i.f.reset(new sot::Feature1D(uname("one"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) e = gvec(r, n); if (k == 1) J = gmat(r, n, nc); }
  void feed(Inst &i, int k) { auto &f = AS(sot::Feature1D, i.f); if (k == 0) f.errorSIN = e; if (k == 1) f.jacobianSIN = J; }
  int full() const { return 1; } Vec error() const { return Vec::Constant(1, .5 * e.squaredNorm()); }
};
struct Vector3 : Rig {
  Vec v, vd; MH M; Mat J;
  const char *kind() const { return "Vector3"; } int inputs() const { return 4; } bool selectable() const { return false; }
  Inst make() { Inst i; i.f.reset(new sot::FeatureVector3(uname("v3"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) v = gvec(r, 3); if (k == 1) M = pose(r); if (k == 2) J = gmat(r, 6, nc); if (k == 3) vd = gvec(r, 3); }
  void feed(Inst &i, int k) { auto &f = AS(sot::FeatureVector3, i.f); if (k == 0) f.vectorSIN = v; if (k == 1) f.positionSIN = M; if (k == 2) f.articularJacobianSIN = J; if (k == 3) f.positionRefSIN = vd; }
  int full() const { return 3; } Vec error() const { return M.linear() * v - vd; }
};
struct Line : Rig {
  Vec v, l; MH M; Mat J;
  const char *kind() const { return "LineDistance"; } int inputs() const { return 4; } bool selectable() const { return false; }
  Inst make() { Inst i; i.f.reset(new sot::FeatureLineDistance(uname("ld"))); return i; }
  void draw(Rng &r, int k) { if (k == 0) v = gvec(r, 3); if (k == 1) M = pose(r); if (k == 2) J = gmat(r, 6, nc); if (k == 3) l = gvec(r, 6); }
  void feed(Inst &i, int k) { auto &f = AS(sot::FeatureLineDistance, i.f); if (k == 0) f.vectorSIN = v; if (k == 1) f.positionSIN = M; if (k == 2) f.articularJacobianSIN = J; if (k == 3) f.positionRefSIN = l; }
  int full() const { return 1; }
  static Vec err(const V3 &d0, const V3 &p0, const Vec &l) { V3 d1 = l.tail<3>(), x = d0.cross(d1); return Vec::Constant(1, -x.dot(p0 - V3(l.head<3>())) / x.squaredNorm()); }
  Vec error() const { return err(M.linear() * v, M.translation(), l); }
  bool sane() const { V3 d0 = M.linear() * v, d1 = l.tail<3>(); return d0.cross(d1).norm() > .2 * d0.norm() * d1.norm() && d0.norm() > .3 && d1.norm() > .3; }
};
static const int NKIND = 11;
static inline std::unique_ptr<Rig> rig(Rng &r, int k) {
  std::unique_ptr<Rig> p;
  switch (k) {
    case 0: p.reset(new Generic); static_cast<Generic &>(*p).n = r.range(1, 7); break;
    case 1: p.reset(new Point6d); break;
    case 2: p.reset(new Relative(false)); break;
    case 3: p.reset(new Relative(true)); break;
    case 4: p.reset(new Pose<sot::R3xSO3Representation>); break;
    case 5: p.reset(new Pose<sot::SE3Representation>); break;
    case 6: p.reset(new Visual); break;
    case 7: p.reset(new Limits(r)); break;
    case 8: p.reset(new OneD); static_cast<OneD &>(*p).n = r.range(1, 5); break;
    case 9: p.reset(new Vector3); break;
    default: p.reset(new Line);
  }
  if (k != 7) p->nc = r.range(1, 7);
  for (int i = 0; i < p->inputs(); ++i) p->draw(r, i);
  for (int tries = 0; !p->sane() && tries < 100; ++tries) for (int i = 0; i < p->inputs(); ++i) p->draw(r, i);
  return p;
}
#endif
