// @sources src/matrix/matrix-svd.cpp
// @rule each case builds a matrix from known orthonormal factors and singular values kept apart from the threshold, and compares the returned inverse with the one assembled from those factors in long double, and with its defining equations; distinct = distinct returned matrices
// @assume singular values no closer than 1% to the threshold of pseudoInverse, and not all zero when the damping is zero
#include <dynamic-graph/linear-algebra.h>
#include <sot/core/matrix-svd.hh>
#include "harness_eigen.hh"
using namespace vh; namespace dg = dynamicgraph;
typedef long double R; typedef Eigen::Matrix<R, -1, -1> LM; typedef Eigen::Matrix<R, -1, 1> LV;
static LM orth(Rng &r, int n) { LM m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = r.gauss(); LM q = Eigen::HouseholderQR<LM>(m).householderQ(); return q; }
struct Made { LM U, V; LV s; Mat M; int m, n, k; double thr; double top; };
static Made make(Rng &r, double thr, bool gap) {
  Made a; a.thr = thr; a.m = r.coin(.1) ? 1 : r.range(1, 8); a.n = r.coin(.1) ? 1 : r.range(1, 10); a.k = std::min(a.m, a.n); a.U = orth(r, a.m); a.V = orth(r, a.n); a.s = LV::Zero(a.k);
  double scale = r.pick(std::vector<double>{1, 1, 10, .1});
  for (int i = 0; i < a.k; ++i) { double v; switch (r.range(0, 5)) { case 0: v = 0; break; case 1: v = scale; break; case 2: v = thr * std::pow(10, r.uni(.01, 2)); break; case 3: v = gap ? thr * std::pow(10, r.uni(-2, -.01)) : thr * r.uni(0, 1); break; default: v = scale * std::pow(10, r.uni(-2, 1)); }
    if (gap && v > thr * .99 && v < thr * 1.01) v = thr * 2; a.s(i) = v; }
  LM S = LM::Zero(a.m, a.n); for (int i = 0; i < a.k; ++i) S(i, i) = a.s(i); a.M = (a.U * S * a.V.transpose()).cast<double>(); a.top = a.k ? (double)a.s.maxCoeff() : 0; return a;
}
template <class F> static LM assemble(const Made &a, F f) { LM S = LM::Zero(a.n, a.m); for (int i = 0; i < a.k; ++i) S(i, i) = f(a.s(i)); return a.V * S * a.U.transpose(); }
static void close(Case &c, const Made &a, const Mat &g, const LM &w, double slope, const std::string &key) {
  ++c.st.checks; double tol = 1e-11 * (1 + (w.size() ? (double)w.cwiseAbs().maxCoeff() : 0)) + 2e-14 * a.top * slope * (a.m + a.n); 
  if (g.rows() != w.rows() || g.cols() != w.cols()) { c.fail(key + "-size", "shape of the inverse"); return; }
  if (!(g.size() == 0 || (double)(g.cast<R>() - w).cwiseAbs().maxCoeff() <= tol)) c.fail(key, "M " + str(a.M) + " threshold " + std::to_string(a.thr) + " got " + str(g) + " want " + str(Mat(w.cast<double>())));
}
FAMILY(pseudo, 12000, 600000) {
  Rng &r = c.rng; bool def = r.coin(.3); double thr = def ? 1e-6 : std::pow(10, r.uni(-8, -1)); Made a = make(r, thr, true); Mat in = a.M, out; if (r.coin()) out = gmat(r, r.range(1, 9), r.range(1, 9));
  if (def) dg::pseudoInverse(in, out); else dg::pseudoInverse(in, out, thr);
  c.check(in == a.M, "pseudo-input-kept", [&](std::ostream &o) { o << "the input was changed"; });
  int kept = 0; double big = 0; for (int i = 0; i < a.k; ++i) if (a.s(i) > thr) { ++kept; big = std::max(big, 1 / (double)a.s(i)); }
  close(c, a, out, assemble(a, [&](R s) -> R { return s > thr ? 1 / s : 0; }), big * big, "pseudo-inverse");
  // Moore-Penrose equations against the part of M above the threshold
  LM M = a.U * [&] { LM S = LM::Zero(a.m, a.n); for (int i = 0; i < a.k; ++i) if (a.s(i) > thr) S(i, i) = a.s(i); return S; }() * a.V.transpose(), P = out.cast<R>(); R e = 1e-9 + 1e-12 * (a.top * big) * (a.top * big);
  if (P.rows() == a.n && P.cols() == a.m) c.check((M * P * M - M).cwiseAbs().maxCoeff() <= e * (1 + a.top) && (M * P - (M * P).transpose()).cwiseAbs().maxCoeff() <= e && (P * M - (P * M).transpose()).cwiseAbs().maxCoeff() <= e && (P * M * P - P).cwiseAbs().maxCoeff() <= e * (1 + big), "moore-penrose", [&](std::ostream &o) { o << a.M << " -> " << out; });
  c.ev(kept == a.k ? "full-rank" : kept ? "rank-deficient" : "zero-rank"); c.ev(a.m > a.n ? "tall" : a.m < a.n ? "wide" : "square"); c.state(hashM(out)); if (c.index < 2) c.sample("pseudo-inverse of a " + std::to_string(a.m) + "x" + std::to_string(a.n) + " matrix, " + std::to_string(kept) + " singular values kept");
}
FAMILY(damped, 12000, 600000) {
  Rng &r = c.rng; bool def = r.coin(.3); double thr = def ? 1e-6 : r.coin(.1) ? 0 : std::pow(10, r.uni(-8, 0)); Made a = make(r, thr ? thr : 1e-3, true); a.thr = thr; 
  if (thr == 0) { for (int i = 0; i < a.k; ++i) if (a.s(i) < 1e-4) a.s(i) = .5; LM S = LM::Zero(a.m, a.n); for (int i = 0; i < a.k; ++i) S(i, i) = a.s(i); a.M = (a.U * S * a.V.transpose()).cast<double>(); a.top = (double)a.s.maxCoeff(); }
  Mat in = a.M, out, U, V; Vec S; if (r.coin()) { out = gmat(r, r.range(1, 9), r.range(1, 9)); U = gmat(r, 2, 3); V = gmat(r, 3, 2); S = gvec(r, 4); }
  LM w = assemble(a, [&](R s) -> R { return s == 0 ? 0 : s / (s * s + (R)thr * thr); }); double slope = thr ? 1 / (thr * thr) : 0; if (!thr) for (int i = 0; i < a.k; ++i) slope = std::max(slope, (double)(1 / (a.s(i) * a.s(i)))); 
  int how = r.range(0, 2);
  if (how == 0) { if (def) dg::dampedInverse(in, out); else dg::dampedInverse(in, out, thr); close(c, a, out, w, slope, "damped-inverse"); c.ev("plain"); }
  else if (how == 1) { unsigned o[2] = {Eigen::ComputeThinU | Eigen::ComputeThinV, Eigen::ComputeFullU | Eigen::ComputeFullV}; dg::SVD_t svd(in, o[r.range(0, 1)]); if (def) dg::dampedInverse(svd, out); else dg::dampedInverse(svd, out, thr); close(c, a, out, w, slope, "damped-inverse-of-decomposition"); c.ev("decomposition"); }
  else {
    if (def) dg::dampedInverse(in, out, U, S, V); else dg::dampedInverse(in, out, U, S, V, thr);
    close(c, a, out, w, slope, "damped-inverse-with-factors"); c.ev("factors");
    c.check(S.size() == a.k, "singular-values-size", [&](std::ostream &o) { o << S.size(); }); 
    if (S.size() == a.k) { std::vector<double> want; for (int i = 0; i < a.k; ++i) want.push_back((double)a.s(i)); std::sort(want.rbegin(), want.rend()); bool ok = true; for (int i = 0; i < a.k; ++i) ok &= std::fabs(S(i) - want[i]) <= 1e-13 * (1 + a.top) * 20; c.check(ok, "singular-values", [&](std::ostream &o) { o << S.transpose(); }); 
      bool dim = U.rows() == a.m && V.rows() == a.n && U.cols() >= a.k && V.cols() >= a.k; c.check(dim, "factors-size", [&](std::ostream &o) { o << U.rows() << "x" << U.cols() << " " << V.rows() << "x" << V.cols(); });
      if (dim) { Mat u = U.leftCols(a.k), v = V.leftCols(a.k); Mat rec = u * S.asDiagonal() * v.transpose(); c.check((rec - a.M).cwiseAbs().maxCoeff() <= 1e-12 * (1 + a.top) * 10, "factors-rebuild-the-matrix", [&](std::ostream &o) { o << rec << " from " << a.M; });
        c.check((u.transpose() * u - Mat::Identity(a.k, a.k)).cwiseAbs().maxCoeff() <= 1e-11 && (v.transpose() * v - Mat::Identity(a.k, a.k)).cwiseAbs().maxCoeff() <= 1e-11, "factors-orthonormal", [&](std::ostream &o) { o << u << " " << v; }); } }
  }
  c.check(in == a.M, "damped-input-kept", [&](std::ostream &o) { o << "the input was changed"; });
  // never larger than the damping allows
  if (thr && out.size()) { double nrm = Eigen::JacobiSVD<Mat>(out).singularValues()(0); c.check(nrm <= .5 / thr * (1 + 1e-9), "damping-bounds-the-inverse", [&](std::ostream &o) { o << nrm; }); }
  c.state(hashM(out));
}
