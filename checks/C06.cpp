// @sources src/tools/kalman.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case runs the filter over a random model and measurement history, comparing state and variance at every step with the textbook recurrence in long double, and checking symmetry and non-negativity; distinct = distinct (sizes, variance)
#include "E_common.hh"
typedef Eigen::Matrix<R, -1, -1> LM; typedef Eigen::Matrix<R, -1, 1> LX;
static Mat spd(Rng &r, int n, double lo) { Mat a = gmat(r, n, n); return a * a.transpose() + lo * Mat::Identity(n, n); }
static LM solveR(const LM &S, const LM &B) { return S.transpose().fullPivLu().solve(B.transpose()).transpose(); }  // B S^-1
FAMILY(recurrence, 2500, 80000) {
  Rng &r = c.rng; EP e = make("Kalman"); int n = r.range(1, 5), m = r.range(1, 4), t = 0; Vec x0 = rvec(r, n); Mat P = spd(r, n, .1);
  if (r.coin(.2)) P = Mat::Zero(n, n);
  auto &oP = out<Mat>(*e, "P"); auto &ox = out<Vec>(*e, "x_est");
  for (int k = r.range(1, 2); k; --k) { if (r.coin()) { cmd(*e, "setInitialState", {Value(x0)}); cmd(*e, "setInitialVariance", {Value(P)}); } else { cmd(*e, "setInitialVariance", {Value(P)}); cmd(*e, "setInitialState", {Value(x0)}); } }
  closeM(c, oP(0), P, 0, "initial-variance"); closeM(c, ox(0), x0, 0, "initial-state");
  Mat F, H, Q, Rn;
  for (int s = 0, T = r.range(1, 12); s < T; ++s) {
    bool all = !s || r.coin(.6); int one = r.range(0, 3);  // at least one model input is refreshed at every step
    if (all || one == 0) { F = gmat(r, n, n) / (r.coin() ? 1 : 3); if (r.coin(.2)) F.setIdentity(); in<Mat>(*e, "F") = F; }
    if (all || one == 1) { H = gmat(r, m, n); if (r.coin(.1)) H.setZero(); in<Mat>(*e, "H") = H; }
    if (all || one == 2) { Q = r.coin(.2) ? Mat(Mat::Zero(n, n)) : Mat(spd(r, n, 0) * r.uni(0, .5)); in<Mat>(*e, "Q") = Q; }
    if (all || one == 3) { Rn = spd(r, m, .2) * r.pick(std::vector<double>{1, .1, 20}); in<Mat>(*e, "R") = Rn; }
    if (!all) c.ev(one == 0 ? "only-F" : one == 1 ? "only-H" : one == 2 ? "only-Q" : "only-R");
    if (s && r.coin(.05)) { P = spd(r, n, .1); cmd(*e, "setInitialVariance", {Value(P)}); c.ev("variance-reset"); }
    Vec y = rvec(r, m), yp = rvec(r, m), xp = rvec(r, n); if (r.coin(.1)) { y *= r.pick(std::vector<double>{1e3, 1e6, 1e-6}); c.ev("scaled-measure"); } in<Vec>(*e, "y") = y; in<Vec>(*e, "y_pred") = yp; in<Vec>(*e, "x_pred") = xp; t += r.range(1, 2);
    LM f = F.cast<R>(), h = H.cast<R>(), Pp = f * P.cast<R>() * f.transpose() + Q.cast<R>(), S = h * Pp * h.transpose() + Rn.cast<R>(), K = solveR(S, Pp * h.transpose()), Pn = (LM::Identity(n, n) - K * h) * Pp; LX x = xp.cast<R>() + K * (y - yp).cast<R>();
    double cond = Rn.size() ? (double)(S.norm() * S.inverse().norm()) : 1, tol = 1e-13 * cond * (1 + (double)Pp.norm()) * 10; int order = r.range(0, 2); Mat gP; Vec gx;
    if (order == 0) { gP = oP(t); gx = ox(t); } else { gx = ox(t); gP = oP(t); if (order == 2) gx = ox(t); }
    closeM(c, gP, Pn.cast<double>(), tol * (1 + (double)K.norm() * H.norm()), "variance-recurrence"); closeM(c, gx, x.cast<double>(), tol * (1 + (y - yp).norm()) * (1 + (double)K.norm()) + 1e-13 * xp.norm(), "state-update");
    c.check((gP - gP.transpose()).norm() <= 100 * tol, "symmetric"); Eigen::SelfAdjointEigenSolver<Mat> es(Mat((gP + gP.transpose()) / 2)); c.check(es.eigenvalues().minCoeff() >= -100 * tol, "non-negative"); Mat loss = Pp.cast<double>() - gP; loss = (loss + loss.transpose().eval()) / 2; c.check(Eigen::SelfAdjointEigenSolver<Mat>(loss).eigenvalues().minCoeff() >= -100 * tol, "measurement-never-adds-variance");
    P = gP; c.ev("step"); c.state(hashM(gP)); if (P.norm() > 1e6) return;
  }
}
// a constant signal measured without process noise: the variance is that of the mean of the samples
FAMILY(static_mean, 200, 5000) {
  Rng &r = c.rng; EP e = make("Kalman"); double p0 = r.uni(.1, 5), q = r.uni(.1, 5), sum = 0, x = r.gauss(), xi = x; Mat I = Mat::Identity(1, 1); cmd(*e, "setInitialState", {Value(Vec(Vec::Constant(1, x)))}); cmd(*e, "setInitialVariance", {Value(Mat(p0 * I))});
  for (int t = 1; t <= 40; ++t) { double y = r.gauss(); sum += y; in<Mat>(*e, "F") = I; in<Mat>(*e, "H") = I; in<Mat>(*e, "Q") = Mat::Zero(1, 1); in<Mat>(*e, "R") = q * I; in<Vec>(*e, "y") = Vec::Constant(1, y); in<Vec>(*e, "y_pred") = Vec::Constant(1, x); in<Vec>(*e, "x_pred") = Vec::Constant(1, x); x = out<Vec>(*e, "x_est")(t)(0); double k = 1 / p0 + t / q; c.near(x, (xi / p0 + sum / q) / k, 1e-10, "weighted-mean"); c.near(out<Mat>(*e, "P")(t)(0, 0), 1 / k, 1e-12, "variance-of-mean"); c.ev("step"); } c.state(hashBytes(&x, 8));
}
