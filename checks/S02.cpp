// @sources src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-posture.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @extra ../lib/reflin.cc
// @rule each case builds a random stack (sizes, ranks, conflicts, thresholds, initial control and projector, maximum increment, posture acceleration) with the real solver and compares its control with an independent extended-precision hierarchical solver; distinct = distinct stacks
#include "S_common.hh"

FAMILY(reference, 6000, 150000) {
  Rng &r = c.rng;
  SSpec s = randStack(r);
  logSpec(c, s);
  Sol o = reference(s);
  Real real(s);
  auto &log = dg::standin_detail::LogStore::get();
  unsigned long errs = log.errors;
  Vec u = real.control(r.range(1, 50));
  if (o.unsure) { c.ev("undecided"); return; }
  c.sample("n=" + std::to_string(s.n) + " tasks=" + std::to_string(s.tasks.size()) + " control=" + str(u.transpose()));
  closeM(c, u, o.u, tolOf(o, s), "control");
  c.eq(log.errors - errs, (unsigned long)o.skips, "skipped-tasks-reported");
  c.ev(o.accelerated ? "accelerated" : "plain"); c.ev("tasks", s.tasks.size()); c.ev("skips", o.skips);
  for (auto &t : s.tasks) if (t.kind && t.active && !allOn(t)) c.ev("some-joints-selected");
  for (size_t i = 0; i < o.rank.size(); ++i) c.ev(o.rank[i] == 0 ? "rank-zero" : o.rank[i] < s.tasks[i].J.rows() ? "rank-deficient" : "rank-full");
  if (o.rank.size() < s.tasks.size()) c.ev("exhausted");
  if (s.hasK) c.ev("projector"); if (s.hasQ0) c.ev("initial-control");
  c.state(hashSpec(s));
}
// optimality seen from outside: the residual of each task cannot be reduced
// by moving in what the tasks above leave free, and no free motion is added
FAMILY(optimality, 2500, 60000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 4);
  s.th = 1e-6; s.hasTh = true; s.maxSq = std::numeric_limits<double>::max(); s.accel = false;
  logSpec(c, s);
  Sol o = reference(s);
  if (o.unsure) { c.ev("undecided"); return; }
  Real real(s);
  Vec u = real.control(1), base = s.hasQ0 ? s.q0 : Vec(Vec::Zero(s.n));
  Mat B = s.hasK ? s.K : Mat(Mat::Identity(s.n, s.n));
  double tol = 1e3 * tolOf(o, s);
  Vec du = u - base;
  closeM(c, B * (B.transpose() * du), du, tol, "correction-within-projector");
  ref::M A(0, s.n), P = toL(B * B.transpose());  // P: projector on what is free
  auto freeProjector = [&]() { return ref::add(P, ref::mul(ref::pinv(ref::mul(A, P), 1e-6), ref::mul(A, P)), -1); };
  for (auto &t : s.tasks) {
    Mat J = effJ(t);
    Mat F = A.r ? fromL(freeProjector()) : fromL(P);
    double g = (F.transpose() * (J.transpose() * (t.e - J * u))).norm();
    c.check(g <= 1e3 * tol * (1 + t.J.norm()), "residual-minimal", [&](std::ostream &os) { os << "gradient " << g << " tol " << tol; });
    A = ref::vstack(A, toL(J));
    c.ev("levels");
  }
  if (A.r) { c.check((fromL(freeProjector()) * du).norm() <= 1e3 * tol, "minimum-norm"); c.ev("free-motion"); }
  else closeM(c, u, base, tol, "no-active-task");
  c.state(hashSpec(s));
}
// a projector with the wrong number of rows is refused and ignored
FAMILY(projector_size, 300, 3000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 3);
  s.hasK = true; s.maxSq = std::numeric_limits<double>::max();
  int rows = s.n + r.pick(std::vector<int>{-1, 1, 2, 5}); if (rows < 1) rows = s.n + 1;
  s.K = randK(r, rows);
  logSpec(c, s);
  Sol o = reference(s);
  auto &log = dg::standin_detail::LogStore::get();
  unsigned long errs = log.errors;
  Real real(s);
  Vec u = real.control(1);
  if (o.unsure) { c.ev("undecided"); return; }
  closeM(c, u, o.u, tolOf(o, s), "control-without-projector");
  c.eq(log.errors - errs, 1ul, "reported");
  c.ev("refused"); c.state(hashSpec(s));
}
