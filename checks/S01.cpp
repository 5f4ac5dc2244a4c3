// @sources src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-posture.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @extra ../lib/reflin.cc
// @rule each case solves a random stack with and without extra or changed tasks at the bottom and compares what every higher task sees of the two controls; distinct = distinct stacks
#include "S_common.hh"

// what the upper tasks see must agree up to the damping threshold
static void sameAbove(Case &c, const SSpec &s, size_t upto, const Sol &o, const Vec &a, const Vec &b, double tol, const char *key) {
  double d = (a - b).norm();
  for (size_t i = 0; i < upto && i < s.tasks.size(); ++i) {
    const TSpec &t = s.tasks[i];
    if (t.kind && !t.active) { c.ev("inactive"); continue; }
    if (i < o.skipped.size() && o.skipped[i]) { c.ev("skipped"); continue; }
    double x = (effJ(t) * (a - b)).norm();
    c.check(x <= s.th * d * 1.0001 + tol * (1 + t.J.norm()), key, [&](std::ostream &os) {
      os << "task " << i << " sees a change of " << x << " for a control change of " << d << " tol " << tol; });
    c.ev("observed-level");
  }
  if (d > 1e-6) c.ev("lower-task-moved-the-robot"); else c.ev("no-motion-left");
}
static SSpec base(Rng &r, int maxTasks) {
  SSpec s;
  do s = randStack(r, maxTasks); while (s.tasks.empty());
  return s;
}
// adding tasks at the bottom, one after the other, in one living stack
FAMILY(append, 2500, 60000) {
  Rng &r = c.rng;
  SSpec s = base(r, 3);
  logSpec(c, s);
  Real real(s);
  int t = 1;
  Vec u = real.control(t);
  int extra = r.range(1, 3);
  for (int k = 0; k < extra; ++k) {
    Sol o0 = reference(s);
    SSpec s2 = s; s2.accel = s.accel;
    s2.tasks.push_back(randTask(r, s.n, s.tasks, s.accel && s.n > 6 && r.coin()));
    real.tasks.emplace_back(new RTask(s2.tasks.back()));
    real.s.push(real.tasks.back()->get());
    logSpec(c, s2);
    Vec v = real.control(++t);
    Sol o = reference(s2);
    // posture acceleration applies to the last task only: the task that was
    // last is solved exactly from now on
    size_t upto = s.tasks.size();
    if (o0.accelerated) upto = s.tasks.size() - 1;
    if (o.unsure || o0.unsure) { c.ev("undecided"); return; }
    sameAbove(c, s2, upto, o, u, v, tolOf(o, s2), "higher-task-disturbed");
    c.state(hashSpec(s2));
    s = s2; u = v;
  }
  c.sample("n=" + std::to_string(s.n) + " tasks=" + std::to_string(s.tasks.size()));
}
// changing the desired value or the Jacobian of a task, or its selection, or
// reordering or removing tasks, below a level
FAMILY(perturb_below, 2500, 60000) {
  Rng &r = c.rng;
  SSpec s;
  do s = randStack(r, 5); while (s.tasks.size() < 2);
  logSpec(c, s);
  Real real(s);
  Vec u = real.control(1);
  size_t lvl = r.range(1, (int)s.tasks.size() - 1);  // first task changed
  SSpec s2 = s;
  Sol o0 = reference(s);
  switch (r.range(0, 4)) {
    case 0: {  // desired value of a generic task
      s2.tasks[lvl].e = gvec(r, (int)s2.tasks[lvl].e.size(), 5);
      if (s2.tasks[lvl].kind == 2) { TSpec &t = s2.tasks[lvl]; t.state = gvec(r, s.n, 5); for (size_t i = 0; i < t.dofs.size(); ++i) t.e(t.at() + i) = -(t.state(t.dofs[i]) - t.posture(t.dofs[i])) * t.gain; }
      real.tasks[lvl]->set(s2.tasks[lvl]); c.ev("value"); break; }
    case 1: if (s2.tasks[lvl].kind != 2) { s2.tasks[lvl].J = gmat(r, (int)s2.tasks[lvl].J.rows(), s.n); real.tasks[lvl]->set(s2.tasks[lvl]); c.ev("jacobian"); break; }
    // fallthrough
    case 2: real.s.remove(real.tasks[lvl]->get()); s2.tasks.erase(s2.tasks.begin() + lvl); c.ev("removed"); break;
    case 3: if (lvl + 1 < s.tasks.size()) { real.s.up(real.tasks[lvl + 1]->get()); std::swap(s2.tasks[lvl], s2.tasks[lvl + 1]); c.ev("swapped"); break; }
    // fallthrough
    default: if (s2.tasks[lvl].kind) { s2.tasks[lvl].active = !s2.tasks[lvl].active; real.tasks[lvl]->set(s2.tasks[lvl]); c.ev("selection"); }
      else { real.s.remove(real.tasks[lvl]->get()); s2.tasks.erase(s2.tasks.begin() + lvl); c.ev("removed"); }
  }
  logSpec(c, s2);
  Vec v = real.control(2);
  Sol o = reference(s2);
  if (o.unsure || o0.unsure) { c.ev("undecided"); return; }
  size_t upto = lvl;
  if (o.accelerated && s2.tasks.size() == lvl) --upto;  // the last task is now accelerated
  double tol = std::max(tolOf(o, s2), tolOf(o0, s));
  sameAbove(c, s2, upto, o, u, v, tol, "higher-task-disturbed");
  c.state(hashSpec(s2));
}
// an initial projector bounds every correction, and an initial control alone
// is returned unchanged
FAMILY(projector, 600, 10000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 4);
  s.hasK = true; s.K = randK(r, s.n);
  logSpec(c, s);
  Real real(s);
  Vec u = real.control(1), b = s.hasQ0 ? s.q0 : Vec(Vec::Zero(s.n));
  Sol o = reference(s);
  if (o.unsure) { c.ev("undecided"); return; }
  double tol = tolOf(o, s);
  Vec d = u - b;
  closeM(c, s.K * (s.K.transpose() * d), d, tol, "correction-outside-projector");
  c.ev(d.norm() > 1e-9 ? "moved" : "still");
  c.state(hashSpec(s));
}
