// @sources src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-posture.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @extra ../lib/reflin.cc
// @rule each case drives one living stack through random edits (tasks pushed, removed, swapped, resized, re-selected, re-valued; thresholds, projector, initial control, robot size and options changed) with evaluations in between, and compares each control with that of freshly built objects; distinct = distinct (history, stack) pairs
#include "S_common.hh"

static TSpec sameKind(Rng &r, int n, int kind) { TSpec t; do t = randTask(r, n, {}); while (t.kind != kind); return t; }

FAMILY(history, 1500, 40000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 4);
  Real real(s);
  std::vector<std::unique_ptr<RTask>> graveyard;  // removed tasks stay alive
  bool dirty = false;  // inputs changed since the last evaluation
  int t = 0, steps = r.range(3, 12);
  uint64_t hist = 0;
  for (int k = 0; k < steps; ++k) {
    int op = k ? r.range(0, 11) : -1;
    hist = mix(hist ^ (uint64_t)op);
    size_t m = s.tasks.size();
    size_t i = m ? r.range(0, (int)m - 1) : 0;
    bool sameTime = false;
    switch (op) {
      case -1: break;
      case 0: s.tasks.push_back(randTask(r, s.n, s.tasks)); real.tasks.emplace_back(new RTask(s.tasks.back())); real.s.push(real.tasks.back()->get()); sameTime = r.coin(); c.ev("push"); break;
      case 1: if (m) { real.s.remove(real.tasks[i]->get()); s.tasks.erase(s.tasks.begin() + i); graveyard.push_back(std::move(real.tasks[i])); real.tasks.erase(real.tasks.begin() + i); sameTime = r.coin(); c.ev("remove"); } break;
      case 2: if (m > 1 && i) { real.s.up(real.tasks[i]->get()); std::swap(s.tasks[i], s.tasks[i - 1]); std::swap(real.tasks[i], real.tasks[i - 1]); sameTime = r.coin(); c.ev("up"); } break;
      case 3: if (m > 1 && i + 1 < m) { real.s.down(real.tasks[i]->get()); std::swap(s.tasks[i], s.tasks[i + 1]); std::swap(real.tasks[i], real.tasks[i + 1]); sameTime = r.coin(); c.ev("down"); } break;
      case 4: case 5: if (m) { s.tasks[i] = sameKind(r, s.n, s.tasks[i].kind); real.tasks[i]->set(s.tasks[i]); c.ev("task-changed"); } break;
      case 6: if (m && s.tasks[i].kind) { if (r.coin()) s.tasks[i].active = !s.tasks[i].active; else randCols(r, s.n, s.tasks[i]); real.tasks[i]->set(s.tasks[i]); c.ev("selection"); } break;
      case 7: s.hasQ0 = !s.hasQ0 || s.tasks.empty(); s.q0 = gvec(r, s.n); real.options(s); c.ev("initial-control"); break;
      case 8: s.hasK = !s.hasK; s.K = randK(r, s.n); real.options(s); c.ev("projector"); break;
      case 9: s.hasTh = true; s.th = r.pick(std::vector<double>{1e-4, 1e-2, .3, 1.}); s.accel = r.coin(); s.maxSq = r.coin() ? 10. : std::numeric_limits<double>::max(); real.options(s); c.ev("options"); break;
      case 10: if (!graveyard.empty() && graveyard.back()->kind != 2) {  // a task used before, in this stack or with another size
          auto g = std::move(graveyard.back()); graveyard.pop_back();
          s.tasks.push_back(sameKind(r, s.n, g->kind)); g->set(s.tasks.back());
          real.s.push(g->get()); real.tasks.push_back(std::move(g)); c.ev("push-again"); } break;
      default: {  // another robot size: every task is given new Jacobians
        s.n = r.range(1, 12);
        bool post = false;
        for (auto &x : s.tasks) post = post || x.kind == 2;
        if (post) s.n = std::max(s.n, 7);
        for (auto &g : graveyard) if (g->kind == 2) g->kind = 2;
        for (size_t j = 0; j < s.tasks.size(); ++j) { s.tasks[j] = sameKind(r, s.n, s.tasks[j].kind); real.tasks[j]->set(s.tasks[j]); }
        if (s.hasQ0) s.q0 = gvec(r, s.n); if (s.hasK) s.K = randK(r, s.n);
        real.options(s); c.ev("resized"); }
    }
    if (s.tasks.empty() && !s.hasQ0) { s.hasQ0 = true; s.q0 = gvec(r, s.n); real.options(s); }
    c.log() << "after op " << op; logSpec(c, s);
    if (op >= 4) dirty = true;
    if (k && r.coin(.25)) { c.ev("unevaluated"); continue; }
    if (!sameTime || dirty || t == 0) t += r.range(1, 3); else c.ev("edited-at-same-time");
    Vec u = real.control(t);
    dirty = false;
    Real fresh(s);
    Vec v = fresh.control(1);
    Sol o = reference(s);
    if (o.unsure) { c.ev("undecided"); }
    else { closeM(c, u, v, tolOf(o, s), "same-as-fresh"); c.ev("compared"); }
    Vec again = real.control(t);
    closeM(c, again, u, 0, "same-when-read-again");
    c.state(mix(hist ^ hashSpec(s)));
  }
  c.sample(std::to_string(steps) + " steps, final n=" + std::to_string(s.n));
}
// nothing changes: the control neither changes over time
FAMILY(repeat, 600, 10000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 5);
  logSpec(c, s);
  Real real(s);
  Vec u = real.control(1);
  for (int t = 2; t < 8; ++t) {
    for (auto &x : real.tasks) x->get().taskSOUT.setReady();
    if (r.coin()) real.s.controlSOUT.setReady();
    Vec v = real.control(t);
    closeM(c, v, u, 1e-9 * (1 + u.norm()), "repeated-control");
    c.ev("repeat");
  }
  c.state(hashSpec(s));
}
