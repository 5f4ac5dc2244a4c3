// @sources src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-posture.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @extra ../lib/reflin.cc
// @rule each case applies a random sequence of stack editing commands, some on absent tasks, and compares the listing, the membership test, the display and the control with an ordered list kept aside; distinct = distinct command histories
#include "S_common.hh"
using dg::command::Value;

FAMILY(edits, 1500, 40000) {
  Rng &r = c.rng;
  int n = r.range(2, 6), m = r.range(1, 6);
  sot::Sot s(uname("stack"));
  std::vector<std::unique_ptr<PlainTask>> tasks;
  std::vector<TSpec> specs;
  for (int i = 0; i < m; ++i) {
    tasks.emplace_back(new PlainTask(uname("t")));
    TSpec t; t.J = gmat(r, r.range(1, 2), n); t.e = gvec(r, (int)t.J.rows());
    specs.push_back(t); tasks.back()->set(t);
  }
  bool sized = false;
  if (r.coin(.8)) { cmd(s, "setSize", {Value((unsigned)n)}); sized = true; }
  std::vector<int> model;
  uint64_t hist = 0;
  int time = 0, steps = r.range(5, 40);
  std::string trail;
  for (int k = 0; k < steps; ++k) {
    int i = r.range(0, m - 1);
    auto at = std::find(model.begin(), model.end(), i);
    bool in = at != model.end();
    int op = r.range(0, 13);
    bool byName = r.coin();
    Value nm(tasks[i]->getName());
    hist = mix(hist ^ (op * 64 + i));
    trail += " " + std::to_string(op) + ":" + std::to_string(i);
    c.log() << "op " << op << " task " << i << " byName " << byName;
    switch (op) {
      case 0: case 1: case 2:
        if (in && r.coin(.9)) break;
        if (!sized) { c.throws<std::logic_error>([&] { if (byName) cmd(s, "push", {nm}); else s.push(*tasks[i]); }, "push-without-size"); c.ev("refused-push"); break; }
        if (byName) cmd(s, "push", {nm}); else s.push(*tasks[i]);
        model.push_back(i); c.ev("push"); break;
      case 3: if (model.empty()) break; { sot::TaskAbstract &x = s.pop(); c.check(&x == tasks[model.back()].get(), "popped-task"); model.pop_back(); c.ev("pop"); break; }
      case 4: if (byName) cmd(s, "remove", {nm}); else s.remove(*tasks[i]); if (in) { model.erase(at); c.ev("remove"); } else c.ev("remove-absent"); break;
      case 5: case 6: if (byName) cmd(s, "up", {nm}); else s.up(*tasks[i]); if (in && at != model.begin()) { std::iter_swap(at, at - 1); c.ev("up"); } else c.ev("up-nothing"); break;
      case 7: case 8: if (byName) cmd(s, "down", {nm}); else s.down(*tasks[i]); if (in && at + 1 != model.end()) { std::iter_swap(at, at + 1); c.ev("down"); } else c.ev("down-nothing"); break;
      case 9: if (r.coin(.2)) { if (byName) cmd(s, "clear"); else s.clear(); model.clear(); c.ev("clear"); } break;
      case 10: c.throws<std::exception>([&] { cmd(s, r.pick(std::vector<std::string>{"push", "remove", "up", "down"}), {Value(uname("nobody"))}); }, "unknown-task"); c.ev("unknown-task"); break;
      case 12: // a task outside the stack may be destroyed; another of the same or another name takes its place
        if (in || r.coin(.3)) break;
        { std::string nmx = r.coin() ? tasks[i]->getName() : uname("t"); tasks[i].reset(); tasks[i].reset(new PlainTask(nmx)); TSpec t; t.J = gmat(r, r.range(1, 2), n); t.e = gvec(r, (int)t.J.rows()); specs[i] = t; tasks[i]->set(t); c.ev("task-destroyed"); break; }
      default: if (!sized) { cmd(s, "setSize", {Value((unsigned)n)}); sized = true; }
    }
    std::string list = "( ", disp = "+-----------------\n+   SOT     \n+-----------------\n";
    for (int x : model) { list += "\"" + tasks[x]->getName() + "\", "; disp += "| " + tasks[x]->getName() + "\n"; }
    list += ")"; disp += "+-----------------\n";
    std::string got = cmd(s, "list").value();
    c.eq(got, list, "list");
    std::string d = cmd(s, "display").value();
    c.eq(d, disp, "display");
    std::ostringstream os; s.display(os); c.eq(os.str(), disp, "printed");
    std::vector<const sot::TaskAbstract *> want, have(s.tasks().begin(), s.tasks().end());
    for (int x : model) want.push_back(tasks[x].get());
    c.check(have == want, "tasks");
    for (int x = 0; x < m; ++x) c.eq(s.exist(*tasks[x]), std::find(model.begin(), model.end(), x) != model.end(), "exist");
    unsigned sz = cmd(s, "getSize").value(); c.eq(sz, sized ? (unsigned)n : 0u, "size");
    if (sized && r.coin(.5)) {  // the order listed is the order in effect, at once
      std::set<int> uniq(model.begin(), model.end());
      if (uniq.size() != model.size()) { c.ev("duplicate"); continue; }
      if (r.coin() || !time) ++time;
      if (model.empty()) { c.throws<std::logic_error>([&] { s.controlSOUT(++time); }, "empty-stack"); s.controlSOUT.setReady(); c.ev("empty"); continue; }
      SSpec p; p.n = n; for (int x : model) p.tasks.push_back(specs[x]);
      Vec u = s.controlSOUT(time);
      Sol o = reference(p);
      if (o.unsure) continue;
      closeM(c, u, o.u, tolOf(o, p), "control-follows-order"); c.ev("control");
    }
  }
  c.state(hist);
  c.sample(trail);
}
FAMILY(wrong_size, 300, 3000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 3);
  s.hasQ0 = true;
  int bad = s.n; while (bad == s.n) bad = r.range(0, s.n + 4);
  s.q0 = gvec(r, s.n);
  Real real(s);
  bool first = r.coin();
  if (first) real.control(1);
  std::string before = cmd(real.s, "list").value();
  Vec q = gvec(r, bad); real.s.q0SIN = q;
  c.throws<std::length_error>([&] { real.control(2); }, "wrong-initial-control");
  std::string after = cmd(real.s, "list").value();
  c.eq(after, before, "stack-unchanged");
  real.s.q0SIN = s.q0; real.s.controlSOUT.setReady();
  Vec u = real.control(3);
  Sol o = reference(s);
  if (!o.unsure) closeM(c, u, o.u, tolOf(o, s), "usable-after-error");
  c.ev("refused"); c.state(hashSpec(s));
}
// the graph export lists the priority chain and every task once
FAMILY(graph, 300, 3000) {
  Rng &r = c.rng;
  SSpec s = randStack(r, 5);
  Real real(s);
  std::ostringstream os; real.s.writeGraph(os);
  std::string g = os.str();
  size_t pos = 0;
  for (size_t i = 0; i + 1 < s.tasks.size(); ++i) {
    std::string e = "\"" + real.tasks[i]->name + "\" -> \"" + real.tasks[i + 1]->name + "\" [color=red]";
    size_t p = g.find(e, pos);
    c.check(p != std::string::npos, "edge", [&](std::ostream &o) { o << e; }); pos = p;
    c.ev("edge");
  }
  size_t n = 0; for (size_t p = g.find("[color=red]"); p != std::string::npos; p = g.find("[color=red]", p + 1)) ++n;
  c.eq(n, s.tasks.size() ? s.tasks.size() - 1 : 0, "edges");
  for (auto &t : real.tasks) { std::string d = "\"" + t->name + "\" [ label = \"" + t->name + "\""; size_t p = g.find(d); c.check(p != std::string::npos && g.find(d, p + 1) == std::string::npos, "node"); }
  c.state(hashSpec(s));
}
