// @sources src/tools/periodic-call.cpp src/tools/periodic-call-entity.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-factory.cpp src/exception/exception-signal.cpp src/exception/exception-tools.cpp src/debug/debug.cpp
// @rule each case registers counting signals with periods, runs random steps and edits, and compares the log of evaluations (which signal, which time, in which order) with the schedule; distinct = distinct evaluation logs
#include <sot/core/periodic-call-entity.hh>
#include <dynamic-graph/pool.h>
#include "E_common.hh"
struct Log { std::vector<std::pair<int, int>> v; };
struct Probe : dg::Entity {
  dg::Signal<int, int> s; Log &l; int id;
  Probe(const std::string &n, Log &l_, int i) : dg::Entity(n), s("probe(" + n + ")::output(int)::s"), l(l_), id(i) { s.setFunction([this](int &x, int t) -> int & { l.v.push_back({id, t}); return x = t; }); signalRegistration(s); }
  const std::string &getClassName() const { static std::string k = "Probe"; return k; }
};
struct Open : sot::PeriodicCallEntity { Open(const std::string &n) : sot::PeriodicCallEntity(n) {} sot::PeriodicCall &pc() { return *this; } };
static std::vector<std::string> listed(const std::string &d) { std::vector<std::string> o; std::istringstream s(d); std::string l; while (std::getline(s, l)) if (l.compare(0, 3, " - ") == 0) o.push_back(l.substr(3)); return o; }
FAMILY(schedule, 4000, 120000) {
  Rng &r = c.rng; Log log; int n = r.range(1, 6); std::vector<std::unique_ptr<Probe>> p; for (int i = 0; i < n; ++i) p.emplace_back(new Probe(uname("probe"), log, i));
  sot::PeriodicCall plain; std::unique_ptr<Open> ent; bool viaEntity = r.coin(); if (viaEntity) ent.reset(new Open(uname("calls"))); sot::PeriodicCall &pc = viaEntity ? ent->pc() : plain;
  std::map<std::string, std::pair<int, int>> m; int t = r.coin() ? 0 : r.range(0, 1000); uint64_t h = 0;
  for (int s = 0, S = r.range(3, 40); s < S; ++s) {
    int op = r.range(0, 11), i = r.range(0, n - 1); std::string path = p[i]->getName() + ".s", own = r.pick(std::vector<std::string>{"k", "k0", "k00", "k1", "k10", ""}); unsigned per = r.coin(.3) ? r.range(1, 3) : r.range(1, 12);
    if (op == 0) { pc.addSignal(path); m[path] = {i, 1}; c.ev("add"); } else if (op == 1) { pc.addSignal(own, p[i]->s); m[own] = {i, 1}; c.ev("add"); }
    else if (op == 2) { pc.addDownsampledSignal(path, per); m[path] = {i, (int)per}; c.ev("add-downsampled"); } else if (op == 3) { pc.addDownsampledSignal(own, p[i]->s, per); m[own] = {i, (int)per}; c.ev("add-downsampled"); }
    else if (op == 4) { std::string k = r.coin(.2) || m.empty() ? "absent" : std::next(m.begin(), r.range(0, m.size() - 1))->first; pc.rmSignal(k); m.erase(k); c.ev("remove"); }
    else if (op == 5 && r.coin(.3)) { pc.clear(); m.clear(); c.ev("clear"); }
    else if (op == 6 && r.coin(.3)) { c.throws<dg::ExceptionFactory>([&] { if (r.coin()) pc.addSignal("nobody" + std::to_string(s) + ".s"); else pc.addDownsampledSignal("nobody.s", 2); }, "unknown-entity"); c.ev("unknown"); }
    else {
      log.v.clear(); std::vector<std::pair<int, int>> w; for (auto &k : m) if (t % k.second.second == 0) w.push_back({k.second.first, t}); bool once = viaEntity && r.coin(.1);
      if (once) { ent->trigerOnce.recompute(t); m.clear(); c.ev("once"); } else if (viaEntity && r.coin(.7)) ent->triger.recompute(t); else if (r.coin()) pc.run(t); else pc.runSignals(t);
      c.check(log.v == w, "evaluations-at-multiples", [&](std::ostream &o) { o << "step " << t << ": evaluated"; for (auto &k : log.v) o << " " << k.first; o << ", due"; for (auto &k : w) o << " " << k.first; });
      c.ev("step"); c.ev("evaluation", w.size()); for (auto &k : w) { int z[2] = {k.first, k.second}; h = hashBytes(z, 8, h); }
      t += r.coin(.9) ? 1 : r.range(0, 5); if (!viaEntity && r.coin(.08)) { t = r.range(0, 1000); c.ev("clock-set"); }
    }
    if (r.coin(.2)) { std::ostringstream o; if (viaEntity) ent->display(o); else pc.display(o); std::vector<std::string> w; for (auto &k : m) w.push_back(k.first); c.check(listed(o.str()) == w, "listing", [&](std::ostream &s2) { s2 << o.str(); }); }
  }
  c.state(h);
}
