// @sources src/debug/debug.cpp src/tools/event.cpp src/tools/switch.cpp src/tools/latch.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp
// @rule each case feeds condition and selection histories to an event, switch or latch block, and compares outputs and triggered evaluations with the logic; distinct = distinct histories of outputs
#include <sot/core/event.hh>
#include <sot/core/latch.hh>
#include <sot/core/switch.hh>
#include "E_common.hh"
struct Probe : dg::Entity {
  dg::Signal<int, int> s; std::vector<std::pair<int, int>> &l; int id;
  Probe(const std::string &n, std::vector<std::pair<int, int>> &l_, int i) : dg::Entity(n), s("probe(" + n + ")::output(int)::s"), l(l_), id(i) { s.setFunction([this](int &x, int t) -> int & { l.push_back({id, t}); return x = t; }); signalRegistration(s); }
  const std::string &getClassName() const { static std::string k = "Probe"; return k; }
};
FAMILY(event, 3000, 100000) {
  Rng &r = c.rng; EP e = make("Event"); std::vector<std::pair<int, int>> log; std::vector<std::unique_ptr<Probe>> p; int n = r.range(0, 4); for (int i = 0; i < n; ++i) p.emplace_back(new Probe(uname("probe"), log, i));
  std::vector<int> trig; std::string list = "("; auto add = [&] { if (!n) return; int i = r.range(0, n - 1); cmd(*e, "addSignal", {Value(p[i]->getName() + ".s")}); trig.push_back(i); list += "'" + p[i]->s.getName() + "', "; c.ev("trigger-added"); };
  for (int i = r.range(0, 3); i; --i) add();
  if (r.coin(.1)) { c.throws<dg::ExceptionAbstract>([&] { cmd(*e, "addSignal", {Value(std::string("nobody.s"))}); }, "unknown-signal"); c.ev("unknown"); }
  int rep = 0, since = 0, last = 2, t = r.range(0, 5); bool val = false; double stay = r.pick(std::vector<double>{.2, .5, .85, .95}); uint64_t h = 0; auto &o = out<bool>(*e, "check");
  if (r.coin(.6)) { rep = r.range(0, 5); cmd(*e, "repeat", {Value(rep)}); }
  // `since` counts the evaluations at which the condition has stayed up since the last firing
  for (int s = 0, S = r.range(1, 40); s < S; ++s) {
    if (r.coin(.04)) { rep = r.range(0, 5); cmd(*e, "repeat", {Value(rep)}); c.ev("repeat-changed"); } if (r.coin(.04)) add();
    if (!s ? r.coin() : !r.coin(stay)) val = !val; in<bool>(*e, "condition") = val; if (r.coin(.9)) t += r.range(1, 2); else c.ev("same-time");
    bool change = last == 2 || (int)val != last, up = val && last == 0; if (up) since = 0; else if (val) ++since; bool fire = up || (val && rep > 0 && since >= rep); last = val; if (fire) since = 0;
    log.clear(); bool g = r.coin(.8) ? o.access(t) : (o.recompute(t), o.accessCopy()); c.check(g == change, "change-detected", [&](std::ostream &x) { x << "evaluation " << s << " condition " << val << " got " << g; });
    std::vector<std::pair<int, int>> w; if (fire) for (int i : trig) w.push_back({i, t});
    c.check(log == w, up ? "fires-on-rise" : fire ? "fires-again" : "does-not-fire", [&](std::ostream &x) { x << "evaluation " << s << " condition " << val << " up since " << since << " repeat " << rep << ": " << log.size() << " evaluations instead of " << w.size(); });
    c.ev(up ? "rise" : fire ? "repeated" : change ? "change" : "steady"); h = h * 4 + g * 2 + fire + (uint64_t)t * 7;
    if (r.coin(.1)) { std::string l = cmd(*e, "list").value(); c.eq(l, list + ")", "list"); }
  }
  c.state(h);
}
template <class T> struct V;
template <> struct V<Vec> { static Vec get(Rng &r, int k) { Vec v(r.range(0, 3) + 1); for (int i = 0; i < v.size(); ++i) v(i) = k * 100 + r.gauss(); return v; } static bool eq(const Vec &a, const Vec &b) { return a.size() == b.size() && a == b; } };
template <> struct V<bool> { static bool get(Rng &r, int) { return r.coin(); } static bool eq(bool a, bool b) { return a == b; } };
template <> struct V<MH> { static MH get(Rng &r, int) { return pose(r); } static bool eq(const MH &a, const MH &b) { return a.matrix() == b.matrix(); } };
template <class T> static void sw(Case &c, const char *cls) {
  Rng &r = c.rng; EP e = make(cls); auto &o = dynamic_cast<sot::VariadicAbstract<T, T, int> &>(*e); int n = r.range(0, 5), t = 0, sel = 0; std::vector<T> v; bool byInt = r.coin(.7), b = false; uint64_t h = n; auto &sout = o.SOUT;
  cmd(*e, "setSignalNumber", {Value(n)}); for (int i = 0; i < n; ++i) { v.push_back(V<T>::get(r, i)); *o.getSignalIn(i) = v[i]; }
  for (int s = 0, S = r.range(1, 12); s < S; ++s) {
    if (r.coin(.1)) { int m = r.range(0, 5); cmd(*e, "setSignalNumber", {Value(m)}); for (int i = n; i < m; ++i) { v.resize(i); v.push_back(V<T>::get(r, i)); *o.getSignalIn(i) = v[i]; } v.resize(m); n = m; c.ev("resized"); }
    c.eq((int)cmd(*e, "getSignalNumber").value(), n, "signal-number");
    if (!byInt && r.coin(.1)) byInt = true, c.ev("selection-taken-over");  // an integer selection has the last word
    if (byInt) { sel = n && r.coin(.85) ? r.range(0, n - 1) : r.range(-2, n + 2); in<int>(*e, "selection") = sel; } if (!byInt || r.coin(.3)) { b = r.coin(); in<bool>(*e, "boolSelection") = b; } if (!byInt) sel = b;
    for (int i = 0; i < n; ++i) if (r.coin(.4)) { v[i] = V<T>::get(r, i); *o.getSignalIn(i) = v[i]; }
    t += r.range(1, 2);
    if (sel < 0 || sel >= n) { c.throws<std::runtime_error>([&] { sout(t); }, "selection-out-of-range"); c.ev("out-of-range"); }
    else { for (int k = r.range(1, 2); k; --k) c.check(V<T>::eq(sout(t), v[sel]), "selected-input", [&](std::ostream &x) { x << cls << " selection " << sel << " of " << n; }); c.ev("selected"); }
    h = h * 31 + sel + 7;
    if (r.coin(.3) && sel >= 0 && sel < n) { v[sel] = V<T>::get(r, sel); *o.getSignalIn(sel) = v[sel]; c.check(V<T>::eq(sout(++t), v[sel]), "selected-input-refreshed"); c.ev("refreshed"); }
  }
  c.state(h);
}
FAMILY(switch_vector, 1000, 30000) { sw<Vec>(c, "SwitchVector"); }
FAMILY(switch_boolean, 800, 30000) { sw<bool>(c, "SwitchBoolean"); }
FAMILY(switch_pose, 400, 15000) { sw<MH>(c, "SwitchMatrixHomogeneous"); }
FAMILY(latch, 2000, 60000) {
  Rng &r = c.rng; EP e = make("Latch"); bool v = false; int t = 0; uint64_t h = 1; auto &o = out<bool>(*e, "out");
  for (int s = 0, S = r.range(1, 30); s < S; ++s) {
    t += r.range(0, 2);
    switch (r.range(0, 5)) { case 0: cmd(*e, "turnOn"); v = true; c.ev("on"); break; case 1: cmd(*e, "turnOff"); v = false; c.ev("off"); break; case 2: v = true; c.check(out<bool>(*e, "turnOnSout").access(t) == true, "turn-on-output"); c.ev("on-by-signal"); break; case 3: v = false; c.check(out<bool>(*e, "turnOffSout").access(t) == false, "turn-off-output"); c.ev("off-by-signal"); break; default:; }
    c.check(o.access(t) == v, "latched"); h = h * 2 + v;
  }
  c.state(h);
}
// an event that fires a latch: the latch remembers the rise
FAMILY(event_latch, 500, 20000) {
  Rng &r = c.rng; EP e = make("Event"), l = make("Latch"); cmd(*e, "addSignal", {Value(l->getName() + ".turnOnSout")}); bool last = true, seen = false, latched = false; uint64_t h = 1;
  for (int t = 1; t < 20; ++t) { bool v = r.coin(.3); in<bool>(*e, "condition") = v; out<bool>(*e, "check").access(t); if (seen && v && !last) latched = true; last = v; seen = true; if (r.coin(.1)) { cmd(*l, "turnOff"); latched = false; } c.check(out<bool>(*l, "out").access(t) == latched, "latched-by-event"); c.ev("step"); h = h * 2 + latched; }
  c.state(h);
}
