// @sources src/tools/device.cpp src/tools/robot-simu.cpp src/tools/periodic-call.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case registers recording callbacks before and after the steps of a device, some of which fail, some at a lower rate, adds and removes them between steps, and checks the recorded trace of every step; distinct = distinct traces
#include "D_common.hh"
struct Ev { std::string who; int t; Vec state; int stateTime; };
struct MyExc : public std::exception {};
FAMILY(callbacks, 3000, 80000) {
  Rng &r = c.rng; sot::Device d(uname("dev")); cmd(d, "setSanityCheck", {Value(false)}); unsigned N = r.range(7, 9); cmd(d, "resize", {Value(N)}); if (r.coin(.3)) cmd(d, "setControlInputType", {Value(std::string("noInteg"))});
  std::vector<Ev> tr; Vec next; int controlSeen = 0;
  dg::Signal<Vec, int> ctl("ctl"); ctl.setFunction([&](Vec &o, int t) -> Vec & { tr.push_back({"control", t, d.stateSOUT.accessCopy(), d.stateSOUT.getTime()}); ++controlSeen; o = next; return o; }); d.controlSIN.plug(&ctl);
  struct Cb { std::string name; bool before; int period, fail; std::unique_ptr<dg::Signal<int, int>> s; };
  std::map<std::pair<bool, std::string>, Cb> cbs; std::vector<std::unique_ptr<dg::Signal<int, int>>> old; std::vector<std::string> pool = {"a", "b", "c", "d", "e"}; std::string trace;
  int T = r.range(2, 10); int moved = 0;
  for (int k = 0; k < T; ++k) {
    for (int j = r.range(0, 2); j > 0; --j) {
      bool bef = r.coin(); std::string n = r.pick(pool); auto key = std::make_pair(bef, n); sot::PeriodicCall &pc = bef ? d.periodicCallBefore() : d.periodicCallAfter();
      if (cbs.count(key) && r.coin(.6)) { pc.rmSignal(n); old.push_back(std::move(cbs[key].s)); cbs.erase(key); c.ev("removed"); continue; }
      if (r.coin(.05)) { pc.clear(); for (auto i = cbs.begin(); i != cbs.end();) if (i->first.first == bef) { old.push_back(std::move(i->second.s)); i = cbs.erase(i); } else ++i; c.ev("cleared"); continue; }
      if (cbs.count(key)) old.push_back(std::move(cbs[key].s));
      Cb &b = cbs[key]; b.name = n; b.before = bef; b.period = r.coin(.7) ? 1 : r.range(1, 4); b.fail = r.coin(.15) ? r.range(1, 4) : 0; b.s.reset(new dg::Signal<int, int>("cb")); std::string who = (bef ? "before:" : "after:") + n; int fail = b.fail;
      b.s->setFunction([&, who, fail, bef](int &o, int t) -> int & { tr.push_back({who, t, d.stateSOUT.accessCopy(), d.stateSOUT.getTime()}); if (bef) { next(next.size() - 1) += 100; ++moved; } if (fail == 1) throw MyExc(); if (fail == 2) throw "text"; if (fail == 3) throw 42; if (fail == 4) throw dg::ExceptionSignal(dg::ExceptionSignal::GENERIC, "x"); o = t; return o; });
      if (b.period == 1 && r.coin()) pc.addSignal(n, *b.s); else pc.addDownsampledSignal(n, *b.s, b.period); c.ev("added");
    }
    tr.clear(); next = gvec(r, N - 6); Vec before = d.stateSOUT.accessCopy(), asked = next; int t0 = d.stateSOUT.getTime(); moved = 0; int mv = 0; double dt = .5;
    d.increment(dt); int t1 = t0 + 1; c.eq(d.stateSOUT.getTime(), t1, "time-advances-by-one"); Vec after = d.stateSOUT.accessCopy();
    // phases: before*, control, after*
    size_t ctlAt = tr.size(), ctls = 0; std::string line; for (size_t i = 0; i < tr.size(); ++i) { line += tr[i].who + " "; if (tr[i].who == "control") { ctlAt = i; ++ctls; } }
    c.log() << "step " << t1 << ": " << line; c.check(ctls == 1, "control-read-once");
    c.check(tr[ctlAt].t == t0, "control-time"); trace += line;
    for (int ph = 0; ph < 2; ++ph) {
      bool bef = ph == 0, failed = false; std::set<std::string> want; 
      for (auto &q : cbs) if (q.first.first == bef && t1 % q.second.period == 0) want.insert((bef ? "before:" : "after:") + q.first.second);
      std::map<std::string, int> got; size_t lo = bef ? 0 : ctlAt + 1, hi = bef ? ctlAt : tr.size();
      for (size_t i = 0; i < tr.size(); ++i) if (tr[i].who != "control" && (tr[i].who[0] == 'b') == bef) {
        c.check(i >= lo && i < hi, bef ? "before-callbacks-precede-the-control" : "after-callbacks-follow-the-control"); c.eq(tr[i].t, t1, "callback-time"); ++got[tr[i].who];
        c.check(!failed, "callback-after-a-failed-one"); auto &q = cbs[{bef, tr[i].who.substr(bef ? 7 : 6)}]; if (q.fail) failed = true;
        if (bef) { ++mv; c.check(tr[i].state == before && tr[i].stateTime == t0, "before-callbacks-see-the-old-state"); } else c.check(tr[i].state == after && tr[i].stateTime == t1, "after-callbacks-see-the-new-state");
        c.ev(bef ? "before" : "after"); if (q.fail) c.ev("failed-callback");
      }
      for (auto &g : got) { c.eq(g.second, 1, "callback-once"); c.check(want.count(g.first), "callback-not-due"); }
      if (!failed) for (auto &w : want) c.check(got.count(w), "callback-missing"); else { bool any = false; for (auto &w : want) any = any || got.count(w); c.check(any, "failed-callback-ran"); }
    }
    // the control that was integrated is the one the 'before' callbacks left
    asked(asked.size() - 1) += 100 * mv; Vec e = before; if (d.stateSOUT.accessCopy().size() != (int)N) c.fail("size");
    std::ostringstream o; d.display(o); bool no = o.str().find("controlInputType:0") != std::string::npos; if (no) e.tail(N - 6) = asked; else e.tail(N - 6) += asked * dt;
    closeM(c, after, e, 1e-12 * (1 + e.norm()), "step-not-prevented"); closeM(c, d.motorcontrolSOUT(t1), after, 0, "motor-control");
  }
  c.state(trace); c.sample(trace);
}
