// @sources src/debug/debug.cpp src/exception/exception-tools.cpp src/exception/exception-signal.cpp src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-posture.cpp src/feature/feature-generic.cpp src/task/task.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp
// @rule each case schedules logging and stack-editing events, removes some, starts, pauses and steps the sequencer, and compares the log of firings (event, step, order) and the stack with the schedule; distinct = distinct logs
// @extra ../lib/reflin.cc
#include <sot/core/sequencer.hh>
#include <sot/core/sot.hh>
#include <sot/core/feature-posture.hh>
#include "tools/sequencer.cpp"  // its own event classes are local to it
#include "E_common.hh"
struct Play : sot::Sequencer { Play(const std::string &n) : sot::Sequencer(n) {} void play(bool b) { playMode = b; } void rewind() { timeInit = -1; } void stream(std::ostream *o) { outputStreamPtr = o; } void quiet(bool b) { noOutput = b; } };
struct Tk : sot::TaskAbstract { static const std::string CLASS_NAME; const std::string &getClassName() const { return CLASS_NAME; } Tk(const std::string &n) : sot::TaskAbstract(n) {} };
const std::string Tk::CLASS_NAME = "Tk";
struct Note : sot::Sequencer::sotEventAbstract {
  std::vector<int> *log; int id; sot::Sot **seen; int *alive;
  Note(const std::string &n, int type, std::vector<int> *l, int i, sot::Sot **s, int *a) : sotEventAbstract(n), log(l), id(i), seen(s), alive(a) { eventType = type; ++*alive; }
  ~Note() { --*alive; }
  void operator()(sot::Sot *s) { log->push_back(id); *seen = s; }
};
struct Ev { int id, type; std::string name; int task; bool add; };  // task < 0: a logging event
FAMILY(histories, 2500, 80000) {
  Rng &r = c.rng; int n = 2, nt = r.range(1, 4), alive = 0, next = 0; sot::Sot st(uname("stack")); cmd(st, "setSize", {Value((unsigned)n)}); std::vector<std::unique_ptr<Tk>> tk; for (int i = 0; i < nt; ++i) tk.emplace_back(new Tk(uname("tk")));
  Play q(uname("seq")); std::vector<int> log; sot::Sot *seen = NULL; std::map<unsigned, std::vector<Ev>> m; bool play = false; int t = r.range(0, 50), t0 = -1; std::vector<std::string> stack, w; bool ref = r.coin(.8); std::ostringstream trace; std::string wtrace; bool traced = r.coin(.3); uint64_t h = 0;
  if (ref) q.setSotRef(&st); if (traced) q.stream(&trace);
  for (int s = 0, S = r.range(4, 50); s < S; ++s) {
    int op = r.range(0, 9);
    if (op <= 2) {
      unsigned k = r.range(0, 12) + (t0 >= 0 && r.coin(.7) ? t - t0 : 0); Ev e{next++, r.range(0, 2), r.coin(.5) ? uname("ev") : std::string("same"), -1, false};
      if (r.coin()) { e.task = r.range(0, nt - 1); e.add = r.coin(); e.type = e.add ? 0 : 1; e.name = tk[e.task]->getName(); if (e.add) q.addTask(new sotEventAddATask("", tk[e.task].get()), k); else q.addTask(new sotEventRemoveATask("", tk[e.task].get()), k); }
      else q.addTask(new Note(e.name, e.type, &log, e.id, &seen, &alive), k);
      m[k].push_back(e); c.ev("event"); c.log() << "event " << e.id << " " << e.name << " at step " << k;
    } else if (op == 3) {
      unsigned k; std::string nm; int ty; if (!m.empty() && r.coin(.85)) { auto it = std::next(m.begin(), r.range(0, m.size() - 1)); k = it->first; auto &e = it->second[r.range(0, it->second.size() - 1)]; nm = e.name; ty = e.type; if (r.coin(.1)) ty = (ty + 1) % 3; } else { k = r.range(0, 20); nm = "nobody"; ty = 0; }
      auto it = m.find(k); bool real = false; 
      if (it != m.end()) for (size_t i = 0; i < it->second.size(); ++i) if (it->second[i].type == ty && it->second[i].name == nm) { real = true; 
        q.rmTask(ty, nm, k); it->second.erase(it->second.begin() + i); if (it->second.empty()) m.erase(it); c.ev("removed"); c.log() << "remove " << nm << " type " << ty << " at step " << k; break; }
      if (!real) { q.rmTask(ty, nm, k); c.ev("removed-absent"); }
    } else if (op == 4 && r.coin(.1)) { q.clearAll(); m.clear(); c.ev("clear"); }
    else if (op == 5 && (!play || r.coin(.25))) { play = !play; q.play(play); c.ev(play ? "started" : "stopped"); if (play && r.coin(.2)) { q.rewind(); t0 = -1; c.ev("rewound"); } }
    else {
      log.clear(); w.clear(); std::vector<int> wl; if (play) { if (t0 < 0) t0 = t; auto it = m.find(t - t0); if (it != m.end()) for (auto &e : it->second) { if (e.task < 0) wl.push_back(e.id); else if (ref) { auto f = std::find(stack.begin(), stack.end(), e.name); if (e.add) { stack.push_back(e.name); } else if (f != stack.end()) stack.erase(f); }
          if (traced) wtrace += "At time t=" + std::to_string(t) + ": " + (e.task < 0 ? e.name : (e.add ? "Add<" : "Remove<") + e.name + ">") + "\n"; c.ev("fired"); } }
      int d = 0; if (r.coin()) q.trigger(d, t); else { q.triggerSOUT(t); if (r.coin(.3)) q.triggerSOUT(t); }  // twice at one time is once
      c.check(log == wl, "fired-once-in-order", [&](std::ostream &o) { o << "time " << t << " step " << t - t0 << ": fired"; for (int i : log) o << " " << i; o << ", due"; for (int i : wl) o << " " << i; });
      if (!wl.empty()) c.check(seen == (ref ? &st : NULL), "stack-handed-to-event");
      std::string g = cmd(st, "list").value(), ws; { ws = "( "; for (auto &x : stack) ws += "\"" + x + "\", "; ws += ")"; } c.eq(g, ws, "stack"); if (traced) c.eq(trace.str(), wtrace, "trace-of-firings");
      for (int i : wl) h = h * 131 + i + 7 * t; c.ev("step"); t += r.coin(.93) ? 1 : r.range(1, 4);
    }
    if (r.coin(.1)) { bool qt = r.coin(.3); q.quiet(qt); std::ostringstream o, x; q.display(o); if (!qt) { x << "Sequencer " << q.getName() << "(t0=" << t0 << ",mode=" << (play ? "play" : "pause") << "): " << std::endl; for (auto &k : m) { x << " - t=" << k.first << ":\t"; for (auto &e : k.second) { if (e.task < 0) x << e.name; else x << (e.add ? "Add<" : "Remove<") << e.name << ">"; x << " "; } x << std::endl; } } c.eq(o.str(), x.str(), "display"); }
  }
  q.clearAll(); c.state(h);
}
