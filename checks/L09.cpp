// @dgfree
// @sources src/debug/contiifstream.cpp src/debug/debug.cpp
// @rule each case appends random bytes (complete, partial, empty and very long lines) to a followed file and polls it at random moments, from the same or another thread; delivered lines are compared with the appended ones; distinct = distinct delivered sequences
#include <sot/core/contiifstream.hh>
#include <pthread.h>
#include <atomic>
#include <deque>
#include <thread>
#include <fstream>
#include "harness.hh"
using namespace vh;
using dynamicgraph::sot::Contiifstream;

static std::string scratch() { const char *s = getenv("VERIF_SCRATCH"); return s ? s : "."; }
static std::string line(Rng &r, int id) {
  std::string s;
  int n;
  switch (r.range(0, 9)) {
    case 0: return "";
    case 1: n = r.pick(std::vector<int>{253, 254, 255, 256, 257, 510, 511, 512, 513, 765, 1024, 5000}); break;
    case 2: return r.coin() ? " " : "\t \t";
    case 3: n = 1; break;
    default: n = r.range(1, 40);
  }
  char b[32]; snprintf(b, sizeof b, "%d:", id);
  if (n > 8) s = b;
  while ((int)s.size() < n) { char ch = r.coin(.9) ? (char)r.range(32, 126) : (char)r.range(1, 255); if (ch != '\n') s += ch; }
  return s;
}
static void append(const std::string &f, const std::string &d) {
  int fd = open(f.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  size_t o = 0;
  while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) _exit(77); o += k; }
  close(fd);
}
static void drain(Case &c, Contiifstream &s, std::deque<std::string> &want, size_t limit, bool all) {
  size_t k = 0;
  while (s.ready() && k < limit) {
    std::string got = s.next();
    c.check(!want.empty(), "delivered-line-never-appended-or-twice", [&](std::ostream &o) { o << "got [" << got.substr(0, 60) << "]"; });
    c.eq(got, want.front(), "line-content-and-order");
    want.pop_front();
    ++k;
    c.ev("line-delivered");
  }
  if (all) c.check(want.empty(), "complete-line-not-delivered", [&](std::ostream &o) { o << want.size() << " lines missing, first [" << want.front().substr(0, 60) << "]"; });
}

// append / poll / read histories, one thread
FAMILY(history, 1500, 30000) {
  Rng &r = c.rng;
  std::string f = scratch() + "/follow" + std::to_string(c.index), f2 = f + "b";
  unlink(f.c_str()); unlink(f2.c_str());
  bool viaOpen = r.coin(.3);
  Contiifstream *s = viaOpen ? new Contiifstream() : new Contiifstream(f);
  if (viaOpen) s->open(f);
  std::deque<std::string> want;  // delivered by polls, not read yet
  std::string partial;           // appended, not terminated
  std::vector<std::string> pending;  // complete, not polled
  bool first = true; int id = 0;
  uint64_t h = 0;
  int steps = r.range(2, 30);
  if (r.coin(.8)) append(f, "");
  for (int k = 0; k < steps; ++k) {
    int op = r.range(0, 9);
    if (op <= 4) {  // append some complete lines and maybe a partial one
      std::string d;
      int n = r.range(0, 5);
      for (int i = 0; i < n; ++i) {
        std::string l = line(r, ++id);
        d += l + "\n";
        pending.push_back(partial + l);
        partial = "";
      }
      if (r.coin(.3)) { std::string l = line(r, ++id); d += l; partial += l; c.ev("partial-line"); }
      append(f, d);
      c.log() << "append " << n << " lines, partial " << partial.size();
      c.ev("append");
    } else if (op <= 7) {
      bool res = s->loop();
      c.eq(res, !pending.empty(), "poll-result");
      if (!first) for (auto &l : pending) { want.push_back(l); h = mix(h ^ hashStr(l)); }
      else c.ev("first-poll");
      pending.clear();
      first = false;
      c.eq(s->ready(), !want.empty(), "ready-iff-undelivered-lines");
      c.log() << "poll";
      c.ev(res ? "poll-new" : "poll-nothing");
    } else if (op == 8) {
      drain(c, *s, want, r.range(0, 4), false);
    } else if (r.coin(.15)) {  // follow another file: its lines come from the start
      std::swap(f, f2);
      unlink(f.c_str());
      append(f, "");
      s->open(f);
      pending.clear(); partial = "";
      c.log() << "open another file";
      c.ev("reopen");
    }
  }
  s->loop();
  if (!first) for (auto &l : pending) want.push_back(l);
  drain(c, *s, want, (size_t)-1, true);
  c.check(!s->loop(), "poll-result");
  c.check(!s->ready(), "nothing-new-nothing-delivered");
  delete s;
  unlink(f.c_str()); unlink(f2.c_str());
  c.state(h);
  c.sample("steps=" + std::to_string(steps) + " lines=" + std::to_string(id));
}

// a writer thread appends arbitrary byte chunks while this one polls
FAMILY(concurrent, 60, 1500) {
  Rng &r = c.rng;
  std::string f = scratch() + "/conc" + std::to_string(c.index);
  unlink(f.c_str());
  append(f, "old line\nanother\n");
  Contiifstream s(f);
  c.check(s.loop(), "first-poll");
  c.check(!s.ready(), "old-lines-skipped");
  std::deque<std::string> want; std::string data;
  int n = r.range(20, 200);
  for (int i = 0; i < n; ++i) { std::string l = line(r, i); want.push_back(l); data += l + "\n"; }
  std::vector<size_t> cuts;
  for (size_t o = 0; o < data.size();) { size_t k = r.range(1, r.coin(.2) ? 600 : 40); k = std::min(k, data.size() - o); cuts.push_back(k); o += k; }
  std::atomic<bool> done(false);
  std::thread w([&]() {
    int fd = open(f.c_str(), O_WRONLY | O_APPEND);
    size_t o = 0, q = 0;
    for (size_t k : cuts) { if (write(fd, data.data() + o, k) != (ssize_t)k) _exit(77); o += k; if (++q % 7 == 0) std::this_thread::yield(); }
    close(fd);
    done = true;
  });
  struct Join { std::thread &t; ~Join() { t.join(); } } j{w};
  int polls = 0, useful = 0;
  while (!done) {
    bool b = s.loop(); ++polls; useful += b;
    c.eq(s.ready(), b, "ready-iff-undelivered-lines");
    drain(c, s, want, (size_t)-1, false);
  }
  s.loop();
  drain(c, s, want, (size_t)-1, true);
  c.ev("concurrent-polls", polls); c.ev("concurrent-polls-with-lines", useful);
  c.state(hashStr(data) ^ useful);
  unlink(f.c_str());
}
FAMILY(missing_file, 20, 20) {
  Contiifstream s(scratch() + "/does-not-exist" + std::to_string(c.index));
  for (int i = 0; i < 3; ++i) { c.check(!s.loop(), "poll-result"); c.check(!s.ready(), "ready"); }
  c.state(c.index);
}
