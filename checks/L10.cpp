// @dgfree
// @sources src/utils/stop-watch.cpp
// @rule each case drives one stopwatch with a random start/pause/stop/reset/switch-off history over several names, under a clock that the monitor controls, and compares every reported figure with a list-of-spans model; distinct = distinct final figures
// @assume a stop or pause always follows a start of the same name (pairing as documented)
#include <sys/time.h>
#include <time.h>
// the clocks the code may read, all driven by the monitor
static long long g_us = 1700000000LL * 1000000LL;  // real time
static long long g_cpu = 5000000;                  // processor time
static bool g_virtual = false;
extern "C" int gettimeofday(struct timeval *tv, void *) throw();
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
int gettimeofday(struct timeval *tv, void *) throw() {
  tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000; return 0;
}
clock_t clock(void) throw() { return g_cpu; }
int clock_gettime(clockid_t id, struct timespec *ts) throw() {
  if (!g_virtual) return (int)syscall(SYS_clock_gettime, id, ts);
  long long us = (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? g_cpu : g_us;
  ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000; return 0;
}
time_t time(time_t *t) throw() { time_t v = g_us / 1000000; if (t) *t = v; return v; }
}
#include <sot/core/stop-watch.hh>
#include "harness.hh"
using namespace vh;

struct M {
  bool exists = false, running = false, fresh = true;
  long long start = 0; long long total = 0; std::vector<long long> laps;
  bool pausedSinceStop = false;
};
static const double TOL = 2e-6;

static void compare(Case &c, Stopwatch &s, const std::string &n, const M &m) {
  c.eq(s.performance_exists(n), m.exists, "existence");
  if (!m.exists) {
    c.throws<StopwatchException>([&] { s.get_total_time(n); }, "unknown-name-total");
    c.throws<StopwatchException>([&] { s.get_average_time(n); }, "unknown-name-average");
    c.throws<StopwatchException>([&] { s.get_min_time(n); }, "unknown-name-min");
    c.throws<StopwatchException>([&] { s.get_max_time(n); }, "unknown-name-max");
    c.throws<StopwatchException>([&] { s.get_last_time(n); }, "unknown-name-last");
    c.throws<StopwatchException>([&] { s.get_time_so_far(n); }, "unknown-name-so-far");
    return;
  }
  c.near(s.get_total_time(n), m.total * 1e-6, TOL, "total-is-sum-of-running-spans");
  if (m.laps.empty()) {
    if (m.total == 0) {
      c.near(s.get_min_time(n), 0, 0, "min-before-any-lap");
      c.near(s.get_max_time(n), 0, 0, "max-before-any-lap");
    }
    return;
  }
  c.near(s.get_min_time(n), *std::min_element(m.laps.begin(), m.laps.end()) * 1e-6, TOL, "minimum");
  c.near(s.get_max_time(n), *std::max_element(m.laps.begin(), m.laps.end()) * 1e-6, TOL, "maximum");
  if (!m.pausedSinceStop) c.near(s.get_last_time(n), m.laps.back() * 1e-6, TOL, "last");
  c.near(s.get_average_time(n), m.total * 1e-6 / m.laps.size(), TOL, "average-is-total-over-count");
}

static void parseReport(Case &c, const std::string &txt, const std::string &n, const M &m, int prec) {
  c.check(txt.compare(0, n.size(), n) == 0, "report-begins-with-name");
  std::istringstream is(txt.substr(n.size()));
  double mn, av, mx, la, tot; std::string cnt;
  is >> mn >> av >> mx >> la >> cnt >> tot;
  c.check(!is.fail(), "report-has-its-figures", [&](std::ostream &o) { o << txt; });
  double tol = .51 * std::pow(10., -prec) + 2e-3;
  c.near(mn, *std::min_element(m.laps.begin(), m.laps.end()) * 1e-3, tol, "report-minimum");
  c.near(mx, *std::max_element(m.laps.begin(), m.laps.end()) * 1e-3, tol, "report-maximum");
  c.near(av, m.total * 1e-3 / m.laps.size(), tol, "report-average");
  if (!m.pausedSinceStop) c.near(la, m.laps.back() * 1e-3, tol, "report-last");
  c.eq(cnt, std::to_string(m.laps.size()), "report-count");
  c.near(tot, m.total * 1e-3, tol, "report-total");
  c.ev("report-parsed");
}

FAMILY(history, 5000, 300000) {
  Rng &r = c.rng;
  g_virtual = true;
  struct Off { ~Off() { g_virtual = false; } } off;
  bool cpu = r.coin();
  Stopwatch own(cpu ? CPU_TIME : REAL_TIME), later;
  bool useLater = r.coin(.3);
  if (useLater) later.set_mode(cpu ? CPU_TIME : REAL_TIME);
  Stopwatch &s = useLater ? later : own;
  std::vector<std::string> names = {"a", "b", "loop", "a b", "A", std::string(100, 'n')};
  names.resize(r.range(1, 6));
  std::map<std::string, M> model;
  for (auto &n : names) model[n];
  bool active = true;
  g_us = 1700000000LL * 1000000LL + r.range(0, 2000000); g_cpu = r.range(1, 2000000);
  c.log() << (cpu ? "cpu" : "real");
  int steps = r.range(3, 60);
  std::streambuf *cout_ = std::cout.rdbuf(); std::ostringstream hush;
  struct Restore { std::streambuf *b; ~Restore() { std::cout.rdbuf(b); } } rs{cout_};
  std::cout.rdbuf(hush.rdbuf());
  auto now = [&] { return cpu ? g_cpu : g_us; };
  for (int k = 0; k < steps; ++k) {
    long long adv = r.coin(.2) ? 0 : (long long)r.range(1, 10) * r.pick(std::vector<int>{1, 100, 10000, 1000000});
    if (cpu) { g_cpu += adv; g_us += 3 * adv + 17; } else { g_us += adv; g_cpu += adv / 3; }
    const std::string &n = r.pick(names);
    M &m = model[n];
    switch (r.range(0, 11)) {
      case 0: case 1: case 2:
        s.start(n); c.log() << now() << " start " << n; c.ev("start");
        if (active) { m.exists = true; m.running = true; m.start = now(); }
        break;
      case 3: case 4: case 5:
        if (m.exists && (m.running || !active)) {
          s.stop(n); c.log() << now() << " stop " << n; c.ev("stop");
          if (active) { long long l = now() - m.start; m.laps.push_back(l); m.total += l; m.running = false; m.pausedSinceStop = false; }
        } else if (!m.exists && active) {
          c.throws<StopwatchException>([&] { s.stop(n); }, "unknown-name-stop"); c.ev("stop-unknown");
        }
        break;
      case 6: case 7:
        if (m.exists && (m.running || !active)) {
          s.pause(n); c.log() << now() << " pause " << n; c.ev("pause");
          if (active) { m.total += now() - m.start; m.running = false; m.pausedSinceStop = true; }
        } else if (!m.exists && active) {
          c.throws<StopwatchException>([&] { s.pause(n); }, "unknown-name-pause");
        }
        break;
      case 8:
        if (!r.coin(.4)) break;
        if (m.exists) {
          s.reset(n); c.log() << "reset " << n; c.ev("reset");
          if (active) { m = M(); m.exists = true;
            // nothing runs any more: stopping changes nothing
            if (r.coin()) { s.stop(n); compare(c, s, n, m); }
            if (r.coin()) { s.pause(n); compare(c, s, n, m); } }
        } else if (active) c.throws<StopwatchException>([&] { s.reset(n); }, "unknown-name-reset");
        break;
      case 9:
        if (r.coin(.15)) { s.reset_all(); c.log() << "reset all"; c.ev("reset-all");
          if (active) for (auto &e : model) if (e.second.exists) { e.second = M(); e.second.exists = true; } }
        else if (r.coin(.3)) { active = !active; if (active) s.turn_on(); else s.turn_off(); c.log() << (active ? "on" : "off"); c.ev("switch"); }
        break;
      case 10:
        if (m.running) c.near(s.get_time_so_far(n), (now() - m.start) * 1e-6, TOL, "time-so-far");
        break;
      default: {
        int prec = r.range(0, 6);
        std::ostringstream o;
        if (!active) { if (m.exists) s.report(n, prec, o); s.report_all(prec, o); c.eq(o.str(), std::string(), "switched-off-reports-nothing"); break; }
        if (!m.exists) { c.throws<StopwatchException>([&] { s.report(n, prec, o); }, "unknown-name-report"); break; }
        if (!m.laps.empty()) { s.report(n, prec, o); parseReport(c, o.str(), n, m, prec); }
        std::ostringstream oa; s.report_all(prec, oa);
        std::istringstream ia(oa.str()); std::string l; std::vector<std::string> lines;
        while (std::getline(ia, l)) lines.push_back(l);
        size_t at = 0, cnt = 0;
        for (auto &e : model) if (e.second.exists) {
          ++cnt; bool found = false;
          for (; at < lines.size() && !found; ++at) if (lines[at].compare(0, e.first.size(), e.first) == 0 && (lines[at].size() > e.first.size() && (e.first.size() >= 80 || lines[at][e.first.size()] == ' ')) && (e.first.size() >= 80 || lines[at].substr(0, 80).find_last_not_of(' ') + 1 == e.first.size())) {
            found = true;
            if (!e.second.laps.empty()) parseReport(c, lines[at] + "\n" + (at + 1 < lines.size() ? lines[at + 1] : ""), e.first, e.second, prec);
          }
          c.check(found, "report-all-lists-every-name", [&](std::ostream &q) { q << e.first << " in " << oa.str(); });
        }
      }
    }
    if (r.coin(.5)) for (auto &e : model) compare(c, s, e.first, e.second);
  }
  uint64_t h = cpu;
  for (auto &e : model) { compare(c, s, e.first, e.second); h = mix(h ^ (uint64_t)e.second.total ^ e.second.laps.size()); }
  c.state(h);
  c.sample(std::string(cpu ? "cpu" : "real") + " names=" + std::to_string(names.size()) + " steps=" + std::to_string(steps));
}

FAMILY(no_mode, 30, 30) {
  Stopwatch s;
  c.throws<StopwatchException>([&] { s.take_time(); }, "no-clock-is-an-error");
  c.throws<StopwatchException>([&] { s.start("x"); }, "no-clock-is-an-error");
  c.throws<StopwatchException>([&] { s.stop("x"); }, "no-clock-is-an-error");
  Stopwatch &p = getProfiler();
  c.check(&p == &getProfiler(), "profiler-is-one");
  g_us += 1000;
  std::string n = "p" + std::to_string(c.index);
  p.start(n); g_us += 250000; g_cpu += 7; p.stop(n);
  c.near(getProfiler().get_total_time(n), .25, TOL, "profiler-measures-real-time");
  c.state(c.index);
}
