// @sources src/tools/timer.cpp src/tools/time-stamp.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives one time stamp, or one timer around a signal whose evaluation takes a chosen time, under clocks that the monitor owns, and compares every reported value with the readings the monitor handed out; distinct = distinct sequences of reported values
#include <sys/time.h>
#include <time.h>
static long long g_us = 1700000000LL * 1000000LL, g_cpu = 5000000; static long long g_step = 0; static int g_reads = 0;
extern "C" { int gettimeofday(struct timeval *tv, void *) throw() { ++g_reads; tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000; g_us += g_step; return 0; } clock_t clock(void) throw() { return g_cpu; } }
#include <sot/core/time-stamp.hh>
#include <sot/core/timer.hh>
#include "E_common.hh"
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(const MH &a, const MH &b) { return a.matrix() == b.matrix(); }
static void draw(Rng &r, double &x) { x = r.gauss(); }
static void draw(Rng &r, dg::Vector &x) { x = gvec(r, r.range(1, 5)); }
static void draw(Rng &r, dg::Matrix &x) { x = gmat(r, r.range(1, 4), r.range(1, 4)); }
static void draw(Rng &r, MH &x) { x = pose(r); }
FAMILY(stamp, 6000, 200000) {
  Rng &r = c.rng; EP e = make("TimeStamp"); auto &now = out<dg::Vector>(*e, "time"), &once = out<dg::Vector>(*e, "synchro"); auto &nowD = out<double>(*e, "timeDouble"), &onceD = out<double>(*e, "synchroDouble");
  g_us = (long long)r.range(0, 2000000000) * 1000000 + (r.coin(.3) ? r.range(0, 9) : r.range(0, 999999)); g_step = r.coin() ? 0 : r.range(1, 3000000);
  int t = r.range(1, 100), onceT = -1, onceDT = -1; dg::Vector v1; double d1 = 0; uint64_t h = 0;
  for (int k = 0, K = r.range(3, 25); k < K; ++k) {
    if (r.coin(.5)) t += r.range(1, 3); g_us += r.coin(.2) ? 0 : r.coin() ? r.range(1, 3) : r.range(1, 2500000); long long at = g_us; int reads = g_reads;
    auto vec = [&](const dg::Vector &v) { return v.size() == 2 && v(0) == (double)(at / 1000000) && v(1) == (double)(at % 1000000); };
    auto ms = [&](double d) { return std::fabs(d - ((long double)(at / 1000000) * 1000 + (long double)(at % 1000000) / 1000)) <= 1e-3; };
    switch (r.range(0, 3)) {
      case 0: { dg::Vector v = now.access(t); c.check(vec(v), "time-is-now", [&](std::ostream &o) { o << "clock " << at << " reported " << v.transpose(); }); h = hashM(v, h); c.ev("time"); break; }
      case 1: { double d = nowD.access(t); c.check(ms(d), "time-in-milliseconds", [&](std::ostream &o) { o.precision(17); o << "clock " << at << " reported " << d; }); h = hashBytes(&d, 8, h); c.ev("time-double"); break; }
      case 2: { dg::Vector v = once.access(t); if (t != onceT) { c.check(vec(v) && g_reads > reads, "synchro-is-read-once-per-time", [&](std::ostream &o) { o << "clock " << at << " reported " << v.transpose(); }); v1 = v; onceT = t; c.ev("synchro-new"); } else { c.check(v == v1, "synchro-held-during-a-time", [&](std::ostream &o) { o << v.transpose() << " after " << v1.transpose(); }); c.ev("synchro-held"); } break; }
      default: { double d = onceD.access(t); if (t != onceDT) { c.check(ms(d), "synchro-in-milliseconds", [&](std::ostream &o) { o.precision(17); o << "clock " << at << " reported " << d; }); d1 = d; onceDT = t; c.ev("synchro-double-new"); } else { c.check(d == d1, "synchro-double-held-during-a-time", [&](std::ostream &o) { o << d << " after " << d1; }); c.ev("synchro-double-held"); } }
    }
  }
  g_step = 0; c.state(h); std::ostringstream q; long long at = g_us; out<dg::Vector>(*e, "time").access(t); e->display(q); c.check(q.str() == "TimeStamp <> : " + std::to_string(at / 1000000) + "s; " + std::to_string(at % 1000000) + "us.\n", "displayed-time", [&](std::ostream &o) { o << q.str() << " clock " << at; });
}
template <class T> static void timer(Case &c, const char *cls) {
  Rng &r = c.rng; EP e = make(cls); T val; draw(r, val); int evals = 0; long long wall = 0, cpu = 0; g_step = 0; g_us = (long long)r.range(0, 2000000000) * 1000000 + r.range(0, 999999); g_cpu = r.range(0, 100000000);
  dg::SignalTimeDependent<T, int> s([&](T &x, int) -> T & { ++evals; g_us += wall; g_cpu += cpu; return x = val; }, dg::sotNOSIGNAL, uname("slow")); s.setNeedUpdateFromAllChildren(true);
  dynamic_cast<dg::SignalPtr<T, int> &>(e->getSignal("sin")).plug(&s);
  auto &plain = out<T>(*e, "sout"), &clk = out<T>(*e, "clockSout"); auto &timer = out<double>(*e, "timer"); double last = 0; uint64_t h = 0; int t = r.range(1, 50), plainT = -1, clkT = -1; T pv = val, cv = val; draw(r, val);
  for (int k = 0, K = r.range(3, 25); k < K; ++k) {
    if (r.coin(.6)) { t += r.range(1, 3); draw(r, val); } wall = r.coin(.2) ? 0 : r.coin() ? r.range(1, 20000) : r.range(1, 5000000); cpu = r.coin(.2) ? 0 : r.range(1, 3000000); int e0 = evals; g_us += r.range(0, 2000000); g_cpu += r.range(0, 1000);
    if (r.coin(.25)) { double d = timer.access(t); c.check(std::fabs(d - last) <= 1e-9 * (1 + last), "reported-duration-of-the-last-evaluation", [&](std::ostream &o) { o.precision(17); o << d << " ms, measured " << last; }); c.ev("read"); continue; }
    bool useClock = r.coin(); auto &sig = useClock ? clk : plain; int &st = useClock ? clkT : plainT; T &sv = useClock ? cv : pv; T got = sig.access(t); int n = evals - e0;
    if (t != st) { sv = s.accessCopy(); st = t; double want = useClock ? (n ? cpu * 1000.0 / CLOCKS_PER_SEC : 0) : (n ? wall / 1000.0 : 0); last = want; double d = timer.accessCopy();
      c.check(n <= 1 && s.getTime() == t, "input-evaluated-at-the-time", [&](std::ostream &o) { o << n << " evaluations, at " << s.getTime() << ", asked " << t; });
      c.check(std::fabs(d - want) <= 1e-9 * (1 + want), useClock ? "processor-time-in-milliseconds" : "elapsed-time-in-milliseconds", [&](std::ostream &o) { o.precision(17); o << "reported " << d << " ms, spent " << want; }); c.check(timer.getTime() == t, "duration-stamped", [&](std::ostream &o) { o << timer.getTime() << " at " << t; }); c.ev(useClock ? "clock" : "wall"); h = hashBytes(&d, 8, h); }
    else { c.check(n == 0, "measured-once-per-time", [&](std::ostream &o) { o << n; }); c.ev("held"); }
    c.check(same(got, sv) && (st != t || same(got, val)), "value-passes-through", [&](std::ostream &o) { o << "the output differs from the input"; });
  }
  c.state(h); std::ostringstream q; e->display(q); std::string txt = q.str(); size_t p = txt.rfind(" : "); char *end = NULL; double shown = p == std::string::npos ? -1 : strtod(txt.c_str() + p + 3, &end); c.check(end && std::fabs(shown - last) <= 1e-5 * (1 + last) && std::string(end) == "ms.\n", "displayed-duration", [&](std::ostream &o) { o << txt << " measured " << last; });
}
FAMILY(timers, 6000, 200000) { switch (c.rng.range(0, 3)) { case 0: timer<double>(c, "TimerDouble"); break; case 1: timer<dg::Vector>(c, "TimerVector"); break; case 2: timer<dg::Matrix>(c, "TimerMatrix"); break; default: timer<MH>(c, "TimerMatrixHomo"); } }
FAMILY(chrono, 300, 2000) {
  Rng &r = c.rng; g_us = (long long)r.range(0, 2000000000) * 1000000 + r.range(0, 999999); g_step = r.coin(.2) ? 0 : r.range(1, 5000000); std::ostringstream o; std::istringstream a("something else"); cmdChrono("chrono", a, o); double want = g_step / 1000.0; g_step = 0;
  std::string s = o.str(); double got = -1; size_t p = s.find("= "); if (p != std::string::npos) got = atof(s.c_str() + p + 2); c.check(std::fabs(got - want) <= 1e-4 * (1 + want) && s.find(" ms") != std::string::npos, "chrono-command", [&](std::ostream &q) { q << s << " spent " << want; }); 
  std::ostringstream hlp; std::istringstream none; cmdChrono("help", none, hlp); c.check(hlp.str().find("chrono") != std::string::npos, "chrono-help", [&](std::ostream &q) { q << hlp.str(); }); c.ev("chrono"); c.state(hashBytes(s.data(), s.size(), 1));
}
