// @san thread
// @opt -O1
// @sources src/debug/debug.cpp src/tools/mailbox-vector.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp
// @rule each case runs one posting and one reading thread (or one thread for both) under ThreadSanitizer with random delays, also inside message copies, records which message and time stamp each read returned and which posts surrounded it, and checks the recorded history; distinct = distinct sequences of messages read
// @assume the ready flag of dynamic-graph's signals is atomic in the stand-in
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
// every clock reading made inside post() gives a stamp of its own
static std::atomic<long> g_clock{1000}; static thread_local bool t_posting = false; static thread_local long t_first = 0, t_last = 0;
static long tick() { long n = g_clock.fetch_add(1, std::memory_order_relaxed); if (!t_first) t_first = n; return t_last = n; }
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { if (!t_posting) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } long n = tick(); tv->tv_sec = n / 5; tv->tv_usec = n % 5 * 1001; return 0; }
static long stampOf(const struct timeval &t) { return t.tv_sec * 5 + t.tv_usec / 1001; }
#include <thread>
#include <sot/core/mailbox-vector.hh>
#include <sot/core/mailbox.hxx>
#include "E_common.hh"
// delays that create no ordering between the threads
static thread_local uint64_t t_rng = 1; static thread_local int t_delay = 0;
static void pause_() { t_rng = t_rng * 6364136223846793005ULL + 1442695040888963407ULL; unsigned k = (t_rng >> 33) % 16; if (!t_delay) return; if ((int)k >= t_delay) return; if (k & 1) sched_yield(); else for (volatile int i = 0; i < (int)(k * 40); ++i) {} }
struct Msg {  // a message copied in three visible steps
  long a = 0, b = 0, d = 0; Msg() {} Msg(long k) : a(k), b(3 * k), d(7 * k) {}
  Msg(const Msg &o) : a(o.a), b(o.b), d(o.d) {}
  Msg &operator=(const Msg &o) { a = o.a; pause_(); b = o.b; pause_(); d = o.d; return *this; }
};
static std::ostream &operator<<(std::ostream &o, const Msg &m) { return o << m.a; }
namespace dynamicgraph { namespace sot { template <> const std::string Mailbox<Msg>::CLASS_NAME = "Mailbox<Msg>"; } template <> struct signal_io<Msg> : signal_io_unimplemented<Msg> {}; }
template <class T> struct K;
template <> struct K<Msg> { static Msg mk(long k, Rng &) { return Msg(k); } static long id(const Msg &m) { return m.b == 3 * m.a && m.d == 7 * m.a ? m.a : -1; } };
template <> struct K<Vec> {
  static int size(long k) { uint64_t h = mix(k); return h % 5 ? h / 7 % 12 + 1 : h / 7 % 3000 + 1; }
  static Vec mk(long k, Rng &) { Vec v(size(k)); for (int i = 0; i < v.size(); ++i) v(i) = k * 10000. + i; return v; }
  static long id(const Vec &v) { if (!v.size()) return 0; long k = (long)(v(0) / 10000.); if (k <= 0 || v.size() != size(k)) return -1; for (int i = 0; i < v.size(); ++i) if (v(i) != k * 10000. + i) return -1; return k; }
};
struct Post { long first, last; };
struct Read { int how; int t; long done, begun, id, stamp; };
enum { SOUT_, OBJ_, TIME_, GET_, GETOBJ_, UPD_ };
static const char *HOW[] = {"output", "object", "timestamp", "get", "getObject", "hasBeenUpdated"};
template <class T> static Read look(sot::Mailbox<T> &m, int how, int t, typename sot::Mailbox<T>::sotTimestampedObject &mine) {
  Read r{how, t, 0, 0, -2, -2};
  switch (how) {
    case SOUT_: { auto &x = m.SOUT(t); r.id = K<T>::id(x.obj); r.stamp = stampOf(x.timestamp); break; }
    case OBJ_: r.id = K<T>::id(m.objSOUT(t)); break;
    case TIME_: r.stamp = stampOf(m.timeSOUT(t)); break;
    case GET_: { auto &x = m.get(mine, t); r.id = K<T>::id(x.obj); r.stamp = stampOf(x.timestamp); break; }
    case GETOBJ_: { T o = T(); r.id = K<T>::id(m.getObject(o, t)); break; }
    default: r.id = m.hasBeenUpdated();
  }
  return r;
}
template <class T> static void post(sot::Mailbox<T> &m, const T &v, std::vector<Post> &log) { t_posting = true; t_first = t_last = 0; m.post(v); t_posting = false; log.push_back({t_first, t_last}); }
// the recorded history against the posts: each read gives a whole message, with its own stamp, never older than one read before
struct Hist {
  Case &c; const std::vector<Post> &posts; long seen = 0; bool any = false; uint64_t h = 7; std::map<std::pair<int, int>, long> cached;
  long ofStamp(long s) { for (size_t k = 0; k < posts.size(); ++k) if (posts[k].first && s >= posts[k].first && s <= posts[k].last) return k + 1; return s == 0 ? 0 : -1; }
  void read(const Read &r, bool whole) {
    auto show = [&](std::ostream &o) { o << HOW[r.how] << " at " << r.t << " gave message " << r.id << " stamp of " << ofStamp(r.stamp) << "; posts begun " << r.begun << " done before " << r.done << " already seen " << seen; };
    if (r.how == UPD_) { if (r.id) c.check(r.begun > seen || r.begun > 0, "updated-without-post", show); if (r.begun == r.done && r.begun == seen) c.check(!r.id, "updated-after-read", show); c.ev(r.id ? "has-been-updated" : "not-updated"); return; }
    if (r.id != -2) c.check(r.id >= 0, "torn-message", show); if (r.stamp != -2) c.check(ofStamp(r.stamp) >= 0, "stamp-of-no-message", show);
    if (r.id != -2 && r.stamp != -2) c.check(ofStamp(r.stamp) == r.id, "stamp-of-another-message", show);
    long k = r.id != -2 ? r.id : ofStamp(r.stamp); c.check(k <= r.begun, "message-from-the-future", show); h = h * 31 + k;
    bool cacheable = r.how == OBJ_ || r.how == TIME_; (void)whole;
    if (cacheable) {
      auto it = cached.find({r.how, 0}); bool fresh = it == cached.end() || r.t > it->second; // evaluated anew only at a new time
      if (fresh) { cached[{r.how, 0}] = r.t; cached[{r.how, 1}] = k; } else { c.check(k == cached[{r.how, 1}], "same-time-same-value", show); c.ev("same-time"); return; }
    }
    c.check(k >= seen, "back-in-time", show); if (r.done == r.begun) { c.check(k == r.done, "latest-message", show); c.ev("quiet-read"); } else c.ev(k == r.done ? "read-old-during-post" : k < r.done ? "read-stale-during-post" : "read-new-during-post");
    if (k > seen) seen = k;
  }
};
template <class T> static void threads(Case &c, const char *nm) {
  Rng &r = c.rng; typedef sot::Mailbox<T> M; M m(uname(nm)); int N = r.range(1, 60); std::vector<T> msgs; for (int k = 1; k <= N; ++k) msgs.push_back(K<T>::mk(k, r)); std::vector<Post> posts; std::vector<Read> reads; std::atomic<long> begun{0}, done{0}; std::atomic<bool> go{false};
  uint64_t s1 = r.u64(), s2 = r.u64(); int d1 = r.pick(std::vector<int>{0, 2, 8, 16}), d2 = r.pick(std::vector<int>{0, 2, 8, 16}); int gap = r.pick(std::vector<int>{0, 0, 200, 3000}); const auto rx = std::memory_order_relaxed; double adv = r.pick(std::vector<double>{.1, .5, .9, 1}); std::vector<int> menu; for (int i = 0; i < 6; ++i) if (r.coin(.6)) menu.push_back(i); if (menu.empty() || (menu.size() == 1 && menu[0] == UPD_)) menu.push_back(SOUT_);
  std::thread poster([&] { t_rng = s1; t_delay = d1; Rng q(s1); while (!go.load(rx)) sched_yield(); for (int k = 1; k <= N; ++k) { begun.store(k, rx); post(m, msgs[k - 1], posts); done.store(k, rx); pause_(); if (gap) for (volatile int i = 0, g = q.range(0, gap); i < g; ++i) {} } });
  t_rng = s2; t_delay = d2; int t = 1; typename M::sotTimestampedObject mine = typename M::sotTimestampedObject(); go.store(true, rx);
  auto one = [&](int how) { if (r.coin(adv)) ++t; long d = done.load(rx); Read x = look<T>(m, how, t, mine); x.done = d; x.begun = begun.load(rx); reads.push_back(x); };
  int extra = r.range(0, 5); for (int i = 0; i < 20000 && (done.load(rx) < N || extra-- > 0); ++i) { one(r.pick(menu)); pause_(); }
  poster.join(); t_delay = 0;
  adv = 1; for (int how : {r.range(0, 4), r.range(0, 4), (int)UPD_}) one(how);
  Hist h{c, posts}; for (auto &x : reads) h.read(x, true); for (int i = 0; i < N; ++i) c.ev("post"); c.state(h.h);
}
FAMILY(threads_message, 250, 20000) { threads<Msg>(c, "boxM"); }
FAMILY(threads_vector, 250, 20000) { threads<Vec>(c, "boxV"); }
template <class T> static void sequence(Case &c, const char *nm) {
  Rng &r = c.rng; typedef sot::Mailbox<T> M; M m(uname(nm)); std::vector<Post> posts; typename M::sotTimestampedObject mine = typename M::sotTimestampedObject(); Hist h{c, posts}; bool upd = false; long k = 0; int t = 1; uint64_t hh = 1;
  std::map<int, std::pair<int, long>> cache;
  for (int s = 0, S = r.range(1, 40); s < S; ++s) {
    if (r.coin(.35)) { ++k; T v = K<T>::mk(k, r); post(m, v, posts); upd = true; c.ev("post"); hh = hh * 7 + 5; continue; }
    if (r.coin(.7)) ++t; int how = r.range(0, 5); Read x = look<T>(m, how, t, mine); x.done = x.begun = k; hh = hh * 7 + how;
    if (how == UPD_) { c.check((bool)x.id == upd, "has-been-updated", [&](std::ostream &o) { o << "after " << k << " posts got " << x.id << " expected " << upd; }); c.ev(upd ? "updated" : "not-updated"); continue; }
    bool cached = (how == OBJ_ || how == TIME_) && cache.count(how) && t <= cache[how].first; h.read(x, false); if (!cached) { upd = false; cache[how] = {t, k}; }
  }
  c.state(hh);
}
FAMILY(sequence_message, 1500, 50000) { sequence<Msg>(c, "boxM"); }
FAMILY(sequence_vector, 1500, 50000) { sequence<Vec>(c, "boxV"); }
