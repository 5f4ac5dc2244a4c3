// @sources src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case creates, destroys, looks up and re-creates tasks and features under few names, comparing every lookup and the written graph with the set of live objects; distinct = distinct histories
#include <fstream>
#include <sot/core/exception-factory.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/pool.hh>
#include <sot/core/task.hh>
#include "E_common.hh"
#include "sot/core/factory.hh"
struct Tk : sot::TaskAbstract {  // the least task
  static const std::string CLASS_NAME; const std::string &getClassName() const { return CLASS_NAME; }
  Tk(const std::string &n, bool bad) : sot::TaskAbstract(n) { if (bad) throw std::runtime_error("construction given up"); }
};
const std::string Tk::CLASS_NAME = "Tk";
struct Ft : sot::FeatureGeneric { Ft(const std::string &n, bool bad) : sot::FeatureGeneric(n) { if (bad) throw std::runtime_error("construction given up"); } };
static std::vector<std::string> nodes(const std::string &file) { std::vector<std::string> o; std::ifstream f(file); std::string l; while (std::getline(f, l)) { size_t k = l.find(" [ label = \""); if (k != std::string::npos) { std::string n = l.substr(0, k); n.erase(0, n.find_first_not_of("\t \"")); if (!n.empty() && n.back() == '"') n.pop_back(); o.push_back(n); } } return o; }
FAMILY(lifetimes, 2500, 80000) {
  Rng &r = c.rng; std::string tag = uname("L18_") + (c.rng.coin(.15) ? std::string(c.rng.range(20, 300), 'n') : "") + "_"; std::map<std::string, std::unique_ptr<sot::TaskAbstract>> T; std::map<std::string, std::unique_ptr<sot::FeatureAbstract>> F; auto *pool = sot::PoolStorage::getInstance(); c.check(pool == sot::PoolStorage::getInstance(), "one-registry"); uint64_t h = 0;
  auto lookup = [&](const std::string &n) {
    if (T.count(n)) c.check(&pool->getTask(n) == T[n].get(), "task-found"); else c.throws<sot::ExceptionFactory>([&] { pool->getTask(n); }, "no-such-task");
    if (F.count(n)) c.check(&pool->getFeature(n) == F[n].get(), "feature-found"); else c.throws<sot::ExceptionFactory>([&] { pool->getFeature(n); }, "no-such-feature");
  };
  for (int s = 0, S = r.range(4, 30); s < S; ++s) {
    int i = r.range(0, 4), op = r.range(0, 9); std::string n = tag + std::to_string(i); h = h * 31 + i * 16 + op;
    if (op <= 2) {
      bool clash = T.count(n) || F.count(n), task = r.coin(), bad = r.coin(.1), plain = r.coin(.3); bool thrown = false; std::unique_ptr<sot::TaskAbstract> nt; std::unique_ptr<sot::FeatureAbstract> nf;
      try { if (task) { if (plain) nt.reset(new sot::Task(n)), bad = false; else nt.reset(new Tk(n, bad)); } else { if (plain) nf.reset(new sot::FeatureGeneric(n)), bad = false; else nf.reset(new Ft(n, bad)); } } catch (const std::exception &) { thrown = true; }
      c.log() << "new " << (task ? "task " : "feature ") << n << (clash ? " (name taken)" : "") << (bad ? " (given up)" : "");
      c.check(clash || bad ? thrown : !thrown, clash ? "second-of-same-name-refused" : "created", [&](std::ostream &o) { o << n << " live " << clash << " constructor failing " << bad << " threw " << thrown; });
      if (nt) { T[n] = std::move(nt); c.ev("task"); } if (nf) { F[n] = std::move(nf); c.ev("feature"); } if (thrown) c.ev(clash ? "refused" : "given-up");
    } else if (op <= 4) { if (T.erase(n) + F.erase(n)) { c.ev("destroyed"); c.log() << "destroy " << n; } }
    else if (op == 5) {  // a second registration under a taken name is refused and leaves the first
      if (T.count(n)) { auto *first = T[n].get(); c.throws<sot::ExceptionFactory>([&] { pool->registerTask(n, T.rbegin()->second.get()); }, "second-registration-refused"); c.check(&pool->getTask(n) == first, "first-stays"); c.ev("second-registration"); }
      if (F.count(n)) { auto *first = F[n].get(); c.throws<sot::ExceptionFactory>([&] { pool->registerFeature(n, F.rbegin()->second.get()); }, "second-registration-refused"); c.check(&pool->getFeature(n) == first, "first-stays"); }
    } else if (op == 6 && r.coin(.2)) {  // the graph written lists the live tasks
      char f[64]; snprintf(f, sizeof f, "/tmp/verif_L18_%d.dot", (int)getpid()); pool->writeGraph(f); std::vector<std::string> g, w; for (auto &x : nodes(f)) if (x.compare(0, tag.size(), tag) == 0) g.push_back(x); unlink(f); for (auto &x : T) w.push_back(x.first); c.check(g == w, "graph-lists-live-tasks", [&](std::ostream &o) { for (auto &x : g) o << x << " "; o << "| expected "; for (auto &x : w) o << x << " "; }); c.ev("graph");
    }
    lookup(n); if (r.coin(.2)) for (int k = 0; k < 6; ++k) lookup(tag + std::to_string(k)); c.ev("lookup");
    // a feature finds its reference through the registry
    if (F.count(n) && r.coin(.2)) { std::string k = tag + std::to_string(r.range(0, 4)); if (F.count(k)) { cmd(*F[n], "setReference", {Value(k)}); c.check(F[n]->getReferenceByName() == k, "reference-by-name"); F[n]->getReferenceAbstract(); cmd(*F[n], "setReference", {Value(n)}); c.ev("reference"); } }
  }
  for (auto &x : T) { std::string n = x.first; x.second.reset(); } T.clear(); F.clear(); for (int k = 0; k < 5; ++k) lookup(tag + std::to_string(k)); c.state(h);
}
