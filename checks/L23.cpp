// @sources src/sot/sot.cpp src/sot/memory-task-sot.cpp src/sot/flags.cpp src/task/task.cpp src/task/task-abstract.cpp src/task/multi-bound.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-posture.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case edits stacks, tasks, features and references at random, writes the graph of each of them and of the registry, parses the text with a grammar of the graph language and compares nodes and edges with the structure kept aside; distinct = distinct structures
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <sot/core/feature-generic.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include "E_common.hh"
// ---- the graph language, as far as it is written here: a text that does not conform is an error
typedef std::map<std::string, std::string> Attr;
struct Edge { std::string a, b; Attr at; };
struct Graph { std::string name; std::vector<std::pair<std::string, Attr>> nodes; std::vector<Edge> edges; std::vector<std::string> clusters; };
struct Dot {
  struct T { int k; std::string s; };  // 0 end, 1 identifier, 2 punctuation
  std::vector<T> t; size_t p = 0;
  explicit Dot(const std::string &s) {
    for (size_t i = 0; i < s.size();) {
      unsigned char ch = s[i];
      if (isspace(ch)) { ++i; continue; }
      if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); if (e == std::string::npos) throw std::string("open comment"); i = e + 2; continue; }
      if (s.compare(i, 2, "->") == 0) { t.push_back({2, "->"}); i += 2; continue; }
      if (strchr("{}[]=,;", ch)) { t.push_back({2, std::string(1, ch)}); ++i; continue; }
      if (ch == '"') { std::string v; for (++i; i < s.size() && s[i] != '"'; ++i) { if (s[i] == '\\' && i + 1 < s.size()) { if (s[i + 1] == '"') { v += '"'; ++i; continue; } } v += s[i]; } if (i >= s.size()) throw std::string("open string"); ++i; t.push_back({1, v}); continue; }
      if (isdigit(ch) || ch == '.' || ch == '-') { size_t b = i; if (s[i] == '-') ++i; while (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.')) ++i; if (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == '_')) throw std::string("badly formed number ") + s.substr(b, i - b + 1); t.push_back({1, s.substr(b, i - b)}); continue; }
      if (isalpha(ch) || ch == '_' || ch >= 0x80) { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || (unsigned char)s[i] >= 0x80)) ++i; std::string w = s.substr(b, i - b); static const char *kw[] = {"node", "edge", "graph", "digraph", "subgraph", "strict"}; bool k = false; for (auto x : kw) if (w == x) k = true; t.push_back({k ? 3 : 1, w}); continue; }
      throw "unexpected character '" + std::string(1, ch) + "'";
    }
    t.push_back({0, ""});
  }
  bool is(const char *s) const { return t[p].k >= 2 && t[p].s == s; }
  void need(const char *s) { if (!is(s)) throw std::string("expected '") + s + "' before '" + t[p].s + "'"; ++p; }
  std::string id() { if (t[p].k != 1) throw "expected a name before '" + t[p].s + "'"; return t[p++].s; }
  void attrs(Attr &a) { while (is("[")) { ++p; while (!is("]")) { std::string k = id(); need("="); a[k] = id(); if (is(",") || is(";")) ++p; } ++p; } }
  void list(Graph &g) {
    while (!is("}") && t[p].k) {
      if (is(";")) { ++p; continue; }
      if (is("subgraph")) { ++p; std::string n; if (!is("{")) n = id(); need("{"); g.clusters.push_back(n); list(g); need("}"); continue; }
      if (is("graph") || is("node") || is("edge")) { ++p; Attr a; attrs(a); continue; }
      std::string a = id();
      if (is("=")) { ++p; id(); continue; }
      if (is("->")) { ++p; Edge e; e.a = a; e.b = id(); if (is("->")) throw std::string("chain"); attrs(e.at); g.edges.push_back(e); continue; }
      Attr at; attrs(at); g.nodes.push_back({a, at});
    }
  }
  Graph graph() { Graph g; need("digraph"); g.name = id(); need("{"); list(g); need("}"); if (t[p].k) throw "text after the graph: '" + t[p].s + "'"; return g; }
};
static bool parse(Case &c, const std::string &s, Graph &g, const char *key) { try { g = Dot(s).graph(); c.ev("parsed"); return true; } catch (const std::string &e) { c.fail(key, e + "\n" + s); } return false; }
static std::string awkward(Rng &r) { static const char *w[] = {"task", "left foot", "wrist-1", "1st", "node", "é", "a.b", "x:y", "graph", "{c}", "-", "a->b", "p/q"}; return uname("") + r.pick(std::vector<std::string>(w, w + 13)) + (r.coin() ? " " + std::to_string(r.range(0, 99)) : ""); }
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
typedef std::vector<std::pair<std::string, std::string>> Pairs;
// the edges from one kind of block to another: names are unique
typedef std::set<std::string> Names;
static Pairs pairs(const Graph &g, const Names &a, const Names &b) { Pairs o; for (auto &e : g.edges) if (a.count(e.a) && b.count(e.b)) o.push_back({e.a, e.b}); return o; }
static void sameEdges(Case &c, Pairs g, Pairs w, const char *key) { std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); c.check(g == w, key, [&](std::ostream &o) { o << "written"; for (auto &e : g) o << " [" << e.first << " -> " << e.second << "]"; o << " expected"; for (auto &e : w) o << " [" << e.first << " -> " << e.second << "]"; }); c.ev(key, w.size() + 1); }
// the file of the registry: a graph named after the file, whatever the path, with every live task once
FAMILY(registry, 900, 15000) {
  Rng &r = c.rng; std::vector<std::unique_ptr<sot::Task>> T; std::vector<std::string> names; char base[80]; snprintf(base, sizeof base, "/tmp/verif_L23_%d", (int)getpid()); mkdir(base, 0700); std::string dir = base, sub; uint64_t h = 0;
  if (r.coin()) { sub = r.pick(std::vector<std::string>{"/plain", "/with.dot", "/a b", "/v1.2.3"}); mkdir((dir + sub).c_str(), 0700); }
  for (int s = 0, S = r.range(1, 4); s < S; ++s) {
    for (int k = r.range(0, 3); k; --k) { std::string n = awkward(r); T.emplace_back(new sot::Task(n)); names.push_back(n); }
    if (!T.empty() && r.coin(.3)) { int k = r.range(0, T.size() - 1); T.erase(T.begin() + k); names.erase(names.begin() + k); }
    static const char *stems[] = {"graph", "my-graph", "g1", "1st", "two words", "a.b", "node"}; std::string stem = stems[r.range(0, 6)], ext = stem == "a.b" || r.coin(.7) ? r.pick(std::vector<std::string>{".dot", ".gv"}) : "", path = dir + sub + "/" + stem + ext;
    c.log() << path; sot::PoolStorage::getInstance()->writeGraph(path); std::ifstream f(path); std::ostringstream o; o << f.rdbuf(); unlink(path.c_str());
    Graph g; if (!parse(c, o.str(), g, "registry-graph-parses")) break;
    c.eq(g.name, stem, "graph-named-after-the-file"); std::vector<std::string> got, want = names; for (auto &n : g.nodes) { got.push_back(n.first); auto l = n.second.find("label"); c.check(l != n.second.end() && l->second == n.first, "node-labelled-with-its-name"); }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); c.check(got == want, "exactly-the-live-tasks", [&](std::ostream &x) { for (auto &n : got) x << n << " "; x << "| expected "; for (auto &n : want) x << n << " "; });
    c.eq(g.edges.size(), (size_t)0, "no-edges"); h = mix(h ^ hashStr(o.str().substr(o.str().find("digraph")))); c.state(h);
  }
  if (!sub.empty()) rmdir((dir + sub).c_str()); rmdir(base);
}
// the graphs of a stack, its tasks, their features and references, together as the whole graph is written
FAMILY(structure, 1500, 40000) {
  Rng &r = c.rng; Quiet q; typedef std::unique_ptr<sot::FeatureGeneric> FP; std::vector<FP> F; std::vector<std::unique_ptr<sot::Task>> T; std::vector<std::vector<int>> fs; std::vector<int> ref, order; sot::Sot s(awkward(r)); cmd(s, "setSize", {Value(7u)}); uint64_t h = 0;
  for (int i = 0, n = r.range(1, 6); i < n; ++i) { F.emplace_back(new sot::FeatureGeneric(awkward(r))); ref.push_back(-1); } for (int i = 0, n = r.range(1, 5); i < n; ++i) { T.emplace_back(new sot::Task(awkward(r))); fs.emplace_back(); }
  for (int k = 0, K = r.range(2, 14); k < K; ++k) {
    int f = r.range(0, F.size() - 1), t = r.range(0, T.size() - 1), op = r.range(0, 7); auto in = std::find(order.begin(), order.end(), t); h = h * 31 + op * 64 + f * 8 + t;
    if (op <= 1) { if (std::count(fs[t].begin(), fs[t].end(), f) == 0) { cmd(*T[t], "add", {Value(F[f]->getName())}); fs[t].push_back(f); c.ev("feature-added"); } }
    else if (op == 2 && r.coin(.3)) { cmd(*T[t], "clear"); fs[t].clear(); c.ev("features-cleared"); }
    else if (op == 3) { int g = r.range(-1, F.size() - 1); if (g < 0) F[f]->setReference(nullptr); else F[f]->setReference(F[g].get()); ref[f] = g; c.ev("reference"); }
    else if (op <= 5) { if (in == order.end()) { cmd(s, "push", {Value(T[t]->getName())}); order.push_back(t); c.ev("pushed"); } }
    else if (op == 6 && in != order.end()) { if (r.coin()) { cmd(s, "up", {Value(T[t]->getName())}); if (in != order.begin()) std::swap(*in, *(in - 1)); } else { cmd(s, "down", {Value(T[t]->getName())}); if (in + 1 != order.end()) std::swap(*in, *(in + 1)); } c.ev("moved"); }
    else if (op == 7 && in != order.end() && r.coin(.5)) { cmd(s, "remove", {Value(T[t]->getName())}); order.erase(in); c.ev("removed"); }
    if (r.coin(.5) && k + 1 < K) continue;
    std::vector<const dg::Entity *> e{&s}; for (auto &x : T) e.push_back(x.get()); for (auto &x : F) e.push_back(x.get()); r.shuffle(e); std::ostringstream o; o << "digraph \"all\" {\n"; for (auto *x : e) x->writeGraph(o); o << "}\n"; Graph g; if (!parse(c, o.str(), g, "graph-parses")) break;
    Pairs chain, feat, refs; for (size_t i = 0; i + 1 < order.size(); ++i) chain.push_back({T[order[i]]->getName(), T[order[i + 1]]->getName()}); for (size_t i = 0; i < T.size(); ++i) for (int x : fs[i]) feat.push_back({F[x]->getName(), T[i]->getName()}); for (size_t i = 0; i < F.size(); ++i) if (ref[i] >= 0) refs.push_back({F[ref[i]]->getName(), F[i]->getName()});
    Names tn, fn; for (auto &x : T) tn.insert(x->getName()); for (auto &x : F) fn.insert(x->getName());
    c.log() << order.size() << " tasks in the stack, " << feat.size() << " features of tasks, " << refs.size() << " references";
    sameEdges(c, pairs(g, tn, tn), chain, "priority-chain"); sameEdges(c, pairs(g, fn, tn), feat, "features-of-tasks"); sameEdges(c, pairs(g, fn, fn), refs, "references-of-features"); c.eq(g.edges.size(), chain.size() + feat.size() + refs.size(), "no-other-edge");
    std::vector<std::string> got, want; for (auto &n : g.nodes) got.push_back(n.first); for (int i : order) want.push_back(T[i]->getName()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); c.check(got == want, "nodes-are-the-stacked-tasks", [&](std::ostream &x) { for (auto &n : got) x << n << " "; x << "| expected "; for (auto &n : want) x << n << " "; });
    c.state(mix(h ^ hashStr(std::to_string(chain.size()) + "/" + std::to_string(feat.size()) + "/" + std::to_string(refs.size()))));
  }
  for (int i : order) cmd(s, "remove", {Value(T[i]->getName())});
}
