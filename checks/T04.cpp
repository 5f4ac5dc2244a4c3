// @sources src/task/multi-bound.cpp src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/debug/debug.cpp
// @rule each case drives one entry through random constructions, settings, copies and reads against a model holding kind, presence and value of each bound; lists are written, read back and damaged; distinct = distinct (entry, text)
#include <sot/core/multi-bound.hh>
#include <sot/core/exception-task.hh>
#include <iomanip>
#include "harness.hh"
namespace sot = dynamicgraph::sot;
using namespace vh; using sot::MultiBound; using sot::VectorMultiBound;
struct Model {
  bool dbl = false, inf = false, sup = false; double one = 0, lo = 0, hi = 0;
  bool operator==(const Model &o) const { return dbl == o.dbl && (dbl ? inf == o.inf && sup == o.sup && (!inf || lo == o.lo) && (!sup || hi == o.hi) : one == o.one); }
};
static void agree(Case &c, const MultiBound &b, const Model &m, const char *what) {
  std::string w = what;
  c.eq(b.getMode() == MultiBound::MODE_DOUBLE, m.dbl, (w + "-kind").c_str());
  if (!m.dbl) {
    c.same(b.getSingleBound(), m.one, (w + "-value").c_str());
    for (auto k : {MultiBound::BOUND_INF, MultiBound::BOUND_SUP}) {
      c.throws<sot::ExceptionTask>([&] { b.getDoubleBound(k); }, (w + "-no-interval").c_str());
      c.throws<sot::ExceptionTask>([&] { b.getDoubleBoundSetup(k); }, (w + "-no-interval").c_str());
    }
    return;
  }
  c.throws<sot::ExceptionTask>([&] { b.getSingleBound(); }, (w + "-no-value").c_str());
  c.eq(b.getDoubleBoundSetup(MultiBound::BOUND_INF), m.inf, (w + "-lower-present").c_str());
  c.eq(b.getDoubleBoundSetup(MultiBound::BOUND_SUP), m.sup, (w + "-upper-present").c_str());
  if (m.inf) c.same(b.getDoubleBound(MultiBound::BOUND_INF), m.lo, (w + "-lower").c_str()); else c.throws<sot::ExceptionTask>([&] { b.getDoubleBound(MultiBound::BOUND_INF); }, (w + "-missing-lower").c_str());
  if (m.sup) c.same(b.getDoubleBound(MultiBound::BOUND_SUP), m.hi, (w + "-upper").c_str()); else c.throws<sot::ExceptionTask>([&] { b.getDoubleBound(MultiBound::BOUND_SUP); }, (w + "-missing-upper").c_str());
}
static double num(Rng &r) { return r.pick(std::vector<double>{0., 1., -1., .5, -2.25, r.range(-999, 999) / 8., (double)r.range(-99999, 99999), std::stod(std::to_string(r.range(-9999, 9999)) + "e-3"), 1e10, -3e-7}); }
static MultiBound make(Rng &r, Model &m) {
  m = Model();
  switch (r.range(0, 4)) {
    case 0: m.one = num(r); return MultiBound(m.one);
    case 1: m.dbl = m.inf = m.sup = true; m.lo = num(r); m.hi = num(r); return MultiBound(m.lo, m.hi);
    case 2: m.dbl = m.inf = true; m.lo = num(r); return MultiBound(m.lo, MultiBound::BOUND_INF);
    case 3: m.dbl = m.sup = true; m.hi = num(r); return MultiBound(m.hi, MultiBound::BOUND_SUP);
    default: return MultiBound();
  }
}
static std::string text(const Model &m, int prec) {
  std::ostringstream o; o.precision(prec);
  if (!m.dbl) o << m.one;
  else { o << "("; if (m.inf) o << m.lo; else o << "--"; o << ","; if (m.sup) o << m.hi; else o << "--"; o << ")"; }
  return o.str();
}
FAMILY(entry, 20000, 600000) {
  Rng &r = c.rng; Model m; MultiBound b = make(r, m); int n = r.range(0, 12); uint64_t h = 0;
  agree(c, b, m, "built");
  for (int k = 0; k < n; ++k) {
    int op = r.range(0, 7); double x = num(r); h = mix(h + op);
    c.log() << op << " " << x;
    switch (op) {
      case 0: b.setSingleBound(x); m.dbl = false; m.one = x; break;
      case 1: b.setDoubleBound(MultiBound::BOUND_INF, x); if (!m.dbl) m.sup = false; m.dbl = m.inf = true; m.lo = x; break;
      case 2: b.setDoubleBound(MultiBound::BOUND_SUP, x); if (!m.dbl) m.inf = false; m.dbl = m.sup = true; m.hi = x; break;
      case 3: b.unsetDoubleBound(MultiBound::BOUND_INF); if (!m.dbl) m.sup = false; m.dbl = true; m.inf = false; break;
      case 4: b.unsetDoubleBound(MultiBound::BOUND_SUP); if (!m.dbl) m.inf = false; m.dbl = true; m.sup = false; break;
      case 5: { MultiBound d(b); agree(c, d, m, "copy"); d.setSingleBound(77); agree(c, b, m, "copied-from"); break; }
      case 6: { Model q; MultiBound d = make(r, q); b = d; m = q; break; }
      default: { Model q; make(r, q); std::istringstream is(text(q, 17) + (r.coin() ? "" : ",")); is >> b; m = q; c.ev("read-over"); break; }
    }
    agree(c, b, m, "edited"); c.ev("edit");
  }
  std::ostringstream o; o << b; c.eq(o.str(), text(m, 6), "text");
  c.state(mix(h) ^ hashStr(o.str()));
}
FAMILY(list, 8000, 300000) {
  Rng &r = c.rng; VectorMultiBound v; std::vector<Model> ms; int n = r.range(0, 8), prec = r.pick(std::vector<int>{6, 17});
  for (int i = 0; i < n; ++i) { Model m; v.push_back(make(r, m)); ms.push_back(m); }
  std::ostringstream o; o.precision(prec); o << v;
  std::string want = "[" + std::to_string(n) + "](";
  for (int i = 0; i < n; ++i) want += (i ? "," : "") + text(ms[i], prec);
  want += ")"; c.eq(o.str(), want, "list-text"); c.log() << want;
  std::string after = r.pick(std::vector<std::string>{"", "[0]()", " rest", ")"});
  std::istringstream is(want + after); VectorMultiBound w(r.range(0, 5), MultiBound(r.gauss(), 5.)); is >> w;
  c.eq(w.size(), (size_t)n, "list-size");
  for (int i = 0; i < n; ++i) agree(c, w[i], ms[i], "list-read");
  is.clear(); std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  c.eq(rest, after, "reads-no-further"); c.ev("round-trip"); c.ev("entries", n);
  c.state(want);
  // a list that ends too early is refused and leaves no entries half read as complete
  std::string cut = want.substr(0, r.range(0, (int)want.size() - 1));
  bool refused = false; VectorMultiBound x;
  try { std::istringstream bad(cut); bad >> x; } catch (const sot::ExceptionTask &) { refused = true; }
  c.check(refused, "truncated-refused", [&](std::ostream &s) { s << "accepted " << cut; }); c.ev("truncated");
  if (n) {
    std::string dmg = want; size_t p = dmg.find(r.pick(std::vector<std::string>{"[", "]", "](", ","}));
    if (p != std::string::npos) {
      dmg[p] = ';'; refused = false;
      try { std::istringstream bad(dmg); bad >> x; } catch (const sot::ExceptionTask &) { refused = true; }
      c.check(refused, "damaged-refused", [&](std::ostream &s) { s << "accepted " << dmg; }); c.ev("damaged");
    }
  }
}
