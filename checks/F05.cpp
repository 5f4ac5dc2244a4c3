// @sources src/sot/flags.cpp src/debug/debug.cpp
// @rule each case applies a random history of constructions, edits and combinations to flags and to a model (bits plus tail) and compares them bit by bit well past the stored length; distinct = distinct (bits, tail)
#include <sot/core/flags.hh>
#include <string.h>
#include "harness.hh"
namespace sot = dynamicgraph::sot;
using namespace vh; using sot::Flags;
struct Model {
  std::vector<bool> b; bool tail = false;
  bool at(size_t i) const { return i < b.size() ? (bool)b[i] : tail; }
  std::string text() const { std::string s; for (bool x : b) s += x ? '1' : '0'; return s; }
};
static void agree(Case &c, const Flags &f, const Model &m, const char *k) {
  for (int i = 0; i < (int)m.b.size() + 40; ++i) c.check(f(i) == m.at(i), k, [&](std::ostream &o) { o << "bit " << i << " of " << m.text() << " tail " << m.tail << " reads " << f(i); });
  bool any = m.tail; for (bool x : m.b) any = any || x;
  c.eq((bool)f, any, k);
  std::ostringstream o; o << f; c.eq(o.str(), m.text(), k);
}
static Flags make(Rng &r, Model &m) {
  m = Model();
  int n = r.pick(std::vector<int>{0, 1, 2, 6, 8, 9, 31, 64, 65, r.range(0, 130)});
  for (int i = 0; i < n; ++i) m.b.push_back(r.coin());
  switch (r.range(0, 4)) {
    case 0: m.b.clear(); m.tail = r.coin(); return Flags(m.tail);
    case 1: return Flags(m.b);
    case 2: { std::string s; for (char ch : m.text()) { while (r.coin(.15)) s += ' '; s += ch; } if (r.coin(.2)) s += ' '; return Flags(s.c_str()); }
    case 3: { m.b.clear(); m.tail = r.coin(); Flags f(m.tail); for (int i = 0; i < n % 20; ++i) { bool x = r.coin(); f.add(x); m.b.push_back(x); } return f; }
    default: { Flags f(r.coin()); std::string s; for (char ch : m.text()) { while (r.coin(.1)) s += ' '; s += ch; } std::istringstream is(s); is >> f; return f; }
  }
}
static Model comb(const Model &a, const Model &b, bool isAnd) {
  Model o; size_t n = std::max(a.b.size(), b.b.size());
  for (size_t i = 0; i < n; ++i) o.b.push_back(isAnd ? a.at(i) && b.at(i) : a.at(i) || b.at(i));
  o.tail = isAnd ? a.tail && b.tail : a.tail || b.tail; return o;
}
FAMILY(history, 15000, 400000) {
  Rng &r = c.rng; Model m; Flags f = make(r, m); agree(c, f, m, "built");
  int n = r.range(0, 10);
  for (int k = 0; k < n; ++k) {
    int op = r.range(0, 8); Model q; c.log() << "op " << op << " on " << m.text() << "|" << m.tail;
    unsigned i = r.coin(.8) && !m.b.empty() ? r.range(0, (int)m.b.size() - 1) : m.b.size() + r.range(0, 70);
    switch (op) {
      case 0: f.set(i); if (i < m.b.size()) m.b[i] = true; agree(c, f, m, "set"); break;
      case 1: f.unset(i); if (i < m.b.size()) m.b[i] = false; agree(c, f, m, "unset"); break;
      case 2: { bool x = r.coin(); f.add(x); m.b.push_back(x); agree(c, f, m, "add"); break; }
      case 3: { Flags g = !f; agree(c, f, m, "complement-keeps"); m.b.flip(); m.tail = !m.tail; f = g; agree(c, f, m, "complement"); break; }
      case 4: { Flags g = make(r, q); Flags u = f & g; Model w = comb(m, q, true); agree(c, u, w, "and"); agree(c, f, m, "and-keeps-left"); agree(c, g, q, "and-keeps-right"); if (r.coin()) { f = u; m = w; } break; }
      case 5: { Flags g = make(r, q); Flags u = f | g; Model w = comb(m, q, false); agree(c, u, w, "or"); agree(c, f, m, "or-keeps-left"); agree(c, g, q, "or-keeps-right"); if (r.coin()) { f = u; m = w; } break; }
      case 6: { Flags g = make(r, q); bool a = r.coin(); if (a) f &= g; else f |= g; m = comb(m, q, a); agree(c, f, m, a ? "and-assign" : "or-assign"); break; }
      case 7: { std::ostringstream o; o << f; std::istringstream is(o.str()); Flags g(r.coin()); is >> g; Model w = m; w.tail = false; agree(c, g, w, "text-round-trip"); agree(c, Flags(o.str().c_str()), w, "text-constructor"); break; }
      default: { Flags g(f); g.add(true); agree(c, f, m, "copy"); f &= f; agree(c, f, m, "self-and"); f |= f; agree(c, f, m, "self-or"); }
    }
    c.ev("op" + std::to_string(op));
  }
  c.state(m.text() + (m.tail ? "+" : "-"));
  // any other character is refused
  if (r.coin(.3)) {
    std::string s = m.text().substr(0, 20); char bad = r.pick(std::vector<char>{'2', 'x', '\n', '-', '.', '\t'}); s.insert(r.range(0, (int)s.size()), 1, bad);
    c.throws<std::invalid_argument>([&] { Flags g(s.c_str()); }, "bad-text-refused");
    c.throws<std::invalid_argument>([&] { std::istringstream is(s); Flags g; is >> g; }, "bad-stream-refused"); c.ev("refused");
  }
}
FAMILY(laws, 4000, 100000) {
  Rng &r = c.rng; Model a, b, d; Flags A = make(r, a), B = make(r, b), D = make(r, d);
  auto same = [&](const Flags &x, const Flags &y, const char *k) { for (int i = 0; i < 260; ++i) c.check(x(i) == y(i), k); };
  same(!(A & B), !A | !B, "de-morgan-and"); same(!(A | B), !A & !B, "de-morgan-or"); same(!!A, A, "double-complement");
  same(A & B, B & A, "and-commutes"); same(A | B, B | A, "or-commutes"); same((A & B) & D, A & (B & D), "and-associates"); same((A | B) | D, A | (B | D), "or-associates");
  same(A & (B | D), (A & B) | (A & D), "distributes"); same(A | (A & B), A, "absorbs"); same(A & Flags(true), A, "true-is-neutral"); same(A | Flags(false), A, "false-is-neutral");
  c.check(!(bool)(A & !A), "nothing-in-both"); c.check((bool)(A | !A), "everything-in-either");
  c.state(a.text() + "/" + b.text() + "/" + d.text()); c.ev("laws");
}
