// @dgfree
// @sources src/exception/exception-abstract.cpp src/exception/exception-task.cpp src/exception/exception-feature.cpp src/exception/exception-factory.cpp src/exception/exception-signal.cpp src/exception/exception-dynamic.cpp src/exception/exception-tools.cpp src/debug/debug.cpp
// @rule each case builds one exception of each class from a random code, message and format arguments (lengths 0..2000 around the 255-character limit), throws it and compares what the catcher sees with snprintf of the same arguments; distinct = distinct (class, code, text)
// @assume format strings are valid for their arguments
#include <sot/core/exception-abstract.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-signal.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/exception-tools.hh>
#include "harness.hh"
using namespace vh;
using namespace dynamicgraph::sot;

static std::string rstr(Rng &r, int maxLen) {
  int n = r.coin(.3) ? r.pick(std::vector<int>{0, 1, 253, 254, 255, 256, 257, 400}) : r.range(0, maxLen);
  std::string s;
  for (int i = 0; i < n; ++i) s += r.coin(.05) ? '%' : (char)r.range(32, 126);
  return s;
}
struct Args { int i; long l; double d; std::string s; unsigned u; char ch; void *p; };

template <class E>
static void look(Case &c, E &e, const char *name, int code, const std::string &msg) {
  c.eq(e.getCode(), code, "code");
  c.eq(e.getStringMessage(), msg, "message");
  c.eq(std::string(e.getMessage()), msg, "message-pointer");
  c.eq(std::string(static_cast<const std::exception &>(e).what()), msg, "what");
  c.eq(e.getExceptionName(), std::string(name), "class-name");
  c.eq(static_cast<const ExceptionAbstract &>(e).getExceptionName(), std::string(name), "class-name-through-base");
  std::ostringstream o; o << static_cast<const ExceptionAbstract &>(e);
  std::ostringstream cs; cs << code;
  size_t a = o.str().find(name), b = o.str().find(cs.str(), a == std::string::npos ? 0 : a), m = o.str().find(msg, b == std::string::npos ? 0 : b + cs.str().size());
  c.check(a == 0 && b != std::string::npos && m != std::string::npos, "printed-name-code-message", [&](std::ostream &q) { q << o.str(); });
  c.check(o.str().size() < msg.size() + 60 && o.str().back() == '\n', "printed-nothing-else");
}
// thrown by value, caught as every base
template <class E, class Mk>
static void thrown(Case &c, Mk mk, const char *name, int code, const std::string &msg) {
  try { throw mk(); } catch (E &e) { look(c, e, name, code, msg); }
  try { throw mk(); } catch (ExceptionAbstract &e) { look(c, e, name, code, msg); }
  bool std_ = false;
  try { throw mk(); } catch (const std::exception &e) { std_ = true; c.eq(std::string(e.what()), msg, "what"); }
  c.check(std_, "is-a-standard-exception");
  E first = mk(); E copy(first); { E tmp = mk(); (void)tmp; }
  look(c, copy, name, code, msg);
  try { try { throw mk(); } catch (ExceptionAbstract &e) { throw; } } catch (E &e) { look(c, e, name, code, msg); }
  c.ev("thrown", 4);
}

template <class E>
static void oneClass(Case &c, const char *name, int base, const std::vector<typename E::ErrorCodeEnum> &codes) {
  Rng &r = c.rng;
  std::set<int> seen;
  for (auto k : codes) {
    c.check((int)k >= base && (int)k < base + 100, "code-in-its-class-range");
    c.check(seen.insert((int)k).second, "codes-distinct");
  }
  c.eq((int)codes[0], base, "generic-code-is-class-code");
  auto code = r.pick(codes);
  std::string msg = rstr(r, 300);
  c.log() << name << " code " << code << " msg[" << msg.size() << "]";
  thrown<E>(c, [&] { return E(code, msg); }, name, code, msg);
  thrown<E>(c, [&] { return E(code); }, name, code, "");
  // formatted: message followed by at most 255 formatted characters
  char buf[256];
  Args a{(int)r.u64(), (long)r.u64(), r.gauss() * std::pow(10., r.range(-5, 8)), rstr(r, 300), (unsigned)r.u64(), (char)r.range(33, 126), (void *)r.u64()};
#define FMT(...) do { snprintf(buf, sizeof buf, __VA_ARGS__); \
    thrown<E>(c, [&] { return E(code, msg, __VA_ARGS__); }, name, code, msg + buf); c.ev("formatted"); \
    c.state(hashStr(msg + buf) ^ code); } while (0)
  switch (r.range(0, 8)) {
    case 0: FMT("%d", a.i); break;
    case 1: FMT("(%s)", a.s.c_str()); break;
    case 2: FMT("size %d should be %u.", a.i, a.u); break;
    case 3: FMT("%s <%s> %c %% %5.3f %e", a.s.c_str(), msg.c_str(), a.ch, a.d, a.d); break;
    case 4: FMT("no argument"); break;
    case 5: { std::string pad(r.range(200, 300), 'x'); FMT("%s%ld", pad.c_str(), a.l); break; }
    case 6: FMT("%p %lx %-30d|%030d", a.p, (unsigned long)a.l, a.i, a.i); break;
    case 7: { int w = r.range(250, 260); FMT("%*d", w, a.i); break; }
    default: FMT("%.*s%g", 10, a.s.c_str(), a.d); break;
  }
  c.sample(std::string(name) + " code " + std::to_string((int)code) + " text [" + (msg + buf).substr(0, 60) + "]");
}

FAMILY(task, 1200, 40000) { typedef ExceptionTask E; oneClass<E>(c, "Task", 200, {E::GENERIC, E::EMPTY_LIST, E::NON_ADEQUATE_FEATURES, E::MATRIX_SIZE, E::BOUND_TYPE, E::PARSER_MULTI_BOUND}); }
FAMILY(feature, 1200, 40000) { typedef ExceptionFeature E; oneClass<E>(c, "Feature", 300, {E::GENERIC, E::BAD_INIT, E::UNCOMPATIBLE_SIZE}); }
FAMILY(factory, 1200, 40000) { typedef ExceptionFactory E; oneClass<E>(c, "Factory", 400, {E::GENERIC, E::UNREFERED_OBJECT, E::UNREFERED_SIGNAL, E::UNREFERED_FUNCTION, E::DYNAMIC_LOADING, E::SIGNAL_CONFLICT, E::FUNCTION_CONFLICT, E::OBJECT_CONFLICT, E::SYNTAX_ERROR, E::READ_FILE}); }
FAMILY(signal, 1200, 40000) { typedef ExceptionSignal E; oneClass<E>(c, "Signal", 100, {E::GENERIC, E::READWRITE_LOCK, E::COPY_NOT_INITIALIZED, E::NOT_INITIALIZED, E::PLUG_IMPOSSIBLE, E::SET_IMPOSSIBLE, E::BAD_CAST}); }
FAMILY(dynamic, 1200, 40000) { typedef ExceptionDynamic E; oneClass<E>(c, "Dynamic", 500, {E::GENERIC, E::CANT_DESTROY_SIGNAL, E::JOINT_RANK, E::DYNAMIC_JRL, E::JOINT_SIZE, E::INTEGRATION}); }
FAMILY(tools, 1200, 40000) { typedef ExceptionTools E; oneClass<E>(c, "Tools", 700, {E::GENERIC, E::CORBA, E::KALMAN_SIZE, E::PARAMETER_SERVER}); }
FAMILY(abstract, 500, 10000) {
  Rng &r = c.rng;
  int code = r.coin() ? r.range(-5, 1000) : (int)r.u64();
  std::string msg = rstr(r, 2000);
  thrown<ExceptionAbstract>(c, [&] { return ExceptionAbstract(code, msg); }, "Abstract", code, msg);
  thrown<ExceptionAbstract>(c, [&] { return ExceptionAbstract(code); }, "Abstract", code, "");
  c.state(hashStr(msg) ^ code);
}
