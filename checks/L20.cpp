// @sources src/tools/sot-loader.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/exception/exception-dynamic.cpp src/exception/exception-task.cpp src/debug/debug.cpp
// @flags -isystem /usr/include/python3.12 -Ddlopen=vp_dlopen -Ddlsym=vp_dlsym -Ddlclose=vp_dlclose -Ddlerror=vp_dlerror
// @libs -lboost_program_options -lpython3.12
// @rule each case drives one loader through a random history (options, initialization with missing files and symbols, start, stop, iterations that may throw, Python commands, device hand-over, clean-up) over a dynamic linker and a controller library owned by the monitor, next to a model of it; distinct = distinct logs of calls into the controller library
// @assume an iteration is only run with a controller loaded; a loader is initialised again only after a clean-up or a failure
// @shards 8
#include <sot/core/sot-loader.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-task.hh>
#include <boost/program_options/errors.hpp>
#include "E_common.hh"
#include <fstream>
#include <unistd.h>
typedef std::map<std::string, sot::SensorValues> SM; typedef std::map<std::string, sot::ControlValues> CM;
// what the monitor sees of the controller library
static std::vector<std::string> g_log; static int g_throw; static int g_throwAt; static SM *g_sm; static CM *g_cm; static int g_live; static double g_value; static bool g_alias;
struct MyError { int v; };
struct StdError : std::runtime_error { int v; StdError(int k) : std::runtime_error("special " + std::to_string(k)), v(k) {} };
static void maybeThrow(int where) { if (g_throwAt != where) return; switch (g_throw) { case 1: throw StdError(41); case 2: throw sot::ExceptionDynamic(sot::ExceptionDynamic::GENERIC, "dynamic"); case 3: throw sot::ExceptionTask(sot::ExceptionTask::EMPTY_LIST, "task"); case 4: throw MyError{7}; case 5: throw std::out_of_range("range"); } }
struct Ctl : sot::AbstractSotExternalInterface {
  Ctl() { ++g_live; g_log.push_back("create"); } ~Ctl() { --g_live; g_log.push_back("destroy"); }
  void setupSetSensors(SM &) override { g_log.push_back("setup"); } void cleanupSetSensors(SM &) override { g_log.push_back("cleanup"); }
  void nominalSetSensors(SM &s) override { g_log.push_back("sensors"); g_alias &= &s == g_sm; maybeThrow(1); }
  void getControl(CM &m) override { g_log.push_back("control"); g_alias &= &m == g_cm; maybeThrow(2); m["ctrl"].setName("ctrl"); m["ctrl"].setValues(std::vector<double>(3, g_value)); }
  void setSecondOrderIntegration() override { g_log.push_back("second"); } void setNoIntegration() override { g_log.push_back("none"); }
};
// the dynamic linker: names of libraries, and which symbols each has
struct Lib { bool create, destroy; }; static std::map<std::string, Lib> g_libs; static std::map<void *, std::pair<std::string, int>> g_open; static std::string g_err; static bool g_pend; static std::string g_bad; static char g_slots[8]; static int g_cases;
static Ctl *g_last; static sot::AbstractSotExternalInterface *mk() { if (g_open.empty()) g_bad = "created with the library closed"; return g_last = new Ctl; }
static void rm(sot::AbstractSotExternalInterface *p) { if (g_open.empty()) g_bad = "destroyed with the library closed"; delete p; }
extern "C" {
void *vp_dlopen(const char *f, int) { g_log.push_back(std::string("open ") + (f ? f : "(null)")); auto it = g_libs.find(f ? f : ""); if (it == g_libs.end()) { g_err = std::string(f ? f : "") + ": cannot open shared object file"; g_pend = true; return NULL; } void *h = &g_slots[std::distance(g_libs.begin(), it) % 8]; g_open[h].first = it->first; ++g_open[h].second; return h; }
void *vp_dlsym(void *h, const char *s) { auto it = g_open.find(h); if (it == g_open.end()) { g_bad = "symbol looked up in a closed library"; g_err = "closed"; g_pend = true; return NULL; } Lib l = g_libs[it->second.first]; std::string n = s; if (n == "createSotExternalInterface" && l.create) return (void *)&mk; if (n == "destroySotExternalInterface" && l.destroy) return (void *)&rm; g_err = "undefined symbol: " + n; g_pend = true; return NULL; }
int vp_dlclose(void *h) { auto it = g_open.find(h); if (it == g_open.end()) { g_bad = "closed twice"; return -1; } if (g_live) g_bad = "closed while its controller is alive"; g_log.push_back("close"); if (!--it->second.second) g_open.erase(it); return 0; }
char *vp_dlerror(void) { if (!g_pend) return NULL; g_pend = false; static std::string s; s = g_err; return (char *)s.c_str(); }
}
struct Dev : dg::Entity { int *dead; Dev(const std::string &n, int *d) : dg::Entity(n), dead(d) {} ~Dev() { ++*dead; } };
static std::string py(sot::SotLoader &l, const std::string &cmd, std::string *out = NULL, std::string *err = NULL) { std::string r = "stale", o = "stale", e = "stale"; l.runPythonCommand(cmd, r, o, e); if (out) *out = o; if (err) *err = e; return r; }
struct Quiet { std::streambuf *a, *b; std::ostringstream s; Quiet() : a(std::cout.rdbuf()), b(std::cerr.rdbuf()) { std::cout.rdbuf(s.rdbuf()); std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
FAMILY(history, 600, 12000) {
  Rng &r = c.rng; Quiet quiet; g_log.clear(); g_libs = {{"lib/good.so", {true, true}}, {"lib/nocreate.so", {false, true}}, {"lib/nodestroy.so", {true, false}}, {"other good.so", {true, true}}}; g_open.clear(); g_pend = false; g_bad = ""; g_live = 0; g_throwAt = 0; g_alias = true;
  SM sm; CM cm; g_sm = &sm; g_cm = &cm; int deadDev = 0, deadPool = 0; std::unique_ptr<Dev> dev; std::string devName;
  { std::unique_ptr<sot::SotLoader> l(new sot::SotLoader); sot::SotLoader &L = *l; bool loaded = false, stopped = true; std::string lib = "", from; 
    { std::string o; py(L, "exec('''import sys, os, types\\nos.environ['PYTHONPATH'] = '/vp/first:/vp/second'\\nsys.path = [p for p in sys.path if not p.startswith('/vp/')]\\nif hasattr(sys, 'argv'): del sys.argv\\nfor n in ('dynamic_graph', 'dynamic_graph.sot', 'dynamic_graph.sot.core'): sys.modules[n] = types.ModuleType(n)\\nclass Device:\\n  def __init__(self, name): self.name = name\\nsys.modules['dynamic_graph.sot.core'].Device = Device\\nsys.vp_old_path = list(sys.path)''', {})", &o); }
    auto log = [&](const std::vector<std::string> &w, const char *key) { c.check(g_log == w, key, [&](std::ostream &o) { o << "calls:"; for (auto &s : g_log) o << " " << s; o << "; expected:"; for (auto &s : w) o << " " << s; }); for (auto &s : g_log) c.ev("call-" + s.substr(0, s.find(' '))); g_log.clear(); };
    c.check(L.isDynamicGraphStopped(), "stopped-at-first", [](std::ostream &) {}); uint64_t h = 0;
    for (int k = 0, K = r.range(4, 25); k < K; ++k) {
      int op = r.range(0, 11); h = h * 31 + op;
      switch (op) {
        case 0: case 1: { // options
          std::string f = r.pick(std::vector<std::string>{"lib/good.so", "lib/nocreate.so", "lib/missing.so", "lib/nodestroy.so", "other good.so"}), g = r.pick(std::vector<std::string>{"lib/good.so", "lib/missing.so"}); int form = r.range(0, 7); std::vector<std::string> a{"prog"}; int want = 0; std::string wl = f;
          if (form == 0) { a.push_back("--sot-dynamic-library"); a.push_back(f); } else if (form == 1) a.push_back("--sot-dynamic-library=" + f); else if (form == 2) { a.push_back("--input-file"); a.push_back(f); } else if (form == 3) a.push_back("--input-file=" + f);
          else if (form == 4) { a.push_back("--input-file=" + g); a.push_back("--sot-dynamic-library=" + f); } else if (form == 5) { want = -1; wl = lib; } else if (form == 6) { a.push_back("--help"); if (r.coin()) a.push_back("--input-file=" + f); want = -1; wl = lib; } else { a.push_back("--nonsense=1"); wl = lib; }
          std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(NULL); 
          if (form == 7) c.throws<boost::program_options::error>([&] { L.parseOptions(a.size(), v.data()); }, "unknown-option-refused"); else { int got = L.parseOptions(a.size(), v.data()); c.check(got == want, "options-result", [&](std::ostream &o) { o << got << " expected " << want << " for"; for (auto &s : a) o << " " << s; }); }
          lib = wl; log({}, "options-load-nothing"); c.ev("options"); break; }
        case 2: { std::string f = r.pick(std::vector<std::string>{"lib/good.so", "lib/good.so", "lib/nocreate.so", "lib/missing.so"}); L.setDynamicLibraryName(f); lib = f; log({}, "naming-loads-nothing"); break; }
        case 3: case 4: case 5: { if (loaded) break; if (r.coin()) { g_err = "an earlier error"; g_pend = true; } bool ex = g_libs.count(lib), ok = ex && g_libs[lib].create; bool got = L.initialization(); c.check(got == ok, "initialization-result", [&](std::ostream &o) { o << got << " for " << lib; });
          if (ok) log({"open " + lib, "create"}, "initialization-creates-one-controller"); else log({"open " + lib}, "failed-initialization-creates-nothing"); loaded = ok; from = lib; c.ev(ok ? "initialised" : "not-initialised");
          if (ok) { std::string o, e; c.check(py(L, "[p for p in sys.path if p.startswith('/vp/')] == ['/vp/first', '/vp/second'] and set(sys.vp_old_path) <= set(sys.path)", &o, &e) == "True", "python-path-completed", [&](std::ostream &q) { q << py(L, "sys.path") << e; });
            c.check(py(L, "isinstance(sys.argv, list) and len(sys.argv) > 0", &o, &e) == "True", "python-arguments-present", [&](std::ostream &q) { q << e; }); c.check(py(L, "np.__name__", &o, &e) == "numpy", "python-numpy-present", [&](std::ostream &q) { q << e; }); } 
          c.check(L.isDynamicGraphStopped() == stopped, "initialization-does-not-start", [](std::ostream &) {}); break; }
        case 6: if (r.coin(.7)) { L.startDG(); stopped = false; } else { L.stopDG(); stopped = true; } c.check(L.isDynamicGraphStopped() == stopped, "start-and-stop", [](std::ostream &) {}); log({}, "starting-runs-nothing"); break;
        case 7: case 8: case 9: { if (!loaded && !stopped) break; g_value = r.gauss(); sm.clear(); cm.clear(); bool bare = r.coin(.15); if (!bare) { sm["enc"].setName("enc"); sm["enc"].setValues({g_value}); } else c.ev("no-sensor-values"); g_throw = r.range(1, 5); g_throwAt = r.coin(.3) ? r.range(1, 2) : 0; g_alias = true; int got = 0; std::string what;
          try { L.oneIteration(sm, cm); } catch (StdError &e) { got = e.v == 41 ? 1 : -1; what = e.what(); } catch (sot::ExceptionDynamic &e) { got = 2; what = e.what(); } catch (sot::ExceptionTask &e) { got = e.getCode() == sot::ExceptionTask::EMPTY_LIST ? 3 : -3; what = e.what(); } catch (std::out_of_range &e) { got = 5; what = e.what(); } catch (std::exception &e) { got = -9; what = e.what(); } catch (MyError &e) { got = e.v == 7 ? 4 : -4; }
          int want = !stopped && g_throwAt ? g_throw : 0; c.check(got == want, "exception-reaches-the-caller-unchanged", [&](std::ostream &o) { o << "kind " << want << " thrown, caught " << got << " \"" << what << "\""; });
          if (stopped) { log({}, "stopped-loader-runs-nothing"); c.check(cm.empty(), "stopped-loader-gives-no-control", [](std::ostream &) {}); c.ev("iteration-stopped"); } else { if (g_throwAt == 1) log({"sensors"}, "no-control-after-failed-sensors"); else log({"sensors", "control"}, "sensors-then-control-once"); c.check(g_alias, "callers-maps-used", [](std::ostream &) {});
            if (!g_throwAt) c.check(cm.size() == 1 && cm["ctrl"].getName() == "ctrl" && cm["ctrl"].getValues() == std::vector<double>(3, g_value), "control-returned", [&](std::ostream &o) { o << cm.size() << " values"; }); c.ev(g_throwAt ? "iteration-threw" : "iteration"); }
          c.check(bare ? sm.empty() : sm.size() == 1 && sm["enc"].getValues() == std::vector<double>(1, g_value), "sensors-kept", [](std::ostream &) {}); g_throwAt = 0; break; }
        case 10: { std::string o, e; int a = r.range(-99, 99), b = r.range(-99, 99), w = r.range(0, 3); 
          if (w == 0) { std::string x = py(L, std::to_string(a) + "+(" + std::to_string(b) + ")", &o, &e); c.check(x == std::to_string(a + b) && o == "" && e == "", "python-result", [&](std::ostream &q) { q << x << "|" << o << "|" << e; }); }
          else if (w == 1) { py(L, "print('x', " + std::to_string(a) + ")", &o, &e); c.check(o == "x " + std::to_string(a) + "\n" && e == "", "python-output", [&](std::ostream &q) { q << o << "|" << e; }); }
          else if (w == 2) { py(L, "undefined_name_" + std::to_string(r.range(0, 9)), &o, &e); c.check(o == "" && e.find("NameError") != std::string::npos, "python-error", [&](std::ostream &q) { q << o << "|" << e; }); }
          else { std::string f = "script" + std::to_string(getpid()) + ".py"; bool bad = r.coin(); { std::ofstream s(f); s << "value = " << a << "\n" << (bad ? "nowhere\n" : ""); } std::string er; if (r.coin()) L.runPythonFile(f); else { L.runPythonFile(f, er); c.check((er.find("NameError") != std::string::npos) == bad && er.empty() == !bad, "python-file-error", [&](std::ostream &q) { q << er; }); } c.check(py(L, "value", &o, &e) == std::to_string(a), "python-file-run", [&](std::ostream &q) { q << e; }); unlink(f.c_str()); }
          log({}, "python-runs-no-controller"); c.ev("python"); break; }
        default: if (!dev && loaded) { devName = uname("device"); dev.reset(new Dev(devName, &deadDev)); L.loadDeviceInPython(devName); std::string o, e; std::string n = py(L, "device_cpp_object.name", &o, &e); c.check(n == devName, "device-named-in-python", [&](std::ostream &q) { q << n << " expected " << devName << " " << e; }); log({}, "device-hand-over-runs-no-controller"); c.ev("device"); }
          else if (r.coin(.5)) { std::string pooled = uname("pooled"); new Dev(pooled, &deadPool); int d0 = deadDev; L.cleanUp(); std::vector<std::string> w; bool stuck = loaded && !g_libs[from].destroy; if (loaded && !stuck) w = {"destroy", "close"}; log(w, "clean-up-destroys-once"); loaded = stuck; if (stuck) c.ev("controller-without-destroy"); c.check(deadDev == d0, "device-survives-clean-up", [&](std::ostream &o) { o << deadDev; }); c.check(!dg::PoolStorage::getInstance()->existEntity(pooled) && deadPool > 0, "clean-up-empties-the-pool", [](std::ostream &) {}); c.ev("clean-up"); if (dev && r.coin()) { dev.reset(); deadDev = 0; c.ev("another-device-later"); } }
      }
      c.check(g_bad.empty(), "library-use-order", [&](std::ostream &o) { o << g_bad; }); c.check(g_live == (loaded ? 1 : 0), "one-controller-alive", [&](std::ostream &o) { o << g_live; });
    }
    l.reset(); std::vector<std::string> w; bool stuck = loaded && !g_libs[from].destroy; if (loaded && !stuck) w = {"destroy", "close"}; log(w, "destruction-cleans-up"); c.check(g_bad.empty() && g_live == (stuck ? 1 : 0), "library-use-order", [&](std::ostream &o) { o << g_bad; }); c.state(h);
  }
  if (g_live) delete g_last;
  if (dev) { c.check(deadDev == 0, "device-survives-clean-up", [&](std::ostream &o) { o << deadDev; }); dev.reset(); }
}
