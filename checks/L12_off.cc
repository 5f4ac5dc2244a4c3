// The same macros in code compiled with traces off (the default build).
#include <cstdarg>
#include <cstdio>
#include <iostream>
#include <string>
#include <sot/core/debug.hh>
using namespace dynamicgraph::sot;
static int n;
static const std::string &count(const std::string &s) { ++n; return s; }
int off_calls(int level, const std::string &s) {
  n = 0;
  sotDEBUG(level) << count(s) << std::endl;
  sotDEBUGMUTE(level) << count(s) << std::endl;
  sotTDEBUG(level) << count(s) << std::endl;
  sotDEBUGIN(level);
  sotDEBUGOUT(level);
  sotDEBUGINOUT(level);
  sotDEBUGF(level, "%s", s.c_str());
  sotDEBUGF("%s", s.c_str());
  if (sotDEBUG_ENABLE(level) || sotTDEBUG_ENABLE(level)) ++n;
  return n;
}
