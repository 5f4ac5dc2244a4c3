#include <dynamic-graph/standin.hh>
