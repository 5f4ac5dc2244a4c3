// How values given to an input signal reach it.  Off: as a constant of the
// signal itself.  On: the value is computed by another signal plugged to it,
// evaluated only when the input is accessed at a time (as in a real graph),
// so an entity that reads its input without evaluating it sees a stale value.
#ifndef STANDIN_FEED_HH
#define STANDIN_FEED_HH
namespace standin {
inline bool &feedThroughSignals() {
  static bool on = false;
  return on;
}
}  // namespace standin
#endif
