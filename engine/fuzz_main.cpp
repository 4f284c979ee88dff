// libFuzzer entry.  The input bytes are the choice sequence of the property (or
// what the property's from_bytes makes of them).  A failing input is saved by
// libFuzzer and handed to `runner --bytes`, which shrinks and replays it.
#include "pbt.hpp"
#include <cstdlib>
using namespace vp;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  const Prop &P = the_prop();
  Src s = P.from_bytes ? Src(P.from_bytes(data, size)) : Src(data, size);
  Case c(s, false);
  try {
    P.fn(c);
  } catch (const Discard &) {
    return -1;
  } catch (const std::exception &e) {
    fprintf(stderr, "PROPERTY FAILED: %s\n", e.what());
    abort();
  }
  return 0;
}
