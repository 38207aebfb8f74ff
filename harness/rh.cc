// C10: rolling hash.
#include <config.h>
#include "vs.h"
#include "rolling_hash.h"
using namespace open_vcdiff;
template <int W> static void rh() {
  RollingHash<W>::Init(); RollingHash<W> h; uint8_t b[W + 1]; vs_bytes(b, W + 1, "b");
  uint32_t a = h.UpdateHash(h.Hash((const char*)b), b[0], b[W]), e = h.Hash((const char*)b + 1);
  vs_assert(a == e, "rolling update differs from hashing the shifted block"); vs_observe(a); vs_reach("ok");
}
extern "C" void rh16() { rh<16>(); }
extern "C" void rh4() { rh<4>(); }
// two steps, as the match finder does
extern "C" void rh_two() {
  RollingHash<16>::Init(); RollingHash<16> h; uint8_t b[18]; vs_bytes(b, 18, "b");
  uint32_t a = h.UpdateHash(h.UpdateHash(h.Hash((const char*)b), b[0], b[16]), b[1], b[17]);
  vs_assert(a == h.Hash((const char*)b + 2), "two rolling updates differ from hashing the shifted block"); vs_reach("ok");
}
