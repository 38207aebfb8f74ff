// C06: Adler-32.
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "checksum.h"
#include <string>
using namespace open_vcdiff;
static uint8_t buf[20000];
static void fill(size_t n) {
  int f = vs_param("fill", 0xff); uint32_t l = 99; for (size_t i = 0; i < n; i++) { l = l * 1103515245u + 12345u; buf[i] = f >= 0 ? (uint8_t)f : (uint8_t)(l >> 16); }
  size_t k = vs_param("k", 0);                        // k symbolic bytes, spread over the buffer (k<0 or k>=n: all)
  if (k >= n) vs_bytes(buf, n, "b"); else for (size_t j = 0; j < k; j++) buf[(k == 1 ? n / 2 : j * (n - 1) / (k - 1))] = vs_u8("b");
}
// the library's checksum equals the textbook definition (sum starting from 0)
extern "C" void ck_def() {
  size_t n = vs_param("n", 8); fill(n);
  VCDChecksum c = ComputeAdler32((const char*)buf, n);
  uint32_t r = ref_adler32(buf, n);
  vs_observe(c); vs_assert(c == (VCDChecksum)r, "ComputeAdler32 differs from the definition of Adler-32"); vs_reach("ok");
}
// incremental computation over a split equals the whole
extern "C" void ck_inc() {
  size_t n = vs_param("n", 8); fill(n); size_t c = vs_choose(n + 1, "cut");
  VCDChecksum a = UpdateAdler32(ComputeAdler32((const char*)buf, c), (const char*)buf + c, n - c);
  vs_observe(a); vs_assert(a == ComputeAdler32((const char*)buf, n), "incremental checksum differs"); vs_reach("ok");
}
// any single changed byte changes the checksum
extern "C" void ck_one() {
  size_t n = vs_param("n", 8); fill(n); VCDChecksum a = ComputeAdler32((const char*)buf, n);
  size_t i = vs_choose(n, "at"); uint8_t o = buf[i]; buf[i] = vs_u8("new"); vs_assume(buf[i] != o);
  vs_assert(a != ComputeAdler32((const char*)buf, n), "a changed byte went unnoticed"); vs_reach("ok");
}
