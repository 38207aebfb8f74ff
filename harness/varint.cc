// C07: variable-length integers and header fields.
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "varint_bigendian.h"
#include "headerparser.h"
#include "google/output_string.h"
#include <string>
using namespace open_vcdiff;

// Straight-line reference decoder: returns value, or -1 (does not fit), or -2 (truncated).
static int64_t rparse(const uint8_t* p, size_t n, uint64_t maxv, size_t* used) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    if (v > (maxv >> 7)) return -1;
    v = (v << 7) | (p[i] & 127);
    if (!(p[i] & 128)) { *used = i + 1; return (int64_t)v; }
  }
  // Undecided: the implementation may report overflow as soon as no continuation can fit.
  if (n && v > (maxv >> 7)) return -3;
  return -2;
}
template <class T> static void roundtrip(int bits) {
  typedef VarintBE<T> V;
  const T v = (T)(vs_sym("v", 64) & (((uint64_t)1 << bits) - 1));
  char buf[32]; memset(buf, 0x5a, sizeof buf);
  int n = V::Encode(v, buf + 8);
  vs_assert(n == V::Length(v), "Length() disagrees with Encode()");
  vs_assert(n >= 1 && n <= (bits + 6) / 7, "encoded length out of range");
  vs_observe(n);
  for (int i = 0; i < 8; i++) vs_assert(buf[i] == 0x5a, "Encode wrote before the buffer position");
  for (int i = 8 + n; i < 32; i++) vs_assert(buf[i] == 0x5a, "Encode wrote past the reported length");
  if (n > 1) vs_assert((buf[8] & 0x7f) != 0, "encoding is not the shortest one");
  uint64_t got = 0;
  for (int i = 0; i < n; i++) { got = (got << 7) | (buf[8 + i] & 0x7f); vs_assert(((buf[8 + i] & 0x80) != 0) == (i + 1 < n), "continuation bit wrong"); }
  vs_assert((T)got == v, "encoded bytes do not denote the value");
  std::string s("ab"); V::AppendToString(v, &s);
  vs_assert(s.size() == (size_t)n + 2 && s[0] == 'a' && s[1] == 'b', "AppendToString length or prefix wrong");
  for (int i = 0; i < n; i++) vs_assert(s[2 + i] == buf[8 + i], "AppendToString differs from Encode");
  std::string s2("x"); OutputString<std::string> os(&s2); V::AppendToOutputString(v, &os);
  vs_assert(s2.size() == (size_t)n + 1 && s2[0] == 'x', "AppendToOutputString length or prefix wrong");
  for (int i = 0; i < n; i++) vs_assert(s2[1 + i] == buf[8 + i], "AppendToOutputString differs from Encode");
  for (int k = 0; k <= n + 1; k++) {
    const char* p = buf + 8;
    T r = V::Parse(buf + 8 + k, &p);
    if (k < n) vs_assert(r == RESULT_END_OF_DATA && p == buf + 8, "truncated integer not reported as end of data");
    else vs_assert(r == v && p == buf + 8 + n, "decode(encode(v)) != v");
  }
  vs_reach("rt");
}
extern "C" void vi_rt32() { roundtrip<int32_t>(31); }
extern "C" void vi_rt64() { roundtrip<int64_t>(63); }

template <class T> static void parse(uint64_t maxv) {
  size_t n = vs_param("n", 4);
  uint8_t b[16]; vs_bytes(b, n, "b"); b[n] = 0x80;
  size_t used = 0;
  int64_t want = rparse(b, n, maxv, &used);
  const char* p = (const char*)b;
  T r = VarintBE<T>::Parse((const char*)b + n, &p);
  vs_observe((uint64_t)(int64_t)r);
  if (want >= 0) { vs_reach("value"); vs_assert((int64_t)r == want, "parsed value differs"); vs_assert(p == (const char*)b + used, "wrong number of bytes consumed"); }
  else {
    if (want == -1) { vs_reach("overflow"); vs_assert(r == RESULT_ERROR, "overflowing integer not rejected"); }
    else if (want == -2) { vs_reach("truncated"); vs_assert(r == RESULT_END_OF_DATA, "truncated integer not reported as end of data"); }
    else vs_assert(r == RESULT_ERROR || r == RESULT_END_OF_DATA, "incomplete integer produced a value");
    vs_assert(p == (const char*)b, "position moved although no integer was parsed");
  }
  const char* q = (const char*)b;
  vs_assert(VarintBE<T>::Parse(NULL, &q) == RESULT_ERROR, "NULL limit not rejected");
}
extern "C" void vi_parse32() { parse<int32_t>(0x7FFFFFFF); }
extern "C" void vi_parse64() { parse<int64_t>(0x7FFFFFFFFFFFFFFFULL); }

// Header fields built on the integers: UInt32/checksum accept exactly 0..2^32-1, Int32/size 0..2^31-1.
extern "C" void vi_field() {
  size_t n = vs_param("n", 4); int k = vs_param("kind", 0);
  uint8_t b[24]; b[0] = 0xff; vs_bytes(b + 1, n, "b"); b[n + 1] = 0xff;
  size_t used = 0;
  int64_t want = k == 0 || k == 3 ? rparse(b + 1, n, 0x7FFFFFFF, &used) : rparse(b + 1, n, 0x7FFFFFFFFFFFFFFFULL, &used);
  bool early32 = (k == 1 || k == 2);
  VCDiffHeaderParser hp((const char*)b + 1, (const char*)b + 1 + n);
  int64_t got = 0; bool ok;
  if (k == 0) { int32_t v = 7; ok = hp.ParseInt32("f", &v); got = v; }
  else if (k == 1) { uint32_t v = 7; ok = hp.ParseUInt32("f", &v); got = v; }
  else if (k == 2) { VCDChecksum v = 7; ok = hp.ParseChecksum("f", &v); got = (int64_t)(uint64_t)v; }
  else { size_t v = 7; ok = hp.ParseSize("f", &v); got = (int64_t)v; }
  vs_observe(ok);
  if (want >= 0 && !(early32 && want > 0xFFFFFFFFLL)) {
    vs_reach("value");
    vs_assert(ok && got == want, "field value differs"); vs_assert(hp.ParsedSize() == used, "wrong number of bytes consumed");
    vs_assert(hp.GetResult() == RESULT_SUCCESS, "result not SUCCESS");
  } else if (want >= 0 || want == -1) {
    vs_reach("toobig"); vs_assert(!ok && hp.GetResult() == RESULT_ERROR, "out-of-range field accepted");
    unsigned char u; vs_assert(!hp.ParseByte(&u), "parsing continued after an error");
  } else if (want == -2 ) {
    vs_reach("truncated"); vs_assert(!ok, "truncated field accepted");
    if (!early32) vs_assert(hp.GetResult() == RESULT_END_OF_DATA, "truncated field not reported as end of data");
  } else vs_assert(!ok, "incomplete field accepted");
}
