// Decoder harnesses.
#include "dech.h"
static bool impl_decode(const Buf& b, size_t dictn, std::string* out, int allow = 1) {
  VCDiffStreamingDecoder dec;
  if (!allow) dec.SetAllowVcdTarget(false);
  dec.StartDecoding((const char*)g_dict, dictn);
  bool ok = dec.DecodeChunk((const char*)b.b, b.n, out);
  bool fin = dec.FinishDecoding();
  if (!ok) vs_assert(!fin, "FinishDecoding succeeded after DecodeChunk failed");
  return ok && fin;
}
static void compare(bool ok, const std::string& out, int r) {
  vs_observe(ok); vs_observe(out.size());
  if (r == REF_UNSPECIFIED) { vs_reach("unspecified"); return; }
  if (r == REF_ACCEPT) {
    vs_reach("accept");
    if (R.copies) vs_reach("copy"); if (R.adds) vs_reach("add"); if (R.runs) vs_reach("run"); if (R.windows > 1) vs_reach("two-windows");
    vs_assert(ok, "well-formed delta was rejected");
    vs_assert(out.size() == R.out_len, "decoded length differs from the reference decoder");
  } else {
    vs_reach(r == REF_REJECT ? "reject" : "truncated");
    vs_assert(!ok, "malformed or truncated delta was accepted");
    vs_assert(out.size() <= R.out_len || r == REF_TRUNCATED, "output beyond what the delta describes");
  }
  size_t n = out.size(); if (n > R.out_len) n = R.out_len;
  for (size_t i = 0; i < n; i++) vs_assert((uint8_t)out[i] == R.out[i], "decoded byte differs from the reference decoder");
}


extern "C" void dec_ref() {
  size_t dictn = vs_param("dict", 16);
  Buf b; build_delta(b, dictn);
  R.init(g_dict, dictn); R.allow_target = vs_param("allow", 1);
  int r = R.file(b.b, b.n);
  if (R.badcache) { vs_reach("badcache"); vs_allow_exit(1); }    // debug builds end the process on invalid cache sizes
  std::string out; bool ok = impl_decode(b, dictn, &out, vs_param("allow", 1));
  compare(ok, out, r);
}
