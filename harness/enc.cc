// Encoder harnesses through the public API: C01 round trip, C11 RFC conformance, C17 safety, C18 efficacy.
#include "enc.h"
static RefDecoder R;

static bool real_decode(const std::string& delta, std::string* out) {
  VCDiffDecoder d; return d.Decode((const char*)g_d, g_dn, delta, out);
}
static void same_as_target(const uint8_t* p, size_t n, const char* m1, const char* m2) {
  vs_assert(n == g_tn, m1);
  for (size_t i = 0; i < g_tn; i++) vs_assert(p[i] == g_t[i], m2);
}
// encode to a byte string through the public API, k chunks
static bool encode(int flags, bool match, std::string* delta) {
  int ch = vs_param("chunks", 1);
  if (ch == 0) { VCDiffEncoder e((const char*)g_d, g_dn); e.SetFormatFlags(flags); e.SetTargetMatching(match); return e.Encode((const char*)g_t, g_tn, delta); }
  HashedDictionary hd((const char*)g_d, g_dn); if (!hd.Init()) return false;
  VCDiffStreamingEncoder e(&hd, flags, match);
  if (!e.StartEncoding(delta)) return false;
  size_t pos = 0, step = (size_t)vs_param("cs", 0);
  if (step) { for (; pos < g_tn; pos += step) if (!e.EncodeChunk((const char*)g_t + pos, g_tn - pos < step ? g_tn - pos : step, delta)) return false; return e.FinishEncoding(delta); }   // many chunks of cs bytes
  for (int c = 0; c < ch; c++) {
    size_t left = g_tn - pos, take = c == ch - 1 ? left : (vs_param("cut", -1) >= 0 ? (size_t)vs_param("cut", 0) : (size_t)vs_choose(left + 1, "cut"));
    if (take > left) take = left;
    if (!e.EncodeChunk((const char*)g_t + pos, take, delta)) return false;
    pos += take;
  }
  return e.FinishEncoding(delta);
}
extern "C" void rt_main() {
  build_dict(); build_target();
  int flags = vs_param("flags", 0); bool match = vs_param("match", 1);
  std::string delta("x"); if (vs_param("chunks", 1)) delta.clear();
  bool ok = encode(flags, match, &delta);
  vs_assert(ok, "encoder reported failure");
  std::string out;
  bool dok = real_decode(delta, &out);
  vs_observe(delta.size()); vs_observe(dok);
  vs_assert(dok, "the decoder rejects the encoder's own output");
  same_as_target((const uint8_t*)out.data(), out.size(), "decoded length differs from the target", "decoded byte differs from the target");
  vs_reach("ok");
  if (delta.size() < g_tn) vs_reach("smaller");
}
// The delta as judged by an independent RFC 3284 decoder, plus format facts.
extern "C" void rt_ref() {
  build_dict(); build_target();
  int flags = vs_param("flags", 0); bool match = vs_param("match", 1);
  std::string delta; vs_assert(encode(flags, match, &delta), "encoder reported failure");
  const uint8_t* b = (const uint8_t*)delta.data(); size_t n = delta.size();
  vs_assert(n >= 5 && b[0] == 0xD6 && b[1] == 0xC3 && b[2] == 0xC4 && b[4] == 0, "file header wrong");
  vs_assert(b[3] == (flags ? 'S' : 0), "header version does not match the requested format");
  R.init(g_d, g_dn); int r = R.file(b, n);
  if (n == 5) { vs_assert(g_tn == 0, "no window although the target is not empty"); vs_reach("empty"); return; }
  vs_assert(r == REF_ACCEPT, "output is not a valid VCDIFF file for the reference decoder");
  same_as_target(R.out, R.out_len, "reference-decoded length differs from the target", "reference-decoded byte differs from the target");
  if (!flags) vs_assert(R.ext == 0, "standard-format output uses a format extension");
  if (flags & 2) { vs_assert(R.checksums == R.windows, "checksum requested but missing from a window"); vs_reach("checksum"); }
  else vs_assert(R.checksums == 0, "checksum present although not requested");
  vs_assert((flags & 1) ? R.separate == 0 : R.inter == 0, "section layout does not match the requested format");
  if (!match) vs_assert(R.tcopies == 0, "COPY from target data although target matching is off");
  vs_assert(R.spans == 0, "COPY spans the boundary between dictionary and target");
  if (R.copies) vs_reach("copy"); vs_reach("ok"); vs_observe(n);
}
// Encoder safety: exactly-sized input blocks, undefined-behaviour traps, leaks, termination, bounded expansion.
extern "C" void enc_safe() {
  build_dict(); build_target(); int flags = vs_param("flags", 0), ch = vs_param("chunks", 1); bool match = vs_param("match", 1);
  { HashedDictionary hd("dictionary dictionary dictionary dictionary", 43); hd.Init(); VCDiffStreamingEncoder e(&hd, flags, match); std::string o; e.StartEncoding(&o); e.EncodeChunk("dictionary dictionary dictionary!", 33, &o); e.FinishEncoding(&o); }   // one-time tables exist from here on
  uint64_t h0 = vs_heap(); vs_budget(vs_param("budget", 30000000));
  { std::string out; char* d = new char[g_dn ? g_dn : 1]; memcpy(d, g_d, g_dn);
    { HashedDictionary hd(g_dn ? d : "", g_dn); vs_assert(hd.Init(), "HashedDictionary::Init failed");
      if (!vs_param("keepd", 0)) { memset(d, 0xee, g_dn); delete[] d; d = 0; }        // the dictionary is copied: the caller's buffer may go away
      VCDiffStreamingEncoder e(&hd, flags, match); vs_assert(e.StartEncoding(&out), "StartEncoding failed"); size_t pos = 0;
      for (int c = 0; c < ch; c++) { size_t left = g_tn - pos, take = c == ch - 1 ? left : (size_t)vs_choose(left + 1, "cut"); char* t = new char[take ? take : 1]; memcpy(t, g_t + pos, take); vs_assert(e.EncodeChunk(t, take, &out), "EncodeChunk failed"); delete[] t; pos += take; }
      vs_assert(e.FinishEncoding(&out), "FinishEncoding failed"); }
    vs_observe(out.size()); vs_assert(out.size() <= g_tn + 5 + 64 * (size_t)ch, "delta is much larger than the target");
    delete[] d; }
  vs_assert(vs_heap() == h0, "encoder leaked memory"); vs_reach("ok");
}
// the whole delta is small when the target is (nearly) contained in the dictionary or in itself
extern "C" void enc_small() {
  build_dict(); build_target(); std::string out; vs_assert(encode(vs_param("flags", 0), vs_param("match", 1), &out), "encode failed");
  vs_observe(out.size()); vs_assert(out.size() <= g_tn - g_common + 5 + 64 + 32 * (vs_param("chunks", 1) > 1 ? vs_param("chunks", 1) - 1 : 0), "a common run was not compressed"); vs_reach("ok");
}
