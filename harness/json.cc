// C14: JSON output.
#include "enc.h"
#include "jsonp.h"
#include "google/jsonwriter.h"
static JsonDelta J;
static bool ascii(const uint8_t* p, size_t n) { bool a = true; for (size_t i = 0; i < n; i++) a = a & (p[i] < 128); return a; }
static void same(const std::string& s, const char* what) {
  bool ok = J.parse(g_d, g_dn, (const uint8_t*)s.data(), s.size());
  if (!ok) vs_fail(J.err ? J.err : what);
  vs_assert(J.n == g_tn, "JSON delta describes a different length"); for (size_t i = 0; i < g_tn; i++) vs_assert(J.out[i] == g_t[i], "JSON delta does not reproduce the target");
}
static void mask_dict() { for (size_t i = 0; i < g_dn; i++) g_d[i] &= 127; }
// Whole encodings through the public API.
extern "C" void js_enc() {
  build_dict(); if (vs_param("d8", 0) == 2) for (size_t i = 0; i + vs_param("tail", 2) < g_dn; i++) g_d[i] &= 127; else if (!vs_param("d8", 0)) mask_dict(); build_target();
  if (vs_param("t7", 0)) for (size_t i = 0; i < g_tn; i++) if (vs_param("t7", 0) == 2 || (vs_param("t7", 0) == 3 && i + 1 < g_tn) || (vs_param("t7", 0) == 1 && i >= (size_t)vs_param("p", 1))) g_t[i] &= 127;
  int how = vs_param("how", 0), ch = vs_param("chunks", 1); bool match = vs_param("match", 1); std::string out;
  bool da = ascii(g_d, g_dn), ta = ascii(g_t, g_tn), ok;
  vs_assume(g_tn > 0);
  if (how == 0) { VCDiffEncoder e((const char*)g_d, g_dn); e.SetFormatFlags(VCD_FORMAT_JSON); e.SetTargetMatching(match); ok = e.Encode((const char*)g_t, g_tn, &out);
    if (ok && vs_param("again", 0)) { std::string o2; vs_assert(e.Encode((const char*)g_t, g_tn, &o2), "second Encode failed"); vs_assert(o2 == out, "second Encode gives different JSON"); } }
  else {
    HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "HashedDictionary::Init failed");
    VCDiffStreamingEncoder* pe = how == 2 ? new VCDiffStreamingEncoder(&hd, VCD_FORMAT_JSON, match) : new VCDiffStreamingEncoder(&hd, how == 1 ? VCD_FORMAT_JSON : VCD_STANDARD_FORMAT, match, new JSONCodeTableWriter);
    VCDiffStreamingEncoder& e = *pe; ok = e.StartEncoding(&out);
    if (ok) { size_t pos = 0; for (int c = 0; c < ch && ok; c++) { size_t left = g_tn - pos, take = c == ch - 1 ? left : (size_t)vs_choose(left + 1, "cut"); ok = e.EncodeChunk((const char*)g_t + pos, take, &out); pos += take; } if (ok) ok = e.FinishEncoding(&out); }
    delete pe;
  }
  vs_observe(ok); vs_observe(out.size());
  if (!da || !ta) { vs_reach("nonascii"); vs_assert(!ok, "non-ASCII data was accepted by the JSON encoder"); return; }
  vs_assert(ok, "encoding ASCII data as JSON failed");
  same(out, "invalid JSON"); vs_reach("ok"); if (J.copies) vs_reach("copy"); if (!match) vs_assert(J.tcopies == 0, "COPY from target data although target matching is off");
}
// The writer on its own: arbitrary instruction sequences, arbitrary bytes in the data.
extern "C" void js_seq() {
  g_dn = vs_param("dn", 300); for (size_t i = 0; i < g_dn; i++) g_d[i] = (uint8_t)(33 + (i * 7 + (i >> 4)) % 60);
  int k = vs_param("k", 2), lo = vs_param("lo", 1), hi = vs_param("hi", 2); JSONCodeTableWriter w; std::string out; OutputString<std::string> os(&out);
  for (int round = 0; round < (int)vs_param("rounds", 1); round++) {
    size_t ws = 0; out.clear(); g_tn = 0; vs_assert(w.Init(g_dn), "Init failed"); w.WriteHeader(&os, VCD_FORMAT_JSON);
    for (int j = 0; j < k; j++) {
      int kind = vs_param("kind", -1) >= 0 ? (int)vs_param("kind", 0) : (int)vs_choose(3, "kind"); size_t sz = lo + vs_choose(hi - lo + 1, "size");
      if (kind == 0) { if (vs_param("lit", 0)) for (size_t i = 0; i < sz; i++) g_t[g_tn + i] = (uint8_t)(97 + (g_tn + i) % 26); else vs_bytes(g_t + g_tn, sz, "data"); w.Add((const char*)g_t + g_tn, sz); g_tn += sz; vs_reach("add"); }
      else if (kind == 1) { uint8_t c = vs_param("lit", 0) ? (uint8_t)(65 + j) : vs_u8("byte"); w.Run(sz, c); for (size_t i = 0; i < sz; i++) g_t[g_tn++] = c; vs_reach("run"); }
      else if (vs_param("tadr", 0) && g_tn > ws) { size_t ad = vs_choose(g_tn - ws, "taddr"); w.Copy((int32_t)(g_dn + ad), sz); for (size_t i = 0; i < sz; i++) { g_t[g_tn] = g_t[ws + ad + i]; g_tn++; } vs_reach(ws ? "wcopy" : "tcopy"); }  // addresses are per window
      else { size_t ad = vs_param("ad", 0) + vs_choose(vs_param("an", 3), "addr"); w.Copy((int32_t)ad, sz); for (size_t i = 0; i < sz; i++) { size_t a = ad + i; g_t[g_tn] = a < g_dn ? g_d[a] : g_t[a - g_dn]; g_tn++; } vs_reach("copy"); }
      if (vs_param("flush", 0) && (j == 0 || (vs_param("flush", 0) == 2 && j % 2 == 0))) { w.Output(&os); ws = g_tn; }
    }
    w.Output(&os); w.FinishEncoding(&os);
    vs_observe(out.size()); same(out, "invalid JSON");
  }
  vs_reach("ok");
}
// The writer's ASCII gate.
extern "C" void js_ascii() {
  JSONCodeTableWriter w; uint8_t b[8]; size_t n = vs_param("n", 4); vs_bytes(b, n, "b");
  bool a = ascii(b, n); vs_assert(w.VerifyDictionary((const char*)b, n) == a, "VerifyDictionary verdict"); vs_assert(w.VerifyChunk((const char*)b, n) == a, "VerifyChunk verdict"); vs_reach(a ? "ascii" : "not"); 
}
