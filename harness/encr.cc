// C13: encoder objects carry nothing over from one use to the next.
#include "enc.h"
static uint8_t g_u[4000]; static size_t g_un;
static void eq(const std::string& a, const std::string& b, const char* m) { vs_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); i++) vs_assert(a[i] == b[i], m); }
// first job's target: g_u, second job's: g_t
static void first_target() { g_un = 0; int uk = vs_param("uk", 0); size_t un = vs_param("un", 20); uint8_t k = 7;
  for (size_t i = 0; i < un; i++) g_u[g_un++] = uk == 1 ? g_d[i % (g_dn ? g_dn : 1)] : uk == 2 ? 'q' : (uint8_t)((k = (uint8_t)(k * 5 + 3)) | 1);
  if (un) g_u[un / 2] = vs_u8("u"); if (vs_param("json", 0)) for (size_t i = 0; i < un; i++) if (i != un / 2) g_u[i] &= 127; }
static bool job(VCDiffStreamingEncoder& e, const uint8_t* p, size_t n, int ch, std::string* out) {
  if (!e.StartEncoding(out)) return false; size_t pos = 0;
  for (int c = 0; c < ch; c++) { size_t left = n - pos, take = c == ch - 1 ? left : left / 2; if (!e.EncodeChunk((const char*)p + pos, take, out)) return false; pos += take; }
  return e.FinishEncoding(out);
}
static void prep() { build_dict(); if (vs_param("json", 0)) for (size_t i = 0; i < g_dn; i++) g_d[i] &= 127; build_target(); if (vs_param("json", 0)) for (size_t i = 0; i < g_tn; i++) if (i) g_t[i] &= 127; first_target(); }
// one encoder, two jobs, compared with a new encoder for the second job
extern "C" void enc_reuse() {
  prep(); int flags = vs_param("json", 0) ? 4 : vs_param("flags", 0), ch = vs_param("chunks", 1); bool match = vs_param("match", 1); int how = vs_param("how", 0);
  HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "Init");
  std::string a, b, junk; bool r1, r2;
  { HashedDictionary h2((const char*)g_d, g_dn); vs_assert(h2.Init(), "Init"); VCDiffStreamingEncoder n(&h2, flags, match); r2 = job(n, g_t, g_tn, ch, &b); }
  if (how == 0) { VCDiffStreamingEncoder e(&hd, flags, match); job(e, g_u, g_un, ch, &junk); r1 = job(e, g_t, g_tn, ch, &a); }
  else if (how == 1) { VCDiffEncoder e((const char*)g_d, g_dn); e.SetFormatFlags(flags); e.SetTargetMatching(match); junk = "junk"; e.Encode((const char*)g_u, g_un, &junk); a = junk; r1 = e.Encode((const char*)g_t, g_tn, &a); }   // replaces old contents
  else if (how == 2) { VCDiffStreamingEncoder e(&hd, flags, match); e.StartEncoding(&junk); e.EncodeChunk((const char*)g_u, g_un, &junk); r1 = job(e, g_t, g_tn, ch, &a); }                     // first job abandoned
  else if (how == 3) { VCDiffStreamingEncoder e(&hd, flags, match); e.StartEncoding(&junk); e.EncodeChunk((const char*)g_u, g_un, &junk); e.EncodeChunk((const char*)g_u, 0, &junk); e.FinishEncoding(&junk); r1 = job(e, g_t, g_tn, ch, &a); }  // last chunk empty
  else if (how == 4) { VCDiffStreamingEncoder e(&hd, flags, match); r1 = job(e, g_t, g_tn, ch, &a); std::string c; bool r3 = job(e, g_t, g_tn, ch, &c); vs_assert(r1 == r3, "same input, different verdict"); eq(a, c, "encoding the same target twice gives different deltas"); }
  else { VCDiffStreamingEncoder e(&hd, flags, match); a = "prefix"; r1 = job(e, g_t, g_tn, ch, &a); if (r1) { vs_assert(a.size() >= 6 && !memcmp(a.data(), "prefix", 6), "streaming encoder changed earlier output"); a = a.substr(6); } }
  vs_observe(r1); vs_observe(a.size());
  vs_assert(r1 == r2, "a reused encoder's verdict differs from a new encoder's"); if (r1) { vs_reach("ok"); eq(a, b, "a reused encoder's output differs from a new encoder's"); } else vs_reach("refused");
}
// two encoders sharing a dictionary, calls interleaved
extern "C" void enc_share() {
  prep(); int flags = vs_param("flags", 0); bool match = vs_param("match", 1);
  std::string a1, b1, a2, b2; HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "Init");
  { HashedDictionary h2((const char*)g_d, g_dn); vs_assert(h2.Init(), "Init"); VCDiffStreamingEncoder x(&h2, flags, match), y(&h2, flags ^ 3, match); vs_assert(job(x, g_t, g_tn, 2, &a2) && job(y, g_u, g_un, 1, &b2), "encode"); }
  { VCDiffStreamingEncoder x(&hd, flags, match), y(&hd, flags ^ 3, match); size_t h = g_tn / 2;
    vs_assert(x.StartEncoding(&a1) && y.StartEncoding(&b1), "start"); vs_assert(x.EncodeChunk((const char*)g_t, h, &a1), "chunk"); vs_assert(y.EncodeChunk((const char*)g_u, g_un, &b1), "chunk"); vs_assert(x.EncodeChunk((const char*)g_t + h, g_tn - h, &a1), "chunk"); vs_assert(y.FinishEncoding(&b1) && x.FinishEncoding(&a1), "finish"); }
  vs_observe(a1.size()); eq(a1, a2, "encoders sharing a dictionary influence each other"); eq(b1, b2, "encoders sharing a dictionary influence each other"); vs_reach("ok");
}
// a StartEncoding that was refused (JSON needs an ASCII dictionary) starts nothing
extern "C" void enc_failstart() {
  g_dn = vs_param("dn", 20); for (size_t i = 0; i < g_dn; i++) g_d[i] = (uint8_t)('a' + i); size_t at = vs_choose(g_dn, "at"); g_d[at] = vs_u8("x"); vs_assume(g_d[at] >= 128);
  HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "Init"); VCDiffStreamingEncoder e(&hd, VCD_FORMAT_JSON, true); std::string out;
  vs_assert(!e.StartEncoding(&out), "JSON encoder accepts a non-ASCII dictionary"); int s = vs_choose(2, "seq");
  if (s == 0) vs_assert(!e.EncodeChunk("abc", 3, &out), "EncodeChunk after a refused StartEncoding succeeded");
  vs_assert(!e.FinishEncoding(&out), "FinishEncoding after a refused StartEncoding succeeded"); vs_assert(out.empty(), "a refused call produced output"); vs_reach("ok");
}
// calls out of order are refused and write nothing
extern "C" void enc_misuse() {
  prep(); HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "Init"); VCDiffStreamingEncoder e(&hd, vs_param("flags", 0), true); std::string out, o2; int s = vs_choose(4, "seq");
  if (s == 0) vs_assert(!e.EncodeChunk((const char*)g_t, g_tn, &out), "EncodeChunk without StartEncoding succeeded");
  else if (s == 1) vs_assert(!e.FinishEncoding(&out), "FinishEncoding without StartEncoding succeeded");
  else { vs_assert(job(e, g_t, g_tn, 1, &o2), "encode"); if (s == 2) vs_assert(!e.EncodeChunk((const char*)g_t, g_tn, &out), "EncodeChunk after FinishEncoding succeeded"); else vs_assert(!e.FinishEncoding(&out), "second FinishEncoding succeeded"); }
  vs_assert(out.empty(), "a refused call produced output");
  // and the object still works afterwards
  std::string a, b; { VCDiffStreamingEncoder n(&hd, vs_param("flags", 0), true); vs_assert(job(n, g_t, g_tn, 1, &b), "encode"); } vs_assert(job(e, g_t, g_tn, 1, &a), "encode after a refused call failed"); eq(a, b, "output after a refused call differs"); vs_reach("ok");
}
