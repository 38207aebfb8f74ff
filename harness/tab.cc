// C09: code-table writer.
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "google/vcdecoder.h"
#include "google/encodetable.h"
#include "google/output_string.h"
#include "codetable.h"
#include <string>
using namespace open_vcdiff;
static uint8_t g_d[70000]; static uint8_t g_t[REF_MAX_OUT]; static size_t g_tn; static uint8_t g_a[70000];
static RefDecoder R;
static size_t pick(const char* nm, size_t lo, size_t hi) { size_t v = (size_t)vs_u32(nm); vs_assume(v >= lo && v <= hi); return (size_t)vs_concretize(v); }
static const char* pn(const char* base, int j) { static char t[8][8]; static int k; char* o = t[k++ & 7]; int i = 0; while (base[i]) { o[i] = base[i]; i++; } o[i++] = (char)('1' + j); o[i] = 0; return o; }
// Instructions of every size up to 2^31-1: the output is parsed, not carried out.
extern "C" void tw_big() {
  size_t dn = vs_param("dn", 1000); bool il = vs_param("il", 0); int k = vs_param("k", 1); VCDiffCodeTableWriter w(il); vs_assert(w.Init(dn), "writer Init failed");
  std::string out; OutputString<std::string> os(&out); uint64_t sz[4], total = 0; int kind[4]; uint8_t run[4]; uint64_t ad[4];
  for (int j = 0; j < k; j++) {
    kind[j] = vs_param(pn("k", j), 3); if (kind[j] == 3) kind[j] = 1 + (int)vs_choose(2, "kind");
    uint64_t lo = vs_param(pn("lo", j), 1), hi = vs_param(pn("hi", j), 0x7fffffff); sz[j] = vs_u32("size"); vs_assume(sz[j] >= lo && sz[j] <= hi); vs_assume(total + sz[j] + dn <= 0x7fffffff);
    run[j] = 0; ad[j] = 0;
    if (kind[j] == 2) { run[j] = vs_u8("byte"); w.Run((size_t)sz[j], run[j]); } else { ad[j] = vs_param(pn("ad", j), 5); if (vs_param(pn("ar", j), 0)) ad[j] = dn + total - ad[j]; w.Copy((int32_t)ad[j], (size_t)sz[j]); }
    total += sz[j];
  }
  if (vs_param("ck", 0)) w.AddChecksum(vs_u32("sum"));
  w.Output(&os); const uint8_t* b = (const uint8_t*)out.data(); size_t n = out.size(), pos = 0; vs_observe(n); uint64_t v, enc, tl, dl, ilen, al, M = 0x7fffffff;
  bool ck = vs_param("ck", 0);
  vs_assert(n > 1 && b[pos++] == (ck ? 5 : 1), "window indicator");
  vs_assert(ref_varint(b, n, &pos, M, &v) == REF_ACCEPT && v == dn, "source segment length"); vs_assert(ref_varint(b, n, &pos, M, &v) == REF_ACCEPT && v == 0, "source segment position");
  vs_assert(ref_varint(b, n, &pos, M, &enc) == REF_ACCEPT, "length of the delta encoding"); vs_assert(enc == n - pos, "the announced length of the delta encoding is not its length");
  vs_assert(ref_varint(b, n, &pos, M, &tl) == REF_ACCEPT && tl == total, "the announced target length is not the sum of the instructions' sizes"); vs_assert(pos < n && b[pos++] == 0, "delta indicator");
  vs_assert(ref_varint(b, n, &pos, M, &dl) == REF_ACCEPT && ref_varint(b, n, &pos, M, &ilen) == REF_ACCEPT && ref_varint(b, n, &pos, M, &al) == REF_ACCEPT, "section lengths");
  if (ck) vs_assert(ref_varint(b, n, &pos, 0xffffffffu, &v) == REF_ACCEPT, "checksum");
  vs_assert(dl + ilen + al == n - pos, "section lengths do not add up"); if (il) vs_assert(dl == 0 && al == 0, "interleaved window has separate sections");
  size_t dp = pos, de = pos + (size_t)vs_concretize(dl), ip = de, ie = ip + (size_t)vs_concretize(ilen), ap = ie, ae = n; size_t& D = il ? ip : dp; size_t DE = il ? ie : de; size_t& A = il ? ip : ap; size_t AE = il ? ie : ae;
  RefTable t; ref_default_table(&t); uint64_t near_[4] = {0, 0, 0, 0}; int slot = 0, pend = -1; uint64_t here = dn;
  for (int j = 0; j < k; j++) {
    uint8_t op; int inst, mode; uint64_t s;
    if (pend >= 0) { inst = t.inst2[pend]; s = t.size2[pend]; mode = t.mode2[pend]; pend = -1; }
    else { vs_assert(ip < ie, "an instruction is missing"); op = (uint8_t)vs_concretize(b[ip++]); inst = t.inst1[op]; s = t.size1[op]; mode = t.mode1[op]; if (t.inst2[op]) pend = op; }
    if (s == 0) vs_assert(ref_varint(b, ie, &ip, M, &s) == REF_ACCEPT, "size missing");
    vs_assert(inst == (kind[j] == 2 ? rRUN : rCOPY), "another instruction than the one given"); vs_assert(s == sz[j], "another size than the one given");
    if (kind[j] == 2) { vs_assert(D < DE && b[D] == run[j], "RUN byte"); D++; vs_reach("run"); }
    else { vs_reach("copy"); if (mode < 6) { uint64_t a; vs_assert(ref_varint(b, AE, &A, M, &a) == REF_ACCEPT, "address missing"); a = mode == 0 ? a : mode == 1 ? here - a : near_[mode - 2] + a; vs_assert(a == ad[j], "another address than the one given"); }
      else { vs_assert(A < AE, "address missing"); A++; } near_[slot] = ad[j]; slot = (slot + 1) & 3; }
    here += s;
  }
  vs_assert(ip == ie && (il || (dp == de && ap == ae)) && pend < 0, "section bytes left over"); vs_reach("ok");
}
// k instructions; parameters per instruction j: kj (0 ADD, 1 COPY, 2 RUN, 3 any), loj..hij size range, alj..ahj address range
// (address -1: relative to here, i.e. here-1-...)
static void tw_body() {
  size_t dn = vs_param("dn", 64); bool il = vs_param("il", 0); int k = vs_param("k", 2), fl = vs_param("fl", il ? 1 : 0); bool custom = vs_param("tab", 0);
  for (size_t i = 0; i < dn; i++) g_d[i] = (uint8_t)(i * 7 + (i >> 5) + (i >> 10));
  for (size_t i = 0; i < 70000; i++) g_a[i] = (uint8_t)(i * 11 + 3);
  static VCDiffCodeTableData T; memcpy(&T, &VCDiffCodeTableData::kDefaultCodeTableData, sizeof T);
  if (custom) { // replace one opcode (by default 255, COPY 4 mode 8 + ADD 1) by another pair
    int o = vs_param("o", 255);
    T.inst1[o] = vs_param("t1", 1); T.size1[o] = vs_param("s1", 0); T.mode1[o] = vs_param("m1", 0); T.inst2[o] = vs_param("t2", 3); T.size2[o] = vs_param("s2", 0); T.mode2[o] = vs_param("m2", 0);
    o = vs_param("p", -1); if (o >= 0) { T.inst1[o] = vs_param("u1", 1); T.size1[o] = vs_param("v1", 0); T.mode1[o] = vs_param("n1", 0); T.inst2[o] = vs_param("u2", 0); T.size2[o] = vs_param("v2", 0); T.mode2[o] = vs_param("n2", 0); }
    if (vs_param("tab", 0) == 2) { // any kind of pair with small, large or explicit sizes
      static const uint8_t ss[] = {0, 1, 4, 5, 19, 200}; o = vs_param("o", 255); int t1 = vs_param("t1", -1), t2 = vs_param("t2", -1); if (t1 < 0) t1 = (int)vs_choose(4, "t1"); if (t2 < 0) t2 = (int)vs_choose(4, "t2");
      T.inst1[o] = t1; T.inst2[o] = t2; T.size1[o] = t1 ? ss[vs_choose(6, "s1")] : 0; T.size2[o] = t2 ? ss[vs_choose(6, "s2")] : 0; T.mode1[o] = t1 == 3 ? vs_choose(2, "m1") * 2 : 0; T.mode2[o] = t2 == 3 ? vs_choose(2, "m2") * 2 : 0; }
    vs_assert(T.Validate(8), "the table is valid");
  }
  VCDiffCodeTableWriter wd(il), wc(il, 4, 3, T, 8); VCDiffCodeTableWriter& w = custom ? wc : wd;
  vs_assert(w.Init(dn), "writer Init failed");
  std::string out; OutputString<std::string> os(&out);
  int rounds = vs_param("rounds", 1);
  size_t base = 0;
  w.WriteHeader(&os, fl);
  for (int r = 0; r < rounds; r++) {
    if (r && vs_param("reinit", 1)) { vs_assert(w.Init(dn), "writer Init failed"); }
    base = g_tn; bool any = false;
    for (int j = 0; j < k; j++) {
      int kind = vs_param(pn("k", j), 3); if (kind == 3) kind = (int)vs_choose(3, "kind");
      size_t sz = pick("size", vs_param(pn("lo", j), 1), vs_param(pn("hi", j), 20));
      size_t here = dn + (g_tn - base);
      if (kind == 0) { uint8_t* p = new uint8_t[sz]; memcpy(p, g_a + j, sz); if (vs_param("sd", 1)) p[0] = vs_u8("data"); w.Add((const char*)p, sz); memcpy(g_t + g_tn, p, sz); g_tn += sz; delete[] p; vs_reach("add"); }
      else if (kind == 2) { uint8_t c = vs_u8("byte"); w.Run(sz, c); for (size_t i = 0; i < sz; i++) g_t[g_tn++] = c; vs_reach("run"); }
      else {
        int64_t al = vs_param(pn("al", j), 0), ah = vs_param(pn("ah", j), 3); if (al < 0) { al = (int64_t)here + al; ah = (int64_t)here + ah; }
        size_t ad = pick("addr", (size_t)al, (size_t)ah); vs_assume(ad < here);
        w.Copy((int32_t)ad, sz); for (size_t i = 0; i < sz; i++) { size_t a = ad + i; g_t[g_tn] = a < dn ? g_d[a] : g_t[base + a - dn]; g_tn++; } vs_reach("copy");
      }
      any = true;
    }
    if (fl & 2) w.AddChecksum(ref_adler32(g_t + base, g_tn - base));
    w.Output(&os); (void)any;
  }
  vs_observe(out.size());
  const uint8_t* b = (const uint8_t*)out.data(); size_t n = out.size();
  R.init(g_d, dn);
  if (custom) { memcpy(R.tab.inst1, T.inst1, 256); memcpy(R.tab.inst2, T.inst2, 256); memcpy(R.tab.size1, T.size1, 256); memcpy(R.tab.size2, T.size2, 256); memcpy(R.tab.mode1, T.mode1, 256); memcpy(R.tab.mode2, T.mode2, 256); }
  int rr = R.file(b, n);
  vs_assert(rr == REF_ACCEPT, "the writer's output is not a valid delta for the instructions given");
  vs_assert(R.out_len == g_tn, "the writer's output describes a different length");
  for (size_t i = 0; i < g_tn; i++) vs_assert(R.out[i] == g_t[i], "the writer's output describes different data");
  vs_assert(R.windows == rounds, "one window per Output() call expected");
  if (!custom) {
    std::string o2; VCDiffDecoder d; bool ok = d.Decode((const char*)g_d, dn, out, &o2);
    vs_assert(ok && o2.size() == g_tn, "the decoder rejects the writer's output");
    for (size_t i = 0; i < g_tn; i++) vs_assert((uint8_t)o2[i] == g_t[i], "decoded data differs");
    vs_assert(n >= 5 && b[3] == (fl ? 'S' : 0) && b[4] == 0, "file header");
    vs_assert((fl & 2) ? R.checksums == rounds : R.checksums == 0, "checksum presence");
    vs_assert(il ? (R.inter == rounds) : true, "interleaved layout");
  }
  vs_reach("ok");
}
extern "C" void tw_seq() {
  if (!vs_param("leak", 0)) { tw_body(); return; }
  { VCDiffCodeTableWriter w(false); w.Init(0); std::string o; VCDiffStreamingDecoder d; d.StartDecoding("", 0); d.FinishDecoding(); }   // one-time tables exist from here on
  uint64_t h0 = vs_heap(); tw_body(); vs_assert(vs_heap() == h0, "the writer leaked memory"); vs_reach("freed");
}
