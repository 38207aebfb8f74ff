// C04 chunking, C05 size limits, C13 reuse (decoder side), C02 safety, C16.
#include "dech.h"
#include <new>

struct Res { bool chunks_ok, fin; std::string out; };
// Feeds the bytes in pieces; every piece lives in its own exactly-sized block that is gone after the call.
static void feed(VCDiffStreamingDecoder& dec, const uint8_t* p, size_t n, std::string* out, bool* ok) {
  if (!*ok) return;
  char* c = new char[n ? n : 1]; if (n) memcpy(c, p, n);
  size_t before = out->size(); uint8_t first = before ? (uint8_t)(*out)[0] : 0, last = before ? (uint8_t)(*out)[before - 1] : 0;
  *ok = dec.DecodeChunk(c, n, out);
  vs_assert(out->size() >= before, "DecodeChunk removed output");
  if (before) vs_assert((uint8_t)(*out)[0] == first && (uint8_t)(*out)[before - 1] == last, "DecodeChunk changed earlier output");
  delete[] c;
}
static void decode_parts(const Buf& b, size_t dictn, int allow, int mode, Res* r) {
  VCDiffStreamingDecoder dec; if (!allow) dec.SetAllowVcdTarget(false);
  dec.StartDecoding((const char*)g_dict, dictn);
  r->out = "P"; bool ok = true; size_t n = b.n;
  if (mode == 0) feed(dec, b.b, n, &r->out, &ok);
  else if (mode == 1) for (size_t i = 0; i < n; i++) feed(dec, b.b + i, 1, &r->out, &ok);
  else if (mode == 2) { size_t c = vs_choose(n + 1, "cut"); feed(dec, b.b, c, &r->out, &ok); feed(dec, b.b + c, n - c, &r->out, &ok); }
  else if (mode == 3) { size_t c = vs_choose(n + 1, "cut"), c2 = c + vs_choose(n - c + 1, "cut2"); feed(dec, b.b, c, &r->out, &ok); feed(dec, b.b + c, c2 - c, &r->out, &ok); feed(dec, b.b + c2, n - c2, &r->out, &ok); }
  else if (mode == 4) for (size_t i = 0; i < n; i++) { feed(dec, b.b + i, 0, &r->out, &ok); feed(dec, b.b + i, 1, &r->out, &ok); if (i + 1 == n) feed(dec, b.b + i, 0, &r->out, &ok); }
  else { size_t k = mode; for (size_t i = 0; i < n; i += k) feed(dec, b.b + i, n - i < k ? n - i : k, &r->out, &ok); }   // pieces of k bytes
  r->chunks_ok = ok; r->fin = vs_param("nofin", 0) ? false : dec.FinishDecoding();   // nofin: the object is destroyed in the middle of a job
  if (!ok) vs_assert(!r->fin, "FinishDecoding succeeded after DecodeChunk failed");
}
extern "C" void dec_chunk() {
  size_t dictn = vs_param("dict", 16); int allow = vs_param("allow", 1), mode = vs_param("m", 2);
  Buf b; build_delta(b, dictn);
  R.init(g_dict, dictn); R.allow_target = allow; int rr = R.file(b.b, b.n);
  if (R.badcache) vs_allow_exit(1);
  Res w, c; decode_parts(b, dictn, allow, 0, &w); decode_parts(b, dictn, allow, mode, &c);
  vs_observe(w.chunks_ok); vs_observe(w.fin); vs_observe(c.out.size());
  vs_assert(w.chunks_ok == c.chunks_ok, "DecodeChunk's verdict depends on how the delta is split");
  vs_assert(w.fin == c.fin, "FinishDecoding's verdict depends on how the delta is split");
  if (w.chunks_ok) {
    vs_reach(w.fin ? "accept" : "incomplete");
    vs_assert(w.out.size() == c.out.size(), "output length depends on how the delta is split");
    for (size_t i = 0; i < w.out.size(); i++) vs_assert(w.out[i] == c.out[i], "output depends on how the delta is split");
  } else {
    vs_reach("reject"); if (c.out.size() > 1) vs_reach("partial-output");
    // output delivered before the error was noticed must be a prefix of what the delta describes
    vs_assert(c.out[0] == 'P', "earlier output changed");
    if (rr != REF_UNSPECIFIED) { vs_assert(c.out.size() - 1 <= R.out_len, "more output than the delta describes");
      for (size_t i = 1; i < c.out.size(); i++) vs_assert((uint8_t)c.out[i] == R.out[i - 1], "output before the error differs from the delta's meaning"); }
  }
  if (w.fin && rr != REF_UNSPECIFIED) { vs_assert(w.out.size() - 1 == R.out_len, "length differs from the reference"); for (size_t i = 1; i < w.out.size(); i++) vs_assert((uint8_t)w.out[i] == R.out[i - 1], "output differs from the reference"); }
}
// Safety: nothing but memory safety, UB traps, termination and no unrequested exit.
extern "C" void dec_safe() {
  size_t dictn = vs_param("dict", 16); int mode = vs_param("m", 0);
  Buf b; build_delta(b, dictn);
#ifdef REF_CUSTOM
  { R.init(g_dict, dictn); if (vs_param("sh", 0) == 4) { R.file(b.b, b.n); if (R.badcache) vs_allow_exit(1); } }
#endif
  vs_budget(vs_param("budget", 3000000));
  { std::string o; VCDiffStreamingDecoder w; w.StartDecoding("", 0); static const char d[] = {(char)0xD6, (char)0xC3, (char)0xC4, 0, 0, 0, 7, 1, 0, 1, 1, 0, 'x', 2}; w.DecodeChunk(d, sizeof d, &o); w.FinishDecoding(); }   // one-time tables exist from here on
  uint64_t h0 = vs_heap();
  { Res r; if (vs_param("lim", 0)) vs_alloc_limit(vs_param("lim", 0)); decode_parts(b, dictn, vs_param("allow", 1), mode, &r); vs_alloc_limit(0); vs_observe(r.chunks_ok); vs_observe(r.fin); if (r.fin) vs_reach("accept"); else vs_reach("reject"); }
  vs_assert(vs_heap() == h0, "decoder leaked memory");
}
// ---- C05: limits ----
static void put_run(Buf& b, bool il, uint64_t t) { // window of t bytes made of one RUN
  Buf i, d; i.u8(0); i.vi(t); (il ? i : d).u8('r'); b.u8(0); Buf e; e.vi(t); e.u8(0); e.vi(d.n); e.vi(i.n); e.vi(0); b.vi(e.n + d.n + i.n); b.put(e); b.put(d); b.put(i);
}
// k complete windows, then a window header announcing a symbolic length, all under symbolic limits
extern "C" void lim_hdr() {
  int k = vs_param("k", 0), nb = vs_param("nb", 5), il = vs_param("il", 0); int late = vs_param("late", 0); bool big = vs_param("big", 0);
  uint64_t mw = big ? vs_u64("maxwin") : vs_u8("maxwin"), mf = big ? vs_u64("maxfile") : vs_u8("maxfile");
  VCDiffStreamingDecoder dec;
  bool sw = dec.SetMaximumTargetWindowSize(mw);
  vs_assert(sw == (mw <= 0x7fffffff), "SetMaximumTargetWindowSize accepts exactly the sizes up to INT32_MAX");
  if (!sw) { vs_reach("win-refused"); mw = 67108864; }
  uint64_t mf0 = 67108864;
  if (!late) { vs_assert(dec.SetMaximumTargetFileSize(mf), "SetMaximumTargetFileSize failed"); mf0 = mf; }
  dec.StartDecoding("", 0);
  std::string out; uint64_t total = 0; bool ok = true;
  Buf h; h.hdr(il ? 'S' : 0); ok = dec.DecodeChunk((const char*)h.b, h.n, &out); vs_assert(ok, "file header refused");
  for (int w = 0; w < k && ok; w++) {
    uint64_t t = 1 + vs_choose(vs_param("tmax", 4), "t"); Buf b; put_run(b, il, t);
    bool fits = t <= mw && total + t <= mf0;
    ok = dec.DecodeChunk((const char*)b.b, b.n, &out);
    vs_assert(ok == fits, fits ? "window within the limits was refused" : "window beyond the limits was accepted");
    if (ok) { total += t; vs_assert(out.size() == total, "window within the limits not decoded"); }
  }
  if (!ok) { vs_reach("early"); vs_assert(out.size() == total, "output grew after a refused window"); return; }
  if (late) { vs_assert(dec.SetMaximumTargetFileSize(mf), "SetMaximumTargetFileSize failed"); mf0 = mf; }
  if (late == 2) { uint64_t mw2 = big ? vs_u64("maxwin2") : vs_u8("maxwin2"); bool s2 = dec.SetMaximumTargetWindowSize(mw2); vs_assert(s2 == (mw2 <= 0x7fffffff), "SetMaximumTargetWindowSize accepts exactly the sizes up to INT32_MAX"); if (s2) mw = mw2; vs_reach("late-window"); }
  // window header with a symbolic target length; the body has not arrived yet
  Buf t; t.sym(nb, "tlen"); size_t p = 0; uint64_t tl = 0; int vr = ref_varint(t.b, t.n, &p, 0x7fffffff, &tl);
  vs_assume(vr == REF_ACCEPT && p == t.n);
  Buf e; e.put(t); e.u8(0); e.vi(il ? 0 : 1); e.vi(il ? 6 : 5); e.vi(0); Buf b; b.u8(0); b.vi(e.n + 6); b.put(e);
  if (il) vs_assume(tl > 0);
  bool fits = tl <= mw && tl <= (total <= mf0 ? mf0 - total : 0);
  if (big && il) vs_assume(!fits || tl <= (1 << 24));   // a large window that fits is legitimately reserved at once
  if (!big) vs_alloc_limit(16384);
  ok = dec.DecodeChunk((const char*)b.b, b.n, &out);
  vs_alloc_limit(0);
  vs_observe(ok);
  vs_reach(fits ? "fits" : "exceeds");
  vs_assert(ok == fits, fits ? "window within the limits was refused" : "window beyond the limits was accepted");
  vs_assert(out.size() == total, "output without instructions");
}
// total output never exceeds the file limit whatever the delta says
extern "C" void lim_free() {
  size_t dictn = 8; uint64_t mw = vs_u8("maxwin"), mf = vs_u8("maxfile"); vs_assume(mw <= (uint64_t)vs_param("top", 12) && mf <= (uint64_t)vs_param("top", 12));
  Buf b; build_delta(b, dictn);
  VCDiffStreamingDecoder dec; dec.SetMaximumTargetWindowSize(mw); dec.SetMaximumTargetFileSize(mf);
  dec.StartDecoding((const char*)g_dict, dictn);
  std::string out; bool ok = dec.DecodeChunk((const char*)b.b, b.n, &out), fin = dec.FinishDecoding();
  vs_observe(ok); vs_observe(fin); vs_observe(out.size());
  vs_assert(out.size() <= mf, "output exceeds the target file size limit");
  R.init(g_dict, dictn); R.max_file = mf; R.max_win = mw; int r = R.file(b.b, b.n);
  if (r == REF_UNSPECIFIED) return;
  vs_assert((ok && fin) == (r == REF_ACCEPT), "verdict under size limits differs from the reference");
  if (r == REF_ACCEPT) { vs_reach("accept"); if (R.out_len) vs_reach("nonempty"); vs_assert(out.size() == R.out_len, "length"); for (size_t i = 0; i < out.size(); i++) vs_assert((uint8_t)out[i] == R.out[i], "byte"); }
}
// ---- C13: a used decoder behaves like a new one ----
static void small_delta_window(Buf& b, const char* nm) { Buf i, d, a; i.u8(163); d.sym(1, nm); a.sym(1, nm); b.u8(1); b.vi(8); b.vi(0); Buf e; e.vi(5); e.u8(0); e.vi(1); e.vi(1); e.vi(1); b.vi(e.n + 3); b.put(e); b.put(d); b.put(i); b.put(a); }
static void small_delta(Buf& b, int kind, const char* nm) {
  switch (kind) {
    case 0: b.hdr(0); small_delta_window(b, nm); break;   // standard, any data and address
    case 1: b.hdr('S'); b.u8(5); b.vi(8); b.vi(0); { Buf e; e.vi(6); e.u8(0); e.vi(0); e.vi(4); e.vi(0); e.sym(5, nm); b.vi(e.n + 4); b.put(e); b.u8(163); b.sym(1, nm); b.sym(1, nm); b.u8(2); } break; // interleaved, checksum, one ADD lacks its data
    case 2: b.u8(0xD6); b.u8(0xC3); b.u8(0xC4); b.u8(0); b.u8(2); put_custom_header(b, 4, 3, 512 + 163, 1, nm); small_delta_window(b, nm); break;   // custom table: opcode 163's first size is arbitrary
    case 3: b.sym(3, nm); break;                                                                                      // arbitrary garbage
    case 4: b.u8(0xD6); b.u8(0xC3); b.u8(0xC4); b.u8(0); b.u8(2); b.vi(1); b.vi(1); b.hdr(0); b.sym(1, nm); break;       // custom table cut short
    case 5: b.hdr('S'); for (int w = 0; w < 2; w++) { b.u8(w ? 2 : 0); if (w) { b.vi(2); b.sym(1, nm); } Buf e; e.vi(2); e.u8(0); e.vi(0); e.vi(w ? 3 : 3); e.vi(0); b.vi(e.n + 3); b.put(e); if (w) { b.u8(19); b.u8(2); b.sym(1, nm); } else { b.u8(3); b.sym(2, nm); } } break;  // VCD_TARGET window
    case 6: case 7: b.u8(0xD6); b.u8(0xC3); b.u8(0xC4); b.u8(0); b.u8(2); put_custom_header2(b, 4, 3, 512 + 163, nm, kind == 7); small_delta_window(b, nm); break;   // custom table brought by two windows
  }
}
extern "C" void dec_reuse() {
  size_t dictn = vs_param("d2", 8); mkdict(64); int k1 = vs_param("k1", 0), k2 = vs_param("k2", 0), how = vs_param("how", 0), allow = vs_param("allow", 1);
  VCDiffStreamingDecoder dec; if (!allow) dec.SetAllowVcdTarget(false);
  int64_t mf = vs_param("mf", 0), mw = vs_param("mw", 0); if (mf) dec.SetMaximumTargetFileSize(mf); if (mw) dec.SetMaximumTargetWindowSize(mw);
  std::string junk;
  if (vs_param("k0", -1) >= 0) { Buf b0; small_delta(b0, (int)vs_param("k0", 0), "z"); dec.StartDecoding((const char*)g_dict + 8, 30); dec.DecodeChunk((const char*)b0.b, vs_param("c0", 0) ? b0.n - vs_param("c0", 0) : b0.n, &junk); dec.FinishDecoding(); junk.clear(); }   // a job before those
  Buf b1; small_delta(b1, k1, "a");
  dec.StartDecoding((const char*)g_dict + 16, 24);
  size_t n1 = b1.n; if (how == 1) n1 = vs_choose(b1.n + 1, "cut");
  bool ok1 = true;
  if (how == 2) { for (size_t i = 0; i < n1 && ok1; i++) ok1 = dec.DecodeChunk((const char*)b1.b + i, 1, &junk); }
  else ok1 = dec.DecodeChunk((const char*)b1.b, n1, &junk);
  bool fin1 = true; bool skip_finish = !ok1 && vs_param("nofin", 0);
  if (!skip_finish) { fin1 = dec.FinishDecoding(); if (!ok1) vs_assert(!fin1, "FinishDecoding succeeded after a failed DecodeChunk"); }
  vs_reach(ok1 ? (fin1 ? "first-ok" : "first-incomplete") : "first-failed");
  Buf b2; small_delta(b2, k2, "b");
  dec.StartDecoding((const char*)g_dict, dictn);
  std::string out; bool ok = dec.DecodeChunk((const char*)b2.b, b2.n, &out); bool fin = dec.FinishDecoding();
  VCDiffStreamingDecoder fresh; if (!allow) fresh.SetAllowVcdTarget(false);
  if (mf) fresh.SetMaximumTargetFileSize(mf); if (mw) fresh.SetMaximumTargetWindowSize(mw);
  fresh.StartDecoding((const char*)g_dict, dictn);
  std::string o2; bool okf = fresh.DecodeChunk((const char*)b2.b, b2.n, &o2); bool finf = fresh.FinishDecoding();
  vs_observe(ok); vs_observe(fin); vs_observe(out.size());
  vs_assert(ok == okf && fin == finf, "a reused decoder's verdict differs from a new decoder's");
  vs_assert(out.size() == o2.size(), "a reused decoder's output length differs from a new decoder's");
  for (size_t i = 0; i < out.size(); i++) vs_assert(out[i] == o2[i], "a reused decoder's output differs from a new decoder's");
  vs_reach(okf && finf ? "second-ok" : "second-bad");
}
// the one-shot interface replaces what the output string held, on a new and on a used decoder
extern "C" void dec_once() {
  size_t dictn = vs_param("dict", 16); Buf b; build_delta(b, dictn);
  R.init(g_dict, dictn); int r = R.file(b.b, b.n);
  VCDiffDecoder dec;
  if (vs_param("used", 0)) { std::string junk; Buf j; small_delta(j, (int)vs_param("used", 0) - 1, "j"); dec.Decode((const char*)g_dict, 8, std::string((const char*)j.b, j.n), &junk); }
  std::string delta((const char*)b.b, b.n), out("earlier contents, to be replaced"); bool ok = dec.Decode((const char*)g_dict, dictn, delta, &out);
  vs_observe(ok); vs_observe(out.size()); if (r == REF_UNSPECIFIED) return;
  vs_assert(ok == (r == REF_ACCEPT), "the one-shot decoder's verdict differs from the reference");
  if (ok) { vs_reach("accept"); vs_assert(out.size() == R.out_len, "the output string is not exactly the target"); for (size_t i = 0; i < out.size(); i++) vs_assert((uint8_t)out[i] == R.out[i], "the output string is not exactly the target"); }
  else vs_reach("reject");
}
// misuse (built with NDEBUG, where misuse is reported by return values)
extern "C" void dec_misuse() {
  mkdict(64); VCDiffStreamingDecoder dec; std::string out; Buf b; small_delta(b, 0, "a");
  int s = vs_choose(10, "seq");
  if (s == 9) {   // SetAllowVcdTarget belongs before StartDecoding; called later it must not change how the job is decoded
    bool before = vs_choose(2, "before"), after = vs_choose(2, "after"); if (!before) dec.SetAllowVcdTarget(false);
    Buf v; small_delta(v, 5, "v"); dec.StartDecoding((const char*)g_dict, 8); size_t c = vs_choose(v.n + 1, "cut"); bool ok = dec.DecodeChunk((const char*)v.b, c, &out); dec.SetAllowVcdTarget(after);
    if (ok) ok = dec.DecodeChunk((const char*)v.b + c, v.n - c, &out); bool fin = dec.FinishDecoding();
    VCDiffStreamingDecoder fresh; std::string o2; if (!before) fresh.SetAllowVcdTarget(false); fresh.StartDecoding((const char*)g_dict, 8); bool ok2 = fresh.DecodeChunk((const char*)v.b, v.n, &o2), fin2 = fresh.FinishDecoding();
    vs_assert((ok && fin) == (ok2 && fin2), "SetAllowVcdTarget after StartDecoding changed the verdict"); if (ok2 && fin2) vs_assert(out == o2, "SetAllowVcdTarget after StartDecoding changed the output"); vs_reach("late-allow"); return;
  }
  if (s == 5) { vs_assert(!dec.DecodeChunk((const char*)b.b, 0, &out), "DecodeChunk of nothing without StartDecoding succeeded"); vs_assert(!dec.FinishDecoding(), "FinishDecoding without StartDecoding succeeded"); }
  else if (s == 6) { dec.StartDecoding((const char*)g_dict, 8); dec.DecodeChunk((const char*)b.b, b.n, &out); dec.FinishDecoding(); out.clear(); vs_assert(!dec.DecodeChunk((const char*)b.b, 0, &out), "DecodeChunk of nothing after FinishDecoding succeeded"); }
  else if (s == 7) { dec.StartDecoding((const char*)g_dict, 8); Buf g; g.sym(4, "g"); vs_assume(g.b[0] != 0xD6); dec.DecodeChunk((const char*)g.b, g.n, &out); vs_assert(!dec.DecodeChunk((const char*)b.b, 0, &out), "DecodeChunk of nothing after a failed DecodeChunk succeeded"); vs_assert(!dec.FinishDecoding(), "FinishDecoding after failure succeeded"); }
  else if (s == 8) { dec.StartDecoding((const char*)g_dict, 8); dec.DecodeChunk((const char*)b.b, b.n, &out); bool f = dec.FinishDecoding(); out.clear(); vs_assert(!dec.FinishDecoding(), "second FinishDecoding succeeded"); dec.StartDecoding((const char*)g_dict, 8); bool f2 = dec.DecodeChunk((const char*)b.b, b.n, &out) && dec.FinishDecoding(); vs_assert(f == f2, "decoding again after a refused call gives another verdict"); if (!f2) out.clear(); else { vs_assert(out.size() == 5, "length after a refused call"); out.clear(); } }
  else if (s == 0) { vs_assert(!dec.DecodeChunk((const char*)b.b, b.n, &out), "DecodeChunk without StartDecoding succeeded"); }
  else if (s == 1) { vs_assert(!dec.FinishDecoding(), "FinishDecoding without StartDecoding succeeded"); }
  else if (s == 2) { dec.StartDecoding((const char*)g_dict, 8); dec.DecodeChunk((const char*)b.b, b.n, &out); dec.FinishDecoding(); out.clear(); vs_assert(!dec.DecodeChunk((const char*)b.b, b.n, &out), "DecodeChunk after FinishDecoding succeeded"); vs_assert(!dec.FinishDecoding(), "second FinishDecoding succeeded"); }
  else if (s == 3) { dec.StartDecoding((const char*)g_dict, 8); Buf g; g.sym(4, "g"); vs_assume(g.b[0] != 0xD6); vs_assert(!dec.DecodeChunk((const char*)g.b, g.n, &out), "garbage accepted"); vs_assert(!dec.DecodeChunk((const char*)b.b, b.n, &out), "DecodeChunk after a failed DecodeChunk succeeded"); vs_assert(!dec.FinishDecoding(), "FinishDecoding after failure succeeded"); }
  else { dec.StartDecoding((const char*)g_dict, 8); size_t c = vs_choose(b.n, "cut"); vs_assume(c > 0 && c != 5); if (dec.DecodeChunk((const char*)b.b, c, &out)) vs_assert(!dec.FinishDecoding(), "FinishDecoding in the middle of a window succeeded"); }
  vs_assert(s == 2 || out.empty() || s == 4, "output produced by a refused call");
  vs_reach("done");
}
