// Shared pieces of the decoder harnesses.
#ifndef DECH_H_
#define DECH_H_
#include "vs.h"
#include "ref.h"
#include "google/vcdecoder.h"
#include <string>
using namespace open_vcdiff;

#ifndef DICT_MAX
#define DICT_MAX 40000
#endif
static uint8_t g_dict[DICT_MAX];
static RefDecoder R;
static void mkdict(size_t n) { for (size_t i = 0; i < n; i++) g_dict[i] = (uint8_t)('A' + i * 7 + (i >> 5) + (i >> 9) * 3); }

struct Buf { uint8_t b[2400]; size_t n; Buf() : n(0) {} void put(const Buf& o) { memcpy(b + n, o.b, o.n); n += o.n; } void u8(unsigned v) { b[n++] = (uint8_t)v; } void sym(size_t k, const char* nm) { vs_bytes(b + n, k, nm); n += k; }
  void vi(uint64_t v) { uint8_t t[10]; int k = 0; do { t[k++] = v & 127; v >>= 7; } while (v); while (k--) u8(t[k] | (k ? 0x80 : 0)); }
  void pre(uint64_t v) { if (v >> 16) u8(v >> 16 & 255); if (v >> 8) u8(v >> 8 & 255); if (v) u8(v & 255); }   // concrete leading bytes of a varint
  void hdr(int ver) { u8(0xD6); u8(0xC3); u8(0xC4); u8(ver); u8(0); } };

// Window with concrete section lengths and symbolic section contents.
static void put_window(Buf& b, int flags, int srclen, int srcpos, int tlen, int d, int i, int a, const char* nm, bool symt) {
  b.u8(flags);
  if (flags & 3) { b.vi(srclen); b.vi(srcpos); }
  Buf e; if (symt) e.sym(1, "tlen"); else e.vi(tlen);
  if (symt) vs_assume(e.b[0] < 128 && e.b[0] <= (unsigned)tlen);
  e.u8(0); e.vi(d); e.vi(i); e.vi(a);
  if (flags & 4) e.sym(5, "ck");
  b.vi(e.n + d + i + a); memcpy(b.b + b.n, e.b, e.n); b.n += e.n;
  b.sym(d + i + a, nm);
}

// Deltas under test, by shape parameter "sh":
//  0: every byte after the 5-byte file header symbolic (n bytes)
//  1: one window, concrete section lengths, symbolic section contents (optionally a second window)
//  2: file header symbolic too
//  3: interleaved 'S' windows built from concrete instructions with symbolic operands
//  4: custom code table header, table delta, one window
static void put_custom_header(Buf& b, int near_n, int same_n, int pos, int k, const char* nm) {
  // near, same, then a delta of the default table: COPY pos bytes, ADD k symbolic bytes, COPY the rest
  b.vi(near_n); b.vi(same_n);
  int nest = vs_param("nest", 0); for (int j = 0; j < nest; j++) { b.hdr(0); b.b[b.n - 1] = 2; b.vi(4); b.vi(3); }   // tables whose own delta brings a table
  b.hdr(0);
  Buf i, a, d;
  if (pos) { i.u8(19); i.vi(pos); a.vi(0); }
  if (k) { i.u8(1); i.vi(k); d.sym(k, nm); }
  if (1536 - pos - k) { i.u8(19); i.vi(1536 - pos - k); a.vi(pos + k); }
  b.u8(1); b.vi(1536); b.vi(0);
  Buf e; e.vi(1536); e.u8(0); e.vi(d.n); e.vi(i.n); e.vi(a.n);
  b.vi(e.n + d.n + i.n + a.n); b.put(e); b.put(d); b.put(i); b.put(a);
  for (int j = 0; j < nest; j++) { Buf x; x.vi(1536); x.u8(0); x.vi(0); x.vi(3); x.vi(1); b.u8(1); b.vi(1536); b.vi(0); b.vi(x.n + 4); b.put(x); b.u8(19); b.vi(1536); b.u8(0); }
}
// the same table, but its delta has two windows (il: interleaved ones) that each bring a part
static void put_custom_header2(Buf& b, int near_n, int same_n, int pos, const char* nm, bool il) {
  b.vi(near_n); b.vi(same_n); b.hdr(il ? 'S' : 0);
  for (int w = 0; w < 2; w++) {
    Buf i, a, d; Buf& A = il ? i : a; Buf& D = il ? i : d; int from = w ? pos : 0, n = w ? 1536 - pos : pos;
    if (w) { i.u8(2); D.sym(1, nm); from++; n--; }
    i.u8(19); i.vi(n); A.vi(from); int over = w ? (int)vs_param("over", 0) : 0; if (over) { i.u8(0); i.vi(over); D.u8(0); }   // more bytes than a table has
    b.u8(1); b.vi(1536); b.vi(0); Buf e; e.vi(w ? 1536 - pos + over : pos); e.u8(0); e.vi(d.n); e.vi(i.n); e.vi(a.n);
    b.vi(e.n + d.n + i.n + a.n); b.put(e); b.put(d); b.put(i); b.put(a);
  }
}
static const char* pn(const char* base, int j) { static char t[8][8]; static int k; char* o = t[k++ & 7]; int i = 0; while (base[i]) { o[i] = base[i]; i++; } o[i++] = (char)('1' + j); o[i] = 0; return o; }
static void put_prog(Buf& b) {
  bool il = vs_param("il", 0); Buf d, i, a; Buf& D = il ? i : d; Buf& A = il ? i : a; int ck = vs_param("ck", 0), fl = vs_param("fl", 1);
  for (int j = 0; j < 6; j++) {
    int64_t op = vs_param(pn("op", j), -1); if (op < 0) break;
    i.u8((unsigned)op);
    int64_t sz = vs_param(pn("sz", j), -1); if (sz >= 0) i.vi(sz); i.pre(vs_param(pn("sp", j), 0)); i.sym(vs_param(pn("sb", j), 0), "size");
    D.sym(vs_param(pn("db", j), 0), "data"); int64_t dc = vs_param(pn("dc", j), 0); for (int64_t k = 0; k < dc; k++) D.u8((unsigned)(k * 37 + 11));
    int64_t ad = vs_param(pn("ad", j), -1); if (ad >= 0) A.vi(ad); A.pre(vs_param(pn("ap", j), 0)); A.sym(vs_param(pn("ab", j), 0), "addr");
    // operands of a second instruction packed in the same opcode
    D.sym(vs_param(pn("eb", j), 0), "data"); A.sym(vs_param(pn("bb", j), 0), "addr");
  }
  i.sym(vs_param("xi", 0), "xi"); if (!il) { d.sym(vs_param("xd", 0), "xd"); a.sym(vs_param("xa", 0), "xa"); }
  b.u8(fl | (ck ? 4 : 0)); if (fl & 3) { b.vi(vs_param("sl", 8)); b.vi(vs_param("sp", 2)); }
  Buf e; e.vi(vs_param("t", 10)); e.u8(0); e.vi(il ? 0 : d.n); e.vi(i.n); e.vi(il ? 0 : a.n); if (ck) e.sym(5, "ck");
  b.vi(e.n + (il ? 0 : d.n + a.n) + i.n + vs_param("elen", 0)); b.put(e); if (!il) b.put(d); b.put(i); if (!il) b.put(a);
}
// Shape 6: a sequence of windows, each described by parameters (-1: every choice):
//   wtJ template, wlJ layout (0 separate sections, 1 interleaved), wsJ source (0 none, 1 dictionary, 2 earlier output);
//   bit J-1 of wy: that window's operands are arbitrary; bit J-1 of wz: its source segment's length and position are.
static int pick_or(const char* nm, int j, int dflt, int n) { int v = (int)vs_param(pn(nm, j), dflt); return v >= 0 ? v : (int)vs_choose(n, nm); }
static void put_seq(Buf& b, int ver, size_t dictn) {
  int nw = vs_param("nw", 2), cyc = vs_param("cyc", 0), wy = cyc ? 0 : vs_param("wy", 1 << (nw - 1)); size_t total = 0;
  for (int j = 0; j < nw; j++) {
    bool y; int t, l, src; if (cyc) { y = j == nw - 1; t = j * cyc % (ver ? 8 : 7); l = ver ? j / 2 & 1 : 0; src = j % 3; }   // cyc: a long fixed sequence, the last window's operands arbitrary
    else { y = wy >> j & 1; t = pick_or("wt", j, -1, ver ? 9 : 7); l = ver ? pick_or("wl", j, -1, 2) : 0; src = pick_or("ws", j, -1, 3); }
    size_t sl = 0, sp = 0; if (src == 1) { sl = dictn < 8 ? dictn : 8; sp = dictn > 9 ? 2 : 0; } else if (src == 2) { sl = total < 4 ? total : 4; sp = total > 5 ? 1 : 0; }
    Buf d, i, a; Buf& D = l ? i : d; Buf& A = l ? i : a; size_t n = 0; uint8_t dat[2]; bool ck = t == 7 || t == 8;
    struct W { static void bytes(Buf& o, size_t k, bool sym, const char* nm, int base) { if (sym) o.sym(k, nm); else for (size_t x = 0; x < k; x++) o.u8(base + 3 * (int)x); } };
    switch (t) {
      case 0: case 7: case 8: i.u8(3); W::bytes(D, 2, y, "wd", 'p' + j); memcpy(dat, D.b + D.n - 2, 2); n = 2; break;                                       // ADD 2 (7: right checksum, 8: wrong one)
      case 1: i.u8(3); W::bytes(D, 2, 0, "wd", 'p' + j); i.u8(20); W::bytes(A, 1, y, "wa", 1); n = 6; break;                                            // ADD 2, COPY 4
      case 2: i.u8(3); W::bytes(D, 2, 0, "wd", 'p' + j); i.u8(21); W::bytes(A, 1, y, "wa", 1); i.u8(52); W::bytes(A, 1, 0, "wa", 1); n = 11; break;       // ADD 2, COPY 5, COPY 4 near the first
      case 3: i.u8(163); W::bytes(D, 1, y, "wd", 'p' + j); W::bytes(A, 1, y && l, "wa", 0); i.u8(0); i.u8(3); W::bytes(D, 1, 0, "wd", 'r'); n = 8; break;   // ADD 1 + COPY 4 in one opcode, RUN 3
      case 4: i.u8(1); i.vi(20); for (int x = 0; x < 20; x++) D.u8('a' + x); i.u8(35); i.vi(30); W::bytes(A, 1, y, "wa", 20); n = 50; break;              // ADD 20, COPY 30 of it and of itself
      case 5: i.u8(3); W::bytes(D, 2, 0, "wd", 'p' + j); i.u8(20); W::bytes(A, 1, 0, "wa", 1); i.u8(116); W::bytes(A, 1, y, "wa", 1); n = 10; break;      // ADD 2, COPY 4, COPY 4 through the SAME cache
      case 6: break;                                                                                                                               // empty window
    }
    int c = src | (ck ? 4 : 0); b.u8(c); if (src) { if (!cyc && vs_param("wz", 0) >> j & 1) { b.sym(1, "sl"); b.sym(1, "sp"); } else { b.vi(sl); b.vi(sp); } }
    Buf e; e.vi(n); e.u8(0); e.vi(l ? 0 : d.n); e.vi(i.n); e.vi(l ? 0 : a.n);
    if (ck) { uint32_t s = (uint32_t)ref_adler32(dat, 2); if (t == 8) s ^= 0x00010000; for (int x = 4; x >= 0; x--) e.u8((s >> (7 * x) & 127) | (x ? 0x80 : 0)); }
    b.vi(e.n + (l ? 0 : d.n + a.n) + i.n); b.put(e); if (!l) b.put(d); b.put(i); if (!l) b.put(a);
    total += n;
  }
}
static void build_delta(Buf& b, size_t dictn) {
  int ver = vs_param("ver", 0), sh = vs_param("sh", 0);
  mkdict(dictn);
  if (sh == 0) { b.hdr(ver); b.sym(vs_param("n", 8), "d"); }
  else if (sh == 1) {
    b.hdr(ver);
    put_window(b, vs_param("fl", 1), vs_param("sl", 8), vs_param("sp", 2), vs_param("t", 10), vs_param("d", 2), vs_param("i", 2), vs_param("a", 2), "w", vs_param("st", 0));
    if (vs_param("w2", 0)) put_window(b, vs_param("fl2", 2), vs_param("sl2", 4), vs_param("sp2", 1), vs_param("t2", 6), vs_param("d2", 1), vs_param("i2", 1), vs_param("a2", 1), "x", 0);
    if (vs_param("w3", 0)) put_window(b, vs_param("fl3", 1), vs_param("sl3", 4), vs_param("sp3", 1), vs_param("t3", 2), vs_param("d3", 1), vs_param("i3", 1), vs_param("a3", 1), "y", 0);
  }
  else if (sh == 2) { b.sym(vs_param("n", 5), "h"); if (b.n > 4) vs_assume(!(b.b[4] & 2)); }
  else if (sh == 3) { // window flags; instruction bytes: [ADD size-varint data] [COPY opcode size addr] [RUN size byte]; some operands symbolic
    b.hdr('S');
    int wins = vs_param("wins", 1);
    for (int w = 0; w < wins; w++) {
      Buf i; int t = 0; int ck = vs_param("ck", 0);
      int na = vs_param("na", 2); i.u8(1); i.vi(na); i.sym(na, "add"); t += na;
      int nc = vs_param("nc", 5); i.u8(0x13 + 16 * vs_param("mode", 0)); i.vi(nc); i.sym(vs_param("abytes", 1), "addr"); t += nc;
      int nr = vs_param("nr", 3); if (nr) { i.u8(0); i.vi(nr); i.sym(1, "run"); t += nr; }
      int cp = vs_param("cpd", 0); if (cp) { i.u8(163); i.sym(1, "ca"); i.sym(1, "cb"); t += 5; }    // ADD 1 + COPY 4 mode 0
      int ex = vs_param("extra", 0); i.sym(ex, "extra");
      b.u8((w ? vs_param("fl2", 1) : 1) | (ck ? 4 : 0)); b.vi(8); b.vi(vs_param("sp", 2));
      Buf e; e.vi(t); e.u8(0); e.vi(0); e.vi(i.n); e.vi(0); if (ck) e.sym(5, "ck");
      b.vi(e.n + i.n); b.put(e); b.put(i);
    }
  }
  else if (sh == 5) {  // one window; up to six instructions with concrete opcodes and symbolic sizes, addresses and data
    b.hdr(ver); put_prog(b);
  }
  else if (sh == 6) { b.hdr(ver); put_seq(b, ver, dictn); b.sym(vs_param("x", 0), "x"); }
  else if (sh == 4) {
    b.u8(0xD6); b.u8(0xC3); b.u8(0xC4); b.u8(ver); b.u8(2);
    if (vs_param("two", 0)) put_custom_header2(b, vs_param("near", 4), vs_param("same", 3), vs_param("pos", 0), "tab", vs_param("two", 0) == 2);
    else put_custom_header(b, vs_param("near", 4), vs_param("same", 3), vs_param("pos", 0), vs_param("k", 1), "tab");
    if (vs_param("pw", 0)) put_prog(b);
    else if (vs_param("win", 1)) put_window(b, vs_param("fl", 1), vs_param("sl", 8), vs_param("sp", 2), vs_param("t", 4), vs_param("d", 2), vs_param("i", 2), vs_param("a", 1), "w", 0);
  }
  if (vs_param("trunc", 0)) { size_t c = vs_choose(b.n, "trunc"); b.n = c + 1; }
}
#endif
