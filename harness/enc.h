// Shared encoder-input builder and recording code-table writer.
#ifndef ENC_H_
#define ENC_H_
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "google/vcencoder.h"
#include "google/vcdecoder.h"
#include "google/codetablewriter_interface.h"
#include <string>
#include <string.h>
using namespace open_vcdiff;

#ifndef DICT_MAX
#define DICT_MAX 150000
#endif
static const size_t kMaxD = DICT_MAX, kMaxT = 150000;
static uint8_t g_d[kMaxD]; static size_t g_dn;
static uint8_t g_t[kMaxT]; static size_t g_tn;
static size_t g_common;    // longest planted common run (0: none)
static uint32_t g_lcg;
static uint8_t rnd() { g_lcg = g_lcg * 1103515245u + 12345u; return (uint8_t)(g_lcg >> 16); }
static void tsym(size_t n) { vs_bytes(g_t + g_tn, n, "t"); g_tn += n; }
static void tlit(size_t n, uint32_t seed) { uint32_t k = g_lcg; g_lcg = seed; for (size_t i = 0; i < n; i++) g_t[g_tn++] = (uint8_t)(rnd() | 1); g_lcg = k; }
static void tdict(size_t off, size_t n) { for (size_t i = 0; i < n; i++) g_t[g_tn++] = g_d[off + i]; }
static void tself(size_t off, size_t n) { for (size_t i = 0; i < n; i++) { g_t[g_tn] = g_t[off + i]; g_tn++; } }

// Dictionary shapes: 0 distinct pseudo-random bytes, 1 one repeated byte, 2 period-16 blocks,
// 3 each 16-byte block is one of two kinds (path choice), 4 random with a symbolic tail, 5 even bytes only
static uint8_t g_A[16], g_B[16];
static void perm(uint8_t* o, const uint8_t* a, int j) { for (int i = 0; i < 16; i++) o[i] = a[j & 16 ? (15 - i + j) & 15 : (i + j) & 15]; }
static void build_dict() {
  g_dn = vs_param("dn", 64); int dk = vs_param("dk", 0); g_lcg = 4711;
  uint8_t A[16], B[16]; for (int i = 0; i < 16; i++) { A[i] = (uint8_t)(rnd() & 0xfe); B[i] = (uint8_t)(rnd() & 0xfe); }
  if (dk == 3) B[0] = A[0];
  for (size_t i = 0; i < g_dn; i++) g_d[i] = dk == 1 ? 'z' : dk == 2 ? A[i & 15] : (uint8_t)(rnd() & 0xfe);
  if (dk == 3) for (size_t b = 0; b + 16 <= g_dn; b += 16) memcpy(g_d + b, vs_choose(2, "blk") ? B : A, 16);
  // 6: alternating blocks [variant j][common]; the variants are distinct orderings of the same bytes, so that small hash tables put them in one chain
  // 7: random, but the blocks numbered 1, 3 and 5 are orderings of the bytes of block 6
  if (dk == 6) for (size_t b = 0; b + 16 <= g_dn; b += 16) { if (b & 16) memcpy(g_d + b, B, 16); else perm(g_d + b, A, (int)(b / 32)); }
  if (dk == 7 && g_dn >= 128) for (int j = 0; j < 3; j++) { uint8_t t[16]; memcpy(t, g_d + 96, 16); perm(g_d + 16 + 32 * j, t, 3 + 5 * j); }
  // 8: block A at 32, 96, 192 and 288, followed by 1..4 x 9 bytes that agree with what follows the one at 192
  if (dk == 8 && g_dn >= 400) { static const int at[4] = {32, 96, 192, 288}, len[4] = {5, 14, 0, 17}; for (int j = 0; j < 4; j++) { memcpy(g_d + at[j], A, 16); memcpy(g_d + at[j] + 16, g_d + 192 + 16, len[j]); } }
  // 9: the first "pre" bytes of the literal that target shape 15 repeats, at "dat"
  if (dk == 9) { size_t dat = vs_param("dat", 37); uint32_t k = g_lcg; g_lcg = 7; for (size_t i = 0, pre = vs_param("pre", 40); i < pre && dat + i < g_dn; i++) g_d[dat + i] = (uint8_t)(rnd() | 1); g_lcg = k; }
  memcpy(g_A, A, 16); memcpy(g_B, B, 16);
  if (dk == 4) { size_t k = vs_param("tail", 2); if (k > g_dn) k = g_dn; vs_bytes(g_d + g_dn - k, k, "dt"); }
  if (vs_param("ascii", 0)) for (size_t i = 0; i < g_dn; i++) g_d[i] = dk == 4 ? g_d[i] : (uint8_t)(32 + g_d[i] % 94);
}
// Target shapes (odd bytes never occur in the dictionary unless stated)
static void build_target() {
  g_tn = 0; g_common = 0; int tk = vs_param("tk", 0); size_t n = vs_param("n", 4), p = vs_param("p", 1), q = vs_param("q", 1);
  size_t L = vs_param("L", 33), off = vs_param("off", -1) >= 0 ? vs_param("off", 0) : 0;
  if (vs_param("offs", 0)) off += vs_choose(vs_param("offs", 0), "off");
  if (vs_param("Ls", 0)) L += vs_choose(vs_param("Ls", 0), "len");
  if (g_dn && off + L > g_dn && (tk == 1 || tk == 2 || tk == 5 || tk == 7 || tk == 11 || tk == 12)) { vs_assume(0); }
  switch (tk) {
    case 0: tsym(n); break;
    case 1: tsym(p); tdict(off, L); tsym(q); g_common = L; break;                                       // sym + dictionary run + sym
    case 2: tdict(off, L); { size_t i = vs_param("at", -1) >= 0 ? vs_param("at", 0) : vs_choose(L, "at"); g_t[i] = vs_u8("m"); } tlit(q, 99); break;  // run with one arbitrary byte
    case 3: tlit(L, 7); tsym(p); tself(0, L); tsym(q); g_common = L; break;                              // self repeat with a gap
    case 4: { uint8_t c = vs_u8("c"); for (size_t i = 0; i < n; i++) g_t[g_tn++] = c; tsym(q); break; }     // one repeated arbitrary byte
    case 5: tdict(off, L); tlit(p, 5); tdict(off / 2, L); tlit(q, 6); tdict(off, L); tsym(1); g_common = L; break; // three runs: caches
    case 6: for (size_t b = 0; b < n; b++) { uint8_t k = (uint8_t)vs_choose(3, "tb"); if (k < 2 && g_dn >= 32) tdict(k * 16, 16); else tlit(16, 77); } tsym(q); break;
    case 7: tlit(p, 31); tdict(off, L); if (q) { tlit(q - 1, 32); tsym(1); } g_common = L; break;            // long run, one arbitrary byte at the end
    case 8: tlit(n, 11); tsym(1); break;                                                                // long literal
    case 10: tlit(p, 31); { uint8_t x[16]; perm(x, g_A, (int)vs_choose(32, "var")); memcpy(g_t + g_tn, x, 16); g_tn += 16; memcpy(g_t + g_tn, g_B, 16); g_tn += 16; } tsym(q); break;   // a variant block (in the dictionary or not) and the common block
    case 11: tdict(off, L); tlit(n, 7); tsym(p); tself(L, n); tsym(q); g_common = L + n; break;             // dictionary run, then a literal that repeats
    case 12: tlit(n, 7); tdict(off, L); tsym(p); tself(0, n); tsym(q); g_common = L + n; break;             // literal, dictionary run, the literal again
    case 13: tlit(L, 7); tsym(p); tself(0, L); tlit(q, 9); tself(0, L); g_common = 2 * L; break;              // a literal three times
    case 15: tlit(L, 7); tsym(p); tself(0, L); tsym(q); g_common = L + vs_param("pre", 40); break;           // a repeat of which the dictionary has the beginning
    case 16: for (size_t r = 0; r < n; r++) { tlit(3, 31 + (uint32_t)r); tdict(off + r * vs_param("st", 37), L); } tsym(1); g_common = n * L; break;   // n runs from all over the dictionary
    case 14: tsym(p); tdict(192, L); tsym(q); g_common = L; break;
    case 9: { size_t per = vs_param("per", 3); uint8_t x[32]; vs_bytes(x, per, "x"); for (size_t i = 0; i < n; i++) g_t[g_tn++] = x[i % per]; break; } // periodic
  }
  if (vs_param("ascii", 0) > 1) for (size_t i = 0; i < g_tn; i++) g_t[i] &= 127;
}

struct Rec : public CodeTableWriterInterface {
  uint8_t* out; size_t n; uint64_t adds, copies, add_bytes, copy_bytes, runs; int inits, outputs, finishes, headers, checks; bool bad;
  size_t dsz; uint64_t csum; size_t wstart;
  explicit Rec(uint8_t* o) : out(o), n(0), adds(0), copies(0), add_bytes(0), copy_bytes(0), runs(0), inits(0), outputs(0), finishes(0), headers(0), checks(0), bad(false), dsz(0), csum(0), wstart(0) {}
  virtual ~Rec() {}
  virtual bool Init(size_t d) { inits++; dsz = d; return true; }
  virtual void WriteHeader(OutputStringInterface*, VCDiffFormatExtensionFlags) { headers++; }
  virtual void Add(const char* data, size_t size) { adds++; add_bytes += size; vs_assert(size > 0, "ADD of size 0"); vs_assert(n + size <= kMaxT, "encoder described more bytes than the target has"); for (size_t i = 0; i < size; i++) out[n++] = (uint8_t)data[i]; }
  virtual void Copy(int32_t off, size_t size) {
    copies++; copy_bytes += size; vs_assert(size > 0, "COPY of size 0"); vs_assert(off >= 0 && (size_t)off < g_dn + (n - wstart), "COPY source address out of range");
    vs_assert((size_t)off >= g_dn || (size_t)off + size <= g_dn, "COPY spans the boundary between dictionary and target");
    vs_assert(n + size <= kMaxT, "encoder described more bytes than the target has");
    for (size_t i = 0; i < size; i++) { size_t a = (size_t)off + i; out[n] = a < g_dn ? g_d[a] : out[wstart + a - g_dn]; n++; }
  }
  virtual void Run(size_t size, unsigned char b) { runs++; for (size_t i = 0; i < size; i++) out[n++] = b; }
  virtual void AddChecksum(VCDChecksum c) { checks++; csum = c; }
  virtual void Output(OutputStringInterface*) { outputs++; wstart = n; }
  virtual void FinishEncoding(OutputStringInterface*) { finishes++; }
  virtual bool VerifyDictionary(const char*, size_t) const { return true; }
  virtual bool VerifyChunk(const char*, size_t) const { return true; }
};
#endif
