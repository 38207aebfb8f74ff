// C08: address cache.
#include <config.h>
#include "vs.h"
#include "addrcache.h"
#include "varint_bigendian.h"
#include "vcdiff_defs.h"
#include <string>
#include <string.h>
using namespace open_vcdiff;

static const int kMaxSame = 254;
struct Model {                        // RFC 3284 section 5.3
  int near_n, same_n, next; int64_t near_a[256]; int64_t same_a[256 * 256];
  void init(int n, int s) { near_n = n; same_n = s; next = 0; memset(near_a, 0, sizeof near_a); memset(same_a, 0, sizeof same_a); }
  void update(int64_t a, size_t idx) { if (near_n > 0) { near_a[next] = a; next = (next + 1) % near_n; } if (same_n > 0) same_a[idx] = a; }
};
static Model M;
static int vlen(int64_t v) { int n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
// address with a concrete residue modulo the SAME cache and symbolic magnitude
static int64_t pick(int same_n, const char* nm, int qbits, size_t* idx) {
  static const int res[] = {0, 1, 255, 256, 511, 512, 767, 300};
  int64_t mod = same_n > 0 ? same_n * 256 : 1;
  int r = 0;
  if (same_n > 0) { int k = vs_choose(vs_param("res", 3), nm); r = (int)((res[(k + vs_param("r0", 0)) % 8] + vs_param("rb", 0)) % mod); }
  int64_t q = qbits <= 8 ? (int64_t)vs_sym(nm, 8) * vs_param("scale", 1) : (int64_t)(vs_sym(nm, 32) & ((1u << qbits) - 1));
  *idx = r; return r + mod * q;
}
static int64_t model_decode(int mode, int64_t here, const uint8_t* p, size_t n, size_t* used, int* st) {
  int64_t a; *st = 0;
  if (n == 0) { *st = -2; return 0; }
  if (mode >= 2 + M.near_n) { *used = 1; uint64_t b = vs_concretize(p[0]); a = M.same_a[(mode - 2 - M.near_n) * 256 + b]; }
  else {
    uint64_t v = 0; size_t i = 0;
    for (;; i++) { if (i == n) { *st = -2; return 0; } if (v > (0x7FFFFFFFu >> 7)) { *st = -1; return 0; } v = (v << 7) | (p[i] & 127); if (!(p[i] & 128)) break; }
    *used = i + 1;
    a = mode == 0 ? (int64_t)v : mode == 1 ? here - (int64_t)v : M.near_a[mode - 2] + (int64_t)v;
  }
  if (a < 0 || a >= here) *st = -1;
  return a;
}
// k addresses through a real encoder cache, then a real decoder cache, and the RFC model.
extern "C" void ac_lock() {
  int nn = vs_param("near", 4), sn = vs_param("same", 3), k = vs_param("k", 3), qb = vs_param("q", 20);
  VCDiffAddressCache enc(nn, sn), dec(nn, sn);
  vs_assert(enc.Init() && dec.Init(), "Init failed for legal cache sizes");
  if (vs_param("reinit", 0)) { enc.UpdateCache(1234); enc.UpdateCache(77); dec.UpdateCache(99); vs_assert(enc.Init() && dec.Init(), "second Init failed"); }
  M.init(nn, sn);
  int64_t here_hi = 0x7FFFFFFF;
  for (int j = 0; j < k; j++) {
    size_t idx; int64_t a = pick(sn, "a", qb, &idx);
    int64_t here = vs_param("hd", 0) ? a + 1 + (int64_t)vs_u8("here") * vs_param("hd", 0) : vs_param("hc", 0) ? vs_param("hc", 0) : (int64_t)(vs_sym("here", 32) & 0x7FFFFFFF);
    vs_assume(a < here && here <= here_hi);
    VCDAddress e = -5; unsigned mode = enc.EncodeAddress((VCDAddress)a, (VCDAddress)here, &e);
    mode = (unsigned)vs_concretize(mode);
    vs_assert(mode < 2u + nn + sn, "mode out of range");
    std::string s; 
    vs_assert(e >= 0, "negative encoded address");
    if (enc.WriteAddressAsVarintForMode(mode)) { vs_assert((int)mode < 2 + nn, "varint claimed for a SAME mode"); VarintBE<int32_t>::AppendToString(e, &s); }
    else { vs_assert((int)mode >= 2 + nn, "byte claimed for a non-SAME mode"); vs_assert(e < 256, "SAME address does not fit a byte"); s.push_back((char)e); }
    // shortest choice: never longer than SELF or HERE; one byte if the SAME cache hits
    vs_assert((int)s.size() <= vlen(a) && (int)s.size() <= vlen(here - a), "address encoding longer than SELF/HERE");
    size_t used = 0; int st; int64_t m = model_decode(mode, here, (const uint8_t*)s.data(), s.size(), &used, &st);
    vs_assert(st == 0 && used == s.size() && m == a, "encoded address does not denote the address under RFC 3284");
    const char* p = s.data(); VCDAddress d = dec.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, s.data() + s.size());
    vs_assert(d == a, "decoder cache disagrees with encoder cache"); vs_assert(p == s.data() + s.size(), "decoder consumed a different number of bytes");
    M.update(a, idx);
    vs_observe(mode);
    if (mode == 0) vs_reach("self"); else if (mode == 1) vs_reach("here"); else if ((int)mode < 2 + nn) vs_reach("near"); else vs_reach("same");
  }
}
// Arbitrary cache contents (k updates), then an arbitrary mode and arbitrary address bytes.
extern "C" void ac_dec() {
  int nn = vs_param("near", 4), sn = vs_param("same", 3), k = vs_param("k", 5), n = vs_param("n", 3), md = vs_param("mode", -1);
  VCDiffAddressCache dec(nn, sn); vs_assert(dec.Init(), "Init failed");
  M.init(nn, sn);
  size_t slots[16]; int ns = 0;
  for (int j = 0; j < k; j++) { size_t idx; int64_t a = pick(sn, "a", vs_param("q", 20), &idx); dec.UpdateCache((VCDAddress)a); M.update(a, idx); slots[ns++] = idx; }
  int mode = md >= 0 ? md : vs_choose(2 + nn + sn, "mode");
  vs_assume(mode < 2 + nn + sn);
  int64_t here = vs_param("hc", 0) ? vs_param("hc", 0) : (int64_t)(vs_sym("here", 32) & 0x7FFFFFFF);
  uint8_t b[8]; vs_bytes(b, n, "b");
  if (vs_param("cont", 0)) for (int j = 0; j < n - 1; j++) vs_assume(b[j] & 128);
  size_t used = 0; int st; int64_t want = model_decode(mode, here, b, n, &used, &st);
  size_t idx = 0;
  if (st == 0 && sn > 0) idx = (size_t)vs_concretize((uint64_t)want % (uint64_t)(sn * 256));
  const char* p = (const char*)b; VCDAddress r = dec.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, (const char*)b + n);
  vs_observe((uint64_t)(int64_t)r);
  if (st == 0) {
    vs_reach("ok"); vs_assert(r == want && p == (const char*)b + used, "decoded address differs from RFC 3284");
    M.update(want, idx); slots[ns++] = idx;
  } else if (st == -2) { vs_reach("eod"); vs_assert(r == RESULT_END_OF_DATA || r == RESULT_ERROR, "truncated address accepted"); vs_assert(p == (const char*)b, "position moved on failure"); }
  else { vs_reach("bad"); vs_assert(r == RESULT_ERROR, "invalid address accepted"); vs_assert(p == (const char*)b, "position moved on failure"); }
  // the update rule: the cache contents after the step (no update on failure)
  for (int j = 0; j < nn; j++) vs_assert(dec.NearAddress(j) == M.near_a[j], "NEAR cache differs from RFC 3284");
  if (sn > 0) for (int j = 0; j < ns; j++) { vs_assert(dec.SameAddress((int)slots[j]) == M.same_a[slots[j]], "SAME cache differs from RFC 3284");
    size_t o = (slots[j] + 1) % (sn * 256), h = (slots[j] + 256) % (sn * 256);
    vs_assert(dec.SameAddress((int)o) == M.same_a[o] && dec.SameAddress((int)h) == M.same_a[h], "another SAME slot changed"); }
  // and the NEAR rotation position: one more update lands in the model's next slot
  dec.UpdateCache(7); M.update(7, sn > 0 ? 7 % (sn * 256) : 0);
  for (int j = 0; j < nn; j++) vs_assert(dec.NearAddress(j) == M.near_a[j], "NEAR cache rotation differs from RFC 3284");
}
// Illegal cache sizes are refused, legal ones accepted.
extern "C" void ac_init() {
  unsigned char nn = vs_u8("near"), sn = vs_u8("same");
  nn = (unsigned char)vs_concretize(nn); vs_assume(sn <= 3 || sn >= 250 || (unsigned)sn + nn >= 253); sn = (unsigned char)vs_concretize(sn);
  VCDiffAddressCache c(nn, sn); bool ok = c.Init();
  vs_assert(ok == ((int)nn + sn <= 254), "Init accepted/refused the wrong cache sizes");
  vs_reach(ok ? "ok" : "refused");
}
