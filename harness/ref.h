// Reference VCDIFF decoder (RFC 3284 plus the SDCH extensions: interleaved
// sections and Adler-32 window checksums), written directly from the format
// description.  It shares no code with the implementation; it is the oracle.
#ifndef REF_H_
#define REF_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
enum RefResult { REF_REJECT = 0, REF_ACCEPT = 1, REF_TRUNCATED = 2, REF_UNSPECIFIED = 3 };

// ---- the RFC's default code table, generated from the RFC's rules ----
struct RefTable { uint8_t inst1[256], inst2[256], size1[256], size2[256], mode1[256], mode2[256]; };
enum { rNOOP = 0, rADD = 1, rRUN = 2, rCOPY = 3 };
static inline void ref_default_table(RefTable* t) {
  memset(t, 0, sizeof *t);
  int i = 0;
  t->inst1[i++] = rRUN;
  for (int s = 0; s <= 17; s++) { t->inst1[i] = rADD; t->size1[i++] = s; }
  for (int m = 0; m <= 8; m++) {
    t->inst1[i] = rCOPY; t->size1[i] = 0; t->mode1[i++] = m;
    for (int s = 4; s <= 18; s++) { t->inst1[i] = rCOPY; t->size1[i] = s; t->mode1[i++] = m; }
  }
  for (int m = 0; m <= 5; m++) for (int a = 1; a <= 4; a++) for (int s = 4; s <= 6; s++) {
    t->inst1[i] = rADD; t->size1[i] = a; t->inst2[i] = rCOPY; t->size2[i] = s; t->mode2[i++] = m; }
  for (int m = 6; m <= 8; m++) for (int a = 1; a <= 4; a++) {
    t->inst1[i] = rADD; t->size1[i] = a; t->inst2[i] = rCOPY; t->size2[i] = 4; t->mode2[i++] = m; }
  for (int m = 0; m <= 8; m++) { t->inst1[i] = rCOPY; t->size1[i] = 4; t->mode1[i] = m; t->inst2[i] = rADD; t->size2[i++] = 1; }
}

static inline uint32_t ref_adler32(const uint8_t* p, size_t n) {
  uint64_t a = 0, b = 0;   // SDCH/open-vcdiff windows start the sum at zero; the definition: plain sums, one reduction
  for (size_t i = 0; i < n; i++) { a += p[i]; b += a; }
  return (uint32_t)((b % 65521) << 16 | (a % 65521));
}

// big-endian base-128 integer.  Result: 1 ok, REF_REJECT overlong/overflow, REF_TRUNCATED.
static inline int ref_varint(const uint8_t* d, size_t end, size_t* pos, uint64_t max, uint64_t* out) {
  uint64_t v = 0; size_t p = *pos;
  for (;;) {
    if (p >= end) return REF_TRUNCATED;
    uint8_t b = d[p++];
    v = v + (b & 0x7f);
    if (!(b & 0x80)) { if (v > max) return REF_REJECT; *out = v; *pos = p; return REF_ACCEPT; }
    if (v > (max >> 7)) return REF_REJECT;
    v <<= 7;
  }
}

#ifndef REF_MAX_OUT
#define REF_MAX_OUT 4096
#endif
#ifndef REF_MAX_NEAR
#define REF_MAX_NEAR 8
#define REF_MAX_SAME 4
#endif
struct RefDecoder {
  RefTable tab; int near_n, same_n, last_mode;
  uint64_t near_[REF_MAX_NEAR]; uint64_t same_[REF_MAX_SAME * 256]; int slot;
  const uint8_t* dict; size_t dict_len;
  uint8_t out[REF_MAX_OUT]; size_t out_len;
  uint64_t max_file, max_win; bool allow_target;
  bool unspec;         // hit a corner the format leaves open
  int copies, adds, runs, windows, checksums, inter, separate, tcopies, spans; bool ext;
  void init(const void* d, size_t n) {
    ref_default_table(&tab); near_n = 4; same_n = 3; dict = (const uint8_t*)d; dict_len = n; out_len = 0;
    max_file = 67108864; max_win = 67108864; allow_target = true; unspec = false; copies = adds = runs = windows = checksums = inter = separate = tcopies = spans = 0; ext = false; badcache = false; slot = 0;
    memset(out, 0, sizeof out);
  }
  void cache_init() { slot = 0; for (int i = 0; i < near_n; i++) near_[i] = 0; for (int i = 0; i < same_n * 256; i++) same_[i] = 0; }
  void cache_update(uint64_t a) { if (near_n) { near_[slot] = a; slot = slot + 1 == near_n ? 0 : slot + 1; } if (same_n) same_[(uint32_t)a % (uint32_t)(same_n * 256)] = a; }
  // one instruction stream element
  int window(const uint8_t* d, size_t n, size_t* posp, bool ext_) {
    size_t pos = *posp; uint64_t v, src_len = 0, src_pos = 0, enc_len, tlen, dl, il, al, sum = 0; int r;
    const uint64_t M = 0x7fffffff;
    uint8_t wi = d[pos++];
    const uint8_t* src = 0;
    if ((wi & 3) == 3) return REF_REJECT;
    if (wi & 3) {
      if ((wi & 2) && !allow_target) return REF_REJECT;
      uint64_t lim = (wi & 1) ? dict_len : out_len;
      if ((r = ref_varint(d, n, &pos, M, &src_len)) != REF_ACCEPT) return r;
      if (src_len > lim) return REF_REJECT;
      if ((r = ref_varint(d, n, &pos, M, &src_pos)) != REF_ACCEPT) return r;
      if (src_pos + src_len > lim) return REF_REJECT;
      src = ((wi & 1) ? dict : out) + src_pos;
    }
    if ((r = ref_varint(d, n, &pos, M, &enc_len)) != REF_ACCEPT) return r;
    size_t enc_start = pos;
    if ((r = ref_varint(d, n, &pos, M, &tlen)) != REF_ACCEPT) return r;
    if (tlen > max_win || out_len + tlen > max_file) return REF_REJECT;
    if (pos >= n) return REF_TRUNCATED;
    uint8_t di = d[pos++];
    if (di & 7) return REF_REJECT;
    if ((r = ref_varint(d, n, &pos, M, &dl)) != REF_ACCEPT) return r;
    if ((r = ref_varint(d, n, &pos, M, &il)) != REF_ACCEPT) return r;
    if ((r = ref_varint(d, n, &pos, M, &al)) != REF_ACCEPT) return r;
    bool ck = ext_ && (wi & 4);
    if (ck) { if ((r = ref_varint(d, n, &pos, 0xffffffffu, &sum)) != REF_ACCEPT) return r; }
    if (enc_len != (pos - enc_start) + dl + il + al) return REF_REJECT;
    bool inter = ext_ && dl == 0 && al == 0;
    if (!inter && n - pos < dl + il + al) return REF_TRUNCATED;
    size_t dp = pos, dend = pos + dl, ip = dend, iend = ip + il, ap = iend, aend = ap + al;
    if (inter) { ip = pos; iend = pos + il; if (iend > n) iend = n; }
    size_t& D = inter ? ip : dp; size_t DE = inter ? iend : dend; size_t& A = inter ? ip : ap; size_t AE = inter ? iend : aend;
    bool cut = inter && iend < pos + il;      // more bytes may still come
    int eod = cut ? REF_TRUNCATED : REF_REJECT;
    windows++; if (ck) checksums++; if (inter) this->inter++; else separate++; if (ext_ || (wi & ~3)) ext = true;
    cache_init();
    size_t base = out_len; uint64_t done = 0; int pend = -1;
    while (done < tlen) {
      uint8_t inst, mode; uint64_t size;
      if (pend >= 0) { inst = tab.inst2[pend]; size = tab.size2[pend]; mode = tab.mode2[pend]; pend = -1; }
      else {
        if (ip >= iend) return eod;
        uint8_t op = d[ip++];
        inst = tab.inst1[op]; size = tab.size1[op]; mode = tab.mode1[op];
        if (tab.inst2[op] != rNOOP) pend = op;
        if (inst == rNOOP) continue;
      }
      if (size == 0) { r = ref_varint(d, iend, &ip, M, &size); if (r == REF_TRUNCATED) return eod; if (r != REF_ACCEPT) return r; }
      if (size > tlen - done) return REF_REJECT;
      size = vsc(size);
      if (inst == rADD) {
        if (DE - D < size) return eod;
        for (uint64_t i = 0; i < size; i++) out[out_len++] = d[D++];
        adds++;
      } else if (inst == rRUN) {
        if (D >= DE) return eod;
        uint8_t b = d[D++]; for (uint64_t i = 0; i < size; i++) out[out_len++] = b;
        runs++;
      } else {
        uint64_t here = src_len + done, addr;
        if (A >= AE) return eod;
        if (mode >= 2 + near_n && mode < 2 + near_n + same_n) { uint8_t b = d[A++]; addr = same_[(mode - 2 - near_n) * 256 + b]; }
        else {
          r = ref_varint(d, AE, &A, M, &addr); if (r == REF_TRUNCATED) return eod; if (r != REF_ACCEPT) return r;
          if (mode == 0) {} else if (mode == 1) { if (addr > here) return REF_REJECT; addr = here - addr; }
          else if (mode < 2 + near_n) addr += near_[mode - 2]; else return REF_REJECT;
        }
        if (addr >= here) return REF_REJECT;
        addr = vsc(addr);
        cache_update(addr);
        copies++; if (addr + size > src_len) { tcopies++; if (addr < src_len) spans++; }
        for (uint64_t i = 0; i < size; i++) { uint64_t a = addr + i; uint8_t b; if (a < src_len) b = src[a]; else b = out[base + (a - src_len)]; out[out_len++] = b; }
      }
      done += size;
    }
    if (pend >= 0) return REF_REJECT;   // an opcode's second instruction left over: the instructions describe more than the window
    if (ck && ref_adler32(out + base, (size_t)tlen) != sum) return REF_REJECT;
    if (ip < iend || cut) return REF_REJECT;
    if (!inter && (dp < dend || ap < aend)) return REF_REJECT;
    *posp = inter ? iend : aend;
    return REF_ACCEPT;
  }
  // decode the windows that follow a 5-byte header without VCD_CODETABLE
  int file(const uint8_t* d, size_t n) {
    static const uint8_t magic[3] = {0xD6, 0xC3, 0xC4};
    if (n == 0) return REF_UNSPECIFIED;
    for (size_t i = 0; i < 3 && i < n; i++) if (d[i] != magic[i]) return REF_REJECT;
    if (n > 3 && d[3] != 0 && d[3] != 'S') return REF_REJECT;
    if (n < 5) return REF_TRUNCATED;
    if (d[4] & 1) return REF_REJECT;
    if (d[4] & 2) return custom(d, n);
    return windows_from(d, n, 5, d[3] == 'S');
  }
  bool badcache;
  // "A valid code table": known instruction types, modes within the caches, NOOP has size 0, only COPY has a
  // mode, and every instruction/mode has a size-0 single-instruction opcode.
  static bool table_ok(const RefTable* t, int max_mode) {
    bool ok = true; bool have[4 + 256]; for (int i = 0; i < 260; i++) have[i] = false;
    for (int i = 0; i < 256; i++) {
      ok &= (t->inst1[i] <= 3) & (t->mode1[i] <= max_mode) & ((t->inst1[i] != 0) | (t->size1[i] == 0)) & ((t->inst1[i] == 3) | (t->mode1[i] == 0));
      ok &= (t->inst2[i] <= 3) & (t->mode2[i] <= max_mode) & ((t->inst2[i] != 0) | (t->size2[i] == 0)) & ((t->inst2[i] == 3) | (t->mode2[i] == 0));
    }
    if (!ok) return false;
    for (int i = 0; i < 256; i++) if (t->size1[i] == 0 && t->inst2[i] == 0) have[t->inst1[i] + t->mode1[i]] = true;
    for (int i = 1; i <= 3 + max_mode; i++) ok &= have[i];
    return ok;
  }
  int custom(const uint8_t* d, size_t n);
  int windows_from(const uint8_t* d, size_t n, size_t pos, bool ext) {
    while (pos < n) { int r = window(d, n, &pos, ext); if (r != REF_ACCEPT) return r; }
    return unspec ? REF_UNSPECIFIED : REF_ACCEPT;
  }
  static uint64_t vsc(uint64_t v);
};
#include "vs.h"
#ifdef REF_CUSTOM
static RefDecoder RN; static uint8_t ref_default_bytes[1536];
inline int RefDecoder::custom(const uint8_t* d, size_t n) {
  size_t pos = 5; uint64_t nn, ss; int r;
  if ((r = ref_varint(d, n, &pos, 0x7fffffff, &nn)) != REF_ACCEPT) return r;
  if ((r = ref_varint(d, n, &pos, 0x7fffffff, &ss)) != REF_ACCEPT) return r;
  if (nn > 255 || ss > 255) { badcache = true; return REF_REJECT; }
  if (nn + ss > 254) badcache = true;
  nn = vsc(nn); ss = vsc(ss);
  static const uint8_t magic[3] = {0xD6, 0xC3, 0xC4};
  size_t q = pos;
  for (size_t i = 0; i < 3 && q + i < n; i++) if (d[q + i] != magic[i]) return REF_REJECT;
  if (n > q + 3 && d[q + 3] != 0 && d[q + 3] != 'S') return REF_REJECT;
  if (n < q + 5) return REF_TRUNCATED;
  if (d[q + 4] & 3) return REF_REJECT;
  RefTable t; ref_default_table(&t);
  memcpy(ref_default_bytes, t.inst1, 256); memcpy(ref_default_bytes + 256, t.inst2, 256); memcpy(ref_default_bytes + 512, t.size1, 256);
  memcpy(ref_default_bytes + 768, t.size2, 256); memcpy(ref_default_bytes + 1024, t.mode1, 256); memcpy(ref_default_bytes + 1280, t.mode2, 256);
  RN.init(ref_default_bytes, 1536); RN.max_file = 1536; pos = q + 5;
  bool ext = d[q + 3] == 'S';
  while (RN.out_len < 1536) { if (pos >= n) return REF_TRUNCATED; r = RN.window(d, n, &pos, ext); if (r != REF_ACCEPT) return r; }
  if (RN.unspec) unspec = true;
  if (badcache) return REF_REJECT;
  memcpy(tab.inst1, RN.out, 256); memcpy(tab.inst2, RN.out + 256, 256); memcpy(tab.size1, RN.out + 512, 256);
  memcpy(tab.size2, RN.out + 768, 256); memcpy(tab.mode1, RN.out + 1024, 256); memcpy(tab.mode2, RN.out + 1280, 256);
  near_n = (int)nn; same_n = (int)ss;
  if (!table_ok(&tab, near_n + same_n + 1)) return REF_REJECT;
  if (near_n > REF_MAX_NEAR || same_n > REF_MAX_SAME) { vs_assume(0); }
  return windows_from(d, n, pos, d[3] == 'S');
}
#else
inline int RefDecoder::custom(const uint8_t*, size_t) { return REF_UNSPECIFIED; }
#endif
inline uint64_t RefDecoder::vsc(uint64_t v) { return vs_concretize(v); }
#endif
