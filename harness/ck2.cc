// C06: checksums through the public API.
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "google/vcencoder.h"
#include "google/vcdecoder.h"
#include <string>
using namespace open_vcdiff;
static uint8_t buf[140000];
static const char D[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
// A checksummed encoding decodes iff window data is intact: dictionary corrupted in one byte, or the stored
// checksum replaced by an arbitrary value.
extern "C" void ck_e2e() {
  size_t n = vs_param("n", 40); for (size_t i = 0; i < n; i++) buf[i] = i < 4 || i >= 44 ? (uint8_t)('#' + (i * 5) % 40) : (uint8_t)D[i];
  int k = vs_param("k", 1); for (int j = 0; j < k; j++) buf[j] = vs_u8("t");
  int fl = vs_param("fl", 2); std::string delta, out;
  VCDiffEncoder e(D, sizeof D - 1); e.SetFormatFlags(fl); e.SetTargetMatching(false);
  vs_assert(e.Encode((const char*)buf, n, &delta), "encode failed");
  char d2[sizeof D]; memcpy(d2, D, sizeof D); size_t at = vs_choose(sizeof D - 1, "at"); d2[at] = (char)vs_u8("x");
  VCDiffDecoder dec; bool ok = dec.Decode(d2, sizeof D - 1, delta, &out);
  vs_observe(ok);
  if (ok) { vs_reach("accepted"); vs_assert(out.size() == n, "length differs"); for (size_t i = 0; i < n; i++) vs_assert((uint8_t)out[i] == buf[i], "decoded data differs from the target although the checksum was verified"); }
  else { vs_reach("rejected"); vs_assert(d2[at] != D[at], "intact data was rejected"); }
}

// A decoder verifies the stored checksum of a window: accepted iff it is the checksum of the data.
extern "C" void ck_win() {
  size_t n = vs_param("n", 5); bool il = vs_param("il", 0); int conc = vs_param("conc", 0); size_t k = conc == 2 ? 0 : conc == 1 ? 1 : (n < 2 ? n : 2);
  std::string d; static const char h[] = {(char)0xD6, (char)0xC3, (char)0xC4, 'S', 0}; d.append(h, 5);
  for (size_t i = 0; i < n; i++) buf[i] = (uint8_t)(0xff - (i & 3)); for (size_t i = 0; i < k; i++) buf[i * (n / 2)] = vs_u8("b");
  std::string ins, e, sz; { char t[6]; int c = 0; size_t v = n; do { t[c++] = (char)(v & 127); v >>= 7; } while (v); while (c--) sz.push_back((char)(t[c] | (c ? 0x80 : 0))); }
  ins.push_back(1); ins += sz; if (il) ins.append((const char*)buf, n);
  struct V { static void put(std::string* s, uint64_t v) { char t[10]; int c = 0; do { t[c++] = (char)(v & 127); v >>= 7; } while (v); while (c--) s->push_back((char)(t[c] | (c ? 0x80 : 0))); } };
  e += sz; e.push_back(0); V::put(&e, il ? 0 : n); V::put(&e, ins.size()); V::put(&e, 0);
  uint64_t want = ref_adler32(buf, n); uint64_t stored = (want + vs_param("base", 0)) ^ ((uint64_t)(vs_u8("x") & 1) << vs_choose(32, "bit"));    if (vs_param("free", 0)) stored = vs_u64("stored") & ((1ull << 35) - 1);  // the right value, or one bit flipped
  for (int c = 4; c >= 0; c--) e.push_back((char)((stored >> (7 * c) & 127) | (c ? 0x80 : 0)));
  d.push_back(4); V::put(&d, e.size() + ins.size() + (il ? 0 : n)); d += e; if (!il) d.append((const char*)buf, n); d += ins;
  VCDiffDecoder dec; std::string out; bool ok = dec.Decode("", 0, d, &out); vs_observe(ok);
  vs_assert(ok == (stored == want), ok ? "a window with a wrong checksum was accepted" : "a window with the right checksum was rejected");
  vs_reach(ok ? "accepted" : "rejected"); if (ok) { vs_assert(out.size() == n, "length"); for (size_t i = 0; i < n; i += n > 100 ? 97 : 1) vs_assert((uint8_t)out[i] == buf[i], "data"); }
}
// Every chunk passed to a checksumming encoder becomes a window that carries that chunk's checksum.
static RefDecoder R;
extern "C" void ck_chunks() {
  size_t n = vs_param("n", 5); int ch = vs_param("ch", 2), fl = vs_param("fl", 2); std::string delta, out; for (size_t i = 0; i < n; i++) buf[i] = (uint8_t)(200 + i); buf[n / 2] = vs_u8("b");
  HashedDictionary hd(D, sizeof D - 1); vs_assert(hd.Init(), "Init"); VCDiffStreamingEncoder e(&hd, fl, false); vs_assert(e.StartEncoding(&delta), "start"); size_t pos = 0; int windows = 0;
  for (int c = 0; c < ch; c++) { size_t left = n - pos, take = c == ch - 1 ? left : vs_param("at", 0) ? (size_t)vs_param("at", 0) : (size_t)vs_choose(left + 1, "cut"); vs_assert(e.EncodeChunk((const char*)buf + pos, take, &delta), "chunk"); pos += take; if (take) windows++; }
  vs_assert(e.FinishEncoding(&delta), "finish"); R.init(D, sizeof D - 1); int r = R.file((const uint8_t*)delta.data(), delta.size());
  vs_assert(r == REF_ACCEPT, "checksummed output is not valid"); vs_assert(R.windows == windows && R.checksums == windows, "a window lacks its checksum"); VCDiffDecoder d; vs_assert(d.Decode(D, sizeof D - 1, delta, &out) && out.size() == n, "decoder rejects it"); vs_observe(delta.size()); vs_reach("ok");
}
