// Match finder on its own (internal interface): C10 soundness, C18 efficacy.
#include "enc.h"
#include "vcdiffengine.h"
static uint8_t g_rec[kMaxT];
static void same_as_target(const uint8_t* p, size_t n, const char* m1, const char* m2) {
  vs_assert(n == g_tn, m1);
  for (size_t i = 0; i < g_tn; i++) vs_assert(p[i] == g_t[i], m2);
}
// Instruction stream produced by the match finder, reconstructed by a recording writer.
extern "C" void enc_rec() {
  build_dict(); build_target(); bool match = vs_param("match", 1);
  HashedDictionary hd((const char*)g_d, g_dn); vs_assert(hd.Init(), "HashedDictionary::Init failed");
  Rec rec(g_rec); std::string out; OutputString<std::string> os(&out);
  hd.engine()->Encode((const char*)g_t, g_tn, match, &os, &rec);
  vs_assert(rec.outputs == (g_tn ? 1 : 0), "Output() not called exactly once per non-empty window");
  same_as_target(g_rec, rec.n, "instructions describe a different length", "instructions do not reproduce the target");
  vs_observe(rec.copies); vs_observe(rec.add_bytes);
  if (rec.copies) vs_reach("copy"); vs_reach("ok");
  if (vs_param("eff", 0)) { // a common run of >= 2*block size bytes must be copied
    vs_assert(rec.add_bytes + g_common <= g_tn, "a common run of at least 32 bytes was not encoded as COPY");
    vs_reach("eff");
  }
}

