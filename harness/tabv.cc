// C09: default code table and code-table validation.
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "codetable.h"
using namespace open_vcdiff;
// the built-in table is the RFC's default table
extern "C" void tab_rfc() {
  RefTable rt; ref_default_table(&rt); const VCDiffCodeTableData& t = VCDiffCodeTableData::kDefaultCodeTableData;
  uint8_t i = vs_u8("opcode");
  vs_assert(t.inst1[i] == rt.inst1[i] && t.inst2[i] == rt.inst2[i], "default code table: instruction"); vs_assert(t.size1[i] == rt.size1[i] && t.size2[i] == rt.size2[i], "default code table: size"); vs_assert(t.mode1[i] == rt.mode1[i] && t.mode2[i] == rt.mode2[i], "default code table: mode");
  vs_assert(t.Validate(), "default code table does not validate"); vs_reach("ok");
}
// Validate() accepts exactly the well-formed tables (one entry of one column arbitrary)
extern "C" void tab_val() {
  static VCDiffCodeTableData t; memcpy(&t, &VCDiffCodeTableData::kDefaultCodeTableData, sizeof t); RefTable rt; ref_default_table(&rt);
  int col = vs_param("col", 0); size_t op = vs_choose(256, "op"); uint8_t v = vs_u8("v"); int mm = vs_param("mm", 8);
  uint8_t* a[6] = {t.inst1, t.inst2, t.size1, t.size2, t.mode1, t.mode2}; uint8_t* r[6] = {rt.inst1, rt.inst2, rt.size1, rt.size2, rt.mode1, rt.mode2};
  a[col][op] = v; r[col][op] = v;
  bool ok = t.Validate((unsigned char)mm); vs_observe(ok);
  vs_assert(ok == RefDecoder::table_ok(&rt, mm), "Validate()'s verdict is wrong"); vs_reach(ok ? "valid" : "invalid");
}
