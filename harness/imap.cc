// C09: instruction map (opcode selection).
#include <config.h>
#include "vs.h"
#include "ref.h"
#include "codetable.h"
#include "instruction_map.h"
using namespace open_vcdiff;
// every opcode the instruction map answers with means exactly what was asked for
extern "C" void im_first() {
  VCDiffInstructionMap* m = VCDiffInstructionMap::GetDefaultInstructionMap(); const VCDiffCodeTableData& t = VCDiffCodeTableData::kDefaultCodeTableData;
  uint8_t inst = vs_u8("inst"), size = vs_u8("size"), mode = vs_u8("mode"); vs_assume(inst >= 1 && inst <= 3 && mode <= 8 && (inst == 3 || mode == 0));
  inst = (uint8_t)vs_concretize(inst); mode = (uint8_t)vs_concretize(mode);
  OpcodeOrNone o = m->LookupFirstOpcode(inst, size, mode);
  RefTable rt; ref_default_table(&rt);
  bool exists = false; for (int i = 0; i < 256; i++) exists = exists | ((rt.inst2[i] == 0) & (rt.inst1[i] == inst) & (rt.size1[i] == size) & (rt.mode1[i] == mode));
  vs_assert((o != kNoOpcode) == exists, "opcode lookup misses an opcode or invents one");
  if (o != kNoOpcode) { vs_reach("found"); o = (OpcodeOrNone)vs_concretize((uint16_t)o); vs_assert(o < 256 && t.inst1[o] == inst && t.size1[o] == size && t.mode1[o] == mode && t.inst2[o] == 0, "opcode means something else"); vs_assert(rt.inst1[o] == inst && rt.size1[o] == size && rt.mode1[o] == mode, "opcode means something else in the RFC's table"); }
  if (size == 0) vs_assert(o != kNoOpcode, "no size-0 opcode");
}
extern "C" void im_second() {
  VCDiffInstructionMap* m = VCDiffInstructionMap::GetDefaultInstructionMap();
  uint8_t first = vs_u8("first"), inst = vs_u8("inst"), size = vs_u8("size"), mode = vs_u8("mode"); vs_assume(inst >= 1 && inst <= 3 && mode <= 8 && (inst == 3 || mode == 0));
  first = (uint8_t)vs_concretize(first); inst = (uint8_t)vs_concretize(inst); mode = (uint8_t)vs_concretize(mode);
  OpcodeOrNone o = m->LookupSecondOpcode(first, inst, size, mode);
  RefTable rt; ref_default_table(&rt);
  bool exists = false; if (rt.inst2[first] == 0) for (int i = 0; i < 256; i++) if (rt.inst1[i] == rt.inst1[first] && rt.size1[i] == rt.size1[first] && rt.mode1[i] == rt.mode1[first] && rt.inst2[i] == inst && rt.mode2[i] == mode) exists = exists | (rt.size2[i] == size);
  vs_assert((o != kNoOpcode) == exists, "compound opcode lookup misses an opcode or invents one");
  if (o != kNoOpcode) { vs_reach("found"); o = (OpcodeOrNone)vs_concretize((uint16_t)o); vs_assert(o < 256 && rt.inst1[o] == rt.inst1[first] && rt.size1[o] == rt.size1[first] && rt.mode1[o] == rt.mode1[first] && rt.inst2[o] == inst && rt.size2[o] == size && rt.mode2[o] == mode, "compound opcode means something else"); }
}
