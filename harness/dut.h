// The pipeline path of one instruction word: decode, hand-overs, split, and the
// execution unit selected by the operation mask, all from the repository.
#pragma once
#include "vh.h"
#include "isa.h"
#undef immI
#undef immU
#undef immS
#undef immJ
#undef immB
#include "back-end/Idu.cpp"
#undef immI
#undef immU
#undef immS
#undef immJ
#undef immB
#include "back-end/Dispatch.cpp"
#include "IssueQueue.h"
#include "ExuTypes.h"
#include "Fu.h"
long long sim_time;

namespace dut {
inline ExuInst to_exu(const DisIssIO::DisIssUop &u) {
  IqStoredUop s = IqStoredUop::from_dis_iss_uop(u);
  IssPrfIO::IssPrfUop p = s.to_iss_prf_uop();
  PrfExeIO::PrfExeUop e = PrfExeIO::PrfExeUop::from_iss_prf_uop(p);
  return ExuInst::from_prf_exe_uop(e);
}
inline DecRenIO::DecRenInst decode(uint32_t inst, uint32_t pc) {
  static Idu idu(nullptr, 1);
  DecRenIO::DecRenInst d = {};
  idu.decode(d, inst);
  return d;
}
}
