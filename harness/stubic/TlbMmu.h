#pragma once
// Stands in for the instruction-side translation, which the harness scripts.
#include <cstdint>
#include <cstdio>
class SimContext; class PtwMemPort; class PtwWalkPort; struct CsrStatusIO;
class TlbMmu {
public:
  enum class Result { OK, FAULT, RETRY };
  enum class RetryReason : uint8_t { NONE = 0, OTHER_WALK_ACTIVE, WALK_REQ_BLOCKED, WAIT_WALK_RESP, LOCAL_WALKER_BUSY };
  enum class Kind { ITLB, DTLB };
  TlbMmu(SimContext *, PtwMemPort *, int, Kind) {}
  Result translate(uint32_t &p_addr, uint32_t v_addr, uint32_t type, CsrStatusIO *status);
  RetryReason last_retry_reason() const { return RetryReason::NONE; }
  void flush() {} void cancel_pending_walk() {} void seq() {} void dump_debug(FILE *) const {} void set_ptw_mem_port(PtwMemPort *) {} void set_ptw_walk_port(PtwWalkPort *) {}
};
