// Stands in for the bus kit, which lives outside the repository: its ports and the signals the machine exchanges with it.
#pragma once
#include <cstdint>
#include <cstring>
#include "SimDDR.h"
namespace axi_interconnect {
constexpr int MASTER_ICACHE = 0, MASTER_DCACHE_R = 1, MASTER_EXTRA_R = 2, NUM_READ_MASTERS = 3, MASTER_DCACHE_W = 0, MASTER_EXTRA_W = 1, NUM_WRITE_MASTERS = 2, CACHELINE_WORDS = 16, MAX_READ_TRANSACTION_WORDS = 16, MAX_READ_TRANSACTION_BYTES = 64, AXI_UPSTREAM_PAYLOAD_BYTES = 64, MAX_OUTSTANDING = 8, MAX_READ_OUTSTANDING_PER_MASTER = 8, AXI_LLC_META_ENTRY_BYTES = 4, AXI_LLC_REPL_BYTES = 4;
struct Line { uint32_t w[CACHELINE_WORDS]; uint32_t &operator[](int i) { return w[i]; } uint32_t operator[](int i) const { return w[i]; } void clear() { std::memset(w, 0, sizeof w); } };
struct ReadReq { bool valid, ready, accepted, bypass; uint8_t accepted_id, total_size, id; uint32_t addr; };
struct ReadResp { bool valid, ready; uint8_t id; Line data; };
struct ReadMasterPort_t { ReadReq req; ReadResp resp; };
struct WriteReq { bool valid, ready, accepted, bypass; uint8_t accepted_id, total_size, id; uint32_t addr; uint64_t wstrb; Line wdata; };
struct WriteResp { bool valid, ready; uint8_t id, resp; };
struct WriteMasterPort_t { WriteReq req; WriteResp resp; };
struct ReadReqHoldLatch { bool valid; uint32_t addr; uint8_t total_size, id; bool bypass; };
struct AXI_LLCConfig { bool enable; uint64_t size_bytes; uint32_t ways, mshr_num, lookup_latency, line_bytes; bool prefetch_enable, nine, dcache_read_miss_noalloc; uint32_t prefetch_degree, prefetch_distance; };
struct AXI_LLC_LookupIn_t { int x; }; struct AXI_LLC_TableOut_t { int x; }; struct AXI_LLCPerfCounters_t { int x; };
class AXI_Interconnect {
public:
  ReadMasterPort_t read_ports[NUM_READ_MASTERS]; WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  bool read_req_accepted[NUM_READ_MASTERS], write_req_accepted[NUM_WRITE_MASTERS], req_ready_r[NUM_READ_MASTERS], req_drop_warned[NUM_READ_MASTERS], w_req_ready_r[NUM_WRITE_MASTERS]; uint8_t read_req_accepted_id[NUM_READ_MASTERS]; ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS];
  sim_ddr::SimDDR_IO_t axi_ddr_io, axi_mmio_io; AXI_LLC_TableOut_t out; AXI_LLCPerfCounters_t perf;
  void init() {} void comb_inputs() {} void comb_outputs() {} void seq() {} void set_llc_config(const AXI_LLCConfig &) {} void set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {} const AXI_LLC_TableOut_t &get_llc_table_out() const { return out; } const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return perf; }
};
}
